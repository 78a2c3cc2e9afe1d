package harness

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"path/filepath"
	"strings"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"

	"verif.local/sim/rt"
)

// snaps is the oracle for snapshots: every write to the storage file is
// logged, and what a snapshot reader returns must be the bytes of the file at
// one position of the log within the call that created the snapshot.
type snaps struct {
	ino     *rt.Inode
	img0    []byte // the file when the round began
	log     []wlog
	readers map[int]*snapReader // by client
	all     []*snapReader
	pinned  []byte // image of the snapshot that exists since an earlier round
	decoys  map[string][]byte
	restart bool
	exists  bool
	ignore  bool // linearize without the snapshot operations
	fits    bool
	known   []byte // image read completely in this round
}

type wlog struct {
	off int64
	b   []byte
}

type snapPiece struct {
	off int64
	b   []byte
}

type snapReader struct {
	r      *nvm.SnapshotReader
	from   *call
	pos    int64
	pieces []snapPiece
	eofs   []int64
	full   bool
}

const snapSuffix = "_lusf.snapshot"

// setup puts files with similar names next to the storage.
func (s *snaps) setup(c *conc) {
	s.readers = map[int]*snapReader{}
	s.decoys = map[string][]byte{}
	clean := absPath(c.path)
	fs := c.sim.Host0.FS
	fs.MkdirAll(filepath.Dir(clean))
	if c.tr.Conf.Files == 0 {
		return
	}
	p := strings.TrimSuffix(clean, ".lusf")
	r := rt.NewRNG(c.tr.Seed, "decoys")
	uuid := func() string {
		a, b := r.U64(), r.U64()
		return fmt.Sprintf("%08x-%04x-4%03x-a%03x-%012x", a>>32, a>>16&0xffff, a&0xfff, b>>48&0xfff, b&0xffffffffffff)
	}
	dir, base := filepath.Dir(clean), strings.TrimSuffix(filepath.Base(clean), ".lusf")
	names := []string{
		p + "_b_" + uuid() + snapSuffix,
		p + "_1" + "_" + uuid() + snapSuffix,
		p + "b_" + uuid() + snapSuffix,
		p + uuid() + snapSuffix,
		p + "_" + uuid() + snapSuffix + ".bak",
		p + "_" + uuid() + ".snapshot",
		p + "_old" + snapSuffix,
		p + "_" + uuid() + "x" + snapSuffix,
		p + "__" + uuid() + snapSuffix,
		p + "_{" + uuid() + "}" + snapSuffix,
		p + "_" + strings.ReplaceAll(uuid(), "-", "") + snapSuffix,
		p + "_urn:uuid:" + uuid() + snapSuffix,
		p + ".lusf_" + uuid() + snapSuffix,
		dir + "/x" + base + "_" + uuid() + snapSuffix,
		dir + "/sub/" + base + "_" + uuid() + snapSuffix,
		dir + "/_" + uuid() + snapSuffix,
		p + "_" + uuid() + ".lusf",
		p + "_b.lusf",
	}
	if filepath.Dir(dir) != "/" {
		names = append(names, filepath.Dir(dir)+"/"+base+"_"+uuid()+snapSuffix)
	}
	if len(base) > 1 {
		names = append(names, dir+"/"+base[:len(base)-1]+"_"+uuid()+snapSuffix)
	}
	for _, n := range names {
		if r.Intn(3) == 0 || n == clean || strings.HasPrefix(n, dir+"/_") && filepath.Base(clean) == ".lusf" {
			continue
		}
		fs.MkdirAll(filepath.Dir(n))
		var b []byte
		if r.Intn(3) != 0 {
			b = pattern(r.U64(), 100+r.Intn(1500))
		}
		fs.PutFile(n, b)
		s.decoys[n] = b
	}
}

// files that belong to the snapshot of the storage (or to nobody).
func (s *snaps) files(c *conc) []string {
	var out []string
	for _, f := range c.sim.Host0.FS.List("/") {
		if _, ok := s.decoys[f]; !ok && f != absPath(c.path) && f != imgPath {
			out = append(out, f)
		}
	}
	return out
}

func (s *snaps) begin(c *conc) {
	fs := c.sim.Host0.FS
	uses := false
	for _, op := range c.tr.Ops {
		uses = uses || strings.HasPrefix(op.K, "snap")
	}
	s.log, s.known = nil, nil
	s.readers, s.all = map[int]*snapReader{}, nil
	if !uses {
		s.ino = nil
		return
	}
	s.ino = fs.Files[absPath(c.path)]
	s.img0 = append([]byte(nil), s.ino.Cur...)
	ino := s.ino
	fs.OnWrite = func(i *rt.Inode, off int64, b []byte) {
		if i == ino {
			s.log = append(s.log, wlog{off, append([]byte(nil), b...)})
		}
	}
}

// ended: the clients are done (or dead).
func (s *snaps) ended(c *conc) {
	if s.ino == nil {
		return
	}
	c.sim.Host0.FS.OnWrite = nil
	for _, k := range c.hist {
		if k.ret == math.MaxUint64 {
			k.logB = len(s.log)
		}
	}
}

// read is one call of a client on its reader.
func (s *snaps) read(c *conc, k *call) error {
	op := k.op
	rd := s.readers[op.C]
	if rd == nil {
		return nil
	}
	k.out.num = 1
	if op.End != 0 {
		size, err := rd.r.Seek(0, io.SeekEnd)
		if err != nil {
			return fmt.Errorf("seek to the end: %v", err)
		}
		rd.eofs = append(rd.eofs, size)
		to := int64(op.Off) % (size + 1)
		p, err := rd.r.Seek(to, io.SeekStart)
		if err != nil {
			return fmt.Errorf("seek to %d: %v", to, err)
		}
		if p != to {
			return fmt.Errorf("seek to %d went to %d", to, p)
		}
		rd.pos = to
	}
	b := make([]byte, op.Len)
	for i := 0; i < int(op.N); i++ {
		n, err := rd.r.Read(b)
		if n > 0 {
			rd.pieces = append(rd.pieces, snapPiece{rd.pos, append([]byte(nil), b[:n]...)})
			rd.pos += int64(n)
		}
		if err == io.EOF {
			rd.eofs = append(rd.eofs, rd.pos)
			break
		}
		if err != nil {
			return err
		}
		if n == 0 && len(b) > 0 && i > 1000 {
			return fmt.Errorf("Read returns 0 bytes and no error")
		}
	}
	return nil
}

// after judges the result of a reader call.
func (s *snaps) after(c *conc, k *call) {
	if k.op.K == "snapg" && k.out.err == "" {
		s.all = append(s.all, s.readers[k.op.C])
	}
	if k.op.K != "snapr" || k.out.err == "" {
		return
	}
	if c.ioFailed() {
		delete(s.readers, k.op.C)
		return
	}
	rd := s.readers[k.op.C]
	for _, d := range c.hist {
		if (d.op.K == "snapd" || d.op.K == "close") && d.call < k.ret && d.ret > rd.from.call {
			c.probe("snap-reader-cut-off")
			delete(s.readers, k.op.C)
			return
		}
	}
	c.note2(&Violation{Class: "snap", Op: k.n, Msg: "reading the snapshot failed: " + cut(k.out.err)})
}

// look reads the snapshot that is there after the round and finds out which
// creation every reader belongs to.
func (s *snaps) look(c *conc) {
	if s.ino == nil {
		return
	}
	cl := "snap"
	if s.restart {
		cl = "snapcrash"
	}
	fs := c.sim.Host0.FS
	for n, b := range s.decoys {
		f := fs.Files[n]
		if f == nil {
			c.fail("snapfiles", "%s, a file of somebody else, is gone", n)
		}
		if !bytes.Equal(f.Cur, b) {
			c.fail("snapfiles", "%s, a file of somebody else, has changed", n)
		}
	}
	fl := s.files(c)
	if len(fl) > 1 {
		c.fail("snapfiles", "there are %d files of snapshots: %v", len(fl), fl)
	}
	s.exists = len(fl) == 1
	if n := fs.Handles(c.proc); n != 1+len(fl) && c.st != nil {
		c.fail("snapfiles", "%d file handles are open, there are a storage and %d snapshots", n, len(fl))
	}
	k := &call{n: -1, client: -1, op: Op{K: "snaplook"}, ret: math.MaxUint64, call: c.tick()}
	k.out.ok = s.exists
	c.hist = append(c.hist, k)
	var last *snapReader
	if s.exists {
		last = s.readAll(c, cl, k)
		s.all = append(s.all, last)
	}
	// creations of this round
	var made []*call
	for _, k := range c.hist {
		if (k.op.K == "snapc" || k.op.K == "snapg") && (k.out.err == "" || k.ret == math.MaxUint64) {
			made = append(made, k)
		}
	}
	cands := map[*call][]int{}
	for _, rd := range s.all {
		if rd == nil {
			continue
		}
		set := map[int16]bool{}
		if s.pinned != nil && rd.matches(s.pinned) {
			set[-1] = true
		}
		var only *call
		var pos []int
		for _, k := range made {
			if k.call > rd.from.ret {
				continue
			}
			if p := s.positions(k, rd); len(p) > 0 {
				set[int16(k.n+1)] = true
				only, pos = k, p
			}
		}
		if len(set) == 0 {
			what := "its last reader"
			if rd != last {
				what = fmt.Sprintf("the reader client %d got in operation %d", rd.from.client, rd.from.n)
			}
			m := cl
			if rd != last {
				m = "snap"
			}
			c.fail(m, "what %s read is not the storage file at any instant at which a snapshot was created%s", what, s.explain(c, rd, made))
		}
		if len(set) == 1 && only != nil {
			if old, ok := cands[only]; ok {
				var both []int
				for _, a := range old {
					for _, b := range pos {
						if a == b {
							both = append(both, a)
						}
					}
				}
				if len(both) == 0 {
					c.fail("snap", "two readers of the snapshot created by operation %d read different instants", only.n)
				}
				pos = both
			}
			cands[only] = pos
			if rd.full && only.img == nil {
				only.img = s.content(c, rd)
			}
		}
		rd.from.set = set
	}
	if last != nil {
		s.known = last.bytes()
		c.probe("snapshot-checked")
		if c.proc.Why != "" || s.restart {
			c.probe("snapshot-checked-after-restart")
		}
		if k.set[-1] {
			c.probe("snapshot-from-earlier-round")
		}
	}
}

// kept is the snapshot state the next round starts with.
func (s *snaps) kept(c *conc) int16 {
	if s.ino == nil {
		return c.init.snap
	}
	if !s.exists {
		s.pinned = nil
		return 0
	}
	s.pinned = s.known
	return -1
}

// readAll reads the existing snapshot from start to end.
func (s *snaps) readAll(c *conc, cl string, k *call) *snapReader {
	rd := &snapReader{from: k, full: true}
	var err error
	died, _ := c.call(func() { rd.r, err = c.st.GetSnapshotReader() })
	if died || err != nil {
		c.fail(cl, "the snapshot exists, getting a reader fails: %v %s", err, c.proc.PanicV)
	}
	r := rt.NewRNG(c.tr.Seed+uint64(k.call), "pieces")
	max := []int{len(s.img0) * 2, 1 << 20, 70000, 5000}[r.Intn(4)]
	if max < len(s.img0)/200 {
		max = len(s.img0) / 200
	}
	var all []byte
	for i := 0; ; i++ {
		b := make([]byte, 1+r.Intn(max))
		var n int
		if died, _ := c.call(func() { n, err = rd.r.Read(b) }); died {
			c.fail("panic", "process died reading the snapshot: %s", c.proc.PanicV)
		}
		all = append(all, b[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			c.fail(cl, "reading the snapshot at %d failed: %v", len(all), err)
		}
		if i > 100000 {
			c.fail(cl, "reading the snapshot does not end")
		}
	}
	rd.pieces = []snapPiece{{0, all}}
	rd.eofs = []int64{int64(len(all))}
	return rd
}

func (rd *snapReader) bytes() []byte { return rd.pieces[0].b }

func (rd *snapReader) matches(img []byte) bool {
	for _, e := range rd.eofs {
		if e != int64(len(img)) {
			return false
		}
	}
	for _, p := range rd.pieces {
		if p.off+int64(len(p.b)) > int64(len(img)) || !bytes.Equal(p.b, img[p.off:p.off+int64(len(p.b))]) {
			return false
		}
	}
	return true
}

// mism counts the bytes of the pieces within [lo, hi) that differ.
func (rd *snapReader) mism(img []byte, lo, hi int64) (n int) {
	for _, p := range rd.pieces {
		a, b := max(lo, p.off), min(hi, p.off+int64(len(p.b)))
		if a >= b {
			continue
		}
		m := min(b, int64(len(img)))
		if a < m && bytes.Equal(img[a:m], p.b[a-p.off:m-p.off]) {
			a = m
		}
		for ; a < b; a++ {
			if a >= int64(len(img)) || img[a] != p.b[a-p.off] {
				n++
			}
		}
	}
	return
}

func (w *wlog) apply(img []byte) []byte {
	if n := w.off + int64(len(w.b)); n > int64(len(img)) {
		img = append(img, make([]byte, n-int64(len(img)))...)
	}
	copy(img[w.off:], w.b)
	return img
}

// positions are the instants within the call k whose image is what rd read.
func (s *snaps) positions(k *call, rd *snapReader) (out []int) {
	img := append([]byte(nil), s.img0...)
	for i := range s.log[:k.logA] {
		img = s.log[i].apply(img)
	}
	end := int64(math.MaxInt64)
	bad := rd.mism(img, 0, end)
	for p := k.logA; ; p++ {
		eof := true
		for _, e := range rd.eofs {
			eof = eof && e == int64(len(img))
		}
		if bad == 0 && eof {
			out = append(out, p)
		}
		if p >= k.logB {
			return
		}
		w := &s.log[p]
		lo, hi := min(w.off, int64(len(img))), w.off+int64(len(w.b))
		bad -= rd.mism(img, lo, hi)
		img = w.apply(img)
		bad += rd.mism(img, lo, hi)
	}
}

func (s *snaps) explain(c *conc, rd *snapReader, made []*call) string {
	size := 0
	for _, p := range rd.pieces {
		size += len(p.b)
	}
	m := fmt.Sprintf(" (%d bytes read, ends seen at %v)", size, rd.eofs)
	if s.pinned != nil {
		m += fmt.Sprintf("; against the image read in an earlier round %d bytes differ", rd.mism(s.pinned, 0, math.MaxInt64))
	}
	for _, k := range made {
		img := append([]byte(nil), s.img0...)
		for i := range s.log[:k.logB] {
			img = s.log[i].apply(img)
		}
		n := rd.mism(img, 0, math.MaxInt64)
		first := -1
		for _, p := range rd.pieces {
			for i := range p.b {
				if o := int(p.off) + i; first < 0 && (o >= len(img) || img[o] != p.b[i]) {
					first = o
				}
			}
		}
		m += fmt.Sprintf("; against the end of its creation by operation %d %d bytes differ, the first at %d of %d", k.n, n, first, len(img))
	}
	return m
}

const imgPath = "/sim/zz/img.lusf"

// content opens the image as a storage and returns what it holds.
func (s *snaps) content(c *conc, rd *snapReader) *cstate {
	fs := c.sim.Host0.FS
	fs.MkdirAll(filepath.Dir(imgPath))
	fs.PutFile(imgPath, rd.bytes())
	st, proc, path := c.st, c.proc, c.path
	c.newProc()
	c.path = imgPath
	defer func() {
		delete(fs.Files, imgPath)
		c.st, c.proc, c.path = st, proc, path
	}()
	var err error
	died, _ := c.call(func() { c.st, err = storage.OpenCannylsStorage(imgPath) })
	if died || err != nil {
		c.st = nil
		c.fail("snap", "the saved image does not open as a storage: %v %s", err, c.proc.PanicV)
	}
	out := &cstate{}
	for id, g := range c.readBack() {
		i, ok := c.slot[id]
		if !ok {
			c.fail("snap", "the image holds lump %x, nobody ever put it", id)
		}
		if g.Err != nil {
			c.fail("snap", "the image holds lump %x, reading it fails: %v", id, g.Err)
		}
		out.v[i] = int16(c.intern(g.Data, g.Embed))
	}
	im := c.st
	if died, _ := c.call(func() { im.Close() }); died {
		c.fail("snap", "process died closing the image: %s", c.proc.PanicV)
	}
	c.probe("image-opened")
	return out
}

func absPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/sim/" + p
	}
	return filepath.Clean(p)
}
