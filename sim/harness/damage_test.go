package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"

	"github.com/thesues/cannyls-go/storage"

	"verif.local/sim/rt"
)

// ringRec is a journal record as found by the reference parser.
type ringRec struct {
	tag byte
	off int
	len int
}

// parseRing reads a journal from its head the way the format is documented. It
// returns the records passed, the end mark included, and why it stopped early.
func parseRing(ring []byte, head uint64) ([]ringRec, string) {
	var out []ringRec
	if head >= uint64(len(ring)) {
		return nil, "the head is outside the ring"
	}
	pos, wrapped := int(head), false
	for {
		if pos+5 > len(ring) {
			return out, "a record reaches beyond the end"
		}
		sum, tag := binary.BigEndian.Uint32(ring[pos:]), ring[pos+4]
		n := 0
		switch tag {
		case 0, 1:
		case 3:
			n = 15
		case 4:
			n = 10
			if pos+5+n <= len(ring) {
				n += int(binary.BigEndian.Uint16(ring[pos+13:]))
			}
		case 5:
			n = 8
		case 6:
			n = 16
		default:
			return out, "unknown tag"
		}
		if pos+5+n > len(ring) {
			return out, "a record reaches beyond the end"
		}
		if adler32.Checksum(ring[pos+4:pos+5+n]) != sum {
			return out, "checksum"
		}
		out = append(out, ringRec{tag, pos, 5 + n})
		pos += 5 + n
		switch {
		case tag == 0:
			return out, ""
		case tag == 1 && (wrapped || pos == 5):
			return out, "no end"
		case tag == 1:
			pos, wrapped = 0, true
		}
		if wrapped && pos > int(head) {
			return out, "no end"
		}
	}
}

// whole is the file up to the end of the ring at least: the file is as long as
// the last byte written.
func (e *seq) whole(img []byte) []byte {
	if int64(len(img)) < e.ringHi {
		img = append(img[:len(img):len(img)], make([]byte, e.ringHi-int64(len(img)))...)
	}
	return img
}

func (e *seq) ring(img []byte) ([]byte, uint64) {
	img = e.whole(img)
	return img[e.ringLo:e.ringHi], binary.BigEndian.Uint64(img[e.ringLo-blk:])
}

// hurt damages bytes of the journal in img and says what it did.
func (e *seq) hurt(r *rt.RNG, img []byte) string {
	ring, head := e.ring(img)
	recs, why := parseRing(ring, head)
	if why != "" || len(recs) == 0 {
		// the journal was written by the code under test: the reference parser
		// and the code have to agree about it
		e.fail("corrupt", "the journal of a storage that was closed cannot be parsed: %s", why)
	}
	set := func(at, n int, f func(i int) byte) string {
		at = max(0, at)
		n = min(n, len(ring)-at)
		for i := 0; i < n; i++ {
			ring[at+i] = f(i)
		}
		return fmt.Sprintf("%d bytes at %d of the journal", n, at)
	}
	rec := recs[r.Intn(len(recs))]
	if r.Intn(4) == 0 {
		rec = recs[len(recs)-1-r.Intn(min(3, len(recs)))]
	}
	at := rec.off + r.Intn(rec.len)
	if r.Intn(3) == 0 { // the fixed part
		at = rec.off + r.Intn(min(rec.len, 15))
	}
	if r.Intn(10) == 0 { // anywhere
		at = r.Intn(len(ring))
	}
	old := ring[at]
	switch k := r.Intn(14); k {
	case 0, 1, 2:
		return "bit flipped: " + set(at, 1, func(int) byte { return old ^ 1<<r.Intn(8) })
	case 3, 4:
		return "byte changed: " + set(at, 1, func(int) byte { return old + byte(1+r.Intn(255)) })
	case 5:
		return "tag changed: " + set(rec.off+4, 1, func(int) byte { return byte([]int{0, 1, 2, 3, 4, 5, 6, 7, 255}[r.Intn(9)]) })
	case 6:
		return "length changed: " + set(rec.off+13, 2, func(i int) byte { return byte([]int{0, 1, 255, r.Intn(256)}[r.Intn(4)]) })
	case 7:
		return "checksum changed: " + set(rec.off, 1+r.Intn(4), func(i int) byte { return byte(r.Intn(256)) })
	case 8, 9:
		n := 2 + r.Intn(8)
		return "bytes changed: " + set(at, n, func(i int) byte { return byte(r.U64()) })
	case 10:
		n := 1 + r.Intn(600)
		return "zeros: " + set(at, n, func(i int) byte { return 0 })
	case 11:
		n := 1 + r.Intn(600)
		return "ones: " + set(at, n, func(i int) byte { return 255 })
	case 12:
		return "zeroed sector: " + set(at/blk*blk, blk, func(i int) byte { return 0 })
	}
	return "random sector: " + set(at/blk*blk, blk, func(i int) byte { return byte(r.U64()) })
}

// damage closes the storage, changes bytes of its journal, opens it, and undoes
// the change, several times.
func (e *seq) damage(op Op) {
	e.sim.Disk.List, e.saved = nil, e.sim.Disk.List
	defer func() { e.sim.Disk.List = e.saved }()
	st := e.st
	if died, _ := e.call(func() { st.Close() }); died {
		e.recover(nil)
		return
	}
	e.m.didSync()
	e.st = nil
	fs := e.sim.Host0.FS
	ino := fs.Files[e.path]
	orig := append([]byte(nil), e.whole(ino.Cur)...)
	if e.m.cur().ambiguous() {
		op.N = 0
	}
	for k := 0; k < int(op.N); k++ {
		e.damageOne(rt.NewRNG(op.D+uint64(k)<<40, "damage"), ino, orig)
		restore(ino, orig)
	}
	var err error
	died, _ := e.call(func() { e.st, err = storage.OpenCannylsStorage(e.path) })
	if died || err != nil {
		e.fail("corrupt", "the storage does not open after the damage to its journal was undone: %v", err)
	}
	if e.noGC {
		e.setGC(false)
	}
	e.audit("corrupt", 0)
}

func restore(ino *rt.Inode, img []byte) {
	ino.Cur = append([]byte(nil), img...)
	if ino.Durable != nil {
		ino.Durable = append([]byte(nil), img...)
	}
	ino.Pending = nil
}

func (e *seq) damageOne(r *rt.RNG, ino *rt.Inode, orig []byte) {
	img := append([]byte(nil), orig...)
	var what string
	headers := r.Intn(12) == 0
	if headers { // no checksum covers these: opening must only come to an end
		at := []int64{0, e.ringLo - blk, e.ringLo - blk}[r.Intn(3)] + int64(r.Intn(48))
		if at >= e.ringLo-blk {
			at = e.ringLo - blk + int64(r.Intn(8))
		}
		img[at] ^= byte(1 + r.Intn(255))
		what = fmt.Sprintf("byte %d of the file changed", at)
	} else {
		what = e.hurt(r, img)
	}
	if r.Intn(8) == 0 {
		what += ", " + e.hurt2(r, img)
	}
	if bytes.Equal(img, orig) {
		return
	}
	ring, head := e.ring(img)
	_, why := parseRing(ring, head)
	restore(ino, img)
	e.probe("damaged")
	e.sim.Stats.Faults["damage"]++
	var err error
	var st *storage.Storage
	died, _ := e.call(func() { st, err = storage.OpenCannylsStorage(e.path) })
	e.note(fmt.Sprint(what, err == nil))
	e.trace("  %s; reference: %q; open: %v", what, why, err)
	if died {
		e.fail("panic", "opening with %s killed the process: %s", what, e.proc.PanicV)
	}
	if err != nil {
		e.probe("damage-refused")
		e.released("corrupt", fmt.Sprintf("an open that failed (%v) after %s", err, what))
		return
	}
	e.st = st
	if headers {
		e.probe("header-damage-opened")
		e.readBack()
	} else if msg := e.sameAs(e.m.cur()); msg != "" {
		if why == "" {
			// what is there is a complete journal, checksums and all: the format
			// cannot tell
			e.probe("damage-not-detectable")
		} else {
			e.fail("corrupt", "opening with %s (reference parser: %s) succeeded and shows something else: %s", what, why, msg)
		}
	} else {
		e.probe("damage-harmless")
	}
	st = e.st
	e.st = nil
	if died, _ := e.call(func() { st.Close() }); died {
		e.fail("panic", "closing after %s killed the process: %s", what, e.proc.PanicV)
	}
	e.released("corrupt", "Close after "+what)
}

// hurt2 damages a journal that is damaged already.
func (e *seq) hurt2(r *rt.RNG, img []byte) string {
	ring, _ := e.ring(img)
	at := r.Intn(len(ring))
	ring[at] ^= byte(1 + r.Intn(255))
	return fmt.Sprintf("byte %d of the journal changed", at)
}

func (e *seq) released(class, what string) {
	fs := e.sim.Host0.FS
	if n := fs.Handles(e.proc); n != 0 {
		e.fail(class, "%s left %d file handles open", what, n)
	}
	if fs.LockedBy(e.path) != nil {
		e.fail(class, "%s left the file locked", what)
	}
}

// sameAs compares the open storage with a state of the model.
func (e *seq) sameAs(s *State) string {
	got := e.readBack()
	for id := range got {
		if s.m[id] == nil {
			return fmt.Sprintf("lump %x is there, it should not", id)
		}
	}
	for _, id := range s.ids() {
		g := got[id]
		if g == nil {
			return fmt.Sprintf("lump %x is missing", id)
		}
		if msg := e.m.matchVal(s.live(id), g, false); msg != "" {
			return fmt.Sprintf("lump %x: %s", id, msg)
		}
	}
	return ""
}

// tear is a journal write of which a crash or a power loss left only some
// sectors on the device.
type tear struct {
	off  int64
	b    []byte
	mask uint64
}

// tearWrites makes journal writes tear: the one at which the process dies, and
// the first one a power loss drops.
func (e *seq) tearWrites() {
	inRing := func(p string, off int64) bool {
		return p == absPath(e.path) && off >= e.ringLo && off < e.ringHi
	}
	e.sim.Disk.OnTorn = func(i *rt.Inode, off int64, b []byte, k int) {
		if inRing(i.Path, off) && k < len(b) {
			e.torn = &tear{off, append([]byte(nil), b...), 1<<(k/blk) - 1}
			e.probe("torn-crash")
		}
	}
	old := e.sim.Disk.Policy
	e.sim.Disk.Policy = func(f *rt.Fault, pend []*rt.WriteOp) []bool {
		keep := old(f, pend)
		for i, w := range pend {
			if inRing(w.Ino.Path, w.Off) {
				if !keep[i] && len(w.Data) > blk && f.Arg>>20&1 == 0 {
					e.torn = &tear{w.Off, append([]byte(nil), w.Data...), rt.Mix(f.Arg)}
					if f.Arg>>21&1 == 0 { // only the first sectors
						n := rt.Mix(f.Arg^5) % uint64(len(w.Data)/blk)
						e.torn.mask = 1<<n - 1
					}
					e.probe("torn-power")
				} else if !keep[i] {
					e.torn = nil
				}
				if !keep[i] {
					break
				}
			}
		}
		return keep
	}
}

// put writes the sectors of a torn write that reached the device, or all.
func (t *tear) put(ino *rt.Inode, all bool) {
	if n := t.off + int64(len(t.b)); n > int64(len(ino.Cur)) {
		ino.Cur = append(ino.Cur, make([]byte, n-int64(len(ino.Cur)))...)
	}
	if n := t.off + int64(len(t.b)); ino.Durable != nil && n > int64(len(ino.Durable)) {
		ino.Durable = append(ino.Durable, make([]byte, n-int64(len(ino.Durable)))...)
	}
	for i := 0; i < len(t.b)/blk; i++ {
		if all || i < 64 && t.mask>>uint(i)&1 == 1 {
			lo := int(t.off) + i*blk
			copy(ino.Cur[lo:lo+blk], t.b[i*blk:])
			if ino.Durable != nil {
				copy(ino.Durable[lo:lo+blk], t.b[i*blk:])
			}
		}
	}
}

// genTorn makes runs whose journal records all end at multiples of some power
// of two, so that the end of a torn write often is the end of a record, and
// loses power or dies in the middle of journal writes.
func genTorn(prop string, seed uint64) *Trace {
	tr := genSeq(prop, seed)
	r := rt.NewRNG(seed, "torn")
	tr.Conf.Mode, tr.Conf.Track = "torn", true
	tr.Conf.Ring = pickInt(r, []int{2048, 2560, 3072, 4096, 6144})
	unit := pickInt(r, []int{16, 32, 64, 128, 256})
	var ops []Op
	for _, op := range tr.Ops[:min(len(tr.Ops), 150)] {
		switch op.K {
		case "put", "putmax", "putover", "embed", "del", "delr", "upd", "wrec":
			if op.K == "del" && r.Intn(3) > 0 {
				break
			}
			op = Op{K: "embed", ID: op.ID, D: op.D, Len: max(0, unit*(1+r.Intn(2))-15)}
		case "damage", "openbad", "flush", "sync":
			if r.Intn(4) > 0 {
				continue
			}
		}
		ops = append(ops, op)
	}
	tr.Ops = ops
	tr.Faults = nil
	for n := 2 + r.Intn(8); n > 0; n-- {
		f := &rt.Fault{Op: -1, Kind: "power", Nth: 1 + r.Intn(60), When: "after", Arg: r.U64() &^ (1 << 20)}
		if r.Intn(3) == 0 {
			f.Kind, f.When = "crash", "torn"
		}
		tr.Faults = append(tr.Faults, f)
	}
	return tr
}
