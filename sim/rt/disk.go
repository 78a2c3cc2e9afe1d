package rt

import (
	"errors"
	"io"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

const Sector = 512

// WriteOp is one file write not yet covered by a sync.
type WriteOp struct {
	Seq  uint64
	Ino  *Inode
	Off  int64
	Data []byte
}

type Inode struct {
	ID      int
	Path    string
	fs      *FS
	Cur     []byte
	Durable []byte

	FarCur, FarDurable farStore // the content beyond Near

	Pending []*WriteOp
	lock    *File
	Mode    uint32
	MTime   time.Time
	Dir     bool
	Bad     map[int64]bool // sectors whose reads fail
	Writes  uint64
	MaxRead int // one read call returns no more
}

type FS struct {
	sim         *Sim
	Files       map[string]*Inode
	next        int
	seq         uint64
	fds         map[int]*File
	nfd         int
	Track       bool  // keep the durable image and the pending writes (power loss)
	Free        int64 // bytes that may still be allocated; <0 means unlimited
	OpenHandles int
	OnWrite     func(i *Inode, off int64, b []byte)
}

func NewFS(s *Sim) *FS {
	fs := &FS{sim: s, Files: map[string]*Inode{}, fds: map[int]*File{}, nfd: 1000, Free: -1}
	fs.MkdirAll("/sim")
	return fs
}

func (fs *FS) MkdirAll(p string) {
	p = path.Clean(p)
	for p != "/" && p != "." {
		if fs.Files[p] == nil {
			fs.next++
			fs.Files[p] = &Inode{ID: fs.next, Path: p, fs: fs, Dir: true}
		}
		p = path.Dir(p)
	}
}

func (fs *FS) List(prefix string) []string {
	var out []string
	for p, i := range fs.Files {
		if !i.Dir && strings.HasPrefix(p, prefix) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (fs *FS) Create(p string) *Inode {
	fs.next++
	i := &Inode{ID: fs.next, Path: p, fs: fs, Mode: 0755, MTime: time.Now()}
	fs.Files[p] = i
	return i
}

// PutFile installs a file with durable content (harness use).
func (fs *FS) PutFile(p string, b []byte) *Inode {
	i := fs.Create(p)
	i.Cur = append([]byte(nil), b...)
	i.Durable = append([]byte(nil), b...)
	return i
}

func grow(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b
	}
	if int64(cap(b)) >= n {
		return b[:n]
	}
	c := make([]byte, n, n+n/4+4096)
	copy(c, b)
	return c
}

func (i *Inode) write(off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	i.Cur = putBytes(i.Cur, &i.FarCur, off, b)
	i.Writes++
	i.MTime = time.Now()
	if i.fs.OnWrite != nil {
		i.fs.OnWrite(i, off, b)
	}
	if i.fs.Track {
		i.fs.seq++
		i.Pending = append(i.Pending, &WriteOp{i.fs.seq, i, off, append([]byte(nil), b...)})
	}
}

// syncRange makes the content of a range durable (a write with O_SYNC).
func (i *Inode) syncRange(off, end int64) {
	rest := i.Pending[:0]
	for _, w := range i.Pending {
		if w.Off < end && off < w.Off+int64(len(w.Data)) {
			w.apply()
		} else {
			rest = append(rest, w)
		}
	}
	i.Pending = rest
}

func (w *WriteOp) apply() {
	w.Ino.Durable = putBytes(w.Ino.Durable, &w.Ino.FarDurable, w.Off, w.Data)
}

func (i *Inode) sync() {
	for _, w := range i.Pending {
		w.apply()
	}
	i.Pending = i.Pending[:0]
}

// PowerLoss keeps of every file only what was synced plus the pending writes
// the policy chooses to keep.
func (fs *FS) PowerLoss(keep func(pend []*WriteOp) []bool) (lost, kept int) {
	var all []*WriteOp
	for _, i := range fs.Files {
		all = append(all, i.Pending...)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].Seq < all[b].Seq })
	ks := keep(all)
	for n, w := range all {
		if ks[n] {
			w.apply()
			kept++
		} else {
			lost++
		}
	}
	for _, i := range fs.Files {
		i.Pending = nil
		i.Cur = append(i.Cur[:0:0], i.Durable...)
		i.FarCur = i.FarDurable.clone()
		i.lock = nil
	}
	return
}

// ---- faults ----

// Fault is one injected event. Op is the index of the operation of the
// workload during which it fires (-1: counted over the whole run), Nth counts
// matching device calls within that operation from 1.
type Fault struct {
	Op    int    `json:"op"`
	Kind  string `json:"kind"` // crash, power, eread, ewrite, esync, efalloc, eopen, enospc, short
	Nth   int    `json:"nth"`
	When  string `json:"when,omitempty"` // crash: before, after, torn
	Arg   uint64 `json:"arg,omitempty"`  // torn: sectors kept; power: loss policy seed
	Len   int    `json:"len,omitempty"`  // error faults: number of consecutive calls hit (0 = 1)
	Sub   string `json:"sub,omitempty"`  // only calls on files whose path contains it, counted on their own
	Ring  bool   `json:"ring,omitempty"` // only calls on the journal ring, counted on their own
	Fired bool   `json:"-"`
	seen  int
}

// TornWrite is a write of which only the first part reached the device.
type TornWrite struct {
	Path string
	Off  int64
	Len  int
	Done int
}

type Faults struct {
	RingPath                               string // where the journal ring is
	RingLo, RingHi                         int64
	Torn                                   []TornWrite // short writes so far
	sim                                    *Sim
	List                                   []*Fault
	op                                     int
	nmut, nrd, nsync, nwr, nopen, nfa, nfl int
	nrm, trm, ndir, tdir                   int
	tmut, trd, tsync, twr, topen, tfa, tfl int
	// Policy decides which pending writes survive a power loss.
	Policy     func(f *Fault, pend []*WriteOp) []bool
	FiredIO    int
	LastIO     string                                     // the file of the last one
	Whole      func(i *Inode, off int64) bool             // writes a crash does not tear
	OnTorn     func(i *Inode, off int64, b []byte, k int) // a crash tore this write, k bytes are stored
	Trail      func(kind string, ino *Inode, off int64, n int)
	Lost, Kept int
}

// BeginOp resets the per-operation call counters.
func (d *Faults) BeginOp(i int) {
	d.op = i
	d.nmut, d.nrd, d.nsync, d.nwr, d.nopen, d.nfa, d.nfl = 0, 0, 0, 0, 0, 0, 0
	d.nrm, d.ndir = 0, 0
}

// Muts is the number of mutating device calls since BeginOp.
func (d *Faults) Muts() int  { return d.nmut }
func (d *Faults) Reads() int { return d.nrd }

func (d *Faults) match(kinds, path string, nOp, nTot int) *Fault {
	return d.matchAt(kinds, path, -1, nOp, nTot)
}

func (d *Faults) matchAt(kinds, path string, off int64, nOp, nTot int) *Fault {
	for _, f := range d.List {
		if !strings.Contains(kinds, ","+f.Kind+",") {
			continue
		}
		n := nTot
		if f.Op >= 0 {
			if f.Op != d.op {
				continue
			}
			n = nOp
		}
		if f.Ring {
			if off < d.RingLo || off >= d.RingHi || path != d.RingPath {
				continue
			}
			f.seen++
			n = f.seen
		} else if f.Sub != "" {
			if !strings.Contains(path, f.Sub) {
				continue
			}
			f.seen++
			n = f.seen
		}
		l := f.Len
		if l < 1 {
			l = 1
		}
		if n >= f.Nth && n < f.Nth+l {
			if l == 1 && f.Fired {
				continue
			}
			return f
		}
	}
	return nil
}

func (d *Faults) fire(f *Fault) {
	f.Fired = true
	d.sim.Stats.Faults[f.Kind]++
}

// CrashNow stops every process of the host; a power fault also loses writes.
func (d *Faults) CrashNow(f *Fault) {
	s := d.sim
	d.fire(f)
	if f.Kind == "power" {
		l, k := s.Host0.FS.PowerLoss(func(p []*WriteOp) []bool { return d.Policy(f, p) })
		d.Lost += l
		d.Kept += k
	}
	for _, p := range s.procs {
		if !p.Dead && (f.Kind != "kill" || p == s.cur.Proc) {
			s.Kill(p, f.Kind)
		}
	}
	s.Host0.FS.dropDead()
}

func (fs *FS) DropDead() { fs.dropDead() }

func (fs *FS) dropDead() {
	for _, i := range fs.Files {
		if i.lock != nil && i.lock.proc != nil && i.lock.proc.Dead {
			i.lock = nil
		}
	}
}

var errFake = errors.New("zombie")

// enter is called by every device call. It returns errFake when the caller
// belongs to a dead process (the call must have no effect).
func (f *File) enter(kind string, off int64, n int) (err error, crash *Fault) {
	s := S
	if s == nil || f.ino.fs.sim != s {
		return errFake, nil
	}
	t := Cur()
	if t == nil || (f.proc != nil && f.proc.Dead) {
		if f.proc != nil && f.proc.Dead {
			if t != nil {
				t.check()
			}
			return errFake, nil
		}
		return nil, nil
	}
	t.check()
	if t.Crashed {
		return errFake, nil
	}
	Sw()
	d := s.Disk
	if s.Cfg.Latency && preempting && t.quiet == 0 && kind != "meta" {
		h := Mix(s.Cfg.Seed ^ s.points ^ HashStr(t.Name))
		if h%8 == 0 {
			time.Sleep(time.Duration(1+(h>>8)%2000) * time.Microsecond)
			P()
		}
	}
	if f.proc != nil && f.proc.Dead {
		t.check()
		return errFake, nil
	}
	if d.Trail != nil {
		d.Trail(kind, f.ino, off, n)
	}
	switch kind {
	case "read":
		s.Stats.IOReads++
		d.nrd++
		d.trd++
		if x := d.matchAt(",eread,", f.ino.Path, off, d.nrd, d.trd); x != nil {
			d.fire(x)
			d.FiredIO++
			d.LastIO = f.ino.Path
			// some of the sectors may have been read before the bad one
			if h := Mix(x.Arg ^ uint64(x.Nth)<<8 ^ uint64(off)<<20); h%2 == 0 && n > Sector {
				s.Stats.Faults["eread-partial"]++
				return &shortRead{int(h>>8) & 0xffffff % (n / Sector) * Sector}, nil
			}
			return syscall.EIO, nil
		}
		return nil, nil
	case "write":
		s.Stats.IOWrites++
		d.nwr++
		d.twr++
	case "sync":
		s.Stats.IOSyncs++
		d.nsync++
		d.tsync++
	case "falloc":
		s.Stats.IOMeta++
		d.nfa++
		d.tfa++
	case "meta":
		s.Stats.IOMeta++
	}
	d.nmut++
	d.tmut++
	if x := d.matchAt(",crash,power,kill,", f.ino.Path, off, d.nmut, d.tmut); x != nil && !x.Fired {
		if x.When == "before" || (kind != "write" && x.When != "after") {
			d.CrashNow(x)
			t.check()
			return errFake, nil
		}
		return nil, x
	}
	switch kind {
	case "write":
		if x := d.matchAt(",ewrite,enospc,short,", f.ino.Path, off, d.nwr, d.twr); x != nil {
			d.fire(x)
			d.FiredIO++
			d.LastIO = f.ino.Path
			switch x.Kind {
			case "enospc":
				return syscall.ENOSPC, nil
			case "short":
				k := int64(x.Arg) * Sector
				if k > int64(n) {
					k = int64(n)
				}
				return &shortWrite{int(k)}, nil
			}
			return syscall.EIO, nil
		}
	case "sync":
		if x := d.match(",esync,", f.ino.Path, d.nsync, d.tsync); x != nil {
			d.fire(x)
			d.FiredIO++
			d.LastIO = f.ino.Path
			return syscall.EIO, nil
		}
	case "falloc":
		if x := d.match(",efalloc,", f.ino.Path, d.nfa, d.tfa); x != nil {
			d.fire(x)
			d.FiredIO++
			d.LastIO = f.ino.Path
			return syscall.ENOSPC, nil
		}
	}
	return nil, nil
}

type shortRead struct{ n int }

func (*shortRead) Error() string { return "input/output error (short read)" }

type shortWrite struct{ n int }

func (*shortWrite) Error() string { return "no space left on device (short write)" }

// ---- file handles ----

const (
	ORdonly = 0
	OWronly = 1
	ORdwr   = 2
	OCreate = 0x40
	OExcl   = 0x80
	OTrunc  = 0x200
	OAppend = 0x400
	ODsync  = 0x1000
	ODirect = 0x4000
)

type File struct {
	name   string
	ino    *Inode
	proc   *Proc
	pos    int64
	flags  int
	rerr   error // the last Read came to a bad sector
	fd     int
	closed bool
}

type PathErr struct {
	Op, Path string
	Err      error
}

func curProc() (*Task, *Proc) {
	t := Cur()
	if t == nil {
		return nil, nil
	}
	return t, t.Proc
}

func Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		_, pr := curProc()
		cwd := "/sim"
		if pr != nil {
			cwd = pr.Cwd
		}
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

// TheFS is the file system of the current run.
func TheFS() *FS { return S.Host0.FS }

func OpenFile(name string, flags int) (*File, error) {
	t, pr := curProc()
	if S == nil || pr == nil {
		return nil, syscall.EPERM
	}
	t.check()
	if t.Crashed {
		return nil, syscall.EIO
	}
	fs := TheFS()
	Sw()
	d := S.Disk
	d.nopen++
	d.topen++
	if x := d.match(",eopen,", Abs(name), d.nopen, d.topen); x != nil {
		d.fire(x)
		d.FiredIO++
		return nil, syscall.EIO
	}
	p := Abs(name)
	i := fs.Files[p]
	if i == nil {
		if flags&OCreate == 0 {
			return nil, syscall.ENOENT
		}
		if par := fs.Files[path.Dir(p)]; path.Dir(p) != "/" && (par == nil || !par.Dir) {
			return nil, syscall.ENOENT
		}
		d.nmut++
		d.tmut++
		S.Stats.IOMeta++
		if x := d.match(",crash,power,kill,", p, d.nmut, d.tmut); x != nil && !x.Fired {
			if x.When == "after" {
				fs.Create(p)
			}
			d.CrashNow(x)
			t.check()
			return nil, syscall.EIO
		}
		i = fs.Create(p)
	} else {
		if i.Dir && flags&3 != ORdonly {
			return nil, syscall.EISDIR
		}
		if flags&OCreate != 0 && flags&OExcl != 0 {
			return nil, syscall.EEXIST
		}
	}
	if flags&OTrunc != 0 && flags&3 != ORdonly && i.Size() > 0 {
		i.Cur, i.Durable, i.Pending = nil, nil, nil
		i.FarCur, i.FarDurable = farStore{}, farStore{}
	}
	fs.nfd++
	f := &File{name: name, ino: i, proc: pr, flags: flags, fd: fs.nfd}
	fs.fds[f.fd] = f
	fs.OpenHandles++
	return f, nil
}

// Handles counts the open handles of a process.
func (fs *FS) Handles(p *Proc) int {
	n := 0
	for _, f := range fs.fds {
		if f.proc == p {
			n++
		}
	}
	return n
}

// HandlesBut counts the open handles of a process on files whose name does
// not end in suffix.
func (fs *FS) HandlesBut(p *Proc, suffix string) int {
	n := 0
	for _, f := range fs.fds {
		if f.proc != p {
			continue
		}
		for name, i := range fs.Files {
			if i == f.ino && strings.HasSuffix(name, suffix) {
				n--
				break
			}
		}
		n++
	}
	return n
}

// Open counts the open handles on a file.
func (fs *FS) Open(i *Inode) int {
	n := 0
	for _, f := range fs.fds {
		if f.ino == i && (f.proc == nil || !f.proc.Dead) {
			n++
		}
	}
	return n
}

func ByFd(fd int) *File {
	if S == nil {
		return nil
	}
	return TheFS().fds[fd]
}

func (f *File) Name() string  { return f.name }
func (f *File) Fd() int       { return f.fd }
func (f *File) Inode() *Inode { return f.ino }
func (f *File) Closed() bool  { return f.closed }

func (f *File) Close() error {
	if f.closed {
		return syscall.EBADF
	}
	t, _ := curProc()
	if S == nil || f.ino.fs.sim != S {
		f.closed = true
		return nil
	}
	if t != nil && (f.proc == nil || !f.proc.Dead) {
		t.check()
		if t.Crashed {
			return nil
		}
		Sw()
	}
	f.closed = true
	if f.ino.lock == f {
		f.ino.lock = nil
	}
	delete(f.ino.fs.fds, f.fd)
	f.ino.fs.OpenHandles--
	return nil
}

func (f *File) aligned(off int64, b []byte) bool {
	if f.flags&ODirect == 0 {
		return true
	}
	return off%Sector == 0 && len(b)%Sector == 0 && (len(b) == 0 || addrOf(b)%Sector == 0)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, syscall.EBADF
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	err, _ := f.enter("read", off, len(b))
	if err == errFake {
		clear(b)
		return len(b), nil
	}
	sr, part := err.(*shortRead)
	if err != nil && !part {
		return 0, err
	}
	if f.flags&3 == OWronly {
		return 0, syscall.EBADF
	}
	if f.ino.Dir {
		return 0, syscall.EISDIR
	}
	if !f.aligned(off, b) {
		return 0, syscall.EINVAL
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.ino.Bad != nil {
		for s := off / Sector; s <= (off+int64(len(b))-1)/Sector; s++ {
			if f.ino.Bad[s] {
				S.Stats.Faults["badsector"]++
				sr, part = &shortRead{int(max(0, s*Sector-off))}, true
				break
			}
		}
	}
	rest := f.ino.Size() - off
	if part {
		k := max(0, min(int64(sr.n), rest))
		f.ino.readAt(b[:k], off)
		return int(k), syscall.EIO
	}
	if rest <= 0 {
		return 0, io.EOF
	}
	if rest < int64(len(b)) {
		f.ino.readAt(b[:rest], off)
		return int(rest), io.EOF
	}
	f.ino.readAt(b, off)
	return len(b), nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, syscall.EBADF
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	if f.flags&3 == ORdonly {
		return 0, syscall.EBADF
	}
	if !f.aligned(off, b) {
		return 0, syscall.EINVAL
	}
	err, crash := f.enter("write", off, len(b))
	if err == errFake {
		return len(b), nil
	}
	if sw, ok := err.(*shortWrite); ok {
		f.ino.write(off, b[:sw.n])
		if sw.n > 0 && sw.n < len(b) {
			S.Disk.Torn = append(S.Disk.Torn, TornWrite{f.ino.Path, off, len(b), sw.n})
		}
		return sw.n, syscall.ENOSPC
	}
	if err != nil {
		return 0, err
	}
	fs := f.ino.fs
	if f.flags&ODsync != 0 {
		defer f.ino.syncRange(off, off+int64(len(b)))
	}
	if fs.Free >= 0 {
		need := off + int64(len(b)) - f.ino.Size()
		if need > fs.Free {
			S.Stats.Faults["diskfull"]++
			return 0, syscall.ENOSPC
		}
		if need > 0 {
			fs.Free -= need
		}
	}
	if crash != nil {
		d := S.Disk
		t := Cur()
		if crash.When == "torn" && (d.Whole == nil || !d.Whole(f.ino, off)) {
			k := int(crash.Arg%uint64(len(b)/Sector+1)) * Sector
			if len(b) < Sector {
				k = 0
			}
			f.ino.write(off, b[:k])
			if d.OnTorn != nil {
				d.OnTorn(f.ino, off, b, k)
			}
		} else {
			f.ino.write(off, b)
		}
		d.CrashNow(crash)
		t.check()
		return len(b), nil
	}
	f.ino.write(off, b)
	return len(b), nil
}

func (f *File) Read(b []byte) (int, error) {
	if m := f.ino.MaxRead; m > 0 && len(b) > m {
		b = b[:m]
	}
	if err := f.rerr; err != nil && !f.closed {
		f.rerr = nil
		return 0, err
	}
	n, err := f.ReadAt(b, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	if n > 0 && err == syscall.EIO { // the next call reports it
		f.rerr, err = err, nil
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f.flags&OAppend != 0 {
		f.pos = f.ino.Size()
	}
	n, err := f.WriteAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, syscall.EBADF
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += f.ino.Size()
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	f.pos = off
	return off, nil
}

func (f *File) Sync() error {
	if f.closed {
		return syscall.EBADF
	}
	err, crash := f.enter("sync", 0, 0)
	if err == errFake {
		return nil
	}
	if err != nil {
		return err
	}
	f.ino.sync()
	if crash != nil {
		t := Cur()
		S.Disk.CrashNow(crash)
		t.check()
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if f.closed {
		return syscall.EBADF
	}
	err, _ := f.enter("meta", n, 0)
	if err == errFake {
		return nil
	}
	if err != nil {
		return err
	}
	i := f.ino
	i.Cur = setSize(i.Cur, &i.FarCur, n)
	i.Durable = setSize(i.Durable, &i.FarDurable, n)
	var p []*WriteOp
	for _, w := range i.Pending {
		if w.Off < n {
			if w.Off+int64(len(w.Data)) > n {
				w.Data = w.Data[:n-w.Off]
			}
			p = append(p, w)
		}
	}
	i.Pending = p
	return nil
}

// Fallocate with the keep-size flag reserves space without changing the size.
func (f *File) Fallocate(mode uint32, off, n int64) error {
	if f.closed {
		return syscall.EBADF
	}
	if off < 0 || n <= 0 {
		return syscall.EINVAL
	}
	if mode > 1 { // anything but reserving
		return syscall.EOPNOTSUPP
	}
	err, crash := f.enter("falloc", off, int(n))
	if err == errFake {
		return nil
	}
	if err != nil {
		return err
	}
	fs := f.ino.fs
	if fs.Free >= 0 && off+n > fs.Free {
		S.Stats.Faults["diskfull"]++
		return syscall.ENOSPC
	}
	if mode&1 == 0 && f.ino.Size() < off+n {
		f.ino.Cur = setSize(f.ino.Cur, &f.ino.FarCur, off+n)
	}
	if crash != nil {
		t := Cur()
		S.Disk.CrashNow(crash)
		t.check()
	}
	return nil
}

// Flock with an exclusive lock; released with the handle or its process.
func (f *File) Flock(how int) error {
	if f.closed {
		return syscall.EBADF
	}
	t, _ := curProc()
	if t != nil {
		t.check()
		if t.Crashed {
			return nil
		}
		Sw()
	}
	if S == nil || f.ino.fs.sim != S {
		return nil
	}
	f.ino.fs.dropDead()
	if how&8 != 0 { // LOCK_UN
		if f.ino.lock == f {
			f.ino.lock = nil
		}
		return nil
	}
	if how&2 != 0 { // LOCK_EX
		d := S.Disk
		d.nfl++
		d.tfl++
		if x := d.match(",eflock,", f.ino.Path, d.nfl, d.tfl); x != nil {
			d.fire(x)
			d.FiredIO++
			return syscall.ENOLCK
		}
		if f.ino.lock != nil && f.ino.lock != f {
			if how&4 == 0 {
				return syscall.EDEADLK // would block for ever: nothing in the repository does
			}
			return syscall.EWOULDBLOCK
		}
		f.ino.lock = f
		return nil
	}
	return nil // shared locks are not modelled
}

// LockedBy reports the process that owns the lock on a path.
func (fs *FS) LockedBy(p string) *Proc {
	i := fs.Files[p]
	if i == nil || i.lock == nil {
		return nil
	}
	return i.lock.proc
}

func Remove(name string) error {
	t, pr := curProc()
	if S == nil || pr == nil {
		return syscall.EPERM
	}
	t.check()
	if t.Crashed {
		return nil
	}
	Sw()
	fs := TheFS()
	p := Abs(name)
	i := fs.Files[p]
	if i == nil {
		return syscall.ENOENT
	}
	d := S.Disk
	d.nrm++
	d.trm++
	if x := d.match(",eremove,", p, d.nrm, d.trm); x != nil {
		d.fire(x)
		d.FiredIO++
		d.LastIO = p
		return syscall.EIO
	}
	d.nmut++
	d.tmut++
	S.Stats.IOMeta++
	if x := d.match(",crash,power,kill,", p, d.nmut, d.tmut); x != nil && !x.Fired {
		if x.When == "after" {
			delete(fs.Files, p)
		}
		d.CrashNow(x)
		t.check()
		return nil
	}
	delete(fs.Files, p)
	return nil
}

func Rename(a, b string) error {
	t, pr := curProc()
	if S == nil || pr == nil {
		return syscall.EPERM
	}
	t.check()
	if t.Crashed {
		return nil
	}
	Sw()
	fs := TheFS()
	a, b = Abs(a), Abs(b)
	i := fs.Files[a]
	if i == nil {
		return syscall.ENOENT
	}
	d := S.Disk
	d.nmut++
	d.tmut++
	if x := d.match(",crash,power,kill,", a, d.nmut, d.tmut); x != nil && !x.Fired {
		if x.When == "after" {
			delete(fs.Files, a)
			fs.Files[b], i.Path = i, b
		}
		d.CrashNow(x)
		t.check()
		return nil
	}
	delete(fs.Files, a)
	fs.Files[b], i.Path = i, b
	return nil
}

func Stat(name string) (*Inode, error) {
	t, pr := curProc()
	if S == nil || pr == nil {
		return nil, syscall.EPERM
	}
	t.check()
	p := Abs(name)
	i := TheFS().Files[p]
	if i == nil {
		return nil, syscall.ENOENT
	}
	return i, nil
}

// Reset makes the fault fire again in the next run.
func (f *Fault) Reset() { f.Fired, f.seen = false, 0 }
