package harness

import (
	"fmt"
	"math"
	"path/filepath"
	"sort"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"

	"verif.local/sim/rt"
)

// own runs several processes that create, open, use and close storages on the
// same paths at the same time.
type own struct {
	seq
	clock int
	paths map[string]*ownPath
	procs []*ownProc
	bad   *Violation
	wrote chan struct{} // closed at the first write to a file
	power bool          // power was lost in this run
}

type ownPath struct {
	path    string
	foreign []byte // a file that is no storage
	made    bool   // a create returned success
	maybe   bool   // a create that did not return success could have made it
	crashed bool   // ... it was interrupted
	want    map[uint64]map[string]bool
	busy    []*ownBusy
	capac   map[uint64]bool
}

// ownBusy is a span in which the path is in use by a process.
type ownBusy struct {
	p       *rt.Proc
	from    int
	to      int // MaxInt while going on
	owner   bool
	closing bool
}

type ownProc struct {
	p    *rt.Proc
	st   *storage.Storage
	path *ownPath
	b    *ownBusy
	bad  bool // a device error happened to it: its answers are not known
}

const absent = "\x00absent"

func (e *own) tick() int { e.clock++; return e.clock }

func (b *ownBusy) dead() bool { return b.p.Dead }

func (e *own) note2(class string, n int, f string, a ...any) {
	if e.bad == nil {
		e.bad = &Violation{Class: class, Op: n, Msg: fmt.Sprintf(f, a...)}
	}
}

func runOwn(tr *Trace) *Result {
	res := newResult()
	sim := newSim(tr)
	e := &own{paths: map[string]*ownPath{}, wrote: make(chan struct{})}
	e.seq = seq{tr: tr, sim: sim, m: newModel(), res: res}
	nvm.DEFAULT_REGION_SHIFT = 20
	// header, journal header and first record are one write: torn at a sector it
	// is an unfinished storage, and so it is when power is lost
	sim.Disk.Policy = func(f *rt.Fault, pend []*rt.WriteOp) []bool {
		return lossPolicy(f, pend, func(w *rt.WriteOp) bool { return true })
	}
	// journal writes reach the device completely (see C16)
	sim.Disk.Whole = func(i *rt.Inode, off int64) bool { return off != 0 }
	done := false
	e.t = sim.Spawn("main", nil, true, func() {
		defer func() {
			done = true
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					res.V = s.v
				} else {
					panic(r)
				}
			}
			rt.SetPreempt(false)
			for _, p := range e.procs {
				if st := p.st; st != nil {
					sim.Zombie(e.t, p.p, func() { st.Close() })
				}
			}
		}()
		e.run()
	})
	sim.Loop(func() bool { return done })
	rt.SetPreempt(false)
	if res.V == nil && sim.Deadlock != "" {
		res.V = &Violation{Class: "hang", Msg: "no progress: " + sim.Deadlock}
	}
	finish(res, sim, e.h)
	return res
}

func (e *own) file(o *ownPath) *rt.Inode { return e.sim.Host0.FS.Files[absPath(o.path)] }

func (e *own) run() {
	tr := e.tr
	r := rt.NewRNG(tr.Seed, "own-setup")
	fs := e.sim.Host0.FS
	for _, op := range tr.Ops {
		if op.S != "" && e.paths[absPath(op.S)] == nil {
			o := &ownPath{path: absPath(op.S), want: map[uint64]map[string]bool{}}
			e.paths[o.path] = o
			fs.MkdirAll(filepath.Dir(o.path))
			if tr.Conf.Mode == "foreign" {
				switch r.Intn(4) {
				case 0:
					o.foreign = pattern(tr.Seed, r.Intn(5000))
				case 1:
					o.foreign = make([]byte, r.Intn(3)*700)
				case 2: // starts like a storage
					o.foreign = append([]byte{'l', 'u', 's', 'f', 0, 40, 1, 1}, pattern(tr.Seed, r.Intn(5000))...)
				default:
					o.foreign = []byte("a file of the user")
				}
				if o.foreign == nil {
					o.foreign = []byte{}
				}
				fs.PutFile(o.path, o.foreign)
			}
		}
	}
	fs.OnWrite = func(i *rt.Inode, off int64, b []byte) {
		o := e.paths[i.Path]
		if o == nil {
			return
		}
		e.awake()
		t := rt.Cur()
		if fs.LockedBy(i.Path) != t.Proc || fs.Files[i.Path] != i {
			e.note2("owner", 0, "process %s writes %d bytes at %d of %s without owning it", t.Proc.Name, len(b), off, i.Path)
		}
	}
	n, rounds := 0, 0
	for _, op := range tr.Ops {
		n, rounds = max(n, op.C+1), max(rounds, op.R+1)
	}
	for k := 0; k < n; k++ {
		e.procs = append(e.procs, &ownProc{})
	}
	faults := e.sim.Disk.List
	for round := 0; round < rounds; round++ {
		e.sim.Disk.List = faults
		e.round(round, n)
		e.sim.Disk.List = nil
		e.settle()
	}
	e.res.Ops = len(tr.Ops)
	// the end: everybody stops, and every path is looked at again
	for _, p := range e.procs {
		if p.st != nil {
			st := p.st
			e.sim.Kill(p.p, "exit")
			fs.DropDead()
			e.sim.Zombie(e.t, p.p, func() { st.Close() })
			e.endOwn(p)
		}
	}
	e.settle()
}

func (e *own) stopIfBad() {
	if e.bad != nil {
		panic(stop{e.bad})
	}
}

func (e *own) round(round, n int) {
	left := n
	all := make(chan struct{})
	e.sim.Disk.BeginOp(round)
	rt.SetPreempt(true)
	for k := 0; k < n; k++ {
		k := k
		var t *rt.Task
		t = e.sim.Spawn(fmt.Sprintf("p%d.%d", round, k), nil, true, func() {
			defer func() {
				if k == 0 {
					e.awake()
				}
				if left--; left == 0 {
					close(all)
				}
			}()
			for i, op := range e.tr.Ops {
				if op.C == k && op.R == round {
					if e.bad != nil {
						return
					}
					e.one(t, i, op, e.procs[k])
				}
			}
		})
	}
	<-all
	rt.P()
	rt.SetPreempt(false)
	e.stopIfBad()
}

func (e *own) awake() {
	select {
	case <-e.wrote:
	default:
		close(e.wrote)
	}
}

func (e *own) endOwn(p *ownProc) {
	if p.b != nil {
		p.b.to = e.tick()
	}
	p.st, p.path, p.b = nil, nil, nil
}

// bury cleans up after a process that died.
func (e *own) bury(t *rt.Task, p *ownProc) {
	if st := p.st; st != nil {
		e.sim.Zombie(t, p.p, func() { st.Close() })
	}
	e.sim.Host0.FS.DropDead()
	e.endOwn(p)
	p.p = nil
}

// others tells whether somebody else used the path within [from, now].
func (o *ownPath) others(me *ownBusy, from int) bool {
	for _, b := range o.busy {
		if b != me && b.to >= from {
			return true
		}
	}
	return false
}

func (e *own) one(t *rt.Task, n int, op Op, p *ownProc) {
	if p.p != nil && p.p.Dead {
		e.bury(t, p)
	}
	if p.p == nil {
		e.nprocs++
		p.p = e.sim.NewProc(fmt.Sprintf("p%d", e.nprocs))
		p.p.SilentOut = true
		p.bad = false
	}
	fs := e.sim.Host0.FS
	io := e.sim.Disk.FiredIO
	dead := func(o rt.Outcome, what string) bool {
		e.sim.Progress()
		if o.Budget {
			e.note2("hang", n, "%s did not end", what)
			return true
		}
		if len(e.sim.Panics) > 0 && o.Panic == "" {
			o.Panic = e.sim.Panics[0]
			e.sim.Kill(p.p, "panic")
		}
		e.sim.Panics = nil
		if o.Panic != "" {
			if e.sim.Disk.FiredIO != io || p.bad {
				e.probe("fail-stop")
			} else {
				e.note2("panic", n, "%s: %s", what, cut(o.Panic))
			}
			return true
		}
		return o.Crashed || p.p.Dead
	}
	trace := func(f string, a ...any) { e.trace("%d %s: "+f, append([]any{n, p.p.Name}, a...)...) }
	switch op.K {
	case "create", "open":
		o := e.paths[absPath(op.S)]
		me := &ownBusy{p: p.p, from: e.tick(), to: math.MaxInt}
		o.busy = append(o.busy, me)
		had := e.file(o)
		madeBefore := o.made
		capacity, ratio, valid := uint64(0), 0.0, true
		if op.K == "create" {
			capacity, ratio, valid = ownGeometry(op)
		}
		var st *storage.Storage
		var err error
		held := 0
		if p.st != nil {
			held = 1
		}
		what := fmt.Sprintf("%s %s", op.K, op.S)
		trace("%s", what)
		out := e.sim.Exec(t, p.p, func() {
			if op.K == "create" {
				st, err = storage.CreateCannylsStorage(op.S, capacity, ratio)
			} else {
				st, err = storage.OpenCannylsStorage(op.S)
			}
		})
		now := e.tick()
		fault := e.sim.Disk.FiredIO != io
		p.bad = p.bad || fault
		e.note(fmt.Sprint(n, op.K, err == nil, out.Crashed))
		if dead(out, what) {
			trace("died")
			me.to = now
			if op.K == "create" {
				o.maybe, o.crashed = true, true
			}
			if p.st != st && st != nil {
				e.sim.Zombie(t, p.p, func() { st.Close() })
			}
			e.bury(t, p)
			return
		}
		trace("-> %v", err)
		if err != nil {
			me.to = now
			if n := fs.Handles(p.p); n != held {
				e.note2("owner", n, "after %s failed (%v) %d file handles are open, there should be %d", what, err, n, held)
			}
			others := o.others(me, me.from)
			if op.K == "create" {
				if had == nil && valid && !others && !fault {
					e.note2("owner", n, "%s failed although nothing is there and nobody else uses it: %v", what, err)
				}
				if f := e.file(o); f != nil && f != had && (valid || !others) {
					if !valid {
						e.note2("owner", n, "%s failed (%v) and left a file", what, err)
					}
					// complete, or it would not have stayed
					o.maybe = true
				}
			} else if madeBefore && !others && !fault {
				e.note2("owner", n, "%s failed although the storage exists and nobody else uses it: %v", what, err)
			}
			if !others && fs.LockedBy(o.path) != nil && !o.ownedBy(p) {
				e.note2("owner", n, "after %s failed (%v) the file is locked", what, err)
			}
			return
		}
		// success
		for _, b := range o.busy {
			if b != me && b.owner && !b.closing && !b.dead() && b.to == math.MaxInt {
				e.note2("owner", n, "%s succeeded while process %s owns the storage", what, b.p.Name)
			}
		}
		if o.foreign != nil && !o.made && !o.maybe {
			e.note2("owner", n, "%s succeeded on a file that is no storage", what)
		}
		if op.K == "create" && (madeBefore || o.foreign != nil) {
			e.note2("owner", n, "%s succeeded over an existing file", what)
		}
		if op.K == "create" && !valid {
			e.note2("owner", n, "%s with capacity %d and ratio %v succeeded", what, capacity, ratio)
		}
		if fs.LockedBy(o.path) != p.p {
			e.note2("owner", n, "%s succeeded, the process does not own the file at that path", what)
		}
		o.made = true
		me.owner = true
		if p.st != nil {
			// it has another one open already, or this is reported above
			me.closing = true
			out := e.sim.Exec(t, p.p, func() { st.Close() })
			p.bad = p.bad || e.sim.Disk.FiredIO != io
			me.to = e.tick()
			if dead(out, "close") {
				e.bury(t, p)
			}
			return
		}
		p.st, p.path, p.b = st, o, me
		e.probe(op.K + "-ok")
		e.verify(t, n, p, what)
	case "put", "del", "check":
		if p.st == nil {
			return
		}
		o, st := p.path, p.st
		if op.K == "check" {
			e.verify(t, n, p, "later")
			return
		}
		val := absent
		if op.K == "put" {
			val = string(e.mkdata(op, op.Len))
		}
		old := o.cell(op.ID)
		both := map[string]bool{val: true}
		for k := range old {
			both[k] = true
		}
		o.want[op.ID] = both
		var err error
		out := e.sim.Exec(t, p.p, func() {
			if op.K == "put" {
				if op.N == 1 {
					_, err = st.PutEmbed(lid(op.ID), []byte(val))
				} else {
					_, err = st.Put(lid(op.ID), newLump([]byte(val)))
				}
			} else {
				_, _, err = st.Delete(lid(op.ID))
			}
			if err == nil {
				st.Sync()
			}
		})
		fault := e.sim.Disk.FiredIO != io
		p.bad = p.bad || fault
		trace("%s %x %s -> %v", op.K, op.ID, describe(op), err)
		if dead(out, op.K) {
			e.bury(t, p)
			return
		}
		if p.bad {
			return
		}
		if err != nil {
			if !isFull(err) && !isJFull(err) {
				e.note2("owner", n, "%s by the owner failed: %v", op.K, err)
			}
			return
		}
		o.want[op.ID] = map[string]bool{val: true}
	case "close":
		if p.st == nil {
			return
		}
		st := p.st
		p.b.closing = true
		out := e.sim.Exec(t, p.p, func() { st.Close() })
		trace("close")
		p.bad = p.bad || e.sim.Disk.FiredIO != io
		if dead(out, "close") {
			e.bury(t, p)
			return
		}
		e.endOwn(p)
		if h := fs.Handles(p.p); h != 0 {
			e.note2("owner", n, "%d file handles are open after Close", h)
		}
	case "wait":
		<-e.wrote
		rt.P()
	case "kill":
		trace("kill")
		e.sim.Kill(p.p, "kill")
		e.bury(t, p)
	}
}

func (o *ownPath) ownedBy(p *ownProc) bool { return p.path == o }

func (o *ownPath) cell(id uint64) map[string]bool {
	if c := o.want[id]; c != nil {
		return c
	}
	return map[string]bool{absent: true}
}

// verify compares what the owner sees with the model.
func (e *own) verify(t *rt.Task, n int, p *ownProc, when string) {
	o, st := p.path, p.st
	io := e.sim.Disk.FiredIO
	got := map[uint64]string{}
	var rerr error
	out := e.sim.Exec(t, p.p, func() {
		for _, x := range st.List() {
			b, err := st.Get(x)
			if err != nil {
				rerr = fmt.Errorf("lump %x: %v", x.U64(), err)
				return
			}
			got[x.U64()] = string(b)
		}
	})
	p.bad = p.bad || e.sim.Disk.FiredIO != io
	e.sim.Progress()
	if out.Panic != "" && !p.bad {
		e.note2("panic", n, "%s", cut(out.Panic))
	}
	if out.Budget {
		e.note2("hang", n, "reading everything did not end")
	}
	if p.p.Dead {
		e.bury(t, p)
		return
	}
	if p.bad {
		return
	}
	if rerr != nil {
		e.note2("owner", n, "%s: reading fails: %v", when, rerr)
		return
	}
	ids := map[uint64]bool{}
	for id := range got {
		ids[id] = true
	}
	for id := range o.want {
		ids[id] = true
	}
	var l []uint64
	for id := range ids {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	for _, id := range l {
		g, ok := got[id]
		if !ok {
			g = absent
		}
		if !o.cell(id)[g] {
			w := ""
			for k := range o.cell(id) {
				w += fmt.Sprintf(" %d bytes", len(k))
				if k == absent {
					w += " (nothing)"
				}
			}
			e.note2("owner", n, "%s the storage at %s has %d bytes under %x, the model%s", when, o.path, len(g), id, w)
			return
		}
		o.want[id] = map[string]bool{g: true}
	}
}

// settle looks at the paths while nobody is active.
func (e *own) settle() {
	fs := e.sim.Host0.FS
	for _, p := range e.procs {
		if p.p != nil && p.p.Dead {
			e.bury(e.t, p)
		}
		if p.bad && p.p != nil {
			// after a device error the process is started again
			e.sim.Kill(p.p, "exit")
			e.bury(e.t, p)
		}
	}
	e.sim.Panics = nil
	var names []string
	for n := range e.paths {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		o := e.paths[n]
		o.busy = nil
		owned := false
		for _, p := range e.procs {
			if p.path == o {
				owned = true
				o.busy = append(o.busy, p.b)
			}
		}
		if owned {
			continue
		}
		if o.foreign != nil && string(e.file(o).Cur) != string(o.foreign) {
			e.fail("owner", "the file at %s, which is no storage, was changed", n)
		}
		if by := fs.LockedBy(n); by != nil {
			e.fail("owner", "nobody has %s open, it is locked by %s", n, by.Name)
		}
		p := &ownProc{p: e.sim.NewProc("look")}
		p.p.SilentOut = true
		var err error
		out := e.sim.Exec(e.t, p.p, func() { p.st, err = storage.OpenCannylsStorage(n) })
		if out.Panic != "" || out.Budget || len(e.sim.Panics) > 0 {
			e.fail("panic", "opening %s: %s", n, cut(out.Panic))
		}
		f := e.file(o)
		e.trace("settle %s: made=%v maybe=%v file=%v open: %v", n, o.made, o.maybe, f != nil, err)
		if err == nil {
			p.path = o
			if !o.made && !o.maybe {
				e.fail("owner", "%s opens as a storage, nobody created it", n)
			}
			o.made, o.maybe, o.crashed = true, false, false
			e.verify(e.t, 0, p, "afterwards")
			e.stopIfBad()
			st := p.st
			// it works
			out = e.sim.Exec(e.t, p.p, func() {
				if _, err = st.Put(lid(1<<60), newLump([]byte("x"))); err == nil {
					st.Sync()
					_, _, err = st.Delete(lid(1 << 60))
				}
				st.Close()
			})
			if out.Panic != "" || err != nil && !isFull(err) && !isJFull(err) {
				e.fail("owner", "the storage at %s opens and does not work: %v %s", n, err, cut(out.Panic))
			}
			if fs.LockedBy(n) != nil || fs.Handles(p.p) != 0 {
				e.fail("owner", "%s is locked or open after Close", n)
			}
			continue
		}
		if fs.LockedBy(n) != nil || fs.Handles(p.p) != 0 {
			e.fail("owner", "%s is locked or open after an open that failed with: %v", n, err)
		}
		if o.made {
			e.fail("owner", "the storage at %s does not open although nobody uses it: %v", n, err)
		}
		if o.foreign != nil {
			continue
		}
		if f != nil && !o.crashed {
			e.fail("owner", "a create that failed left a file at %s that does not open: %v", n, err)
		}
		if f != nil {
			// what a crashed create left: the user removes it
			delete(fs.Files, n)
			e.probe("removed-half-made")
		}
		o.maybe, o.crashed = false, false
		// creating is possible
		capacity, ratio, _ := ownGeometry(Op{N: 0})
		out = e.sim.Exec(e.t, p.p, func() {
			if p.st, err = storage.CreateCannylsStorage(n, capacity, ratio); err == nil {
				p.st.Close()
			}
		})
		if out.Panic != "" || err != nil {
			e.fail("owner", "creating %s again fails: %v %s", n, err, cut(out.Panic))
		}
		delete(fs.Files, n)
		e.probe("created-again")
	}
	h := uint64(0)
	for _, n := range names {
		o := e.paths[n]
		h = rt.Mix(h ^ uint64(len(o.want))<<3 ^ b2u(o.made))
	}
	e.res.States = append(e.res.States, rt.Mix(h^e.h))
}

func ownGeometry(op Op) (capacity uint64, ratio float64, valid bool) {
	capacity, ratio = 512*64, 0.3
	switch op.N {
	case 0:
		return capacity, ratio, true
	case 1:
		return 512*64 + 7, 0.3, false
	case 2:
		return 512 * 2, 0.3, false
	case 3:
		return capacity, 1.5, false
	case 4:
		return capacity, -0.1, false
	case 5:
		return capacity, math.NaN(), false
	case 6:
		return capacity, 1.0, false
	case 7:
		return 0, 0.1, false
	case 8:
		return 512 * 40, 0.5, true
	case 9:
		return capacity, math.Inf(1), false
	case 10:
		return 512 * 50, 0, true
	case 11:
		return 512 * 4, 0.3, true
	}
	return 512 * (50 + op.N), 0.4, true
}

func genOwn(prop string, seed uint64) *Trace {
	r := rt.NewRNG(seed, "own"+prop)
	tr := &Trace{Property: prop, Kind: "own", Seed: seed}
	c := Conf{Clients: 1 + r.Intn(4)}
	c.Preempt = []float64{0, 0.01, 0.03, 0.1, 0.3}[r.Intn(5)]
	c.LockSw = []float64{0.05, 0.3, 0.6, 0.9}[r.Intn(4)]
	if r.Intn(3) == 0 {
		c.Gap = []float64{2, 5, 12, 30, 80, 300}[r.Intn(6)]
	}
	c.Latency = r.Intn(2) == 0
	if r.Intn(10) == 0 {
		c.Mode = "foreign"
	}
	paths := [][]string{{"/sim/a.lusf"}, {"/sim/a.lusf", "/sim/./a.lusf", "a.lusf"}, {"/sim/a.lusf", "/sim/b.lusf"}, {"/sim/d/a_b.lusf", "/sim/d/a.lusf"}}[r.Intn(4)]
	rounds := 1 + r.Intn(4)
	g := &gen{r: r, p: &profile{}}
	kinds := []string{"create", "open", "put", "check", "close", "kill", "del"}
	ws := []int{8, 14, 8, 4, 9, 2, 3}
	if r.Intn(3) == 0 {
		ws[0], ws[4] = 16, 16
	}
	if r.Intn(3) == 0 {
		ws[2], ws[6] = 0, 0
	}
	race := r.Intn(3) == 0
	if race { // one create that fails late, everybody else opens
		c.Mode, c.Clients, c.Latency = "", 2+r.Intn(2), true
		c.Preempt = []float64{0.1, 0.3, 0.6}[r.Intn(3)]
		paths, rounds = paths[:1], 1
		f := &rt.Fault{Op: -1, Kind: []string{"esync", "ewrite", "efalloc", "kill"}[r.Pick([]int{6, 2, 1, 2})], Nth: 1, When: "after", Arg: r.U64()}
		if f.Kind == "kill" {
			f.Nth = 1 + r.Intn(12)
		}
		tr.Faults = append(tr.Faults, f)
		for k := 0; k < c.Clients; k++ {
			if k > 0 && r.Intn(4) != 0 {
				tr.Ops = append(tr.Ops, Op{K: "wait", C: k, D: g.d()})
			}
			tr.Ops = append(tr.Ops, Op{K: []string{"create", "open", "open"}[k], C: k, D: g.d(), S: paths[0]})
			for n := r.Intn(4); k > 0 && n > 0; n-- {
				tr.Ops = append(tr.Ops, Op{K: "open", C: k, D: g.d(), S: paths[0]})
			}
			tr.Ops = append(tr.Ops, Op{K: "put", C: k, D: g.d(), ID: uint64(k), Len: r.Intn(500)})
		}
		rounds = 0
	}
	for round := 0; round < rounds; round++ {
		for k := 0; k < c.Clients; k++ {
			for n := 1 + r.Intn(6); n > 0; n-- {
				op := Op{K: kinds[r.Pick(ws)], C: k, R: round, D: g.d(), S: paths[r.Intn(len(paths))]}
				switch op.K {
				case "create":
					if r.Intn(5) == 0 {
						op.N = uint64(1 + r.Intn(12))
					}
				case "put":
					op.ID, op.Len = uint64(1+r.Intn(4)), r.Intn(1200)
					if r.Intn(3) == 0 {
						op.N, op.Len = 1, r.Intn(100)
					}
				case "del":
					op.ID = uint64(1 + r.Intn(4))
				}
				tr.Ops = append(tr.Ops, op)
			}
		}
	}
	if !race && r.Intn(5) != 0 {
		kinds := []string{"kill", "crash", "power", "eopen", "eread", "ewrite", "esync", "efalloc", "eflock", "enospc", "short", "ereaddir"}
		for n := 1 + r.Intn(3); n > 0; n-- {
			f := &rt.Fault{Op: -1, Kind: kinds[r.Intn(len(kinds))], Nth: 1 + r.Intn(12), When: []string{"before", "after", "torn"}[r.Intn(3)], Arg: r.U64()}
			if r.Intn(2) == 0 {
				f.Op, f.Nth = r.Intn(rounds), 1+r.Intn(25)
			}
			switch f.Kind {
			case "efalloc", "eopen", "eflock", "ereaddir":
				f.Nth = 1 + r.Intn(6)
			case "short":
				f.Arg = uint64(r.Intn(3))
			}
			if r.Intn(6) == 0 {
				f.Len = 1 + r.Intn(4)
			}
			if f.Kind == "power" {
				c.Track = true
			}
			tr.Faults = append(tr.Faults, f)
		}
	}
	tr.Conf = c
	return tr
}
