package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"

	"verif.local/sim/rt"
)

// conc drives one storage from several clients at once. Every call and its
// result go into a history that must have a sequential explanation.
type conc struct {
	seq
	ids   []uint64
	slot  map[uint64]int
	hist  []*call
	clock uint64
	init  cstate
	vals  []cval
	vidx  map[string]int
	memo  map[[2]uint64]int
	ample bool
	bad   *Violation
	pre   bool
	lost  bool
	base  uint64 // everything before it is synced
	sn    snaps
	io0   int
}

const maxSlots = 12

// cstate is the model state: the value held by each id, and whether the
// storage was closed.
type cstate struct {
	v      [maxSlots]int16
	closed bool
	mid    int8  // slot+1 of the overwriting put that was applied last
	snap   int16 // 0: no snapshot, -1: the one from earlier rounds, else op index+1 of its creation
}

type cval struct {
	data   string
	embed  bool
	blocks int
	safe   bool // its data was covered by a sync
}

type call struct {
	op      Op
	n       int
	client  int
	call    uint64
	ret     uint64 // MaxUint64 while pending
	out     cout
	readAll *cstate // a look at the whole content (after the clients are done)
	blocks  [maxSlots]int
	power   bool
	crash   bool
	opt     bool // pending: may have happened or not
	logA    int  // writes to the file before the call and before its return
	logB    int
	img     *cstate        // snapshot creation: the content of the image
	set     map[int16]bool // reader: creations whose image it can be reading
}

type cout struct {
	err  string // "", "closed", "none", "full", "jfull", "inval", other
	data string
	ok   bool
	num  uint64
	ids  []uint64
}

func (c *conc) intern(data []byte, embed bool) int {
	k := string(data)
	if embed {
		k += "|e"
	} else {
		k += "|d"
	}
	if i, ok := c.vidx[k]; ok {
		return i
	}
	b := 0
	if !embed {
		b = (len(data) + 2 + blk - 1) / blk
	}
	c.vals = append(c.vals, cval{data: string(data), embed: embed, blocks: b})
	c.vidx[k] = len(c.vals) - 1
	return len(c.vals) - 1
}

// payload is unique to the operation where power may be lost
func (c *conc) payload(op Op) []byte {
	if c.tr.Conf.Track && op.Len < 8 {
		op.Len = 8
	}
	return c.mkdata(op, op.Len)
}

func (c *conc) tick() uint64 { c.clock++; return c.clock }

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case cause(err) == internalerror.StorageClosed:
		return "closed"
	case isFull(err):
		return "full"
	case isJFull(err):
		return "jfull"
	case isInval(err):
		return "inval"
	case cause(err) == internalerror.NoEntries:
		return "none"
	}
	return err.Error()
}

func runConc(tr *Trace) *Result {
	res := newResult()
	sim := newSim(tr)
	c := &conc{slot: map[uint64]int{}, vidx: map[string]int{}, memo: map[[2]uint64]int{}}
	c.vals = append(c.vals, cval{})
	c.seq = seq{tr: tr, sim: sim, m: newModel(), res: res, path: "/sim/a.lusf"}
	nvm.DEFAULT_REGION_SHIFT = 20
	if tr.Conf.Shift > 0 {
		nvm.DEFAULT_REGION_SHIFT = uint16(tr.Conf.Shift)
	}
	if tr.Conf.Path != "" {
		c.path = tr.Conf.Path
	}
	sim.Disk.Policy = c.policy
	// a torn journal write may make the storage refuse to open (C16)
	sim.Disk.Whole = func(i *rt.Inode, off int64) bool {
		return i.Path == absPath(c.path) && off >= c.ringLo && off < c.ringHi
	}
	done := false
	c.t = sim.Spawn("main", nil, true, func() {
		defer func() {
			done = true
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					res.V = s.v
					rt.SetPreempt(false)
					c.cleanup()
					return
				}
				panic(r)
			}
		}()
		c.run()
		c.cleanup()
	})
	sim.Loop(func() bool { return done })
	rt.SetPreempt(false)
	if res.V == nil && sim.Deadlock != "" {
		res.V = &Violation{Class: "hang", Msg: "no progress: " + sim.Deadlock + c.pending()}
	}
	if res.V == nil && len(sim.Panics) > 0 {
		res.V = &Violation{Class: "panic", Msg: cut(sim.Panics[0])}
	}
	finish(res, sim, c.h)
	return res
}

func (c *conc) pending() string {
	s := ""
	for _, k := range c.hist {
		if k.ret == math.MaxUint64 {
			s += fmt.Sprintf("; client %d is in %s", k.client, describe(k.op))
		}
	}
	return s
}

func (c *conc) run() {
	tr := c.tr
	for _, op := range tr.Ops {
		switch op.K {
		case "put", "embed", "upd", "del", "get", "size", "getoff":
			c.addID(op.ID)
		}
	}
	c.newProc()
	c.sim.Disk.BeginOp(-2)
	capacity, ratio := geometry(tr.Conf)
	var err error
	faults := c.sim.Disk.List
	c.sim.Disk.List = nil
	c.sn.setup(c)
	died, _ := c.call(func() { c.st, err = storage.CreateCannylsStorage(c.path, capacity, ratio) })
	if died || err != nil {
		c.fail("create", "creating the storage failed: %v", err)
	}
	h := c.st.Header()
	c.capJ, c.capD = h.JournalRegionSize, h.DataRegionSize
	c.ringLo = int64(h.RegionSize()) + blk
	c.ringHi = int64(h.RegionSize()) + int64(h.JournalRegionSize)
	c.ample = tr.Conf.Mode != "tight"
	c.setGC(!tr.Conf.NoGC)
	// before the clients start
	c.hist = nil
	c.sn.begin(c)
	for i, op := range tr.Ops {
		if op.C < 0 {
			c.one(c.t, i, op, nil)
		}
	}
	c.stopIfBad()
	rounds := 0
	for _, op := range tr.Ops {
		if op.C >= 0 && op.R+1 > rounds {
			rounds = op.R + 1
		}
	}
	if tr.Conf.Track {
		// lumps put before the clients start are durable
		if died, _ := c.call(func() { c.st.Sync() }); died {
			c.fail("panic", "process died in Sync: %s", c.proc.PanicV)
		}
		c.base = c.tick()
	}
	c.sim.Disk.List = faults
	for r := 0; r < rounds && !c.lost; r++ {
		c.round(r)
	}
	c.res.Ops = len(tr.Ops)
}

func (c *conc) addID(id uint64) {
	if _, ok := c.slot[id]; !ok && len(c.ids) < maxSlots {
		c.slot[id] = len(c.ids)
		c.ids = append(c.ids, id)
	}
}

func (c *conc) stopIfBad() {
	if c.bad != nil {
		panic(stop{c.bad})
	}
}

func (c *conc) note2(v *Violation) {
	if c.bad == nil {
		c.bad = v
	}
}

func (c *conc) round(r int) {
	n := 0
	left := 0
	all := make(chan struct{})
	for _, op := range c.tr.Ops {
		if op.C >= 0 && op.R == r && op.C+1 > n {
			n = op.C + 1
		}
	}
	left = n
	if n == 0 {
		return
	}
	c.sim.Disk.BeginOp(r)
	c.io0 = c.sim.Disk.FiredIO
	st := c.st
	if r > 0 {
		c.sn.begin(c)
	}
	rt.SetPreempt(true)
	for k := 0; k < n; k++ {
		k := k
		var t *rt.Task
		t = c.sim.Spawn(fmt.Sprintf("c%d.%d", r, k), nil, true, func() {
			defer func() {
				left--
				if left == 0 {
					close(all)
				}
			}()
			for i, op := range c.tr.Ops {
				if op.C == k && op.R == r {
					if !c.one(t, i, op, st) {
						return
					}
				}
			}
		})
	}
	<-all
	rt.P()
	rt.SetPreempt(false)
	c.stopIfBad()
	if c.ioFailed() && c.proc.Why != "power" {
		// after a device error the process is started again
		c.sim.Panics = nil
		c.sim.Kill(c.proc, "crash")
		c.proc.Why = "crash"
		c.sim.Host0.FS.DropDead()
	}
	if len(c.sim.Panics) > 0 && !c.proc.Dead {
		c.fail("panic", "%s", c.sim.Panics[0])
	}
	if c.proc.Dead {
		if c.proc.Why != "crash" && c.proc.Why != "power" {
			c.fail("panic", "%s", c.proc.PanicV)
		}
	}
	c.settle(st)
}

// settle looks at the content after the clients are done (or dead) and checks
// the history against it.
func (c *conc) settle(st *storage.Storage) {
	faults := c.sim.Disk.List
	c.sim.Disk.List = nil
	defer func() { c.sim.Disk.List = faults }()
	c.sn.ended(c)
	c.io0 = c.sim.Disk.FiredIO
	look := &call{n: -1, client: -1, op: Op{K: "content"}, ret: math.MaxUint64}
	power := c.proc.Why == "power"
	look.power, look.crash = power, c.proc.Dead
	look.call = c.base
	closed := false
	for _, k := range c.hist {
		if k.op.K == "close" && k.ret != math.MaxUint64 {
			closed = true
		}
	}
	if c.proc.Dead {
		// everything that returned before the last completed flush was called
		// is durable; operations that were running may have happened
		for _, k := range c.hist {
			if k.ret == math.MaxUint64 {
				k.opt = true
				continue
			}
			// a process crash keeps what was flushed, a power loss what was synced
			if k.op.K == "sync" || k.op.K == "close" || k.op.K == "flush" && !power {
				if k.call > look.call {
					look.call = k.call
				}
			}
		}
		c.probe("conc-" + c.proc.Why)
		old, oldp := c.st, c.proc
		c.st = nil
		c.sim.Zombie(c.t, oldp, func() { old.Close() })
		c.sim.Panics = nil
		c.newProc()
		c.sn.restart = true
		c.open("after a " + oldp.Why + " while clients were running")
	} else {
		if len(faults) > 0 {
			// later rounds may crash: they start from something durable
			if died, _ := c.call(func() { st.Sync() }); died {
				c.fail("panic", "process died in Sync: %s", c.proc.PanicV)
			}
		}
		look.call = c.tick()
		if closed || rt.Mix(c.tr.Seed)%3 == 0 && (c.tr.Conf.Shift == 0 || c.tr.Conf.Shift >= 20) {
			if !closed {
				if died, _ := c.call(func() { st.Close() }); died {
					c.fail("panic", "process died in Close: %s", c.proc.PanicV)
				}
			}
			c.st = nil
			if n := c.sim.Host0.FS.Handles(c.proc); n != 0 {
				c.fail("lin", "%d file handles are open after Close", n)
			}
			c.sn.restart = true
			c.open("after Close")
			c.probe("conc-reopen")
		}
	}
	got := c.readBack()
	s := &cstate{}
	for id, g := range got {
		i, ok := c.slot[id]
		if !ok {
			c.fail("lin", "lump %x exists, nobody ever put it", id)
		}
		look.blocks[i] = g.Blocks
		c.trace("found %x: %d bytes, error %v", id, len(g.Data), g.Err)
		if g.Err != nil {
			if power {
				s.v[i] = -1
				continue
			}
			c.fail("lin", "lump %x exists but reading it fails: %v", id, g.Err)
		}
		// the model decides whether it could hold this
		s.v[i] = int16(c.intern(g.Data, g.Embed))
	}
	look.readAll = s
	for _, k := range c.hist {
		if power && k.op.K == "put" && k.out.err == "" && k.ret < look.call {
			c.vals[c.intern(c.payload(k.op), false)].safe = true
		}
	}
	c.hist = append(c.hist, look)
	c.sn.look(c)
	c.linearize(look)
	// next round starts from here
	c.init = *s
	c.init.snap = c.sn.kept(c)
	c.lost = power
	c.base = c.tick()
	for i := range c.ids {
		if s.v[i] > 0 {
			c.vals[s.v[i]].safe = true
		}
	}
	c.hist = nil
	c.conserve()
}

func (c *conc) open(when string) {
	var err error
	died, _ := c.call(func() { c.st, err = storage.OpenCannylsStorage(c.path) })
	if died || err != nil {
		c.fail("open", "the storage does not open %s: %v %s", when, err, c.proc.PanicV)
	}
	if c.noGC {
		c.setGC(false)
	}
}

// conserve checks the space accounting at rest.
func (c *conc) conserve() {
	if c.st == nil {
		return
	}
	used := uint64(0)
	n := 0
	var ps [][2]uint64
	for i, id := range c.ids {
		if c.init.v[i] == 0 {
			continue
		}
		n++
		if p, err := c.st.GetRecord(lid(id)); err == nil {
			used += uint64(p.Len)
			ps = append(ps, [2]uint64{p.Start.AsU64(), uint64(p.Len)})
		}
	}
	u := c.st.Usage()
	if u.FileCounts != uint64(n) {
		c.fail("lin", "after the clients are done usage reports %d lumps, there are %d", u.FileCounts, n)
	}
	if u.DataFreeBytes+used*blk != c.capD/blk*blk {
		c.fail("space", "after concurrent operations free %d + used by live lumps %d is not the capacity %d", u.DataFreeBytes, used*blk, c.capD)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
	for i := 1; i < len(ps); i++ {
		if ps[i-1][0]+ps[i-1][1] > ps[i][0] {
			c.fail("space", "two live lumps share blocks after concurrent operations")
		}
	}
	h := rt.Mix(uint64(n) ^ u.JournalUsageBytes<<20 ^ u.MaxSegmentSize)
	for i := range c.ids {
		h = rt.Mix(h ^ uint64(c.init.v[i]))
	}
	c.res.States = append(c.res.States, h)
}

// one runs one call of a client; false ends the client.
func (c *conc) one(t *rt.Task, n int, op Op, st *storage.Storage) bool {
	if c.bad != nil || c.proc.Dead {
		return false
	}
	if st == nil {
		st = c.st
	}
	k := &call{op: op, n: n, client: op.C, call: c.tick(), ret: math.MaxUint64}
	c.hist = append(c.hist, k)
	if env("V") != "" {
		j, _ := json.Marshal(op)
		fmt.Fprintf(os.Stderr, "%4d call c%d %s\n", k.call, op.C, j)
	}
	f := c.body(op, st, k)
	k.logA = len(c.sn.log)
	o := c.sim.Exec(t, c.proc, f)
	c.sim.Progress()
	if o.Budget {
		c.note2(&Violation{Class: "hang", Op: n, Msg: describe(op) + " did not end"})
		return false
	}
	if o.Panic != "" && c.ioFailed() {
		// stopping the process is an acceptable answer to a device error
		c.probe("fail-stop")
		c.sim.Kill(c.proc, "crash")
		c.proc.Why = "crash"
		c.sim.Host0.FS.DropDead()
		return false
	}
	if o.Panic != "" {
		c.note2(&Violation{Class: "panic", Op: n, Msg: cut(describe(op) + ": " + o.Panic)})
		return false
	}
	if o.Crashed {
		return false
	}
	if c.ioFailed() && otherErr(k.out.err) {
		// it may have happened or not
		c.probe("failed-by-device")
		k.out, k.opt = cout{}, true
		return true
	}
	k.ret = c.tick()
	k.logB = len(c.sn.log)
	c.sn.after(c, k)
	if env("V") != "" {
		fmt.Fprintf(os.Stderr, "%4d ret  c%d %s -> err=%q ok=%v num=%d len=%d ids=%x\n", k.ret, op.C, op.K, k.out.err, k.out.ok, k.out.num, len(k.out.data), k.out.ids)
	}
	c.note(fmt.Sprint(n, op.K, k.out.err, k.out.ok, k.out.num, len(k.out.ids), rt.HashStr(k.out.data)))
	if op.K == "close" {
		return c.afterClose(t, n, op, st)
	}
	return true
}

func (c *conc) ioFailed() bool { return c.sim.Disk.FiredIO != c.io0 }

func otherErr(e string) bool {
	switch e {
	case "", "closed", "none", "full", "jfull", "inval":
		return false
	}
	return true
}

// afterClose: the file is free again at once.
func (c *conc) afterClose(t *rt.Task, n int, op Op, st *storage.Storage) bool {
	if h := c.sim.Host0.FS.Handles(c.proc); h != 0 && op.N < 2 {
		c.note2(&Violation{Class: "lin", Op: n, Msg: fmt.Sprintf("%d file handles are open after Close returned", h)})
		return false
	}
	if op.N != 1 {
		return true
	}
	var err error
	var st2 *storage.Storage
	o := c.sim.Exec(t, c.proc, func() {
		if st2, err = storage.OpenCannylsStorage(c.path); err == nil {
			st2.Close()
		}
	})
	c.sim.Progress()
	if o.Crashed || o.Panic != "" || o.Budget {
		if o.Panic != "" {
			c.note2(&Violation{Class: "panic", Op: n, Msg: "reopening after Close: " + o.Panic})
		}
		return false
	}
	if err != nil {
		c.note2(&Violation{Class: "open", Op: n, Msg: fmt.Sprintf("opening right after Close returned failed: %v", err)})
		return false
	}
	c.probe("reopen-while-others-call")
	return true
}

func (c *conc) body(op Op, st *storage.Storage, k *call) func() {
	out := &k.out
	id := lid(op.ID)
	set := func(err error) { out.err = errClass(err) }
	switch op.K {
	case "put":
		data := c.payload(op)
		return func() {
			var err error
			out.ok, err = st.Put(id, newLump(data))
			set(err)
		}
	case "embed":
		data := c.payload(op)
		return func() {
			var err error
			out.ok, err = st.PutEmbed(id, data)
			set(err)
		}
	case "upd":
		data := c.payload(op)
		return func() { set(st.PutWithOffset(id, newLump(data), op.Off, op.Res)) }
	case "get":
		return func() {
			b, err := st.Get(id)
			out.data = string(b)
			set(err)
		}
	case "getoff":
		return func() {
			b, err := st.GetWithOffset(id, op.Off, uint32(op.Len))
			out.data = string(b)
			set(err)
		}
	case "size":
		return func() {
			n, err := st.GetSize(id)
			out.num = uint64(n)
			set(err)
		}
	case "del":
		return func() {
			ok, n, err := st.Delete(id)
			out.ok, out.num = ok, uint64(n)
			set(err)
		}
	case "delr":
		return func() { set(st.DeleteRange(id, lid(op.End), true)) }
	case "list":
		return func() { out.ids = u64s(st.List()) }
	case "lrange":
		return func() { out.ids = u64s(st.ListRange(id, lid(op.End), op.N)) }
	case "min", "max", "gen":
		return func() {
			var x lump.LumpId
			switch op.K {
			case "min":
				x, out.ok = st.MinId()
			case "max":
				x, out.ok = st.MaxId()
			default:
				x, out.ok = st.GenerateEmptyId()
			}
			if out.ok {
				out.num = x.U64()
			}
		}
	case "first":
		return func() {
			x, err := st.First(id)
			if err == nil {
				out.num, out.ok = x.U64(), true
			} else if cause(err) == internalerror.StorageClosed {
				out.err = "closed"
			}
		}
	case "count":
		return func() {
			u := st.Usage()
			out.num = u.FileCounts
			out.ok = u.DataCapacity != 0
		}
	case "sync":
		return st.Sync
	case "flush":
		return st.Flush
	case "gc":
		return st.JournalGC
	case "side":
		return func() { st.RunSideJobOnce(int(op.N)) }
	case "agc":
		return func() { st.SetAutomaticGcMode(op.N == 1) }
	case "jsnap":
		return func() { st.JournalSnapshot() }
	case "alloc":
		return func() { st.GetAllocationStatus() }
	case "snapc":
		return func() { set(st.CreateSnapshot()) }
	case "snapd":
		return func() { set(st.DeleteSnapshot()) }
	case "snapg":
		return func() {
			r, err := st.GetSnapshotReader()
			if set(err); err == nil {
				c.sn.readers[op.C] = &snapReader{r: r, from: k}
			}
		}
	case "snapr":
		return func() { set(c.sn.read(c, k)) }
	case "close":
		return st.Close
	}
	panic("unknown operation " + op.K)
}

func u64s(l []lump.LumpId) []uint64 {
	out := make([]uint64, len(l))
	for i, x := range l {
		out[i] = x.U64()
	}
	return out
}

// ---- sequential explanation ----

// apply tells whether the call can happen in state s with the result it had.
func (c *conc) apply(s cstate, k *call, free bool) (cstate, bool) {
	op, out := &k.op, &k.out
	if k.op.K == "snaplook" {
		return s, (s.snap != 0) == k.out.ok && (k.set == nil || k.set[s.snap])
	}
	if k.readAll != nil {
		for i := range c.ids {
			x := k.readAll.v[i]
			if s.v[i] == x {
				continue
			}
			if x == 0 && int(s.mid) == i+1 && k.crash && !c.ample {
				// without room for both the old value goes first
				continue
			}
			if !k.power || x == 0 || s.v[i] == 0 {
				return s, false
			}
			// the bytes of lumps no sync covered are not known after a power loss
			if v := c.vals[s.v[i]]; v.embed || v.safe || v.blocks != k.blocks[i] {
				return s, false
			}
		}
		return s, true
	}
	s.mid = 0
	// free: the call never returned, any result will do
	if s.closed {
		if free {
			return s, true
		}
		switch op.K {
		case "list", "lrange":
			return s, len(out.ids) == 0
		case "min", "max", "gen":
			return s, !out.ok
		case "count":
			return s, !out.ok && out.num == 0
		case "put", "embed", "upd", "get", "getoff", "size", "del", "delr", "first", "snapc", "snapd", "snapg":
			return s, out.err == "closed" && out.data == "" && !out.ok
		}
		return s, true
	}
	if out.err == "closed" {
		return s, false
	}
	i, known := c.slot[op.ID]
	var v *cval
	if known && s.v[i] != 0 {
		v = &c.vals[s.v[i]]
	}
	switch op.K {
	case "put":
		if out.err == "jfull" || out.err == "full" && !c.ample {
			return s, true
		}
		if out.err != "" || !free && out.ok != (v != nil) {
			return s, false
		}
		if v != nil && !v.embed {
			s.mid = int8(i + 1)
		}
		s.v[i] = int16(c.intern(c.payload(*op), false))
		return s, true
	case "embed":
		if out.err == "jfull" {
			return s, true
		}
		if out.err != "" || !free && out.ok != (v != nil) {
			return s, false
		}
		s.v[i] = int16(c.intern(c.payload(*op), true))
		return s, true
	case "upd":
		if v == nil {
			if out.err == "jfull" || out.err == "full" && !c.ample {
				return s, true
			}
			if out.err != "" {
				return s, false
			}
			s.v[i] = int16(c.patched(-1, k))
			return s, true
		}
		if v.embed || int(op.Off)+op.Len > len(v.data) {
			return s, free || out.err != ""
		}
		if out.err != "" {
			return s, false
		}
		s.v[i] = int16(c.patched(int(s.v[i]), k))
		return s, true
	case "get":
		if v == nil {
			return s, out.err != ""
		}
		return s, out.err == "" && out.data == v.data
	case "getoff":
		if v == nil {
			return s, out.err != ""
		}
		if int(op.Off) > len(v.data) {
			return s, out.err != ""
		}
		end := int(op.Off) + op.Len
		if end > len(v.data) {
			if out.err != "" {
				return s, true
			}
			end = len(v.data)
		}
		return s, out.err == "" && out.data == v.data[op.Off:end]
	case "size":
		if v == nil {
			return s, out.err != ""
		}
		return s, out.err == "" && int(out.num) == len(v.data)
	case "del":
		if out.err == "jfull" {
			return s, true
		}
		if out.err != "" {
			return s, false
		}
		if !free {
			if out.ok != (v != nil) {
				return s, false
			}
			if v != nil && !v.embed && int(out.num) != v.blocks*blk {
				return s, false
			}
		}
		if known {
			s.v[i] = 0
		}
		return s, true
	case "delr":
		if out.err == "jfull" {
			return s, true
		}
		if out.err != "" {
			return s, false
		}
		for j, id := range c.ids {
			if id >= op.ID && id < op.End {
				s.v[j] = 0
			}
		}
		return s, true
	case "list", "lrange":
		n := 0
		var last uint64
		for x, id := range out.ids {
			j, ok := c.slot[id]
			if !ok || s.v[j] == 0 || x > 0 && id <= last {
				return s, false
			}
			if op.K == "lrange" && (id < op.ID || id >= op.End) {
				return s, false
			}
			last = id
		}
		for j, id := range c.ids {
			if s.v[j] != 0 && (op.K == "list" || id >= op.ID && id < op.End) {
				n++
				if uint64(len(out.ids)) == op.N && op.K == "lrange" && len(out.ids) > 0 && id < last {
					// every id below the last one listed is listed
					found := false
					for _, y := range out.ids {
						found = found || y == id
					}
					if !found {
						return s, false
					}
				}
			}
		}
		if op.K == "lrange" && uint64(n) > op.N {
			n = int(op.N)
		}
		return s, n == len(out.ids)
	case "min", "max", "first", "gen":
		have := false
		var best uint64
		for j, id := range c.ids {
			if s.v[j] == 0 {
				continue
			}
			if op.K == "gen" {
				if out.ok && id == out.num {
					return s, false
				}
				continue
			}
			if op.K == "first" && id < op.ID {
				continue
			}
			if !have || op.K == "max" && id > best || op.K != "max" && id < best {
				have, best = true, id
			}
		}
		if op.K == "gen" {
			return s, out.ok
		}
		return s, out.ok == have && (!have || best == out.num)
	case "count":
		n := 0
		for j := range c.ids {
			if s.v[j] != 0 {
				n++
			}
		}
		return s, out.ok && int(out.num) == n
	case "close":
		s.closed = true
		return s, true
	case "snapc", "snapg":
		if s.snap != 0 {
			if op.K == "snapc" {
				return s, free || out.err != ""
			}
			return s, out.err == "" && (k.set == nil || k.set[s.snap])
		}
		me := int16(k.n + 1)
		if out.err != "" || k.set != nil && !k.set[me] {
			return s, false
		}
		if k.img != nil && k.img.v != s.v {
			return s, false
		}
		s.snap = me
		return s, true
	case "snapd":
		s.snap = 0
		return s, out.err == ""
	}
	return s, true
}

// patched is the value after an update in place (or a creation with offset).
func (c *conc) patched(old int, k *call) int {
	key := [2]uint64{uint64(old + 1), uint64(k.n)}
	if x, ok := c.memo[key]; ok {
		return x
	}
	payload := c.payload(k.op)
	var b []byte
	if old < 0 {
		n := int(k.op.Off) + len(payload)
		if int(k.op.Res) > n {
			n = int(k.op.Res)
		}
		b = make([]byte, n)
	} else {
		b = []byte(c.vals[old].data)
	}
	copy(b[k.op.Off:], payload)
	x := c.intern(b, false)
	c.memo[key] = x
	return x
}

const linSteps = 400_000

type linKey struct {
	m [2]uint64
	s cstate
}

// linearize searches for a sequential order of the calls that respects real
// time and explains every result.
func (c *conc) linearize(look *call) {
	var h []*call
	snaps := false
	for _, k := range c.hist {
		if strings.HasPrefix(k.op.K, "snap") && k.op.K != "snapr" {
			snaps = true
			if c.sn.ignore {
				continue
			}
		}
		switch k.op.K {
		case "sync", "flush", "gc", "side", "agc", "jsnap", "alloc", "snapr":
			continue
		}
		if k.ret == math.MaxUint64 && k.readAll == nil && k.op.K != "snaplook" {
			switch k.op.K {
			case "snapc", "snapg", "snapd", "put", "embed", "upd", "del", "delr", "close":
			default:
				continue // a read that never returned
			}
		}
		h = append(h, k)
	}
	if len(h) > 128 {
		c.res.Unknown++
		return
	}
	sort.SliceStable(h, func(i, j int) bool { return h[i].call < h[j].call })
	seen := map[linKey]bool{}
	steps := 0
	var deepest int
	var stuck *call
	var full [2]uint64
	for i, k := range h {
		if !k.opt {
			full[i/64] |= 1 << (i % 64)
		}
	}
	var dfs func(m [2]uint64, s cstate, depth int) bool
	dfs = func(m [2]uint64, s cstate, depth int) bool {
		if m[0]&full[0] == full[0] && m[1]&full[1] == full[1] {
			return true
		}
		key := linKey{m, s}
		if seen[key] {
			return false
		}
		seen[key] = true
		steps++
		if steps > linSteps {
			return false
		}
		// the earliest return among the calls not placed yet bounds who may be next
		minRet := uint64(math.MaxUint64)
		for i, k := range h {
			if m[i/64]>>(i%64)&1 == 0 && k.ret < minRet {
				minRet = k.ret
			}
		}
		if depth >= deepest {
			deepest = depth
			for i, k := range h {
				if m[i/64]>>(i%64)&1 == 0 && k.ret == minRet {
					stuck = k
				}
			}
		}
		for i, k := range h {
			if m[i/64]>>(i%64)&1 != 0 {
				continue
			}
			if k.call > minRet {
				break
			}
			n, ok := c.apply(s, k, k.opt)
			if !ok {
				continue
			}
			m2 := m
			m2[i/64] |= 1 << (i % 64)
			if dfs(m2, n, depth+1) {
				return true
			}
			if steps > linSteps {
				return false
			}
		}
		return false
	}
	if dfs([2]uint64{}, c.init, 0) {
		c.sn.fits = true
		if len(h) > 3 {
			c.probe("linearized")
		}
		return
	}
	if steps > linSteps {
		c.res.Unknown++
		return
	}
	if c.sn.ignore {
		return // the caller reports it
	}
	if snaps {
		// is it the snapshots that do not fit?
		c.sn.ignore, c.sn.fits = true, false
		c.linearize(look)
		c.sn.ignore = false
	}
	c.op = 0
	if stuck != nil {
		c.op = stuck.n
	}
	cl := "lin"
	if look.crash && stuck == look {
		cl = "crash"
		if look.power {
			cl = "power"
		}
	}
	if snaps && c.sn.fits {
		cl = "snap"
		if look.crash {
			cl = "snapcrash"
		}
	}
	c.fail(cl, "no sequential order explains the results of %d calls; the furthest attempt stops at %s", len(h), c.explain(stuck))
}

func (c *conc) explainState(st *cstate) string {
	s := ""
	for i, id := range c.ids {
		x := st.v[i]
		switch {
		case x < 0:
			s += fmt.Sprintf(" %x=unreadable", id)
		case x > 0:
			s += fmt.Sprintf(" %x=%s", id, c.desc([]byte(c.vals[x].data)))
		}
	}
	return s
}

func (c *conc) explain(k *call) string {
	if k == nil {
		return "the end"
	}
	if k.readAll != nil {
		return "the final content:" + c.explainState(k.readAll)
	}
	r := "ok"
	if k.op.K == "snaplook" {
		return fmt.Sprintf("the state of the snapshot afterwards: exists=%v, image of the creation by op %v", k.out.ok, k.set)
	}
	if k.img != nil {
		return fmt.Sprintf("client %d %s -> %s; the image holds %s", k.client, describe(k.op), k.out.err, c.explainState(k.img))
	}
	switch {
	case k.out.err != "":
		r = k.out.err
	case k.op.K == "get" || k.op.K == "getoff":
		r = c.desc([]byte(k.out.data))
	case k.out.ids != nil:
		r = fmt.Sprintf("%x", k.out.ids)
	default:
		r = fmt.Sprintf("ok=%v %d", k.out.ok, k.out.num)
	}
	return fmt.Sprintf("client %d %s -> %s", k.client, describe(k.op), r)
}

// desc names the write a byte string comes from.
func (c *conc) desc(b []byte) string {
	for i, op := range c.tr.Ops {
		if (op.K == "put" || op.K == "embed") && bytes.Equal(b, c.payload(op)) {
			return fmt.Sprintf("%d bytes written by op %d to %x", len(b), i, op.ID)
		}
	}
	return fmt.Sprintf("%d bytes no put wrote", len(b))
}
