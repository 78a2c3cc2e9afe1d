package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"

	"verif.local/sim/rt"
)

// seq drives one storage from one client and checks every observation against
// the model; crashes, power losses and device errors come from the fault list.
type seq struct {
	tr   *Trace
	sim  *rt.Sim
	t    *rt.Task
	proc *rt.Proc
	st   *storage.Storage
	m    *Model
	res  *Result
	path string
	op   int
	h    uint64
	// counters for the oracle
	ioSeen         bool // an I/O error was injected in this run
	torn           *tear
	tornRing       bool // a torn journal write may be on the device
	ringLo, ringHi int64
	dataLo         int64
	nprocs         int
	noGC           bool
	capJ, capD     uint64
	failedIO       bool
	nogcEver       bool
	runKnown       bool // runBefore is the longest run of blocks free before the current put
	runBefore      int
	saved          []*rt.Fault
	snap           seqSnap
}

type stop struct{ v *Violation }

func (e *seq) trace(f string, a ...any) {
	if env("V") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (e *seq) fail(class, f string, a ...any) {
	panic(stop{&Violation{Class: class, Msg: cut(fmt.Sprintf(f, a...)), Op: e.op}})
}

func cut(s string) string {
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

func (e *seq) probe(n string) { e.res.Probes[n]++ }

func (e *seq) note(s string) {
	e.h = rt.Mix(e.h ^ rt.HashStr(s))
}

func lid(x uint64) lump.LumpId { return lump.FromU64(0, x) }

func cause(err error) error { return errors.Cause(err) }

// capacity and ratio that give the wanted region sizes
func geometry(c Conf) (capacity uint64, ratio float64) {
	j := uint64(c.Ring + blk)
	d := uint64(c.Data)
	capacity = blk + j + d
	ratio = (float64(j) - 256) / float64(capacity)
	if c.Ring == blk {
		ratio = 0 // the smallest journal
	}
	return
}

const simEpoch = 4 * time.Hour

func newSim(tr *Trace) *rt.Sim {
	// every run starts at the same second of an hour
	if now := time.Now(); now.Truncate(time.Hour) != now {
		time.Sleep(now.Truncate(time.Hour).Add(time.Hour).Sub(now))
	}
	s := rt.New(rt.Config{Seed: tr.Seed ^ rt.Mix(tr.Conf.SSeed)*b2u(tr.Conf.SSeed != 0), Preempt: tr.Conf.Preempt, LockSw: tr.Conf.LockSw, Gap: tr.Conf.Gap, Latency: tr.Conf.Latency,
		Replay: tr.Sched, IsReplay: tr.Replay})
	s.Host0.FS.Track = tr.Conf.Track
	s.Host0.FS.Free = -1
	if tr.Conf.Free > 0 {
		s.Host0.FS.Free = tr.Conf.Free
	}
	for _, f := range tr.Faults {
		f.Reset()
	}
	s.Disk.List = tr.Faults
	return s
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func newResult() *Result { return &Result{Faults: map[string]int{}, Probes: map[string]int{}} }

func finish(res *Result, sim *rt.Sim, h uint64) {
	res.SimNS = int64(time.Since(sim.Start))
	res.Points = sim.Points()
	res.Switch = sim.Switch
	res.SchedH = sim.SchedHash
	res.Sched = sim.Trace
	for k, v := range sim.Stats.Faults {
		res.Faults[k] += v
	}
	res.IO = [4]uint64{sim.Stats.IOReads, sim.Stats.IOWrites, sim.Stats.IOSyncs, sim.Stats.IOMeta}
	res.Lost, res.Kept = sim.Disk.Lost, sim.Disk.Kept
	res.Hash = rt.Mix(h ^ sim.SchedHash ^ uint64(sim.Stats.IOWrites)<<32 ^ uint64(sim.Stats.IOSyncs)<<48)
	if res.V != nil {
		res.Hash ^= rt.HashStr(res.V.Class + res.V.Msg)
	}
}

func runSeq(tr *Trace) *Result {
	res := newResult()
	nvm.DEFAULT_REGION_SHIFT = 20
	sim := newSim(tr)
	e := &seq{tr: tr, sim: sim, m: newModel(), res: res, path: tr.Conf.Path}
	if e.path == "" {
		e.path = "/sim/a.lusf"
	}
	sim.Disk.Policy = e.policy
	if tr.Conf.Mode == "torn" {
		e.tearWrites()
	}
	done := false
	e.t = sim.Spawn("main", nil, true, func() {
		defer func() {
			done = true
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					res.V = s.v
					e.cleanup()
					return
				}
				panic(r)
			}
		}()
		e.main()
		e.cleanup()
	})
	sim.Loop(func() bool { return done })
	if res.V == nil && sim.Deadlock != "" {
		res.V = &Violation{Class: "hang", Op: e.op, Msg: "no progress: " + sim.Deadlock}
	}
	if res.V == nil && len(sim.Panics) > 0 {
		res.V = &Violation{Class: "panic", Op: e.op, Msg: sim.Panics[0]}
	}
	res.Ops = e.op
	finish(res, sim, e.h)
	return res
}

func (e *seq) cleanup() {
	if e.st != nil {
		st := e.st
		e.st = nil
		e.sim.Zombie(e.t, e.proc, func() { st.Close() })
	}
}

// policy for a power loss: which of the writes no sync covered survive.
// Journal ring writes survive as a prefix in issue order; every other write
// (data blocks, journal header, storage header, snapshot files) independently.
func (e *seq) policy(f *rt.Fault, pend []*rt.WriteOp) []bool {
	return lossPolicy(f, pend, func(w *rt.WriteOp) bool {
		return w.Ino.Path == absPath(e.path) && w.Off >= e.ringLo && w.Off < e.ringHi
	})
}

func lossPolicy(f *rt.Fault, pend []*rt.WriteOp, ring func(*rt.WriteOp) bool) []bool {
	r := rt.NewRNG(f.Arg, "loss")
	keep := make([]bool, len(pend))
	nring := 0
	for _, w := range pend {
		if ring(w) {
			nring++
		}
	}
	cut := r.Intn(nring + 1)
	switch r.Intn(5) {
	case 0:
		cut = nring
	case 1:
		cut = 0
	}
	p := [5]float64{0, 1, 0.5, 0.15, 0.85}[r.Intn(5)]
	n := 0
	for i, w := range pend {
		if ring(w) {
			keep[i] = n < cut
			n++
		} else {
			keep[i] = r.P(p)
		}
	}
	return keep
}

func (e *seq) newProc() {
	e.nprocs++
	e.proc = e.sim.NewProc(fmt.Sprintf("p%d", e.nprocs))
	e.proc.SilentOut = true
}

// openBad closes the storage and opens it while a sector is unreadable.
func (e *seq) openBad(op Op) {
	e.sim.Disk.List, e.saved = nil, e.sim.Disk.List
	defer func() { e.sim.Disk.List = e.saved }()
	st := e.st
	if died, _ := e.call(func() { st.Close() }); died {
		e.recover(nil)
		return
	}
	e.m.didSync()
	e.st = nil
	ino := e.sim.Host0.FS.Files[e.path]
	// mostly the journal, where the open has to read; sometimes a header
	sec := e.ringLo/blk + int64(op.N)%((e.ringHi-e.ringLo)/blk)
	if op.N%7 == 0 {
		sec = int64(op.N/7) % (e.ringLo / blk)
	}
	ino.Bad = map[int64]bool{sec: true}
	before := e.sim.Stats.Faults["badsector"]
	var err error
	var s2 *storage.Storage
	died, _ := e.call(func() { s2, err = storage.OpenCannylsStorage(e.path) })
	ino.Bad = nil
	hit := e.sim.Stats.Faults["badsector"] != before
	if died {
		// stopping the process is an acceptable answer to a device error
		e.probe("badsector-open-died")
		e.recover(nil)
		return
	}
	if err != nil {
		if !hit {
			e.fail("open", "opening failed without a device error: %v", err)
		}
		e.probe("badsector-open-refused")
		if e.sim.Host0.FS.LockedBy(e.path) != nil || e.sim.Host0.FS.Handles(e.proc) != 0 {
			e.fail("handles", "an open that failed with %q kept the file open or locked", err)
		}
		died, _ = e.call(func() { e.st, err = storage.OpenCannylsStorage(e.path) })
		if died || err != nil {
			e.fail("open", "the storage does not open after the device works again: %v", err)
		}
	} else {
		e.st = s2
		e.probe("badsector-open-ok")
	}
	if e.noGC {
		e.setGC(false)
	}
	e.audit("ioerr", 0)
}

// call runs repository code; it returns true when the process died in it.
func (e *seq) call(f func()) (died bool, io bool) {
	before, torn := e.sim.Disk.FiredIO, len(e.sim.Disk.Torn)
	o := e.sim.Exec(e.t, e.proc, f)
	e.sim.Progress()
	if o.Panic != "" || o.Crashed || e.sim.Disk.FiredIO != before {
		e.trace("  outcome %+v, faults fired %d", o, e.sim.Disk.FiredIO-before)
	}
	io = e.sim.Disk.FiredIO != before
	for _, w := range e.sim.Disk.Torn[torn:] {
		if w.Path == e.path && w.Off >= e.ringLo && w.Off < e.ringHi {
			e.tornRing = true
		}
	}
	if io {
		e.ioSeen = true
		if e.snap.st != 0 {
			// saving a region may have failed; what needs it fails from now on
			e.failedIO = true
		}
	}
	if o.Budget {
		e.fail("hang", "operation did not finish within %d statements", e.sim.Cfg.Budget)
	}
	if len(e.sim.Panics) > 0 {
		if io || e.failedIO {
			e.sim.Panics = nil
			return true, io
		}
		e.fail("panic", "%s", e.sim.Panics[0])
	}
	if o.Panic != "" {
		if io || e.failedIO {
			e.probe("fail-stop")
			return true, io
		}
		e.fail("panic", "%s", o.Panic)
	}
	return o.Crashed, io
}

func (e *seq) main() {
	tr := e.tr
	e.newProc()
	e.sim.Disk.BeginOp(-2)
	capacity, ratio := geometry(tr.Conf)
	var err error
	saved := e.sim.Disk.List
	e.sim.Disk.List = nil
	died, _ := e.call(func() { e.st, err = storage.CreateCannylsStorage(e.path, capacity, ratio) })
	if died || err != nil {
		e.fail("create", "creating the storage failed: %v", err)
	}
	h := e.st.Header()
	e.capJ, e.capD = h.JournalRegionSize, h.DataRegionSize
	e.ringLo = int64(h.RegionSize()) + blk
	e.ringHi = int64(h.RegionSize()) + int64(h.JournalRegionSize)
	d := e.sim.Disk
	d.RingPath, d.RingLo, d.RingHi = absPath(e.path), e.ringLo, e.ringHi
	e.dataLo = e.ringHi
	if int(h.JournalRegionSize) != tr.Conf.Ring+blk || int(h.DataRegionSize) != tr.Conf.Data {
		// rounding of the ratio; the run uses what the header says
		e.probe("geometry-rounded")
	}
	if a := tr.Conf.Aged; a != nil {
		e.age(a)
	}
	e.sim.Disk.List = saved
	e.setGC(!tr.Conf.NoGC)
	for i, op := range tr.Ops {
		e.op = i
		e.sim.Disk.BeginOp(i)
		e.step(op)
		if tr.Conf.Audit > 0 && i%tr.Conf.Audit == tr.Conf.Audit-1 {
			e.quiet(func() { e.audit("", 0) })
		}
	}
	e.op = len(tr.Ops)
	e.quiet(func() { e.audit("", 1) })
}

func (e *seq) setGC(on bool) {
	e.noGC = !on
	if !on {
		e.nogcEver = true
	}
	if e.st != nil {
		st := e.st
		e.call(func() { st.SetAutomaticGcMode(on) })
	}
}

// quiet runs f with fault injection suspended.
func (e *seq) quiet(f func()) {
	l := e.sim.Disk.List
	e.sim.Disk.List = nil
	defer func() { e.sim.Disk.List = l }()
	f()
}

func (e *seq) mkdata(op Op, n int) []byte { return pattern(e.tr.Seed^op.D*0x9e37+op.D, n) }

func newLump(data []byte) lump.LumpData {
	ld := lump.NewLumpDataAligned(len(data), block.Min())
	if ld.Inner == nil {
		return ld
	}
	copy(ld.AsBytes(), data)
	return ld
}

func isFull(err error) bool  { return cause(err) == internalerror.StorageFull }
func isJFull(err error) bool { return cause(err) == internalerror.JournalStorageFull }
func isInval(err error) bool { return cause(err) == internalerror.InvalidInput }

// freeRuns is computed from the portions of the live lumps, not from what the
// allocator says.
func (e *seq) portions() (ps [][2]uint64, ok bool) {
	for _, id := range e.m.cur().ids() {
		v := e.m.cur().live(id)
		if v == nil {
			return nil, false
		}
		if v.Embed {
			continue
		}
		p, err := e.st.GetRecord(lid(id))
		if err != nil {
			return nil, false
		}
		ps = append(ps, [2]uint64{p.Start.AsU64(), uint64(p.Len)})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
	return ps, true
}

func (e *seq) maxFreeRun() (int, bool) {
	ps, ok := e.portions()
	if !ok {
		return 0, false
	}
	at, best := uint64(0), uint64(0)
	for _, p := range ps {
		if p[0] > at && p[0]-at > best {
			best = p[0] - at
		}
		if p[0]+p[1] > at {
			at = p[0] + p[1]
		}
	}
	if t := e.capD / blk; t > at && t-at > best {
		best = t - at
	}
	return int(best), true
}

// journalMayBeFull tells whether the journal-full error is acceptable.
func (e *seq) journalMayBeFull(extra int) bool {
	if e.noGC || e.nogcEver {
		return true
	}
	if e.ioSeen {
		return true
	}
	ring := int(e.capJ) - blk
	tot, max := e.m.cur().recBytes()
	if extra > max {
		max = extra
	}
	return (tot+extra)*8 > ring || max*64 > ring || max > 60
}

// failed handles an error returned by a mutation: nothing may have changed.
func (e *seq) failed(op Op, err error, io bool, maybe map[uint64]Cell) {
	e.note("err:" + cause(err).Error())
	if io || e.failedIO && !isFull(err) && !isJFull(err) && !isInval(err) {
		// the device failed under it: it may have happened or not
		e.failedIO = true
		e.probe("op-failed-io")
		if len(maybe) > 0 {
			upd := map[uint64]Cell{}
			for id, c := range maybe {
				old := e.m.cur().get(id)
				if len(old) == 0 {
					old = Cell{nil}
				}
				upd[id] = append(append(Cell{}, old...), c...)
			}
			e.m.push("failed "+op.K, upd)
		}
		return
	}
	e.probe("op-failed")
	if op.D%3 != 0 {
		e.quiet(func() { e.audit("failchg", 0) })
	}
}

func describe(op Op) string {
	return fmt.Sprintf("%s id=%x len=%d off=%d end=%x", op.K, op.ID, op.Len, op.Off, op.End)
}

// checkRead compares bytes read from a lump with the model.
func (e *seq) checkRead(what string, id uint64, data []byte, err error, io bool) {
	c := e.m.cur().get(id)
	if len(c) == 0 {
		if err == nil {
			e.fail("enum", "%s(%x) succeeded (%d bytes) but the lump does not exist", what, id, len(data))
		}
		return
	}
	if err != nil {
		if io || c.absentOK() || c.has(func(v *Val) bool { return v != nil && v.Loose }) {
			return
		}
		if e.snapSick() {
			return
		}
		e.fail("read", "%s(%x) failed: %v; expected %v", what, id, err, c[0])
	}
	ok := c.has(func(v *Val) bool { return v != nil && (v.Loose || bytes.Equal(v.Data, data)) })
	if !ok {
		cl := "read"
		if e.ioSeen {
			cl = "ioerr"
		}
		e.fail(cl, "%s(%x) returned %d bytes that the lump does not hold (%s), expected %v", what, id, len(data), diff(data, c), c[0])
	}
}

func diff(got []byte, c Cell) string {
	if len(c) == 0 || c[0] == nil {
		return ""
	}
	w := c[0].Data
	if len(w) != len(got) {
		return fmt.Sprintf("length %d instead of %d", len(got), len(w))
	}
	n, first := 0, -1
	for i := range w {
		if w[i] != got[i] {
			n++
			if first < 0 {
				first = i
			}
		}
	}
	return fmt.Sprintf("%d bytes differ, first at %d", n, first)
}

func (e *seq) died(inflight []*State) {
	e.recover(inflight)
}

func (e *seq) step(op Op) {
	if env("V") != "" {
		j, _ := json.Marshal(op)
		fmt.Fprintf(os.Stderr, "op %d %s\n", e.op, j)
		if e.sim.Disk.Trail == nil {
			e.sim.Disk.Trail = func(kind string, ino *rt.Inode, off int64, n int) {
				fmt.Fprintf(os.Stderr, "    %s %s ring+%d len %d\n", kind, ino.Path, off-e.ringLo, n)
			}
		}
	}
	cur := e.m.cur()
	st := e.st
	switch op.K {
	case "put", "putmax", "putover":
		e.stepPut(op)
	case "embed":
		data := e.mkdata(op, op.Len)
		old := cur.get(op.ID)
		v := e.m.newVal(true, data)
		var upd bool
		var err error
		died, io := e.call(func() { upd, err = st.PutEmbed(lid(op.ID), append([]byte(nil), data...)) })
		if died {
			e.recover([]*State{cur.with("in-flight "+describe(op), map[uint64]Cell{op.ID: {v}})})
			return
		}
		if err != nil {
			switch {
			case isJFull(err):
				if !e.journalMayBeFull(15 + op.Len) {
					e.fail("jfull", "PutEmbed of %d bytes: %v although the live records use %s", op.Len, err, e.recs())
				}
			case op.Len > lump.MAX_EMBEDDED_SIZE:
			case io, e.failedIO:
			default:
				e.fail("error", "PutEmbed(%x, %d bytes) failed: %v", op.ID, op.Len, err)
			}
			e.failed(op, err, io, map[uint64]Cell{op.ID: {v}})
			return
		}
		if op.Len > lump.MAX_EMBEDDED_SIZE {
			e.fail("error", "PutEmbed accepted %d bytes", op.Len)
		}
		if old.one() != nil != upd && len(old) < 2 {
			e.fail("enum", "PutEmbed(%x) reported updated=%v", op.ID, upd)
		}
		e.m.push(describe(op), map[uint64]Cell{op.ID: {v}})
	case "upd":
		e.stepUpdate(op)
	case "del":
		old := cur.get(op.ID)
		var upd bool
		var size uint32
		var err error
		died, io := e.call(func() { upd, size, err = st.Delete(lid(op.ID)) })
		if died {
			e.recover([]*State{cur.with("in-flight "+describe(op), map[uint64]Cell{op.ID: nil})})
			return
		}
		if err != nil {
			if isJFull(err) {
				if !e.journalMayBeFull(20) {
					e.fail("jfull", "Delete: %v although the live records use %s", err, e.recs())
				}
			} else if !io && !e.failedIO {
				e.fail("error", "Delete(%x) failed: %v", op.ID, err)
			}
			e.failed(op, err, io, map[uint64]Cell{op.ID: {nil}})
			return
		}
		if len(old) < 2 {
			v := old.one()
			if upd != (v != nil) {
				e.fail("enum", "Delete(%x) reported existed=%v, expected %v", op.ID, upd, v != nil)
			}
			if v != nil && !v.Embed && size != uint32(v.Blocks*blk) {
				e.fail("space", "Delete(%x) reports %d bytes released, the lump occupied %d", op.ID, size, v.Blocks*blk)
			}
		}
		if len(old) > 0 {
			e.m.push(describe(op), map[uint64]Cell{op.ID: nil})
		}
	case "delr":
		upd := map[uint64]Cell{}
		hasData := op.D%3 != 0
		for _, id := range cur.ids() {
			if id >= op.ID && id < op.End {
				upd[id] = nil
				hasData = hasData || cur.get(id).has(func(v *Val) bool { return v == nil || !v.Embed })
			}
		}
		var err error
		died, io := e.call(func() { err = st.DeleteRange(lid(op.ID), lid(op.End), hasData) })
		if died {
			e.recover([]*State{cur.with("in-flight "+describe(op), upd)})
			return
		}
		if err != nil {
			if isJFull(err) {
				if !e.journalMayBeFull(21) {
					e.fail("jfull", "DeleteRange: %v although the live records use %s", err, e.recs())
				}
			} else if !io && !e.failedIO {
				e.fail("error", "DeleteRange(%x,%x) failed: %v", op.ID, op.End, err)
			}
			mb := map[uint64]Cell{}
			for id := range upd {
				mb[id] = Cell{nil}
			}
			e.failed(op, err, io, mb)
			return
		}
		if len(upd) > 0 {
			e.m.push(describe(op), upd)
			e.probe("delete-range-hit")
		}
	case "wrec":
		v := cur.live(op.ID)
		if v == nil || v.Embed {
			return
		}
		var err error
		died, io := e.call(func() {
			p, er := st.GetRecord(lid(op.ID))
			if er != nil {
				err = er
				return
			}
			err = st.WriteRecord(lid(op.ID), *p)
		})
		if died {
			e.recover(nil)
			return
		}
		if err != nil {
			if isJFull(err) {
				if !e.journalMayBeFull(20) {
					e.fail("jfull", "WriteRecord: %v", err)
				}
			} else if !io && !e.failedIO {
				e.fail("error", "WriteRecord(%x) failed: %v", op.ID, err)
			}
			e.failed(op, err, io, nil)
		}
	case "get":
		var data []byte
		var err error
		died, io := e.call(func() { data, err = st.Get(lid(op.ID)) })
		if died {
			e.recover(nil)
			return
		}
		e.checkRead("Get", op.ID, data, err, io)
	case "size":
		var n uint32
		var err error
		died, io := e.call(func() { n, err = st.GetSize(lid(op.ID)) })
		if died {
			e.recover(nil)
			return
		}
		e.checkSize(op.ID, n, err, io)
	case "getoff":
		e.stepRange(op)
	case "list", "lrange", "min", "max", "first", "gen", "count":
		e.stepEnum(op)
	case "sync":
		died, io := e.call(func() { st.Sync() })
		if died {
			e.recover(nil)
			return
		}
		if !io {
			e.m.didSync()
			e.tornRing = false
			e.afterSync()
		} else {
			e.fail("ioerr", "Sync returned normally although the device reported an error to it")
		}
	case "flush":
		died, io := e.call(func() { st.Flush() })
		if died {
			e.recover(nil)
			return
		}
		if !io {
			e.m.didFlush()
		} else {
			e.fail("ioerr", "Flush returned normally although the device reported an error to it")
		}
	case "gc":
		died, _ := e.call(func() { st.JournalGC() })
		if died {
			e.recover(nil)
			return
		}
		e.probe("full-gc")
		if op.D%2 == 0 {
			e.quiet(func() { e.audit("gc", 0) })
		}
		e.checkGCUsage()
	case "side":
		died, _ := e.call(func() { st.RunSideJobOnce(int(op.N)) })
		if died {
			e.recover(nil)
			return
		}
		if op.D%4 == 0 {
			e.quiet(func() { e.audit("gc", 0) })
		}
	case "agc":
		e.setGC(op.N == 1)
	case "reopen":
		e.reopen(op)
	case "crash":
		e.sim.Disk.CrashNow(&rt.Fault{Op: e.op, Kind: "crash"})
		e.recover(nil)
	case "power":
		e.sim.Disk.CrashNow(&rt.Fault{Op: e.op, Kind: "power", Arg: op.N})
		e.recover(nil)
	case "audit":
		e.quiet(func() { e.audit("", 1) })
	case "delall":
		e.deleteAll()
	case "openbad":
		e.openBad(op)
	case "damage":
		e.damage(op)
	case "snapc", "snapd", "snapr":
		e.stepSnap(op)
	default:
		panic("unknown operation " + op.K)
	}
}

func (e *seq) recs() string {
	t, m := e.m.cur().recBytes()
	return fmt.Sprintf("%d bytes (largest %d) of a %d byte journal", t, m, int(e.capJ)-blk)
}

func (e *seq) checkGCUsage() {
	if e.st == nil || e.ioSeen || e.m.cur().ambiguous() {
		return
	}
	u := e.st.Usage()
	tot, max := e.m.cur().recBytes()
	// slack: the gap in front of the wrap point and the sector the end marker is in
	if int(u.JournalUsageBytes) > tot+max+2*blk && tot*2+2*max+4*blk < int(e.capJ)-blk {
		e.fail("gc-usage", "after a full collection the journal reports %d bytes used, live records need %d (largest %d, capacity %d)", u.JournalUsageBytes, tot, max, int(e.capJ)-blk)
	}
}

func (e *seq) afterSync() {}

func (e *seq) stepPut(op Op) {
	cur := e.m.cur()
	st := e.st
	n := op.Len
	usage := st.Usage()
	maxPut := 4 << 20
	if e.tr.Conf.Data > 20<<20 && op.D&3 != 0 {
		maxPut = 1 << 30
	}
	if op.K == "putmax" {
		if usage.MaxSegmentSize == 0 || usage.MaxSegmentSize > lumpMax {
			return
		}
		n = int(usage.MaxSegmentSize)
		if n > maxPut {
			return
		}
	} else if op.K == "putover" {
		n = int(usage.MaxSegmentSize) + 1 + op.Len
		if n > maxPut {
			return
		}
	}
	var data []byte
	if n <= lumpMax {
		data = e.mkdata(op, n)
	}
	v := e.m.newVal(false, data)
	old := cur.get(op.ID)
	need := v.Blocks
	var upd bool
	var err error
	e.runKnown = false
	if !old.absentOK() {
		e.runBefore, e.runKnown = e.maxFreeRun()
	}
	died, io := e.call(func() {
		ld := newLump(data)
		if n > lumpMax {
			ld = lump.NewLumpDataAligned(n, block.Min())
			if op.D%2 == 0 {
				ld = lump.NewLumpDataWithAb(block.NewAlignedBytes(n, block.Min()))
			}
		}
		upd, err = st.Put(lid(op.ID), ld)
	})
	if died {
		ex := []*State{cur.with("in-flight "+describe(op), map[uint64]Cell{op.ID: {v}})}
		if old.has(func(o *Val) bool { return o != nil && !o.Embed }) && !e.bothFit(need) {
			ex = append(ex, cur.with("in-flight replace "+describe(op), map[uint64]Cell{op.ID: nil}))
		}
		e.recover(ex)
		return
	}
	if err != nil {
		switch {
		case n > lumpMax:
		case isJFull(err):
			if !e.journalMayBeFull(20) {
				e.fail("jfull", "Put: %v although the live records use %s", err, e.recs())
			}
		case isFull(err):
			if !e.ioSeen && !cur.ambiguous() {
				if run, ok := e.maxFreeRun(); ok && run >= need {
					e.fail("full", "Put of %d bytes (%d blocks): %v although %d adjacent blocks are free", n, need, err, run)
				}
				if o := old.one(); o != nil && !o.Embed && o.Blocks >= need {
					e.fail("full", "overwriting %d blocks with %d blocks: %v", o.Blocks, need, err)
				}
			}
			e.probe("storage-full")
		case io, e.failedIO:
		default:
			e.fail("error", "Put(%x, %d bytes) failed: %v", op.ID, n, err)
		}
		if io && !old.absentOK() && !e.bothFit(need) {
			e.failed(op, err, io, map[uint64]Cell{op.ID: {v, nil}})
		} else {
			e.failed(op, err, io, map[uint64]Cell{op.ID: {v}})
		}
		return
	}
	if n > lumpMax {
		e.fail("error", "Put accepted %d bytes", n)
	}
	if op.K == "putover" && e.m.synced == len(e.m.states)-1 && len(old) == 0 {
		e.fail("space", "a put of %d bytes succeeded, usage reported %d as the largest storable", n, usage.MaxSegmentSize)
	}
	if len(old) < 2 && upd != (old.one() != nil) {
		e.fail("enum", "Put(%x) reported updated=%v, expected %v", op.ID, upd, old.one() != nil)
	}
	if old.has(func(o *Val) bool { return o != nil && !o.Embed }) && !e.bothFit(need) {
		// it had to give up the old value first
		e.m.push("replace (old released) "+describe(op), map[uint64]Cell{op.ID: nil})
		e.probe("tight-overwrite")
	}
	e.m.push(describe(op), map[uint64]Cell{op.ID: {v}})
}

// bothFit: could the new copy certainly be stored next to the old one?
func (e *seq) bothFit(need int) bool { return e.runKnown && e.runBefore >= need }

func (e *seq) checkSize(id uint64, n uint32, err error, io bool) {
	c := e.m.cur().get(id)
	if len(c) == 0 {
		if err == nil {
			e.fail("enum", "GetSize(%x) succeeded but the lump does not exist", id)
		}
		return
	}
	if err != nil {
		if io || c.absentOK() || c.has(func(v *Val) bool { return v != nil && v.Loose }) {
			return
		}
		if e.snapSick() {
			return
		}
		e.fail("read", "GetSize(%x) failed: %v", id, err)
	}
	if !c.has(func(v *Val) bool { return v != nil && (v.Loose || len(v.Data) == int(n)) }) {
		e.fail("read", "GetSize(%x) = %d, expected %v", id, n, c[0])
	}
}

func (e *seq) stepRange(op Op) {
	st := e.st
	var data []byte
	var err error
	ln := uint32(op.Len)
	if op.S == "huge" {
		ln = uint32(op.N)
	}
	died, io := e.call(func() { data, err = st.GetWithOffset(lid(op.ID), op.Off, ln) })
	if died {
		e.recover(nil)
		return
	}
	e.checkRange(op.ID, op.Off, ln, data, err, io)
}

func (e *seq) checkRange(id uint64, off, ln uint32, data []byte, err error, io bool) {
	c := e.m.cur().get(id)
	if len(c) == 0 {
		if err == nil {
			e.fail("enum", "GetWithOffset(%x) succeeded but the lump does not exist", id)
		}
		return
	}
	v := c.one()
	if v == nil || v.Loose {
		return
	}
	size := uint64(len(v.Data))
	end := uint64(off) + uint64(ln)
	if err != nil {
		if io || e.snapSick() {
			return
		}
		if end <= size {
			e.fail("range", "GetWithOffset(%x, %d, %d) failed on a lump of %d bytes: %v", id, off, ln, size, err)
		}
		return
	}
	if uint64(off) > size {
		e.fail("range", "GetWithOffset(%x, %d, %d) returned %d bytes, the lump has only %d", id, off, ln, len(data), size)
	}
	if end > size {
		end = size
	}
	if !bytes.Equal(data, v.Data[off:end]) {
		e.fail("range", "GetWithOffset(%x, %d, %d) returned %d wrong bytes (%s), the lump has %d", id, off, ln, len(data),
			diff(data, Cell{&Val{Data: v.Data[off:end]}}), size)
	}
	e.probe("range-read")
}

// stepUpdate is PutWithOffset: creation with zero fill, or update in place.
func (e *seq) stepUpdate(op Op) {
	st := e.st
	cur := e.m.cur()
	payload := e.mkdata(op, op.Len)
	c := cur.get(op.ID)
	v := c.one()
	var err error
	ld := newLump(payload)
	end := uint64(op.Off) + uint64(op.Len)
	if len(c) == 0 {
		total := end
		if uint64(op.Res) > total {
			total = uint64(op.Res)
		}
		if total > 8<<20 && total <= lumpMax {
			return
		}
		var nv *Val
		if total <= lumpMax {
			data := make([]byte, total)
			copy(data[op.Off:], payload)
			nv = e.m.newVal(false, data)
		}
		died, io := e.call(func() { err = st.PutWithOffset(lid(op.ID), ld, op.Off, op.Res) })
		if died {
			if nv != nil {
				e.recover([]*State{cur.with("in-flight "+describe(op), map[uint64]Cell{op.ID: {nv}})})
			} else {
				e.recover(nil)
			}
			return
		}
		if err != nil {
			switch {
			case nv == nil:
			case isJFull(err):
				if !e.journalMayBeFull(20) {
					e.fail("jfull", "PutWithOffset: %v although the live records use %s", err, e.recs())
				}
			case isFull(err):
				if run, ok := e.maxFreeRun(); ok && run >= nv.Blocks && !e.ioSeen {
					e.fail("full", "PutWithOffset of %d bytes: %v although %d adjacent blocks are free", total, err, run)
				}
			case io, e.failedIO:
			default:
				e.fail("error", "PutWithOffset(%x) creating %d bytes failed: %v", op.ID, total, err)
			}
			mb := map[uint64]Cell{}
			if nv != nil {
				mb[op.ID] = Cell{nv}
			}
			e.failed(op, err, io, mb)
			return
		}
		if nv == nil {
			e.fail("error", "PutWithOffset accepted a lump of %d bytes", total)
		}
		e.m.push(describe(op), map[uint64]Cell{op.ID: {nv}})
		e.probe("update-create")
		return
	}
	if v == nil || v.Loose {
		return
	}
	inb := !v.Embed && end <= uint64(len(v.Data))
	var data []byte
	if inb {
		data = append([]byte(nil), v.Data...)
		copy(data[op.Off:], payload)
	}
	died, io := e.call(func() { err = st.PutWithOffset(lid(op.ID), ld, op.Off, op.Res) })
	if died {
		if inb {
			e.m.inplace(op.ID, v, data, true)
		}
		e.recover(nil)
		return
	}
	if err != nil {
		if inb && !io && !e.failedIO {
			e.fail("range", "PutWithOffset(%x, off %d, len %d) on a lump of %d bytes failed: %v", op.ID, op.Off, op.Len, len(v.Data), err)
		}
		if io && inb {
			e.note("upd-io")
			e.failedIO = true
			// settle what is on the device now
			e.m.inplace(op.ID, v, data, true)
			var now []byte
			var er error
			e.quiet(func() { now, er = st.Get(lid(op.ID)) })
			if er != nil {
				e.fail("ioerr", "after a failed update in place Get(%x) fails: %v", op.ID, er)
			}
			if len(now) != len(v.Data) {
				e.fail("ioerr", "after a failed update in place the lump %x has %d bytes instead of %d", op.ID, len(now), len(v.Data))
			}
			for b := 0; b < len(now); b += blk {
				x := b + blk
				if x > len(now) {
					x = len(now)
				}
				if !bytes.Equal(now[b:x], v.Data[b:x]) && !bytes.Equal(now[b:x], data[b:x]) {
					e.fail("ioerr", "after a failed update in place the lump %x holds bytes it never had at %d", op.ID, b)
				}
			}
			e.m.inplace(op.ID, v, now, false)
			return
		}
		e.failed(op, err, io, nil)
		return
	}
	if io {
		e.fail("ioerr", "PutWithOffset returned success although the device reported an error to it")
	}
	if !inb {
		if v.Embed {
			e.fail("range", "PutWithOffset on an embedded lump returned success")
		}
		e.fail("range", "PutWithOffset(%x, off %d, len %d) beyond a lump of %d bytes returned success", op.ID, op.Off, op.Len, len(v.Data))
	}
	if len(payload) > 0 {
		e.m.inplace(op.ID, v, data, false)
		e.probe("update-in-place")
		if op.D%2 == 0 {
			e.quiet(func() {
				now, er := st.Get(lid(op.ID))
				if er != nil {
					e.fail("range", "after an update in place Get(%x) fails: %v", op.ID, er)
				}
				if !bytes.Equal(now, data) {
					e.fail("range", "after PutWithOffset(%x, off %d, len %d) the lump (%d bytes) is wrong: %s", op.ID, op.Off, op.Len, len(data), diff(now, Cell{&Val{Data: data}}))
				}
			})
		}
	}
}

func (e *seq) stepEnum(op Op) {
	st := e.st
	cur := e.m.cur()
	if cur.ambiguous() {
		return
	}
	ids := cur.ids()
	switch op.K {
	case "list":
		var l []lump.LumpId
		e.call(func() { l = st.List() })
		e.sameIDs("List", l, ids)
	case "lrange":
		var l []lump.LumpId
		e.call(func() { l = st.ListRange(lid(op.ID), lid(op.End), op.N) })
		var want []uint64
		for _, id := range ids {
			if id >= op.ID && id < op.End && uint64(len(want)) < op.N {
				want = append(want, id)
			}
		}
		e.sameIDs(fmt.Sprintf("ListRange(%x,%x,%d)", op.ID, op.End, op.N), l, want)
	case "min", "max":
		var id lump.LumpId
		var ok bool
		e.call(func() {
			if op.K == "min" {
				id, ok = st.MinId()
			} else {
				id, ok = st.MaxId()
			}
		})
		if ok != (len(ids) > 0) {
			e.fail("enum", "%s id: found=%v with %d lumps", op.K, ok, len(ids))
		}
		if ok {
			w := ids[0]
			if op.K == "max" {
				w = ids[len(ids)-1]
			}
			if id.U64() != w {
				e.fail("enum", "%s id is %x, expected %x", op.K, id.U64(), w)
			}
		}
	case "first":
		var id lump.LumpId
		var err error
		e.call(func() { id, err = st.First(lid(op.ID)) })
		i := sort.Search(len(ids), func(i int) bool { return ids[i] >= op.ID })
		if i == len(ids) {
			if err == nil {
				e.fail("enum", "First(%x) = %x, expected none", op.ID, id.U64())
			}
		} else if err != nil || id.U64() != ids[i] {
			e.fail("enum", "First(%x) = %x, %v; expected %x", op.ID, id.U64(), err, ids[i])
		}
	case "gen":
		var id lump.LumpId
		var ok bool
		e.call(func() { id, ok = st.GenerateEmptyId() })
		if !ok {
			e.fail("enum", "GenerateEmptyId found nothing with %d lumps", len(ids))
		}
		if _, have := cur.m[id.U64()]; have {
			e.fail("enum", "GenerateEmptyId returned %x, which is a live lump", id.U64())
		}
	case "count":
		u := st.Usage()
		if u.FileCounts != uint64(len(ids)) {
			e.fail("enum", "usage reports %d lumps, there are %d", u.FileCounts, len(ids))
		}
	}
}

func (e *seq) sameIDs(what string, l []lump.LumpId, want []uint64) {
	if len(l) != len(want) {
		e.fail("enum", "%s returned %d ids, expected %d (%s)", what, len(l), len(want), idDiff(l, want))
	}
	for i := range l {
		if l[i].U64() != want[i] {
			e.fail("enum", "%s: id %d is %x, expected %x", what, i, l[i].U64(), want[i])
		}
	}
}

func idDiff(l []lump.LumpId, want []uint64) string {
	a, b := map[uint64]bool{}, map[uint64]bool{}
	for _, x := range l {
		a[x.U64()] = true
	}
	var out []string
	for _, x := range want {
		b[x] = true
		if !a[x] {
			out = append(out, fmt.Sprintf("%x missing", x))
		}
	}
	for _, x := range l {
		if !b[x.U64()] {
			out = append(out, fmt.Sprintf("%x unexpected", x.U64()))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, ", ")
}

// audit compares everything observable with the model.
func (e *seq) audit(ctx string, depth int) {
	st := e.st
	if st == nil {
		return
	}
	cl := func(c string) string {
		if ctx != "" {
			return ctx
		}
		return c
	}
	cur := e.m.cur()
	amb := cur.ambiguous()
	var l []lump.LumpId
	e.callOK(func() { l = st.List() })
	have := map[uint64]bool{}
	for i, x := range l {
		have[x.U64()] = true
		if i > 0 && l[i-1].U64() >= x.U64() {
			e.fail(cl("enum"), "List is not in ascending order")
		}
		if len(cur.get(x.U64())) == 0 {
			e.fail(cl("enum"), "lump %x exists but should not", x.U64())
		}
	}
	ids := cur.ids()
	for _, id := range ids {
		c := cur.get(id)
		if !have[id] {
			if !c.absentOK() {
				e.fail(cl("enum"), "lump %x (%v) is missing", id, c[0])
			}
			continue
		}
		var data []byte
		var err error
		var n, sd uint32
		e.callOK(func() { data, err = st.Get(lid(id)) })
		if ctx != "" {
			ok := err == nil && c.has(func(v *Val) bool { return v != nil && (v.Loose || bytes.Equal(v.Data, data)) }) ||
				err != nil && (e.snapSick() || c.has(func(v *Val) bool { return v != nil && v.Loose }))
			if !ok {
				e.fail(ctx, "lump %x: expected %v, read %d bytes, error %v (%s)", id, c[0], len(data), err, diff(data, c))
			}
		} else {
			e.checkRead("Get", id, data, err, false)
		}
		v := c.one()
		if v == nil || v.Loose {
			continue
		}
		e.callOK(func() { n, err = st.GetSize(lid(id)) })
		if err != nil && e.snapSick() {
			continue
		}
		if err != nil || int(n) != len(v.Data) {
			e.fail(cl("read"), "GetSize(%x) = %d, %v; expected %d", id, n, err, len(v.Data))
		}
		e.callOK(func() { sd, err = st.GetSizeOnDisk(lid(id)) })
		want := v.Blocks * blk
		if v.Embed {
			want = len(v.Data)
		}
		if (err == nil || !e.snapSick()) && (err != nil || int(sd) != want) {
			e.fail(cl("read"), "GetSizeOnDisk(%x) = %d, %v; expected %d", id, sd, err, want)
		}
		if depth > 0 && len(v.Data) > 0 {
			r := rt.NewRNG(e.tr.Seed^uint64(e.op), fmt.Sprint("aud", id))
			for k := 0; k < 2; k++ {
				off := r.Intn(len(v.Data))
				ln := r.Intn(len(v.Data) - off + 1)
				var err error
				e.callOK(func() { data, err = st.GetWithOffset(lid(id), uint32(off), uint32(ln)) })
				e.checkRange(id, uint32(off), uint32(ln), data, err, false)
			}
		}
	}
	if amb {
		return
	}
	u := st.Usage()
	if u.FileCounts != uint64(len(ids)) {
		e.fail(cl("enum"), "usage reports %d lumps, there are %d", u.FileCounts, len(ids))
	}
	if u.DataCapacity != e.capD || u.JournalCapacity != e.capJ {
		e.fail(cl("space"), "capacities changed: %d/%d, were %d/%d", u.DataCapacity, u.JournalCapacity, e.capD, e.capJ)
	}
	used := uint64(cur.dataBlocks()) * blk
	if u.DataFreeBytes+used != e.capD/blk*blk {
		e.fail(cl("space"), "free %d + used by live lumps %d is not the capacity %d", u.DataFreeBytes, used, e.capD)
	}
	e.overlaps(cl("space"))
	if n := e.capD / blk; n >= 8192 && n < 400000 && e.synced() {
		e.allocMap(cl("space"))
	}
	if e.synced() {
		run, ok := e.maxFreeRun()
		if ok {
			want := uint64(run)*blk - 2
			if run == 0 {
				want = 0
			}
			if want > lumpMax {
				want = lumpMax
			}
			if u.MaxSegmentSize != want {
				e.fail(cl("space"), "largest storable lump reported as %d, the longest free run is %d blocks", u.MaxSegmentSize, run)
			}
		}
	}
	e.res.States = append(e.res.States, e.stateHash())
}

// allocMap: every whole 4 MB of the region with the fraction in use.
func (e *seq) allocMap(class string) {
	ps, ok := e.portions()
	if !ok {
		return
	}
	used := make([]float64, e.capD/blk/8192)
	for _, p := range ps {
		for b := p[0]; b < p[0]+p[1] && b/8192 < uint64(len(used)); b++ {
			used[b/8192]++
		}
	}
	var got []float64
	e.callOK(func() { got = e.st.GetAllocationStatus() })
	if len(got) != len(used) {
		e.fail(class, "GetAllocationStatus has %d points, the region has %d times 4 MB", len(got), len(used))
	}
	for i := range used {
		if got[i] != used[i]/8192 {
			e.fail(class, "GetAllocationStatus: point %d is %v, live lumps use %v of 8192 blocks there", i, got[i], used[i])
		}
	}
	e.probe("allocation-map")
}

// synced: nothing happened since the last completed sync
func (e *seq) synced() bool { return e.m.synced == len(e.m.states)-1 && !e.ioSeen }

func (e *seq) stateHash() uint64 {
	h := uint64(len(e.m.cur().m))
	for _, id := range e.m.cur().ids() {
		for _, v := range e.m.cur().get(id) {
			if v != nil {
				x := uint64(len(v.Data))
				if v.Embed {
					x |= 1 << 40
				}
				h = rt.Mix(h ^ rt.Mix(id) ^ x)
			}
		}
	}
	u := e.st.Usage()
	return rt.Mix(h ^ u.JournalUsageBytes<<20 ^ u.MaxSegmentSize)
}

func (e *seq) overlaps(class string) {
	ps, ok := e.portions()
	if !ok {
		return
	}
	for i, p := range ps {
		if p[0]+p[1] > e.capD/blk {
			e.fail(class, "a live lump lies outside the data region (%d+%d of %d blocks)", p[0], p[1], e.capD/blk)
		}
		if i > 0 && ps[i-1][0]+ps[i-1][1] > p[0] {
			e.fail(class, "two live lumps share blocks (%d+%d and %d+%d)", ps[i-1][0], ps[i-1][1], p[0], p[1])
		}
	}
}

// callOK is call for audits: the process must not die.
func (e *seq) callOK(f func()) {
	if died, _ := e.call(f); died {
		e.fail("panic", "process died during an audit: %s", e.proc.PanicV)
	}
}

// deleteAll deletes every lump, syncs, and expects one free region again.
func (e *seq) deleteAll() {
	if e.m.cur().ambiguous() {
		return
	}
	for _, id := range e.m.cur().ids() {
		e.step(Op{K: "del", ID: id, D: 3})
	}
	if len(e.m.cur().m) != 0 {
		return
	}
	e.step(Op{K: "sync"})
	if !e.synced() || len(e.m.cur().m) != 0 {
		return
	}
	u := e.st.Usage()
	want := e.capD/blk*blk - 2
	if want > lumpMax {
		want = lumpMax
	}
	if u.DataFreeBytes != e.capD/blk*blk || u.MaxSegmentSize != want {
		e.fail("space", "after deleting everything %d bytes are free and the largest storable lump is %d; capacity %d", u.DataFreeBytes, u.MaxSegmentSize, e.capD)
	}
	e.probe("delete-all")
}

// reopen closes cleanly and opens again.
func (e *seq) reopen(op Op) {
	st := e.st
	var before storage.StorageUsage
	if op.N > 0 {
		// figures are compared from a synced state
		died, io := e.call(func() { st.Sync() })
		if died {
			e.recover(nil)
			return
		}
		if !io {
			e.m.didSync()
			before = st.Usage()
		}
	}
	died, io := e.call(func() { st.Close() })
	if died {
		e.recover(nil)
		return
	}
	if io && !strings.HasSuffix(e.sim.Disk.LastIO, snapSuffix) {
		e.fail("ioerr", "Close returned normally although the device reported an error to it")
	}
	e.m.didSync()
	e.st = nil
	if n := e.sim.Host0.FS.Handles(e.proc); n != 0 {
		e.fail("handles", "%d file handles are still open after Close", n)
	}
	if e.sim.Host0.FS.LockedBy(e.path) != nil {
		e.fail("handles", "the file is still locked after Close")
	}
	if op.N == 2 {
		e.newProc()
	}
	reps := 1
	if op.N > 0 && op.D%4 == 0 {
		reps = 2
	}
	for k := 0; k < reps; k++ {
		var err error
		died, io = e.call(func() { e.st, err = storage.OpenCannylsStorage(e.path) })
		if died {
			e.recover(nil)
			return
		}
		if err != nil {
			if io {
				e.proc.Dead = true
				e.recover(nil)
				return
			}
			e.fail("open", "reopening after a clean close failed: %v", err)
		}
		if e.noGC {
			e.setGC(false)
		}
		if k+1 < reps {
			st := e.st
			died, _ = e.call(func() { st.Close() })
			if died {
				e.recover(nil)
				return
			}
			e.st = nil
		}
	}
	e.probe("reopen")
	e.quiet(func() {
		e.snapOpened("reopen")
		e.audit("reopen", 0)
		if op.N > 0 && !e.ioSeen {
			u := e.st.Usage()
			u.JournalUsageBytes, before.JournalUsageBytes = 0, 0
			if u != before {
				e.fail("reopen", "usage figures changed across close and reopen: %+v, were %+v", u, before)
			}
		}
	})
}

// recover restarts after the process died and matches what is found.
func (e *seq) recover(inflight []*State) {
	power := e.proc.Why == "power"
	old, oldp := e.st, e.proc
	e.st = nil
	if old != nil {
		e.sim.Zombie(e.t, oldp, func() { old.Close() })
	}
	e.sim.Panics = nil
	if e.torn != nil {
		e.torn.put(e.sim.Host0.FS.Files[e.path], false)
	}
	if power {
		e.probe("recover-power")
	} else {
		e.probe("recover-crash")
	}
	for try := 0; ; try++ {
		e.newProc()
		e.sim.Disk.BeginOp(e.op)
		var err error
		var st *storage.Storage
		died, io := e.call(func() { st, err = storage.OpenCannylsStorage(e.path) })
		if died {
			if e.proc.Why == "power" {
				power = true
			}
			if try > 60 {
				e.fail("open", "the storage could not be opened in %d attempts", try)
			}
			e.probe("crash-in-open")
			continue
		}
		if err != nil {
			if io && try < 60 {
				e.proc.Dead = true
				e.sim.Host0.FS.DropDead()
				continue
			}
			if e.torn != nil {
				// refusing is right; with the write completed it has to open
				e.probe("torn-refused")
				e.released("corrupt", fmt.Sprintf("an open that failed (%v) after a torn journal write", err))
				e.torn.put(e.sim.Host0.FS.Files[e.path], true)
				e.torn = nil
				continue
			}
			if e.tornRing {
				e.fail("open", "torn journal write, then the process died: the storage does not open: %v", err)
			}
			e.fail("open", "the storage does not open after a %s: %v", e.kind(power), err)
		}
		e.st = st
		break
	}
	e.failedIO = false
	e.tornRing = false
	e.note(e.kind(power))
	e.quiet(func() {
		got := e.readBack()
		s, k, msg := e.m.match(got, power, inflight)
		if msg != "" && e.torn != nil {
			ring, head := e.ring(e.sim.Host0.FS.Files[e.path].Cur)
			if _, why := parseRing(ring, head); why == "" {
				e.fail("corrupt", "old records behind a torn journal write count as new: %s", msg)
			}
			e.fail("corrupt", "after a torn journal write: %s", msg)
		}
		e.torn = nil
		if msg != "" {
			e.fail(e.kind(power), "%s", msg)
		}
		if k >= len(e.m.states) {
			e.probe("inflight-survived")
		} else if k < len(e.m.states)-1 {
			e.probe("suffix-lost")
		}
		e.m.adopt(s, k, got, power)
		cur := e.m.cur()
		if !cur.ambiguous() {
			u := e.st.Usage()
			used := uint64(cur.dataBlocks()) * blk
			if u.DataFreeBytes+used != e.capD/blk*blk {
				e.fail("space", "after a %s: free %d + used by live lumps %d is not the capacity %d", e.kind(power), u.DataFreeBytes, used, e.capD)
			}
			if u.FileCounts != uint64(len(cur.m)) {
				e.fail("enum", "after a %s usage reports %d lumps, there are %d", e.kind(power), u.FileCounts, len(cur.m))
			}
			e.overlaps("space")
		}
		e.snapOpened(e.kind(power))
		if e.noGC {
			e.setGC(false)
		}
		e.res.States = append(e.res.States, e.stateHash())
	})
}

func (e *seq) kind(power bool) string {
	if power {
		return "power"
	}
	return "crash"
}

func (e *seq) readBack() map[uint64]*Got {
	st := e.st
	got := map[uint64]*Got{}
	var l []lump.LumpId
	e.callOK(func() { l = st.List() })
	for i, x := range l {
		if i > 0 && l[i-1].U64() >= x.U64() {
			e.fail("enum", "List is not in ascending order after recovery")
		}
		g := &Got{}
		e.callOK(func() {
			g.Data, g.Err = st.Get(x)
			p, err := st.GetRecord(x)
			if err != nil {
				g.Embed = true
			} else {
				g.Blocks = int(p.Len)
			}
			g.Size, _ = st.GetSize(x)
		})
		g.Data = append([]byte(nil), g.Data...)
		got[x.U64()] = g
	}
	return got
}
