package harness

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	kanilssim "github.com/thesues/cannyls-go/cmd/kanils_sim"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"github.com/urfave/cli"

	"verif.local/sim/rt"
)

// The engine for the command line tool: every operation is one process that
// runs main() of cmd/kanils to its end, or to the point where it is killed,
// loses power or meets a device error. Two commands may run at the same time.

type kval struct {
	s   string
	emb bool
}

func (v kval) blocks() uint64 {
	if v.emb {
		return 0
	}
	return (uint64(len(v.s)) + 2 + blk - 1) / blk
}

// kstate is what the storage file holds.
type kstate struct {
	exists bool
	size   uint64 // of the data region; 0: not looked at yet
	kv     map[uint64]kval
}

func (s kstate) clone() kstate {
	m := map[uint64]kval{}
	for k, v := range s.kv {
		m[k] = v
	}
	s.kv = m
	return s
}

func (s kstate) ids() []uint64 {
	var l []uint64
	for k := range s.kv {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (s kstate) key() string {
	if !s.exists {
		return "-"
	}
	b := fmt.Sprint(s.size)
	for _, id := range s.ids() {
		b += fmt.Sprintf(";%d=%v/%d/%x", id, s.kv[id].emb, len(s.kv[id].s), rt.HashStr(s.kv[id].s))
	}
	return b
}

// kcmd is one command that ran.
type kcmd struct {
	n     int
	op    Op
	p     *rt.Proc
	val   kval
	out   string
	ok    bool // it says that it did what it was told
	lost  bool // a create that failed next to another command
	opt   bool // it was cut off or met a device error: it may have happened
	must  bool // a failure needs a reason
	bound uint64
}

type tool struct {
	seq
	states  []kstate
	pend    map[uint64]bool // put by a command that was killed, not looked at since
	loose   map[uint64]bool // unsynced data of these may be lost
	bad     *Violation
	noise   string   // what a command that prints nothing prints
	suffix  string   // what follows a value
	absent  string   // what Get prints when there is no lump
	prefix  []string // what is printed when there is a snapshot
	nfile   int
	usage   storage.StorageUsage
	large   uint64 // the longest inline value ever
	partial bool   // a create was cut off
	faults  []*rt.Fault
}

func init() { engines["cli"] = runCLI }

func runCLI(tr *Trace) *Result {
	res := newResult()
	sim := newSim(tr)
	e := &tool{loose: map[uint64]bool{}, pend: map[uint64]bool{}}
	e.seq = seq{tr: tr, sim: sim, m: newModel(), res: res, path: "/sim/a.lusf"}
	nvm.DEFAULT_REGION_SHIFT = 20
	cli.OsExiter = rt.Exit
	sim.Disk.Policy = func(f *rt.Fault, pend []*rt.WriteOp) []bool {
		// until the ring is known everything is written in order
		return lossPolicy(f, pend, func(w *rt.WriteOp) bool {
			return e.ringHi == 0 || w.Ino.Path != e.path || w.Off >= e.ringLo && w.Off < e.ringHi
		})
	}
	sim.Disk.Whole = func(i *rt.Inode, off int64) bool {
		return e.ringHi == 0 || i.Path != e.path || off < e.ringHi
	}
	sim.Host0.FS.Free = 1 << 30
	sim.Host0.FS.Track = true
	done := false
	e.t = sim.Spawn("main", nil, true, func() {
		defer func() {
			done = true
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					res.V = s.v
				} else {
					panic(r)
				}
			}
			rt.SetPreempt(false)
		}()
		e.run()
	})
	sim.Loop(func() bool { return done })
	rt.SetPreempt(false)
	if res.V == nil && sim.Deadlock != "" {
		res.V = &Violation{Class: "hang", Msg: cut("no progress: " + sim.Deadlock)}
	}
	finish(res, sim, e.h)
	return res
}

// cmd runs one command in the calling task.
func (e *tool) cmd(t *rt.Task, p *rt.Proc, args []string) (out string, o rt.Outcome) {
	p.Args = append([]string{"kanils"}, args...)
	o = e.sim.Exec(t, p, kanilssim.SimMain)
	e.sim.Progress()
	if !p.Dead {
		p.Exited = true
		e.sim.Kill(p, "exit")
	}
	if p.Why == "exit" {
		e.sim.Host0.FS.DropDead()
	}
	return p.Out.String(), o
}

func (e *tool) fork() *rt.Proc {
	e.nprocs++
	return e.sim.NewProc(fmt.Sprintf("k%d", e.nprocs))
}

func (e *tool) clean(args ...string) string {
	p := e.fork()
	out, o := e.cmd(e.t, p, args)
	if o.Panic != "" || o.Budget || p.Why != "exit" {
		e.fail("panic", "kanils %s: %s", strings.Join(args, " "), o.Panic)
	}
	return out
}

// calibrate learns what else is on the standard output.
func (e *tool) calibrate() {
	kanilssim.SimReset()
	e.clean("Create", "--storage", "/sim/cal.lusf", "--capacity", "200000")
	e.noise = e.clean("Put", "--storage", "/sim/cal.lusf", "--key", "1", "--value", "reference")
	out := e.clean("Get", "--storage", "/sim/cal.lusf", "--key", "1")
	i := strings.Index(out, "reference")
	if i < 0 {
		e.fail("cli", "Put --key 1 --value reference prints %s, and Get --key 1 then prints %s", show(e.noise), show(out))
	}
	e.suffix = out[i+len("reference"):]
	e.absent = e.clean("Get", "--storage", "/sim/cal.lusf", "--key", "2")
	delete(e.sim.Host0.FS.Files, "/sim/cal.lusf")
}

func (e *tool) run() {
	e.sim.Disk.List = nil
	e.calibrate()
	e.states = []kstate{{}}
	e.faults = e.tr.Faults
	rounds := 0
	for _, op := range e.tr.Ops {
		rounds = max(rounds, op.R+1)
	}
	for r := 0; r < rounds; r++ {
		e.round(r)
	}
	e.look()
	for _, s := range e.states[:1] {
		for _, id := range s.ids() {
			e.single(Op{K: "kget", ID: id})
		}
		if s.exists {
			e.single(Op{K: "kdump"})
			e.single(Op{K: "khead", N: 1})
			e.look()
		}
	}
	e.res.Ops = len(e.tr.Ops)
}

func (e *tool) single(op Op) {
	c := &kcmd{n: -1, op: op}
	e.exec(e.t, c)
	e.settle([]*kcmd{c}, false)
}

func (e *tool) round(r int) {
	var l []*kcmd
	for i, op := range e.tr.Ops {
		if op.R == r {
			l = append(l, &kcmd{n: i, op: op})
		}
	}
	if len(l) == 0 {
		return
	}
	e.res.Ops++
	if l[0].op.K == "kpower" {
		e.trace("power loss")
		fs := e.sim.Host0.FS
		e.sim.Disk.CrashNow(&rt.Fault{Kind: "power", Arg: l[0].op.D})
		fs.DropDead()
		e.probe("cli-power-between")
		e.lose()
		if len(e.states) > 1 {
			e.probe("cli-kill-then-power")
		}
		e.look()
		return
	}
	if l[0].op.K == "ksnap" {
		e.snapshot(l[0].op)
		return
	}
	e.sim.Disk.List = e.faults
	e.sim.Disk.BeginOp(r)
	kanilssim.SimReset()
	io0 := e.sim.Disk.FiredIO
	if len(l) == 1 {
		rt.SetPreempt(e.tr.Conf.Preempt > 0)
		e.exec(e.t, l[0])
	} else {
		left := len(l)
		all := make(chan struct{})
		rt.SetPreempt(true)
		for _, c := range l {
			c := c
			var t *rt.Task
			t = e.sim.Spawn(fmt.Sprintf("c%d", c.n), nil, true, func() {
				defer func() {
					if left--; left == 0 {
						close(all)
					}
				}()
				e.exec(t, c)
			})
		}
		<-all
		rt.P()
		e.probe("cli-two")
	}
	rt.SetPreempt(false)
	e.sim.Progress()
	e.sim.Disk.List = nil
	e.settle(l, e.sim.Disk.FiredIO != io0)
}

const big = lump.LUMP_MAX_SIZE

func (e *tool) text(op Op) string {
	b := pattern(e.tr.Seed^op.D*0x9e37+op.D, op.Len)
	const set = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ:=-@%0123456789\n\t\"'$\\"
	for i := range b {
		b[i] = set[int(b[i])%len(set)]
	}
	if len(b) > 0 && b[0] == '@' {
		b[0] = 'a'
	}
	return string(b)
}

// args makes the command line.
func (e *tool) args(c *kcmd) []string {
	op := c.op
	path := e.path
	if op.Off == 1 {
		path = "a.lusf"
	} else if op.Off == 2 {
		path = "./a.lusf"
	}
	if op.Off == 3 { // no such storage
		path = []string{"/sim/none.lusf", "", "/sim/dir/none.lusf", "/sim/none.txt"}[op.D%4]
	}
	st := []string{"--storage", path}
	key := []string{"--key", strconv.FormatUint(op.ID, 10)}
	if op.Off == 4 {
		key[1] = []string{"abc", "-1", "18446744073709551616", "1.5", ""}[op.D%5]
	}
	switch op.K {
	case "kcreate":
		n := strconv.Itoa(op.Len)
		switch op.N {
		case 1:
			n = "0"
		case 2:
			n = "18446744073709551615"
		case 3:
			n = strconv.FormatUint(1<<50+op.D%(1<<40), 10)
		case 4:
			n = strconv.FormatUint(op.D%2048, 10)
		}
		return append(append([]string{"Create"}, st...), "--capacity", n)
	case "kput":
		a := append(append([]string{"Put"}, st...), key...)
		v := ""
		if op.N == 0 {
			c.val = kval{e.text(op), true}
			e.large = max(e.large, uint64(len(c.val.s)))
			v = c.val.s
		} else {
			e.nfile++
			f := fmt.Sprintf("/sim/src%d", e.nfile)
			n := op.Len
			switch op.N {
			case 3:
				n = 0
			case 4:
				n = big + 1 + int(op.D%600)
			}
			c.val = kval{string(pattern(e.tr.Seed^op.D*0x9e37+op.D, n)), false}
			if op.N != 2 {
				i := e.sim.Host0.FS.PutFile(f, []byte(c.val.s))
				i.MaxRead = int(op.Res)
			}
			v = "@" + f
		}
		return append(a, "--value", v)
	case "kget":
		return append(append([]string{"Get"}, st...), key...)
	case "kdel":
		return append(append([]string{"Delete"}, st...), key...)
	case "kdump":
		return append([]string{"Dump"}, st...)
	case "kjournal":
		return append([]string{"Journal"}, st...)
	case "kgc":
		return append([]string{"JournalGC"}, st...)
	case "khead":
		a := append([]string{"Header"}, st...)
		if op.N == 1 {
			a = append(a, "--replay")
		}
		return a
	case "kresize":
		c.bound = e.resizeTo(op)
		n := strconv.FormatUint(c.bound, 10)
		if op.N == 2 {
			n, c.bound = []string{"abc", "-1", "", "10MB"}[op.D%4], 0
		}
		return append(append([]string{"Resize"}, st...), "--size", n)
	case "kbench":
		a := []string{"WBench", "--storage", "/sim/b.lusf", "--count", strconv.Itoa(int(op.Res)), "--size", strconv.Itoa(op.Len)}
		if op.N&1 == 1 {
			a[0] = "WRBench"
		}
		if op.N&2 == 2 {
			a = append(a, "--always=false")
		}
		if op.N&4 == 4 {
			a = append(a, "--sync=false")
		}
		return a
	}
	panic(op.K)
}

func (e *tool) resizeTo(op Op) uint64 {
	cur := e.states[0].size
	switch op.N {
	case 1: // not larger
		if cur == 0 {
			return 0
		}
		return op.D % (cur + 512)
	case 3: // more than there can be
		if op.D%2 == 0 {
			return nvm.MAX_DATA_REGION_SIZE + op.D%2000
		}
		return nvm.MAX_DATA_REGION_SIZE + rt.Mix(op.D)%(math.MaxUint64-nvm.MAX_DATA_REGION_SIZE)
	case 4:
		return cur + op.D%2000
	}
	return cur + uint64(op.Len)
}

func (e *tool) exec(t *rt.Task, c *kcmd) {
	if c.op.K == "kbench" {
		delete(e.sim.Host0.FS.Files, "/sim/b.lusf")
	}
	a := e.args(c)
	c.p = e.fork()
	e.trace("%d kanils %s", c.n, cut(strings.Join(a, " ")))
	out, o := e.cmd(t, c.p, a)
	for _, p := range e.prefix {
		if p != "" && strings.Contains(out, p) {
			out = strings.Replace(out, p, "", 1)
			break
		}
	}
	c.out = out
	e.trace("%d -> %s %s", c.n, c.p.Why, show(out))
	e.h = rt.Mix(e.h ^ rt.HashStr(c.p.Why+out))
	for f := range e.sim.Host0.FS.Files {
		if strings.HasPrefix(f, "/sim/src") {
			delete(e.sim.Host0.FS.Files, f)
		}
	}
	if o.Budget && e.bad == nil {
		e.bad = &Violation{Class: "hang", Op: e.op, Msg: cut(fmt.Sprintf("kanils %s does not end", strings.Join(a, " ")))}
	}
}

// says: does the output report success?
func (e *tool) says(c *kcmd) bool {
	switch c.op.K {
	case "kput":
		return c.out == e.noise
	case "kdel":
		return strings.Contains(c.out, "deleted")
	case "kget":
		return strings.HasPrefix(c.out, "value: ")
	case "kresize":
		return strings.HasPrefix(c.out, "setting new size") && strings.Count(strings.TrimRight(c.out, "\n"), "\n") == 0
	case "kcreate":
		return strings.Count(strings.TrimRight(c.out, "\n"), "\n") <= 1 && strings.HasSuffix(c.out, e.noise)
	case "khead":
		return strings.Contains(c.out, "UUID")
	case "kgc":
		return strings.Contains(c.out, "completed")
	case "kjournal":
		return strings.Contains(c.out, "tail")
	case "kbench":
		return strings.Contains(c.out, "total =")
	case "kdump":
		for _, s := range e.states {
			if _, ok := e.apply(c, s); ok {
				return true
			}
		}
		return false
	}
	return true
}

// apply does what the command should do; ok is false when the command could
// not have reported success (or this result) in this state.
func (e *tool) apply(c *kcmd, s kstate) (kstate, bool) {
	op := c.op
	if op.Off >= 3 && op.K != "kbench" {
		return s, op.K == "kcreate" && op.Off == 3
	}
	if op.K != "kcreate" && op.K != "kbench" && !s.exists {
		return s, false
	}
	switch op.K {
	case "kcreate":
		if s.exists || op.N >= 1 && op.N <= 3 {
			return s, false
		}
		return kstate{exists: true, kv: map[uint64]kval{}}, true
	case "kput":
		if op.N == 2 || op.N == 4 || op.N == 0 && len(c.val.s) > lump.MAX_EMBEDDED_SIZE {
			return s, false
		}
		s = s.clone()
		s.kv[op.ID] = c.val
		return s, true
	case "kdel":
		s = s.clone()
		delete(s.kv, op.ID)
		return s, true
	case "kget":
		v, ok := s.kv[op.ID]
		if c.opt {
			return s, ok
		}
		return s, ok && c.out == "value: "+v.s+e.suffix || e.loose[op.ID]
	case "kdump":
		if c.opt {
			return s, true
		}
		want := ""
		for _, id := range s.ids() {
			if e.loose[id] {
				return s, true
			}
			want += lid(id).String() + " :" + s.kv[id].s + "\n"
		}
		if len(e.loose) > 0 {
			return s, true
		}
		return s, c.out == want+strings.TrimPrefix(e.suffix, "\n")
	case "khead":
		if s.size != 0 && !c.opt && !strings.Contains(c.out, fmt.Sprintf(" %d,", s.size)) {
			return s, false
		}
		if op.N == 1 && !c.opt && len(e.loose) == 0 && !strings.Contains(c.out, fmt.Sprintf("file counts %d\n", len(s.kv))) {
			return s, false
		}
		return s, true
	case "kresize":
		n := c.bound / blk * blk
		if n <= s.size && s.size != 0 || n > nvm.MAX_DATA_REGION_SIZE {
			return s, false
		}
		s.size = n
		return s, true
	}
	return s, true
}

// settle finds the states that explain what the commands reported.
func (e *tool) settle(l []*kcmd, io bool) {
	fs := e.sim.Host0.FS
	if e.bad != nil {
		panic(stop{e.bad})
	}
	died, power := false, false
	for _, c := range l {
		switch c.p.Why {
		case "crash", "kill":
			c.opt, died = true, true
			e.probe("cli-" + c.p.Why)
		case "power":
			c.opt, died, power = true, true, true
			e.probe("cli-power")
		case "panic":
			if !io {
				e.fail("panic", "%s", c.p.PanicV)
			}
			c.opt, died = true, true
			e.probe("fail-stop")
		default:
			if c.ok = e.says(c); !c.ok && io {
				c.opt = true
			}
			if !c.ok && !io && c.op.K == "kcreate" && len(l) > 1 {
				// it makes the storage, then opens it; the other command may
				// have it open at that moment
				c.opt, c.lost = true, true
			}
		}
	}
	e.sim.Panics = nil
	if died {
		fs.DropDead()
	}
	if power || io {
		for _, c := range l {
			if c.opt && c.op.K == "kput" && c.op.Off < 3 {
				e.loose[c.op.ID] = true
			}
		}
	}
	if died && !power {
		// it may lose power before it is written back
		for _, c := range l {
			if c.opt && c.op.K == "kput" && c.op.Off < 3 {
				e.pend[c.op.ID] = true
			}
		}
	}
	if power {
		e.lose()
	}
	next := map[string]kstate{}
	var rec func(s kstate, left []*kcmd)
	rec = func(s kstate, left []*kcmd) {
		rest := false
		for _, c := range left {
			rest = rest || c.ok
		}
		if !rest {
			next[s.key()] = s
		}
		for i, c := range left {
			s2, ok := e.apply(c, s)
			if !ok {
				continue
			}
			rest := append(append([]*kcmd{}, left[:i]...), left[i+1:]...)
			rec(s2, rest)
			if s3, ok := e.between(c, s); ok {
				rec(s3, rest)
			}
		}
	}
	var run []*kcmd
	for _, c := range l {
		if c.ok || c.opt {
			run = append(run, c)
		}
	}
	for _, c := range l {
		e.partial = e.partial || c.opt && !c.lost && c.op.K == "kcreate"
	}
	for _, s := range e.states {
		rec(s, run)
	}
	if len(next) == 0 {
		m := ""
		for _, c := range l {
			m += fmt.Sprintf("; %s prints %s", e.name(c), showOut(c.out))
		}
		e.fail("cli", "the commands cannot have had these results%s; before them %s", m, e.describe())
	}
	var keys []string
	for k := range next {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	before := e.states
	e.states = nil
	for _, k := range keys {
		e.states = append(e.states, next[k])
	}
	look := io || rt.Mix(e.tr.Seed^uint64(e.nprocs))%3 == 0 || len(e.states) > 8
	if died {
		look = rt.Mix(e.tr.Seed^uint64(e.nprocs))%2 == 0
	}
	loose := len(e.loose) > 0
	var failed *kcmd
	if len(l) == 1 && !l[0].ok && !l[0].opt {
		failed = l[0]
		look = true
		if strings.TrimSpace(failed.out) == strings.TrimSpace(e.noise) {
			e.fail("cli", "%s does not report its error; before it %s", e.name(failed), e.describe())
		}
	}
	for _, c := range l {
		if c.op.K == "kbench" {
			e.bench(c, io)
		}
		look = look || c.op.K == "kcreate"

		if c.op.Off == 3 && c.op.K != "kbench" {
			for f := range fs.Files {
				if strings.Contains(f, "none") {
					if c.op.K != "kcreate" && len(l) == 1 {
						e.fail("cli", "%s made %s", e.name(c), f)
					}
					delete(fs.Files, f)
				}
			}
		}
	}
	if look {
		e.look()
	}
	if failed != nil {
		if failed.op.K == "kdump" && (loose || len(before) > 1) {
			return
		}
		e.reason(failed, e.states[0])
	}
}

// snapshot: a process that uses the library creates a snapshot between two
// commands, or reads the one there is and deletes it.
func (e *tool) snapshot(op Op) {
	s := e.states[0]
	if len(e.states) > 1 || len(e.loose) > 0 || len(e.pend) > 0 || !s.exists || s.size == 0 {
		return
	}
	have := len(e.snapFiles()) > 0
	if want := e.snap.st == 1; have != want {
		e.fail("cli", "there is a snapshot: %v; there should be one: %v", have, want)
	}
	e.newProc()
	var err error
	e.callOK(func() { e.st, err = storage.OpenCannylsStorage(e.path) })
	if err != nil {
		e.fail("open", "the storage does not open: %v; it should hold %s", err, e.describe())
	}
	if have {
		rd, err := e.st.GetSnapshotReader()
		if err != nil {
			e.fail("cli", "the snapshot cannot be read: %v", err)
		}
		e.snapRead(rd, op.D)
		e.callOK(func() { err = e.st.DeleteSnapshot() })
		if err != nil {
			e.fail("cli", "the snapshot cannot be deleted: %v", err)
		}
		e.snap = seqSnap{}
		e.probe("cli-snapshot-read")
	} else if s.size < 1<<32 { // else it would need more than this disk has
		e.callOK(func() { err = e.st.CreateSnapshot() })
		if err != nil {
			e.fail("cli", "no snapshot can be made: %v", err)
		}
		e.snap = seqSnap{1, [][]byte{e.image()}}
	}
	e.callOK(func() { e.st.Close() })
	e.st = nil
	e.sim.Kill(e.proc, "exit")
	e.sim.Host0.FS.DropDead()
	e.prefix = nil
	if e.snap.st == 1 {
		// what a command prints because there is a snapshot
		kanilssim.SimReset()
		for _, p := range []string{e.path, "a.lusf", "./a.lusf"} {
			out := e.clean("Get", "--storage", p, "--key", "12345")
			if !strings.HasSuffix(out, e.absent) {
				panic(stop{nil})
			}
			e.prefix = append(e.prefix, strings.TrimSuffix(out, e.absent))
		}
	}
}

// between: a put that was cut off may have deleted the old lump already when
// both do not fit.
func (e *tool) between(c *kcmd, s kstate) (kstate, bool) {
	old, had := s.kv[c.op.ID]
	if !c.opt || c.op.K != "kput" || c.val.emb || !had || old.emb || old.blocks() < c.val.blocks() {
		return s, false
	}
	sum := c.val.blocks()
	for _, v := range s.kv {
		sum += v.blocks()
	}
	if s.size != 0 && sum*2 < s.size/blk {
		return s, false
	}
	s = s.clone()
	delete(s.kv, c.op.ID)
	return s, true
}

// lose: what a killed command wrote is lost in part.
func (e *tool) lose() {
	for id := range e.pend {
		e.loose[id] = true
	}
}

func (e *tool) describe() string {
	var l []string
	for _, s := range e.states {
		if !s.exists {
			l = append(l, "no storage")
			continue
		}
		m := fmt.Sprintf("size %d", s.size)
		for _, id := range s.ids() {
			k := "data"
			if s.kv[id].emb {
				k = "inline"
			}
			m += fmt.Sprintf(", %d: %d bytes %s", id, len(s.kv[id].s), k)
		}
		l = append(l, m)
	}
	return strings.Join(l, " or ")
}

func showOut(s string) string {
	if len(s) > 300 {
		return strconv.Quote(s[:150]) + "..." + strconv.Quote(s[len(s)-150:])
	}
	return strconv.Quote(s)
}

func (e *tool) name(c *kcmd) string {
	s := c.op.K[1:]
	switch c.op.K {
	case "kput", "kget", "kdel":
		s += fmt.Sprintf(" %d", c.op.ID)
	case "kresize":
		s += fmt.Sprintf(" %d", c.bound)
	}
	if c.op.K == "kput" {
		s += fmt.Sprintf(" (%d bytes, form %d)", len(c.val.s), c.op.N)
	}
	if c.op.Off >= 3 {
		s += fmt.Sprintf(" (bad argument %d)", c.op.Off)
	}
	return fmt.Sprintf("%d: %s", c.n, s)
}

// reason: a command that failed by itself must have a reason to.
func (e *tool) reason(c *kcmd, s kstate) {
	if !s.exists && c.op.K != "kcreate" && c.op.K != "kbench" || c.op.Off >= 3 {
		return
	}
	if _, ok := e.apply(c, s); !ok && c.op.K != "kget" && c.op.K != "kdump" && c.op.K != "khead" {
		return // it was told to do what cannot be done
	}
	ring := uint64(e.ringHi - e.ringLo)
	live := uint64(0)
	for _, v := range s.kv {
		live += 40
		if v.emb {
			live += uint64(len(v.s))
		}
	}
	tight := live*8+400 > ring || e.large*6 > ring
	old, had := s.kv[c.op.ID]
	switch c.op.K {
	case "kget":
		if v, ok := s.kv[c.op.ID]; ok && c.op.Off < 3 && !e.loose[c.op.ID] {
			e.fail("cli", "%s prints %s, the value has %d bytes", e.name(c), showOut(c.out), len(v.s))
		}
		return
	case "kput":
		if tight || c.val.emb && uint64(len(c.val.s))*4 > ring {
			return // the journal is full
		}
		if !c.val.emb {
			if uint64(len(c.val.s)) > e.usage.MaxSegmentSize && !(had && old.blocks() >= c.val.blocks()) {
				return // no room
			}
		}
	case "kdel":
		if tight {
			return
		}
	case "kcreate":
		if c.op.N == 4 || c.op.Len < 4096 {
			return // too small
		}
	case "kbench":
		return
	}
	e.fail("cli", "%s fails without a reason: %s; before it %s", e.name(c), showOut(c.out), e.describe())
}

// look opens the storage and compares.
func (e *tool) look() {
	fs := e.sim.Host0.FS
	absent, present := false, false
	for _, s := range e.states {
		absent = absent || !s.exists
		present = present || s.exists
	}
	if fs.Files[e.path] == nil {
		if !absent {
			e.fail("cli", "the storage file is gone; it should hold %s", e.describe())
		}
		e.states = []kstate{{}}
		e.loose = map[uint64]bool{}
		return
	}
	if !present {
		// what a create that was cut off leaves; it is no storage
		e.newProc()
		var err error
		died, _ := e.call(func() {
			var st *storage.Storage
			if st, err = storage.OpenCannylsStorage(e.path); err == nil {
				st.Close()
			}
		})
		if died {
			e.fail("panic", "opening what a failed create left: %s", e.proc.PanicV)
		}
		e.sim.Kill(e.proc, "exit")
		fs.DropDead()
		if err == nil {
			e.fail("cli", "the create failed, and there is a storage")
		}
		if !e.partial {
			e.fail("cli", "the create failed, and its file is still there: no other create succeeds")
		}
		delete(fs.Files, e.path)
		e.partial = false
		e.probe("cli-create-cut")
		return
	}
	e.newProc()
	var err error
	got := kstate{exists: true, kv: map[uint64]kval{}}
	bad := ""
	died, _ := e.call(func() {
		e.st, err = storage.OpenCannylsStorage(e.path)
		if err != nil {
			return
		}
		h := e.st.Header()
		got.size = h.DataRegionSize
		e.ringLo = int64(h.RegionSize()) + blk
		e.ringHi = int64(h.RegionSize()) + int64(h.JournalRegionSize)
		for _, x := range e.st.List() {
			b, err := e.st.Get(x)
			if err != nil && !e.loose[x.U64()] {
				bad = fmt.Sprintf("lump %d cannot be read: %v", x.U64(), err)
				return
			}
			got.kv[x.U64()] = kval{string(b), false}
		}
		for id := range e.loose {
			if _, ok := got.kv[id]; ok {
				if _, _, err := e.st.Delete(lid(id)); err != nil {
					e.probe("cli-loose-stays")
					bad = "skip"
					return
				}
				e.probe("cli-loose")
			}
		}
		e.usage = e.st.Usage()
		e.st.Close()
	})
	e.st = nil
	if died {
		e.fail("panic", "%s", e.proc.PanicV)
	}
	if err != nil {
		if absent {
			e.sim.Kill(e.proc, "exit")
			fs.DropDead()
			delete(fs.Files, e.path)
			e.states = []kstate{{}}
			e.ringLo, e.ringHi = 0, 0
			e.probe("cli-create-cut")
			return
		}
		e.fail("open", "the storage does not open: %v; it should hold %s", err, e.describe())
	}
	if bad == "skip" {
		panic(stop{nil})
	}
	if bad != "" {
		e.fail("cli", "%s; it should hold %s", bad, e.describe())
	}
	e.sim.Kill(e.proc, "exit")
	fs.DropDead()
	var match []kstate
	why := ""
	for _, s := range e.states {
		if w := e.differ(s, got); w == "" {
			match = append(match, s)
		} else if s.exists {
			why = w
		}
	}
	if len(match) == 0 {
		e.fail("cli", "%s; it should hold %s", why, e.describe())
	}
	s := match[0].clone()
	s.size = got.size
	for id := range e.loose {
		delete(s.kv, id)
	}
	e.loose, e.pend = map[uint64]bool{}, map[uint64]bool{}
	used := uint64(0)
	for _, v := range s.kv {
		used += v.blocks() * blk
	}
	if e.usage.DataFreeBytes != s.size/blk*blk-used {
		e.fail("cli", "%d bytes are free, the data region has %d and the lumps take %d", e.usage.DataFreeBytes, s.size, used)
	}
	e.states = []kstate{s}
	e.res.States = append(e.res.States, rt.HashStr(s.key()))
	e.probe("cli-look")
}

func (e *tool) differ(s, got kstate) string {
	if !s.exists {
		return "there is a storage"
	}
	if s.size != 0 && s.size != got.size {
		return fmt.Sprintf("the data region has %d bytes", got.size)
	}
	for _, id := range s.ids() {
		if e.loose[id] {
			continue
		}
		g, ok := got.kv[id]
		if !ok {
			return fmt.Sprintf("there is no lump %d", id)
		}
		if g.s != s.kv[id].s {
			return fmt.Sprintf("lump %d has %d bytes: %s", id, len(g.s), show(g.s))
		}
	}
	for _, id := range got.ids() {
		if _, ok := s.kv[id]; !ok && !e.loose[id] {
			return fmt.Sprintf("there is a lump %d (%d bytes)", id, len(got.kv[id].s))
		}
	}
	return ""
}

// bench looks at what the benchmark commands leave.
func (e *tool) bench(c *kcmd, io bool) {
	fs := e.sim.Host0.FS
	defer delete(fs.Files, "/sim/b.lusf")
	if c.opt || io || fs.Files["/sim/b.lusf"] == nil {
		return
	}
	e.newProc()
	var err error
	bad := ""
	died, _ := e.call(func() {
		st, er := storage.OpenCannylsStorage("/sim/b.lusf")
		if err = er; err != nil {
			return
		}
		ids := st.List()
		if c.ok && c.op.N&1 == 0 && len(ids) != int(c.op.Res) {
			bad = fmt.Sprintf("there are %d lumps", len(ids))
		}
		for _, x := range ids {
			b, err := st.Get(x)
			if err != nil || len(b) != c.op.Len || strings.Trim(string(b), "A") != "" || x.U64() >= uint64(c.op.Res) {
				bad = fmt.Sprintf("lump %d has %d bytes, error %v", x.U64(), len(b), err)
			}
		}
		st.Close()
	})
	if died {
		e.fail("panic", "%s", e.proc.PanicV)
	}
	if err != nil || bad != "" {
		e.fail("cli", "after a benchmark of %d times %d bytes %s %v", c.op.Res, c.op.Len, bad, err)
	}
	e.sim.Kill(e.proc, "exit")
	fs.DropDead()
	if c.ok {
		e.probe("cli-bench")
	}
}

func genCLI(prop string, seed uint64) *Trace {
	r := rt.NewRNG(seed, "cli"+prop)
	tr := &Trace{Property: prop, Kind: "cli", Seed: seed}
	c := Conf{}
	if r.Intn(3) > 0 {
		c.Preempt = []float64{0.01, 0.03, 0.1, 0.3}[r.Intn(4)]
	}
	c.LockSw = []float64{0.05, 0.3, 0.6, 0.9}[r.Intn(4)]
	c.Latency = r.Intn(2) == 0
	g := &gen{r: r, p: &profile{}}
	capacity := []int{8000, 60000, 200000, 400000, 1 << 20, 3 << 20}[r.Intn(6)] + r.Intn(2000)
	ids := []uint64{0, 1, 2, 3, 7, 1 << 20, 1 << 40, math.MaxUint64 - 1, math.MaxUint64}
	var pool []uint64
	for n := 1 + r.Intn(6); n > 0; n-- {
		pool = append(pool, ids[r.Intn(len(ids))])
	}
	kinds := []string{"kput", "kget", "kdel", "kdump", "khead", "kjournal", "kgc", "kresize", "kcreate", "kbench", "kpower"}
	ws := []int{20, 8, 6, 2, 2, 1, 2, 3, 1, 0, 2}
	for i := range ws {
		if r.Intn(5) == 0 {
			ws[i] = 0
		}
		if r.Intn(5) == 0 {
			ws[i] *= 3
		}
	}
	ws[0] = max(ws[0], 3)
	if r.Intn(8) == 0 {
		ws[9] = 3
	}
	maxLen := []int{30, 600, 3000, 20000, 70000, capacity}[r.Intn(6)]
	two := []int{0, 0, 10, 3}[r.Intn(4)] // one in so many rounds has two commands
	bad := []int{0, 30, 8}[r.Intn(3)]
	mk := func(round int) Op {
		op := Op{K: kinds[r.Pick(ws)], R: round, D: g.d()}
		op.ID = pool[r.Intn(len(pool))]
		op.Off = uint32(r.Intn(8))
		if op.Off > 2 {
			op.Off = 0
		}
		switch op.K {
		case "kput":
			op.N = uint64(r.Intn(2))
			op.Len = 1 + r.Intn(maxLen)
			if op.N == 0 {
				op.Len = min(op.Len, 1+r.Intn(70000))
				if r.Intn(3) > 0 {
					op.Len = min(op.Len, 1+r.Intn(max(capacity/100, 20)))
				}
			} else if r.Intn(3) == 0 {
				op.Res = uint32(1 + r.Intn(op.Len+100)) // short reads
				op.Res = max(op.Res, uint32(op.Len/50+1))
			}
			if bad > 0 && r.Intn(bad) == 0 {
				op.N = uint64(2 + r.Intn(2))
				if r.Intn(60) == 0 {
					op.N = 4
				}
			}
		case "khead":
			op.N = uint64(r.Intn(2))
		case "kresize":
			op.Len = 512 + r.Intn(capacity)
			if r.Intn(3) == 0 {
				op.N = uint64(1 + r.Intn(4))
			}
		case "kcreate":
			op.Len = capacity
			if bad > 0 && r.Intn(2) == 0 {
				op.N = uint64(1 + r.Intn(4))
			}
		case "kbench":
			op.N = uint64(r.Intn(8))
			op.Len = []int{1, 100, 4096, 4097, 70000}[r.Intn(5)]
			op.Res = uint32(1 + r.Intn(30))
			if op.Len < 5000 && r.Intn(3) == 0 {
				op.Res += 100
			}
		}
		if bad > 0 && r.Intn(bad) == 0 && op.K != "kbench" && op.K != "kpower" {
			op.Off = 3
			if (op.K == "kput" || op.K == "kget" || op.K == "kdel") && r.Intn(2) == 0 {
				op.Off = 4
			}
		}
		return op
	}
	round := 0
	if bad == 0 || r.Intn(4) > 0 {
		tr.Ops = append(tr.Ops, Op{K: "kcreate", Len: capacity, D: g.d()})
		round++
	}
	for n := 2 + r.Intn(25); n > 0; n-- {
		op := mk(round)
		if !(op.K == "kcreate" && r.Intn(2) == 0 && bad == 0) {
			tr.Ops = append(tr.Ops, op)
		}
		if op.K != "kpower" && op.K != "kbench" && two > 0 && r.Intn(two) == 0 {
			if o2 := mk(round); o2.K != "kpower" && o2.K != "kbench" {
				tr.Ops = append(tr.Ops, o2)
			}
		}
		round++
	}
	tr.Conf = c
	mode := r.Intn(5)
	if mode < 4 && r.Intn(3) == 0 {
		// a snapshot, and what it holds some commands later
		for i := range tr.Ops {
			tr.Ops[i].R *= 2
		}
		for i := 1 + r.Intn(3); i < 2*round && len(tr.Ops) > 0; i += 2 * (1 + r.Intn(6)) {
			tr.Ops = append(tr.Ops, Op{K: "ksnap", R: i | 1, D: g.d()})
		}
		tr.Ops = append(tr.Ops, Op{K: "ksnap", R: 2 * round, D: g.d()})
		sort.SliceStable(tr.Ops, func(i, j int) bool { return tr.Ops[i].R < tr.Ops[j].R })
		round *= 2
	}
	if mode > 0 {
		for n := 1 + r.Intn(4); n > 0; n-- {
			k := []string{"crash", "power", "kill", "crash", "power"}[r.Intn(5)]
			if mode == 4 {
				k = []string{"ewrite", "esync", "eread", "eopen", "efalloc", "crash", "power"}[r.Intn(7)]
			}
			f := &rt.Fault{Op: r.Intn(round), Kind: k, Nth: 1 + r.Intn(8), When: []string{"before", "after"}[r.Intn(2)], Arg: r.U64()}
			if k == "kill" && r.Intn(3) == 0 {
				f.Nth = 1 + r.Intn(30)
			}
			if mode == 4 && r.Intn(5) == 0 {
				f.Len = 1 + r.Intn(4)
			}
			tr.Faults = append(tr.Faults, f)
		}
	}
	return tr
}

var _ = time.Second
