package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/sim/rt"
)

// engines run a trace.
var engines = map[string]func(*Trace) *Result{"seq": runSeq, "conc": runConc, "own": runOwn}

// prop binds a property to its generators and to the observations that
// contradict it.
type prop struct {
	id      string
	gens    []wgen
	classes string // space separated
	rule    string
	real    string
	stub    string
	level   string
}

type wgen struct {
	w    int
	f    func(prop string, seed uint64) *Trace
	name string
}

const alwaysClasses = "panic hang open handles-fatal"

var props = map[string]*prop{}

func (p *prop) concerns(class string) bool {
	for _, c := range strings.Fields(p.classes + " " + alwaysClasses) {
		if c == class {
			return true
		}
	}
	return false
}

func (p *prop) gen(seed uint64) *Trace {
	t := 0
	for _, g := range p.gens {
		t += g.w
	}
	k := int(rt.Mix(seed^rt.HashStr("pick"+p.id)) % uint64(t))
	for _, g := range p.gens {
		if k < g.w {
			tr := g.f(p.id, seed)
			tr.Property = p.id
			return tr
		}
		k -= g.w
	}
	panic("unreachable")
}

func runTrace(tr *Trace) *Result {
	f := engines[tr.Kind]
	if f == nil {
		panic("unknown kind of run: " + tr.Kind)
	}
	r := f(tr)
	rt.S.Shutdown()
	return r
}

// stats of many runs
type stats struct {
	Runs      int               `json:"runs"`
	Nontriv   int               `json:"nontrivial"`
	Ops       int               `json:"ops"`
	SimNS     int64             `json:"sim_ns"`
	Points    uint64            `json:"points"`
	Switch    uint64            `json:"switches"`
	Faults    map[string]int    `json:"faults"`
	Probes    map[string]int    `json:"probes"`
	Foreign   map[string]int    `json:"foreign"`
	ForeignEx map[string]string `json:"foreign_examples"`
	Kinds     map[string]int    `json:"kinds"`
	IO        [4]uint64         `json:"io"`
	Lost      int               `json:"lost"`
	Kept      int               `json:"kept"`
	Unknown   int               `json:"unknown"`
	States    int               `json:"states"`
	Scheds    int               `json:"scheds"`
	Redo      int               `json:"redo"`
	RedoBad   int               `json:"redo_bad"`
}

func newStats() *stats {
	return &stats{Faults: map[string]int{}, Probes: map[string]int{}, Foreign: map[string]int{}, ForeignEx: map[string]string{}, Kinds: map[string]int{}}
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Nontriv += o.Nontriv
	s.Ops += o.Ops
	s.SimNS += o.SimNS
	s.Points += o.Points
	s.Switch += o.Switch
	addMap(s.Faults, o.Faults)
	addMap(s.Probes, o.Probes)
	addMap(s.Foreign, o.Foreign)
	addMap(s.Kinds, o.Kinds)
	for k, v := range o.ForeignEx {
		s.ForeignEx[k] = v
	}
	for i := range s.IO {
		s.IO[i] += o.IO[i]
	}
	s.Lost += o.Lost
	s.Kept += o.Kept
	s.Unknown += o.Unknown
	s.Redo += o.Redo
	s.RedoBad += o.RedoBad
}

func (s *stats) add(tr *Trace, r *Result) {
	s.Runs++
	s.Ops += r.Ops
	s.SimNS += r.SimNS
	s.Points += r.Points
	s.Switch += r.Switch
	addMap(s.Faults, r.Faults)
	addMap(s.Probes, r.Probes)
	for i := range s.IO {
		s.IO[i] += r.IO[i]
	}
	s.Lost += r.Lost
	s.Kept += r.Kept
	s.Unknown += r.Unknown
	s.Kinds[tr.Kind]++
	if r.Nontriv || r.Ops >= 5 && (len(r.Faults) > 0 || len(r.Probes) >= 3 || r.Switch > 20) {
		s.Nontriv++
	}
}

// ---- worker ----

type found struct {
	Seed  uint64     `json:"seed"`
	V     *Violation `json:"v"`
	Trace *Trace     `json:"trace"`
}

func env(k string) string { return os.Getenv("SIM_" + k) }
func envInt(k string, d int) int {
	if n, err := strconv.Atoi(env(k)); err == nil {
		return n
	}
	return d
}
func envU64(k string, d uint64) uint64 {
	if n, err := strconv.ParseUint(env(k), 10, 64); err == nil {
		return n
	}
	return d
}

// TestWorker executes runs inside one time bubble.
func TestWorker(t *testing.T) {
	mode := env("WORKER")
	if mode == "" {
		t.Skip("not a worker")
	}
	out := os.NewFile(3, "results")
	if out == nil {
		t.Fatal("no result pipe")
	}
	start := time.Now()
	realNow := func() time.Duration { return monotonic() }
	_ = start
	debug.SetGCPercent(200)
	synctest.Test(t, func(t *testing.T) {
		switch mode {
		case "search":
			workerSearch(out, realNow)
		case "run":
			workerRun(out)
		case "min":
			workerMin(out, realNow)
		case "hash":
			workerHash(out)
		}
		out.Close()
		os.Exit(0)
	})
}

// monotonic is the real time, which the bubble would otherwise replace.
func monotonic() time.Duration {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptr(&ts)), 0)
	return time.Duration(ts.Nano())
}

func heap() uint64 {
	l := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(l)
	return l[0].Value.Uint64()
}

func emit(out *os.File, kind string, v any) {
	b, _ := json.Marshal(v)
	fmt.Fprintf(out, "%s %s\n", kind, b)
}

func workerSearch(out *os.File, now func() time.Duration) {
	p := props[env("PROP")]
	seed, stride := envU64("SEED", 1), envU64("STRIDE", 1)
	budget := time.Duration(envInt("BUDGET_MS", 5000)) * time.Millisecond
	maxRuns := envInt("RUNS", 0)
	begin := now()
	st := newStats()
	states, scheds := map[uint64]struct{}{}, map[uint64]struct{}{}
	last := begin
	for n := 0; ; n++ {
		if maxRuns > 0 && n >= maxRuns || now()-begin > budget {
			break
		}
		fmt.Fprintf(out, "S %d\n", seed)
		tr := p.gen(seed)
		r := runTrace(tr)
		if n%64 == 0 {
			// the same seed must give the same run
			st.Redo++
			if r2 := runTrace(p.gen(seed)); r2.Hash != r.Hash {
				st.RedoBad++
			}
		}
		st.add(tr, r)
		if n%16 == 15 && heap() > 1<<30 {
			if runtime.GC(); heap() > 1<<29 {
				// what runs leave behind must not add up: a fresh process goes on
				emit(out, "R", seed+stride)
				break
			}
		}
		if len(states) < 1<<20 {
			for _, h := range r.States {
				states[h] = struct{}{}
			}
		}
		if len(scheds) < 1<<20 {
			scheds[r.SchedH^r.Hash] = struct{}{}
		}
		if r.V != nil {
			if p.concerns(r.V.Class) {
				emit(out, "V", found{seed, r.V, nil})
			} else {
				st.Foreign[r.V.Class]++
				st.ForeignEx[r.V.Class] = fmt.Sprintf("seed %d: %s", seed, r.V.Msg)
			}
		}
		seed += stride
		if now()-last > 2*time.Second {
			last = now()
			runtime.GC()
			if env("MEM") != "" {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				fmt.Fprintf(os.Stderr, "runs %d heap %d MB sys %d MB goroutines %d\n", n, ms.HeapAlloc>>20, ms.Sys>>20, runtime.NumGoroutine())
				if env("MEM") == "2" {
					b := make([]byte, 1<<20)
					os.Stderr.Write(b[:runtime.Stack(b, true)])
					os.Exit(1)
				}
			}
		}
	}
	st.States, st.Scheds = len(states), len(scheds)
	emit(out, "T", st)
	if f := env("SETS"); f != "" {
		writeSet(f+".states", states)
		writeSet(f+".scheds", scheds)
	}
}

func writeSet(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, len(m)*8)
	for h := range m {
		for i := 0; i < 8; i++ {
			b = append(b, byte(h>>(8*i)))
		}
	}
	os.WriteFile(path, b, 0644)
}

func loadTrace(f string) (*Trace, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	tr := &Trace{}
	return tr, json.Unmarshal(b, tr)
}

func workerRun(out *os.File) {
	var tr *Trace
	if f := env("TRACE"); f != "" {
		var err error
		if tr, err = loadTrace(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		tr = props[env("PROP")].gen(envU64("SEED", 1))
	}
	r := runTrace(tr)
	emit(out, "F", found{tr.Seed, r.V, nil})
	emit(out, "H", r.Hash)
}

func workerHash(out *os.File) {
	p := props[env("PROP")]
	s := envU64("SEED", 1)
	for i := 0; i < envInt("RUNS", 4); i++ {
		r := runTrace(p.gen(s + uint64(i)))
		fmt.Fprintf(out, "h %d %x\n", s+uint64(i), r.Hash)
	}
	if p := env("HEAP"); p != "" {
		runtime.GC()
		runtime.GC()
		f, _ := os.Create(p)
		pprof.WriteHeapProfile(f)
		f.Close()
		f, _ = os.Create(p + ".g")
		pprof.Lookup("goroutine").WriteTo(f, 1)
		f.Close()
	}
}

func workerMin(out *os.File, now func() time.Duration) {
	p := props[env("PROP")]
	tr := p.gen(envU64("SEED", 1))
	r := runTrace(tr)
	if r.V == nil {
		emit(out, "M", found{})
		return
	}
	deadline := now() + time.Duration(envInt("BUDGET_MS", 20000))*time.Millisecond
	best := tr.clone()
	bv := r.V
	tries := 0
	ok := func(c *Trace) bool {
		tries++
		x := runTrace(c)
		if x.V != nil && x.V.Class == bv.Class {
			best, bv = c, x.V
			return true
		}
		return false
	}
	late := func() bool { return now() > deadline }
	save := func() {
		best.Class, best.Message = bv.Class, bv.Msg
		for _, f := range best.Faults {
			f.Reset()
		}
		emit(out, "M", found{tr.Seed, bv, best})
	}
	save()
	// the operations after the violation cannot matter
	if bv.Op+1 < len(best.Ops) && tr.Kind == "seq" {
		c := best.clone()
		c.Ops = c.Ops[:bv.Op+1]
		ok(c)
	}
	for round := 0; round < 4 && !late(); round++ {
		before := len(best.Ops) + len(best.Faults)
		for i := len(best.Faults) - 1; i >= 0 && !late(); i-- {
			c := best.clone()
			c.Faults = append(c.Faults[:i], c.Faults[i+1:]...)
			ok(c)
		}
		for size := max(1, len(best.Ops)/2); size >= 1 && !late(); size /= 2 {
			for at := 0; at < len(best.Ops) && !late(); {
				c := best.clone()
				end := min(len(c.Ops), at+size)
				c.Ops = append(c.Ops[:at:at], c.Ops[end:]...)
				shiftFaults(c, at, end)
				if !ok(c) && !retrySched(c, ok, late) {
					at += size
				}
			}
		}
		if best.Conf.Audit != 0 {
			c := best.clone()
			c.Conf.Audit = 0
			ok(c)
		}
		for i := 0; i < len(best.Ops) && !late(); i++ {
			for best.Ops[i].Len > 1 && !late() {
				c := best.clone()
				c.Ops[i].Len /= 2
				if !ok(c) {
					break
				}
			}
		}
		save()
		if len(best.Ops)+len(best.Faults) == before {
			break
		}
	}
	if best.Conf.Preempt > 0 || best.Conf.LockSw > 0 {
		// turn the schedule into an explicit list and thin it out
		x := runTrace(best)
		c := best.clone()
		c.Replay, c.Sched = true, x.Sched
		if ok(c) {
			for size := max(1, len(best.Sched)/2); size >= 1 && !late(); size /= 2 {
				for at := 0; at < len(best.Sched) && !late(); {
					c := best.clone()
					end := min(len(c.Sched), at+size)
					c.Sched = append(c.Sched[:at:at], c.Sched[end:]...)
					if !ok(c) {
						at += size
					}
				}
			}
		}
	}
	save()
}

// retrySched tries other schedules of the same concurrent workload.
func retrySched(c *Trace, ok func(*Trace) bool, late func() bool) bool {
	if c.Conf.Preempt == 0 && c.Conf.LockSw == 0 || c.Replay {
		return false
	}
	for k := 1; k <= 4 && !late(); k++ {
		d := c.clone()
		d.Conf.SSeed = c.Conf.SSeed + uint64(k)*7919
		if ok(d) {
			return true
		}
	}
	return false
}

func shiftFaults(c *Trace, at, end int) {
	var fs []*rt.Fault
	for _, f := range c.Faults {
		if f.Op >= end {
			f.Op -= end - at
		} else if f.Op >= at {
			continue
		}
		fs = append(fs, f)
	}
	c.Faults = fs
}

// ---- parent ----

type child struct {
	cmd   *exec.Cmd
	lines chan string
	errb  *bytes.Buffer
	done  chan error
}

func startWorker(mode string, kv ...string) (*child, error) {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "SIM_WORKER="+mode, "GOMAXPROCS=1", "GOMEMLIMIT=3GiB", "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, kv...)
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	c := &child{cmd: cmd, lines: make(chan string, 1024), errb: &bytes.Buffer{}, done: make(chan error, 1)}
	cmd.Stdout = nil
	cmd.Stderr = &capped{b: c.errb}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	go func() {
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			c.lines <- sc.Text()
		}
		close(c.lines)
		pr.Close()
	}()
	go func() { c.done <- cmd.Wait() }()
	return c, nil
}

type capped struct {
	b  *bytes.Buffer
	mu sync.Mutex
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	if c.b.Len() < 1<<16 {
		c.b.Write(p)
	}
	c.mu.Unlock()
	return len(p), nil
}

const stuckAfter = 90 * time.Second

// single runs one job to its end; crash tells how the worker died if it did.
func single(mode string, limit time.Duration, kv ...string) (lines []string, crash string) {
	c, err := startWorker(mode, kv...)
	if err != nil {
		return nil, "start: " + err.Error()
	}
	tm := time.After(limit)
	for {
		select {
		case l, ok := <-c.lines:
			if !ok {
				if err := <-c.done; err != nil {
					return lines, "worker ended: " + err.Error() + "\n" + tail(c.errb.String())
				}
				return lines, ""
			}
			lines = append(lines, l)
		case <-tm:
			syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
			return lines, "timeout"
		}
	}
}

func tail(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "cannyls-go") || strings.HasPrefix(l, "fatal") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "SIG") {
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type parent struct {
	p              *prop
	tier           string
	seed           uint64
	out            string // /verif
	mu             sync.Mutex
	st             *stats
	finds          []found
	trouble        []string
	stopc          chan struct{}
	once           sync.Once
	seen           map[string]int
	states, scheds map[uint64]struct{}
}

func (pa *parent) halt() { pa.once.Do(func() { close(pa.stopc) }) }

// worker keeps one search process going until the time is used up.
func (pa *parent) worker(i, n int, until time.Time, dir string) {
	next := pa.seed*1_000_000_007 + uint64(i)
	for {
		left := time.Until(until)
		if left < 300*time.Millisecond {
			return
		}
		sets := filepath.Join(dir, fmt.Sprintf("w%d-%d", i, next))
		c, err := startWorker("search", "SIM_PROP="+pa.p.id, fmt.Sprintf("SIM_SEED=%d", next), fmt.Sprintf("SIM_STRIDE=%d", n),
			fmt.Sprintf("SIM_BUDGET_MS=%d", left.Milliseconds()), "SIM_SETS="+sets)
		if err != nil {
			pa.note("cannot start a worker: " + err.Error())
			return
		}
		cur := next
		started, again := false, uint64(0)
		dog := time.NewTimer(stuckAfter)
		ended := false
		for !ended {
			select {
			case l, ok := <-c.lines:
				if !ok {
					ended = true
					break
				}
				dog.Reset(stuckAfter)
				switch l[0] {
				case 'S':
					started = true
					cur, _ = strconv.ParseUint(l[2:], 10, 64)
				case 'R':
					again, _ = strconv.ParseUint(l[2:], 10, 64)
				case 'V':
					var f found
					if json.Unmarshal([]byte(l[2:]), &f) == nil {
						pa.add(f)
					}
				case 'T':
					st := newStats()
					if json.Unmarshal([]byte(l[2:]), st) == nil {
						pa.mu.Lock()
						pa.st.merge(st)
						pa.mu.Unlock()
					}
				}
			case <-pa.stopc:
				syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
				return
			case <-dog.C:
				syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
				pa.add(found{Seed: cur, V: &Violation{Class: "hang", Msg: fmt.Sprintf("the run did not end within %v of real time", stuckAfter)}})
				return
			}
		}
		err = <-c.done
		pa.loadSets(sets)
		if err == nil {
			if again == 0 {
				return
			}
			next = again
			continue
		}
		if !started {
			pa.note("worker failed at start: " + err.Error() + ": " + c.errb.String())
			return
		}
		if strings.Contains(err.Error(), "signal: killed") {
			// not by the code under test: that can exit or crash, but this
			// is what the machine does when memory runs out
			pa.note("a worker was killed from outside")
			next = cur + uint64(n)
			continue
		}
		pa.add(found{Seed: cur, V: &Violation{Class: "panic", Msg: "the process died: " + err.Error() + "\n" + tail(c.errb.String())}})
		next = cur + uint64(n)
	}
}

func (pa *parent) loadSets(f string) {
	for _, x := range []struct {
		s string
		m map[uint64]struct{}
	}{{".states", pa.states}, {".scheds", pa.scheds}} {
		b, err := os.ReadFile(f + x.s)
		if err != nil {
			continue
		}
		os.Remove(f + x.s)
		pa.mu.Lock()
		for i := 0; i+8 <= len(b) && len(x.m) < 8<<20; i += 8 {
			var h uint64
			for k := 7; k >= 0; k-- {
				h = h<<8 | uint64(b[i+k])
			}
			x.m[h] = struct{}{}
		}
		pa.mu.Unlock()
	}
}

func (pa *parent) note(s string) {
	pa.mu.Lock()
	pa.trouble = append(pa.trouble, s)
	pa.mu.Unlock()
}

func (pa *parent) add(f found) {
	pa.mu.Lock()
	defer pa.mu.Unlock()
	if k := knownFor(pa.p.id, f.V); k != "" {
		pa.seen[k]++
		return
	}
	pa.finds = append(pa.finds, f)
	if env("KEEPGOING") == "" {
		pa.halt()
	}
}

// known findings: lines "known: property=<id> class=<class> match=<substring> | <description>"
type known struct{ prop, class, match, trace, desc string }

var knowns []known

func loadKnown(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		h, d, _ := strings.Cut(l[7:], " | ")
		k := known{desc: d}
		for _, x := range []struct {
			p string
			d *string
		}{{"property=", &k.prop}, {"class=", &k.class}, {"trace=", &k.trace}, {"match=", &k.match}} {
			if i := strings.Index(h, x.p); i >= 0 {
				v := h[i+len(x.p):]
				if x.p != "match=" {
					v, _, _ = strings.Cut(v, " ")
				}
				*x.d = v
			}
		}
		knowns = append(knowns, k)
	}
}

func knownFor(prop string, v *Violation) string {
	for _, k := range knowns {
		if k.prop == prop && k.class == v.Class && k.match != "" && strings.Contains(v.Msg, k.match) {
			return k.desc
		}
	}
	return ""
}

func TestMain(m *testing.M) {
	if env("WORKER") != "" || env("PROP") == "" && env("REPLAY") == "" {
		os.Exit(m.Run())
	}
	os.Exit(parentMain())
}

func parentMain() int {
	out := env("OUT")
	if out == "" {
		out = "/verif"
	}
	kdir := env("KNOWN")
	if kdir == "" {
		kdir = out
	}
	loadKnown(filepath.Join(kdir, "KNOWN_FINDINGS.txt"))
	if f := env("REPLAY"); f != "" {
		return replayFile(f)
	}
	p := props[env("PROP")]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", env("PROP"))
		return 2
	}
	pa := &parent{p: p, tier: env("TIER"), seed: envU64("SEED", 1), out: out, st: newStats(), stopc: make(chan struct{}), seen: map[string]int{},
		states: map[uint64]struct{}{}, scheds: map[uint64]struct{}{}}
	if pa.tier == "" {
		pa.tier = "quick"
	}
	secs := envInt("SECONDS", 25)
	begin := time.Now()
	dir, err := os.MkdirTemp("", "simrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	// the recorded histories of the known findings
	for _, k := range knowns {
		if k.prop != p.id || k.trace == "" {
			continue
		}
		lines, _ := single("run", stuckAfter, "SIM_TRACE="+filepath.Join(kdir, k.trace))
		for _, l := range lines {
			var m found
			if strings.HasPrefix(l, "F ") && json.Unmarshal([]byte(l[2:]), &m) == nil && m.V != nil {
				if d := knownFor(p.id, m.V); d != "" {
					pa.seen[d]++
				}
			}
		}
	}
	det := pa.determinism()
	searchBegin := time.Now()
	until := searchBegin.Add(time.Duration(secs) * time.Second)
	n := envInt("WORKERS", runtime.NumCPU())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); pa.worker(i, n, until, dir) }()
	}
	wg.Wait()
	searchS := time.Since(searchBegin).Seconds()
	code, nviol := pa.report()
	if pa.st.Runs == 0 && code == 0 {
		pa.trouble = append(pa.trouble, "no run was completed")
	}
	pa.evidence(begin, searchS, nviol, det)
	for d := range pa.seen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, d)
	}
	if code == 0 && len(pa.trouble) > 0 {
		for _, t := range pa.trouble {
			fmt.Fprintln(os.Stderr, "trouble:", t)
		}
		return 2
	}
	fmt.Printf("%s: %d runs, %d operations, %d faults, %.1fs, exit %d\n", p.id, pa.st.Runs, pa.st.Ops, sum(pa.st.Faults), time.Since(begin).Seconds(), code)
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func (pa *parent) determinism() map[string]any {
	k := 4
	a, ca := single("hash", 60*time.Second, "SIM_PROP="+pa.p.id, fmt.Sprintf("SIM_SEED=%d", pa.seed*77+5), fmt.Sprintf("SIM_RUNS=%d", k), "GOMAXPROCS=1")
	b, cb := single("hash", 60*time.Second, "SIM_PROP="+pa.p.id, fmt.Sprintf("SIM_SEED=%d", pa.seed*77+5), fmt.Sprintf("SIM_RUNS=%d", k), "GOMAXPROCS=7", "GOGC=20")
	same := ca == "" && cb == "" && strings.Join(a, "|") == strings.Join(b, "|")
	return map[string]any{"seeds_in_two_processes": k, "same_fingerprint": same}
}

// report confirms, minimises and prints what was found.
func (pa *parent) report() (code, nviol int) {
	sort.Slice(pa.finds, func(i, j int) bool { return pa.finds[i].Seed < pa.finds[j].Seed })
	classes := map[string]bool{}
	for _, f := range pa.finds {
		if classes[f.V.Class] || len(classes) >= 3 {
			continue
		}
		path, msg, ok := pa.confirm(f)
		if !ok {
			pa.trouble = append(pa.trouble, fmt.Sprintf("seed %d: [%s] %s did not reproduce: %s", f.Seed, f.V.Class, f.V.Msg, msg))
			continue
		}
		classes[f.V.Class] = true
		fmt.Printf("%s\n", msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pa.p.id, path)
		code = 1
		nviol++
	}
	return
}

func (pa *parent) confirm(f found) (path, msg string, ok bool) {
	rdir := filepath.Join(pa.out, "replays")
	os.MkdirAll(rdir, 0755)
	path = filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", pa.p.id, f.V.Class, f.Seed))
	base := []string{"SIM_PROP=" + pa.p.id, fmt.Sprintf("SIM_SEED=%d", f.Seed)}
	tr := pa.p.gen(f.Seed)
	tr.Class, tr.Message = f.V.Class, f.V.Msg
	if lines, crash := single("min", 60*time.Second, append(base, fmt.Sprintf("SIM_BUDGET_MS=%d", envInt("MIN_MS", 15000)))...); crash == "" || len(lines) > 0 {
		for _, l := range lines {
			var m found
			if strings.HasPrefix(l, "M ") && json.Unmarshal([]byte(l[2:]), &m) == nil && m.Trace != nil {
				tr = m.Trace
			}
		}
	}
	write := func(t *Trace) {
		b, _ := json.MarshalIndent(t, "", " ")
		os.WriteFile(path, b, 0644)
	}
	write(tr)
	// replay in fresh processes
	for try := 0; try < 4; try++ {
		if try == 2 {
			// fall back to the unminimised trace
			tr = pa.p.gen(f.Seed)
			tr.Class, tr.Message = f.V.Class, f.V.Msg
			write(tr)
		}
		lines, crash := single("run", stuckAfter, "SIM_TRACE="+path)
		if crash == "timeout" && f.V.Class == "hang" {
			return path, fmt.Sprintf("property %s, seed %d: %s", pa.p.id, f.Seed, f.V.Msg), true
		}
		if crash != "" && crash != "timeout" && f.V.Class == "panic" {
			return path, fmt.Sprintf("property %s, seed %d: %s", pa.p.id, f.Seed, f.V.Msg), true
		}
		for _, l := range lines {
			var m found
			if strings.HasPrefix(l, "F ") && json.Unmarshal([]byte(l[2:]), &m) == nil && m.V != nil && m.V.Class == f.V.Class {
				return path, fmt.Sprintf("property %s, seed %d, %d operations, %d faults: %s", pa.p.id, f.Seed, len(tr.Ops), len(tr.Faults), m.V), true
			}
		}
		msg = crash
	}
	return path, msg, false
}

func replayFile(f string) int {
	tr, err := loadTrace(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	lines, crash := single("run", 2*stuckAfter, "SIM_TRACE="+f)
	if crash != "" {
		fmt.Println("the run did not end normally:", crash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", tr.Property, f)
		return 1
	}
	for _, l := range lines {
		var m found
		if strings.HasPrefix(l, "F ") && json.Unmarshal([]byte(l[2:]), &m) == nil && m.V != nil {
			fmt.Println(m.V)
			fmt.Printf("VIOLATION property=%s replay=%s\n", tr.Property, f)
			return 1
		}
	}
	fmt.Println("no violation")
	return 0
}

func (pa *parent) evidence(begin time.Time, searchS float64, nviol int, det map[string]any) {
	p, st := pa.p, pa.st
	rate := 0.0
	if searchS > 0 {
		rate = float64(st.Runs) / searchS * 3600
	}
	var samples []any
	for i := uint64(0); i < 3; i++ {
		tr := p.gen(pa.seed*1_000_000_007 + i)
		if len(tr.Ops) > 12 {
			tr.Ops = tr.Ops[:12]
		}
		samples = append(samples, map[string]any{"seed": tr.Seed, "kind": tr.Kind, "conf": tr.Conf, "first_ops": tr.Ops, "faults": tr.Faults})
	}
	var missing []string
	cov := map[string]any{
		"evaluations":                   st.Runs,
		"distinct_nontrivial":           min(st.Nontriv, len(pa.scheds)),
		"rule":                          p.rule,
		"samples":                       samples,
		"operations":                    st.Ops,
		"runs_per_hour":                 int(rate),
		"seeds_per_hour":                int(rate),
		"first_seed":                    pa.seed * 1_000_000_007,
		"simulated_hours":               float64(st.SimNS) / 3.6e12,
		"faults_injected":               st.Faults,
		"probes":                        st.Probes,
		"distinct_states":               len(pa.states),
		"distinct_states_measure":       "fingerprint of (live ids, their kinds and lengths, journal usage, largest free run) at quiescent points",
		"distinct_executions":           len(pa.scheds),
		"distinct_executions_measure":   "fingerprint of the schedule (every context switch with its position) and of every device write, sync and observed result",
		"scheduling_points":             st.Points,
		"context_switches":              st.Switch,
		"device_calls":                  map[string]uint64{"reads": st.IO[0], "writes": st.IO[1], "syncs": st.IO[2], "other": st.IO[3]},
		"writes_lost_at_power_loss":     st.Lost,
		"writes_kept_at_power_loss":     st.Kept,
		"undecided_histories":           st.Unknown,
		"foreign_observations":          st.Foreign,
		"foreign_examples":              st.ForeignEx,
		"run_kinds":                     st.Kinds,
		"determinism":                   det,
		"determinism_redone_in_process": map[string]int{"runs": st.Redo, "mismatches": st.RedoBad},
		"real_code":                     p.real,
		"stubbed":                       p.stub,
		"known_findings_hit":            pa.seen,
		"probes_missing":                missing,
		"trouble":                       pa.trouble,
	}
	ev := map[string]any{
		"property": p.id, "tier": pa.tier, "seed": pa.seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(begin).Seconds(), "violations": nviol,
		"assumptions": []string{
			"the operating system below the seam behaves like the simulated disk: writes are seen by later reads at once, survive a process crash, and survive a power loss when a later sync of the same file returned; writes are not torn inside a sector",
			"the Judy array library (C) and the Go runtime are correct",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(pa.out, "evidence"), 0755)
	os.WriteFile(filepath.Join(pa.out, "evidence", p.id+".json"), append(b, '\n'), 0644)
}
