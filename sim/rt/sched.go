// Package rt is the deterministic simulation runtime: cooperative tasks, a
// seeded scheduler, simulated processes, and a simulated disk. The repository's
// code runs on it through import rewriting (see /verif/sim/rewrite).
package rt

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

func getg() uintptr

type state int

const (
	running state = iota // running, or blocked natively (channel, timer)
	parked               // waiting for the scheduler, runnable
	waiting              // waiting for a shim lock or wait group
	ended
)

// Proc is one simulated operating system process.
type Proc struct {
	ID        int
	Name      string
	Dead      bool
	Why       string // reason of death
	PanicV    string // panic value and stack when it died by a panic
	Cwd       string
	Out       bytes.Buffer
	Args      []string
	Sigs      []func(int)
	Server    any
	Exited    bool
	Code      int
	SilentOut bool
	Host      *Host
	gone      chan struct{} // closed when the process dies
}

// Host is a machine: its disk, and the processes on it.
type Host struct{ FS *FS }

type Task struct {
	Name    string
	Proc    *Proc
	st      state
	g       uintptr
	resume  chan struct{}
	nchild  int
	Crashed bool // the crash sentinel has been thrown in this task already
	why     string
	Steps   uint64 // preemption points passed since the last reset
	Client  bool
	nalloc  uint64
	nsel    uint64
	quiet   int // >0: no preemption (harness code)
	granted bool
	prio    int64
}

// Crash is the panic value that unwinds a task of a dead process.
type Crash struct{}

// Budget is the panic value of a task that exceeded its step budget.
type Budget struct{ Steps uint64 }

type Decision struct {
	At uint64 `json:"at"` // index of the scheduling point
	To string `json:"to"` // task that runs next
}

type Config struct {
	Seed     uint64
	Preempt  float64 // probability of a switch at a statement-level point
	LockSw   float64 // probability of a switch at a lock, unlock or I/O point
	Gap      float64 // >0: the running task is the one of highest priority; the mean distance of the points at which it drops to the lowest
	Latency  bool    // I/O takes simulated time in preemptive runs
	Budget   uint64  // step budget per operation
	MaxStep  uint64  // scheduling points per run before it is declared stuck
	Replay   []Decision
	IsReplay bool
}

type Sim struct {
	Cfg          Config
	mu           sync.Mutex
	tasks        map[uintptr]*Task
	all          []*Task
	cur          *Task
	wake         chan struct{}
	rng          *RNG
	lowest       int64 // lowest priority given so far (Gap)
	nextDrop     uint64
	points       uint64 // scheduling points passed (managed tasks only)
	Switch       uint64 // context switches taken
	Trace        []Decision
	replay       map[uint64]string
	Start        time.Time
	SchedHash    uint64
	stop         bool
	Stats        Stats
	procs        []*Proc
	Disk         *Faults
	lastProgress time.Time
	Deadlock     string
	Panics       []string // panics in background tasks
	Host0        *Host
	epoch        uint64
	uuids        uint64
}

type Stats struct {
	IOReads, IOWrites, IOSyncs, IOMeta uint64
	Faults                             map[string]int
}

var S *Sim // the current run
var curG uintptr
var preempting bool
var epochs uint64

func New(cfg Config) *Sim {
	if cfg.Budget == 0 {
		cfg.Budget = 30_000_000
	}
	if cfg.MaxStep == 0 {
		cfg.MaxStep = 60_000_000
	}
	epochs++
	s := &Sim{Cfg: cfg, tasks: map[uintptr]*Task{}, wake: make(chan struct{}, 1), rng: NewRNG(cfg.Seed, "sched"), epoch: epochs}
	s.Stats.Faults = map[string]int{}
	s.Start = time.Now()
	s.lastProgress = s.Start
	s.Disk = &Faults{sim: s}
	s.Host0 = &Host{FS: NewFS(s)}
	if cfg.IsReplay {
		s.replay = map[uint64]string{}
		for _, d := range cfg.Replay {
			s.replay[d.At] = d.To
		}
	}
	S = s
	curG = 0
	preempting = false
	return s
}

func (s *Sim) NewProc(name string) *Proc {
	p := &Proc{ID: len(s.procs), Name: name, Cwd: "/sim", Host: s.Host0, gone: make(chan struct{})}
	s.procs = append(s.procs, p)
	return p
}

// Cur returns the managed task of the calling goroutine, or nil.
func Cur() *Task {
	s := S
	if s == nil {
		return nil
	}
	g := getg()
	if g == curG {
		return s.cur
	}
	s.mu.Lock()
	t := s.tasks[g]
	s.mu.Unlock()
	return t
}

// Spawn starts a managed task; it first waits for the scheduler.
func (s *Sim) Spawn(name string, p *Proc, client bool, f func()) *Task {
	t := &Task{Name: name, Proc: p, st: parked, resume: make(chan struct{}), Client: client,
		prio: int64(Mix(s.Cfg.Seed^HashStr(name)) & 0xffff)}
	s.mu.Lock()
	s.all = append(s.all, t)
	s.mu.Unlock()
	go func() {
		t.g = getg()
		s.mu.Lock()
		s.tasks[t.g] = t
		s.mu.Unlock()
		<-t.resume
		curG = t.g
		defer s.exit(t)
		if p != nil && p.Dead {
			return
		}
		f()
	}()
	s.kick()
	return t
}

func (s *Sim) exit(t *Task) {
	r := recover()
	if r != nil {
		switch r.(type) {
		case Crash:
		default:
			st := string(debug.Stack())
			s.mu.Lock()
			if t.Proc != nil && !t.Proc.Dead {
				t.Proc.Dead, t.Proc.Why = true, "panic"
				t.Proc.PanicV = fmt.Sprintf("panic in task %s: %v\n%s", t.Name, r, trimStack(st))
				s.Panics = append(s.Panics, t.Proc.PanicV)
				s.readyProcLocked(t.Proc)
				close(t.Proc.gone)
			} else if t.Proc == nil {
				s.Panics = append(s.Panics, fmt.Sprintf("harness panic in task %s: %v\n%s", t.Name, r, st))
			}
			s.mu.Unlock()
		}
	}
	s.mu.Lock()
	t.st = ended
	delete(s.tasks, t.g)
	if s.cur == t {
		s.cur = nil
	}
	s.mu.Unlock()
	curG = 0
	s.kick()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "cannyls-go") || strings.Contains(l, "/cmd/") {
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "\t") {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) kick() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// Progress tells the deadlock detector that a client call finished.
func (s *Sim) Progress() { s.lastProgress = time.Now() }

// Loop runs the scheduler until done reports true or nothing can run any more.
func (s *Sim) Loop(done func() bool) {
	idle := 0
	for {
		synctest.Wait()
		if done() || s.stop {
			return
		}
		t := s.pick()
		if t == nil {
			idle++
			if time.Since(s.lastProgress) > 4*time.Hour || idle > 200000 {
				s.Deadlock = s.describe()
				return
			}
			select {
			case <-s.wake:
			case <-time.After(10 * time.Minute):
			}
			continue
		}
		s.mu.Lock()
		t.st = running
		if s.cur != t {
			s.Switch++
			s.SchedHash = Mix(s.SchedHash ^ HashStr(t.Name) ^ s.points)
		}
		s.cur = t
		s.mu.Unlock()
		if s.points > s.Cfg.MaxStep {
			s.Deadlock = "run exceeded its step limit: " + s.describe()
			return
		}
		t.resume <- struct{}{}
	}
}

func (s *Sim) describe() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for _, t := range s.all {
		if t.st == ended || (t.Proc != nil && t.Proc.Dead) {
			continue
		}
		st := "blocked (channel or timer)"
		switch t.st {
		case parked:
			st = "runnable"
		case waiting:
			st = "waiting for " + t.why
		}
		out = append(out, t.Name+": "+st)
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// pick decides which parked task runs next. The default, when no decision is
// recorded, is to let the current task continue and else the first by name.
func (s *Sim) pick() *Task {
	s.mu.Lock()
	defer s.mu.Unlock()
	var run []*Task
	live := s.all[:0]
	for _, t := range s.all {
		if t.st == ended {
			continue
		}
		live = append(live, t)
		if t.st == parked {
			run = append(run, t)
		}
	}
	s.all = live
	if len(run) == 0 {
		return nil
	}
	if len(run) == 1 {
		return run[0]
	}
	sort.Slice(run, func(i, j int) bool { return run[i].Name < run[j].Name })
	def := run[0]
	for _, t := range run {
		if t == s.cur {
			def = t
		}
	}
	s.points++
	at := s.points
	if s.Cfg.IsReplay {
		if to, ok := s.replay[at]; ok {
			for _, t := range run {
				if t.Name == to {
					if t != def {
						s.Trace = append(s.Trace, Decision{at, to})
					}
					return t
				}
			}
		}
		return def
	}
	t := run[0]
	if s.Cfg.Gap > 0 {
		if s.nextDrop == 0 {
			s.drop(t)
		}
		t = best(run)
	} else {
		t = run[s.rng.Intn(len(run))]
	}
	if t != def {
		s.Trace = append(s.Trace, Decision{at, t.Name})
	}
	return t
}

// park gives control back to the scheduler; the task stays runnable.
func (s *Sim) park(t *Task) {
	s.mu.Lock()
	t.st = parked
	s.mu.Unlock()
	s.kick()
	<-t.resume
	curG = t.g
}

// block parks the task until ready moves it back to runnable.
func (s *Sim) block(t *Task, why string) {
	s.mu.Lock()
	t.st, t.why = waiting, why
	s.mu.Unlock()
	s.kick()
	<-t.resume
	curG = t.g
}

func (s *Sim) ready(t *Task) {
	s.mu.Lock()
	if t.st == waiting {
		t.st = parked
	}
	s.mu.Unlock()
	s.kick()
}

func (s *Sim) readyProcLocked(p *Proc) {
	for _, t := range s.all {
		if t.Proc == p && t.st == waiting {
			t.st = parked
		}
	}
}

// Kill ends a process: its tasks unwind at their next simulation point.
func (s *Sim) Kill(p *Proc, why string) {
	s.mu.Lock()
	if !p.Dead {
		p.Dead, p.Why = true, why
		close(p.gone)
	}
	s.readyProcLocked(p)
	s.mu.Unlock()
	s.kick()
}

// check throws the crash sentinel when the task's process is dead.
func (t *Task) check() {
	if t.Proc != nil && t.Proc.Dead && !t.Crashed {
		t.Crashed = true
		panic(Crash{})
	}
}

// SetPreempt switches preemptive scheduling on or off.
func SetPreempt(on bool) { preempting = on }

// Y is inserted before every statement of the repository's code.
func Y() {
	s := S
	if s == nil || getg() != curG {
		return
	}
	t := s.cur
	if t == nil {
		return
	}
	t.Steps++
	if t.Steps > s.Cfg.Budget {
		t.Steps = 0
		panic(Budget{s.Cfg.Budget})
	}
	if !preempting || t.quiet > 0 {
		return
	}
	s.yield(t, s.Cfg.Preempt)
}

func (s *Sim) yield(t *Task, p float64) {
	if t.Proc != nil && t.Proc.Dead {
		t.check()
		return
	}
	s.points++
	if s.Cfg.IsReplay {
		if _, ok := s.replay[s.points]; !ok {
			return
		}
		// the recorded decision is consulted again by pick at points+1 parity,
		// so look it up here and hand over directly
		s.handover(t, s.replay[s.points])
		return
	}
	if s.Cfg.Gap > 0 {
		if p > 0 && s.points >= s.nextDrop {
			s.drop(t)
		}
		if p > 0 {
			s.handover(t, "")
		}
		return
	}
	if s.rng.F() >= p {
		return
	}
	s.handover(t, "")
}

// drop gives the task the lowest priority and chooses the point of the next drop.
func (s *Sim) drop(t *Task) {
	if s.nextDrop > 0 {
		s.lowest--
		t.prio = s.lowest
	}
	g := 1 - s.Cfg.Gap*math.Log(1-s.rng.F())
	s.nextDrop = s.points + uint64(g)
}

// best is the task of highest priority.
func best(run []*Task) *Task {
	b := run[0]
	for _, t := range run {
		if t.prio > b.prio {
			b = t
		}
	}
	return b
}

// handover parks the current task and makes the scheduler choose another one.
func (s *Sim) handover(t *Task, to string) {
	s.mu.Lock()
	var run []*Task
	for _, x := range s.all {
		if x.st == parked && x != t {
			run = append(run, x)
		}
	}
	if len(run) == 0 {
		s.mu.Unlock()
		return
	}
	sort.Slice(run, func(i, j int) bool { return run[i].Name < run[j].Name })
	var n *Task
	if s.Cfg.IsReplay {
		for _, x := range run {
			if x.Name == to {
				n = x
			}
		}
		if n == nil {
			s.mu.Unlock()
			return
		}
	} else if s.Cfg.Gap > 0 {
		if n = best(run); n.prio <= t.prio {
			s.mu.Unlock()
			return
		}
	} else {
		n = run[s.rng.Intn(len(run))]
	}
	s.Trace = append(s.Trace, Decision{s.points, n.Name})
	s.Switch++
	s.SchedHash = Mix(s.SchedHash ^ HashStr(n.Name) ^ s.points)
	t.st = parked
	n.st = running
	s.cur = n
	s.mu.Unlock()
	n.resume <- struct{}{}
	<-t.resume
	curG = t.g
	if t.Proc != nil && t.Proc.Dead {
		t.check()
	}
}

// Sw is a stronger preemption point: locks, unlocks, I/O.
func Sw() {
	s := S
	if s == nil || !preempting || getg() != curG {
		return
	}
	t := s.cur
	if t == nil || t.quiet > 0 {
		return
	}
	s.yield(t, s.Cfg.LockSw)
}

// P is inserted after every statement that may have blocked in the Go runtime
// (channel operations, select, sleep): the task waits for its turn.
func P() {
	s := S
	if s == nil {
		return
	}
	t := Cur()
	if t == nil {
		return
	}
	s.park(t)
	t.check()
}

// Gone is closed when the process dies.
func (p *Proc) Gone() <-chan struct{} { return p.gone }

// Go replaces the go statement in the repository's code.
func Go(f func()) {
	s := S
	t := Cur()
	if s == nil || t == nil {
		go f()
		return
	}
	t.nchild++
	name := fmt.Sprintf("%s/%d", t.Name, t.nchild)
	s.Spawn(name, t.Proc, false, f)
	Sw()
}

// Sleep is what a client of the simulation uses.
func Sleep(d time.Duration) {
	time.Sleep(d)
	P()
}

// Exec runs repository code as part of process p in the calling task and
// reports how it ended.
type Outcome struct {
	Crashed bool
	Panic   string
	Budget  bool
}

func (s *Sim) Exec(t *Task, p *Proc, f func()) (o Outcome) {
	oldp, oldc, oldq := t.Proc, t.Crashed, t.quiet
	t.Proc, t.Crashed, t.Steps, t.quiet = p, false, 0, 0
	defer func() {
		r := recover()
		t.Proc, t.Crashed, t.quiet = oldp, oldc, oldq
		if r == nil {
			if p.Dead {
				o.Crashed = true
			}
			return
		}
		switch r.(type) {
		case Crash:
			o.Crashed = true
		case Budget:
			o.Budget = true
			s.Kill(p, "budget")
		default:
			if p.Dead {
				o.Crashed = true
				return
			}
			o.Panic = fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack())))
			s.Kill(p, "panic")
			p.PanicV = o.Panic
		}
	}()
	f()
	return
}

// Zombie runs cleanup code of a dead process; nothing it does has any effect
// on the simulated world.
func (s *Sim) Zombie(t *Task, p *Proc, f func()) {
	p.Dead = true
	oldp, oldc, oldpre := t.Proc, t.Crashed, preempting
	t.Proc, t.Crashed, t.Steps = p, true, 0
	preempting = false
	defer func() {
		recover()
		t.Proc, t.Crashed = oldp, oldc
		preempting = oldpre
	}()
	f()
}

func (s *Sim) Points() uint64 { return s.points }

// Drain lets every remaining task of dead processes finish.
func (s *Sim) Stop() { s.stop = true }

// Shutdown unwinds every task that is left after the run, so that nothing of
// it stays in memory.
func (s *Sim) Shutdown() {
	preempting = false
	for _, p := range s.procs {
		s.Kill(p, "end of run")
	}
	for round := 0; round < 4; round++ {
		for {
			synctest.Wait()
			s.mu.Lock()
			var t *Task
			left := 0
			for _, x := range s.all {
				if x.st != ended {
					left++
					if x.st == parked && t == nil {
						t = x
					}
				}
			}
			if t == nil {
				s.mu.Unlock()
				if left == 0 {
					return
				}
				break
			}
			t.st = running
			s.cur = t
			s.mu.Unlock()
			t.resume <- struct{}{}
		}
		time.Sleep(2 * time.Minute)
	}
}

var _ = runtime.NumGoroutine

// MakeBytes replaces make([]byte, n, c) in the repository's code: the address
// of a buffer relative to a sector is an input the simulator decides.
func MakeBytes(n int, c ...int) []byte {
	k := n
	if len(c) > 0 {
		k = c[0]
	}
	if n < 0 || k < n {
		_ = make([]byte, n, k) // panics as the original would
	}
	s := S
	if s == nil || k == 0 {
		return make([]byte, n, k)
	}
	var t *Task
	if getg() == curG {
		t = s.cur
	}
	if t == nil {
		return make([]byte, n, k)
	}
	t.nalloc++
	h := Mix(s.Cfg.Seed ^ HashStr(t.Name) ^ t.nalloc*0x9e3779b9)
	// the Go allocator aligns an object to the largest power of two that
	// divides its size class; anything beyond that is up to the simulator
	al := 512
	if k <= 32768 {
		c := sizeClass(k)
		al = c & -c
	}
	off := 0
	if al < 512 && h%3 != 0 {
		off = int((h>>8)%uint64(512/al)) * al
	}
	raw := make([]byte, k+1024)
	a := int(addrOf(raw) & 511)
	start := (512-a)&511 + off
	return raw[start : start+n : start+k]
}

var classes = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func sizeClass(k int) int {
	i := sort.SearchInts(classes, k)
	return classes[i]
}
