package harness

import (
	"fmt"

	"verif.local/sim/rt"
)

// Op is one step of a workload. The meaning of the fields depends on K.
type Op struct {
	K   string `json:"k"`
	ID  uint64 `json:"id,omitempty"`
	End uint64 `json:"end,omitempty"`
	Len int    `json:"len,omitempty"`
	Off uint32 `json:"off,omitempty"`
	Res uint32 `json:"res,omitempty"`
	N   uint64 `json:"n,omitempty"`
	D   uint64 `json:"d,omitempty"`
	C   int    `json:"c,omitempty"` // client (concurrent runs)
	R   int    `json:"r,omitempty"` // round (concurrent runs)
	S   string `json:"s,omitempty"`
}

// Conf is the drawn configuration of a run (swarm testing: every feature is
// switched on or off, and every weight drawn, per run).
type Conf struct {
	Ring    int     `json:"ring"`
	Data    int     `json:"data"` // bytes
	NoGC    bool    `json:"nogc,omitempty"`
	Preempt float64 `json:"preempt,omitempty"`
	LockSw  float64 `json:"locksw,omitempty"`
	Gap     float64 `json:"gap,omitempty"`
	Latency bool    `json:"latency,omitempty"`
	Clients int     `json:"clients,omitempty"`
	Shift   int     `json:"shift,omitempty"` // snapshot region shift
	Files   int     `json:"files,omitempty"`
	Track   bool    `json:"track,omitempty"`
	Audit   int     `json:"audit,omitempty"` // audit every n operations (0: only at the end)
	Path    string  `json:"path,omitempty"`
	Mode    string  `json:"mode,omitempty"`
	Snaps   bool    `json:"snaps,omitempty"` // sequential runs: with snapshots
	Free    int64   `json:"free,omitempty"`  // disk space limit
	Aged    *Aged   `json:"aged,omitempty"`  // what the storage holds when the run starts
	SSeed   uint64  `json:"sseed,omitempty"` // schedule seed, when it differs from the run seed
}

type Trace struct {
	Property string        `json:"property"`
	Kind     string        `json:"kind"`
	Seed     uint64        `json:"seed"`
	Conf     Conf          `json:"conf"`
	Ops      []Op          `json:"ops"`
	Faults   []*rt.Fault   `json:"faults,omitempty"`
	Sched    []rt.Decision `json:"sched,omitempty"`
	Replay   bool          `json:"replay_schedule,omitempty"`
	Class    string        `json:"class,omitempty"`
	Message  string        `json:"message,omitempty"`
}

func (t *Trace) clone() *Trace {
	n := *t
	n.Ops = append([]Op(nil), t.Ops...)
	n.Faults = nil
	for _, f := range t.Faults {
		g := *f
		g.Reset()
		n.Faults = append(n.Faults, &g)
	}
	n.Sched = append([]rt.Decision(nil), t.Sched...)
	return &n
}

// Violation is what a run found.
type Violation struct {
	Class string // kind of the violated expectation; decides which properties it concerns
	Msg   string
	Op    int
}

func (v *Violation) String() string { return fmt.Sprintf("[%s] op %d: %s", v.Class, v.Op, v.Msg) }

// Result of one simulated run.
type Result struct {
	V       *Violation
	Hash    uint64 // fingerprint of everything observable in the run
	Ops     int
	SimNS   int64
	Points  uint64
	Switch  uint64
	Faults  map[string]int
	Probes  map[string]int
	States  []uint64 // fingerprints of states reached
	Sched   []rt.Decision
	SchedH  uint64
	IO      [4]uint64
	Lost    int
	Kept    int
	Nontriv bool
	Unknown int
}
