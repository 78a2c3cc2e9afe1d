package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"sort"

	"verif.local/sim/rt"
)

const blk = 512
const lumpMax = 0xFFFF*512 - 2

// Val is one value a lump has had. Values of the same incarnation (from the
// put that created the lump to its next put or delete) occupy the same space.
type Val struct {
	Inc   int
	Embed bool
	Data  []byte
	// Loose: the bytes are not known (data of a lump whose creation was not
	// covered by a sync before a power loss); only the size class is.
	Loose  bool
	Blocks int
}

func (v *Val) String() string {
	if v == nil {
		return "absent"
	}
	k := "data"
	if v.Embed {
		k = "embed"
	}
	h := sha256.Sum256(v.Data)
	return fmt.Sprintf("%s len %d %s", k, len(v.Data), hex.EncodeToString(h[:4]))
}

// Cell lists the values an id may have; normally exactly one. nil = absent.
type Cell []*Val

func (c Cell) has(f func(*Val) bool) bool {
	for _, v := range c {
		if f(v) {
			return true
		}
	}
	return false
}
func (c Cell) absentOK() bool {
	return len(c) == 0 || c.has(func(v *Val) bool { return v == nil })
}
func (c Cell) one() *Val {
	if len(c) == 1 {
		return c[0]
	}
	return nil
}

type State struct {
	m    map[uint64]Cell
	Note string
}

func (s *State) with(note string, upd map[uint64]Cell) *State {
	n := &State{m: make(map[uint64]Cell, len(s.m)+1), Note: note}
	for k, v := range s.m {
		n.m[k] = v
	}
	for k, v := range upd {
		if len(v) == 1 && v[0] == nil || len(v) == 0 {
			delete(n.m, k)
		} else {
			n.m[k] = v
		}
	}
	return n
}

func (s *State) ids() []uint64 {
	out := make([]uint64, 0, len(s.m))
	for k := range s.m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (s *State) ambiguous() bool {
	for _, c := range s.m {
		if len(c) != 1 {
			return true
		}
	}
	return false
}

func (s *State) get(id uint64) Cell { return s.m[id] }

func (s *State) live(id uint64) *Val {
	c := s.m[id]
	if len(c) == 1 {
		return c[0]
	}
	return nil
}

func dataBlocks(n int) int { return (n + 2 + blk - 1) / blk }

func (s *State) dataBlocks() int {
	n := 0
	for _, c := range s.m {
		if v := c.one(); v != nil && !v.Embed {
			n += v.Blocks
		}
	}
	return n
}

func recSize(v *Val) int {
	if v.Embed {
		return 15 + len(v.Data)
	}
	return 20
}

func (s *State) recBytes() (total, max int) {
	for _, c := range s.m {
		m := 0
		for _, v := range c {
			if v != nil && recSize(v) > m {
				m = recSize(v)
			}
		}
		total += m
		if m > max {
			max = m
		}
	}
	return
}

// Model is the reference: the sequence of states the operations produced.
type Model struct {
	states  []*State // from the last state known durable to the current one
	flushed int      // states[:flushed] can no longer be recovered after a process crash
	synced  int      // same for a power loss
	// versions of an incarnation, oldest first, with the state index at which
	// each was completed (in-place updates do not go through the journal)
	vers map[int][]*ver
	ninc int
}

type ver struct {
	data  []byte
	maybe bool // may or may not be on the device (in flight or failed)
	sync  bool // covered by a completed sync
}

func newModel() *Model {
	return &Model{states: []*State{{m: map[uint64]Cell{}, Note: "empty"}}, vers: map[int][]*ver{}}
}

func (m *Model) cur() *State { return m.states[len(m.states)-1] }

func (m *Model) newVal(embed bool, data []byte) *Val {
	m.ninc++
	v := &Val{Inc: m.ninc, Embed: embed, Data: data, Blocks: dataBlocks(len(data))}
	if !embed {
		m.vers[v.Inc] = []*ver{{data: data}}
	}
	return v
}

func (m *Model) push(note string, upd map[uint64]Cell) {
	m.states = append(m.states, m.cur().with(note, upd))
}

// replace changes the current state without a new journal position (in-place
// updates): every state that holds the incarnation now shows the new bytes.
func (m *Model) inplace(id uint64, v *Val, data []byte, maybe bool) *Val {
	nv := &Val{Inc: v.Inc, Data: data, Blocks: v.Blocks}
	m.vers[v.Inc] = append(m.vers[v.Inc], &ver{data: data, maybe: maybe})
	if !maybe {
		s := m.cur().with(m.cur().Note, map[uint64]Cell{id: {nv}})
		m.states[len(m.states)-1] = s
	}
	return nv
}

func (m *Model) didFlush() { m.flushed = len(m.states) - 1 }
func (m *Model) didSync() {
	m.flushed = len(m.states) - 1
	m.synced = m.flushed
	for inc, vs := range m.vers {
		// everything before the newest definite version is history
		last := 0
		for i, v := range vs {
			if !v.maybe {
				last = i
			}
		}
		vs = vs[last:]
		vs[0].sync = true
		m.vers[inc] = vs
	}
	m.trim()
}

func (m *Model) trim() {
	if m.synced > 0 {
		m.states = m.states[m.synced:]
		m.flushed -= m.synced
		m.synced = 0
	}
	if len(m.vers) > 400 {
		keep := map[int]bool{}
		for _, s := range m.states {
			for _, c := range s.m {
				for _, v := range c {
					if v != nil {
						keep[v.Inc] = true
					}
				}
			}
		}
		for inc := range m.vers {
			if !keep[inc] {
				delete(m.vers, inc)
			}
		}
	}
}

// Got is one lump read back after recovery.
type Got struct {
	Embed  bool
	Data   []byte
	Err    error
	Size   uint32
	Blocks int
}

// matchVal decides whether what was read is acceptable for value v of state k.
func (m *Model) matchVal(v *Val, g *Got, power bool) string {
	if v.Embed != g.Embed {
		return fmt.Sprintf("kind differs: expected %v", v)
	}
	if v.Loose {
		return ""
	}
	if v.Embed {
		if g.Err != nil {
			return fmt.Sprintf("read failed: %v", g.Err)
		}
		if !bytes.Equal(v.Data, g.Data) {
			return fmt.Sprintf("embedded bytes differ, expected %v, read len %d", v, len(g.Data))
		}
		return ""
	}
	if g.Blocks != v.Blocks {
		return fmt.Sprintf("occupies %d blocks instead of %d", g.Blocks, v.Blocks)
	}
	vs := m.vers[v.Inc]
	if len(vs) == 0 {
		vs = []*ver{{data: v.Data}}
	}
	if power && !vs[0].sync {
		return "" // data never covered by a sync
	}
	if g.Err != nil {
		return fmt.Sprintf("read failed: %v", g.Err)
	}
	lo := 0
	if !power {
		for i, x := range vs {
			if !x.maybe {
				lo = i
			}
		}
	}
	if len(g.Data) != len(vs[lo].data) {
		return fmt.Sprintf("length %d instead of %d", len(g.Data), len(vs[lo].data))
	}
	for b := 0; b < len(g.Data); b += blk {
		e := b + blk
		if e > len(g.Data) {
			e = len(g.Data)
		}
		ok := false
		for _, x := range vs[lo:] {
			if len(x.data) == len(g.Data) && bytes.Equal(x.data[b:e], g.Data[b:e]) {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("bytes %d..%d are none the lump had", b, e)
		}
	}
	return ""
}

// match finds the newest acceptable state for what recovery shows.
func (m *Model) match(got map[uint64]*Got, power bool, extra []*State) (*State, int, string) {
	lo := m.flushed
	if power {
		lo = m.synced
	}
	var why string
	best := math.MaxInt
	try := func(s *State) string {
		first := ""
		n := 0
		bad := func(f string, a ...any) {
			n++
			if first == "" {
				first = fmt.Sprintf(f, a...)
			}
		}
		for id := range got {
			if _, ok := s.m[id]; !ok {
				bad("lump %x is present", id)
			}
		}
		for _, id := range s.ids() {
			c := s.m[id]
			g := got[id]
			if g == nil {
				if !c.absentOK() {
					bad("lump %x (%v) is missing", id, c[0])
				}
				continue
			}
			msg := "only absence is acceptable"
			for _, v := range c {
				if v == nil {
					continue
				}
				if msg = m.matchVal(v, g, power); msg == "" {
					break
				}
			}
			if msg != "" {
				bad("lump %x: %s", id, msg)
			}
		}
		if env("V") != "" {
			fmt.Fprintf(os.Stderr, "  candidate %q: %d mismatches, %s\n", s.Note, n, first)
		}
		if n > 0 && n < best {
			best = n
			why = first
		}
		return first
	}
	for i := len(extra) - 1; i >= 0; i-- {
		if try(extra[i]) == "" {
			return extra[i], len(m.states), ""
		}
	}
	for k := len(m.states) - 1; k >= lo; k-- {
		if try(m.states[k]) == "" {
			return m.states[k], k, ""
		}
	}
	// would an older, already durable state explain it?
	for k := lo - 1; k >= 0; k-- {
		w := why
		if try(m.states[k]) == "" {
			return nil, -1, fmt.Sprintf("recovered an older state than the last flush or sync guarantees (after %q, guaranteed %q)", m.states[k].Note, m.states[lo].Note)
		}
		why = w
	}
	return nil, -1, fmt.Sprintf("no prefix of the history explains the recovered content (%d candidates); closest: %s", len(m.states)-lo+len(extra), why)
}

// adopt makes the recovered state the current one.
func (m *Model) adopt(s *State, k int, got map[uint64]*Got, power bool) {
	upd := map[uint64]Cell{}
	for id, c := range s.m {
		g := got[id]
		if g == nil {
			upd[id] = nil
			continue
		}
		var pick *Val
		for _, v := range c {
			if v != nil && m.matchVal(v, g, power) == "" {
				pick = v
				break
			}
		}
		if pick == nil {
			continue
		}
		nv := pick
		if !pick.Embed {
			nv = &Val{Inc: pick.Inc, Data: g.Data, Blocks: g.Blocks, Loose: g.Err != nil || pick.Loose}
			if power && !nv.Loose {
				// never synced: what lies there, maybe beyond the end of the
				// file, need not stay what it is
				nv.Loose = true
				for i, x := range m.vers[pick.Inc] {
					if i == 0 && x.sync || bytes.Equal(x.data, g.Data) {
						nv.Loose = false
					}
				}
			}
			if power {
				m.vers[pick.Inc] = []*ver{{data: g.Data, sync: true}}
			} else {
				vs := m.vers[pick.Inc]
				if len(vs) > 0 && !bytes.Equal(vs[len(vs)-1].data, g.Data) {
					vs = append(vs, &ver{data: g.Data})
				}
				if len(vs) > 0 {
					vs[len(vs)-1].maybe = false
				}
				m.vers[pick.Inc] = vs
			}
		}
		upd[id] = Cell{nv}
	}
	ns := s.with("recovered: "+s.Note, upd)
	if power {
		m.states = []*State{ns}
		m.flushed, m.synced = 0, 0
		return
	}
	if k >= len(m.states) {
		m.states = append(m.states, ns)
	} else {
		m.states = append(m.states[:k:k], ns)
	}
	m.flushed = len(m.states) - 1
	if m.synced > m.flushed {
		m.synced = m.flushed
	}
}

// pattern is the content of a put: unique per data seed, self-describing.
func pattern(seed uint64, n int) []byte {
	b := make([]byte, n)
	fillPattern(b, seed)
	return b
}

func fillPattern(b []byte, seed uint64) {
	x := rt.Mix(seed)
	i := 0
	for ; i+8 <= len(b); i += 8 {
		x += 0x9e3779b97f4a7c15
		z := (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		z ^= z >> 27
		b[i], b[i+1], b[i+2], b[i+3] = byte(z), byte(z>>8), byte(z>>16), byte(z>>24)
		b[i+4], b[i+5], b[i+6], b[i+7] = byte(z>>32), byte(z>>40), byte(z>>48), byte(z>>56)
	}
	for ; i < len(b); i++ {
		x = rt.Mix(x)
		b[i] = byte(x)
	}
}
