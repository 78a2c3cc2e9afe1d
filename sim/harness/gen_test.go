package harness

import (
	"math"
	"strings"

	"verif.local/sim/rt"
)

// profile steers the generator of sequential runs for one property.
type profile struct {
	w       map[string]int // base weight of each operation
	rings   []int
	blocks  []int
	crash   float64 // probability that the run has crash faults
	power   float64
	torn    float64 // journal writes tear
	io      float64
	track   bool
	gcOff   float64 // probability that automatic collection starts off
	long    float64 // probability of a long run
	live8   bool    // keep the live records within an eighth of the ring
	ranged  bool
	edgeIDs float64
	kinds   []string // I/O fault kinds
	ops     [2]int
}

var baseW = map[string]int{"put": 20, "embed": 10, "del": 10, "delr": 2, "get": 6, "upd": 4, "getoff": 4, "sync": 3, "flush": 2,
	"gc": 1, "side": 3, "reopen": 1, "list": 1, "lrange": 1, "min": 1, "max": 1, "first": 1, "gen": 1, "count": 1, "size": 1,
	"wrec": 1, "agc": 0, "audit": 1, "putmax": 0, "putover": 0, "delall": 0, "crash": 0, "power": 0, "openbad": 0, "snapc": 4, "snapd": 2, "snapr": 2}

func weights(kv map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range baseW {
		m[k] = v
	}
	for k, v := range kv {
		m[k] = v
	}
	return m
}

var smallRings = []int{1536, 2048, 2560, 3072, 4096, 4096, 6144, 8192, 16384}
var someBlocks = []int{6, 12, 20, 40, 80, 200, 700}

var profiles = map[string]*profile{
	"C01": {w: weights(map[string]int{"crash": 2, "flush": 4, "sync": 3, "upd": 6, "delr": 3, "agc": 1}), crash: 0.85, gcOff: 0.15, long: 0.15},
	"C02": {w: weights(map[string]int{"power": 2, "flush": 2, "sync": 5, "upd": 4, "delr": 3, "side": 6, "agc": 1}), power: 0.9, track: true, gcOff: 0.15, long: 0.15},
	"C03": {w: weights(map[string]int{"reopen": 6, "delr": 3, "gc": 2, "agc": 1, "audit": 2}), gcOff: 0.25, long: 0.25},
	"C04": {w: weights(map[string]int{"gc": 5, "side": 12, "embed": 14, "delr": 4, "reopen": 2, "agc": 2, "crash": 1, "wrec": 3, "upd": 1, "getoff": 1}), crash: 0.5, gcOff: 0.3, long: 0.4,
		rings: []int{1536, 2048, 2048, 2560, 3072, 4096, 6144, 8192}},
	"C05": {w: weights(map[string]int{"gc": 2, "side": 4, "embed": 14, "del": 12, "reopen": 1, "upd": 0, "getoff": 0, "get": 2}), long: 0.8, live8: true,
		rings: []int{3072, 4096, 8192, 16384}},
	"C08": {w: weights(map[string]int{"put": 30, "putmax": 4, "putover": 3, "delall": 1, "del": 14, "delr": 3, "embed": 4, "crash": 1, "audit": 3, "reopen": 2, "sync": 4}), crash: 0.3, gcOff: 0.1, long: 0.2,
		blocks: []int{3, 6, 12, 20, 40, 80, 200}},
	"C09": {w: weights(map[string]int{"put": 25, "embed": 25, "putover": 3, "upd": 8, "del": 8, "delr": 3, "agc": 3, "crash": 1, "power": 0, "reopen": 2}), crash: 0.3, gcOff: 0.6, long: 0.1,
		rings: []int{1536, 1536, 2048, 2560, 3072}, blocks: []int{3, 6, 12, 20, 40}},
	"C10": {w: weights(map[string]int{"sync": 4, "flush": 3, "upd": 6, "getoff": 6, "get": 10, "reopen": 2, "power": 1, "crash": 1, "openbad": 1, "side": 5}), io: 1, crash: 0.2, power: 0.2, track: true, gcOff: 0.15, long: 0.1,
		kinds: []string{"eread", "ewrite", "esync", "enospc", "short", "eopen"}},
	"C12": {w: weights(map[string]int{"snapc": 8, "snapd": 5, "snapr": 6, "reopen": 3, "crash": 1, "power": 1, "upd": 6, "side": 5, "getoff": 1}), crash: 0.35, power: 0.35, io: 0.3, track: true, gcOff: 0.2,
		kinds: []string{"eread", "ewrite", "esync", "enospc", "short", "eopen", "eremove", "ereaddir"}},
	"C14": {w: weights(map[string]int{"upd": 30, "getoff": 30, "put": 12, "embed": 4, "get": 6, "del": 4, "crash": 1, "reopen": 1}), crash: 0.25, ranged: true, long: 0.05},
	"C16": {w: weights(map[string]int{"damage": 3, "flush": 4, "sync": 2, "embed": 20, "delr": 3, "del": 10, "crash": 1, "agc": 1, "reopen": 1, "upd": 1}), crash: 0.4, power: 0.4, track: true, gcOff: 0.25, long: 0.2, torn: 0.6},
	"C15": {w: weights(map[string]int{"list": 8, "lrange": 8, "min": 4, "max": 4, "first": 8, "gen": 8, "count": 8, "delr": 8, "del": 12, "embed": 16, "put": 12, "wrec": 3, "crash": 1, "reopen": 2, "upd": 2, "getoff": 0}), crash: 0.25, long: 0.15, edgeIDs: 0.6},
}

type gen struct {
	r    *rt.RNG
	ids  []uint64
	p    *profile
	conf Conf
	n    uint64
	size func() int
	emb  func() int
	lens map[uint64]int // rough length last stored, to aim ranges
}

func (g *gen) d() uint64 { g.n++; return g.n<<16 | uint64(g.r.Intn(1<<16)) }

func (g *gen) id() uint64 { return g.ids[g.r.Intn(len(g.ids))] }

// near an id of the pool, for bounds
func (g *gen) near() uint64 {
	switch g.r.Intn(12) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return g.r.U64()
	}
	x := g.id()
	switch g.r.Intn(3) {
	case 0:
		if x < math.MaxUint64 {
			return x + 1
		}
	case 1:
		if x > 0 {
			return x - 1
		}
	}
	return x
}

func idPool(r *rt.RNG, n int, edge float64) []uint64 {
	var out []uint64
	style := r.Intn(6)
	if r.P(edge) {
		style = 6 + r.Intn(3)
	}
	base := r.U64()
	for i := 0; i < n; i++ {
		switch style {
		case 0, 1, 2:
			out = append(out, uint64(i))
		case 3:
			out = append(out, 1+uint64(r.Intn(1000)))
		case 4:
			out = append(out, base>>uint(r.Intn(64))+uint64(i))
		case 5:
			out = append(out, r.U64())
		case 6: // the top of the id space
			out = append(out, math.MaxUint64-uint64(r.Intn(n+2)))
		case 7: // around the sign bit and the extremes
			out = append(out, []uint64{0, 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1, 1<<63 + 1, 1 << 32, 1<<32 - 1, 1 << 40, 255, 256}[r.Intn(12)])
		case 8: // byte boundaries of the radix tree
			out = append(out, (uint64(r.Intn(3))<<uint(8*r.Intn(8)))+uint64(r.Intn(3))-1)
		}
	}
	return out
}

func pickInt(r *rt.RNG, xs []int) int { return xs[r.Intn(len(xs))] }

// sizer draws a size distribution for a run.
func sizer(r *rt.RNG, maxBlocks int) func() int {
	if maxBlocks < 1 {
		maxBlocks = 1
	}
	style := r.Intn(5)
	lim := 1 + r.Intn(maxBlocks)
	return func() int {
		s := style
		if r.Intn(5) == 0 {
			s = r.Intn(5)
		}
		switch s {
		case 0:
			return r.Intn(40)
		case 1: // block edges
			n := (1+r.Intn(lim))*blk - 2 + r.Intn(5) - 2
			return n
		case 2:
			return r.Intn(lim*blk + 1)
		case 3:
			n := (1+r.Intn(lim))*blk + r.Intn(5) - 2
			return n
		}
		return 300 + r.Intn(900)
	}
}

func genSeq(prop string, seed uint64) *Trace {
	r := rt.NewRNG(seed, "gen"+prop)
	p := profiles[prop]
	g := &gen{r: r, p: p, lens: map[uint64]int{}}
	rings, blocks := p.rings, p.blocks
	if rings == nil {
		rings = smallRings
	}
	if blocks == nil {
		blocks = someBlocks
	}
	c := Conf{Ring: pickInt(r, rings), Data: pickInt(r, blocks) * blk, Track: p.track, NoGC: r.P(p.gcOff)}
	if r.Intn(80) == 0 && !p.live8 && prop != "C16" {
		c.Ring = []int{512, 1024}[r.Intn(2)]
	}
	if r.Intn(40) == 0 && !p.live8 {
		c.Ring = 65536
	}
	nops := 20 + r.Intn(100)
	if r.P(p.long) {
		nops = 200 + r.Intn(600)
	}
	nid := 1 + r.Intn(10)
	if r.Intn(8) == 0 {
		nid = 10 + r.Intn(60)
	}
	maxB := c.Data / blk
	switch r.Intn(3) {
	case 0:
		maxB = maxB/4 + 1
	case 1:
		maxB = maxB/2 + 1
	}
	g.size = sizer(r, maxB)
	maxE := 60
	switch r.Intn(5) {
	case 0:
		maxE = 600
	case 1:
		maxE = c.Ring / 3
	case 2:
		maxE = c.Ring/8 + 1
	}
	if p.live8 {
		// live records within an eighth, all of similar size
		maxE = 30
		nid = 1 + c.Ring/8/45
		if nid > 40 {
			nid = 40
		}
		nid = 1 + r.Intn(nid)
		c.Data = (nid*3 + 10) * blk
		g.size = func() int { return r.Intn(2*blk - 2) }
		c.NoGC = false
		nops = 300 + r.Intn(1200)
		if r.Intn(3) == 0 {
			nops = 40 + r.Intn(120)
		}
	}
	g.emb = func() int {
		if r.Intn(30) == 0 && !p.live8 {
			return pickInt(r, []int{0, 1, 65535, 65536, 66000, c.Ring, c.Ring - 26, c.Ring/2 + 1})
		}
		return r.Intn(maxE + 1)
	}
	bigOf := 150
	if prop == "C08" {
		bigOf = 70
	}
	big := !p.live8 && prop != "C12" && r.Intn(bigOf) == 0
	wide, far, edge := false, false, false
	if big { // a region that holds the largest possible lump
		c.Data = (0xFFFF + 2 + r.Intn(3)) * blk
		if r.Intn(2) == 0 {
			c.Data = 40000 * blk
		}
		nops = 12
		sz := g.size
		switch r.Intn(4) {
		case 0: // several large lumps, joined again when they go
			c.Data = (66000 + r.Intn(120000)) * blk
			nops = 30
			lim := 1 << uint(12+r.Intn(5))
			nid = 3 + r.Intn(6)
			wide = true
			g.size = func() int {
				switch r.Intn(4) {
				case 0:
					return lumpMax - r.Intn(3)
				case 1:
					return sz()
				}
				return min(lumpMax, (1+r.Intn(lim))*blk+r.Intn(5)-4)
			}
		case 1, 2: // a region whose offsets need up to forty bits
			m := uint(23 + r.Intn(17))
			c.Data = (1<<m + 200 + r.Intn(3)*r.Intn(1<<m)) * blk
			if c.Ring < 4096 {
				c.Ring = 4096
			}
			nops = 40
			far = true
			if r.Intn(3) == 0 { // free runs of about the longest length that one portion holds
				c.Data = (0xFFFFFF*(1+r.Intn(3)) + r.Intn(4)) * blk
				far = r.Intn(2) == 0
				edge = true
			}
			g.size = func() int {
				if r.Intn(20) == 0 {
					return lumpMax - r.Intn(3)
				}
				return r.Intn(3000)
			}
		default:
			g.size = func() int {
				if r.Intn(2) == 0 {
					return lumpMax + r.Intn(5) - 2
				}
				return sz()
			}
		}
	}
	if prop == "C08" && !big && r.Intn(15) == 0 { // some points of the allocation map
		c.Data = (8192 + r.Intn(20000)) * blk
		g.size = sizer(r, []int{60, 900, 4000}[r.Intn(3)])
		nops = min(nops, 80)
	}
	if prop == "C12" || !big && !p.live8 && prop != "C16" && r.Intn(5) == 0 {
		c.Snaps = true
		if prop == "C12" && r.Intn(3) == 0 { // more than one region
			c.Data = (2100 + r.Intn(6000)) * blk
			g.size = sizer(r, []int{8, 60, 900}[r.Intn(3)])
			nops = min(nops, 60)
		}
	}
	g.conf = c
	g.ids = idPool(r, nid, p.edgeIDs)
	if far || !big && !p.live8 && r.Intn(6) == 0 {
		a, used := genAged(r, c, g.ids, far, g.d)
		c.Aged = a
		for _, l := range a.Lumps {
			g.lens[l.ID] = l.Len
		}
		g.ids = append(g.ids, used...)
		g.conf = c
	}
	// swarm: drop or boost operations
	var kinds []string
	var ws []int
	for _, k := range opKinds {
		w := p.w[k]
		if w == 0 || strings.HasPrefix(k, "snap") && !c.Snaps {
			continue
		}
		switch r.Intn(6) {
		case 0:
			if k != "put" && k != "embed" {
				w = 0
			}
		case 1:
			w *= 3
		case 2:
			w = w/3 + 1
		}
		if w > 0 {
			kinds, ws = append(kinds, k), append(ws, w)
		}
	}
	tr := &Trace{Property: prop, Kind: "seq", Seed: seed}
	for i := 0; i < nops; i++ {
		op := g.op(kinds[r.Pick(ws)])
		if p.live8 && (op.K == "agc" || op.K == "putmax") {
			continue
		}
		tr.Ops = append(tr.Ops, op)
	}
	if !big && !c.NoGC && (p.live8 && r.Intn(20) == 0 || !p.live8 && p.w["reopen"] > 0 && c.Ring <= 2048 && r.Intn(60) == 0) {
		// what a command line program does: open, one or a few changes, close
		per := 1 + r.Intn(3)
		few := g.ids[:1+r.Intn(min(3, len(g.ids)))]
		some := g.ids
		killed := p.live8 && r.Intn(3) == 0 // or is killed now and then
		var ops []Op
		for n := 200 + r.Intn(500); n > 0; n-- {
			for k := 1 + r.Intn(per); k > 0; k-- {
				op := g.op([]string{"put", "put", "embed", "del"}[r.Intn(4)])
				if r.Intn(10) > 0 {
					op.ID = few[r.Intn(len(few))]
				} else {
					op.ID = some[r.Intn(len(some))]
				}
				ops = append(ops, op)
			}
			end := "reopen"
			if killed && r.Intn(2) == 0 {
				end = "crash"
			} else if killed {
				end = "sync"
			}
			ops = append(ops, Op{K: end})
			if r.Intn(100) == 0 {
				ops = append(ops, Op{K: "gc"}, Op{K: "audit"})
			}
		}
		tr.Ops, nops = ops, len(ops)
		c.Audit = 0
	} else if !big && c.Aged == nil && (prop == "C05" && r.Intn(60) == 0 || prop == "C04" && r.Intn(150) == 0 || prop == "C01" && r.Intn(300) == 0) {
		// more records than one filling of the compaction queue takes
		c.Ring = 512 * (800 + r.Intn(600))
		c.Snaps = false
		c.Data = 2 * c.Ring
		g.ids = idPool(r, 2+r.Intn(60), p.edgeIDs)
		g.conf = c
		gcs := 3000 + r.Intn(15000)
		var ops []Op
		for n := c.Ring/21 + r.Intn(c.Ring/8); n > 0; n-- {
			if r.Intn(gcs) == 0 {
				ops = append(ops, Op{K: []string{"gc", "gc", "gc", "reopen", "side", "sync"}[r.Intn(6)]})
				continue
			}
			switch r.Intn(12) {
			case 0:
				ops = append(ops, g.op("put"))
			case 1:
				ops = append(ops, g.op("del"))
			default:
				ops = append(ops, Op{K: "embed", ID: g.id(), Len: r.Intn(8), D: g.d()})
			}
		}
		ops = append(ops, Op{K: "gc"}, Op{K: "reopen"}, Op{K: "audit"})
		tr.Ops, nops = ops, len(ops)
		c.Audit = 0
	} else {
		switch r.Intn(3) {
		case 0:
			c.Audit = 1 + r.Intn(10)
		case 1:
			c.Audit = 20 + r.Intn(40)
		}
	}
	if nops > 300 && c.Audit > 0 && c.Audit < 20 {
		c.Audit = 25
	}
	if big && !far && !edge {
		c.Audit = 0
	}
	if wide { // fill, free, and ask for the largest lump
		tr.Ops = nil
		for round := 1 + r.Intn(2); round > 0; round-- {
			for _, i := range g.ids {
				tr.Ops = append(tr.Ops, Op{K: "put", ID: i, Len: g.size(), D: g.d()})
			}
			for n := 2 + r.Intn(len(g.ids)*2); n > 0; n-- {
				tr.Ops = append(tr.Ops, g.op("del"))
			}
			for n := r.Intn(4); n > 0; n-- {
				tr.Ops = append(tr.Ops, g.op(kinds[r.Pick(ws)]))
			}
			tr.Ops = append(tr.Ops, Op{K: "sync"}, Op{K: "putmax", ID: g.id(), D: g.d()}, Op{K: "audit"})
		}
	}
	if r.P(p.torn) {
		c.Mode = "torn"
	}
	tr.Conf = c
	span := nops + nops/2
	add := func(kind string) *rt.Fault {
		f := &rt.Fault{Op: -1, Kind: kind, Nth: 1 + r.Intn(span)}
		if r.Intn(4) == 0 {
			f.Nth = 1 + r.Intn(20)
		}
		if c.Snaps && r.Intn(3) == 0 {
			f.Sub, f.Nth = "snapshot", 1+r.Intn(12)
		} else if r.Intn(4) == 0 {
			f.Ring, f.Nth = true, 1+r.Intn(40)
		}
		tr.Faults = append(tr.Faults, f)
		return f
	}
	when := func(f *rt.Fault) {
		f.When = []string{"before", "after"}[r.Intn(2)]
		if tr.Conf.Mode == "torn" && f.Kind == "crash" && r.Intn(2) == 0 {
			f.When = "torn"
		}
		f.Arg = r.U64()
	}
	if r.P(p.crash) {
		for n := 1 + r.Intn(4); n > 0; n-- {
			when(add("crash"))
		}
	}
	if r.P(p.power) {
		for n := 1 + r.Intn(4); n > 0; n-- {
			when(add("power"))
		}
	}
	if r.P(p.io) {
		n := 1 + r.Intn(4)
		one := r.Intn(2) == 0
		k0 := p.kinds[r.Intn(len(p.kinds))]
		for ; n > 0; n-- {
			k := k0
			if !one {
				k = p.kinds[r.Intn(len(p.kinds))]
			}
			f := add(k)
			f.Arg = uint64(r.Intn(4))
			if k == "short" && prop == "C12" { // torn journal writes are C10's
				f.Sub, f.Nth, f.Ring = "snapshot", 1+r.Intn(12), false
			}
			if k == "eremove" || k == "ereaddir" {
				f.Sub, f.Nth, f.Ring = "", 1+r.Intn(5), false
			}
			if k == "esync" || k == "eopen" {
				f.Nth, f.Ring = 1+r.Intn(12), false
			}
			if r.Intn(4) == 0 {
				f.Len = 2 + r.Intn(6)
			}
		}
	}
	if big {
		for _, f := range tr.Faults {
			f.Nth = 1 + r.Intn(12)
		}
	}
	return tr
}

var opKinds = []string{"put", "putmax", "putover", "embed", "upd", "del", "delr", "wrec", "get", "size", "getoff", "list", "lrange", "min", "max",
	"first", "gen", "count", "sync", "flush", "gc", "side", "agc", "reopen", "crash", "power", "audit", "delall", "openbad", "damage", "snapc", "snapd", "snapr"}

func (g *gen) op(k string) Op {
	r := g.r
	op := Op{K: k, D: g.d()}
	switch k {
	case "put":
		op.ID, op.Len = g.id(), g.size()
		if op.Len < 0 {
			op.Len = 0
		}
		if r.Intn(150) == 0 && !g.p.live8 {
			op.Len = lumpMax + 1 + r.Intn(600)
		}
		g.lens[op.ID] = op.Len
	case "putmax":
		op.ID = g.id()
		g.lens[op.ID] = 1000
	case "putover":
		op.ID, op.Len = g.id(), r.Intn(600)
	case "embed":
		op.ID, op.Len = g.id(), g.emb()
		g.lens[op.ID] = op.Len
	case "upd":
		op.ID = g.id()
		l := g.lens[op.ID]
		switch r.Intn(8) {
		case 0: // anything
			op.Off, op.Len, op.Res = uint32(r.Intn(4000)), r.Intn(2000), uint32(r.Intn(5000))
		case 1: // around the end
			op.Off = uint32(max(0, l-r.Intn(20)+r.Intn(4)))
			op.Len = r.Intn(24)
		case 2: // wild
			op.Off = []uint32{math.MaxUint32, math.MaxUint32 - 511, 1 << 31, lumpMax, lumpMax + 1, uint32(l)}[r.Intn(6)]
			op.Len = r.Intn(700)
			op.Res = []uint32{0, 100, math.MaxUint32, lumpMax, lumpMax + 1}[r.Intn(5)]
		default: // inside
			if l > 0 {
				op.Off = uint32(r.Intn(l))
				if r.Intn(3) == 0 {
					op.Off = op.Off / blk * blk
				}
				rest := l - int(op.Off)
				op.Len = r.Intn(rest + 1)
				if r.Intn(3) == 0 && rest > 0 {
					op.Len = min(rest, 1+r.Intn(3))
				}
				if r.Intn(5) == 0 {
					op.Len = rest
				}
			} else {
				op.Len = r.Intn(100)
			}
			op.Res = uint32(r.Intn(3000))
		}
		if g.lens[op.ID] == 0 {
			g.lens[op.ID] = max(int(op.Off)+op.Len, int(op.Res)) & 0xffff
		}
	case "getoff":
		op.ID = g.id()
		l := g.lens[op.ID]
		switch r.Intn(8) {
		case 0:
			op.Off, op.Len = uint32(r.Intn(3000)), r.Intn(3000)
		case 1:
			op.Off = uint32(max(0, l-r.Intn(20)+r.Intn(4)))
			op.Len = r.Intn(24)
		case 2:
			op.Off = []uint32{math.MaxUint32, math.MaxUint32 - 511, 1 << 31, uint32(l), uint32(l + 1)}[r.Intn(5)]
			op.S, op.N = "huge", []uint64{math.MaxUint32, 1 << 31, 600, 0, 1, math.MaxUint32 - 100}[r.Intn(6)]
		default:
			if l > 0 {
				op.Off = uint32(r.Intn(l))
				if r.Intn(3) == 0 {
					op.Off = op.Off / blk * blk
				}
				op.Len = r.Intn(l - int(op.Off) + 1)
				if r.Intn(4) == 0 {
					op.Len = l - int(op.Off)
				}
			}
		}
	case "del", "get", "size", "wrec":
		op.ID = g.id()
		if k == "del" && r.Intn(10) == 0 {
			op.ID = g.near()
		}
	case "delr":
		op.ID, op.End = g.near(), g.near()
		if r.Intn(4) != 0 && op.ID > op.End {
			op.ID, op.End = op.End, op.ID
		}
		if r.Intn(3) == 0 {
			op.ID = g.id()
			op.End = op.ID + uint64(r.Intn(3))
		}
	case "lrange":
		op.ID, op.End = g.near(), g.near()
		if r.Intn(5) != 0 && op.ID > op.End {
			op.ID, op.End = op.End, op.ID
		}
		op.N = []uint64{0, 1, 2, 3, 5, 100, math.MaxUint64}[r.Intn(7)]
	case "first":
		op.ID = g.near()
	case "side":
		op.N = []uint64{0, 1, 1, 2, 3, 8, 64, 1000}[r.Intn(8)]
	case "agc":
		op.N = uint64(r.Intn(2))
	case "reopen":
		op.N = uint64(r.Intn(3))
	case "damage":
		op.N = uint64(1 + r.Intn(6))
	case "power", "openbad":
		op.N = r.U64() >> 1
	}
	return op
}
