package harness

import "verif.local/sim/rt"

type concProfile struct {
	w     map[string]int
	close float64
	crash float64
	power float64
	tight float64
	ids   [2]int
}

var concW = map[string]int{"put": 14, "embed": 8, "get": 16, "del": 8, "upd": 6, "getoff": 4, "size": 3, "delr": 3, "list": 3, "lrange": 2,
	"min": 1, "max": 1, "first": 2, "gen": 1, "count": 2, "sync": 4, "flush": 2, "gc": 3, "side": 6, "agc": 1, "jsnap": 1, "alloc": 1,
	"snapc": 0, "snapd": 0, "snapr": 0, "snapg": 0}

func cw(kv map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range concW {
		m[k] = v
	}
	for k, v := range kv {
		m[k] = v
	}
	return m
}

var concProfiles = map[string]*concProfile{
	"C06": {w: cw(nil), close: 0.05, crash: 0.2, power: 0.05, tight: 0.25, ids: [2]int{1, 6}},
	"C07": {w: cw(map[string]int{"snapc": 2, "snapd": 2, "snapr": 2, "snapg": 2, "jsnap": 3, "alloc": 3, "sync": 6}), close: 0.75, crash: 0.1, tight: 0.2, ids: [2]int{1, 6}},
	"C14": {w: cw(map[string]int{"upd": 40, "getoff": 20, "get": 16, "put": 8, "embed": 2, "del": 4, "delr": 1}), tight: 0.1, ids: [2]int{1, 3}},
	"C01": {w: cw(map[string]int{"flush": 6, "sync": 3, "del": 12, "delr": 4, "get": 4, "upd": 0, "size": 0, "getoff": 0}), crash: 1, tight: 0.2, ids: [2]int{2, 8}},
	"C02": {w: cw(map[string]int{"flush": 3, "sync": 8, "del": 12, "delr": 4, "get": 3, "upd": 0, "size": 0, "getoff": 0}), power: 1, tight: 0.3, ids: [2]int{2, 8}},
	"C15": {w: cw(map[string]int{"list": 14, "lrange": 10, "min": 6, "max": 6, "first": 10, "gen": 10, "count": 10, "get": 4, "upd": 1, "delr": 8}), close: 0.05, ids: [2]int{3, 10}},
	"C08": {w: cw(map[string]int{"put": 30, "upd": 10, "del": 14, "delr": 5, "sync": 6}), crash: 0.2, tight: 0.8, ids: [2]int{2, 8}},
	"C04": {w: cw(map[string]int{"gc": 14, "side": 20, "embed": 20, "put": 14, "del": 12, "delr": 5, "get": 12, "upd": 2}), crash: 0.3, ids: [2]int{2, 8}},
}

var concKinds = []string{"put", "embed", "get", "del", "upd", "getoff", "size", "delr", "list", "lrange", "min", "max", "first", "gen", "count",
	"sync", "flush", "gc", "side", "agc", "jsnap", "alloc", "snapc", "snapd", "snapr", "snapg"}

func genConc(prop string, seed uint64) *Trace {
	r := rt.NewRNG(seed, "conc"+prop)
	p := concProfiles[prop]
	c := Conf{Ring: pickInt(r, []int{1536, 2048, 2048, 3072, 4096, 8192}), NoGC: r.Intn(8) == 0, Clients: 2 + r.Intn(4)}
	c.Preempt = []float64{0, 0.002, 0.01, 0.03, 0.1, 0.3}[r.Intn(6)]
	c.LockSw = []float64{0.05, 0.15, 0.3, 0.6, 0.9}[r.Intn(5)]
	if r.Intn(3) == 0 {
		c.Gap = []float64{2, 5, 12, 30, 80, 300}[r.Intn(6)]
	}
	c.Latency = r.Intn(2) == 0
	if r.P(p.tight) {
		c.Mode = "tight"
	}
	pr := &profile{}
	g := &gen{r: r, p: pr, lens: map[uint64]int{}}
	nid := p.ids[0] + r.Intn(p.ids[1]-p.ids[0]+1)
	seen := map[uint64]bool{}
	for _, id := range idPool(r, nid, 0.3) {
		if !seen[id] {
			seen[id] = true
			g.ids = append(g.ids, id)
		}
	}
	maxB := 1 + r.Intn(4)
	g.size = sizer(r, maxB)
	maxE := 40 + r.Intn(200)
	g.emb = func() int { return r.Intn(maxE) }
	closes := r.P(p.close)
	crash, power := r.P(p.crash), r.P(p.power)
	if power {
		crash = false
		c.Track = true
	}
	var kinds []string
	var ws []int
	for _, k := range concKinds {
		w := p.w[k]
		if k == "upd" && (crash || power) {
			w = 0
		}
		if w == 0 {
			continue
		}
		switch r.Intn(6) {
		case 0, 1:
			if k != "put" && k != "get" {
				w = 0
			}
		case 2:
			w *= 3
		}
		if w > 0 {
			kinds, ws = append(kinds, k), append(ws, w)
		}
	}
	tr := &Trace{Property: prop, Kind: "conc", Seed: seed}
	blocks := 0
	one := func(cl, round int) {
		op := g.op1(kinds[r.Pick(ws)])
		op.C, op.R = cl, round
		switch op.K {
		case "put":
			op.Len %= 1 << 14
			blocks += dataBlocks(op.Len)
		case "upd":
			op.Off, op.Res, op.Len = op.Off%4000, op.Res%4000, op.Len%2000
			blocks += dataBlocks(max(int(op.Off)+op.Len, int(op.Res)))
		}
		tr.Ops = append(tr.Ops, op)
	}
	for n := r.Intn(10); n > 0; n-- {
		one(-1, 0)
	}
	rounds := 1
	if r.Intn(4) == 0 {
		rounds = 2 + r.Intn(2)
	}
	for round := 0; round < rounds; round++ {
		for cl := 0; cl < c.Clients; cl++ {
			n := 1 + r.Intn(9)
			if prop == "C06" && r.Intn(4) == 0 {
				n = 1 + r.Intn(3)
			}
			for ; n > 0; n-- {
				one(cl, round)
			}
		}
		if closes && round == rounds-1 {
			// one or two clients close in the middle of it
			for k := 1 + r.Intn(2); k > 0; k-- {
				op := Op{K: "close", C: r.Intn(c.Clients), R: round, N: uint64(r.Intn(2))}
				if k == 2 {
					op.N = 0
				}
				at := r.Intn(len(tr.Ops) + 1)
				for at > 0 && at < len(tr.Ops) && (tr.Ops[at].C < 0 || tr.Ops[at].R != round) {
					at++
				}
				tr.Ops = append(tr.Ops[:at:at], append([]Op{op}, tr.Ops[at:]...)...)
			}
			// a second Close must be harmless: reopening is only checked for a single closer
			nc := 0
			for _, op := range tr.Ops {
				if op.K == "close" {
					nc++
				}
			}
			if nc > 1 {
				for i := range tr.Ops {
					if tr.Ops[i].K == "close" {
						tr.Ops[i].N = 2
					}
				}
			}
		}
	}
	if c.Mode == "tight" {
		c.Data = (2 + r.Intn(1+nid*maxB*2)) * blk
	} else {
		c.Data = (blocks*3 + 20) * blk
	}
	tr.Conf = c
	if crash || power {
		f := &rt.Fault{Op: -1, Kind: "crash", Nth: 1 + r.Intn(30), When: []string{"before", "after"}[r.Intn(2)], Arg: r.U64()}
		if power {
			f.Kind = "power"
		}
		tr.Faults = append(tr.Faults, f)
	}
	return tr
}

func (g *gen) op1(k string) Op {
	switch k {
	case "jsnap", "alloc", "snapc", "snapd", "snapg":
		return Op{K: k, D: g.d()}
	case "snapr":
		op := Op{K: k, D: g.d(), N: uint64(1 + g.r.Intn(4)), Len: []int{100000, 5000, 512, 700}[g.r.Intn(4)]}
		op.Len = g.r.Intn(op.Len)
		if g.r.Intn(8) == 0 {
			op.N = 1 << 20
			op.Len = 1 + op.Len
		}
		if g.r.Intn(6) == 0 {
			op.End, op.Off = 1, uint32(g.r.Intn(1<<22))
		}
		return op
	}
	return g.op(k)
}

var snapW = map[string]int{"put": 16, "embed": 6, "get": 4, "del": 6, "upd": 12, "delr": 2, "list": 1, "count": 1, "sync": 3, "flush": 2, "gc": 3,
	"side": 4, "snapc": 8, "snapd": 3, "snapg": 8, "snapr": 24, "jsnap": 1}

var snapPaths = []string{"/sim/a.lusf", "/sim/a.lusf", "/sim/alusf", "/sim/lusf", "/sim/.lusf", ".lusf", "/sim/d/a.lusf", "/sim/x/../a.lusf", "/sim/[ab].lusf", "/sim/a*.lusf", "/sim/a_b.lusf", "/sim/d/e/st?re.lusf",
	"/sim/a.lusf.lusf", "/sim/a.b.lusf", "a.lusf", "./a.lusf", "/sim//a.lusf"}

// genSnap draws runs around snapshots: many small regions in one process, or
// regions of 1 MB with restarts and crashes (the smallest a storage opens).
func genSnap(prop string, seed uint64) *Trace {
	r := rt.NewRNG(seed, "snap"+prop)
	restarts := r.P(map[string]float64{"C11": 0.15, "C12": 0.8}[prop])
	c := Conf{Ring: pickInt(r, []int{1536, 2048, 3072, 4096, 8192}), NoGC: r.Intn(8) == 0, Clients: 1 + r.Intn(4)}
	if r.Intn(3) == 0 {
		c.Clients = 1
	}
	c.Path = snapPaths[r.Intn(len(snapPaths))]
	c.Files = r.Intn(2)
	c.Preempt = []float64{0, 0.002, 0.01, 0.03, 0.1, 0.3}[r.Intn(6)]
	c.LockSw = []float64{0.05, 0.15, 0.3, 0.6, 0.9}[r.Intn(5)]
	if r.Intn(3) == 0 {
		c.Gap = []float64{2, 5, 12, 30, 80, 300}[r.Intn(6)]
	}
	c.Latency = r.Intn(2) == 0
	g := &gen{r: r, p: &profile{}, lens: map[uint64]int{}}
	nid := 1 + r.Intn(7)
	seen := map[uint64]bool{}
	for _, id := range idPool(r, nid, 0.3) {
		if !seen[id] {
			seen[id] = true
			g.ids = append(g.ids, id)
		}
	}
	maxB := 1 + r.Intn(6)
	small := sizer(r, maxB)
	g.size = small
	maxE := 40 + r.Intn(200)
	g.emb = func() int { return r.Intn(maxE) }
	tr := &Trace{Property: prop, Kind: "conc", Seed: seed}
	rounds := 1 + r.Intn(3)
	kind := ""
	big := 0
	if restarts {
		c.Shift = 20
		c.Clients = 1 + r.Intn(3)
		rounds = 2 + r.Intn(3)
		big = 200<<10 + r.Intn(600<<10)
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			kind = "crash"
		case 4, 5:
			kind, c.Track, c.Clients = "power", true, 1
		case 6, 7:
			kind = []string{"ewrite", "esync", "enospc", "short", "eread"}[r.Intn(5)]
		}
		if r.Intn(6) == 0 {
			c.Ring = []int{1 << 20, 3 << 19, 1<<20 - 1024, 1<<20 + 512}[r.Intn(4)]
		}
	} else {
		c.Shift = 9 + r.Intn(5)
		if r.Intn(4) == 0 {
			c.Shift = 16
		}
	}
	if c.Clients == 1 {
		c.Preempt = 0
	}
	var kinds []string
	var ws []int
	for _, k := range concKinds {
		w := snapW[k]
		if k == "upd" && kind != "" || w == 0 {
			continue
		}
		switch r.Intn(6) {
		case 0:
			if k != "put" && k != "snapc" && k != "snapr" {
				w = 0
			}
		case 1:
			w *= 3
		}
		if w > 0 {
			kinds, ws = append(kinds, k), append(ws, w)
		}
	}
	if prop == "C12" && r.Intn(2) == 0 {
		kinds, ws = append(kinds, "snapc", "snapd"), append(ws, 14, 8)
	}
	blocks := 0
	one := func(cl, round int) {
		op := g.op1(kinds[r.Pick(ws)])
		op.C, op.R = cl, round
		switch op.K {
		case "put":
			op.Len %= 1 << 14
			if big > 0 && r.Intn(3) == 0 {
				op.Len = r.Intn(big)
			}
			blocks += dataBlocks(op.Len)
		case "upd":
			op.Off, op.Res, op.Len = op.Off%4000, op.Res%4000, op.Len%2000
			blocks += dataBlocks(max(int(op.Off)+op.Len, int(op.Res)))
		case "snapr":
			if c.Shift == 20 {
				op.Len *= 10
			}
		}
		tr.Ops = append(tr.Ops, op)
	}
	for n := r.Intn(6); n > 0; n-- {
		one(-1, 0)
	}
	for round := 0; round < rounds; round++ {
		if restarts && round > 0 && kind == "" && r.Intn(3) != 0 {
			continue
		}
		for cl := 0; cl < c.Clients; cl++ {
			for n := 1 + r.Intn(8); n > 0; n-- {
				one(cl, round)
			}
		}
		if restarts && kind == "" && r.Intn(2) == 0 {
			op := Op{K: "close", C: r.Intn(c.Clients), R: round}
			at := len(tr.Ops)
			for c.Clients > 1 && at > 0 && tr.Ops[at-1].C >= 0 && tr.Ops[at-1].R == round && r.Intn(4) != 0 {
				at--
			}
			tr.Ops = append(tr.Ops[:at:at], append([]Op{op}, tr.Ops[at:]...)...)
		}
	}
	c.Data = (blocks*2 + 20) * blk
	if restarts {
		c.Data = 512*(100+r.Intn(7000)) + blocks*blk*r.Intn(2)
		c.Data = min(c.Data, 5<<20)
		if r.Intn(8) == 0 {
			c.Data += 4 << 20
		}
		c.Mode = "tight"
	} else if r.Intn(3) == 0 {
		c.Data = (10 + r.Intn(60)) * blk
		c.Mode = "tight"
	}
	tr.Conf = c
	if kind != "" {
		nth := 1 + r.Intn(12)
		if r.Intn(3) == 0 {
			nth = 1 + r.Intn(40)
		}
		f := &rt.Fault{Op: -1, Kind: kind, Nth: nth, When: []string{"before", "after", "torn"}[r.Intn(3)], Arg: r.U64()}
		if f.When == "torn" && kind == "crash" {
			f.Arg = uint64(r.Intn(4))
		}
		if kind != "crash" && kind != "power" {
			f.Sub, f.Nth, f.Len = snapSuffix, 1+r.Intn(8), 1+r.Intn(3)
			f.Arg = uint64(r.Intn(2049))
			if r.Intn(4) == 0 {
				f.Len = 1000
			}
		}
		tr.Faults = append(tr.Faults, f)
	}
	return tr
}
