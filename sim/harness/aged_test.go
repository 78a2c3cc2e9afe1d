package harness

import (
	"encoding/binary"
	"hash/adler32"
	"sort"

	"github.com/thesues/cannyls-go/storage"
	"verif.local/sim/rt"
)

// Aged is the content a storage has when the run starts: what a longer history
// than a run could have left behind (holes, lumps behind offsets that are never
// reached otherwise, a ring that starts anywhere, old bytes behind its end).
type Aged struct {
	Head  int    `json:"head"`
	Fill  uint64 `json:"fill,omitempty"` // seed of the old bytes in the ring, 0: zeros
	Lumps []Pre  `json:"lumps"`
}

// Pre is one record of the prepared journal.
type Pre struct {
	ID    uint64 `json:"id"`
	K     string `json:"k"` // put, embed, del, delr
	Len   int    `json:"len,omitempty"`
	Start uint64 `json:"start,omitempty"` // first block; delr: end of the range
	Old   bool   `json:"old,omitempty"`   // put whose blocks were used again since
}

func preSize(p Pre) int {
	switch p.K {
	case "put":
		return 20
	case "embed":
		return 15 + p.Len
	case "del":
		return 13
	}
	return 21
}

func record(tag byte, body []byte) []byte {
	b := append([]byte{0, 0, 0, 0, tag}, body...)
	binary.BigEndian.PutUint32(b, adler32.Checksum(b[4:]))
	return b
}

// age writes the prepared content into the closed storage file and opens it.
func (e *seq) age(a *Aged) {
	var err error
	if died, _ := e.call(func() { e.st.Close() }); died {
		e.fail("panic", "Close of a new storage: %s", e.proc.PanicV)
	}
	ino := e.sim.Host0.FS.Files[e.path]
	ring := make([]byte, e.ringHi-e.ringLo)
	if a.Fill != 0 {
		fillPattern(ring, a.Fill)
	}
	pos, wrapped := min(a.Head, len(ring)-60), false
	start := pos
	upd := map[uint64]Cell{}
	for i, p := range a.Lumps {
		var b []byte
		id := binary.BigEndian.AppendUint64(nil, p.ID)
		switch p.K {
		case "put":
			n := dataBlocks(p.Len)
			b = binary.BigEndian.AppendUint16(id, uint16(n))
			b = append(b, byte(p.Start>>32), byte(p.Start>>24), byte(p.Start>>16), byte(p.Start>>8), byte(p.Start))
			b = record(3, b)
			if p.Old {
				break
			}
			data := pattern(e.tr.Seed^uint64(i+1)*0xa9ed, p.Len)
			v := e.m.newVal(false, data)
			upd[p.ID] = Cell{v}
			full := make([]byte, n*blk)
			copy(full, data)
			binary.BigEndian.PutUint16(full[len(full)-2:], uint16(len(full)-2-p.Len))
			ino.Install(e.dataLo+int64(p.Start)*blk, full)
		case "embed":
			data := pattern(e.tr.Seed^uint64(i+1)*0xa9ed, p.Len)
			b = binary.BigEndian.AppendUint16(id, uint16(p.Len))
			b = record(4, append(b, data...))
			upd[p.ID] = Cell{e.m.newVal(true, data)}
		case "del":
			b = record(5, id)
			delete(upd, p.ID)
		case "delr":
			b = record(6, binary.BigEndian.AppendUint64(id, p.Start))
			for k := range upd {
				if k >= p.ID && k < p.Start {
					delete(upd, k)
				}
			}
		}
		if pos+len(b)+5 > len(ring) {
			if wrapped {
				break
			}
			copy(ring[pos:], record(1, nil))
			pos, wrapped = 0, true
		}
		copy(ring[pos:], b)
		pos += len(b)
	}
	copy(ring[pos:], record(0, nil))
	head := make([]byte, blk)
	binary.BigEndian.PutUint64(head, uint64(start))
	ino.Install(e.ringLo-blk, head)
	ino.Install(e.ringLo, ring)
	e.m.push("prepared", upd)
	e.m.didSync()
	e.newProc()
	died, _ := e.call(func() { e.st, err = storage.OpenCannylsStorage(e.path) })
	if died || err != nil {
		e.fail("open", "a storage with a valid journal does not open: %v %s", err, e.proc.PanicV)
	}
	e.probe("prepared")
	e.quiet(func() { e.audit("reopen", 0) })
}

// genAged draws a prepared content for the region sizes of c. budget bounds the
// bytes of the journal records.
func genAged(r *rt.RNG, c Conf, ids []uint64, far bool, d func() uint64) (*Aged, []uint64) {
	a := &Aged{Head: r.Intn(c.Ring - 60)}
	if r.Intn(2) == 0 {
		a.Fill = d() | 1
	}
	budget := c.Ring / 8
	if !far && r.Intn(3) == 0 {
		budget = c.Ring / 3
	}
	blocks := uint64(c.Data / blk)
	var free [][2]uint64 // start, length of places for lumps
	if far {
		bases := []uint64{0, blocks - 24, blocks - 60}
		for _, b := range r.Perm(16) {
			m := []uint{23, 24, 25, 31, 32, 33, 34, 35, 36, 37, 38, 39, 23, 31, 32, 39}[b]
			x := uint64(1) << m
			if x < blocks-100 {
				bases = append(bases, x, x-3, x-uint64(r.Intn(20)))
				if len(bases) > 9 {
					break
				}
			}
		}
		for n := blocks / 0xFFFFFF; n > 0 && n < 4 && r.Intn(2) == 0; n-- {
			x := blocks - n*0xFFFFFF
			bases = append(bases, x, x+uint64(r.Intn(4)))
		}
		for _, x := range bases {
			for n := 1 + r.Intn(3); n > 0; n-- {
				l := uint64(1 + r.Intn(6))
				free = append(free, [2]uint64{x, l})
				x += l + uint64(r.Intn(8))
			}
		}
		sort.Slice(free, func(i, j int) bool { return free[i][0] < free[j][0] })
	} else {
		dense := 1 + r.Intn(6)
		for x := uint64(r.Intn(3)); x < blocks; {
			l := uint64(1 + r.Intn(4))
			if r.Intn(6) == 0 {
				l = 1 + uint64(r.Intn(int(blocks)))
			}
			if x+l > blocks {
				break
			}
			free = append(free, [2]uint64{x, l})
			x += l + uint64(r.Intn(dense))
		}
	}
	last := uint64(0)
	keep := free[:0]
	for _, f := range free {
		if f[0] >= last && f[0]+f[1] <= blocks {
			keep = append(keep, f)
			last = f[0] + f[1]
		}
	}
	free = keep
	var used []uint64
	seen := map[uint64]bool{}
	add := func(p Pre) bool {
		budget -= preSize(p)
		if budget < 0 {
			return false
		}
		a.Lumps = append(a.Lumps, p)
		return true
	}
	next := func() uint64 {
		for i := 0; i < 20; i++ {
			x := r.U64()
			if len(ids) > 0 && i < 10 {
				x = ids[r.Intn(len(ids))]
			}
			if !seen[x] {
				seen[x] = true
				return x
			}
		}
		return r.U64()
	}
	for _, k := range r.Perm(len(free)) {
		f := free[k]
		id := next()
		if r.Intn(6) == 0 { // overwritten since
			o := Pre{ID: id, K: "put", Len: 10, Start: uint64(r.Intn(int(blocks))), Old: true}
			if r.Intn(2) == 0 {
				o = Pre{ID: id, K: "embed", Len: r.Intn(20)}
			}
			if !add(o) {
				break
			}
		}
		if !add(Pre{ID: id, K: "put", Len: int(f[1])*blk - 2 - r.Intn(blk-2), Start: f[0]}) {
			break
		}
		used = append(used, id)
		if !far && r.Intn(5) == 0 {
			if !add(Pre{ID: id, K: "del"}) {
				break
			}
		}
		if r.Intn(4) == 0 {
			id := next()
			used = append(used, id)
			if !add(Pre{ID: id, K: "embed", Len: r.Intn(60)}) {
				break
			}
		}
		if !far && r.Intn(15) == 0 && id < 1<<63 {
			if !add(Pre{ID: id, K: "delr", Start: id + uint64(1+r.Intn(4))}) {
				break
			}
		}
	}
	// an overwritten lump whose new record did not fit any more
	n := len(a.Lumps)
	if n > 0 && a.Lumps[n-1].Old {
		a.Lumps = a.Lumps[:n-1]
	}
	return a, used
}
