package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	realhttp "net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/thesues/cannyls-go/cmd/readup_sim"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"

	"verif.local/sim/rt"
	simhttp "verif.local/sim/shim/http"
)

func init() {
	engines["http"] = runHTTP
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = nil
}

// web runs the upload server and its clients.
type web struct {
	seq
	clock    int
	srv      *rt.Proc
	srvTask  *rt.Task
	calls    []*hcall // of the current round
	all      []*hcall
	cells    map[uint64]*hcell
	vals     []string // 0: nothing
	vidx     map[string]int
	valID    map[int]*hcall // the upload of a value
	bad      *Violation
	sigint   bool
	io0      int
	snapFrom int // no snapshot that exists was made before this
	deathAt  int
	removed  map[uint64]int // when the harness removed a lump
	snapBad  bool           // nothing is known about the snapshot
	backups  map[string]bool
	refused  int
	tight    bool
	life     int  // the calls before this went to an earlier server
	lostTake bool // a take was cut off: any lump may be gone
}

// hcell is what is known of one id between rounds.
type hcell struct{ states []hstate }

// hstate: the value a client sees, and the values a crash may leave.
type hstate struct {
	mem int
	dur string // indexes, two bytes each, ascending
}

func (s hstate) may(v int) bool {
	for i := 0; i < len(s.dur); i += 2 {
		if int(s.dur[i])<<8|int(s.dur[i+1]) == v {
			return true
		}
	}
	return false
}

func vkey(v int) string { return string([]byte{byte(v >> 8), byte(v)}) }

// with is the state after an upload or removal that may not be durable yet.
func (s hstate) with(v int) hstate {
	k := vkey(v)
	for i := 0; i <= len(s.dur); i += 2 {
		if i == len(s.dur) || s.dur[i:i+2] > k {
			return hstate{v, s.dur[:i] + k + s.dur[i:]}
		}
		if s.dur[i:i+2] == k {
			break
		}
	}
	return hstate{v, s.dur}
}

func mk(v int) hstate { return hstate{v, vkey(v)} }

type hcall struct {
	n      int
	op     Op
	kind   string // put, take, get, none
	id     uint64
	auto   bool
	val    int
	inv    int
	ret    int // MaxInt: no answer
	code   int
	body   string
	placed bool // an upload without an answer: id is known nevertheless
	opt    bool // may have happened or not
	full   bool // in tight runs: seen while an overwrite was under way
}

type hresp struct {
	h      realhttp.Header
	code   int
	b      bytes.Buffer
	limit  int // -1: none; else the connection breaks after so many bytes
	n      int
	gone   chan bool
	broken bool
}

func (r *hresp) Header() realhttp.Header { return r.h }
func (r *hresp) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *hresp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	if r.broken {
		return 0, io.ErrClosedPipe
	}
	r.b.Write(b)
	r.n += len(b)
	if r.limit >= 0 && r.n > r.limit {
		r.broken = true
		select {
		case r.gone <- true:
		default:
		}
		return r.limit, io.ErrClosedPipe
	}
	return len(b), nil
}
func (r *hresp) Flush()                   {}
func (r *hresp) CloseNotify() <-chan bool { return r.gone }

// slowBody arrives in pieces.
type slowBody struct {
	b    []byte
	step int
	wait time.Duration
}

func (s *slowBody) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if s.wait > 0 {
		rt.Sleep(s.wait)
	}
	n := len(p)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}
func (s *slowBody) Close() error { return nil }

func (e *web) tick() int { e.clock++; return e.clock }

func (e *web) note2(class string, n int, f string, a ...any) {
	if e.bad == nil {
		e.bad = &Violation{Class: class, Op: n, Msg: cut(fmt.Sprintf(f, a...))}
	}
}

func (e *web) stopIfBad() {
	if e.bad != nil {
		panic(stop{e.bad})
	}
}

func runHTTP(tr *Trace) *Result {
	res := newResult()
	sim := newSim(tr)
	e := &web{cells: map[uint64]*hcell{}, vals: []string{absent}, vidx: map[string]int{}, valID: map[int]*hcall{}, backups: map[string]bool{}, removed: map[uint64]int{}}
	e.seq = seq{tr: tr, sim: sim, m: newModel(), res: res, path: "/sim/a.lusf"}
	e.tight = tr.Conf.Mode == "tight"
	nvm.DEFAULT_REGION_SHIFT = 20
	sim.Disk.Policy = func(f *rt.Fault, pend []*rt.WriteOp) []bool {
		return lossPolicy(f, pend, func(w *rt.WriteOp) bool { return w.Off >= e.ringLo && w.Off < e.ringHi })
	}
	sim.Disk.Whole = func(i *rt.Inode, off int64) bool {
		return i.Path == e.path && off >= e.ringLo && off < e.ringHi
	}
	done := false
	e.t = sim.Spawn("main", nil, true, func() {
		defer func() {
			done = true
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					res.V = s.v
				} else {
					panic(r)
				}
			}
			rt.SetPreempt(false)
		}()
		e.run()
	})
	sim.Loop(func() bool { return done })
	rt.SetPreempt(false)
	if res.V == nil && sim.Deadlock != "" {
		m := "no progress: " + sim.Deadlock
		for _, k := range e.calls {
			if k.ret == math.MaxInt {
				m += fmt.Sprintf("; request %s is not answered", k)
			}
		}
		res.V = &Violation{Class: "hang", Msg: cut(m)}
	}
	finish(res, sim, e.h)
	return res
}

func (k *hcall) String() string {
	s := k.op.K[1:]
	switch k.op.K {
	case "hput", "hget":
		s += fmt.Sprintf(" %d", k.id)
	}
	if k.op.K == "hput" || k.op.K == "hauto" {
		s += fmt.Sprintf(" (%d bytes)", k.op.Len)
	}
	return fmt.Sprintf("%d: %s", k.n, s)
}

func (e *web) intern(v string) int {
	if i, ok := e.vidx[v]; ok {
		return i
	}
	e.vals = append(e.vals, v)
	e.vidx[v] = len(e.vals) - 1
	return len(e.vals) - 1
}

func (e *web) payload(op Op) string {
	n := max(op.Len, 8) // no two uploads are equal,
	if op.N == 5 {
		n = 0 // except the empty ones
	}
	return string(pattern(e.tr.Seed^op.D*0x9e37+op.D, n))
}

func (e *web) run() {
	e.newProc()
	capacity, ratio := geometry(e.tr.Conf)
	var err error
	faults := e.sim.Disk.List
	e.sim.Disk.List = nil
	died, _ := e.call(func() {
		if e.st, err = storage.CreateCannylsStorage(e.path, capacity, ratio); err == nil {
			h := e.st.Header()
			e.ringLo = int64(h.RegionSize()) + blk
			e.ringHi = int64(h.RegionSize()) + int64(h.JournalRegionSize)
			e.st.Close()
		}
	})
	if died || err != nil {
		e.fail("create", "creating the storage failed: %v", err)
	}
	e.sim.Kill(e.proc, "exit")
	e.sim.Host0.FS.DropDead()
	rounds := 0
	for _, op := range e.tr.Ops {
		rounds = max(rounds, op.R+1)
	}
	for r := 0; r < rounds; r++ {
		e.sim.Disk.List = nil
		if e.srv == nil {
			e.start()
		}
		e.sim.Disk.List = faults
		e.round(r)
		e.sim.Disk.List = nil
		e.settle(r == rounds-1)
	}
	e.res.Ops = len(e.tr.Ops)
}

func (e *web) start() {
	e.nprocs++
	p := e.sim.NewProc(fmt.Sprintf("srv%d", e.nprocs))
	p.SilentOut = true
	p.Args = []string{"readup", "--storage", e.path}
	e.srv, e.sigint, e.life = p, false, len(e.all)
	e.srvTask = e.sim.Spawn(p.Name, p, false, func() {
		readupsim.SimReset()
		readupsim.SimMain()
		p.Exited = true
		e.sim.Kill(p, "exit")
	})
	for i := 0; p.Server == nil && !p.Dead; i++ {
		rt.Sleep(time.Millisecond)
		if i > 100000 {
			e.fail("hang", "the server does not start")
		}
	}
	e.sim.Progress()
	if p.Dead {
		e.fail("open", "the server ends while starting: %s %s", p.Why, p.PanicV)
	}
}

func (e *web) round(r int) {
	n := 0
	for _, op := range e.tr.Ops {
		if op.R == r {
			n = max(n, op.C+1)
		}
	}
	if n == 0 {
		return
	}
	left := n
	all := make(chan struct{})
	e.calls = nil
	e.sim.Disk.BeginOp(r)
	e.io0 = e.sim.Disk.FiredIO
	rt.SetPreempt(true)
	for k := 0; k < n; k++ {
		k := k
		var t *rt.Task
		t = e.sim.Spawn(fmt.Sprintf("c%d.%d", r, k), nil, true, func() {
			defer func() {
				if left--; left == 0 {
					close(all)
				}
			}()
			for i, op := range e.tr.Ops {
				if op.C == k && op.R == r {
					if e.bad != nil || e.srv.Dead {
						return
					}
					e.one(t, i, op)
				}
			}
		})
	}
	<-all
	rt.P()
	if e.sigint {
		// it ends within its time limit
		e.waitEnd(e.srv)
	}
	rt.SetPreempt(false)
	e.sim.Progress()
	e.stopIfBad()
	if e.sigint && !e.srv.Dead {
		e.fail("hang", "the server has not ended 20 s after SIGINT")
	}
}

// waitEnd waits for the end of the server after SIGINT.
func (e *web) waitEnd(p *rt.Proc) {
	for i := 0; !p.Dead && i < 2000; i++ {
		rt.Sleep(10 * time.Millisecond)
		if i%100 == 99 {
			// the first one is lost when it comes while another signal waits
			for _, f := range p.Sigs {
				f(2)
			}
		}
	}
}

func (e *web) request(op Op) (*realhttp.Request, string) {
	method, path := "GET", ""
	var body []byte
	ct := ""
	data := ""
	switch op.K {
	case "hput", "hauto":
		method = "POST"
		path = "/put/"
		if op.K == "hput" {
			path += strconv.FormatUint(op.ID, 10)
		}
		data = e.payload(op)
		field := "file"
		switch op.N {
		case 1:
			path = "/put/" + []string{"x12", "-3", "1e3", "0x10", "12/13", " 7"}[op.D%6]
		case 2:
			path = "/put/18446744073709551616"
		case 3:
			field = "fila"
		}
		var b bytes.Buffer
		const bd = "simboundarysimboundary"
		fmt.Fprintf(&b, "--%s\r\nContent-Disposition: form-data; name=\"%s\"; filename=\"f\"\r\nContent-Type: application/octet-stream\r\n\r\n", bd, field)
		b.WriteString(data)
		if op.N == 4 { // the connection breaks in the middle of the upload
			b.Truncate(b.Len() - len(data) + int(op.D%uint64(len(data)+1)))
		} else {
			fmt.Fprintf(&b, "\r\n--%s--\r\n", bd)
		}
		body = b.Bytes()
		ct = "multipart/form-data; boundary=" + bd
	case "hget":
		path = "/get/" + strconv.FormatUint(op.ID, 10)
		if op.N == 1 {
			path = "/get/" + []string{"abc", "-1", "18446744073709551616"}[op.D%3]
		}
	case "htake":
		path = "/random"
	case "husage":
		path = "/usage"
	case "halloc":
		path = "/getalloc/"
	case "hsnap":
		method, path = "POST", "/snapshot/create"
	case "hbackup":
		method, path = "POST", "/snapshot/backup"
		if op.N == 1 {
			path = "/snapshot/other"
		}
	}
	u := &url.URL{Path: path}
	req := &realhttp.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: realhttp.Header{}, Host: "sim", RemoteAddr: "10.0.0.1:1234", RequestURI: path}
	if body != nil {
		sb := &slowBody{b: body}
		if op.Off > 0 {
			sb.step, sb.wait = 1+int(op.Res), time.Duration(op.Off)*time.Millisecond
		}
		req.Body = sb
		req.ContentLength = int64(len(body))
		req.Header.Set("Content-Type", ct)
	} else {
		req.Body = realhttp.NoBody
	}
	return req, data
}

func (e *web) one(t *rt.Task, n int, op Op) {
	switch op.K {
	case "hsleep":
		rt.Sleep(time.Duration(op.N) * time.Millisecond)
		return
	case "hterm", "hint":
		sig := 15
		if op.K == "hint" {
			sig = 2
			e.sigint = true
		}
		// a signal that comes while the previous one is not looked at is lost
		rt.Sleep(time.Millisecond)
		e.trace("%d signal %d", n, sig)
		for _, f := range e.srv.Sigs {
			f(sig)
		}
		rt.P()
		return
	}
	p := e.srv
	k := &hcall{n: n, op: op, kind: "none", id: op.ID, inv: e.tick(), ret: math.MaxInt}
	req, data := e.request(op)
	switch op.K {
	case "hput", "hauto":
		k.kind, k.auto = "put", op.K == "hauto"
		k.val = e.intern(data)
		e.valID[k.val] = k
	case "hget":
		k.kind = "get"
	case "htake":
		k.kind = "take"
	}
	w := &hresp{h: realhttp.Header{}, limit: -1, gone: make(chan bool, 1)}
	if op.End > 0 { // the client goes away while it receives
		w.limit = int(op.End) - 1
	}
	e.calls = append(e.calls, k)
	e.all = append(e.all, k)
	e.trace("%s inv %d", k, k.inv)
	ok := true
	io := e.sim.Disk.FiredIO
	had := e.haveSnap()
	srv, _ := p.Server.(*simhttp.Server)
	out := e.sim.Exec(t, p, func() { ok = srv.Deliver(w, req) })
	if req.MultipartForm != nil {
		req.MultipartForm.RemoveAll()
	}
	e.sim.Progress()
	if !ok {
		k.kind, k.ret = "none", e.tick()
		e.refused++
		if !e.sigint && !p.Dead {
			e.note2("http", n, "%s is refused while the server runs", k)
		}
		return
	}
	if out.Panic != "" {
		e.note2("panic", n, "%s: %s", k, out.Panic)
	}
	if p.Dead {
		e.trace("%s is not answered", k)
		return
	}
	k.ret = e.tick()
	k.code, k.body = w.code, w.b.String()
	if k.code == 0 {
		k.code = 200
	}
	fault := e.sim.Disk.FiredIO != e.io0 || io != e.sim.Disk.FiredIO
	e.trace("%s -> %d %s ret %d", k, k.code, show(k.body), k.ret)
	e.note(fmt.Sprint(n, k.code, rt.HashStr(k.body)))
	if k.code == 500 && k.body == "" && fault {
		// the storage stopped because of a device error
		e.probe("fail-stop-handler")
		k.opt = true
		return
	}
	if k.code == 500 && k.body == "" {
		e.note2("panic", n, "the handler of %s failed without an answer", k)
		return
	}
	switch k.kind {
	case "put":
		e.putAnswer(n, k, fault)
	case "get":
		want := 200
		if op.N == 1 {
			want = 400
			k.kind = "none"
		}
		if k.code == 200 {
			if cl := w.h.Get("content-length"); cl != strconv.Itoa(len(k.body)) {
				e.note2("http", n, "%s announces %s bytes and sends %d", k, cl, len(k.body))
			}
			k.val = e.value(n, k)
		} else if k.code == 500 && want == 200 {
			k.val = 0
			if fault && !strings.Contains(k.body, "not found") && !strings.Contains(k.body, "No ") {
				k.kind = "none" // a device error
			}
		}
		if k.code != want && !(want == 200 && k.code == 500) {
			e.note2("http", n, "%s is answered with %d %s", k, k.code, show(k.body))
		}
	case "take":
		switch {
		case k.code == 200:
			if cl := w.h.Get("content-length"); cl != strconv.Itoa(len(k.body)) {
				e.note2("http", n, "%s announces %s bytes and sends %d", k, cl, len(k.body))
			}
			k.val = e.value(n, k)
		case k.code == 404:
		case fault:
			k.opt, k.val = true, -1
		default:
			e.note2("http", n, "%s is answered with %d %s", k, k.code, show(k.body))
		}
	default:
		want := 200
		switch {
		case op.K == "hbackup" && op.N == 1:
			want = 400
		case op.K == "hbackup":
			if k.code == 201 || k.code == 500 && fault { // one is running
				want = k.code
			}
		case op.K == "hsnap" && k.code == 200 && !e.backupsBefore(k):
			// no backup is there to remove a snapshot
			if had && !fault {
				e.note2("http", n, "%s is answered with 200, there was a snapshot already", k)
			}
			if !e.haveSnap() {
				e.note2("http", n, "%s is answered with 200, there is no snapshot", k)
			}
		case op.K == "hsnap" && fault:
			want = k.code
		case op.K == "hsnap" && k.code == 500: // there is one already
			if had {
				want = 500
			}
			for _, x := range e.calls {
				if x != k && (x.op.K == "hsnap" || x.op.K == "hbackup") && x.inv < k.ret {
					want = 500
				}
			}
		}
		if k.code != want {
			e.note2("http", n, "%s is answered with %d %s", k, k.code, show(k.body))
		}
		switch op.K {
		case "husage", "halloc":
			var v any
			if err := json.Unmarshal([]byte(k.body), &v); err != nil {
				e.note2("http", n, "%s: the answer is no JSON: %s", k, show(k.body))
			}
		}
	}
}

func show(b string) string {
	if len(b) <= 80 {
		return strconv.Quote(b)
	}
	return fmt.Sprintf("%d bytes", len(b))
}

// value identifies bytes that were delivered.
func (e *web) value(n int, k *hcall) int {
	v, ok := e.vidx[k.body]
	if !ok {
		e.note2("http", n, "%s delivers %d bytes that nobody uploaded (%s)", k, len(k.body), e.closest(k.body))
	}
	return v
}

func (e *web) closest(b string) string {
	best, at := 0, -1
	for i, v := range e.vals[1:] {
		c := 0
		for c < len(v) && c < len(b) && v[c] == b[c] {
			c++
		}
		if c > best {
			best, at = c, i+1
		}
	}
	if at < 0 {
		return "like none of the uploads"
	}
	return fmt.Sprintf("the first %d bytes are those of upload %s", best, e.valID[at])
}

func (e *web) putAnswer(n int, k *hcall, fault bool) {
	op := k.op
	bad := op.N >= 1 && op.N <= 4 || op.Len > lump.LUMP_MAX_SIZE
	switch {
	case bad:
		if k.code < 400 || k.code >= 500 {
			e.note2("http", n, "%s (%s) is answered with %d %s", k, []string{"too big", "no id", "id out of range", "no such field", "cut off"}[op.N], k.code, show(k.body))
		}
		k.kind = "none"
	case k.code == 200:
		var id uint64
		if _, err := fmt.Sscanf(k.body, "The ID is %d\n", &id); err != nil {
			e.note2("http", n, "%s is answered with %s", k, show(k.body))
			return
		}
		if !k.auto && id != k.id {
			e.note2("http", n, "%s is stored as %d", k, id)
		}
		k.id = id
		e.probe("http-put")
	case fault:
		k.opt = true
	case k.code == 400:
		k.kind = "none" // it had no effect
		if !e.tight {
			e.note2("http", n, "%s is rejected: %s", k, show(k.body))
		} else {
			e.probe("http-rejected")
		}
	default:
		e.note2("http", n, "%s is answered with %d %s", k, k.code, show(k.body))
	}
}

func (e *web) cell(id uint64) *hcell {
	c := e.cells[id]
	if c == nil {
		c = &hcell{states: []hstate{mk(0)}}
		e.cells[id] = c
	}
	return c
}

func (e *web) ids() []uint64 {
	var l []uint64
	for id := range e.cells {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// search finds every state an id can be in after the calls of the round.
func (e *web) search(id uint64, ks []*hcall) []hstate {
	type node struct {
		done uint64
		st   hstate
	}
	seen := map[node]bool{}
	end := map[hstate]bool{}
	var full uint64
	for i, k := range ks {
		if !k.opt {
			full |= 1 << i
		}
	}
	var rec func(n node)
	rec = func(n node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if len(seen) > 1<<20 {
			// too much happened at once
			e.probe("http-search-limit")
			panic(stop{nil})
		}
		if n.done&full == full {
			end[n.st] = true
		}
		low := math.MaxInt
		for i, k := range ks {
			if n.done>>i&1 == 0 && !k.opt && k.ret < low {
				low = k.ret
			}
		}
		for i, k := range ks {
			if n.done>>i&1 == 1 || k.inv > low {
				continue
			}
			s := n.st
			switch k.kind {
			case "put":
				if k.auto && s.mem != 0 {
					continue
				}
				if k.opt {
					s = s.with(k.val)
				} else {
					s = mk(k.val)
				}
			case "take":
				if s.mem == 0 || k.val > 0 && s.mem != k.val {
					continue
				}
				s = s.with(0)
			case "get":
				if s.mem != k.val {
					continue
				}
			case "sync":
				s = mk(s.mem)
			}
			rec(node{n.done | 1<<i, s})
		}
	}
	for _, s := range e.cell(id).states {
		rec(node{0, s})
	}
	var out []hstate
	for s := range end {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].mem != out[j].mem {
			return out[i].mem < out[j].mem
		}
		return out[i].dur < out[j].dur
	})
	return out
}

func (e *web) explain(id uint64, ks []*hcall) string {
	s := fmt.Sprintf("id %d had", id)
	for i, st := range e.cell(id).states {
		if i > 0 {
			s += " or"
		}
		s += " " + e.name(st.mem)
	}
	for _, k := range ks {
		a := "no answer"
		if k.ret != math.MaxInt {
			a = strconv.Itoa(k.code)
			if k.kind == "get" || k.kind == "take" {
				a += " " + e.name(k.val)
			}
		}
		r := "-"
		if k.ret != math.MaxInt {
			r = strconv.Itoa(k.ret)
		}
		s += fmt.Sprintf("; [%d,%s] %s: %s", k.inv, r, k, a)
	}
	return s
}

func (e *web) name(v int) string {
	if v == 0 {
		return "nothing"
	}
	if k := e.valID[v]; k != nil {
		return fmt.Sprintf("upload %d", k.n)
	}
	return "?"
}

// look asks the running server for an id.
func (e *web) look(id uint64) *hcall {
	op := Op{K: "hget", ID: id}
	n := len(e.calls)
	e.one(e.t, -1, op)
	e.stopIfBad()
	k := e.calls[n]
	e.calls = e.calls[:n]
	e.all = e.all[:len(e.all)-1]
	return k
}

// settle checks the history of the round.
func (e *web) settle(last bool) {
	p := e.srv
	fs := e.sim.Host0.FS
	why := ""
	if !p.Dead && e.sim.Disk.FiredIO != e.io0 {
		// after a device error it is started again
		e.sim.Kill(p, "crash")
	}
	if p.Dead {
		why = p.Why
		if why == "panic" {
			if e.sim.Disk.FiredIO == e.io0 {
				e.fail("panic", "%s", p.PanicV)
			}
			why = "crash" // it stopped because of a device error
			e.probe("fail-stop")
		}
	}
	e.sim.Panics = nil
	waited := why == "" && (last || rt.Mix(e.tr.Seed^uint64(e.clock))%3 == 0)
	if waited {
		e.waitBackups(p)
	}
	// an upload that is acknowledged makes durable what was before it
	fence := func(ks []*hcall, id uint64) []*hcall {
		need := false
		for _, k := range ks {
			need = need || k.kind == "take"
		}
		for _, s := range e.cell(id).states {
			need = need || len(s.dur) > 2
		}
		if !need {
			return ks
		}
		n := 0
		for i := len(e.calls) - 1; i >= 0 && n < 3; i-- {
			k := e.calls[i]
			if k.kind == "put" && !k.opt && k.ret != math.MaxInt && k.id != id {
				ks = append(ks, &hcall{n: k.n, op: k.op, kind: "sync", inv: k.inv, ret: k.ret, id: k.id, code: k.code})
				n++
			}
		}
		return ks
	}
	byID := map[uint64][]*hcall{}
	cutTakes := 0
	var early []*hcall
	for _, k := range e.calls {
		if k.ret == math.MaxInt {
			k.opt = true
		}
	}
	for _, k := range e.calls {
		if k.kind == "get" && !k.opt && k.val > 0 {
			// an upload that is not answered is seen where it went
			if e.unplaced(k.val) {
				u := e.valID[k.val]
				u.id, u.placed = k.id, true
				byID[u.id] = append(byID[u.id], u)
			}
		}
	}
	for _, k := range e.calls {
		switch k.kind {
		case "put":
			if k.opt && k.auto {
				continue // where it went is seen below
			}
			byID[k.id] = append(byID[k.id], k)
		case "get":
			if k.opt {
				continue
			}
			byID[k.id] = append(byID[k.id], k)
		case "take":
			if k.opt {
				cutTakes++
				e.lostTake = true
				continue
			}
			if k.code == 404 {
				continue
			}
			u := e.valID[k.val]
			id := u.id
			if u.auto && !u.placed && u.ret == math.MaxInt {
				// taken although its upload is not acknowledged: nobody knows from where
				early = append(early, k)
				continue
			}
			byID[id] = append(byID[id], k)
		}
	}
	for id := range byID {
		e.cell(id)
	}
	e.noneLeft()
	died := why != ""
	exact := why == "exit"
	if exact && !e.sigint {
		e.fail("panic", "the server ended by itself")
	}
	if died {
		e.probe("http-" + why)
	}
	var found map[uint64]int
	if died {
		if exact {
			// (a backup that is running ends with the process)
			if h := fs.HandlesBut(p, "_backup.lusf"); h != 0 {
				e.fail("http", "%d file handles are open after the server has ended", h)
			}
			for _, k := range e.calls {
				if k.ret == math.MaxInt {
					e.fail("http", "the server ended without answering %s", k)
				}
			}
		}
		if why == "power" || why == "crash" || why == "kill" {
			fs.DropDead()
		}
		if b := fs.LockedBy(e.path); b != nil {
			e.fail("http", "the storage is locked after the server has ended")
		}
		found = e.direct(why, byID)
		e.srv = nil
	}
	for _, k := range early {
		if u := e.valID[k.val]; u.placed {
			byID[u.id] = append(byID[u.id], k)
		}
	}
	used := 0
	var loose []uint64
	for _, id := range e.ids() {
		ks := byID[id]
		if !died {
			ks = append(ks, e.look(id))
		}
		ks = fence(ks, id)
		if len(ks) > 60 {
			e.fail("http", "harness: too many calls on one id")
		}
		states := e.search(id, ks)
		if len(states) == 0 && cutTakes > 0 {
			ks = append(ks, &hcall{n: -1, op: Op{K: "htake"}, kind: "take", ret: math.MaxInt, opt: true, val: -1})
			states = e.search(id, ks)
		}
		if len(states) == 0 {
			e.fail("http", "there is no order of the requests that explains the answers: %s", e.explain(id, ks))
		}
		if !died {
			e.cell(id).states = states
			continue
		}
		v := found[id]
		ok := func(l []hstate) bool {
			for _, s := range l {
				if exact && s.mem == v || !exact && (s.may(v) || v < 0) {
					return true
				}
			}
			return false
		}
		if !ok(states) && cutTakes > used {
			// the lump a cut off request was about to deliver
			used++
			l := append(append([]*hcall{}, ks...), &hcall{n: -1, op: Op{K: "htake"}, kind: "take", ret: math.MaxInt, opt: true, val: -1})
			states = e.search(id, l)
		}
		if !ok(states) && why == "power" && v > 0 {
			for _, k := range ks {
				if k.kind == "put" && k.opt {
					v = -1 // an earlier value, in the place of one whose data is lost
				}
			}
			for _, k := range e.calls {
				if k.kind == "put" && k.auto && k.opt {
					v = -1
				}
			}
		}
		if !ok(states) {
			how := map[string]string{"exit": "was shut down", "power": "lost power"}[why]
			if how == "" {
				how = "was killed"
			}
			e.fail("http", "after the server %s there is %s under %d; %s", how, e.name(v), id, e.explain(id, ks))
		}
		if v < 0 {
			v = 0
			loose = append(loose, id)
			e.removed[id] = e.tick()
		}
		e.cell(id).states = []hstate{mk(v)}
	}
	if len(loose) > 0 {
		e.probe("http-loose")
		e.newProc()
		e.call(func() {
			st, err := storage.OpenCannylsStorage(e.path)
			if err == nil {
				for _, id := range loose {
					st.Delete(lid(id))
				}
				st.Close()
			}
		})
		e.sim.Kill(e.proc, "exit")
		fs.DropDead()
	}
	if !died {
		e.usage()
		e.checkBackups(waited)
		if waited && !e.sigint {
			e.backupEnds(p)
		}
	}
	if died {
		e.deathAt = e.tick() // a crash may undo what was taken
		// what it was copying stays unfinished
		for p := range fs.Files {
			if strings.HasSuffix(p, "_backup.lusf") {
				e.backups[p] = true
			}
		}
	}
	if !e.haveSnap() {
		e.snapFrom, e.snapBad = e.tick(), false
	} else if died && why != "exit" {
		e.snapBad = true
	}
	h := uint64(len(why))
	for _, id := range e.ids() {
		for _, s := range e.cell(id).states {
			h = rt.Mix(h ^ id ^ uint64(s.mem)<<32)
		}
	}
	e.res.States = append(e.res.States, h)
	e.calls = nil
	if last && !died {
		// the end: a shutdown keeps exactly what is there
		e.one(e.t, -1, Op{K: "hint"})
		e.waitEnd(p)
		if !p.Dead {
			e.fail("hang", "the server has not ended 20 s after SIGINT")
		}
		e.settle(true)
	}
}

// noneLeft checks answers that say there is no lump.
func (e *web) noneLeft() {
	for _, k := range e.calls {
		if k.kind != "take" || k.code != 404 {
			continue
		}
		maybe := map[uint64]bool{}
		skip := false
		for _, x := range e.calls {
			if x.kind == "take" && x.inv < k.ret {
				if x.opt {
					skip = true
				} else if x.code == 200 {
					maybe[e.valID[x.val].id] = true
				}
			}
		}
		if skip {
			continue
		}
		for _, id := range e.ids() {
			if maybe[id] {
				continue
			}
			live := true
			for _, s := range e.cells[id].states {
				live = live && s.mem != 0
			}
			for _, x := range e.calls {
				if x.kind == "put" && !x.opt && x.id == id && x.ret < k.inv {
					live = true
				}
			}
			if live {
				e.fail("http", "%s finds nothing although there is a lump under %d", k, id)
			}
		}
	}
}

// unplaced: an unanswered upload that chooses its id, not seen anywhere yet.
func (e *web) unplaced(v int) bool {
	u := e.valID[v]
	return u.auto && u.opt && !u.placed && e.current(u)
}

func (e *web) current(u *hcall) bool {
	for _, k := range e.calls {
		if k == u {
			return true
		}
	}
	return false
}

// direct looks into the storage while no server runs.
func (e *web) direct(why string, byID map[uint64][]*hcall) map[uint64]int {
	fs := e.sim.Host0.FS
	e.newProc()
	var err error
	if died, _ := e.call(func() { e.st, err = storage.OpenCannylsStorage(e.path) }); died || err != nil {
		e.fail("open", "the storage does not open after the server ended (%s): %v %s", why, err, e.proc.PanicV)
	}
	found := map[uint64]int{}
	loose := []uint64{}
	var bad string
	died, _ := e.call(func() {
		for _, x := range e.st.List() {
			id := x.U64()
			b, err := e.st.Get(x)
			pending := false
			for _, k := range byID[id] {
				pending = pending || k.kind == "put" && k.opt
			}
			for _, k := range e.calls {
				pending = pending || k.kind == "put" && k.auto && k.opt
			}
			if err != nil {
				if pending && why == "power" {
					loose = append(loose, id)
					found[id] = -1
					continue
				}
				bad = fmt.Sprintf("lump %d cannot be read: %v", id, err)
				return
			}
			v, ok := e.vidx[string(b)]
			if ok && pending && why == "power" && !e.unplaced(v) {
				if e.valID[v].id != id || e.cells[id] == nil {
					ok = false // the record of an upload that was not acknowledged, without its data
				}
			}
			if !ok {
				if pending && why == "power" {
					loose = append(loose, id)
					found[id] = -1
					continue
				}
				bad = fmt.Sprintf("lump %d has %d bytes that nobody uploaded (%s)", id, len(b), e.closest(string(b)))
				return
			}
			found[id] = v
			if e.unplaced(v) {
				u := e.valID[v]
				u.id, u.placed = id, true
				byID[id] = append(byID[id], u)
				e.cell(id)
			} else if e.cells[id] == nil {
				bad = fmt.Sprintf("there is %s under %d, nobody put it there", e.name(v), id)
				return
			}
		}
		for _, id := range loose {
			e.cell(id)
		}
		e.st.Close()
	})
	e.st = nil
	if died {
		e.fail("panic", "%s", e.proc.PanicV)
	}
	if bad != "" {
		e.fail("http", "after the server ended (%s) %s", why, bad)
	}
	e.sim.Kill(e.proc, "exit")
	fs.DropDead()
	return found
}

func (e *web) usage() {
	want := 0
	for _, c := range e.cells {
		if len(c.states) != 1 {
			l := c.states[0].mem != 0
			for _, s := range c.states {
				if (s.mem != 0) != l {
					return
				}
			}
		}
		if c.states[0].mem != 0 {
			want++
		}
	}
	n := len(e.calls)
	e.one(e.t, -1, Op{K: "husage"})
	e.stopIfBad()
	k := e.calls[n]
	var u struct {
		FileCounts    *uint64
		DataCapacity  uint64
		DataFreeBytes uint64
	}
	m := map[string]any{}
	json.Unmarshal([]byte(k.body), &m)
	for key, v := range m {
		f, _ := v.(float64)
		x := uint64(f)
		switch strings.ToLower(strings.ReplaceAll(key, "_", "")) {
		case "filecounts":
			u.FileCounts = &x
		}
	}
	if u.FileCounts != nil && int(*u.FileCounts) != want {
		e.fail("http", "/usage reports %d lumps, there are %d", *u.FileCounts, want)
	}
}

func (e *web) haveSnap() bool {
	for p := range e.sim.Host0.FS.Files {
		if strings.HasSuffix(p, ".snapshot") {
			return true
		}
	}
	return false
}

func (e *web) waitBackups(p *rt.Proc) {
	any := false
	for _, k := range e.all {
		any = any || k.op.K == "hbackup"
	}
	if any {
		for i := 0; i < 20 && !p.Dead; i++ {
			rt.Sleep(time.Second)
		}
		e.sim.Progress()
		if p.Dead && p.Why == "panic" {
			e.fail("panic", "%s", p.PanicV)
		}
	}
}

// backupsBefore: was a backup asked for since the server runs?
func (e *web) backupsBefore(k *hcall) bool {
	for _, x := range e.all[e.life:] {
		if x.op.K == "hbackup" && x.op.N != 1 && x.inv < k.ret {
			return true
		}
	}
	return false
}

// backupEnds: backups have ended when nothing happened for a while.
func (e *web) backupEnds(p *rt.Proc) {
	snaps, backups := 0, 0
	for _, k := range e.all[e.life:] {
		switch {
		case k.op.K == "hsnap" && k.op.N != 1:
			snaps++
		case k.op.K == "hbackup" && k.op.N != 1 && k.code == 200:
			backups++
		}
	}
	if backups == 0 {
		return
	}
	if snaps == 0 && e.haveSnap() {
		e.fail("http", "all backups ended, and the snapshot they were made from is still there")
	}
	e.probe("backup-ends")
	n := len(e.calls)
	e.one(e.t, -1, Op{K: "hbackup"})
	e.stopIfBad()
	if k := e.calls[n]; k.code != 200 {
		e.fail("http", "nothing is going on, and %s is answered with %d %s", k, k.code, show(k.body))
	}
	e.waitBackups(p)
	e.checkBackups(true)
}

// checkBackups opens the finished backups as storages.
func (e *web) checkBackups(waited bool) {
	fs := e.sim.Host0.FS
	var names []string
	for p := range fs.Files {
		if strings.HasSuffix(p, "_backup.lusf") && !e.backups[p] {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, name := range names {
		f := fs.Files[name]
		if fs.Open(f) > 0 {
			if waited {
				e.fail("http", "the backup %s is not finished after 20 s", name)
			}
			continue // still being written
		}
		e.backups[name] = true
		e.probe("backup-finished")
		lo, hi := e.snapRange()
		if e.snapBad || lo == 0 {
			continue
		}
		if o := fs.Files[e.path]; len(o.Cur) < len(f.Cur) {
			e.fail("http", "the backup %s has %d bytes, the storage has %d", name, len(f.Cur), len(o.Cur))
		}
		copyName := "/sim/restore/" + strconv.Itoa(len(e.backups)) + ".lusf"
		fs.MkdirAll("/sim/restore")
		fs.PutFile(copyName, append([]byte(nil), f.Cur...))
		e.newProc()
		var err error
		var st *storage.Storage
		if died, _ := e.call(func() { st, err = storage.OpenCannylsStorage(copyName) }); died || err != nil {
			e.fail("http", "the backup %s (%d bytes) does not open as a storage: %v %s", name, len(f.Cur), err, e.proc.PanicV)
		}
		got := map[uint64]int{}
		var bad string
		died, _ := e.call(func() {
			for _, x := range st.List() {
				b, err := st.Get(x)
				v, ok := e.vidx[string(b)]
				if err != nil || !ok {
					bad = fmt.Sprintf("lump %d: %d bytes, error %v", x.U64(), len(b), err)
					return
				}
				got[x.U64()] = v
			}
			st.Close()
		})
		if died || bad != "" {
			e.fail("http", "the backup %s is damaged: %s %s", name, bad, e.proc.PanicV)
		}
		e.sim.Kill(e.proc, "exit")
		fs.DropDead()
		delete(fs.Files, copyName)
		e.compareBackup(name, got, lo, hi)
		e.probe("backup-checked")
	}
}

// snapRange: the instants between which the snapshot was made.
func (e *web) snapRange() (lo, hi int) {
	for _, k := range e.all {
		if (k.op.K == "hsnap" || k.op.K == "hbackup") && k.inv > e.snapFrom {
			if lo == 0 || k.inv < lo {
				lo = k.inv
			}
			if k.ret == math.MaxInt {
				return lo, e.clock
			}
			hi = max(hi, k.ret)
		}
	}
	return
}

func (e *web) compareBackup(name string, got map[uint64]int, lo, hi int) {
	for id, v := range got {
		u := e.valID[v]
		if e.vals[v] == "" {
			continue
		}
		if u.id != id && !(u.auto && u.opt) {
			e.fail("http", "the backup has %s under %d", e.name(v), id)
		}
		if u.inv > hi {
			e.fail("http", "the backup has %s, which came after the snapshot", e.name(v))
		}
		for _, k := range e.all {
			if k.kind == "take" && k.code == 200 && k.val == v && k.ret < lo && k.inv > e.deathAt {
				e.fail("http", "the backup has %s, which %s had taken before the snapshot", e.name(v), k)
			}
			if k.kind == "put" && !k.opt && k.ret != math.MaxInt && k.id == id && k.val != v && u.ret < k.inv && k.ret < lo {
				e.fail("http", "the backup has %s under %d, which %s replaced before the snapshot", e.name(v), id, k)
			}
		}
	}
	for _, k := range e.all {
		if k.kind != "put" || k.opt || k.ret >= lo {
			continue
		}
		if _, ok := got[k.id]; ok {
			continue
		}
		gone := e.lostTake || k.inv < e.removed[k.id]
		for _, x := range e.all {
			if x.kind == "take" && x.inv < hi && (x.opt || x.code == 200 && e.valID[x.val].id == k.id) {
				gone = true
			}
		}
		if !gone {
			e.fail("http", "the backup %s has nothing under %d; %s was acknowledged before the snapshot", name, k.id, k)
		}
	}
}

func genHTTP(prop string, seed uint64) *Trace {
	r := rt.NewRNG(seed, "http"+prop)
	tr := &Trace{Property: prop, Kind: "http", Seed: seed}
	c := Conf{Ring: pickInt(r, []int{32768, 32768, 65536, 131072}), Clients: 1 + r.Intn(5)}
	c.Preempt = []float64{0, 0.01, 0.03, 0.1, 0.3}[r.Intn(5)]
	c.LockSw = []float64{0.05, 0.3, 0.6, 0.9}[r.Intn(4)]
	if r.Intn(3) == 0 {
		c.Gap = []float64{2, 5, 12, 30, 80}[r.Intn(5)]
	}
	c.Latency = r.Intn(2) == 0
	g := &gen{r: r, p: &profile{}}
	ids := []uint64{0, 1, 2, 3, 7, 1 << 20, 1 << 40, math.MaxUint64 - 1, math.MaxUint64}
	n := 1 + r.Intn(4)
	pool := []uint64{}
	for ; n > 0; n-- {
		pool = append(pool, ids[r.Intn(len(ids))])
	}
	kinds := []string{"hput", "hauto", "hget", "htake", "husage", "halloc", "hsnap", "hbackup", "hsleep", "hterm", "hint"}
	ws := []int{10, 6, 8, 6, 1, 1, 2, 2, 2, 1, 0}
	for i := range ws {
		if r.Intn(4) == 0 {
			ws[i] = 0
		}
		if r.Intn(4) == 0 {
			ws[i] *= 3
		}
	}
	sigint := r.Intn(3) == 0
	if sigint {
		ws[10] = 1
	}
	if r.Intn(3) == 0 { // nothing but the data path
		for i := 4; i < 10; i++ {
			ws[i] = 0
		}
	}
	if ws[0]+ws[1] == 0 {
		ws[0], ws[1] = 5, 5
	}
	tight := r.Intn(6) == 0
	if tight {
		c.Mode = "tight"
		ws[0] = 0
		ws[1] = max(ws[1], 4)
	}
	maxLen := []int{40, 600, 3000, 20000, 70000}[r.Intn(5)]
	empty := ws[3] == 0
	rounds := 1 + r.Intn(4)
	total := 0
	for round := 0; round < rounds; round++ {
		for k := 0; k < c.Clients; k++ {
			for n := 1 + r.Intn(6); n > 0; n-- {
				op := Op{K: kinds[r.Pick(ws)], C: k, R: round, D: g.d()}
				switch op.K {
				case "hput", "hauto":
					op.Len = 8 + r.Intn(maxLen)
					if op.K == "hput" {
						op.ID = pool[r.Intn(len(pool))]
						if r.Intn(5) == 0 {
							op.N = uint64(1 + r.Intn(4))
						} else if empty && r.Intn(10) == 0 {
							op.N = 5
						}
					}
					total += (op.Len + 2 + 511) / 512 * 512
					if r.Intn(3) == 0 {
						op.Off, op.Res = uint32(1+r.Intn(40)), uint32(op.Len/4+20+r.Intn(100))
					}
				case "hget":
					op.ID = pool[r.Intn(len(pool))]
					if r.Intn(12) == 0 {
						op.N = 1
					}
					if r.Intn(12) == 0 {
						op.End = uint64(1 + r.Intn(200))
					}
				case "htake":
					if r.Intn(12) == 0 {
						op.End = uint64(1 + r.Intn(200))
					}
				case "hbackup":
					if r.Intn(8) == 0 {
						op.N = 1
					}
				case "hsleep":
					op.N = uint64([]int{1, 50, 500, 3100, 7000}[r.Intn(5)])
				}
				tr.Ops = append(tr.Ops, op)
			}
		}
	}
	c.Data = 2*total + 1<<16
	if tight {
		c.Data = max(total/(2+r.Intn(3)), 4096)
	}
	c.Data = (c.Data + 511) / 512 * 512
	if r.Intn(2) == 0 {
		kinds := []string{"crash", "crash", "power", "power", "ewrite", "esync", "eread", "eopen", "efalloc"}
		for n := 1 + r.Intn(3); n > 0; n-- {
			f := &rt.Fault{Op: r.Intn(rounds), Kind: kinds[r.Intn(len(kinds))], Nth: 1 + r.Intn(30), When: []string{"before", "after"}[r.Intn(2)], Arg: r.U64()}
			if r.Intn(2) == 0 {
				f.Nth = 1 + r.Intn(8)
			}
			if f.Kind == "power" {
				c.Track = true
			}
			if r.Intn(6) == 0 {
				f.Len = 1 + r.Intn(4)
			}
			tr.Faults = append(tr.Faults, f)
		}
	}
	tr.Conf = c
	return tr
}
