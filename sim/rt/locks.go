package rt

import "sync"

// Mutex and RWMutex behave like their sync counterparts for managed tasks,
// with the scheduler deciding who gets them; goroutines that the simulator
// does not manage (inside third-party libraries) wait natively.
type waiter struct {
	t  *Task
	ch chan struct{}
	wr bool
}

type Mutex struct {
	mu   sync.Mutex
	held bool
	ep   uint64
	q    []waiter
	proc *Proc
}

func curEpoch() uint64 {
	if S == nil {
		return 0
	}
	return S.epoch
}

func (m *Mutex) Lock() { m.lock(true) }

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) lock(sw bool) {
	t := Cur()
	if t != nil {
		if t.Crashed {
			return
		}
		t.check()
		Sw()
		t.check()
	}
	for {
		m.mu.Lock()
		if !m.held {
			m.held = true
			m.mu.Unlock()
			return
		}
		w := waiter{t: t}
		if t == nil {
			w.ch = make(chan struct{})
		}
		m.q = append(m.q, w)
		m.mu.Unlock()
		if t == nil {
			<-w.ch
			continue
		}
		S.block(t, "mutex")
		t.check()
		if t.Crashed {
			return
		}
	}
}

func (m *Mutex) Unlock() {
	t := Cur()
	if t != nil && t.Crashed {
		return
	}
	m.mu.Lock()
	if !m.held {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	q := m.q
	m.q = nil
	m.mu.Unlock()
	wakeAll(q)
	if t != nil {
		Sw()
	}
}

func wakeAll(q []waiter) {
	for _, w := range q {
		if w.t != nil {
			S.ready(w.t)
		} else {
			close(w.ch)
		}
	}
}

type RWMutex struct {
	mu      sync.Mutex
	w       bool
	r       int
	pending int // writers waiting: new readers queue behind them
	q       []waiter
}

func (m *RWMutex) Lock() {
	t := Cur()
	if t != nil {
		if t.Crashed {
			return
		}
		t.check()
		Sw()
		t.check()
	}
	first := true
	for {
		m.mu.Lock()
		if !m.w && m.r == 0 {
			m.w = true
			if !first {
				m.pending--
			}
			m.mu.Unlock()
			return
		}
		if first {
			m.pending++
			first = false
		}
		w := waiter{t: t, wr: true}
		if t == nil {
			w.ch = make(chan struct{})
		}
		m.q = append(m.q, w)
		m.mu.Unlock()
		if t == nil {
			<-w.ch
			continue
		}
		S.block(t, "write lock")
		t.check()
		if t.Crashed {
			return
		}
	}
}

func (m *RWMutex) Unlock() {
	t := Cur()
	if t != nil && t.Crashed {
		return
	}
	m.mu.Lock()
	if !m.w {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	// readers that queued behind this writer get in before the next writer,
	// as in the real implementation
	var rq, wq []waiter
	for _, x := range m.q {
		if x.wr {
			wq = append(wq, x)
		} else {
			rq = append(rq, x)
		}
	}
	if len(rq) > 0 {
		m.r += len(rq)
		m.q = wq
		m.mu.Unlock()
		for _, x := range rq {
			if x.t != nil {
				x.t.granted = true
				S.ready(x.t)
			} else {
				close(x.ch)
			}
		}
	} else {
		m.q = nil
		m.mu.Unlock()
		wakeAll(wq)
	}
	if t != nil {
		Sw()
	}
}

func (m *RWMutex) RLock() {
	t := Cur()
	if t != nil {
		if t.Crashed {
			return
		}
		t.check()
		Sw()
		t.check()
	}
	m.mu.Lock()
	if !m.w && m.pending == 0 {
		m.r++
		m.mu.Unlock()
		return
	}
	w := waiter{t: t}
	if t == nil {
		w.ch = make(chan struct{})
	} else {
		t.granted = false
	}
	m.q = append(m.q, w)
	m.mu.Unlock()
	if t == nil {
		<-w.ch // granted by Unlock
		return
	}
	for {
		S.block(t, "read lock")
		t.check()
		if t.Crashed {
			return
		}
		if t.granted {
			t.granted = false
			return
		}
	}
}

func (m *RWMutex) RUnlock() {
	t := Cur()
	if t != nil && t.Crashed {
		return
	}
	m.mu.Lock()
	if m.r == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	var q []waiter
	if m.r == 0 {
		var keep []waiter
		for _, x := range m.q {
			if x.wr {
				q = append(q, x)
			} else {
				keep = append(keep, x)
			}
		}
		m.q = keep
	}
	m.mu.Unlock()
	wakeAll(q)
	if t != nil {
		Sw()
	}
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	mu sync.Mutex
	n  int
	q  []waiter
}

func (g *WaitGroup) Add(d int) {
	t := Cur()
	if t != nil && t.Crashed {
		return
	}
	g.mu.Lock()
	g.n += d
	if g.n < 0 {
		g.mu.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	var q []waiter
	if g.n == 0 {
		q, g.q = g.q, nil
	}
	g.mu.Unlock()
	wakeAll(q)
	if t != nil {
		Sw()
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

func (g *WaitGroup) Wait() {
	t := Cur()
	for {
		if t != nil {
			t.check()
			if t.Crashed {
				return
			}
		}
		g.mu.Lock()
		if g.n == 0 {
			g.mu.Unlock()
			return
		}
		w := waiter{t: t}
		if t == nil {
			w.ch = make(chan struct{})
		}
		g.q = append(g.q, w)
		g.mu.Unlock()
		if t == nil {
			<-w.ch
			continue
		}
		S.block(t, "wait group")
	}
}

// Once, like sync.Once, but safe when f blocks in the simulator.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond over any Locker.
type Cond struct {
	L  sync.Locker
	mu sync.Mutex
	q  []waiter
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := Cur()
	w := waiter{t: t}
	if t == nil {
		w.ch = make(chan struct{})
	} else {
		t.granted = false
	}
	c.mu.Lock()
	c.q = append(c.q, w)
	c.mu.Unlock()
	c.L.Unlock()
	if t == nil {
		<-w.ch
	} else {
		for !t.granted {
			S.block(t, "cond")
			t.check()
			if t.Crashed {
				return
			}
		}
		t.granted = false
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	var q []waiter
	if len(c.q) > 0 {
		q = c.q[:1]
		c.q = c.q[1:]
	}
	c.mu.Unlock()
	for _, w := range q {
		if w.t != nil {
			w.t.granted = true
		}
	}
	wakeAll(q)
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	q := c.q
	c.q = nil
	c.mu.Unlock()
	for _, w := range q {
		if w.t != nil {
			w.t.granted = true
		}
	}
	wakeAll(q)
}
