package rt

import "reflect"

// Case is one communication of a select statement.
type Case interface {
	simCase() reflect.SelectCase
	simDone(v reflect.Value, ok bool)
}

type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func Recv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) simCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RecvCase[T]) simDone(v reflect.Value, ok bool) {
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
	r.OK = ok
}

type SendCase[T any] struct {
	c chan<- T
	v T
}

func Send[T any](c chan<- T) *SendCase[T] { return &SendCase[T]{c: c} }

func (s *SendCase[T]) Set(v T) *SendCase[T] { s.v = v; return s }
func (s *SendCase[T]) simCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *SendCase[T]) simDone(v reflect.Value, ok bool) {}

var ready = reflect.SelectCase{Dir: reflect.SelectDefault}

// Select stands for a select statement: which of several ready cases is taken
// is the simulator's choice, and a death of the process ends the wait. It
// returns the index of the case, -1 for the default.
func Select(def bool, cs ...Case) int {
	s := S
	t := Cur()
	if s == nil || t == nil {
		return choose(def, nil, cs)
	}
	from := 0
	if len(cs) > 1 {
		from = int(Mix(s.Cfg.Seed^HashStr(t.Name)^s.points*0x9e37^t.nsel<<40) % uint64(len(cs)))
		t.nsel++
	}
	for k := range cs {
		i := (from + k) % len(cs)
		c, v, ok := reflect.Select([]reflect.SelectCase{cs[i].simCase(), ready})
		if c == 0 {
			cs[i].simDone(v, ok)
			P()
			return i
		}
	}
	if def {
		P()
		return -1
	}
	var dead chan struct{}
	if t.Proc != nil && !t.Crashed {
		dead = t.Proc.gone
	}
	i := choose(false, dead, cs)
	P()
	return i
}

func choose(def bool, dead chan struct{}, cs []Case) int {
	var l []reflect.SelectCase
	for _, c := range cs {
		l = append(l, c.simCase())
	}
	if def {
		l = append(l, ready)
	}
	if dead != nil {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(dead)})
	}
	i, v, ok := reflect.Select(l)
	if i >= len(cs) {
		return -1
	}
	cs[i].simDone(v, ok)
	return i
}
