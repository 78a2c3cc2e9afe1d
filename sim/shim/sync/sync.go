package sync

import (
	realsync "sync"

	"verif.local/sim/rt"
)

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Locker    = realsync.Locker
	Map       = realsync.Map
	Pool      = realsync.Pool
)

func NewCond(l Locker) *Cond { return rt.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
