package signal

import (
	realos "os"
	realsig "os/signal"
	"syscall"

	"verif.local/sim/rt"
)

var Reset = func(...realos.Signal) {}
var Ignore = func(...realos.Signal) {}

func Notify(c chan<- realos.Signal, sigs ...realos.Signal) {
	t := rt.Cur()
	if t == nil || t.Proc == nil {
		realsig.Notify(c, sigs...)
		return
	}
	t.Proc.Sigs = append(t.Proc.Sigs, func(n int) {
		s := syscall.Signal(n)
		for _, x := range sigs {
			if x == realos.Signal(s) {
				select {
				case c <- s:
				default:
				}
				return
			}
		}
		if len(sigs) == 0 {
			select {
			case c <- s:
			default:
			}
		}
	})
}

func Stop(c chan<- realos.Signal) {}
