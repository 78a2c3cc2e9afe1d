package rt

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
)

// Exit ends the calling simulated process.
func Exit(code int) {
	t := Cur()
	if t == nil || t.Proc == nil {
		panic("exit outside of a simulated process")
	}
	if t.Crashed {
		panic(Crash{})
	}
	t.Proc.Exited, t.Proc.Code = true, code
	S.Kill(t.Proc, "exit")
	t.check()
}

// Print collects what the process writes to its standard output.
func Print(s string) (int, error) {
	t := Cur()
	if t != nil && t.Proc != nil && !t.Proc.SilentOut && !t.Crashed {
		t.Proc.Out.WriteString(s)
	}
	return len(s), nil
}

// Glob over the simulated files.
func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	abs := strings.HasPrefix(pattern, "/")
	_, pr := curProc()
	if S == nil || pr == nil {
		return nil, nil
	}
	full := Abs(pattern)
	var out []string
	for p := range TheFS().Files {
		if ok, _ := path.Match(full, p); ok {
			r := p
			if !abs {
				r = strings.TrimPrefix(p, Abs(".")+"/")
				// keep the directory part as written in the pattern
				r = path.Join(path.Dir(pattern), path.Base(p))
			}
			out = append(out, r)
		}
	}
	sort.Strings(out)
	return out, nil
}

// UUID bytes are drawn per process and call.
func UUIDBytes() (b [16]byte) {
	t := Cur()
	if S == nil || t == nil {
		return
	}
	t.nalloc++
	a := Mix(S.Cfg.Seed ^ HashStr("uuid"+t.Name) ^ t.nalloc ^ S.uuids<<32)
	S.uuids++
	c := Mix(a)
	for i := 0; i < 8; i++ {
		b[i], b[8+i] = byte(a>>(8*i)), byte(c>>(8*i))
	}
	return
}

var Sink atomic.Uint64

var _ = fmt.Sprint

// ReadDir lists the entries directly in a directory, in name order.
func ReadDir(name string) ([]*Inode, error) {
	_, pr := curProc()
	if S == nil || pr == nil {
		return nil, syscall.ENOENT
	}
	full := Abs(name)
	if i := TheFS().Files[full]; i == nil && full != "/" || i != nil && !i.Dir {
		return nil, syscall.ENOENT
	}
	d := S.Disk
	d.ndir++
	d.tdir++
	if x := d.match(",ereaddir,", full, d.ndir, d.tdir); x != nil {
		d.fire(x)
		d.FiredIO++
		d.LastIO = full
		return nil, syscall.EIO
	}
	var out []*Inode
	for p, i := range TheFS().Files {
		if p != full && path.Dir(p) == full {
			out = append(out, i)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Path < out[b].Path })
	return out, nil
}
