package fmt

import (
	realfmt "fmt"
	"io"
	"os"

	"verif.local/sim/rt"
)

func Printf(f string, a ...any) (int, error) { return rt.Print(realfmt.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return rt.Print(realfmt.Sprintln(a...)) }
func Print(a ...any) (int, error)            { return rt.Print(realfmt.Sprint(a...)) }

func Sprintf(f string, a ...any) string { return realfmt.Sprintf(f, a...) }
func Errorf(f string, a ...any) error   { return realfmt.Errorf(f, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	if std(w) {
		return rt.Print(realfmt.Sprintf(f, a...))
	}
	return realfmt.Fprintf(w, f, a...)
}
func Fprint(w io.Writer, a ...any) (int, error) {
	if std(w) {
		return rt.Print(realfmt.Sprint(a...))
	}
	return realfmt.Fprint(w, a...)
}
func Fprintln(w io.Writer, a ...any) (int, error) {
	if std(w) {
		return rt.Print(realfmt.Sprintln(a...))
	}
	return realfmt.Fprintln(w, a...)
}

// std: what a simulated process prints is collected.
func std(w io.Writer) bool                      { return w == os.Stdout || w == os.Stderr }
func Sscanf(s, f string, a ...any) (int, error) { return realfmt.Sscanf(s, f, a...) }

var (
	Sprint   = realfmt.Sprint
	Sprintln = realfmt.Sprintln
	Sscan    = realfmt.Sscan
	Sscanln  = realfmt.Sscanln
	Fscan    = realfmt.Fscan
	Fscanf   = realfmt.Fscanf
	Fscanln  = realfmt.Fscanln
	Appendf  = realfmt.Appendf
	Append   = realfmt.Append
	Appendln = realfmt.Appendln
)

type (
	Stringer   = realfmt.Stringer
	GoStringer = realfmt.GoStringer
	Formatter  = realfmt.Formatter
	State      = realfmt.State
)
