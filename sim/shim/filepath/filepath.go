package filepath

import (
	realfp "path/filepath"

	"verif.local/sim/rt"
)

var (
	Base     = realfp.Base
	Dir      = realfp.Dir
	Join     = realfp.Join
	Clean    = realfp.Clean
	Ext      = realfp.Ext
	Match    = realfp.Match
	Split    = realfp.Split
	IsAbs    = realfp.IsAbs
	Rel      = realfp.Rel
	ToSlash  = realfp.ToSlash
	FromSlash = realfp.FromSlash
)

const Separator = realfp.Separator

func Abs(p string) (string, error)               { return rt.Abs(p), nil }
func Glob(pattern string) ([]string, error)      { return rt.Glob(pattern) }
func EvalSymlinks(p string) (string, error)      { return p, nil }
