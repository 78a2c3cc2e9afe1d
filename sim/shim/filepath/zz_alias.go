// Code generated from the real package's exported names.

package filepath

import zz "path/filepath"

const (
	ListSeparator = zz.ListSeparator
)

type (
	WalkFunc = zz.WalkFunc
)

var (
	ErrBadPattern = zz.ErrBadPattern
	SkipAll = zz.SkipAll
	SkipDir = zz.SkipDir
	HasPrefix = zz.HasPrefix
	IsLocal = zz.IsLocal
	Localize = zz.Localize
	SplitList = zz.SplitList
	VolumeName = zz.VolumeName
)
