// Code generated from the real package's exported names.

package rand

import zz "math/rand"

var (
	ExpFloat64 = zz.ExpFloat64
	NormFloat64 = zz.NormFloat64
)
