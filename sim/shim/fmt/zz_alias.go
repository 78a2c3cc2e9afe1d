// Code generated from the real package's exported names.

package fmt

import zz "fmt"

type (
	ScanState = zz.ScanState
	Scanner = zz.Scanner
)

var (
	FormatString = zz.FormatString
)
