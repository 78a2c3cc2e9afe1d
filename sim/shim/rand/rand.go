// Package rand replaces math/rand in the repository's code: the top-level
// functions draw from the run's seed.
package rand

import (
	realrand "math/rand"

	"verif.local/sim/rt"
)

type (
	Rand     = realrand.Rand
	Source   = realrand.Source
	Source64 = realrand.Source64
	Zipf     = realrand.Zipf
)

var (
	New       = realrand.New
	NewSource = realrand.NewSource
	NewZipf   = realrand.NewZipf
)

type src struct{}

func (src) Uint64() uint64 { b := rt.UUIDBytes(); var v uint64; for i := 0; i < 8; i++ { v = v<<8 | uint64(b[i]) }; return v }
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (src) Seed(int64)     {}

var g = realrand.New(src{})

func Seed(int64)                          {}
func Int() int                            { return g.Int() }
func Intn(n int) int                      { return g.Intn(n) }
func Int31() int32                        { return g.Int31() }
func Int31n(n int32) int32                { return g.Int31n(n) }
func Int63() int64                        { return g.Int63() }
func Int63n(n int64) int64                { return g.Int63n(n) }
func Uint32() uint32                      { return g.Uint32() }
func Uint64() uint64                      { return g.Uint64() }
func Float64() float64                    { return g.Float64() }
func Float32() float32                    { return g.Float32() }
func Perm(n int) []int                    { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))  { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)          { return g.Read(p) }
