// Package rand replaces math/rand in instrumented code: the top-level
// functions use the simulated process's generator.
package rand

import (
	"math/rand"

	"verif.local/sim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(seed int64) Source                      { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(seed int64)                                  { simrt.SeedGlobal(seed) }
func Read(p []byte) (int, error)                       { return simrt.GlobalRead(p) }
func Int63() int64                                     { return simrt.Global().Int63() }
func Uint32() uint32                                   { return simrt.Global().Uint32() }
func Uint64() uint64                                   { return simrt.Global().Uint64() }
func Int31() int32                                     { return simrt.Global().Int31() }
func Int() int                                         { return simrt.Global().Int() }
func Int63n(n int64) int64                             { return simrt.Global().Int63n(n) }
func Int31n(n int32) int32                             { return simrt.Global().Int31n(n) }
func Intn(n int) int                                   { return simrt.Global().Intn(n) }
func Float64() float64                                 { return simrt.Global().Float64() }
func Float32() float32                                 { return simrt.Global().Float32() }
func Perm(n int) []int                                 { return simrt.Global().Perm(n) }
func Shuffle(n int, swap func(i, j int))               { simrt.Global().Shuffle(n, swap) }
func NormFloat64() float64                             { return simrt.Global().NormFloat64() }
func ExpFloat64() float64                              { return simrt.Global().ExpFloat64() }
