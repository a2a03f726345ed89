// Package rand replaces math/rand/v2 in instrumented code. The top-level
// functions of math/rand/v2 are seeded from operating-system entropy.
package rand

import (
	"encoding/binary"
	"math/rand/v2"

	"verif.local/sim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

type osSource struct{}

func (osSource) Uint64() uint64 {
	var b [8]byte
	simrt.OSFill(b[:])
	return binary.LittleEndian.Uint64(b[:])
}

var g = rand.New(osSource{})

func New(s Source) *Rand                               { return rand.New(s) }
func NewPCG(a, b uint64) *PCG                          { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                { return rand.NewChaCha8(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Int64() int64                                     { return g.Int64() }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Int32() int32                                     { return g.Int32() }
func Int() int                                         { return g.Int() }
func Uint() uint                                       { return g.Uint() }
func Int64N(n int64) int64                             { return g.Int64N(n) }
func Uint64N(n uint64) uint64                          { return g.Uint64N(n) }
func Int32N(n int32) int32                             { return g.Int32N(n) }
func Uint32N(n uint32) uint32                          { return g.Uint32N(n) }
func IntN(n int) int                                   { return g.IntN(n) }
func UintN(n uint) uint                                { return g.UintN(n) }
func Float64() float64                                 { return g.Float64() }
func Float32() float32                                 { return g.Float32() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { g.Shuffle(n, swap) }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
