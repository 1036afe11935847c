// Package rand is the simulated counterpart of math/rand/v2: random numbers are drawn by the simulator.
package rand

import (
	"math/rand/v2"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Draw(0) }

var std = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewPCG(a, b uint64) *PCG            { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8  { return rand.NewChaCha8(seed) }
func Int() int                           { return std.Int() }
func IntN(n int) int                     { return std.IntN(n) }
func Int32() int32                       { return std.Int32() }
func Int32N(n int32) int32               { return std.Int32N(n) }
func Int64() int64                       { return std.Int64() }
func Int64N(n int64) int64               { return std.Int64N(n) }
func Uint() uint                         { return uint(std.Uint64()) }
func UintN(n uint) uint                  { return uint(std.Uint64N(uint64(n))) }
func Uint32() uint32                     { return std.Uint32() }
func Uint32N(n uint32) uint32            { return std.Uint32N(n) }
func Uint64() uint64                     { return std.Uint64() }
func Uint64N(n uint64) uint64            { return std.Uint64N(n) }
func Float64() float64                   { return std.Float64() }
func Float32() float32                   { return std.Float32() }
func NormFloat64() float64               { return std.NormFloat64() }
func ExpFloat64() float64                { return std.ExpFloat64() }
func Perm(n int) []int                   { return std.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { std.Shuffle(n, swap) }

// N draws below n.
func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(std.Uint64N(uint64(n)))
}
