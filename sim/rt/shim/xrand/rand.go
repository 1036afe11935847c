// Package rand is the simulated counterpart of math/rand: random numbers are drawn by the simulator.
package rand

import (
	"math/rand"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.Draw(0) >> 1) }
func (src) Uint64() uint64 { return simrt.Draw(0) }
func (src) Seed(int64)     {}

var std = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewSource(seed int64) Source        { return rand.NewSource(seed) }
func Seed(int64)                         {}
func Int() int                           { return std.Int() }
func Intn(n int) int                     { return std.Intn(n) }
func Int31() int32                       { return std.Int31() }
func Int31n(n int32) int32               { return std.Int31n(n) }
func Int63() int64                       { return std.Int63() }
func Int63n(n int64) int64               { return std.Int63n(n) }
func Uint32() uint32                     { return std.Uint32() }
func Uint64() uint64                     { return std.Uint64() }
func Float64() float64                   { return std.Float64() }
func Float32() float32                   { return std.Float32() }
func Perm(n int) []int                   { return std.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { std.Shuffle(n, swap) }
func NormFloat64() float64               { return std.NormFloat64() }
func ExpFloat64() float64                { return std.ExpFloat64() }
