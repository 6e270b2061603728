// Package rand is math/rand/v2 seeded by the simulation.
package rand

import (
	std "math/rand/v2"

	"github.com/iomz/gosstrak/verif/simrt"
)

var (
	cur   *std.Rand
	epoch uint64
)

func r() *std.Rand {
	if cur == nil || epoch != simrt.Epoch() {
		epoch = simrt.Epoch()
		cur = std.New(std.NewPCG(uint64(simrt.Choose(1<<30)), 1))
	}
	return cur
}

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(r().Uint64N(uint64(n)))
}
func Int() int                           { return r().Int() }
func IntN(n int) int                     { return r().IntN(n) }
func Int32() int32                       { return r().Int32() }
func Int32N(n int32) int32               { return r().Int32N(n) }
func Int64() int64                       { return r().Int64() }
func Int64N(n int64) int64               { return r().Int64N(n) }
func Uint() uint                         { return r().Uint() }
func UintN(n uint) uint                  { return r().UintN(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint32N(n uint32) uint32            { return r().Uint32N(n) }
func Uint64() uint64                     { return r().Uint64() }
func Uint64N(n uint64) uint64            { return r().Uint64N(n) }
func Float32() float32                   { return r().Float32() }
func Float64() float64                   { return r().Float64() }
func NormFloat64() float64               { return r().NormFloat64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
