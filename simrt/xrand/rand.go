// Package rand is math/rand seeded by the simulation.
package rand

import (
	std "math/rand"

	"github.com/iomz/gosstrak/verif/simrt"
)

var (
	cur   *std.Rand
	epoch uint64
)

func r() *std.Rand {
	if cur == nil || epoch != simrt.Epoch() {
		epoch = simrt.Epoch()
		cur = std.New(std.NewSource(int64(simrt.Choose(1 << 30))))
	}
	return cur
}

func Seed(int64)                         {}
func Int() int                           { return r().Int() }
func Intn(n int) int                     { return r().Intn(n) }
func Int31() int32                       { return r().Int31() }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Int63() int64                       { return r().Int63() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint64() uint64                     { return r().Uint64() }
func Float32() float32                   { return r().Float32() }
func Float64() float64                   { return r().Float64() }
func NormFloat64() float64               { return r().NormFloat64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return r().Read(p) }
func NewSource(seed int64) Source        { return std.NewSource(int64(simrt.Choose(1 << 30))) }
