// Package rand replaces math/rand/v2 with explorer-chosen numbers.
package rand

import (
	"math/rand/v2"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
	PCG    = rand.PCG
)

func New(s Source) *Rand           { return rand.New(s) }
func NewPCG(a, b uint64) *rand.PCG { return rand.NewPCG(a, b) }
func Uint32() uint32               { return 0x5eed }
func Uint64() uint64               { return 0x5eed }
func Int() int                     { return 0x5eed }
func Int64() int64                 { return 0x5eed }
func Int32() int32                 { return 0x5eed }
func Float64() float64             { return 0 }
func pos[T int | int32 | int64](n T) T {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return T(vs.Rand(uint64(n)))
}
func IntN(n int) int                                                { return pos(n) }
func Int32N(n int32) int32                                          { return pos(n) }
func Int64N(n int64) int64                                          { return pos(n) }
func UintN(n uint) uint                                             { return uint(vs.Rand(uint64(n))) }
func Uint32N(n uint32) uint32                                       { return uint32(vs.Rand(uint64(n))) }
func Uint64N(n uint64) uint64                                       { return vs.Rand(n) }
func N[T ~int | ~int64 | ~int32 | ~uint | ~uint32 | ~uint64](n T) T { return T(vs.Rand(uint64(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		if j := i - int(vs.Rand(uint64(i+1))); j != i {
			swap(i, j)
		}
	}
}
