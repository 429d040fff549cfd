// Package rand replaces math/rand with explorer-chosen numbers.
package rand

import (
	"math/rand"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

func New(s Source) *Rand       { return rand.New(s) }
func NewSource(s int64) Source { return rand.NewSource(s) }
func Seed(int64)               {}
func Uint32() uint32           { return 0x5eed }
func Uint64() uint64           { return 0x5eed }
func Int() int                 { return 0x5eed }
func Int63() int64             { return 0x5eed }
func Int31() int32             { return 0x5eed }
func Float64() float64         { return 0 }
func Intn(n int) int           { return int(vs.Rand(uint64(n))) }
func Int31n(n int32) int32     { return int32(vs.Rand(uint64(n))) }
func Int63n(n int64) int64     { return int64(vs.Rand(uint64(n))) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		if j := i - int(vs.Rand(uint64(i+1))); j != i {
			swap(i, j)
		}
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
