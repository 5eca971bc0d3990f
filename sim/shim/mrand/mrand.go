// Package mrand draws from the seed of the run.
package mrand

import (
	rrand "math/rand"

	"vsim/world"
)

type src struct{}

func (src) Uint64() uint64 {
	w := world.W
	w.NRand++
	return w.Rand("mathrand", w.NRand).U64()
}
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (src) Seed(int64)     {}

var r = rrand.New(src{})

func Seed(int64)                         {}
func Int() int                           { return r.Int() }
func Intn(n int) int                     { return r.Intn(n) }
func Int63() int64                       { return r.Int63() }
func Int63n(n int64) int64               { return r.Int63n(n) }
func Int31() int32                       { return r.Int31() }
func Int31n(n int32) int32               { return r.Int31n(n) }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Float64() float64                   { return r.Float64() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
