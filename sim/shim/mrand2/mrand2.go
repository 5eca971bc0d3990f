// Package mrand2 draws from the seed of the run.
package mrand2

import (
	rrand "math/rand/v2"

	"vsim/world"
)

type src struct{}

func (src) Uint64() uint64 {
	w := world.W
	w.NRand++
	return w.Rand("mathrand", w.NRand).U64()
}

var r = rrand.New(src{})

func Int() int                           { return r.Int() }
func IntN(n int) int                     { return r.IntN(n) }
func Int64() int64                       { return r.Int64() }
func Int64N(n int64) int64               { return r.Int64N(n) }
func Int32() int32                       { return r.Int32() }
func Int32N(n int32) int32               { return r.Int32N(n) }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Float64() float64                   { return r.Float64() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
