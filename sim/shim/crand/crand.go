// Package crand draws from the seed of the run.
package crand

import (
	rrand "crypto/rand"
	"io"
	"math/big"

	"vsim/world"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	w := world.W
	w.NRand++
	r := w.Rand("cryptorand", w.NRand)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rrand.Int(r, max) }

func Text() string {
	var b [16]byte
	Read(b[:])
	s := ""
	for _, c := range b {
		s += string("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[c%32])
	}
	return s
}
