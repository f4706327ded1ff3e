// Package rand is what instrumented code gets for "crypto/rand".
package rand

import (
	"io"
	"math/big"

	real "crypto/rand"

	"vsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rt.Random() >> 24)
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return real.Prime(r, bits) }
func Text() string {
	b := make([]byte, 26)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[rt.Random()>>20%32]
	}
	return string(b)
}
