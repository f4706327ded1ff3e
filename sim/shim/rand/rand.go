// Package rand is what instrumented code gets for "math/rand".
package rand

import (
	real "math/rand"

	"vsim/rt"
)

type src struct{}

func (src) Int63() int64   { return int64(rt.Random() >> 1) }
func (src) Uint64() uint64 { return rt.Random() }
func (src) Seed(int64)     {}

var g = real.New(src{})

func Seed(int64)                      {}
func Int() int                        { return g.Int() }
func Intn(n int) int                  { return g.Intn(n) }
func Int31() int32                    { return g.Int31() }
func Int31n(n int32) int32            { return g.Int31n(n) }
func Int63() int64                    { return g.Int63() }
func Int63n(n int64) int64            { return g.Int63n(n) }
func Uint32() uint32                  { return g.Uint32() }
func Uint64() uint64                  { return g.Uint64() }
func Float32() float32                { return g.Float32() }
func Float64() float64                { return g.Float64() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
func Read(b []byte) (int, error)      { return g.Read(b) }
