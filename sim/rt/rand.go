package rt

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

//go:norace
func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

func (r *Rand) Bool() bool           { return r.Next()&1 == 1 }
func (r *Rand) Chance(a, b int) bool { return r.Intn(b) < a }
func (r *Rand) Range(a, b int) int   { return a + r.Intn(b-a+1) }

// Pick returns one of xs.
func Pick[T any](r *Rand, xs []T) T { return xs[r.Intn(len(xs))] }

// Fork derives an independent generator.
func (r *Rand) Fork(tag uint64) *Rand { return NewRand(r.Next() ^ tag*0x9e3779b97f4a7c15) }

// MapEntry is one entry of an instrumented range over a map.
type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the entry is still there.
func (e MapEntry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V returns the current value.
func (e MapEntry[K, V]) V() V { return e.m[e.K] }

// MapRange lists a map's entries in an order decided by the simulation's seed.
// The order is made independent of the native one by sorting on the printed
// key first.
func MapRange[M ~map[K]V, K comparable, V any](m M) []MapEntry[K, V] {
	r := make([]MapEntry[K, V], 0, len(m))
	for k := range m {
		r = append(r, MapEntry[K, V]{k, m})
	}
	sortEntries(r)
	g := NewRand(Random())
	for i := len(r) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Random draws from the run's generator for map orders, temporary names and
// the like.
//
//go:norace
func Random() uint64 {
	var x uint64 = 1
	if S != nil {
		S.mapN++
		x = S.MapSeed + S.mapN*77
	}
	r := Rand{x*0x9e3779b97f4a7c15 + 0x1234567}
	return r.Next()
}

// HashBytes is a hash of b.
func HashBytes(b []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return h
}
