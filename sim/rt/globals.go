package rt

import (
	"fmt"
	"sort"
)

func sortEntries[K comparable, V any](r []MapEntry[K, V]) {
	keys := make([]string, len(r))
	for i := range r {
		keys[i] = fmt.Sprintf("%v", r[i].K)
	}
	sort.Sort(&byKey[K, V]{keys, r})
}

type byKey[K comparable, V any] struct {
	k []string
	r []MapEntry[K, V]
}

func (b *byKey[K, V]) Len() int           { return len(b.r) }
func (b *byKey[K, V]) Less(i, j int) bool { return b.k[i] < b.k[j] }
func (b *byKey[K, V]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.r[i], b.r[j] = b.r[j], b.r[i]
}

// Every simulated process has its own copy of the instrumented packages'
// variables: they are swapped when the turn moves between processes, and
// initialised afresh when a process starts.

type global struct {
	save func() interface{}
	load func(interface{})
	zero func()
}

type pkgGlobals struct {
	path string
	vars []global
	init func()
}

var pkgs []*pkgGlobals
var pkgIdx = map[string]*pkgGlobals{}

func pkg(path string) *pkgGlobals {
	p := pkgIdx[path]
	if p == nil {
		p = &pkgGlobals{path: path}
		pkgIdx[path] = p
		pkgs = append(pkgs, p)
	}
	return p
}

// RegGlobal registers a package variable.
func RegGlobal[T any](path string, p *T) bool {
	g := global{
		save: func() interface{} { return gsave(p) },
		load: func(x interface{}) { gload(p, x.(*T)) },
		zero: func() { gzero(p) },
	}
	q := pkg(path)
	q.vars = append(q.vars, g)
	return true
}

//go:norace
//go:noinline
func gsave[T any](p *T) *T { v := new(T); *v = *p; return v }

//go:norace
//go:noinline
func gload[T any](p, v *T) { *p = *v }

//go:norace
//go:noinline
func gzero[T any](p *T) { var z T; *p = z }

// RegInit registers the function that runs a package's initialisers again.
func RegInit(path string, f func()) bool { pkg(path).init = f; return true }

// Globals is a saved set of package variables.
type Globals struct{ v [][]interface{} }

// SaveGlobals copies the current values.
func SaveGlobals() *Globals {
	g := &Globals{v: make([][]interface{}, len(pkgs))}
	for i, p := range pkgs {
		for _, x := range p.vars {
			g.v[i] = append(g.v[i], x.save())
		}
	}
	return g
}

// Load makes the saved values current.
func (g *Globals) Load() {
	for i, p := range pkgs {
		for j, x := range p.vars {
			x.load(g.v[i][j])
		}
	}
}

// InitGlobals initialises the variables of every registered package for which
// want holds, as a new process does. Packages were registered in dependency
// order, because Go initialises them in that order.
func InitGlobals(want func(path string) bool) {
	for _, p := range pkgs {
		for _, x := range p.vars {
			x.zero()
		}
	}
	for _, p := range pkgs {
		if p.init != nil && want(p.path) {
			p.init()
		}
	}
}
