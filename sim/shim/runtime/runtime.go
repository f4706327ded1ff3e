// Package runtime is what instrumented code gets for "runtime": garbage is
// collected, and finalizers run, when the simulator says so.
package runtime

import (
	"vsim/rt"
	"vsim/vos"
)

func SetFinalizer(obj, finalizer interface{}) { vos.SetFinalizer(obj, finalizer) }

// GC is a collection somebody asked for.
func GC() { vos.Collect() }

func Gosched() { rt.Point() }

func NumCPU() int { return 4 }

func GOMAXPROCS(int) int { return 4 }
