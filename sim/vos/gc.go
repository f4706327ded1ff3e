package vos

import (
	"reflect"
	"runtime"
	"sync"
	"time"

	"vsim/rt"
)

// Finalizers run when the simulator says so: a collection is made at chosen
// points only (Collect), and what it finds unreachable is finalized by a task
// of its process, as the runtime's finalizer goroutine does. Without
// finalizers a collection changes nothing, and none is made.

type finalizer struct {
	p  *Proc
	fn func()
}

var (
	finMu sync.Mutex
	finQ  []finalizer
)

// SetFinalizer is runtime.SetFinalizer.
func SetFinalizer(obj, f interface{}) {
	p := cur
	if p == nil || f == nil {
		runtime.SetFinalizer(obj, f)
		return
	}
	if rt.Unwinding() || p.dead {
		return
	}
	p.finals++
	v := reflect.ValueOf(f)
	wrap := reflect.MakeFunc(v.Type(), func(a []reflect.Value) []reflect.Value {
		finMu.Lock()
		finQ = append(finQ, finalizer{p, func() { v.Call(a) }})
		finMu.Unlock()
		r := make([]reflect.Value, v.Type().NumOut())
		for i := range r {
			r[i] = reflect.Zero(v.Type().Out(i))
		}
		return r
	})
	runtime.SetFinalizer(obj, wrap.Interface())
}

type sentinel struct{ p *byte }

// Collect makes a collection, if that can matter to the running process, and
// starts a task for the finalizers of what was found unreachable.
func Collect() {
	p := cur
	if p == nil || p.finals == 0 || rt.Unwinding() {
		return
	}
	for i := 0; i < 2; i++ {
		// all finalizers of a collection have run when one of the next has
		ch := make(chan bool, 1)
		runtime.SetFinalizer(&sentinel{new(byte)}, func(*sentinel) { ch <- true })
		runtime.GC()
		select {
		case <-ch:
		case <-time.After(2 * time.Second):
		}
	}
	finMu.Lock()
	var mine []finalizer
	for _, f := range finQ {
		if f.p == p {
			mine = append(mine, f)
		}
	}
	finQ = nil
	finMu.Unlock()
	if len(mine) > 0 {
		p.M.Fired["finalizers after a collection"] += len(mine)
		done := false
		rt.Go(func() {
			for _, f := range mine {
				f.fn()
			}
			done = true
		})
		if p.collects++; p.collects%4 != 0 {
			rt.Block("finalizers", func() bool { return done })
		}
	}
}
