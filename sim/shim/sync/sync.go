// Package sync is what instrumented code gets for "sync": locks block in the
// simulated scheduler, and synchronise, for the race detector, exactly as the
// real ones do.
package sync

import (
	real "sync"
	"unsafe"

	"vsim/rt"
)

type Mutex struct {
	held bool
	m    real.Mutex
}

func (m *Mutex) Lock() {
	rt.Point()
	if rt.Unwinding() {
		return
	}
	if !rt.Running() {
		m.m.Lock()
		m.held = true
		return
	}
	for m.held {
		rt.Block("a mutex", func() bool { return !m.held })
	}
	m.held = true
	m.m.Lock()
}

func (m *Mutex) TryLock() bool {
	rt.Point()
	if rt.Unwinding() || m.held {
		return false
	}
	m.held = true
	m.m.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if rt.Unwinding() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.m.Unlock()
	rt.Point()
}

type RWMutex struct {
	w bool
	r int
	m real.RWMutex
}

func (m *RWMutex) Lock() {
	rt.Point()
	if rt.Unwinding() {
		return
	}
	if rt.Running() {
		for m.w || m.r > 0 {
			rt.Block("a write lock", func() bool { return !m.w && m.r == 0 })
		}
	}
	m.w = true
	m.m.Lock()
}

func (m *RWMutex) TryLock() bool {
	rt.Point()
	if rt.Unwinding() || m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.m.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Unwinding() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.m.Unlock()
	rt.Point()
}

func (m *RWMutex) RLock() {
	rt.Point()
	if rt.Unwinding() {
		return
	}
	if rt.Running() {
		for m.w {
			rt.Block("a read lock", func() bool { return !m.w })
		}
	}
	m.r++
	m.m.RLock()
}

func (m *RWMutex) TryRLock() bool {
	rt.Point()
	if rt.Unwinding() || m.w {
		return false
	}
	m.r++
	m.m.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Unwinding() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.m.RUnlock()
	rt.Point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done bool
	m    Mutex
	fast uint64
}

func (o *Once) Do(f func()) {
	rt.Point()
	if o.done {
		rt.RaceAcquire(unsafe.Pointer(&o.fast))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			rt.RaceRelease(unsafe.Pointer(&o.fast))
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	n int
	s uint64
}

func (w *WaitGroup) Add(d int) {
	rt.Point()
	if d < 0 {
		rt.RaceRelease(unsafe.Pointer(&w.s))
	}
	w.n += d
	if w.n < 0 && !rt.Unwinding() {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	rt.Point()
	if rt.Unwinding() {
		return
	}
	for w.n > 0 {
		rt.Block("a wait group", func() bool { return w.n <= 0 })
	}
	rt.RaceAcquire(unsafe.Pointer(&w.s))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L      Locker
	next   int
	signal int
	s      uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := c.next
	c.next++
	c.L.Unlock()
	if !rt.Unwinding() {
		rt.Block("a condition", func() bool { return c.signal > t })
		rt.RaceAcquire(unsafe.Pointer(&c.s))
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	rt.RaceRelease(unsafe.Pointer(&c.s))
	if c.signal < c.next {
		c.signal++
	}
	rt.Point()
}

func (c *Cond) Broadcast() {
	rt.RaceRelease(unsafe.Pointer(&c.s))
	c.signal = c.next
	rt.Point()
}

type poolItem struct {
	x interface{}
	s uint64
}

// Pool hands out what was put in last, most of the time.
type Pool struct {
	New   func() interface{}
	items []*poolItem
}

func (p *Pool) Put(x interface{}) {
	rt.Point()
	if x == nil {
		return
	}
	it := &poolItem{x: x}
	rt.RaceRelease(unsafe.Pointer(&it.s))
	p.items = append(p.items, it)
}

func (p *Pool) Get() interface{} {
	rt.Point()
	if n := len(p.items); n > 0 && rt.Random()%8 != 0 {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		rt.RaceAcquire(unsafe.Pointer(&it.s))
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
