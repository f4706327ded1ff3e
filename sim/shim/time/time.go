// Package time is what instrumented code gets for "time": the clock is the
// simulated machine's.
package time

import (
	real "time"

	"vsim/rt"
	"vsim/vos"
)

func now() int64 { return vos.Cur().Now() }

func Now() Time             { return real.Unix(0, now()) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	rt.Point()
	if d > 0 && !rt.Unwinding() {
		vos.Cur().Wait(int64(d), false, nil)
	}
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Timer is a task that waits.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	on *bool // the waiting task goes on as long as this holds
}

func (t *Timer) start(d, again Duration) {
	on := true
	t.on = &on
	if rt.Unwinding() {
		return
	}
	p := vos.Cur()
	rt.Go(func() {
		for p.Wait(int64(d), true, func() bool { return !on }) {
			if again == 0 {
				on = false
			}
			if t.f != nil {
				t.f()
			} else {
				select {
				case t.c <- Now():
				default:
				}
			}
			if again == 0 {
				return
			}
			d = again
		}
	})
}

func (t *Timer) stop() bool {
	was := *t.on
	*t.on = false
	for t.c != nil && len(t.c) > 0 {
		<-t.c // (since Go 1.23 nothing stale is received)
	}
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d, 0)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d, 0)
	return t
}
func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d Duration) bool {
	was := t.stop()
	t.start(d, 0)
	return was
}

type Ticker struct {
	C <-chan Time
	t *Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, t: &Timer{c: c}}
	t.t.start(d, d)
	return t
}
func (t *Ticker) Stop()            { t.t.stop() }
func (t *Ticker) Reset(d Duration) { t.t.stop(); t.t.start(d, d) }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
