package rt

import "unsafe"

// Channels of instrumented code: operations on buffered channels are the real
// ones, done when they cannot block; operations on unbuffered ones meet here.
// Waiting is the scheduler's.

type waiter struct {
	ch   unsafe.Pointer
	send bool
	task *Task
	op   *wait
	idx  int
	val  interface{}
}

// wait is one blocked operation, or one blocked select.
type wait struct {
	done bool
	idx  int
	val  interface{}
	sync uint64
}

var (
	waiters []*waiter
	closed  []interface{} // channels closed by instrumented code
)

//go:norace
func resetChans() { waiters, closed = nil, nil }

// Op is one channel operation of a select.
type Op interface {
	isSend() bool
	ptr() unsafe.Pointer
	buffered() bool
	try() bool          // does a buffered (or closed) operation if it would not block
	could() bool        // whether try would do it
	value() interface{} // what is sent
	take(v interface{})
}

type Recvd[T any] struct {
	c    <-chan T
	V    T
	OK   bool
	shut bool
}

type Sending[T any] struct {
	c chan<- T
	v T
}

//go:norace
func RecvOp[T any](c <-chan T) *Recvd[T] { return &Recvd[T]{c: c} }

//go:norace
func SendOp[T any](c chan<- T) *Sending[T] { return &Sending[T]{c: c} }

// Of says what is sent. (It takes the value separately for the value to be
// converted to the channel's type.)
//
//go:norace
func (s *Sending[T]) Of(v T) *Sending[T] { s.v = v; return s }

// Now sends v.
//
//go:norace
func (s *Sending[T]) Now(v T) {
	if !inSim() {
		s.c <- v
		return
	}
	s.v = v
	Select(false, s)
}

//go:norace
func (r *Recvd[T]) isSend() bool { return false }

//go:norace
func (r *Recvd[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)) }

//go:norace
func (r *Recvd[T]) buffered() bool { return cap(r.c) > 0 }

//go:norace
func (r *Recvd[T]) value() interface{} { return nil }

//go:norace
func (r *Recvd[T]) take(v interface{}) { r.V, _ = v.(T); r.OK = true }

//go:norace
func (r *Recvd[T]) try() bool {
	if !r.could() {
		return false
	}
	if r.OK { // what could found
		return true
	}
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

//go:norace
func (r *Recvd[T]) could() bool {
	if r.c == nil {
		return false
	}
	if len(r.c) > 0 || r.shut || r.OK {
		return true
	}
	// closed?
	raceOff()
	defer raceOn()
	select {
	case v, ok := <-r.c:
		if ok { // somebody outside sent it
			r.V, r.OK = v, true
		} else {
			r.shut = true
		}
		return true
	default:
		return false
	}
}

//go:norace
func (s *Sending[T]) isSend() bool { return true }

//go:norace
func (s *Sending[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.c)) }

//go:norace
func (s *Sending[T]) buffered() bool { return cap(s.c) > 0 }

//go:norace
func (s *Sending[T]) value() interface{} { return s.v }

//go:norace
func (s *Sending[T]) take(v interface{}) {}

//go:norace
func (s *Sending[T]) try() bool {
	if !s.could() {
		return false
	}
	select {
	case s.c <- s.v: // panics if it is closed
		return true
	default:
		return false
	}
}

//go:norace
func (s *Sending[T]) could() bool {
	return s.c != nil && (len(s.c) < cap(s.c) || isClosed(s.ptr()))
}

//go:norace
func isClosed(p unsafe.Pointer) bool {
	for _, c := range closed {
		if (*[2]unsafe.Pointer)(unsafe.Pointer(&c))[1] == p {
			return true
		}
	}
	return false
}

//go:norace
func Recv[T any](c <-chan T) T {
	r := RecvOp(c)
	if !inSim() {
		return <-c
	}
	Select(false, r)
	return r.V
}

//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvOp(c)
	if !inSim() {
		v, ok := <-c
		return v, ok
	}
	Select(false, r)
	return r.V, r.OK
}

//go:norace
func Close[T any](c chan<- T) {
	if inSim() {
		Y(0)
		if Unwinding() {
			defer quiet()
		}
	}
	close(c)
	if inSim() {
		noteClosed(c)
	}
}

//go:norace
func quiet() { recover() }

//go:norace
func noteClosed(c interface{}) {
	raceOff()
	closed = append(closed, c)
	raceOn()
}

//go:norace
func inSim() bool { return S != nil && S.cur != nil }

// meet finds who waits for the other end of an unbuffered channel.
//
//go:norace
func meet(o Op) *waiter {
	p := o.ptr()
	if p == nil || o.buffered() {
		return nil
	}
	for _, w := range waiters {
		if w.ch == p && w.send != o.isSend() && !w.op.done && w.task != S.cur && !w.task.Killed &&
			w.task.state != stDone && (w.task.Proc == nil || !w.task.Proc.Dead()) {
			return w
		}
	}
	return nil
}

// Select does one of the operations and says which; -1 means none could be
// done and there is a default.
//
//go:norace
func Select(def bool, ops ...Op) int {
	Y(0)
	if Unwinding() {
		if def {
			return -1
		}
		return 0
	}
	if i := selectNow(ops); i >= 0 {
		Y(0)
		return i
	}
	if def {
		return -1
	}
	for {
		w := &wait{}
		RaceRelease(unsafe.Pointer(&w.sync))
		raceOff()
		for i, o := range ops {
			if o.ptr() != nil && !o.buffered() {
				waiters = append(waiters, &waiter{o.ptr(), o.isSend(), S.cur, w, i, o.value()})
			}
		}
		raceOn()
		Block("a channel", func() bool {
			if w.done {
				return true
			}
			for _, o := range ops {
				if o.could() || meet(o) != nil {
					return true
				}
			}
			return false
		})
		raceOff()
		keep := waiters[:0:0]
		for _, x := range waiters {
			if x.op != w && x.task.state != stDone {
				keep = append(keep, x)
			}
		}
		waiters = keep
		raceOn()
		if w.done {
			RaceAcquire(unsafe.Pointer(&w.sync))
			ops[w.idx].take(w.val)
			return w.idx
		}
		if i := selectNow(ops); i >= 0 {
			return i
		}
	}
}

// selectNow does one of the operations that can be done at once.
//
//go:norace
func selectNow(ops []Op) int {
	var can []int
	for i, o := range ops {
		if o.could() || meet(o) != nil {
			can = append(can, i)
		}
	}
	for len(can) > 0 {
		k := 0
		if len(can) > 1 {
			k = int(Random() % uint64(len(can)))
		}
		i := can[k]
		o := ops[i]
		if o.could() {
			if o.try() {
				return i
			}
		} else if w := meet(o); w != nil {
			RaceAcquire(unsafe.Pointer(&w.op.sync))
			RaceRelease(unsafe.Pointer(&w.op.sync))
			w.op.done, w.op.idx = true, w.idx
			if w.send {
				o.take(w.val)
			} else {
				w.op.val = o.value()
			}
			return i
		}
		can = append(can[:k], can[k+1:]...)
	}
	return -1
}
