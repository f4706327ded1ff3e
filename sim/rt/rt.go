// Package rt is the seeded scheduler. Exactly one task runs at any time; the
// instrumented code calls Y before every statement, and only there (and at the
// blocking operations of the shims) can another task be switched in.
//
// The hand-over creates no happens-before edge the race detector can see, so in
// the race build the detector judges the schedule as if the tasks were free
// running threads.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"
)

// Proc is what the scheduler needs to know of a simulated process.
type Proc interface {
	Dead() bool        // no task of it may run any more
	Enter()            // its globals become current
	Leave()            // its globals are put away
	TaskPanic(t *Task) // an unrecovered panic ends the process
}

const (
	stNew = iota
	stReady
	stBlocked
	stDone
)

type Task struct {
	ID    int
	Name  string
	Proc  Proc
	fn    func()
	wake  chan struct{}
	state int
	on    func() bool // when blocked: may it go on?
	why   string
	Steps uint64

	Panicked bool
	PanicVal interface{}
	PanicStk string
	Killed   bool
	prio     int
	Tag      int  // what the harness marked it with; goroutines inherit it
	Own      bool // a goroutine of the code under test: nobody waits for its end
}

// Switch is one recorded scheduling decision: at global step Step, task To was
// given the turn.
type Switch struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
}

// Schedule says how the turn moves between tasks.
type Schedule struct {
	Kind string   `json:"kind"` // "serial", "rand", "pct", "burst", "list"
	Seed uint64   `json:"seed,omitempty"`
	Mean int      `json:"mean,omitempty"` // rand: mean number of steps between decisions
	D    int      `json:"d,omitempty"`    // pct: number of priority change points
	Est  int      `json:"est,omitempty"`  // pct: expected number of steps
	List []Switch `json:"list,omitempty"`
}

type Sim struct {
	tasks  []*Task
	cur    *Task
	done   chan struct{}
	sched  Schedule
	rng    *Rand
	Rec    []Switch
	limit  uint64
	li     int
	chg    []uint64
	nextKA uint64

	killAt   uint64
	killFn   func()
	killTask *Task

	Deadlock bool
	Hang     bool
	HangTask string
	HangStk  string
	Deep     bool
	over     bool
	Hash     uint64
	MapSeed  uint64
	mapN     uint64
	multi    bool // several processes: every switch synchronises
	idles    int
	lastProc Proc
}

// Global state, touched only by the task holding the turn (or by the harness
// while no task runs).
var (
	S         *Sim
	steps     uint64
	nextEvent uint64 = ^uint64(0)
)

const never = ^uint64(0)

// Y is the yield point placed before every instrumented statement.
//
//go:norace
//go:noinline
func Y(id uint32) {
	steps++
	if steps >= nextEvent {
		slow(id)
	}
}

//go:norace
func Steps() uint64 { return steps }

//go:norace
func slow(id uint32) {
	s := S
	if s == nil || s.cur == nil {
		nextEvent = never
		return
	}
	t := s.cur
	if s.over || (t.Proc != nil && t.Proc.Dead()) {
		// unwinding a killed task: run its deferred calls without scheduling
		nextEvent = steps + 100000
		return
	}
	if s.killFn != nil && steps >= s.killAt {
		f := s.killFn
		s.killFn = nil
		f()
		if t.Proc != nil && t.Proc.Dead() {
			t.Killed = true
			s.setNext()
			runtime.Goexit()
		}
	}
	if steps >= s.limit {
		if !s.Hang {
			s.Hang = true
			s.HangTask = t.Name
			s.HangStk = stack()
		}
		t.Killed = true
		s.abort()
		runtime.Goexit()
	}
	if steps >= s.nextKA {
		s.nextKA = steps + 20000
		var pcs [1]uintptr
		if runtime.Callers(60000, pcs[:]) > 0 {
			s.Deep = true
			t.Killed = true
			s.abort()
			runtime.Goexit()
		}
	}
	if s.due() {
		s.decide(true)
	}
	s.setNext()
}

// stack names the functions the running task is in.
func stack() string {
	var pcs [40]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	r := ""
	for {
		f, more := fs.Next()
		r += f.Function + " <- "
		if !more || len(r) > 1500 {
			return r
		}
	}
}

// abort ends the simulation: every remaining task is released to die.
//
//go:norace
func (s *Sim) abort() { s.over = true }

func New(sched Schedule, limit uint64, mapSeed uint64) *Sim {
	s := &Sim{sched: sched, rng: NewRand(sched.Seed ^ 0x5ced), limit: limit, done: make(chan struct{}, 1), MapSeed: mapSeed}
	steps = 0
	resetChans()
	s.nextKA = 20000
	if s.sched.Kind == "pct" {
		for i := 0; i < s.sched.D; i++ {
			s.chg = append(s.chg, uint64(s.rng.Intn(max(1, s.sched.Est)))+1)
		}
		sort.Slice(s.chg, func(i, j int) bool { return s.chg[i] < s.chg[j] })
	}
	return s
}

// Spawn adds a task. It may be called before Run or from a running task.
//
//go:norace
func (s *Sim) Spawn(name string, p Proc, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Proc: p, fn: fn, wake: make(chan struct{}, 1), state: stNew}
	t.prio = int(s.rng.Next() >> 33)
	if len(s.tasks) > 0 && s.tasks[0].Proc != p {
		s.multi = true
	}
	s.tasks = append(s.tasks, t)
	go s.main(t)
	return t
}

// KillAt arranges f to be called at global step n (at the first yield after it).
//
//go:norace
func (s *Sim) KillAt(n uint64, f func()) { s.killAt = n; s.killFn = f }

// Run runs all tasks to their end and returns.
//
//go:norace
func (s *Sim) Run() {
	S = s
	defer func() { S = nil; nextEvent = never }()
	if len(s.tasks) == 0 {
		return
	}
	s.first()
	raceOff()
	<-s.done
	raceOn()
	RaceAcquire(unsafe.Pointer(&endSync))
	for _, t := range s.tasks {
		if t.state != stDone {
			// blocked for ever: let it die
			s.over = true
			s.cur = t
			t.Killed = true
			s.wakeup(t)
			raceOff()
			<-s.done
			raceOn()
		}
	}
	RaceAcquire(unsafe.Pointer(&endSync))
	if s.lastProc != nil {
		s.lastProc.Leave()
	}
	s.cur = nil
}

// first gives the first task its turn.
//
//go:norace
func (s *Sim) first() {
	n := s.choose(s.ready(), nil)
	s.record(n)
	s.enter(nil, n)
	s.setNext()
	RaceRelease(unsafe.Pointer(&startSync))
	s.wakeup(n)
}

// In a run of one process these carry the only happens-before edges: from the
// harness to every task, and from the end of every task to the harness.
var startSync, endSync uint64

// multiSync orders everything in runs of several processes, where package
// variables are swapped at switches.
var multiSync uint64

//go:norace
func (s *Sim) wakeup(t *Task) {
	t.state = stReady
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

//go:norace
func (s *Sim) enter(prev, t *Task) {
	nextEvent = never
	if s.multi {
		RaceAcquire(unsafe.Pointer(&multiSync))
	}
	if s.lastProc != t.Proc {
		if s.lastProc != nil {
			s.lastProc.Leave()
		}
		s.lastProc = t.Proc
		if t.Proc != nil {
			t.Proc.Enter()
		}
	}
	if s.multi {
		RaceRelease(unsafe.Pointer(&multiSync))
	}
	s.cur = t
}

//go:norace
func (s *Sim) main(t *Task) {
	debug.SetPanicOnFault(true)
	defer s.finish(t)
	raceOff()
	<-t.wake
	raceOn()
	RaceAcquire(unsafe.Pointer(&startSync))
	if s.multi {
		RaceAcquire(unsafe.Pointer(&multiSync))
	}
	if s.over || (t.Proc != nil && t.Proc.Dead()) {
		t.Killed = true
		return
	}
	s.setNext()
	t.fn()
}

//go:norace
func (s *Sim) finish(t *Task) {
	if r := recover(); r != nil && !t.Killed && !s.over && (t.Proc == nil || !t.Proc.Dead()) {
		t.Panicked = true
		t.PanicVal = r
		t.PanicStk = string(debug.Stack())
		if t.Proc != nil {
			t.Proc.TaskPanic(t)
		}
	}
	t.state = stDone
	RaceRelease(unsafe.Pointer(&endSync))
	s.next(t)
}

// ready lists the tasks that may run, in a fixed order.
//
//go:norace
func (s *Sim) ready() []*Task {
	var r []*Task
	for _, t := range s.tasks {
		switch t.state {
		case stNew, stReady:
			r = append(r, t)
		case stBlocked:
			if (t.Proc != nil && t.Proc.Dead()) || t.on() {
				r = append(r, t)
			}
		}
	}
	return r
}

// next gives the turn away for good (task ended or blocked).
//
//go:norace
func (s *Sim) next(t *Task) {
	if s.over {
		// end game: drain in Run
		s.leaveAll(t)
		raceOff()
		s.done <- struct{}{}
		raceOn()
		return
	}
	r := s.ready()
	for len(r) == 0 && s.idle() {
		r = s.ready()
	}
	if len(r) == 0 {
		s.Deadlock = s.waiting()
		s.leaveAll(t)
		s.over = true
		raceOff()
		s.done <- struct{}{}
		raceOn()
		return
	}
	n := s.choose(r, nil)
	s.record(n)
	s.enter(t, n)
	s.setNext()
	s.wakeup(n)
}

// waiting tells whether a task that should end is blocked.
//
//go:norace
func (s *Sim) waiting() bool {
	for _, x := range s.tasks {
		if x.state == stBlocked && !x.Own {
			return true
		}
	}
	return false
}

// Idle lets time pass until something happens, when every task is blocked; it
// reports false if nothing will.
var Idle func() bool

//go:norace
func (s *Sim) idle() bool {
	s.idles++
	return Idle != nil && s.idles < 20000 && s.waiting() && Idle()
}

//go:norace
func (s *Sim) leaveAll(t *Task) {
	nextEvent = never
}

//go:norace
func (s *Sim) record(t *Task) {
	if len(s.Rec) < 20000 {
		s.Rec = append(s.Rec, Switch{steps, t.ID})
	}
	s.Hash = (s.Hash ^ (steps*31 + uint64(t.ID))) * 0x100000001b3
}

// due says whether the schedule wants a decision now.
//
//go:norace
func (s *Sim) due() bool {
	switch s.sched.Kind {
	case "rand", "burst":
		return true
	case "pct":
		return len(s.chg) > 0 && steps >= s.chg[0]
	case "list":
		return s.li < len(s.sched.List) && steps >= s.sched.List[s.li].Step
	}
	return false
}

// setNext computes the step of the next event.
//
//go:norace
func (s *Sim) setNext() {
	n := s.limit
	if s.nextKA < n {
		n = s.nextKA
	}
	if s.killFn != nil && s.killAt < n {
		n = s.killAt
	}
	switch s.sched.Kind {
	case "rand":
		m := s.sched.Mean
		if m < 1 {
			m = 1
		}
		if k := steps + 1 + uint64(s.rng.Intn(2*m)); k < n {
			n = k
		}
	case "burst":
		// long quiet stretches, then a burst of switches a few steps apart
		m := s.sched.Mean
		if m < 1 {
			m = 1
		}
		var k uint64
		if s.rng.Intn(8) == 0 {
			k = steps + 1 + uint64(s.rng.Intn(40*m))
		} else {
			k = steps + 1 + uint64(s.rng.Intn(6))
		}
		if k < n {
			n = k
		}
	case "pct":
		if len(s.chg) > 0 && s.chg[0] < n {
			n = s.chg[0]
		}
	case "list":
		if s.li < len(s.sched.List) && s.sched.List[s.li].Step < n {
			n = s.sched.List[s.li].Step
		}
	}
	if n <= steps {
		n = steps + 1
	}
	nextEvent = n
}

//go:norace
func (s *Sim) choose(r []*Task, cur *Task) *Task {
	switch s.sched.Kind {
	case "rand", "burst":
		return r[s.rng.Intn(len(r))]
	case "pct":
		for len(s.chg) > 0 && steps >= s.chg[0] {
			s.chg = s.chg[1:]
			if cur != nil {
				cur.prio = -int(s.rng.Next() >> 33)
			}
		}
		best := r[0]
		for _, t := range r {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "list":
		for s.li < len(s.sched.List) && s.sched.List[s.li].Step < steps {
			s.li++
		}
		if s.li < len(s.sched.List) && s.sched.List[s.li].Step == steps {
			to := s.sched.List[s.li].To
			s.li++
			for _, t := range r {
				if t.ID == to {
					return t
				}
			}
		}
	}
	if cur != nil {
		return cur
	}
	return r[0]
}

// decide may move the turn from the running task to another.
//
//go:norace
func (s *Sim) decide(ready bool) {
	t := s.cur
	r := s.ready()
	if len(r) == 0 {
		return
	}
	n := s.choose(r, t)
	if n == t {
		return
	}
	s.record(n)
	s.enter(t, n)
	s.setNext()
	s.wakeup(n)
	s.await(t)
}

//go:norace
func (s *Sim) await(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
	if s.multi {
		RaceAcquire(unsafe.Pointer(&multiSync))
	}
	if s.over || (t.Proc != nil && t.Proc.Dead()) {
		t.Killed = true
		runtime.Goexit()
	}
}

// Block suspends the running task until on() holds. Outside a simulation it
// reports false when on() does not hold already.
//
//go:norace
func Block(why string, on func() bool) bool {
	s := S
	if on() {
		return true
	}
	if s == nil || s.cur == nil {
		return false
	}
	t := s.cur
	if t.Proc != nil && t.Proc.Dead() {
		runtime.Goexit()
	}
	t.on, t.why = on, why
	t.state = stBlocked
	r := s.ready()
	for len(r) == 0 && s.idle() {
		r = s.ready()
	}
	if len(r) == 0 {
		s.next(t)
		s.await(t)
		return true
	}
	n := s.choose(r, nil)
	if n != t {
		s.record(n)
		s.enter(t, n)
		s.setNext()
		s.wakeup(n)
		s.await(t)
	} else {
		t.state = stReady
	}
	return true
}

// Point is a yield point in a shim.
//
//go:norace
func Point() { Y(0) }

// Cur returns the running task, or nil.
//
//go:norace
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// CurProc returns the running task's process, or nil.
//
//go:norace
func CurProc() Proc {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Proc
}

// Exit ends the running task; its process must be marked dead already.
//
//go:norace
func Exit() {
	if c := Cur(); c != nil {
		c.Killed = true
	}
	runtime.Goexit()
}

// Go is what an instrumented go statement calls.
//
//go:norace
func Go(fn func()) {
	if S == nil || S.cur == nil {
		go fn()
		return
	}
	t := S.Spawn(fmt.Sprintf("%s+go%d", S.cur.Name, len(S.tasks)), S.cur.Proc, fn)
	t.Tag, t.Own = S.cur.Tag, true
	Y(0)
}

// Unwinding reports whether the running task has been killed and only runs its
// deferred calls, which must have no effect any more.
//
//go:norace
func Unwinding() bool {
	if S == nil || S.cur == nil {
		return false
	}
	t := S.cur
	return S.over || t.Killed || (t.Proc != nil && t.Proc.Dead())
}

// Tasks lists the tasks.
func (s *Sim) Tasks() []*Task { return s.tasks }

func (t *Task) String() string { return fmt.Sprintf("%d:%s", t.ID, t.Name) }
func (t *Task) Done() bool     { return t.state == stDone }

// Blocked describes the tasks that never ended.
func (s *Sim) Blocked() string {
	r := ""
	for _, t := range s.tasks {
		if t.why != "" && t.Killed {
			r += t.Name + " waits for " + t.why + "; "
		}
	}
	return r
}

// Running reports whether a simulated task is running.
//
//go:norace
func Running() bool { return S != nil && S.cur != nil }
