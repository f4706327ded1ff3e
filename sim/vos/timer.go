package vos

import "vsim/rt"

// Time passes with the operations, and, when every task waits, jumps to the
// first moment something is waiting for.

type sleeper struct {
	m     *Machine
	p     *Proc
	sim   *rt.Sim
	until int64
	timer bool
}

func init() { rt.Idle = idle }

var sleepers []*sleeper

//go:norace
func idle() bool {
	var best *sleeper
	for _, s := range sleepers {
		if s.sim == rt.S && !s.p.dead && s.until > s.m.Clock && !(s.timer && s.m.NoTimers) && (best == nil || s.until-s.m.Clock < best.until-best.m.Clock) {
			best = s
		}
	}
	if best == nil {
		return false
	}
	best.m.Ran += best.until - best.m.Clock
	best.m.Clock = best.until
	return true
}

// Wait blocks the running task until the machine's clock (without the
// process's skew) shows a moment or stop holds; it reports false for stop.
//
//go:norace
func (p *Proc) Wait(d int64, timer bool, stop func() bool) bool {
	m := p.M
	if d < 0 {
		d = 0
	}
	s := &sleeper{m, p, rt.S, m.Clock + d, timer}
	if s.until < m.Clock {
		s.until = 1<<63 - 1
	}
	sleepers = append(sleepers, s)
	defer wake(s)
	why := "time to pass"
	if timer {
		why = "a timer"
	}
	if !rt.Block(why, func() bool { return m.Clock >= s.until || stop != nil && stop() }) {
		m.Advance(d) // outside of a simulation
	}
	return stop == nil || !stop()
}

//go:norace
func wake(s *sleeper) {
	for i, x := range sleepers {
		if x == s {
			sleepers = append(sleepers[:i:i], sleepers[i+1:]...)
			break
		}
	}
}
