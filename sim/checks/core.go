// Package checks holds, per property, a generator of plans and an executor
// that runs a plan in the simulator and judges it.
package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"
)

// Violation is what a run found wrong.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Stats is what a run covered.
type Stats struct {
	Steps    uint64         `json:"steps,omitempty"`
	SimNS    int64          `json:"ns,omitempty"`
	Switches int            `json:"sw,omitempty"`
	Sims     int            `json:"sims,omitempty"`
	Hash     uint64         `json:"hash,omitempty"`  // of switches, operations and steps
	Inter    uint64         `json:"inter,omitempty"` // of the switches alone; 0 if none
	Fired    map[string]int `json:"fired,omitempty"`
	Ops      int            `json:"ops,omitempty"`
	Judged   int            `json:"judged,omitempty"` // individual comparisons made
	Trivial  bool           `json:"trivial,omitempty"`
	Skipped  bool           `json:"skipped,omitempty"`
	Notes    map[string]int `json:"notes,omitempty"`
}

// Ctx is the context of one execution.
type Ctx struct {
	Stats
	V     *Violation
	Rec   []rt.Switch // the switches of the main simulation
	Trace []string
	ms    []*vos.Machine
	Tier  string
}

// skip gives up on a plan.
func (c *Ctx) skip(why string) {
	c.Skipped = true
	c.note("skipped: " + why)
}

// world gets a world; without it the plan is skipped.
func (c *Ctx) world(s world.Spec) *world.World {
	w := world.Get(s)
	if w.Err != nil {
		c.skip("the world does not build")
		return nil
	}
	return w
}

// Fail records the first violation.
func (c *Ctx) Fail(class, format string, a ...interface{}) {
	if c.V == nil {
		s := fmt.Sprintf(format, a...)
		if len(s) > 6000 {
			s = s[:6000] + "..."
		}
		c.V = &Violation{class, s}
	}
}

func (c *Ctx) note(s string) {
	if c.Notes == nil {
		c.Notes = map[string]int{}
	}
	c.Notes[s]++
}

// machine makes a machine that is accounted for and cleaned up.
func (c *Ctx) machine() *vos.Machine {
	m := vos.NewMachine()
	c.ms = append(c.ms, m)
	return m
}

func (c *Ctx) worldMachine(w *world.World) *vos.Machine {
	m := c.machine()
	w.Install(m)
	return m
}

// ran accounts for a finished simulation.
func (c *Ctx) ran(s *rt.Sim) {
	c.Steps += rt.Steps()
	c.Sims++
	c.Switches += len(s.Rec)
	c.Hash = (c.Hash ^ s.Hash) * 0x100000001b3
	c.Hash = (c.Hash ^ rt.Steps()) * 0x100000001b3
	if n := len(s.Tasks()); n > 1 && len(s.Rec) > n {
		c.Inter = (c.Inter ^ s.Hash) * 0x100000001b3
	}
}

// aside runs fn without it showing in the statistics.
func (c *Ctx) aside(fn func()) {
	old, ms := c.Stats, c.ms
	c.Stats, c.ms = Stats{}, nil
	fn()
	for _, m := range c.ms {
		m.Cleanup()
	}
	n := c.Stats
	c.Stats, c.ms = old, ms
	c.Sims += n.Sims
	c.Steps += n.Steps
}

// run runs a simulation and reports hangs.
func (c *Ctx) run(s *rt.Sim, what string) bool {
	s.Run()
	c.ran(s)
	if s.Hang {
		c.Fail("hang", "%s: no end after %d steps (task %s) in %s", what, rt.Steps(), s.HangTask, s.HangStk)
		return false
	}
	if s.Deep {
		c.Fail("recursion", "%s: unbounded recursion", what)
		return false
	}
	if s.Deadlock {
		c.Fail("deadlock", "%s: all tasks are blocked: %s", what, s.Blocked())
		return false
	}
	return true
}

// cmd runs a program alone on a machine.
func (c *Ctx) cmd(m *vos.Machine, cmd string, args ...string) *vos.Proc {
	p := m.NewProc(cmd, cmd, args...)
	c.runProc(p)
	return p
}

func (c *Ctx) runProc(p *vos.Proc) bool {
	s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, uint64(len(p.M.Procs)))
	world.StartCmd(s, p)
	return c.run(s, p.Cmd)
}

// lib runs fn alone in a fresh process.
func (c *Ctx) lib(m *vos.Machine, name string, fn func()) *vos.Proc {
	p := m.NewProc(name, "")
	s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, uint64(len(m.Procs)))
	s.Spawn(name, p, fn)
	c.run(s, name)
	return p
}

// done closes the books of an execution.
func (c *Ctx) done() {
	for _, m := range c.ms {
		c.SimNS += m.Ran
		c.Ops += m.OpCount
		c.Hash = (c.Hash ^ m.Hash) * 0x100000001b3
		for k, n := range m.Fired {
			if c.Fired == nil {
				c.Fired = map[string]int{}
			}
			c.Fired[k] += n
		}
		if c.V != nil {
			for _, l := range m.Log {
				if len(c.Trace) < 400 {
					c.Trace = append(c.Trace, l)
				}
			}
		}
		m.Cleanup()
	}
	c.ms = nil
}

// Check is one property's check.
type Check struct {
	ID   string
	N    int // plans of the quick tier
	Race int // plans run under the race detector in the quick tier
	Rule string
	Real string
	Stub string
	gen  func(r *rt.Rand, tier string) interface{}
	dec  func(b []byte) (interface{}, error)
	exec func(c *Ctx, p interface{})
}

var All = map[string]*Check{}

func register[P any](k Check, gen func(r *rt.Rand, tier string) *P, exec func(c *Ctx, p *P)) {
	k.gen = func(r *rt.Rand, tier string) interface{} { return gen(r, tier) }
	k.dec = func(b []byte) (interface{}, error) {
		p := new(P)
		d := json.NewDecoder(strings.NewReader(string(b)))
		return p, d.Decode(p)
	}
	k.exec = func(c *Ctx, p interface{}) { exec(c, p.(*P)) }
	All[k.ID] = &k
}

// Plan makes the plan of a seed.
func (k *Check) Plan(seed, i uint64, tier string) []byte {
	r := rt.NewRand(seed*1000003 + i*7919 + uint64(len(k.ID)))
	for _, ch := range k.ID {
		r.Fork(uint64(ch))
	}
	b, err := json.Marshal(k.gen(r, tier))
	if err != nil {
		panic(err)
	}
	return b
}

// Result is the outcome of executing a plan.
type Result struct {
	V     *Violation  `json:"v,omitempty"`
	Stats Stats       `json:"stats"`
	Rec   []rt.Switch `json:"rec,omitempty"`
	Trace []string    `json:"trace,omitempty"`
	Bad   string      `json:"bad,omitempty"`
}

// Run executes a plan.
func (k *Check) Run(plan []byte, tier string, log bool) *Result {
	p, err := k.dec(plan)
	if err != nil {
		return &Result{Bad: err.Error()}
	}
	vos.LogAll = log
	c := &Ctx{Tier: tier}
	races := rt.RaceErrors()
	k.exec(c, p)
	c.done()
	if n := rt.RaceErrors() - races; n > 0 {
		c.Fail("race", "the race detector reported %d data race(s)", n)
	}
	r := &Result{V: c.V, Stats: c.Stats}
	if c.V != nil {
		r.Rec = c.Rec
		r.Trace = c.Trace
	}
	return r
}

// short cuts a long text for a message.
func short(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// diff shows where two texts part.
func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		x, y := "<end>", "<end>"
		if i < len(g) {
			x = g[i]
		}
		if i < len(w) {
			y = w[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  got  %s\n  want %s", i+1, short(x), short(y))
		}
	}
	return "equal"
}
