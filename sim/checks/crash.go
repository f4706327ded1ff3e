package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"
)

// crRun is a run of one or two programs writing one path, and what strikes.
type crRun struct {
	Jobs   []rJob       `json:"jobs"`
	Holds  []*vos.Fault `json:"holds,omitempty"`  // where one program waits until the other has ended
	Faults []*vos.Fault `json:"faults,omitempty"` // Proc is j0 or j1
	Kill   int          `json:"kill,omitempty"`   // step at which job Victim is killed
	Victim int          `json:"victim,omitempty"` // 2: the power fails
	Power  string       `json:"power,omitempty"`  // how much survives a power failure
	Off    bool         `json:"off,omitempty"`    // the power fails once they have ended
	Room   int          `json:"room,omitempty"`
}

type c11Plan struct {
	World world.Spec  `json:"world"`
	Out   string      `json:"out"`           // plain, link, sub, same, sys
	Old   int         `json:"old,omitempty"` // what is there: 0 nothing, 1 a dictionary, else garbage of that length
	Runs  []crRun     `json:"runs"`
	Map   uint64      `json:"map"`
	Seed  uint64      `json:"seed"`
	Sched rt.Schedule `json:"sched"` // of the last run
}

func init() {
	register(Check{ID: "C11", N: 50000,
		Rule: "a plan is a history of runs of dicbuilder, userdicbuilder and dicconv onto one path, one or two at a time, struck by a kill or power failure at a step or operation, by failing operations or a full disk; before every operation of every run the path is compared with the old and the new content, and so is what a power failure at that instant would leave; non-trivial when something struck or two programs overlapped"},
		genC11, execC11)
}

func genC11(r *rt.Rand, tier string) *c11Plan {
	p := &c11Plan{World: smallSpec(r, 2), Map: r.Next() >> 12, Seed: r.Next() >> 12, Sched: genSched(r, 60000)}
	p.Out = rt.Pick(r, []string{"plain", "plain", "plain", "link", "sub", "same", "sys"})
	p.Old = rt.Pick(r, []int{0, 1, 1, 1, 2, 272, 5000, 90000})
	if p.Out == "sys" {
		p.World.Users = max(1, p.World.Users)
	}
	for n := r.Range(1, 3); n > 0; n-- {
		var u crRun
		for k := rt.Pick(r, []int{1, 1, 1, 2}); k > 0; k-- {
			j := rJob{What: rt.Pick(r, []string{"dicbuilder", "userdicbuilder", "dicconv"}), J: r.Chance(1, 3), Rel: r.Chance(1, 6)}
			j.Which = r.Intn(p.World.Users + 1)
			if j.What == "userdicbuilder" && j.Which == 0 {
				j.What = "dicbuilder"
			}
			switch p.Out {
			case "same":
				j.What = "dicconv"
			case "sys":
				j.What, j.Which = "userdicbuilder", 1+r.Intn(p.World.Users)
			}
			u.Jobs = append(u.Jobs, j)
			if p.Out == "same" || p.Out == "sys" {
				break
			}
		}
		u.Power = rt.Pick(r, []string{"seed", "seed", "seed", "none", "all", "data", "meta"})
		switch r.Intn(8) {
		case 0, 1:
			u.Kill = 1 + r.Intn(rt.Pick(r, []int{1000, 20000, 60000, 60000}))
			u.Victim = r.Intn(3)
		case 2, 3, 4, 5:
			for k := r.Range(1, 2); k > 0; k-- {
				f := &vos.Fault{Proc: fmt.Sprint("j", r.Intn(len(u.Jobs))), Op: rt.Pick(r, []string{"any", "any", "open", "read", "write", "write", "seek", "stat", "sync", "close", "rename", "chmod", "readlink", "remove", "mmap"}), Nth: 1, Err: rt.Pick(r, errKinds), Sticky: r.Chance(1, 3), Partial: r.Intn(3) * r.Intn(3000)}
				if f.Op == "any" {
					f.Nth = 1 + r.Intn(60)
				} else if r.Bool() {
					f.Nth = 1 + r.Intn(6)
				}
				if r.Bool() || f.Op == "any" {
					f.Act, f.After = rt.Pick(r, []string{"kill", "power"}), r.Bool()
				}
				u.Faults = append(u.Faults, f)
			}
		case 6:
			u.Room = 1 + r.Intn(rt.Pick(r, []int{100, 4000, 9000}))
		default:
			u.Off = true
		}
		if len(u.Jobs) > 1 && r.Bool() {
			k := r.Intn(2)
			f := &vos.Fault{Proc: fmt.Sprint("j", k), Op: rt.Pick(r, []string{"any", "open", "write", "sync", "close", "rename", "rename", "chmod", "stat"}), Nth: 1, Act: "hold", Until: fmt.Sprint("j", 1-k), After: r.Bool()}
			if f.Op == "any" {
				f.Nth = 1 + r.Intn(60)
			} else if r.Bool() {
				f.Nth = 1 + r.Intn(6)
			}
			u.Holds = append(u.Holds, f)
		}
		p.Runs = append(p.Runs, u)
	}
	return p
}

// content compares what a path holds with what it may hold.
type mayHold struct {
	old    []byte
	hadOld bool
	news   [][]byte // creation time masked
	from   int64    // seconds: range of the creation time, for builds
	copied []bool   // the creation time is the input's
}

func (h *mayHold) is(b []byte, ok bool) (old bool, new int) {
	if ok == h.hadOld && bytes.Equal(b, h.old) {
		old = true
	}
	if !ok {
		return old, -1
	}
	m := mask(b)
	for i, n := range h.news {
		if bytes.Equal(m, n) {
			return old, i
		}
	}
	return old, -1
}

func describe(b []byte, ok bool, h *mayHold) string {
	if !ok {
		return "is gone"
	}
	s := fmt.Sprintf("holds %d bytes that are neither the old content (%d bytes)", len(b), len(h.old))
	for _, n := range h.news {
		s += fmt.Sprintf(" nor a complete new dictionary (%d bytes: %s)", len(n), sameFile(mask(b), n))
	}
	return s
}

func (p *c11Plan) out() string {
	switch p.Out {
	case "sub":
		return "/w/sub/dir/out.dic"
	case "sys":
		return "/w/system.dic"
	case "same":
		if len(p.Runs) > 0 && len(p.Runs[0].Jobs) > 0 {
			return dicOf(p.Runs[0].Jobs[0].Which)
		}
	}
	return outDic
}

func execC11(c *Ctx, p *c11Plan) {
	w := c.world(p.World)
	if w == nil || len(p.Runs) == 0 || len(p.Runs) > 10 {
		c.Skipped = true
		return
	}
	path := p.out()
	args := func(j *rJob, to string) []string {
		a := j.args(w, "")
		a[indexOf(a, "-o")+1] = to
		return a
	}
	// what each job makes, undisturbed
	want := func(j *rJob) *outRef {
		q := *j
		q.Rel = false
		return c.ref(fmt.Sprint("c11 ", w.Spec, q.What, q.Which, q.J), func() *outRef {
			m := c.worldMachine(w)
			pr := c.cmd(m, q.What, args(&q, "/w/ref.dic")...)
			b, _ := m.Disk.Get("/w/ref.dic")
			return &outRef{out: b, code: pr.Code}
		})
	}
	for i := range p.Runs {
		u := &p.Runs[i]
		if len(u.Jobs) == 0 || len(u.Jobs) > 4 || p.Out == "same" && (len(u.Jobs) != 1 || u.Jobs[0].What != "dicconv" || dicOf(u.Jobs[0].Which) != path) {
			if p.Out == "same" && i > 0 {
				p.Runs = p.Runs[:i]
				break
			}
			c.Skipped = true
			return
		}
		for k := range u.Jobs {
			j := &u.Jobs[k]
			if j.W != 0 || j.Which < 0 || j.Which > len(w.Users) || j.What == "userdicbuilder" && j.Which == 0 || !j.writes() || p.Out == "sys" && (j.What != "userdicbuilder" || len(u.Jobs) > 1) {
				c.Skipped = true
				return
			}
			if want(j).code != 0 {
				c.skip("a job fails undisturbed")
				return
			}
		}
	}
	m := c.worldMachine(w)
	m.Disk.MkdirAll("/w/sub/dir")
	m.Disk.Sync()
	if p.Out != "same" && p.Out != "sys" {
		at := path
		if p.Out == "link" && p.Old > 0 {
			at = "/w/sub/real.dic"
			m.Disk.Symlink(path, rt.Pick(rt.NewRand(p.Seed), []string{at, "sub/real.dic"}))
		}
		switch {
		case p.Old == 1:
			m.Disk.Put(at, w.Files["/w/system.dic"])
		case p.Old > 1:
			m.Disk.Put(at, bytes.Repeat([]byte("old dic."), min(p.Old, 200000)/8+1)[:min(p.Old, 200000)])
		}
	}
	inputs := map[string][]byte{}
	for _, n := range m.Disk.List() {
		if b, ok := m.Disk.Get(n); ok && n != path && n != "/w/sub/real.dic" {
			inputs[n] = b
		}
	}
	c.Trivial = true
	rnd := rt.NewRand(p.Seed)
	clean := false
	for i := 0; i <= len(p.Runs); i++ {
		var u crRun
		if i < len(p.Runs) {
			u = p.Runs[i]
		} else {
			// once more, undisturbed
			if p.Out == "same" || p.Out == "sys" {
				// what it reads is there only if nothing was written
				b, _ := m.Disk.Get(path)
				if !bytes.Equal(b, w.Files[path]) {
					break
				}
			}
			u = crRun{Jobs: p.Runs[0].Jobs[:1]}
			clean = true
		}
		if (p.Out == "same" || p.Out == "sys") && i > 0 && !clean {
			b, _ := m.Disk.Get(path)
			if !bytes.Equal(b, w.Files[path]) {
				continue
			}
		}
		h := &mayHold{}
		h.old, h.hadOld = m.Disk.Get(path)
		for k := range u.Jobs {
			h.news = append(h.news, mask(want(&u.Jobs[k]).out))
		}
		var fs []*vos.Fault
		for _, f := range u.Faults {
			q := *f
			fs = append(fs, &q)
		}
		m.Faults = append([]*vos.Fault{}, fs...)
		for _, f := range u.Holds {
			q := *f
			if q.Act, q.Sticky = "hold", false; q.Until == q.Proc {
				q.Until = ""
			}
			m.Faults = append(m.Faults, &q)
		}
		m.Disk.Capacity = 0
		if u.Room > 0 {
			m.Disk.Capacity = m.Disk.Used() + int64(u.Room) - 1
		}
		m.OnPower = func() { m.Disk.PowerLoss(u.Power, rnd) }
		sched := rt.Schedule{Kind: "serial"}
		if i == len(p.Runs)-1 && len(u.Jobs) > 1 {
			sched = p.Sched
		} else if len(u.Jobs) > 1 {
			sched = rt.Schedule{Kind: "rand", Seed: p.Seed, Mean: 300}
		}
		s := rt.New(sched, world.Limit, p.Map+uint64(i))
		var prs []*vos.Proc
		t0 := m.Clock
		for k := range u.Jobs {
			j := &u.Jobs[k]
			to := path
			if j.Rel {
				to = path[3:]
			}
			pr := m.NewProc(fmt.Sprint("j", k), j.What, args(j, to)...)
			prs = append(prs, pr)
			world.StartCmd(s, pr)
		}
		struck := ""
		if u.Kill > 0 && u.Victim <= len(prs) {
			s.KillAt(uint64(u.Kill), func() {
				if u.Victim == 2 || u.Victim >= len(prs) {
					struck = "power failure at a step"
					m.PowerFail()
				} else {
					struck = "kill at a step"
					prs[u.Victim].Kill()
				}
				c.fired(ctl{fired: map[string]int{struck: 1}})
			})
		}
		ops := 0
		m.OnOp = func() {
			if c.V != nil || !m.Powered() {
				return
			}
			ops++
			b, ok := m.Disk.Get(path)
			if old, n := h.is(b, ok); !old && n < 0 {
				c.Fail("instant", "run %d, before operation %d: %s %s", i, ops, path, describe(b, ok, h))
			}
			mode := u.Power
			if ops%3 == 0 {
				mode = "seed"
			}
			b, ok = m.Disk.WhatIf(path, mode, rnd)
			if old, n := h.is(b, ok); !old && n < 0 {
				c.Fail("power", "run %d, before operation %d: after a power failure (%s) %s %s", i, ops, mode, path, describe(b, ok, h))
			}
			c.Judged += 2
		}
		c.run(s, "builds")
		m.OnOp = nil
		m.Faults = nil
		m.Disk.Capacity = 0
		if i == len(p.Runs)-1 {
			c.Rec = s.Rec
		}
		if c.V != nil {
			return
		}
		failed, done := false, []int{}
		for k, pr := range prs {
			if pr.PanicMsg != "" {
				c.Fail("panic", "run %d: %s panics: %s\n%s", i, pr.Cmd, pr.PanicMsg, short(pr.PanicStk))
				return
			}
			if pr.Killed {
				struck = "killed"
			} else if pr.Code == 0 {
				done = append(done, k)
			} else {
				failed = true
			}
		}
		for _, f := range fs {
			if f.DidFire() {
				struck += " " + f.Op + " " + f.Err + f.Act
			}
		}
		if struck != "" || len(prs) > 1 || u.Off || m.Fired["write/full disk"] > 0 {
			c.Trivial = false
		}
		lost := !m.Powered()
		b, ok := m.Disk.Get(path)
		old, n := h.is(b, ok)
		if !old && n < 0 {
			c.Fail("mixed", "run %d (%s): %s %s", i, struck, path, describe(b, ok, h))
			return
		}
		c.Judged++
		if len(done) > 0 && !lost {
			if n < 0 {
				c.Fail("not written", "run %d: %s exits successfully but %s is as it was", i, prs[done[0]].Cmd, path)
				return
			}
			if j := u.Jobs[n]; j.What != "dicconv" && !sameContent(h.news, n) && prs[n].Code == 0 {
				if t := int64(binary.LittleEndian.Uint64(b[8:])); t < floorSec(t0) || t > floorSec(m.Clock) {
					c.Fail("stale", "run %d: the creation time of %s is %d, of before the run", i, path, t)
					return
				}
			}
		}
		if clean && len(done) == 0 || failed && len(fs) == 0 && u.Room == 0 {
			c.Fail("rerun", "run %d: %s fails although nothing stands in its way: status %d %s", i, prs[0].Cmd, prs[0].Code, world.Tail(prs[0].Stderr))
			return
		}
		for _, name := range m.Disk.List() {
			if in, ok := inputs[name]; ok && name != path {
				if b, _ := m.Disk.Get(name); !bytes.Equal(b, in) {
					c.Fail("input", "run %d changes %s", i, name)
					return
				}
			}
		}
		for name := range inputs {
			if _, ok := m.Disk.Get(name); !ok {
				c.Fail("input", "run %d removes %s", i, name)
				return
			}
		}
		if u.Off && !lost {
			m.Disk.PowerLoss(u.Power, rnd)
			c.fired(ctl{fired: map[string]int{"power failure after the end": 1}})
			b, ok := m.Disk.Get(path)
			if old, n := h.is(b, ok); !old && n < 0 {
				c.Fail("durability", "run %d: after a power failure later on (%s) %s %s", i, u.Power, path, describe(b, ok, h))
				return
			}
		}
		m.Restart()
		if !lost && !u.Off {
			m.Disk.Sync()
		}
	}
}

func sameContent(news [][]byte, n int) bool {
	for i := range news {
		if i != n && bytes.Equal(news[i], news[n]) {
			return true
		}
	}
	return false
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return -1
}
