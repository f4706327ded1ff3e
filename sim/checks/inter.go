package checks

import (
	"fmt"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"
)

// The check of a conversation: gosudachicli's input comes in pieces, and the
// other side sends most of them only when it has been answered.

// piece is a part of the input that comes at once.
type piece struct {
	N    int  `json:"n"`
	Wait bool `json:"wait,omitempty"` // comes when all before it is answered
	Idle int  `json:"idle,omitempty"` // seconds that pass before it comes
}

type interProc struct {
	Input  []seg     `json:"input"`
	First  []seg     `json:"first,omitempty"` // a file before it
	Pieces []piece   `json:"pieces"`          // what is left over comes at once
	Mode   string    `json:"mode"`
	All    bool      `json:"all,omitempty"`
	Force  bool      `json:"force,omitempty"`
	Merge  bool      `json:"merge,omitempty"`
	Arg    bool      `json:"arg,omitempty"` // named as an argument
	Chunk  vos.Chunk `json:"chunk"`
}

type interPlan struct {
	World world.Spec  `json:"world"`
	Procs []interProc `json:"procs"`
	Sched rt.Schedule `json:"sched"`
	Map   uint64      `json:"map"`
}

func genInter(r *rt.Rand, tier string) *interPlan {
	p := &interPlan{World: smallSpec(r, 1), Map: r.Next() >> 12}
	w := world.Get(p.World)
	n := rt.Pick(r, []int{1, 1, 1, 2, 3})
	for i := 0; i < n; i++ {
		q := interProc{Mode: rt.Pick(r, modes), All: r.Bool(), Force: r.Chance(1, 3), Merge: r.Chance(1, 6)}
		q.Arg = r.Chance(1, 4)
		ends := []string{"n", "n", "n", "n", "rn", "rn", "r"}
		if r.Bool() {
			ends = ends[:1]
		}
		line := func() seg {
			s := seg{E: rt.Pick(r, ends)}
			switch r.Intn(9) {
			case 3:
				s.E = rt.Pick(r, []string{"ff0a", "e3810a", "c0af0a", "80800d0a", "efbbbf0a", "1a0a", "000a", "c2850a", "e280a80a"})
			case 0:
			case 1:
				s.T = strings.Map(noEnd, w.Text(r, true))
			case 2:
				s.T = rt.Pick(r, []string{"a", "x", "1", "あ", "ab", "𠮷"})
			default:
				s.T = strings.Map(noEnd, w.Text(r, false))
			}
			return s
		}
		for k := rt.Pick(r, []int{0, 1, 2, 3, 5, 8, 20}); k > 0; k-- {
			q.Input = append(q.Input, line())
		}
		if r.Chance(1, 20) {
			// longer than the usual buffers, and something behind it
			q.Input = append(q.Input, seg{T: rt.Pick(r, []string{"あ", "x", "。"}), N: rt.Pick(r, []int{1300, 1400, 4090, 4095, 4096, 4200}), E: rt.Pick(r, ends)}, line(), line())
		}
		if len(q.Input) > 0 && r.Chance(1, 3) {
			q.Input[len(q.Input)-1].E = ""
		}
		if q.Arg && r.Bool() {
			for k := r.Range(1, 4); k > 0; k-- {
				q.First = append(q.First, line())
			}
			if r.Bool() {
				q.First[len(q.First)-1].E = ""
			}
		}
		q.Pieces = genPieces(r, join(q.Input))
		if r.Chance(1, 4) {
			q.Chunk = genChunk(r, join(q.Input))
		}
		p.Procs = append(p.Procs, q)
	}
	p.Sched = genSched(r, 3000*n)
	return p
}

func noEnd(c rune) rune {
	if c == '\n' || c == '\r' {
		return 'x'
	}
	return c
}

func genPieces(r *rt.Rand, b []byte) []piece {
	var ps []piece
	add := func(n int) {
		q := piece{N: n, Wait: !r.Chance(1, 5)}
		if r.Chance(1, 8) {
			q.Idle = rt.Pick(r, []int{1, 1, 60, 3600, 86400 * 30})
		}
		ps = append(ps, q)
	}
	kind := r.Intn(4)
	last := 0
	for i := 0; i < len(b) && len(ps) < 200; i++ {
		cut := false
		switch kind {
		case 0: // lines
			cut = b[i] == '\n' || b[i] == '\r' && (i+1 == len(b) || b[i+1] != '\n')
		case 1: // some lines together, and a few cuts within
			cut = b[i] == '\n' && r.Chance(1, 3) || b[i] == '\r' && r.Chance(1, 3) || r.Chance(1, 60)
		case 2: // the start of the next line along with the end of this one
			cut = i > 1 && b[i-1] == '\n' && r.Chance(2, 3) || b[i] == '\n' && r.Chance(1, 3)
		default: // anywhere
			cut = r.Chance(1, 5)
		}
		if cut {
			add(i + 1 - last)
			last = i + 1
		}
	}
	if last < len(b) {
		add(len(b) - last)
	}
	return ps
}

func init() {
	register(Check{ID: "C23", N: 6000,
		Rule: "a plan is a world, 1-3 runs of gosudachicli whose input comes in pieces (cut at lines, within them, within characters and CR LF pairs), most of which only come when everything before them is answered, pauses, and a schedule; non-trivial when some input had to wait for an answer"},
		genInter, execInter)
}

// talk is the other side of a run.
type talk struct {
	q     *interProc
	pr    *vos.Proc
	data  []byte
	ended []int
	res   []lineRes // of the lines of First, then of data
	nres  int       // lines of First
	at    int       // pieces sent
	come  int
	m     *vos.Machine
	waits int
	asked bool   // and found to be unanswered
	last  [3]int // when
}

// due is what must have been answered to what has come.
func (t *talk) due() (out string, errs int, stop bool) {
	n := t.nres
	for i, e := range t.ended {
		if e < 0 || e > t.come || t.data[e-1] == '\r' && e == t.come {
			break
		}
		n = t.nres + i + 1
	}
	var b strings.Builder
	for _, r := range t.res[:n] {
		if r.err {
			if !t.q.Force {
				return b.String(), 1, true
			}
			errs++
		}
		b.WriteString(r.out)
	}
	return b.String(), errs, false
}

// unanswered tells what is missing.
func (t *talk) unanswered() string {
	want, errs, stop := t.due()
	if stop {
		return "the program should have ended"
	}
	if got := string(t.pr.Stdout); len(got) < len(want) {
		return diff(got, want)
	}
	if n := strings.Count(string(t.pr.Stderr), "\n"); n < errs {
		return fmt.Sprintf("%d lines cannot be analysed, %d messages", errs, n)
	}
	return ""
}

// gate is called when the program wants more than the first read bytes.
func (t *talk) gate(read int) int {
	if t.come > read {
		return t.come
	}
	if t.come > len(t.data) {
		return t.come
	}
	n, wait, idle := len(t.data)-t.come, true, 0
	if t.at < len(t.q.Pieces) {
		pc := &t.q.Pieces[t.at]
		n, wait, idle = max(1, min(n, pc.N)), pc.Wait, pc.Idle
	}
	if wait {
		// (asked at every step while others run)
		now := [3]int{t.come, len(t.pr.Stdout), len(t.pr.Stderr)}
		if t.asked && now == t.last {
			return t.come
		}
		t.asked, t.last = true, now
		if t.unanswered() != "" {
			return t.come
		}
	}
	if wait && t.come > 0 {
		t.waits++
	}
	if idle > 0 {
		t.m.Advance(int64(min(idle, 1<<30)) * 1e9)
	}
	t.at++
	if t.come == len(t.data) {
		t.come++ // the end
	} else {
		t.come += n
	}
	return t.come
}

func execInter(c *Ctx, p *interPlan) {
	w := c.world(p.World)
	if w == nil || len(p.Procs) == 0 || len(p.Procs) > 6 {
		c.Skipped = true
		return
	}
	m := c.worldMachine(w)
	m.NoTimers = true // an answer given later on is not one given before waiting
	s := rt.New(p.Sched, world.Limit*2, p.Map)
	var ts []*talk
	for i := range p.Procs {
		q := &p.Procs[i]
		if len(q.Mode) != 1 || !strings.Contains("ABC", q.Mode) {
			c.Skipped = true
			return
		}
		t := &talk{q: q, data: join(q.Input), m: m}
		first, _ := splitLines(join(q.First))
		if !q.Arg {
			first = nil
		}
		lines, ended := splitLines(t.data)
		t.nres, t.ended = len(first), ended
		t.res = c.blocks(w, q.Mode, q.All, append(append([]string{}, first...), lines...))
		for _, r := range t.res {
			if r.bad {
				c.Fail("panic", "a line cannot be answered, not even alone, for a panic: %s", r.why)
				return
			}
		}
		args := []string{"-m", q.Mode}
		if q.Merge {
			args = append(args, "-s", string(w.Files["/w/sudachi.json"]))
		} else {
			args = append(args, "-r", "/w/sudachi.json")
		}
		if q.All {
			args = append(args, "-a")
		}
		if q.Force {
			args = append(args, "-f")
		}
		if q.Arg {
			if len(q.First) > 0 {
				m.Disk.Put(inName(i), join(q.First))
				args = append(args, inName(i))
			}
			args = append(args, "/dev/stdin")
		}
		t.pr = m.NewProc("gosudachicli", "gosudachicli", args...)
		t.pr.Stdin = t.data
		t.pr.Gate = t.gate
		t.pr.ChunksOf = map[string]vos.Chunk{"/dev/stdin": q.Chunk}
		ts = append(ts, t)
		world.StartCmd(s, t.pr)
	}
	s.Run()
	c.Rec = s.Rec
	if s.Deadlock {
		c.ran(s)
		for i, t := range ts {
			if t.pr.Exited || t.pr.PanicMsg != "" {
				continue
			}
			if miss := t.unanswered(); miss != "" {
				c.Fail("unanswered", "gosudachicli (run %d, %v) waits for more input, %d bytes of its input have come (ending in %q), and has not answered: %s", i, t.pr.Args[1:], t.come, tail(t.data[:min(t.come, len(t.data))]), miss)
				return
			}
		}
		c.Fail("deadlock", "gosudachicli does not go on: %s", s.Blocked())
		return
	}
	c.ran(s)
	if s.Hang {
		c.Fail("hang", "gosudachicli: no end after %d steps (task %s) in %s", rt.Steps(), s.HangTask, s.HangStk)
		return
	}
	if s.Deep {
		c.Fail("recursion", "gosudachicli: unbounded recursion")
		return
	}
	waits := 0
	for i, t := range ts {
		waits += t.waits
		if t.pr.PanicMsg != "" {
			c.Fail("panic", "gosudachicli panics: %s\n%s", t.pr.PanicMsg, short(t.pr.PanicStk))
			return
		}
		want, failed := "", false
		for _, r := range t.res {
			if r.err && !t.q.Force {
				failed = true
				break
			}
			want += r.out
		}
		c.Judged += len(t.res)
		if got := string(t.pr.Stdout); got != want {
			c.Fail("output", "run %d: output differs from the analysis of the input's lines (status %d %s): %s", i, t.pr.Code, world.Tail(t.pr.Stderr), diff(got, want))
			return
		}
		if (t.pr.Code != 0) != failed {
			c.Fail("status", "run %d: status %d (a line cannot be analysed: %v): %s", i, t.pr.Code, failed, world.Tail(t.pr.Stderr))
			return
		}
	}
	c.fired(ctl{fired: map[string]int{"input held back until answered": waits}})
	c.Trivial = waits == 0
}

func tail(b []byte) string {
	if len(b) > 40 {
		b = b[len(b)-40:]
	}
	return string(b)
}
