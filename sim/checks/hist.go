package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// histOp is one step of a history.
type histOp struct {
	Op     string       `json:"op"`             // build, ubuild, conv, v1, reload, load
	Src    int          `json:"src,omitempty"`  // source built
	From   int          `json:"from,omitempty"` // slot read: the system dictionary, the file converted
	To     int          `json:"to,omitempty"`   // slot written
	J      bool         `json:"j,omitempty"`
	Parts  int          `json:"parts,omitempty"`
	Lib    bool         `json:"lib,omitempty"`
	Faults []*vos.Fault `json:"faults,omitempty"`
	Room   int          `json:"room,omitempty"`
	Kill   int          `json:"kill,omitempty"` // step at which the command is killed
	Power  string       `json:"power,omitempty"`
	Wait   int64        `json:"wait,omitempty"` // seconds the clock jumps before
	Users  []int        `json:"users,omitempty"`
	Text   string       `json:"text,omitempty"`
}

type c08Plan struct {
	Srcs []source `json:"srcs"` // 0 and 1 are systems, the others users
	Sys  int      `json:"sys"`  // number of system sources
	Ops  []histOp `json:"ops"`
	Map  uint64   `json:"map"`
}

const slots = 5

func slot(i int) string { return fmt.Sprintf("/w/d%d.dic", ((i%slots)+slots)%slots) }

var edges = []int{127, 128, 129, 255, 256, 257, 16383, 16384, 32766, 32767, 32768, 33000}

// genSource makes a source, odd ones among them.
func genSource(r *rt.Rand, sys *source, tame bool) source {
	var s source
	n := rt.Pick(r, []int{0, 3, 8, 20, 40})
	if sys == nil {
		s.Dict = *world.GenSystem(r, n)
		if !tame && r.Chance(1, 2) {
			// just a few words
			s.Entries = nil
			s.N = r.Range(1, 8)
			for i := r.Range(1, 12); i > 0; i-- {
				s.Entries = append(s.Entries, world.Entry{Head: rt.Pick(r, oddHeads(r)), Left: r.Intn(s.N), Right: r.Intn(s.N), Cost: r.Range(-32768, 32767), Surf: rt.Pick(r, oddHeads(r)), Pos: rt.Pick(r, world.PosList), Read: rt.Pick(r, oddHeads(r)), Norm: rt.Pick(r, oddHeads(r)), Dic: "*", Mode: rt.Pick(r, []string{"A", "B", "C", "x"}), A: "*", B: "*", W: "*", Esc: r.Intn(4)})
			}
		}
		if r.Chance(1, 4) {
			s.M = r.Range(1, 9)
		}
	} else {
		s.Dict = *world.GenUser(r, max(1, n/2), &sys.Dict)
		if len(sys.Entries) > 0 && r.Chance(1, 3) {
			// no parts of speech of its own
			for i := range s.Entries {
				s.Entries[i].Pos = sys.Entries[r.Intn(len(sys.Entries))].Pos
			}
		}
	}
	s.Desc = rt.Pick(r, []string{"", "d", "説明 description", "a, \"b\"", strings.Repeat("x", r.Range(254, 256)), strings.Repeat("あ", 85), s.Dict.Desc, s.Dict.Desc})
	s.Style = r.Intn(4)
	if sys == nil && r.Chance(1, 3) {
		// cells given again: the last line counts
		for k := r.Range(1, 4); k > 0; k-- {
			s.Extra = append(s.Extra, fmt.Sprintf("%d %d %d", r.Intn(s.N), r.Intn(s.right()), rt.Pick(r, []int{0, 0, 1, -1, 100, 2000, -2000})))
		}
	}
	if tame {
		return s
	}
	for k := r.Intn(4); k > 0 && len(s.Entries) > 0; k-- {
		e := &s.Entries[r.Intn(len(s.Entries))]
		switch r.Intn(10) {
		case 0:
			e.Left, e.Right = rt.Pick(r, []int{-1, 0, 32767, -32768, -2}), rt.Pick(r, []int{-1, 0, 32767, -32768})
		case 1:
			e.Cost = rt.Pick(r, []int{-32768, 32767, 0, -1})
		case 2:
			e.Read = ""
		case 3:
			e.Norm = ""
		case 4:
			e.Surf = rt.Pick(r, oddHeads(r))
		case 5:
			e.Pos = append([]string{}, e.Pos...)
			e.Pos[r.Intn(6)] = rt.Pick(r, []string{"", "新", "*", "名詞", "🍣", "x y"})
		case 6:
			e.Dic = fmt.Sprint(r.Intn(len(s.Entries)))
		case 7:
			e.Head = rt.Pick(r, oddHeads(r))
		case 8:
			// long lists of units
			var u []string
			for i := rt.Pick(r, []int{1, 2, 126, 127}); i > 0; i-- {
				u = append(u, fmt.Sprint(r.Intn(len(s.Entries))))
				if sys != nil && r.Bool() {
					u[len(u)-1] = "U" + u[len(u)-1]
				} else if sys != nil {
					u[len(u)-1] = fmt.Sprint(r.Intn(max(1, len(sys.Entries))))
				}
			}
			l := strings.Join(u, "/")
			switch r.Intn(3) {
			case 0:
				e.A, e.Mode = l, "C"
			case 1:
				e.B, e.Mode = l, "C"
			default:
				e.W = l
			}
		default:
			// the same entry again
			s.Entries = append(s.Entries, *e)
		}
	}
	if r.Chance(1, 4) {
		for k := r.Range(1, 2); k > 0; k-- {
			s.Long = append(s.Long, long{Entry: r.Intn(100), Col: rt.Pick(r, []string{"head", "surf", "read", "norm", "pos"}), Unit: rt.Pick(r, []string{"x", "あ", "é", "🍣"}), Len: rt.Pick(r, edges[:9])})
		}
	}
	if r.Chance(1, 8) {
		s.Holes = r.Range(1, 5)
	}
	if sys == nil && r.Chance(1, 6) {
		s.Extra = append(s.Extra, rt.Pick(r, []string{"", "  ", "0 0 7", "0\t0\t-7", " 0  0   12 "}))
	}
	if r.Chance(1, 4) {
		s.corrupt(r, sys)
	}
	if r.Chance(1, 60) {
		s.Fill = append(s.Fill, fill{"homo", rt.Pick(r, []int{100, 254, 255, 256, 257, 300, 600})})
	} else if r.Chance(1, 60) {
		s.Fill = append(s.Fill, fill{"words", rt.Pick(r, []int{200, 1000, 3000})})
	} else if r.Chance(1, 60) {
		s.Fill = append(s.Fill, fill{"pos", rt.Pick(r, []int{100, 300, 1000})})
	} else if sys == nil && r.Chance(1, 20) {
		// a matrix with more cells than 15 or 16 bits count
		n, m := rt.Pick(r, []int{182, 200, 256, 300, 600}), rt.Pick(r, []int{181, 200, 257, 300})
		if r.Chance(1, 4) {
			n, m = rt.Pick(r, []int{1, 3, 32767}), rt.Pick(r, []int{1, 2, 3})
		} else if r.Chance(1, 4) {
			n, m = rt.Pick(r, []int{1, 3}), 32767
		}
		if n >= s.N && m >= s.right() {
			s.MHead = fmt.Sprintf("%d %d", n, m)
			for i := 0; i < 30; i++ {
				s.Extra = append(s.Extra, fmt.Sprintf("%d %d %d", rt.Pick(r, []int{0, n - 1, r.Intn(n), r.Intn(n)}), rt.Pick(r, []int{0, m - 1, r.Intn(m), r.Intn(m)}), r.Range(-2000, 2000)))
			}
		}
	} else if r.Chance(1, 300) {
		s.Fill = append(s.Fill, fill{"pos", rt.Pick(r, []int{32700, 32755, 32756, 32757, 32766, 32767, 32768, 32769, 33000})})
	}
	return s
}

func oddHeads(r *rt.Rand) []string {
	return []string{"a", "ab", "abc", "b", "東", "東京", "東京都", "京", "京都", "都", "🍣", "🍣🍺", "\u00ff", "\u0100", "\x01", "\x7f", " ", "ｱ", "が", "か\u3099", "\u0080", "\U0010ffff", "\uffff", "-", "*", "/", "U1", "\"q\"", "{", "}", "u0041", "\\", "\\x", "a\\", "\\u", "\\\\", "\\u12", "\\u004g", "\\u0041", "\\u{110000}", "\\u{zz}", "\\u{}", "\\u{41", "\\uu0041", "{\\u{1f", "\\u1\\u0031", "\u200d", "あ", "ああ", "あああ"}
}

// corrupt makes something of a source unstorable, or doubtful.
func (s *source) corrupt(r *rt.Rand, sys *source) {
	if len(s.Entries) == 0 {
		return
	}
	e := &s.Entries[r.Intn(len(s.Entries))]
	n := len(s.Entries)
	switch r.Intn(17) {
	case 0:
		*rt.Pick(r, []*int{&e.Left, &e.Right, &e.Cost}) = rt.Pick(r, []int{32768, -32769, 65535, 1 << 33})
	case 1:
		e.Dic = fmt.Sprint(rt.Pick(r, []int{n, n + 1, n + 1000, 1 << 28, -2, 1<<31 - 1}))
	case 2:
		e.Dic = rt.Pick(r, []string{"", "x", "1x", "**", "99999999999"})
	case 3:
		e.Mode, e.A = "A", "0"
	case 4:
		e.Mode, e.A = "C", fmt.Sprint(rt.Pick(r, []int{n, n + 5, 1 << 29, -1}))
		if sys != nil {
			e.A = rt.Pick(r, []string{"U" + e.A, fmt.Sprint(len(sys.Entries)), fmt.Sprint(len(sys.Entries) + 7)})
		}
	case 5:
		*rt.Pick(r, []*string{&e.A, &e.B, &e.W}) = strings.Repeat("0/", rt.Pick(r, []int{127, 128, 200, 254, 255, 256})) + "0"
		e.Mode = "C"
	case 6:
		e.W = rt.Pick(r, []string{"無い語,名詞,普通名詞,一般,*,*,*,ナイ", "a,b", "", "/", "U", "x"})
	case 7:
		s.Desc = rt.Pick(r, []string{strings.Repeat("x", rt.Pick(r, []int{257, 300})), strings.Repeat("x", 255) + "あ", strings.Repeat("あ", 86), strings.Repeat("🍣", 65)})
	case 8:
		e.Head = ""
		e.Left = max(e.Left, 0)
	case 9:
		e.Head += "\x00" + rt.Pick(r, []string{"", "b"})
	case 10:
		e.Pos = append([]string{}, e.Pos...)
		e.Pos[r.Intn(6)] = rt.Pick(r, []string{"a,b", ",", "x,"})
	case 11:
		s.Raw = rt.Pick(r, []string{"a,b,c\n", "\n", "a\n", "# x\n", strings.Repeat(",", 16) + "\n", strings.Repeat(",", 18) + "\n"})
	case 12:
		s.Long = append(s.Long, long{Entry: r.Intn(100), Col: rt.Pick(r, []string{"head", "surf", "read", "norm", "pos"}), Unit: rt.Pick(r, []string{"x", "あ", "é", "🍣"}), Len: rt.Pick(r, []int{32768, 32769, 33000, 40000})})
	case 13:
		if sys == nil {
			s.Extra = append(s.Extra, fmt.Sprintf("%d %d 5", rt.Pick(r, []int{s.N, 0, -1, 0, s.N + 3, 32767}), rt.Pick(r, []int{s.right(), -1, s.right() + 1, 32767, 0})))
		}
	case 14:
		if sys == nil {
			s.Extra = append(s.Extra, rt.Pick(r, []string{"0 0", "x", "0 0 x", "0 x 0", "0 0 40000", "0 0 1 2", "40000 0 1"}))
		}
	case 15:
		if sys == nil {
			s.MHead = rt.Pick(r, []string{"", "5", "x y", "-1 5", "5 -1", "-2 -2", "40000 1", "0 0", "1 1", "3 3 3", "200 100"})
		}
	case 16:
		for i := range s.Entries {
			s.Entries[i].Left = -1
		}
	}
}

func genC08(r *rt.Rand, tier string) *c08Plan {
	p := &c08Plan{Sys: r.Range(1, 2), Map: r.Next() >> 12}
	tame := r.Bool() // only what can be loaded and used
	for i := 0; i < p.Sys; i++ {
		p.Srcs = append(p.Srcs, genSource(r, nil, tame && i == 0))
	}
	for i := r.Intn(4); i > 0; i-- {
		k := r.Intn(p.Sys)
		if tame {
			k = 0
		}
		p.Srcs = append(p.Srcs, genSource(r, &p.Srcs[k], tame && r.Chance(4, 5)))
	}
	j := r.Chance(1, 3)
	for i := 0; i < p.Sys; i++ {
		if i == 0 || r.Bool() {
			p.Ops = append(p.Ops, histOp{Op: "build", Src: i, To: i, J: j, Parts: r.Range(1, 3), Lib: r.Chance(1, 5)})
		}
	}
	if tame && len(p.Srcs) > p.Sys {
		for i := r.Range(1, 3); i > 0; i-- {
			p.Ops = append(p.Ops, histOp{Op: "ubuild", Src: p.Sys + r.Intn(len(p.Srcs)-p.Sys), To: 5 - i, Parts: r.Range(1, 3)})
		}
	}
	for n := r.Range(2, 9); n > 0; n-- {
		o := histOp{To: r.Intn(slots), J: j != r.Chance(1, 12), Parts: r.Range(1, 3), Lib: r.Chance(1, 6)}
		if r.Chance(1, 10) {
			o.Wait = int64(rt.Pick(r, []int{-1 << 31, -5, 1, 3600, 1 << 31, 1 << 34}))
		}
		switch x := r.Intn(20); {
		case x < 3:
			o.Op, o.Src = "build", r.Intn(p.Sys)
		case x < 9 && len(p.Srcs) > p.Sys:
			o.Op, o.Src, o.From = "ubuild", p.Sys+r.Intn(len(p.Srcs)-p.Sys), r.Intn(2)
		case x < 14:
			o.Op, o.From = "conv", r.Intn(slots)
			if r.Chance(1, 4) {
				o.To = o.From
			}
			if r.Chance(1, 3) {
				j = !j
			}
		case x < 15:
			o.Op, o.From = "v1", r.Intn(slots)
		case x < 16:
			o.Op = "reload"
		default:
			o.Op, o.From = "load", r.Intn(2)
			for k := r.Intn(4); k > 0; k-- {
				o.Users = append(o.Users, r.Intn(12))
			}
			if r.Chance(1, 6) {
				for len(o.Users) < rt.Pick(r, []int{14, 15, 16}) {
					o.Users = append(o.Users, r.Intn(12))
				}
			}
			o.Text = strings.Repeat("東京都a🍣", r.Intn(3))
			for k := r.Intn(6); k > 0; k-- {
				o.Text += rt.Pick(r, oddHeads(r))
			}
			o.Text = strings.ReplaceAll(o.Text, "\x00", "")
		}
		if !o.Lib && (o.Op == "build" || o.Op == "ubuild" || o.Op == "conv") && r.Chance(1, 4) {
			switch r.Intn(4) {
			case 0:
				o.Kill = 1 + r.Intn(rt.Pick(r, []int{2000, 50000, 300000}))
			case 1:
				o.Room = 1 + r.Intn(rt.Pick(r, []int{100, 5000}))
			default:
				f := &vos.Fault{Op: rt.Pick(r, []string{"write", "write", "read", "open", "close", "sync", "rename", "seek", "stat", "mmap"}), Nth: 1 + r.Intn(5), Err: rt.Pick(r, errKinds), Sticky: r.Chance(1, 3)}
				if r.Chance(1, 3) {
					f.Act, f.After = rt.Pick(r, []string{"kill", "power"}), r.Bool()
				}
				o.Faults = append(o.Faults, f)
			}
			o.Power = rt.Pick(r, []string{"seed", "seed", "none", "all", "data", "meta"})
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// state is what a slot should hold.
type state struct {
	d   *content
	u16 bool
	raw []byte
}

type hist struct {
	c     *Ctx
	p     *c08Plan
	m     *vos.Machine
	slots [slots]*state
	n     int
	app   *vos.Proc // the process that goes on using the library, if there is one
}

// lib runs fn in a process: a new one, or one that does all such steps.
func (h *hist) lib(name string, fn func()) *vos.Proc {
	if h.p.Map&1 == 0 {
		return h.c.lib(h.m, name, fn)
	}
	if h.app == nil || h.app.Dead() {
		h.app = h.m.NewProc("app", "")
	}
	s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, h.p.Map+uint64(h.n))
	s.Spawn(name, h.app, fn)
	h.c.run(s, name)
	return h.app
}

func init() {
	register(Check{ID: "C08", N: 8000,
		Rule: "a plan is a few sources, odd and unstorable ones among them, and a history of builds, user builds, conversions, loads and restarts over five paths, with faults and kills in some; non-trivial when at least one dictionary was stored and verified"},
		genC08, execC08)
}

func execC08(c *Ctx, p *c08Plan) {
	if p.Sys < 1 || p.Sys > len(p.Srcs) || len(p.Ops) > 60 {
		c.Skipped = true
		return
	}
	h := &hist{c: c, p: p, m: c.machine()}
	c.Trivial = true
	for i := range p.Ops {
		o := &p.Ops[i]
		if o.Wait > -1<<40 && o.Wait < 1<<40 {
			h.m.Advance(o.Wait * 1e9)
			if h.m.Clock < 0 {
				h.m.Clock = 0
			}
		}
		h.n = i
		switch o.Op {
		case "build", "ubuild":
			h.build(o)
		case "conv":
			h.conv(o)
		case "v1":
			h.v1(o)
		case "reload":
			h.all()
		case "load":
			h.load(o)
		}
		if c.V != nil {
			c.V.Msg = fmt.Sprintf("step %d (%s): %s", i, o.Op, c.V.Msg)
			return
		}
	}
	h.all()
	if c.V != nil {
		c.V.Msg = "at the end: " + c.V.Msg
	}
}

func (h *hist) all() {
	for i, s := range h.slots {
		if s != nil {
			h.verify(i, s)
		}
	}
}

// system is a slot with a system dictionary, the one asked for or one after.
func (h *hist) system(i int) int {
	for k := 0; k < slots; k++ {
		if st := h.at(i + k); st != nil && st.d.sys == nil {
			return (((i+k)%slots + slots) % slots)
		}
	}
	return i
}

func (h *hist) at(i int) *state { return h.slots[((i%slots)+slots)%slots] }

// command runs a program under an operation's faults.
func (h *hist) command(o *histOp, cmd string, args ...string) *vos.Proc {
	m := h.m
	m.Disk.Sync() // what was there before is on the disk by now
	m.Faults = o.Faults
	m.Disk.Capacity = 0
	if o.Room > 0 {
		m.Disk.Capacity = m.Disk.Used() + int64(o.Room) - 1
	}
	m.OnPower = func() { m.Disk.PowerLoss(o.Power, rt.NewRand(uint64(h.n)*77+h.p.Map)) }
	pr := m.NewProc(cmd, cmd, args...)
	s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, h.p.Map+uint64(h.n))
	if o.Kill > 0 {
		s.KillAt(uint64(o.Kill), func() {
			h.c.fired(ctl{fired: map[string]int{"kill at a step": 1}})
			pr.Kill()
		})
	}
	world.StartCmd(s, pr)
	h.c.run(s, cmd)
	m.Faults = nil
	m.Disk.Capacity = 0
	m.Restart()
	return pr
}

// after settles what a slot holds once an operation that should store want
// there has ended.
func (h *hist) after(o *histOp, pr *vos.Proc, want *state, v int, why string) {
	c := h.c
	if c.V != nil {
		return
	}
	path := slot(o.To)
	k := ((o.To % slots) + slots) % slots
	now, ok := h.m.Disk.Get(path)
	old := h.slots[k]
	unchanged := (!ok && old == nil) || (ok && old != nil && bytes.Equal(now, old.raw))
	if pr.Killed {
		c.note("killed")
		if unchanged {
			return
		}
		if !ok || want == nil {
			c.Fail("lost", "after it was killed, %s is neither what it was nor new", path)
			return
		}
		// complete, or it will not verify
		want.raw = now
		h.slots[k] = want
		h.verify(k, want)
		return
	}
	refused := pr.Code != 0
	if pr.PanicMsg != "" && v != mustRefuse && len(o.Faults) == 0 {
		c.Fail("panic", "%s %v panics: %s\n%s", pr.Cmd, pr.Args[1:], pr.PanicMsg, short(pr.PanicStk))
		return
	}
	faulty := len(o.Faults) > 0 || o.Room > 0
	c.Judged++
	if refused {
		c.note("refused")
		if !unchanged {
			c.Fail("damaged", "%s %v failed with status %d but changed %s: %s", pr.Cmd, pr.Args[1:], pr.Code, path, world.Tail(pr.Stderr))
			return
		}
		if v == mustAccept && !faulty {
			c.Fail("refused", "%s %v refuses a valid source with status %d: %s", pr.Cmd, pr.Args[1:], pr.Code, world.Tail(pr.Stderr))
		}
		return
	}
	if v == mustRefuse {
		c.Fail("accepted", "%s %v succeeds although %s", pr.Cmd, pr.Args[1:], why)
		return
	}
	if v == mayRefuse {
		c.note("doubtful source accepted: " + why[strings.Index(why, ":")+1:])
	}
	if !ok {
		c.Fail("missing", "%s %v succeeds but there is no %s", pr.Cmd, pr.Args[1:], path)
		return
	}
	want.raw = now
	h.slots[k] = want
	h.verify(k, want)
}

func (h *hist) build(o *histOp) {
	c := h.c
	if o.Src < 0 || o.Src >= len(h.p.Srcs) {
		return
	}
	s := &h.p.Srcs[o.Src]
	user := o.Op == "ubuild"
	if user != (o.Src >= h.p.Sys) {
		return
	}
	var sys *content
	j, from := o.J, o.From
	if user {
		from = h.system(o.From)
		st := h.at(from)
		if st == nil || st.d.sys != nil {
			return
		}
		if slot(from) == slot(o.To) && o.Lib {
			return
		}
		sys, j = st.d, st.u16
	}
	if s.N > 300 || s.M > 300 || s.N < 0 || s.M < 0 {
		return
	}
	d, v, why := s.compile(sys, j)
	args := []string{"-o", slot(o.To), "-d", s.Desc}
	if j {
		args = append(args, "-j")
	}
	var files []string
	for i, b := range s.lexicon(j, o.Parts) {
		f := fmt.Sprintf("/w/src%d-%d.csv", o.Src, i)
		h.m.Disk.Put(f, b)
		files = append(files, f)
	}
	cmd := "userdicbuilder"
	if user {
		args = append(args, "-s", slot(from))
	} else {
		cmd = "dicbuilder"
		f := fmt.Sprintf("/w/matrix%d.def", o.Src)
		h.m.Disk.Put(f, s.matrix())
		args = append(args, "-m", f)
	}
	t0 := h.m.Clock
	var pr *vos.Proc
	if o.Lib {
		pr = h.libBuild(o, s, user, from, j, files)
	} else {
		pr = h.command(o, cmd, append(args, files...)...)
	}
	d.created = [2]int64{floorSec(t0), floorSec(h.m.Clock)}
	h.after(o, pr, &state{d: d, u16: j}, v, why)
	_ = c
}

func floorSec(ns int64) int64 { return time.Unix(0, ns).Unix() }

// libBuild does with the library what the commands do, into the slot.
func (h *hist) libBuild(o *histOp, s *source, user bool, from int, j bool, files []string) *vos.Proc {
	m := h.m
	var failed error
	pr := h.lib("library builder", func() {
		failed = func() error {
			ver := uint64(dictionary.SystemDictVersion)
			if user {
				ver = dictionary.UserDictVersion2
			}
			hb, err := dictionary.NewDictionaryHeader(ver, m.Clock/1e9, s.Desc).ToBytes()
			if err != nil {
				return err
			}
			f := &memFile{b: hb, pos: int64(len(hb))}
			if user {
				sd, err := dictionary.ReadSystemDictionary(slot(from), j)
				if err != nil {
					return err
				}
				defer sd.Close()
				b := dictionary.NewDictionaryBuilder(int64(len(hb)), sd.Lexicon, j)
				store := dictionary.NewPosTableUser(sd.Grammar)
				for _, x := range files {
					t, _ := m.Disk.Get(x)
					if err := b.BuildLexicon(store, bytes.NewReader(t)); err != nil {
						return err
					}
				}
				if err := b.WriteGrammarUser(&store.PosTable, f); err != nil {
					return err
				}
				if err := b.WriteLexicon(f, store); err != nil {
					return err
				}
			} else {
				b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, j)
				store := dictionary.NewPosTable()
				for _, x := range files {
					t, _ := m.Disk.Get(x)
					if err := b.BuildLexicon(store, bytes.NewReader(t)); err != nil {
						return err
					}
				}
				if err := b.WriteGrammar(store, bytes.NewReader(s.matrix()), f); err != nil {
					return err
				}
				if err := b.WriteLexicon(f, store); err != nil {
					return err
				}
			}
			m.Disk.Put(slot(o.To), f.b)
			return nil
		}()
	})
	q := *pr
	if failed != nil {
		q.Code, q.Stderr = 1, []byte(failed.Error())
	}
	return &q
}

// convertible tells whether a content can be stored in the other encoding.
func (d *content) convertible(u16 bool) (v int, why string) {
	long := func(s string) bool { return units(s, u16) > 32767 }
	for i := range d.es {
		e := &d.es[i]
		if long(e.surf) || long(e.norm) || long(e.read) {
			return mustRefuse, fmt.Sprintf("entry %d has a string too long for the encoding", i)
		}
	}
	for _, p := range d.pos {
		for _, x := range strings.Split(p, "\x00") {
			if long(x) {
				return mustRefuse, "a part of speech is too long for the encoding"
			}
		}
	}
	return mustAccept, ""
}

func (h *hist) conv(o *histOp) {
	st := h.at(o.From)
	if st == nil {
		return
	}
	u16 := !st.u16
	v, why := st.d.convertible(u16)
	args := []string{"-o", slot(o.To)}
	if u16 {
		args = append(args, "-j")
	}
	if o.Lib {
		if v == mustRefuse {
			return
		}
		var out []byte
		var err error
		pr := h.lib("library converter", func() { out, err = libConvert(slot(o.From), st.u16) })
		if h.c.V != nil || pr.PanicMsg != "" || err != nil {
			h.c.Fail("convert", "the library does not convert %s: %v %s\n%s", slot(o.From), err, pr.PanicMsg, short(pr.PanicStk))
			return
		}
		h.m.Disk.Put(slot(o.To), out)
		h.after(o, pr, &state{d: st.d, u16: u16}, v, why)
		return
	}
	pr := h.command(o, "dicconv", append(args, slot(o.From))...)
	h.after(o, pr, &state{d: st.d, u16: u16}, v, why)
}

// makeV1 makes a version 1 user dictionary out of a newer one without parts of
// speech of its own; nil if it has some.
func makeV1(b []byte) []byte {
	le := binary.LittleEndian
	if len(b) < 300 || le.Uint64(b) != dictionary.UserDictVersion2 || le.Uint16(b[272:]) != 0 {
		return nil
	}
	n := append([]byte{}, b[:272]...)
	le.PutUint64(n, dictionary.UserDictVersion)
	rest := append([]byte{}, b[278:]...) // no table, no matrix
	n = append(n, rest...)
	pos := 272
	pos += 4 + 4*int(le.Uint32(n[pos:]))
	pos += 4 + int(le.Uint32(n[pos:]))
	words := int(le.Uint32(n[pos:]))
	pos += 4 + 6*words
	for i := 0; i < words; i++ {
		le.PutUint32(n[pos+4*i:], le.Uint32(n[pos+4*i:])-6)
	}
	return n
}

// v1 makes a user dictionary of the older version, which has no parts of
// speech of its own.
func (h *hist) v1(o *histOp) {
	var st *state
	for k := 0; k < slots && (st == nil || st.d.sys == nil || len(st.d.pos) > 0 || st.d.v1); k++ {
		st = h.at(o.From + k)
	}
	if st == nil || st.d.sys == nil || len(st.d.pos) > 0 || st.d.v1 {
		return
	}
	n := makeV1(st.raw)
	h.m.Disk.Put(slot(o.To), n)
	d := *st.d
	d.v1 = true
	s := &state{d: &d, u16: st.u16, raw: n}
	h.slots[((o.To%slots)+slots)%slots] = s
	h.c.note("version 1 user dictionary made")
	h.verify(o.To, s)
}

// verify reads a file back in every way.
func (h *hist) verify(k int, st *state) {
	c := h.c
	path := slot(k)
	d := st.d
	if c.V != nil {
		return
	}
	c.Trivial = false
	var f string
	bad := func(s string, a ...interface{}) {
		if f == "" {
			f = fmt.Sprintf(s, a...)
		}
	}
	// a system dictionary for printing user dictionaries is needed
	sysAt := ""
	if d.sys != nil {
		for i, s := range h.slots {
			if s != nil && s.d == d.sys && s.u16 == st.u16 {
				sysAt = slot(i)
			}
		}
	}
	pr := h.lib("reader", func() {
		read := dictionary.ReadUserDictionary
		if d.sys == nil {
			read = dictionary.ReadSystemDictionary
		}
		bd, err := read(path, st.u16)
		if err != nil {
			bad("it does not open: %v", err)
			return
		}
		defer bd.Close()
		d.compare(bd, bad)
		if f != "" || sysAt == "" {
			return
		}
		sd, err := dictionary.ReadSystemDictionary(sysAt, st.u16)
		if err != nil {
			bad("its system dictionary does not open: %v", err)
			return
		}
		defer sd.Close()
		set := dictionary.NewLexiconSet(sd.Lexicon)
		set.Add(bd.Lexicon, int32(sd.Grammar.GetPartOfSpeechSize()))
		compareSet(set, []*content{d.sys, d}, bad)
	})
	if c.V != nil {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "reading %s back panics: %s\n%s", path, pr.PanicMsg, short(pr.PanicStk))
		return
	}
	if f != "" {
		c.Fail("content", "%s: %s", path, f)
		return
	}
	c.Judged += len(d.es)
	// the commands
	pr = c.cmd(h.m, "printdicheader", path)
	if c.V != nil {
		return
	}
	kind := "user"
	if d.sys == nil {
		kind = "system"
	}
	ok := pr.Code == 0
	var head string
	lines := strings.SplitN(string(pr.Stdout), "\n", 4)
	if len(lines) == 4 {
		t := int64(binary.LittleEndian.Uint64(st.raw[8:16]))
		tm := time.Unix(t, 0)
		zone, _ := tm.Zone()
		head = fmt.Sprintf("filename: %s\ntype: %s dictionary\ncreateTime: %s[%s]\ndescription: %s\n", path, kind, tm.Format(time.RFC3339), zone, d.desc)
	}
	if !ok || string(pr.Stdout) != head {
		c.Fail("header", "printdicheader %s shows %q (status %d), expected %q", path, short(string(pr.Stdout)), pr.Code, short(head))
		return
	}
	var args []string
	if st.u16 {
		args = append(args, "-j")
	}
	if d.sys != nil {
		if sysAt == "" {
			return
		}
		args = append(args, "-s", sysAt)
	}
	pr = c.cmd(h.m, "printdic", append(args, path)...)
	if c.V != nil {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "printdic of %s panics: %s\n%s", path, pr.PanicMsg, short(pr.PanicStk))
		return
	}
	if w := d.printed(); pr.Code != 0 || string(pr.Stdout) != w {
		c.Fail("print", "printdic %v, status %d: %s%s", append(args, path), pr.Code, diff(string(pr.Stdout), w), world.Tail(pr.Stderr))
	}
	c.Judged += 2
}

func i32s(a []int32) string { return fmt.Sprint(append([]int32{}, a...)) }

// compare compares an open dictionary with the model.
func (d *content) compare(bd *dictionary.BinaryDictionary, bad func(string, ...interface{})) {
	ver := uint64(dictionary.SystemDictVersion)
	if d.sys != nil {
		ver = dictionary.UserDictVersion2
	}
	if d.v1 {
		ver = dictionary.UserDictVersion
	}
	if bd.Header.Version != ver || bd.Header.Description != d.desc {
		bad("header %x %q, expected %x %q", bd.Header.Version, bd.Header.Description, ver, d.desc)
		return
	}
	if t := bd.Header.CreateTime; t < d.created[0] || t > d.created[1] {
		bad("creation time %d is not between %d and %d", t, d.created[0], d.created[1])
		return
	}
	if d.v1 != (bd.Grammar == nil) {
		bad("grammar present: %v", bd.Grammar != nil)
		return
	}
	if g := bd.Grammar; g != nil {
		if g.GetPartOfSpeechSize() != len(d.pos) {
			bad("%d parts of speech, expected %d", g.GetPartOfSpeechSize(), len(d.pos))
			return
		}
		step := max(1, len(d.pos)/400)
		for i := 0; i < len(d.pos); i += step {
			if got := g.GetPartOfSpeechString(int16(i)); strings.Join(got, "\x00") != d.pos[i] {
				bad("part of speech %d is %q, expected %q", i, got, d.pos[i])
				return
			}
		}
		if d.sys == nil {
			for l := 0; l < d.n; l++ {
				for r := 0; r < d.m; r++ {
					if got := g.GetConnectCost(int16(l), int16(r)); int(got) != d.cells[[2]int{l, r}] {
						bad("connection cost (%d,%d) is %d, expected %d", l, r, got, d.cells[[2]int{l, r}])
						return
					}
				}
			}
		}
	}
	x := bd.Lexicon
	if int(x.Size()) != len(d.es) {
		bad("%d words, expected %d", x.Size(), len(d.es))
		return
	}
	for i := range d.es {
		if s := d.word(i, x.GetLeftId(int32(i)), x.GetRightId(int32(i)), x.GetCost(int32(i)), x.GetWordInfo(int32(i)), 0, 0); s != "" {
			bad("%s", s)
			return
		}
	}
	for i := 0; i < len(d.es); i += max(1, len(d.es)/12) {
		e, want := &d.es[i], int32(-1)
		for k := range d.es {
			if o := &d.es[k]; o.surf == e.surf && o.pos == e.pos && o.read == e.read {
				want = int32(k)
				break
			}
		}
		if got := x.GetWordId(e.surf, int16(e.pos), e.read); got != want {
			bad("word %q,%d,%q is number %d, expected %d", short(e.surf), e.pos, short(e.read), got, want)
			return
		}
	}
	if got := x.GetWordId("no such word", 0, "x"); got != -1 {
		bad("a word there is not has number %d", got)
		return
	}
	for _, t := range d.texts() {
		for off := 0; off <= len(t); off++ {
			var got []string
			it := x.Lookup(t, off)
			for it.Next() {
				id, end := it.Get()
				if it.Err() != nil {
					break
				}
				got = append(got, fmt.Sprintf("%d:%d", id, end))
				if len(got) > 100000 {
					break
				}
			}
			if it.Err() != nil {
				bad("lookup at %d of %q: %v", off, t, it.Err())
				return
			}
			sort.Strings(got)
			if want := d.lookup(t, off, func(i int) int32 { return int32(i) }); strings.Join(got, " ") != strings.Join(want, " ") {
				bad("lookup at %d of %q gives %v, expected %v", off, short(string(t)), short(fmt.Sprint(got)), short(fmt.Sprint(want)))
				return
			}
		}
	}
}

// texts are byte strings to look up in.
func (d *content) texts() [][]byte {
	var r [][]byte
	var hs []string
	for h := range d.byHead {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	step := max(1, len(hs)/60)
	var all, nul []byte
	for i := 0; i < len(hs); i += step {
		t := hs[i]
		if len(nul) < 200 && len(t) < 50 {
			// bytes that no headword goes on with, NUL among them
			nul = append(append(nul, t...), 0, byte(i), 0, 0, byte(7*i+1))
		}
		if len(t) > 200 {
			// long headwords: as they are, and cut
			if len(r) < 3 {
				r = append(r, []byte("x"+t[:100]), []byte(t[:min(len(t), 290)]))
			}
			continue
		}
		if len(all) < 600 {
			all = append(all, t...)
		}
		if i%7 == 0 && len(t) > 1 {
			all = append(all, t[:len(t)-1]...)
		}
	}
	var bytes [256]byte
	for i := range bytes {
		bytes[i] = byte(i)
	}
	return append(r, all, nul, bytes[:], nil, []byte{0xff, 0xfe, 0x80})
}

// word compares one word; set and dict say how ids are to be read in a set of
// dictionaries.
func (d *content) word(i int, l, r, c int16, wi *dictionary.WordInfo, shift, dict int) string {
	e := &d.es[i]
	if int(l) != e.l || int(r) != e.r || int(c) != e.c {
		return fmt.Sprintf("word %d has parameters %d,%d,%d, expected %d,%d,%d", i, l, r, c, e.l, e.r, e.c)
	}
	return d.info(i, wi, shift, dict)
}

func (d *content) info(i int, wi *dictionary.WordInfo, shift, dict int) string {
	e := &d.es[i]
	pos := e.pos
	if d.sys != nil && pos >= len(d.sys.pos) {
		pos += shift
	}
	ids := func(a []int32) string {
		r := append([]int32{}, a...)
		if dict > 0 {
			for i, x := range r {
				if x>>28 != 0 {
					r[i] = int32(uint32(dict)<<28 | uint32(x)&0xfffffff)
				}
			}
		}
		return fmt.Sprint(r)
	}
	if wi.Surface != e.surf || int(wi.HeadwordLength) != e.hlen || int(wi.PosId) != pos || wi.NormalizedForm != e.norm || int(wi.DictionaryFormWordId) != e.dic || wi.DictionaryForm != d.dicForm(i) || wi.ReadingForm != e.read || i32s(wi.AUnitSplit) != ids(e.a) || i32s(wi.BUnitSplit) != ids(e.b) || i32s(wi.WordStructure) != ids(e.w) {
		return fmt.Sprintf("word %d is %s, expected %q,%d,%d,%q,%d,%q,%q,%v,%v,%v", i, short(fmt.Sprintf("%q", []interface{}{wi.Surface, fmt.Sprint(wi.HeadwordLength), fmt.Sprint(wi.PosId), wi.NormalizedForm, fmt.Sprint(wi.DictionaryFormWordId), wi.DictionaryForm, wi.ReadingForm, i32s(wi.AUnitSplit), i32s(wi.BUnitSplit), i32s(wi.WordStructure)})), short(e.surf), e.hlen, pos, short(e.norm), e.dic, short(d.dicForm(i)), short(e.read), ids(e.a), ids(e.b), ids(e.w))
	}
	return ""
}

// compareSet compares a lexicon set, the system dictionary first, with the
// models.
func compareSet(set *dictionary.LexiconSet, ds []*content, bad func(string, ...interface{})) {
	shift, total := 0, 0
	for k, d := range ds {
		for i := 0; i < len(d.es); i += max(1, len(d.es)/300) {
			id := int32(uint32(k)<<28 | uint32(i))
			c := set.GetCost(id)
			if d.es[i].c == -32768 {
				c = -32768 // computed at load time
			}
			if s := d.word(i, set.GetLeftId(id), set.GetRightId(id), c, set.GetWordInfo(id), shift, k); s != "" {
				bad("dictionary %d of the set: %s", k, s)
				return
			}
		}
		if k > 0 {
			shift += len(d.pos)
		}
		total += len(d.es)
	}
	if int(set.Size()) != total {
		bad("the set has %d words, expected %d", set.Size(), total)
		return
	}
	t := ds[0].texts()
	t = append(t, ds[len(ds)-1].texts()...)
	for _, t := range t {
		if len(t) > 300 {
			t = t[:300]
		}
		for off := 0; off <= len(t); off++ {
			var got, want []string
			it := set.Lookup(t, off)
			for it.Next() {
				id, end := it.Get()
				if it.Err() != nil {
					break
				}
				got = append(got, fmt.Sprintf("%d:%d", id, end))
				if len(got) > 100000 {
					break
				}
			}
			if it.Err() != nil {
				bad("lookup in the set at %d of %q: %v", off, t, it.Err())
				return
			}
			for k, d := range ds {
				want = append(want, d.lookup(t, off, func(i int) int32 { return int32(uint32(k)<<28 | uint32(i)) })...)
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				bad("lookup in the set at %d of %q gives %v, expected %v", off, short(string(t)), short(fmt.Sprint(got)), short(fmt.Sprint(want)))
				return
			}
		}
	}
}

// inSet opens dictionaries into one lexicon set and compares it.
func inSet(sys string, us []string, u16 bool, ds []*content, bad func(string, ...interface{})) {
	sd, err := dictionary.ReadSystemDictionary(sys, u16)
	if err != nil {
		bad("%v", err)
		return
	}
	defer sd.Close()
	set := dictionary.NewLexiconSet(sd.Lexicon)
	pos := sd.Grammar.GetPartOfSpeechSize()
	for i, u := range us {
		if set.IsFull() {
			bad("the set is full with %d user dictionaries", i)
			return
		}
		ud, err := dictionary.ReadUserDictionary(u, u16)
		if err != nil {
			bad("%v", err)
			return
		}
		defer ud.Close()
		set.Add(ud.Lexicon, int32(pos))
		pos += len(ds[i+1].pos)
	}
	compareSet(set, ds, bad)
}

// load creates a dictionary from a system and user dictionaries and compares
// what tokenizing tells with the models.
func (h *hist) load(o *histOp) {
	c := h.c
	from := h.system(o.From)
	st := h.at(from)
	if st == nil || len(st.d.pos) == 0 || st.d.n == 0 || st.d.m == 0 {
		return
	}
	ds := []*content{st.d}
	set := map[string]interface{}{"systemDict": slot(from), "utf16String": st.u16}
	for _, d := range st.d.es {
		// an id outside of the matrix cannot be used
		if d.head != "" && (d.l < 0 || d.l >= min(st.d.n, st.d.m) || d.r < 0 || d.r >= min(st.d.n, st.d.m)) {
			return
		}
	}
	var us []string
	var cand []int
	for k, u := range h.slots {
		if u != nil && u.d.sys == st.d && u.u16 == st.u16 {
			cand = append(cand, k)
		}
	}
	for _, k := range o.Users {
		if len(cand) == 0 || len(us) == 15 || k < 0 {
			continue
		}
		k = cand[k%len(cand)]
		u := h.at(k)
		ok := true
		for _, d := range u.d.es {
			if d.head != "" && (d.l < 0 || d.l >= min(st.d.n, st.d.m) || d.r < 0 || d.r >= min(st.d.n, st.d.m)) {
				ok = false
			}
			if d.c == -32768 && (d.surf == "" || len(d.surf) > 2000) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		us = append(us, slot(k))
		ds = append(ds, u.d)
	}
	total := 0
	for _, d := range ds {
		total += len(d.pos)
	}
	if total > 32768 {
		return
	}
	if us != nil {
		set["userDict"] = us
	}
	pos := st.d.posOf(0)
	if len(pos) != 6 {
		return
	}
	set["oovProviderPlugin"] = []interface{}{map[string]interface{}{"class": "SimpleOovProviderPlugin", "oovPOS": pos, "leftId": 0, "rightId": 0, "cost": 30000}}
	b, err := json.Marshal(set)
	if err != nil {
		return
	}
	var f string
	bad := func(s string, a ...interface{}) {
		if f == "" {
			f = fmt.Sprintf(s, a...)
		}
	}
	text := o.Text
	for k, d := range ds {
		for i := 0; i < len(d.es) && i < 40; i += 3 + k {
			if len(d.es[i].head) < 50 {
				text += d.es[i].head
			}
		}
	}
	text = strings.ReplaceAll(text, "\x00", "")
	found := 0
	pr := h.lib("app", func() {
		s := gosudachi.NewSettingsJSON()
		if err := s.ParseSettingsJSON("/w", bytes.NewReader(b)); err != nil {
			bad("settings: %v", err)
			return
		}
		oov, err := s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin)
		if err != nil {
			bad("plugins: %v", err)
			return
		}
		jd, err := gosudachi.NewJapaneseDictionary(s.GetBaseConfig(), nil, oov, nil, nil)
		if err != nil {
			if len(us) > 0 && (strings.Contains(err.Error(), "EOS isn't connected to BOS") || strings.Contains(err.Error(), "there is no morpheme at ")) {
				c.note("no computed cost: inhibited connections")
				return
			}
			bad("%v", err)
			return
		}
		defer jd.Close()
		if jd.GetPartOfSpeechSize() != total {
			bad("%d parts of speech after loading, expected %d", jd.GetPartOfSpeechSize(), total)
			return
		}
		if inSet(slot(from), us, st.u16, ds, bad); f != "" {
			return
		}
		ms, err := jd.Create().Tokenize("C", text)
		if err != nil {
			if strings.Contains(err.Error(), "EOS isn't connected to BOS") {
				return // inhibited connections
			}
			bad("Tokenize %q: %v", text, err)
			return
		}
		for i := 0; i < ms.Length(); i++ {
			m := ms.Get(i)
			if m.IsOOV() {
				continue
			}
			k := m.GetDictionaryId()
			if k < 0 || k >= len(ds) {
				bad("morpheme %q is from dictionary %d", m.Surface(), k)
				return
			}
			d := ds[k]
			id := int(uint32(m.GetWordId()) & 0xfffffff)
			if id >= len(d.es) {
				bad("morpheme %q is word %d of %d", m.Surface(), id, len(d.es))
				return
			}
			e := &d.es[id]
			if e.head != m.Surface() {
				bad("morpheme %q is word %d, whose headword is %q", m.Surface(), id, e.head)
				return
			}
			shift := 0
			for j := 1; j < k; j++ {
				shift += len(ds[j].pos)
			}
			if s := d.info(id, m.GetWordInfo(), shift, k); s != "" {
				bad("morpheme %q of dictionary %d: %s", m.Surface(), k, s)
				return
			}
			if p := m.PartOfSpeech(); strings.Join(p, "\x00") != strings.Join(d.posOf(e.pos), "\x00") {
				bad("morpheme %q of dictionary %d has part of speech %q, expected %q", m.Surface(), k, p, d.posOf(e.pos))
				return
			}
			if m.ReadingForm() != e.read || m.NormalizedForm() != e.norm || m.DictionaryForm() != d.dicForm(id) {
				bad("morpheme %q of dictionary %d: reading %q, normalised %q, dictionary form %q; expected %q, %q, %q", m.Surface(), k, m.ReadingForm(), m.NormalizedForm(), m.DictionaryForm(), e.read, e.norm, d.dicForm(id))
				return
			}
			found++
		}
	})
	if c.V != nil {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "loading %s with %v panics: %s\n%s", slot(from), us, pr.PanicMsg, short(pr.PanicStk))
		return
	}
	if f != "" {
		c.Fail("load", "loading %s with %v: %s", slot(from), us, f)
		return
	}
	c.Judged += found
	c.note(fmt.Sprintf("loaded with %d user dictionaries", len(us)))
}
