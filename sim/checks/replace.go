package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// rpVar is a new content for one of the world's dictionaries and how it gets
// there.
type rpVar struct {
	File   int          `json:"file"`
	Seed   uint64       `json:"seed"`
	Conv   bool         `json:"conv,omitempty"` // converted from the other encoding
	Kill   int          `json:"kill,omitempty"`
	Faults []*vos.Fault `json:"faults,omitempty"`
}

// rpReader uses the dictionaries meanwhile.
type rpReader struct {
	Kind  string `json:"kind"` // calls, words, load, open (in the app), printdic, printdicheader, gosudachicli, dicconv, userdicbuilder
	File  int    `json:"file,omitempty"`
	Calls []Call `json:"calls,omitempty"`
}

type c12Plan struct {
	World   world.Spec   `json:"world"`
	Vars    []rpVar      `json:"vars"`
	Readers []rpReader   `json:"readers"`
	Holds   []*vos.Fault `json:"holds,omitempty"` // where readers wait until the writers have ended
	Map     uint64       `json:"map"`
	Reuse   bool         `json:"reuse,omitempty"` // addresses of former mappings are used again
	Sched   rt.Schedule  `json:"sched"`
}

func init() {
	register(Check{ID: "C12", N: 9000,
		Rule: "a plan is an application with a loaded dictionary whose tasks tokenize, read word data and load again, and programs that print, convert or tokenize, while other programs rebuild or convert onto the loaded files, some killed or failing; non-trivial when a program that writes and a reader overlapped"},
		genC12, execC12)
}

var rpLibs = []string{"calls", "words", "load", "open", "openas"}
var rpCmds = []string{"printdic", "printdicheader", "gosudachicli", "dicconv", "userdicbuilder"}

// shifts tells whether a variant gives the words other numbers, so that user
// dictionaries built on the old one do not belong to it.
func (v *rpVar) shifts() bool { return v.File == 0 && v.Seed >= 4 }

func genC12(r *rt.Rand, tier string) *c12Plan {
	p := &c12Plan{World: smallSpec(r, 2), Map: r.Next() >> 12, Sched: genSched(r, 150000)}
	w := world.Get(p.World)
	for n := rt.Pick(r, []int{1, 1, 1, 2}); n > 0; n-- {
		v := rpVar{File: r.Intn(p.World.Users + 1), Seed: r.Next() % 5, Conv: r.Chance(1, 3)}
		switch r.Intn(5) {
		case 0:
			v.Kill = 1 + r.Intn(rt.Pick(r, []int{20000, 60000}))
		case 1:
			f := &vos.Fault{Op: rt.Pick(r, []string{"write", "write", "sync", "close", "rename", "seek", "any"}), Nth: 1 + r.Intn(4), Err: rt.Pick(r, errKinds), Sticky: r.Bool(), Partial: r.Intn(2) * r.Intn(3000)}
			if f.Op == "any" {
				f.Nth = 1 + r.Intn(60)
			}
			if r.Chance(1, 3) || f.Op == "any" {
				f.Act, f.After = "kill", r.Bool()
			}
			v.Faults = append(v.Faults, f)
		}
		p.Vars = append(p.Vars, v)
	}
	kinds := []string{"calls", "calls", "words", "load", "load", "open", "openas", "printdic", "printdicheader", "gosudachicli", "dicconv"}
	for i := range p.Vars {
		if p.Vars[i].shifts() && len(w.Users) > 0 {
			kinds = []string{"calls", "words", "open", "openas", "printdic", "printdicheader", "dicconv", "userdicbuilder", "userdicbuilder", "userdicbuilder"}
		}
	}
	for n := r.Range(1, 4); n > 0; n-- {
		d := rpReader{Kind: rt.Pick(r, kinds), File: r.Intn(p.World.Users + 1)}
		if r.Bool() {
			d.File = p.Vars[0].File
		}
		if in(d.Kind, []string{"calls", "load", "gosudachicli"}) {
			for k := r.Range(1, 3); k > 0; k-- {
				x := genCall(r, w, false)
				x.Text = strings.Map(func(r rune) rune {
					if r == '\n' || r == '\r' {
						return -1
					}
					return r
				}, x.Text)
				d.Calls = append(d.Calls, x)
			}
		}
		p.Readers = append(p.Readers, d)
	}
	p.Reuse = r.Bool()
	if r.Chance(1, 2) {
		// a replacement in between two operations of a reader
		for i, d := range p.Readers {
			h := &vos.Fault{Op: rt.Pick(r, []string{"open", "stat", "mmap", "stat", "mmap", "read", "close", "any"}), Nth: 1, Act: "hold", Until: "w", After: r.Chance(1, 3)}
			if h.Op == "any" || h.Op == "read" {
				h.Nth = 1 + r.Intn(30)
			} else if r.Bool() {
				h.Path = dicOf(p.Vars[0].File)
			} else {
				h.Nth = 1 + r.Intn(3)
			}
			if h.Proc = "app"; in(d.Kind, rpCmds) {
				h.Proc = fmt.Sprint(d.Kind, i)
			}
			p.Holds = append(p.Holds, h)
		}
	}
	return p
}

// variant makes another source of a world's dictionary with the same words.
func variant(w *world.World, file int, seed uint64) (csv, matrix []byte) {
	r := rt.NewRand(seed*31 + uint64(file))
	src := w.Sys
	if file > 0 {
		src = w.Users[file-1]
	}
	d := *src
	d.Entries = append([]world.Entry{}, src.Entries...)
	for i := range d.Entries {
		e := &d.Entries[i]
		if e.Cost > -20000 && e.Cost < 20000 {
			e.Cost += r.Range(-900, 900)
		}
		if seed == 2 {
			e.Norm = "x"
		}
		if r.Chance(1, 4) {
			e.Norm += rt.Pick(r, []string{"新", "新しい", ""})
			if seed == 3 { // by pages
				e.Norm += strings.Repeat("大", 80)
			}
		}
	}
	if file == 0 {
		if seed >= 4 {
			first := d.Entries[0]
			first.Norm += "旧"
			d.Entries = append([]world.Entry{first}, d.Entries...)
		}
		if seed%2 == 1 {
			d.MSeed ^= 0x55
		}
		matrix = d.Matrix()
	}
	return world.CSV(d.Entries, 0), matrix
}

// rpUse uses the files of a machine as a reader does and tells what it saw.
func (d *rpReader) lib(w *world.World, k *ctl) string {
	u16 := w.Spec.UTF16
	switch d.Kind {
	case "load":
		jd, err := world.Load("/w/sudachi.json", nil)
		if err != nil {
			return "load error: " + err.Error()
		}
		var b strings.Builder
		t := jd.Create()
		for i := range d.Calls {
			_, o := d.Calls[i].do(t, k)
			b.WriteString(o + "\n")
		}
		jd.Close()
		return b.String()
	case "open", "openas":
		open := dictionary.NewBinaryDictionary
		if d.Kind == "openas" {
			if open = dictionary.ReadSystemDictionary; d.File > 0 {
				open = dictionary.ReadUserDictionary
			}
		}
		bd, err := open(dicOf(d.File), u16)
		if err != nil {
			return "open error: " + err.Error()
		}
		defer bd.Close()
		return words(bd)
	}
	return ""
}

// words tells what an open dictionary holds.
func words(bd *dictionary.BinaryDictionary) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%x %q\n", bd.Header.Version, bd.Header.Description)
	x := bd.Lexicon
	for i := int32(0); i < x.Size(); i++ {
		fmt.Fprintf(&b, "%d %d %d %d %v\n", i, x.GetLeftId(i), x.GetRightId(i), x.GetCost(i), *x.GetWordInfo(i))
	}
	if g := bd.Grammar; g != nil {
		for i := 0; i < g.GetPartOfSpeechSize(); i++ {
			fmt.Fprintln(&b, g.GetPartOfSpeechString(int16(i)))
		}
		if bd.Header.Version == dictionary.SystemDictVersion {
			for i := int16(0); i < 6; i++ {
				fmt.Fprintln(&b, g.GetConnectCost(i, 0), g.GetConnectCost(0, i), g.GetConnectCost(i, i))
			}
		}
	}
	return b.String()
}

func (d *rpReader) proc(m *vos.Machine, w *world.World, n int) *vos.Proc {
	var args []string
	switch d.Kind {
	case "gosudachicli":
		var b []byte
		for i := range d.Calls {
			b = append(append(b, d.Calls[i].Text...), '\n')
		}
		in := fmt.Sprintf("/w/in%d.txt", n)
		m.Disk.Put(in, b)
		args = []string{"-f", "-a", "-r", "/w/sudachi.json", in}
	case "dicconv":
		args = c07Args(w, "dicconv", d.File, fmt.Sprintf("/w/conv%d.dic", n))
	case "userdicbuilder":
		args = []string{"-o", fmt.Sprintf("/w/ub%d.dic", n), "-s", "/w/system.dic", "-d", "user"}
		if w.Spec.UTF16 {
			args = append(args, "-j")
		}
		args = append(args, fmt.Sprintf("/w/user%d.csv", max(1, d.File)))
	default:
		args = c07Args(w, d.Kind, d.File, "")
	}
	return m.NewProc(fmt.Sprint(d.Kind, n), d.Kind, args...)
}

func (d *rpReader) saw(m *vos.Machine, pr *vos.Proc, n int) string {
	s := fmt.Sprintf("status %d\n", pr.Code)
	if pr.Code != 0 {
		return s + world.Tail(pr.Stderr)
	}
	if d.Kind == "dicconv" {
		b, _ := m.Disk.Get(fmt.Sprintf("/w/conv%d.dic", n))
		return s + string(mask(b))
	}
	if d.Kind == "userdicbuilder" {
		b, _ := m.Disk.Get(fmt.Sprintf("/w/ub%d.dic", n))
		return s + string(mask(b))
	}
	for _, l := range strings.SplitAfter(string(pr.Stdout), "\n") {
		if !strings.HasPrefix(l, "createTime: ") {
			s += l
		}
	}
	return s
}

func execC12(c *Ctx, p *c12Plan) {
	w := c.world(p.World)
	if w == nil || len(p.Vars) == 0 || len(p.Vars) > 3 || len(p.Readers) == 0 || len(p.Readers) > 8 {
		c.Skipped = true
		return
	}
	u16 := w.Spec.UTF16
	// the new contents
	news := make([][]byte, len(p.Vars))
	other := make([][]byte, len(p.Vars)) // in the other encoding, to convert
	for i := range p.Vars {
		v := &p.Vars[i]
		if v.File < 0 || v.File > len(w.Users) || v.Seed > 1000 {
			c.Skipped = true
			return
		}
		build := func(u16 bool) *outRef {
			return c.ref(fmt.Sprint("c12 ", w.Spec, v.File, v.Seed, u16), func() *outRef {
				m := c.worldMachine(w)
				csv, matrix := variant(w, v.File, v.Seed)
				m.Disk.Put("/w/v.csv", csv)
				m.Disk.Put("/w/v.def", matrix)
				args := []string{"-o", "/w/v.dic", "-d", "new"}
				if u16 {
					args = append(args, "-j")
				}
				cmd := "dicbuilder"
				if v.File > 0 {
					cmd = "userdicbuilder"
					sys := "/w/system.dic"
					if u16 != w.Spec.UTF16 {
						// its system dictionary in that encoding
						sys = "/w/othersys.dic"
						a := []string{"-o", sys}
						if u16 {
							a = append(a, "-j")
						}
						c.cmd(m, "dicconv", append(a, "/w/system.dic")...)
					}
					args = append(args, "-s", sys)
				} else {
					args = append(args, "-m", "/w/v.def")
				}
				pr := c.cmd(m, cmd, append(args, "/w/v.csv")...)
				b, _ := m.Disk.Get("/w/v.dic")
				return &outRef{out: b, code: pr.Code, err: string(pr.Stderr)}
			})
		}
		r := build(u16)
		if r.code != 0 {
			c.skip("a variant does not build")
			return
		}
		news[i] = r.out
		if v.Conv {
			r := build(!u16)
			if r.code != 0 {
				c.skip("a variant does not build")
				return
			}
			other[i] = r.out
		}
	}
	// what may be at each path
	may := map[string][]int{} // path: variants; -1 is the old one
	var paths []string
	for i := range p.Vars {
		f := dicOf(p.Vars[i].File)
		if may[f] == nil {
			may[f] = []int{-1}
			paths = append(paths, f)
		}
		may[f] = append(may[f], i)
	}
	sort.Strings(paths)
	var combos [][]int
	var rec func(i int, cur []int)
	rec = func(i int, cur []int) {
		if i == len(paths) {
			combos = append(combos, append([]int{}, cur...))
			return
		}
		for _, x := range may[paths[i]] {
			rec(i+1, append(cur, x))
		}
	}
	rec(0, nil)
	install := func(m *vos.Machine, combo []int) {
		for i, f := range paths {
			if combo[i] >= 0 {
				m.Disk.Put(f, news[combo[i]])
			}
		}
	}
	m := c.worldMachine(w)
	m.Reuse = p.Reuse
	app := m.NewProc("app", "")
	var d *gosudachi.JapaneseDictionary
	var bds []*dictionary.BinaryDictionary
	var err error
	c.lib2(app, func() {
		if d, err = world.Load("/w/sudachi.json", nil); err != nil {
			return
		}
		for i := 0; i <= len(w.Users); i++ {
			var b *dictionary.BinaryDictionary
			if b, err = dictionary.NewBinaryDictionary(dicOf(i), u16); err != nil {
				return
			}
			bds = append(bds, b)
		}
	})
	if c.V != nil {
		return
	}
	if err != nil {
		c.Fail("load", "the dictionary does not load: %v", err)
		return
	}
	// what each reader may see
	want := make([]map[string]bool, len(p.Readers))
	for i := range p.Readers {
		rd := &p.Readers[i]
		if rd.File < 0 || rd.File > len(w.Users) || rd.Kind == "userdicbuilder" && len(w.Users) == 0 || !in(rd.Kind, rpLibs) && !in(rd.Kind, rpCmds) {
			c.Skipped = true
			return
		}
		want[i] = map[string]bool{}
		switch rd.Kind {
		case "calls", "words":
			continue
		}
		for _, combo := range combos {
			key := fmt.Sprint("c12r ", w.Spec, rd, paths, combo)
			for _, k := range combo {
				if k >= 0 {
					key += fmt.Sprint(" ", p.Vars[k].Seed)
				}
			}
			r := c.ref(key, func() *outRef {
				rm := c.worldMachine(w)
				install(rm, combo)
				if in(rd.Kind, rpCmds) {
					pr := rd.proc(rm, w, i)
					c.runProc(pr)
					return &outRef{out: []byte(rd.saw(rm, pr, i))}
				}
				var s string
				c.lib(rm, "reference", func() { s = rd.lib(w, &ctl{}) })
				return &outRef{out: []byte(s)}
			})
			want[i][string(r.out)] = true
		}
	}
	var oldWords []string
	c.lib2(app, func() {
		for _, b := range bds {
			oldWords = append(oldWords, words(b))
		}
	})
	calls := make([][]string, len(p.Readers))
	for i := range p.Readers {
		if p.Readers[i].Kind == "calls" {
			calls[i] = c.expect(w, p.Readers[i].Calls, false)
		}
	}
	// all at once
	for _, h := range p.Holds {
		if h.Act != "hold" || h.Until != "w" {
			c.Skipped = true
			return
		}
		q := *h
		m.Faults = append(m.Faults, &q)
	}
	s := rt.New(p.Sched, world.Limit*2, p.Map)
	var writers []*vos.Proc
	for i := range p.Vars {
		v := &p.Vars[i]
		f := dicOf(v.File)
		var pr *vos.Proc
		name := fmt.Sprint("w", i)
		var args []string
		if v.Conv {
			src := fmt.Sprintf("/w/other%d.dic", i)
			m.Disk.Put(src, other[i])
			args = []string{"-o", f}
			if u16 {
				args = append(args, "-j")
			}
			pr = m.NewProc(name, "dicconv", append(args, src)...)
		} else {
			csv, matrix := variant(w, v.File, v.Seed)
			src := fmt.Sprintf("/w/v%d.csv", i)
			m.Disk.Put(src, csv)
			args = []string{"-o", f, "-d", "new"}
			if u16 {
				args = append(args, "-j")
			}
			if v.File == 0 {
				m.Disk.Put(fmt.Sprintf("/w/v%d.def", i), matrix)
				pr = m.NewProc(name, "dicbuilder", append(args, "-m", fmt.Sprintf("/w/v%d.def", i), src)...)
			} else {
				// on the system dictionary as it was
				m.Disk.Put("/w/oldsystem.dic", w.Files["/w/system.dic"])
				pr = m.NewProc(name, "userdicbuilder", append(args, "-s", "/w/oldsystem.dic", src)...)
			}
		}
		for _, x := range v.Faults {
			q := *x
			q.Proc = name
			m.Faults = append(m.Faults, &q)
		}
		writers = append(writers, pr)
		world.StartCmd(s, pr)
		if v.Kill > 0 {
			s.KillAt(uint64(v.Kill), func() {
				c.fired(ctl{fired: map[string]int{"kill at a step": 1}})
				pr.Kill()
			})
		}
	}
	busy := func() bool {
		for _, pr := range writers {
			if !pr.Dead() {
				return true
			}
		}
		return false
	}
	procs := make([]*vos.Proc, len(p.Readers))
	got := make([][]string, len(p.Readers))
	overlap := 0
	for i := range p.Readers {
		i := i
		rd := &p.Readers[i]
		if in(rd.Kind, rpCmds) {
			procs[i] = rd.proc(m, w, i)
			world.StartCmd(s, procs[i])
			overlap++
			continue
		}
		s.Spawn(fmt.Sprint(rd.Kind, i), app, func() {
			t := d.Create()
			var kept []*gosudachi.MorphemeList
			var then []string
			for rep, last := 0, false; rep < 40 && !last; rep++ {
				// once more when all is written
				last = !busy()
				if !last {
					overlap++
				}
				switch rd.Kind {
				case "calls":
					var out []string
					for k := range rd.Calls {
						ms, o := rd.Calls[k].do(t, &ctl{})
						out = append(out, o)
						if ms != nil && len(kept) < 4 {
							kept = append(kept, ms)
							then = append(then, world.Digest(ms, true))
						}
					}
					got[i] = append(got[i], strings.Join(out, "\n"))
				case "words":
					got[i] = append(got[i], words(bds[rd.File]))
				default:
					got[i] = append(got[i], rd.lib(w, &ctl{}))
				}
			}
			for k, ms := range kept {
				if now := world.Digest(ms, true); now != then[k] {
					got[i] = append(got[i], "morphemes changed: "+diff(now, then[k]))
				}
			}
		})
	}
	if !c.run(s, "readers and writers") {
		return
	}
	c.Rec = s.Rec
	if app.PanicMsg != "" {
		c.Fail("panic", "the application panics while its dictionary is replaced: %s\n%s", app.PanicMsg, short(app.PanicStk))
		return
	}
	for i, pr := range writers {
		if pr.PanicMsg != "" {
			c.Fail("panic", "%s panics: %s\n%s", pr.Cmd, pr.PanicMsg, short(pr.PanicStk))
			return
		}
		if pr.Code == 0 && !pr.Killed {
			c.note("replaced")
		} else if !pr.Killed && len(p.Vars[i].Faults) == 0 {
			c.Fail("writer", "%s %v fails: status %d %s", pr.Cmd, pr.Args[1:], pr.Code, world.Tail(pr.Stderr))
			return
		} else {
			c.note("not replaced")
		}
	}
	c.Trivial = overlap == 0
	// what is at each path in the end
	for _, f := range paths {
		b, there := m.Disk.Get(f)
		replaced := false
		var which []string
		for _, k := range may[f] {
			old := w.Files[f]
			if k >= 0 {
				old = news[k]
				if pr := writers[k]; pr.Code == 0 && !pr.Killed {
					replaced = true
				}
			}
			if bytes.Equal(mask(b), mask(old)) {
				which = append(which, fmt.Sprint(k))
			}
		}
		c.Judged++
		if len(which) == 0 {
			c.Fail("content", "at the end, %s (%d bytes, there: %v) is neither the old dictionary nor a new one", f, len(b), there)
			return
		}
		if replaced && len(which) == 1 && which[0] == "-1" {
			c.Fail("content", "at the end, %s is the old dictionary, though a program that replaces it succeeded", f)
			return
		}
	}
	for i := range p.Readers {
		rd := &p.Readers[i]
		if procs[i] != nil {
			if procs[i].PanicMsg != "" {
				c.Fail("panic", "%s panics while its dictionary is replaced: %s\n%s", rd.Kind, procs[i].PanicMsg, short(procs[i].PanicStk))
				return
			}
			got[i] = []string{rd.saw(m, procs[i], i)}
		}
		for n, g := range got[i] {
			c.Judged++
			switch rd.Kind {
			case "calls":
				if w := strings.Join(calls[i], "\n"); g != w {
					c.Fail("changed", "reader %d: a loaded dictionary answers differently while %v is replaced (time %d): %s", i, paths, n, diff(g, w))
					return
				}
			case "words":
				if g != oldWords[rd.File] {
					c.Fail("changed", "reader %d: an open %s reads differently while it is replaced (time %d): %s", i, dicOf(rd.File), n, diff(g, oldWords[rd.File]))
					return
				}
			default:
				if !want[i][g] {
					near := ""
					for x := range want[i] {
						if near == "" || x < near {
							near = x
						}
					}
					c.Fail("neither", "reader %d (%s) sees neither the old nor the new dictionary while %v is replaced (time %d): %s", i, rd.Kind, paths, n, diff(g, near))
					return
				}
			}
		}
	}
	// what is loaded stays as it was for ever
	c.lib2(app, func() {
		for i, b := range bds {
			if s := words(b); s != oldWords[i] {
				c.Fail("changed", "at the end, an open %s reads differently: %s", dicOf(i), diff(s, oldWords[i]))
			}
			b.Close()
		}
		d.Close()
	})
}
