package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// rJob is a build or conversion, or something else a process does meanwhile.
type rJob struct {
	W      int    `json:"w,omitempty"` // world
	What   string `json:"what"`        // dicbuilder, userdicbuilder, dicconv, printdic (own process); build, convert, load, print, bad, failing (in the app)
	Which  int    `json:"which,omitempty"`
	J      bool   `json:"j,omitempty"`
	Desc   int    `json:"desc,omitempty"`   // the description
	Out    int    `json:"out,omitempty"`
	Shared bool   `json:"shared,omitempty"` // with the app's open dictionaries
	Rel    bool   `json:"rel,omitempty"`    // output path as a relative one
	Kill   int    `json:"kill,omitempty"`   // step at which it is killed
	Skew   int64  `json:"skew,omitempty"`   // of its clock, seconds
	Text   string `json:"text,omitempty"`
	// how it reads its sources
	Chunk vos.Chunk `json:"chunk,omitempty"`
}

// rPrior is what is at an output path before.
type rPrior struct {
	Out  int    `json:"out"`
	Kind string `json:"kind"` // garbage, dic, link, tmp, empty
	Len  int    `json:"len,omitempty"`
}

type c09Plan struct {
	Worlds []world.Spec `json:"worlds"`
	Prior  []rPrior     `json:"prior,omitempty"`
	Before []rJob       `json:"before,omitempty"` // one after the other
	Main   []rJob       `json:"main"`             // at the same time
	Clock  int64        `json:"clock,omitempty"`  // seconds
	Map    uint64       `json:"map"`
	Sched  rt.Schedule  `json:"sched"`
}

func rOut(i int) string { return fmt.Sprintf("/w/out%d.dic", ((i%6)+6)%6) }

func init() {
	register(Check{ID: "C09", N: 18000, Race: 3000,
		Rule: "a plan is a set of builds and conversions, by commands in their own processes and by library calls in one process, run at the same time and after others (failing and killed ones among them), with something at their output paths, a clock, a map order and a schedule; non-trivial when two or more jobs overlapped, or something preceded the job or was at its path"},
		genC09, execC09)
}

func genRJob(r *rt.Rand, specs []world.Spec) rJob {
	j := rJob{W: r.Intn(len(specs)), Out: r.Intn(6)}
	j.Which = r.Intn(specs[j.W].Users + 1)
	j.What = rt.Pick(r, []string{"dicbuilder", "userdicbuilder", "dicconv", "dicconv", "build", "build", "build", "build", "convert", "convert", "load", "print", "printdic", "bad", "failing"})
	if j.What == "userdicbuilder" && j.Which == 0 {
		j.What = "dicbuilder"
	}
	j.J = r.Chance(1, 3)
	j.Desc = rt.Pick(r, []int{0, 1, 2, 3, 36})
	j.Shared = r.Chance(1, 2)
	j.Rel = r.Chance(1, 6)
	if r.Chance(1, 4) {
		j.Chunk = genChunk(r, nil)
	}
	if r.Chance(1, 8) {
		j.Skew = int64(rt.Pick(r, []int{-1, 1, 3600, -86400, 1 << 31}))
	}
	if j.What == "load" {
		j.Text = world.Get(specs[j.W]).Text(r, false)
	}
	return j
}

func genC09(r *rt.Rand, tier string) *c09Plan {
	p := &c09Plan{Map: r.Next() >> 12, Sched: genSched(r, 200000)}
	p.Worlds = []world.Spec{smallSpec(r, 3)}
	if r.Bool() {
		p.Worlds = append(p.Worlds, smallSpec(r, 2))
	}
	for n := r.Intn(3); n > 0; n-- {
		p.Prior = append(p.Prior, rPrior{Out: r.Intn(6), Kind: rt.Pick(r, []string{"garbage", "dic", "link", "tmp", "empty"}), Len: rt.Pick(r, []int{1, 271, 272, 5000, 100000})})
	}
	for n := rt.Pick(r, []int{0, 0, 1, 2, 4}); n > 0; n-- {
		j := genRJob(r, p.Worlds)
		if r.Chance(1, 3) {
			j.Kill = 1 + r.Intn(rt.Pick(r, []int{1000, 20000, 60000}))
		}
		p.Before = append(p.Before, j)
	}
	for n := rt.Pick(r, []int{1, 2, 2, 3, 4}); n > 0; n-- {
		j := genRJob(r, p.Worlds)
		if len(p.Before) > 0 && r.Chance(1, 3) {
			// the same again
			k := rt.Pick(r, p.Before)
			j, j.Kill = k, 0
		} else if len(p.Main) > 0 && r.Chance(1, 4) {
			j = p.Main[0]
			j.Out = r.Intn(6)
		}
		p.Main = append(p.Main, j)
	}
	if r.Bool() {
		p.Clock = int64(rt.Pick(r, []int{0, 1, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 33, 946684800}))
	} else {
		p.Clock = vos.Epoch / 1e9
	}
	return p
}

func (j *rJob) isCmd() bool {
	return in(j.What, []string{"dicbuilder", "userdicbuilder", "dicconv", "printdic"})
}

// writes tells whether the job writes a file.
func (j *rJob) writes() bool { return j.isCmd() && j.What != "printdic" }

func (j *rJob) desc() []string {
	switch j.Desc {
	case 0:
		return nil
	case 1:
		return []string{"-d", ""}
	}
	return []string{"-d", strings.Repeat("説明 ", j.Desc%36)}
}

// args are a command's arguments.
func (j *rJob) args(w *world.World, pre string) []string {
	dic := pre + dicOf(j.Which)
	out := rOut(j.Out)
	if j.Rel {
		out = out[3:] // the working directory is /w
	}
	if j.What == "printdic" {
		var a []string
		if w.Spec.UTF16 {
			a = append(a, "-j")
		}
		if j.Which > 0 {
			a = append(a, "-s", pre+"/w/system.dic")
		}
		return append(a, dic)
	}
	a := []string{"-o", out}
	switch j.What {
	case "dicbuilder":
		if j.J {
			a = append(a, "-j")
		}
		return append(a, append(j.desc(), "-m", pre+"/w/matrix.def", pre+"/w/lex.csv")...)
	case "userdicbuilder":
		if w.Spec.UTF16 {
			a = append(a, "-j")
		}
		return append(a, append(j.desc(), "-s", pre+"/w/system.dic", fmt.Sprintf("%s/w/user%d.csv", pre, j.Which))...)
	}
	if !w.Spec.UTF16 {
		a = append(a, "-j")
	}
	return append(a, dic)
}

// rShared are the app's open dictionaries, by world and number.
type rShared map[[2]int]*dictionary.BinaryDictionary

// lib does a library job.
func (j *rJob) lib(w *world.World, pre string, sh rShared) (out []byte, msg string) {
	var err error
	u16 := w.Spec.UTF16
	defer func() {
		if err != nil {
			msg = err.Error()
		}
	}()
	if !j.Shared {
		sh = nil
	}
	switch j.What {
	case "build":
		e := u16
		if j.Which == 0 {
			e = j.J
		}
		out, err = libBuildOn(w, j.Which, e, pre, sh[[2]int{j.W, 0}])
	case "convert":
		if d := sh[[2]int{j.W, j.Which}]; d != nil {
			out, err = libConvertOpen(d, u16)
		} else {
			out, err = libConvert(pre+dicOf(j.Which), u16)
		}
	case "print":
		var b bytes.Buffer
		sd := sh[[2]int{j.W, 0}]
		if j.Which == 0 {
			sd = nil
		} else if sd == nil {
			if sd, err = dictionary.ReadSystemDictionary(pre+"/w/system.dic", u16); err != nil {
				return
			}
			defer sd.Close()
		}
		err = dictionary.PrintDictionary(pre+dicOf(j.Which), u16, sd, &b)
		out = b.Bytes()
	case "load":
		d, e := world.LoadFrom(bytes.NewReader(bytes.ReplaceAll(w.Files["/w/sudachi.json"], []byte(`"/w/`), []byte(`"`+pre+`/w/`))), nil)
		if e != nil {
			return nil, e.Error()
		}
		_, s := world.Call(d.Create(), "C", j.Text)
		d.Close()
		out = []byte(s)
	case "bad":
		// a source that is refused half-way
		b := dictionary.NewDictionaryBuilder(272, nil, u16)
		t := append(append([]byte{}, w.Files["/w/lex.csv"]...), "\nbroken\n"...)
		err = b.BuildLexicon(dictionary.NewPosTable(), bytes.NewReader(t))
	case "failing":
		b := dictionary.NewDictionaryBuilder(272, nil, u16)
		store := dictionary.NewPosTable()
		if err = b.BuildLexicon(store, bytes.NewReader(w.Files["/w/lex.csv"])); err != nil {
			return
		}
		f := &memFile{failAt: 3 + j.Which*2}
		if err = b.WriteGrammar(store, bytes.NewReader(w.Files["/w/matrix.def"]), f); err != nil {
			return
		}
		err = b.WriteLexicon(f, store)
	}
	return
}

func execC09(c *Ctx, p *c09Plan) {
	if len(p.Worlds) == 0 || len(p.Main) == 0 || len(p.Main) > 12 {
		c.Skipped = true
		return
	}
	var ws []*world.World
	for _, s := range p.Worlds {
		w := c.world(s)
		if w == nil {
			return
		}
		ws = append(ws, w)
	}
	install := func(m *vos.Machine) {
		for i, w := range ws {
			for _, n := range w.Names() {
				m.Disk.Put(fmt.Sprintf("/x%d", i)+n, w.Files[n])
			}
		}
		m.Disk.MkdirAll("/w")
	}
	pre := func(j *rJob) string { return fmt.Sprintf("/x%d", j.W) }
	jobs := append(append([]rJob{}, p.Before...), p.Main...)
	want := make([]*outRef, len(jobs))
	for i := range jobs {
		j := &jobs[i]
		if j.W < 0 || j.W >= len(ws) || j.Which < 0 || j.Which > len(ws[j.W].Users) || j.What == "userdicbuilder" && j.Which == 0 {
			c.Skipped = true
			return
		}
		w := ws[j.W]
		q := *j
		q.Chunk, q.Out, q.Kill, q.Rel, q.Skew, q.Shared = vos.Chunk{}, 0, 0, false, 0, false
		// alone, with nothing at its path
		want[i] = c.ref(fmt.Sprint("c09 ", w.Spec, q.W, q.What, q.Which, q.J, q.Desc, q.Text), func() *outRef {
			m := c.machine()
			for _, n := range w.Names() {
				m.Disk.Put(pre(&q)+n, w.Files[n])
			}
			m.Disk.MkdirAll("/w")
			r := &outRef{}
			if q.isCmd() {
				pr := c.cmd(m, q.What, q.args(w, pre(&q))...)
				r.code, r.out = pr.Code, pr.Stdout
				if q.writes() {
					b, _ := m.Disk.Get(rOut(0))
					r.out = b
				}
				return r
			}
			c.lib(m, "reference", func() { r.out, r.err = q.lib(w, pre(&q), nil) })
			return r
		})
		if want[i].code != 0 || want[i].err != "" && j.What != "bad" && j.What != "failing" {
			c.skip("a job fails undisturbed: " + j.What)
			return
		}
	}
	m := c.machine()
	install(m)
	for _, x := range p.Prior {
		o := rOut(x.Out)
		n := min(max(x.Len, 0), 200000)
		switch x.Kind {
		case "garbage":
			m.Disk.Put(o, bytes.Repeat([]byte("garbage!"), n/8+1)[:n])
		case "empty":
			m.Disk.Put(o, nil)
		case "dic":
			m.Disk.Put(o, ws[x.Len%len(ws)].Files["/w/system.dic"])
		case "link":
			m.Disk.Put("/w/real"+o[3:], bytes.Repeat([]byte{1}, n))
			m.Disk.Remove(o)
			m.Disk.Symlink(o, "/w/real"+o[3:])
		case "tmp":
			for k := 0; k < 8; k++ {
				m.Disk.Put(fmt.Sprintf("%s.%d.tmp", o, 4242+k), bytes.Repeat([]byte{7}, n))
			}
		}
	}
	m.Clock = p.Clock * 1e9
	if m.Clock < 0 || m.Clock > 1<<62 {
		m.Clock = vos.Epoch
	}
	app := m.NewProc("app", "")
	sh := rShared{}
	outs := make([][]byte, len(jobs))
	errs := make([]string, len(jobs))
	procs := make([]*vos.Proc, len(jobs))
	t0 := make([]int64, len(jobs))
	t1 := make([]int64, len(jobs))
	// the app's open dictionaries
	c.lib2(app, func() {
		for i := range jobs {
			j := &jobs[i]
			if j.isCmd() || !j.Shared {
				continue
			}
			for _, n := range []int{0, j.Which} {
				if k := [2]int{j.W, n}; sh[k] == nil {
					sh[k], _ = dictionary.NewBinaryDictionary(pre(j)+dicOf(n), ws[j.W].Spec.UTF16)
				}
			}
		}
	})
	start := func(s *rt.Sim, i int) {
		j := &jobs[i]
		w := ws[j.W]
		if j.isCmd() {
			pr := m.NewProc(j.What, j.What, j.args(w, pre(j))...)
			pr.Chunks = j.Chunk
			if j.Skew > -1<<33 && j.Skew < 1<<33 {
				pr.Skew = j.Skew * 1e9
			}
			procs[i] = pr
			world.StartCmd(s, pr)
			return
		}
		s.Spawn(fmt.Sprintf("%s%d", j.What, i), app, func() { outs[i], errs[i] = j.lib(w, pre(j), sh) })
	}
	for i := range p.Before {
		j := &p.Before[i]
		s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, p.Map+uint64(i)*31)
		t0[i] = m.Clock
		start(s, i)
		if j.Kill > 0 && j.isCmd() {
			s.KillAt(uint64(j.Kill), func() {
				c.fired(ctl{fired: map[string]int{"kill at a step": 1}})
				procs[i].Kill()
			})
		}
		if !c.run(s, j.What) {
			return
		}
		t1[i] = m.Clock
		if j.writes() && !procs[i].Killed {
			outs[i], _ = m.Disk.Get(rOut(j.Out))
		}
	}
	s := rt.New(p.Sched, world.Limit*2, p.Map)
	b := len(p.Before)
	for i := range p.Main {
		t0[b+i] = m.Clock
		start(s, b+i)
	}
	if !c.run(s, "concurrent builds") {
		return
	}
	c.Rec = s.Rec
	for i := range p.Main {
		t1[b+i] = m.Clock
		if jobs[b+i].writes() {
			outs[b+i], _ = m.Disk.Get(rOut(jobs[b+i].Out))
		}
	}
	if app.PanicMsg != "" {
		c.Fail("panic", "panic: %s\n%s", app.PanicMsg, short(app.PanicStk))
		return
	}
	for i := range jobs {
		j := &jobs[i]
		if procs[i] != nil {
			if procs[i].Killed {
				continue
			}
			if procs[i].PanicMsg != "" || procs[i].Code != 0 {
				c.Fail("status", "job %d: %s %v: status %d: %s %s", i, j.What, procs[i].Args[1:], procs[i].Code, world.Tail(procs[i].Stderr), procs[i].PanicMsg)
				return
			}
			if j.What == "printdic" {
				outs[i] = procs[i].Stdout
			}
		}
		if errs[i] != want[i].err {
			c.Fail("error", "job %d: %s tells %q, alone %q", i, j.What, errs[i], want[i].err)
			return
		}
		cands := []int{i}
		if j.writes() && i >= b {
			// the last one of those that write there
			for k := b; k < len(jobs); k++ {
				if k != i && jobs[k].writes() && rOut(jobs[k].Out) == rOut(j.Out) {
					cands = append(cands, k)
				}
			}
		}
		c.Judged++
		d := ""
		for _, k := range cands {
			x := &jobs[k]
			g, e := outs[i], want[k].out
			var why string
			if x.What == "dicbuilder" || x.What == "userdicbuilder" {
				if len(g) >= 16 {
					t := int64(binary.LittleEndian.Uint64(g[8:]))
					if lo, hi := floorSec(t0[k]+procs[k].Skew), floorSec(t1[k]+procs[k].Skew); t < lo || t > hi {
						why = fmt.Sprintf("the creation time %d is not between %d and %d", t, lo, hi)
					}
				}
				g, e = mask(g), mask(e)
			}
			if why == "" {
				why = sameFile(g, e)
			}
			if why == "" {
				d = ""
				break
			}
			if d == "" {
				d = fmt.Sprintf("job %d: %s of %s gives something else than alone: %s", i, x.What, dicOf(x.Which), why)
			}
		}
		if d != "" {
			c.Fail("bytes", "%s", d)
			return
		}
	}
	c.Trivial = len(p.Before) == 0 && len(p.Main) < 2 && len(p.Prior) == 0
	c.lib2(app, func() {
		for _, x := range rt.MapRange(sh) {
			if d := x.V(); d != nil {
				d.Close()
			}
		}
	})
}
