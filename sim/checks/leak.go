package checks

import (
	"fmt"
	"sort"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// lkOp is a library call that opens files, or the end of what one returned.
type lkOp struct {
	Kind   string       `json:"kind"` // new, readsys, readuser, load, adduser, addchar, print, header, plugin, close, again
	File   int          `json:"file,omitempty"`
	Which  int          `json:"which,omitempty"`
	Load   *ldLoad      `json:"load,omitempty"`
	Faults []*vos.Fault `json:"faults,omitempty"`
	Bad    string       `json:"bad,omitempty"` // what its dictionary file is instead, see dmgOp
	Cut    int          `json:"cut,omitempty"`
	WFail  int          `json:"wfail,omitempty"` // the writer fails at this write
	Fail   string       `json:"fail,omitempty"`  // a plugin fails while costs are computed
	Plug   string       `json:"plug,omitempty"`
}

type c13Plan struct {
	World world.Spec  `json:"world"`
	Tasks [][]lkOp    `json:"tasks"`
	Reuse bool        `json:"reuse,omitempty"` // addresses of former mappings are used again
	Map   uint64      `json:"map"`
	Sched rt.Schedule `json:"sched"`
}

func init() {
	register(Check{ID: "C13", N: 100000,
		Rule: "a plan is a history (of one task, or of several at once) of opening, loading, adding, printing, setting up plugins and closing, in which opens, reads, size queries, mappings, unmappings, closes, writers and plugins fail and files are damaged; non-trivial when a fault fired, a damaged file was used or something was closed"},
		genC13, execC13)
}

var lkKinds = []string{"new", "readsys", "readuser", "load", "load", "load", "adduser", "addchar", "print", "header", "plugin", "close", "close", "again"}

func genC13(r *rt.Rand, tier string) *c13Plan {
	p := &c13Plan{World: smallSpec(r, 3), Map: r.Next() >> 12, Sched: genSched(r, 60000), Reuse: r.Bool()}
	if r.Chance(3, 4) {
		p.World.Users = max(1, p.World.Users)
	}
	w := world.Get(p.World)
	tasks := 1
	if r.Chance(1, 6) {
		tasks = r.Range(2, 3)
	}
	for ; tasks > 0; tasks-- {
		var ops []lkOp
		for n := r.Range(1, 6); n > 0; n-- {
			o := lkOp{Kind: rt.Pick(r, lkKinds), File: r.Intn(len(w.Users) + 1), Which: r.Intn(4)}
			fs := []string{dicOf(o.File)}
			ops_ := []string{"open", "stat", "mmap", "close", "munmap"}
			switch o.Kind {
			case "load":
				o.Load = genLoad(r, w, 0)
				o.Load.Faults = nil
				fs = o.Load.files(w)
				ops_ = append(ops_, "read", "read", "open")
			case "addchar":
				fs = []string{"/w/char.def", "/w/nosuch.def"}
				ops_ = []string{"open", "read", "read", "close"}
				if r.Chance(1, 5) {
					o.Bad = "missing"
				}
			case "plugin":
				fs = []string{"/w/char.def", "/w/unk.def", "/w/rewrite.def"}
				ops_ = []string{"open", "read", "read", "close"}
				o.Plug = rt.Pick(r, []string{"rewrite", "mecab"})
			case "print", "header":
				o.WFail = r.Intn(2) * r.Range(1, 30)
			case "adduser", "readuser":
				o.File = max(1, o.File)
			case "close":
				fs = nil
				ops_ = []string{"close", "munmap"}
			}
			if in(o.Kind, []string{"adduser", "readuser", "readsys", "new", "print", "header"}) {
				if r.Chance(1, 3) {
					o.Bad = rt.Pick(r, []string{"cut", "cut", "cut", "empty", "missing", "dir", "text", "magic", "other"})
					o.Cut = r.Intn(3000)
					if r.Bool() {
						o.Cut = -1 - r.Intn(200)
					}
				}
				if o.Kind == "adduser" && r.Chance(1, 4) {
					o.Fail = rt.Pick(r, []string{"in", "inl", "oov"})
				}
			}
			if r.Chance(1, 2) {
				for k := r.Range(1, 2); k > 0; k-- {
					f := &vos.Fault{Op: rt.Pick(r, ops_), Nth: r.Range(1, 2), Err: rt.Pick(r, errKinds), Sticky: r.Chance(1, 3)}
					if r.Bool() {
						f.Nth = 1
					}
					if len(fs) > 0 && r.Chance(2, 3) {
						f.Path = rt.Pick(r, fs)
					} else if o.Kind == "load" {
						f.Nth = r.Range(1, 12)
					}
					o.Faults = append(o.Faults, f)
				}
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

// lkHeld is something a call returned that needs files.
type lkHeld struct {
	files []string
	close func()
	use   func() string // what is read from it
	first string
	jd    *gosudachi.JapaneseDictionary
	k     *ctl
}

type lkTask struct {
	held  []*lkHeld
	ended []*lkHeld // closed
	did   []string
	fired []ctl
	eff   bool
}

func (o *lkOp) valid(w *world.World) bool {
	n := len(w.Users)
	if o.File < 0 || o.File > n || !in(o.Kind, lkKinds) {
		return false
	}
	if o.Kind == "load" && (o.Load == nil || !o.Load.valid(w)) {
		return false
	}
	return true
}

// failWriter fails from a write on.
type failWriter struct{ n int }

func (f *failWriter) Write(b []byte) (int, error) {
	f.n--
	if f.n == 0 {
		f.n = 1
		return 0, errInjected
	}
	return len(b), nil
}

// do makes the call and notes what must stay open for its result.
func (o *lkOp) do(w *world.World, t *lkTask) {
	u16 := w.Spec.UTF16
	file := dicOf(o.File)
	pick := func(jd bool) (int, *lkHeld) {
		for i := range t.held {
			j := (i + abs(o.Which)) % len(t.held)
			if h := t.held[j]; !jd || h.jd != nil {
				return j, h
			}
		}
		return 0, nil
	}
	out := &failWriter{o.WFail}
	var err error
	switch o.Kind {
	case "new", "readsys", "readuser":
		var d *dictionary.BinaryDictionary
		switch o.Kind {
		case "new":
			d, err = dictionary.NewBinaryDictionary(file, u16)
		case "readsys":
			d, err = dictionary.ReadSystemDictionary(file, u16)
		case "readuser":
			d, err = dictionary.ReadUserDictionary(file, u16)
		}
		if err == nil {
			t.held = append(t.held, &lkHeld{files: []string{file}, close: func() { d.Close() }, use: func() string {
				return fmt.Sprint(d.Lexicon.Size(), *d.Lexicon.GetWordInfo(d.Lexicon.Size() - 1))
			}})
		}
	case "load":
		k := &ctl{kind: o.Load.Fail, at: o.Load.At}
		d, st, e := o.Load.load(k, nil)
		err = e
		k.kind = ""
		t.fired = append(t.fired, *k)
		k.fired = nil
		if err == nil {
			h := &lkHeld{files: []string{"/w/system.dic"}, close: d.Close, jd: d, k: k}
			h.use = func() string {
				_, out := world.Call(d.Create(), "C", probeText(w))
				return out
			}
			h.files = append(h.files, st.GetBaseConfig().UserDict...)
			t.held = append(t.held, h)
		}
	case "adduser":
		_, h := pick(true)
		if h == nil {
			return
		}
		h.k.kind, h.k.at, h.k.n = o.Fail, abs(o.Which)%2, 0
		err = h.jd.ReadUserDictionary(file, u16)
		h.k.kind = ""
		t.fired = append(t.fired, *h.k)
		h.k.fired = nil
		if err == nil {
			h.files = append(h.files, file)
		}
	case "addchar":
		_, h := pick(true)
		if h == nil {
			return
		}
		f := "/w/char.def"
		if o.Bad == "missing" {
			f = "/w/nosuch.def"
		}
		err = h.jd.ReadCharacterDefinition(f)
	case "print":
		var sd *dictionary.BinaryDictionary
		if o.File > 0 {
			if sd, err = dictionary.ReadSystemDictionary("/w/system.dic", u16); err != nil {
				break
			}
			defer sd.Close()
		}
		err = dictionary.PrintDictionary(file, u16, sd, out)
	case "header":
		err = dictionary.PrintHeader(file, out)
	case "plugin":
		if o.Plug == "rewrite" {
			p := gosudachi.NewDefaultInputTextPlugin(nil)
			f := "/w/rewrite.def"
			p.GetConfigStruct().(*gosudachi.DefaultInputTextPluginConfig).RewriteDef = f
			err = p.SetUp()
			break
		}
		d, e := dictionary.ReadSystemDictionary("/w/system.dic", u16)
		if err = e; e != nil {
			break
		}
		defer d.Close()
		cd, ud := "/w/char.def", "/w/unk.def"
		err = gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud}).SetUp(d.Grammar)
	case "close":
		i, h := pick(false)
		if h == nil {
			return
		}
		h.close()
		t.held = append(t.held[:i:i], t.held[i+1:]...)
		t.ended = append(t.ended, h)
		t.eff = true
	case "again":
		if len(t.ended) == 0 {
			return
		}
		t.ended[abs(o.Which)%len(t.ended)].close()
	}
	if h := t.last(); h != nil && h.first == "" || o.Kind == "adduser" || o.Kind == "addchar" {
		for _, h := range t.held {
			if o.Kind != "adduser" && o.Kind != "addchar" || h.jd != nil {
				h.first = h.use()
			}
		}
	}
	what := o.Kind
	if err != nil {
		what += fmt.Sprintf(" (%s: %v)", file, err)
		t.eff = true
	}
	t.did = append(t.did, what)
}

func (t *lkTask) last() *lkHeld {
	if len(t.held) == 0 {
		return nil
	}
	return t.held[len(t.held)-1]
}

// used reads from everything that is held.
func (t *lkTask) used() string {
	for _, h := range t.held {
		if got := h.use(); got != h.first {
			return fmt.Sprintf("a dictionary of %s: now %s, before %s", strings.Join(h.files, ", "), short(got), short(h.first))
		}
	}
	return ""
}

// probeText is a text of words.
func probeText(w *world.World) string {
	var t string
	for i, x := range w.Words {
		if i < 6 {
			t += x
		}
	}
	return t
}

// prepare damages the files of the operation.
func (o *lkOp) prepare(m *vos.Machine, w *world.World) {
	if o.Kind == "load" {
		o.Load.prepare(m, w, true)
		return
	}
	file := dicOf(o.File)
	if o.Bad == "" || o.Kind == "addchar" {
		return
	}
	d := &dmgOp{Cons: o.Kind, File: o.File, Kind: o.Bad, Cut: o.Cut}
	b, _ := d.content(w, w.Files[file])
	switch o.Bad {
	case "other":
		other := 0
		if o.File == 0 && len(w.Users) > 0 {
			other = 1
		}
		b = w.Files[dicOf(other)]
	case "missing", "dir":
		m.Disk.Remove(file)
		if o.Bad == "dir" {
			m.Disk.MkdirAll(file)
		}
		return
	}
	putFile(m, file, b)
}

// extra lists what is open or mapped beyond what is needed.
func extra(p *vos.Proc, held []*lkHeld) (r []string) {
	for _, l := range [][]string{p.OpenFDs(), p.Mapped()} {
		need := map[string]int{}
		for _, h := range held {
			for _, f := range h.files {
				need[f]++
			}
		}
		sort.Strings(l)
		for _, x := range l {
			f := x[strings.Index(x, "/"):]
			if i := strings.Index(f, " ("); i >= 0 {
				f = f[:i]
			}
			if need[f]--; need[f] < 0 {
				r = append(r, x)
			}
		}
	}
	return
}

func execC13(c *Ctx, p *c13Plan) {
	w := c.world(p.World)
	if w == nil {
		return
	}
	if len(p.Tasks) > 4 {
		c.Skipped = true
		return
	}
	for _, ops := range p.Tasks {
		if len(ops) > 20 {
			c.Skipped = true
			return
		}
		for i := range ops {
			if !ops[i].valid(w) {
				c.Skipped = true
				return
			}
		}
	}
	m := c.worldMachine(w)
	m.Reuse = p.Reuse
	app := m.NewProc("app", "")
	c.Trivial = true
	ts := make([]*lkTask, len(p.Tasks))
	for i := range ts {
		ts[i] = &lkTask{}
	}
	arm := func(o *lkOp) {
		for _, f := range o.Faults {
			q := *f
			m.Faults = append(m.Faults, &q)
		}
	}
	use := func(what string) bool {
		for _, t := range ts {
			t := t
			c.lib2(app, func() {
				if s := t.used(); s != "" {
					c.Fail("gone", "after %s, what is loaded reads differently: %s; calls: %s", what, s, strings.Join(t.did, ", "))
				}
			})
		}
		return c.V == nil
	}
	judge := func(when string) bool {
		var held []*lkHeld
		for _, t := range ts {
			held = append(held, t.held...)
		}
		c.Judged++
		if l := extra(app, held); len(l) > 0 {
			var did []string
			for _, t := range ts {
				did = append(did, strings.Join(t.did, ", "))
			}
			c.Fail("leak", "%s, %d files or mappings are open that nothing needs: %s; calls: %s", when, len(l), strings.Join(l, ", "), strings.Join(did, " | "))
			return false
		}
		return true
	}
	if len(ts) == 1 {
		for i := range p.Tasks[0] {
			o := &p.Tasks[0][i]
			m.Faults = nil
			arm(o)
			o.prepare(m, w)
			s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, p.Map)
			s.Spawn("call", app, func() { o.do(w, ts[0]) })
			ok := c.run(s, o.Kind)
			if m.FaultsFired() > 0 {
				c.Trivial = false
			}
			m.Faults = nil
			if !ok {
				return
			}
			if app.PanicMsg != "" {
				c.Fail("panic", "step %d: %s panics: %s\n%s", i, o.Kind, app.PanicMsg, short(app.PanicStk))
				return
			}
			if !judge(fmt.Sprintf("after step %d", i)) {
				return
			}
			if in(o.Kind, []string{"again", "close"}) || i == len(p.Tasks[0])-1 {
				if !use(fmt.Sprintf("step %d (%s)", i, o.Kind)) {
					return
				}
			}
			// the files as they were
			(&ldLoad{}).prepare(m, w, false)
			for _, f := range w.Names() {
				putFile(m, f, w.Files[f])
			}
		}
	} else {
		for _, ops := range p.Tasks {
			for i := range ops {
				arm(&ops[i])
				if ops[i].Kind == "load" {
					ops[i].Load.prepare(m, w, true)
				}
			}
		}
		s := rt.New(p.Sched, world.Limit, p.Map)
		for i := range p.Tasks {
			i := i
			s.Spawn(fmt.Sprint("task ", i), app, func() {
				for k := range p.Tasks[i] {
					p.Tasks[i][k].do(w, ts[i])
				}
			})
		}
		ok := c.run(s, "tasks")
		c.Rec = s.Rec
		if m.FaultsFired() > 0 {
			c.Trivial = false
		}
		m.Faults = nil
		if !ok {
			return
		}
		if app.PanicMsg != "" {
			c.Fail("panic", "the tasks panic: %s\n%s", app.PanicMsg, short(app.PanicStk))
			return
		}
		if !judge("after all calls") || !use("all calls") {
			return
		}
	}
	for _, t := range ts {
		c.fired(t.fired...)
		if t.eff {
			c.Trivial = false
		}
	}
	// the end of everything
	for _, t := range ts {
		for len(t.held) > 0 {
			h := t.held[len(t.held)-1]
			t.held = t.held[:len(t.held)-1]
			c.lib2(app, h.close)
			if c.V != nil || !judge("after closing") {
				return
			}
		}
	}
	if l := append(app.OpenFDs(), app.Mapped()...); len(l) > 0 {
		c.Fail("leak", "in the end still open: %s", strings.Join(l, ", "))
	}
}
