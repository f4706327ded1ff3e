package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// Call is one call of Tokenize. Fail names what goes wrong in it, and At the
// occurrence that does.
type Call struct {
	Text string `json:"t"`
	Mode string `json:"m"`
	Fail string `json:"f,omitempty"` // in, oov, path (a plugin returns an error), inl, pathl (after doing its work), dump (the writer), dumpok
	At   int    `json:"at,omitempty"`
	Tok  int    `json:"k,omitempty"` // which tokenizer
}

// ctl makes plugins and writers fail during one call.
type ctl struct {
	kind  string
	at    int
	n     int
	fired map[string]int
}

func (c *ctl) fire(kind string) {
	if c.fired == nil {
		c.fired = map[string]int{}
	}
	c.fired["callback "+kind]++
}

// fired adds what the controls injected to the statistics.
func (c *Ctx) fired(ks ...ctl) {
	for _, k := range ks {
		for f, n := range k.fired {
			if c.Fired == nil {
				c.Fired = map[string]int{}
			}
			c.Fired[f] += n
		}
	}
}

var errInjected = errors.New("injected failure")

func (c *ctl) hit(kind string) error {
	if c.kind != kind {
		return nil
	}
	c.n++
	if c.n == c.at+1 {
		c.fire(kind)
		return errInjected
	}
	return nil
}

type ctlIn struct {
	gosudachi.InputTextPlugin
	c *ctl
}

func (p ctlIn) Rewrite(b *gosudachi.InputTextBuilder) error {
	if err := p.c.hit("in"); err != nil {
		return err
	}
	if err := p.InputTextPlugin.Rewrite(b); err != nil {
		return err
	}
	return p.c.hit("inl")
}

type ctlOov struct {
	gosudachi.OovProviderPlugin
	c *ctl
}

func (p ctlOov) ProvideOOV(t *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error) {
	if err := p.c.hit("oov"); err != nil {
		return nil, err
	}
	return p.OovProviderPlugin.ProvideOOV(t, off, has)
}

type ctlPath struct {
	gosudachi.PathRewritePlugin
	c *ctl
}

func (p ctlPath) Rewrite(t *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
	if err := p.c.hit("path"); err != nil {
		return err
	}
	if err := p.PathRewritePlugin.Rewrite(t, path, l); err != nil {
		return err
	}
	return p.c.hit("pathl")
}

// hook wraps every plugin.
func (c *ctl) hook(p *world.Plugins) {
	for i := range p.In {
		p.In[i] = ctlIn{p.In[i], c}
	}
	for i := range p.Oov {
		p.Oov[i] = ctlOov{p.Oov[i], c}
	}
	for i := range p.Path {
		p.Path[i] = ctlPath{p.Path[i], c}
	}
}

type ctlDump struct{ c *ctl }

func (d ctlDump) Write(b []byte) (int, error) {
	d.c.n++
	if d.c.kind == "dump" && d.c.n > d.c.at {
		d.c.fire("dump writer")
		return 0, errInjected
	}
	return len(b), nil
}

// do makes the call.
func (call *Call) do(t *gosudachi.JapaneseTokenizer, c *ctl) (*gosudachi.MorphemeList, string) {
	c.kind, c.at, c.n = call.Fail, call.At, 0
	if strings.HasPrefix(call.Fail, "dump") {
		t.DumpOutput = ctlDump{c}
	} else {
		t.DumpOutput = nil
	}
	ms, out := world.Call(t, call.Mode, call.Text)
	c.kind = ""
	t.DumpOutput = nil
	return ms, out
}

var expects = map[string][]string{}

// expect returns what each of the calls answers when it is the first one of a
// fresh process (each), or when they are made in sequence in one (not each).
func (c *Ctx) expect(w *world.World, calls []Call, each bool) []string {
	if each {
		var r []string
		for _, x := range calls {
			x.Tok = 0
			r = append(r, c.expect(w, []Call{x}, false)...)
		}
		return r
	}
	kb, _ := json.Marshal(calls)
	key := fmt.Sprint(w.Spec) + string(kb)
	if r, ok := expects[key]; ok {
		return r
	}
	if len(expects) > 20000 {
		expects = map[string][]string{}
	}
	var r []string
	c.aside(func() { r = c.reference(w, calls) })
	for len(r) < len(calls) {
		r = append(r, "no answer")
	}
	expects[key] = r
	return r
}

func (c *Ctx) reference(w *world.World, calls []Call) (r []string) {
	m := c.worldMachine(w)
	c.lib(m, "reference", func() {
		k := &ctl{}
		d, err := world.Load("/w/sudachi.json", k.hook)
		if err != nil {
			r = append(r, "load error: "+err.Error())
			return
		}
		t := d.Create()
		for i := range calls {
			_, out := calls[i].do(t, k)
			r = append(r, out)
		}
		d.Close()
	})
	return r
}

func genSched(r *rt.Rand, est int) rt.Schedule {
	s := rt.Schedule{Seed: r.Next() >> 12}
	switch r.Intn(5) {
	case 0, 1:
		s.Kind, s.Mean = "rand", rt.Pick(r, []int{1, 3, 10, 40, 200, 1000})
	case 2:
		s.Kind, s.Mean = "burst", rt.Pick(r, []int{20, 100, 600})
	default:
		s.Kind, s.D, s.Est = "pct", r.Range(1, 8), est
	}
	return s
}

var modes = []string{"A", "B", "C"}

func genCall(r *rt.Rand, w *world.World, failing bool) Call {
	c := Call{Text: w.Text(r, failing && r.Chance(1, 4)), Mode: rt.Pick(r, modes)}
	if failing && r.Chance(1, 4) {
		c.Fail = rt.Pick(r, []string{"in", "inl", "oov", "oov", "path", "pathl", "dump", "dumpok"})
		if r.Chance(1, 2) {
			c.At = r.Intn(3)
			if c.Fail == "oov" || c.Fail == "dump" {
				c.At = r.Intn(12)
			}
		}
	}
	return c
}

// ---------------------------------------------------------------- C01

type c01Task struct {
	Kind  string     `json:"kind"` // tok, load, print, header, build, userbuild, convert
	Calls []Call     `json:"calls,omitempty"`
	Spec  world.Spec `json:"spec,omitempty"`
	Rep   int        `json:"rep,omitempty"`
}

type c01Plan struct {
	World world.Spec  `json:"world"`
	Tasks []c01Task   `json:"tasks"`
	Drop  bool        `json:"drop,omitempty"`  // only the tokenizers are kept
	Reuse bool        `json:"reuse,omitempty"` // addresses of former mappings are used again
	Sched rt.Schedule `json:"sched"`
	Map   uint64      `json:"map"`
}

func init() {
	register(Check{ID: "C01", N: 12000, Race: 2000,
		Rule: "a plan is a world, 2-4 tokenizer tasks with their calls, up to 2 other tasks (load, print, build, convert, close) and a schedule; non-trivial when at least two tasks ran and a switch happened inside one of them"},
		func(r *rt.Rand, tier string) *c01Plan {
			p := &c01Plan{World: world.GenSpec(r, 2), Map: r.Next() >> 12}
			w := world.Get(p.World)
			for i := r.Range(2, 4); i > 0; i-- {
				t := c01Task{Kind: "tok"}
				for j := r.Range(1, 4); j > 0; j-- {
					t.Calls = append(t.Calls, genCall(r, w, r.Chance(1, 4)))
				}
				p.Tasks = append(p.Tasks, t)
			}
			if r.Bool() {
				// the same texts, so that equal positions are worked on at once
				for i := range p.Tasks[1].Calls {
					p.Tasks[1].Calls[i].Text = p.Tasks[0].Calls[i%len(p.Tasks[0].Calls)].Text
				}
			}
			for i := r.Intn(3); i > 0; i-- {
				t := c01Task{Kind: rt.Pick(r, []string{"load", "load", "print", "header", "build", "userbuild", "convert"}), Spec: p.World, Rep: r.Range(1, 2)}
				if r.Chance(1, 3) {
					t.Spec = world.GenSpec(r, 2)
				}
				if t.Kind == "load" {
					for j := r.Intn(3); j > 0; j-- {
						t.Calls = append(t.Calls, genCall(r, world.Get(t.Spec), false))
					}
				}
				p.Tasks = append(p.Tasks, t)
			}
			p.Sched = genSched(r, 200000)
			p.Drop, p.Reuse = r.Chance(1, 4), r.Bool()
			return p
		}, execC01)
}

func execC01(c *Ctx, p *c01Plan) {
	w := c.world(p.World)
	if w == nil || len(p.Tasks) == 0 {
		return
	}
	want := make([][]string, len(p.Tasks))
	got := make([][]string, len(p.Tasks))
	m := c.worldMachine(w)
	m.Reuse = p.Reuse
	toks := 0
	ws := make([]*world.World, len(p.Tasks))
	for i, t := range p.Tasks {
		tw := w
		if t.Kind != "tok" {
			if tw = c.world(t.Spec); tw == nil {
				return
			}
			for _, n := range tw.Names() {
				m.Disk.Put(fmt.Sprintf("/t%d", i)+n, tw.Files[n])
			}
		} else {
			toks++
		}
		ws[i] = tw
		if t.Kind == "tok" || t.Kind == "load" {
			want[i] = c.expect(tw, t.Calls, false)
		}
	}
	if toks == 0 {
		c.Skipped = true
		return
	}
	pr := m.NewProc("app", "")
	s := rt.New(p.Sched, world.Limit*2, p.Map)
	var d *gosudachi.JapaneseDictionary
	var loadErr error
	k := make([]ctl, len(p.Tasks))
	s.Spawn("main", pr, func() {
		// each tokenizer needs its own control of failures, so the wrappers
		// look up the control of the running task
		d, loadErr = world.Load("/w/sudachi.json", taskHook(k))
		if loadErr != nil {
			return
		}
		for i := range p.Tasks {
			i := i
			t := &p.Tasks[i]
			var tok *gosudachi.JapaneseTokenizer
			if t.Kind == "tok" {
				tok = d.Create()
			}
			s.Spawn(fmt.Sprintf("%s%d", t.Kind, i), pr, func() {
				got[i] = t.run(i, ws[i], tok, &k[i])
			}).Tag = i + 1
		}
		if p.Drop {
			d = nil
		}
	})
	if !c.run(s, "concurrent tokenizers") {
		return
	}
	c.Rec = s.Rec
	if pr.PanicMsg != "" {
		c.Fail("panic", "panic while tokenizers run concurrently: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
		return
	}
	if loadErr != nil {
		c.Fail("load", "dictionary does not load: %v", loadErr)
		return
	}
	for i := range p.Tasks {
		for j := range want[i] {
			c.Judged++
			g := "no answer"
			if j < len(got[i]) {
				g = got[i][j]
			}
			if g != want[i][j] {
				c.Fail("result", "task %d (%s) call %d %q mode %s answers differently when others run: %s", i, p.Tasks[i].Kind, j, p.Tasks[i].Calls[j].Text, p.Tasks[i].Calls[j].Mode, diff(g, want[i][j]))
				return
			}
		}
	}
	c.fired(k...)
	c.Trivial = len(s.Rec) < len(p.Tasks)+2
	// the dictionary still works and closes
	if d != nil {
		c.lib2(pr, func() { d.Close() })
	}
}

// lib2 runs a harness step in an existing process.
func (c *Ctx) lib2(p *vos.Proc, fn func()) {
	if p.Dead() {
		return
	}
	s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, 7)
	s.Spawn("more", p, fn)
	c.run(s, "later step")
	if p.PanicMsg != "" {
		c.Fail("panic", "panic: %s\n%s", p.PanicMsg, short(p.PanicStk))
	}
}

// taskHook wraps plugins so that each task has its own failure control: the
// task is recognised by its mark.
func taskHook(k []ctl) func(*world.Plugins) {
	return func(p *world.Plugins) {
		for i := range p.In {
			p.In[i] = taskIn{p.In[i], k}
		}
		for i := range p.Oov {
			p.Oov[i] = taskOov{p.Oov[i], k}
		}
		for i := range p.Path {
			p.Path[i] = taskPath{p.Path[i], k}
		}
	}
}

func ofTask(k []ctl) *ctl {
	if t := rt.Cur(); t != nil && t.Tag > 0 && t.Tag <= len(k) {
		return &k[t.Tag-1]
	}
	return &ctl{}
}

type taskIn struct {
	gosudachi.InputTextPlugin
	k []ctl
}

func (p taskIn) Rewrite(b *gosudachi.InputTextBuilder) error {
	return ctlIn{p.InputTextPlugin, ofTask(p.k)}.Rewrite(b)
}

type taskOov struct {
	gosudachi.OovProviderPlugin
	k []ctl
}

func (p taskOov) ProvideOOV(t *gosudachi.InputText, off int, has bool) ([]*gosudachi.LatticeNode, error) {
	return ctlOov{p.OovProviderPlugin, ofTask(p.k)}.ProvideOOV(t, off, has)
}

type taskPath struct {
	gosudachi.PathRewritePlugin
	k []ctl
}

func (p taskPath) Rewrite(t *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
	return ctlPath{p.PathRewritePlugin, ofTask(p.k)}.Rewrite(t, path, l)
}

func (t *c01Task) run(i int, sw *world.World, tok *gosudachi.JapaneseTokenizer, k *ctl) []string {
	var out []string
	pre := fmt.Sprintf("/t%d", i)
	u16 := t.Spec.UTF16
	for rep := 0; rep < max(1, t.Rep); rep++ {
		switch t.Kind {
		case "tok":
			for j := range t.Calls {
				_, o := t.Calls[j].do(tok, k)
				out = append(out, o)
			}
			return out
		case "load":
			// the settings name /w, so point them at this task's copy
			set := bytes.ReplaceAll(sw.Files["/w/sudachi.json"], []byte("\"/w/"), []byte("\""+pre+"/w/"))
			d, err := world.LoadFrom(bytes.NewReader(set), nil)
			if err != nil {
				return append(out, "load error: "+err.Error())
			}
			tk := d.Create()
			out = out[:0]
			for j := range t.Calls {
				_, o := t.Calls[j].do(tk, &ctl{})
				out = append(out, o)
			}
			d.Close()
		case "print":
			var b bytes.Buffer
			sd, err := dictionary.ReadSystemDictionary(pre+"/w/system.dic", u16)
			if err != nil {
				return nil
			}
			f := pre + "/w/system.dic"
			if t.Spec.Users > 0 {
				f = pre + "/w/user1.dic"
			}
			_ = dictionary.PrintDictionary(f, u16, sd, &b)
			_ = sd.Close()
		case "header":
			var b bytes.Buffer
			_ = dictionary.PrintHeader(pre+"/w/system.dic", &b)
		case "build":
			_, _ = libBuild(sw, 0, u16, pre)
		case "userbuild":
			_, _ = libBuild(sw, 1, u16, pre)
		case "convert":
			_, _ = libConvert(pre+"/w/system.dic", u16)
		}
	}
	return out
}

// ---------------------------------------------------------------- C02

type c02Plan struct {
	World world.Spec `json:"world"`
	Toks  int        `json:"toks"`
	Drop  bool       `json:"drop,omitempty"` // only the tokenizers are kept
	Calls []Call     `json:"calls"`
}

func init() {
	register(Check{ID: "C02", N: 45000,
		Rule: "a plan is a world, 1-3 tokenizers of one dictionary and 2-14 calls, some of which fail (unanalysable text, failing plugin, failing debug writer); non-trivial when at least two calls were made on one tokenizer"},
		func(r *rt.Rand, tier string) *c02Plan {
			p := &c02Plan{World: world.GenSpec(r, 2), Toks: rt.Pick(r, []int{1, 1, 2, 3}), Drop: r.Chance(1, 4)}
			w := world.Get(p.World)
			n := r.Range(2, 8)
			if r.Chance(1, 6) {
				n = r.Range(8, 14)
			}
			for i := 0; i < n; i++ {
				x := genCall(r, w, r.Chance(2, 3))
				x.Tok = r.Intn(p.Toks)
				if i > 0 && r.Chance(1, 4) {
					x.Text = p.Calls[r.Intn(i)].Text
				}
				if i > 0 && r.Chance(1, 5) {
					// a prefix or an extension of the previous text
					t := []rune(p.Calls[i-1].Text)
					if r.Bool() {
						x.Text = string(t[:r.Intn(len(t)+1)])
					} else {
						x.Text = p.Calls[i-1].Text + x.Text
					}
				}
				p.Calls = append(p.Calls, x)
			}
			return p
		}, execC02)
}

func execC02(c *Ctx, p *c02Plan) {
	w := c.world(p.World)
	if w == nil {
		return
	}
	want := c.expect(w, p.Calls, true)
	m := c.worldMachine(w)
	n := max(1, min(p.Toks, 8))
	used := map[int]int{}
	pr := c.lib(m, "app", func() {
		k := &ctl{}
		d, err := world.Load("/w/sudachi.json", k.hook)
		if err != nil {
			c.Fail("load", "dictionary does not load: %v", err)
			return
		}
		toks := make([]*gosudachi.JapaneseTokenizer, n)
		if p.Drop {
			for i := range toks {
				toks[i] = d.Create()
			}
			d = nil
		}
		for i := range p.Calls {
			x := &p.Calls[i]
			j := ((x.Tok % n) + n) % n
			if toks[j] == nil {
				toks[j] = d.Create()
			}
			_, out := x.do(toks[j], k)
			used[j]++
			c.Judged++
			if strings.HasPrefix(out, "error") {
				c.note("failed calls")
			}
			if out != want[i] {
				c.Fail("result", "call %d (%q mode %s fail %q) after %d other calls answers differently than first: %s", i, x.Text, x.Mode, x.Fail, i, diff(out, want[i]))
				return
			}
		}
		if d != nil {
			d.Close()
		}
		c.fired(*k)
	})
	if pr.PanicMsg != "" {
		c.Fail("panic", "panic: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
	}
	c.Trivial = true
	for _, u := range used {
		if u > 1 {
			c.Trivial = false
		}
	}
}

// ---------------------------------------------------------------- C03

type c03Op struct {
	Op   string `json:"op"` // call, split, load, close, new, read, plus failing calls
	Call Call   `json:"call,omitempty"`
	Of   int    `json:"of,omitempty"`
	Mode string `json:"mode,omitempty"`
}

type c03Plan struct {
	World world.Spec  `json:"world"`
	Tasks [][]c03Op   `json:"tasks"`
	Drop  bool        `json:"drop,omitempty"`  // not closed in the end
	Reuse bool        `json:"reuse,omitempty"` // addresses of former mappings are used again
	Sched rt.Schedule `json:"sched"`
	Map   uint64      `json:"map"`
}

func init() {
	register(Check{ID: "C03", N: 20000, Race: 2000,
		Rule: "a plan is a world, 1-3 tasks each holding on to every result while tokenizing, splitting, loading and closing other dictionaries, and a schedule; all held results are re-read after every step and the values once more after the dictionary was closed; non-trivial when a result was re-read after a later call"},
		func(r *rt.Rand, tier string) *c03Plan {
			p := &c03Plan{World: world.GenSpec(r, 2), Map: r.Next() >> 12}
			w := world.Get(p.World)
			nt := rt.Pick(r, []int{1, 1, 2, 3})
			for t := 0; t < nt; t++ {
				var ops []c03Op
				for i := r.Range(2, 9); i > 0; i-- {
					switch x := r.Intn(10); {
					case x < 6 || len(ops) == 0:
						c := genCall(r, w, r.Chance(1, 6))
						c.Tok = r.Intn(2)
						if len(ops) > 0 && r.Chance(1, 4) && ops[0].Op == "call" {
							c.Text = ops[0].Call.Text
						}
						ops = append(ops, c03Op{Op: "call", Call: c})
					case x < 8:
						ops = append(ops, c03Op{Op: "split", Of: r.Intn(8), Mode: rt.Pick(r, modes)})
					case x < 9:
						ops = append(ops, c03Op{Op: "load", Call: genCall(r, w, false)})
					default:
						ops = append(ops, c03Op{Op: "close"})
					}
				}
				p.Tasks = append(p.Tasks, ops)
			}
			p.Sched = rt.Schedule{Kind: "serial"}
			if nt > 1 {
				p.Sched = genSched(r, 200000)
			}
			p.Drop, p.Reuse = r.Chance(1, 4), r.Bool()
			return p
		}, execC03)
}

// held is a result somebody keeps.
type held struct {
	what  string
	ms    *gosudachi.MorphemeList
	base  string
	morph []*gosudachi.Morpheme
	vals  []string // the very strings that were read
	copy_ []string // their content then
	infos []*dictionary.WordInfo
	icopy []string
	pos   [][]string
	pcopy []string
}

func hold(what string, ms *gosudachi.MorphemeList) *held {
	h := &held{what: what, ms: ms, base: world.Digest(ms, true)}
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		wi := m.GetWordInfo()
		h.morph = append(h.morph, m)
		h.vals = append(h.vals, m.Surface(), m.DictionaryForm(), m.NormalizedForm(), m.ReadingForm(), wi.Surface)
		h.infos = append(h.infos, wi)
		h.icopy = append(h.icopy, fmt.Sprintf("%+v", *wi))
		ps := m.PartOfSpeech()
		h.pos = append(h.pos, ps)
		h.pcopy = append(h.pcopy, strings.Join(ps, ","))
	}
	for _, v := range h.vals {
		h.copy_ = append(h.copy_, strings.Clone(v))
	}
	return h
}

// values checks what was read from the list, without using the list.
func (h *held) values() string {
	for i, v := range h.vals {
		if v != h.copy_[i] {
			return fmt.Sprintf("value %d read as %q now is %q", i, h.copy_[i], v)
		}
	}
	for i, w := range h.infos {
		if s := fmt.Sprintf("%+v", *w); s != h.icopy[i] {
			return fmt.Sprintf("word information read as %s now is %s", h.icopy[i], s)
		}
	}
	for i, p := range h.pos {
		if s := strings.Join(p, ","); s != h.pcopy[i] {
			return fmt.Sprintf("part of speech read as %s now is %s", h.pcopy[i], s)
		}
	}
	return ""
}

func (h *held) check() string {
	if s := h.values(); s != "" {
		return s
	}
	if s := world.Digest(h.ms, true); s != h.base {
		return "the list now reads " + diff(s, h.base)
	}
	for i, m := range h.morph {
		if s := m.Surface() + "|" + m.NormalizedForm(); s != h.copy_[i*5]+"|"+h.copy_[i*5+2] {
			return fmt.Sprintf("morpheme %d now reads %s", i, s)
		}
	}
	return ""
}

func execC03(c *Ctx, p *c03Plan) {
	w := c.world(p.World)
	if w == nil || len(p.Tasks) == 0 || len(p.Tasks) > 8 {
		return
	}
	m := c.worldMachine(w)
	m.Reuse = p.Reuse
	pr := m.NewProc("app", "")
	s := rt.New(p.Sched, world.Limit*2, p.Map)
	var d *gosudachi.JapaneseDictionary
	keep := make([][]*held, len(p.Tasks))
	reread := 0
	k := make([]ctl, len(p.Tasks))
	fails := make([]string, len(p.Tasks))
	var loadErr error
	s.Spawn("main", pr, func() {
		d, loadErr = world.Load("/w/sudachi.json", taskHook(k))
		if loadErr != nil {
			return
		}
		for t := range p.Tasks {
			t := t
			s.Spawn(fmt.Sprintf("task%d", t), pr, func() {
				fails[t] = holdTask(p.Tasks[t], d, &k[t], &keep[t])
			})
		}
	})
	if !c.run(s, "holding results") {
		return
	}
	c.Rec = s.Rec
	if loadErr != nil {
		c.Fail("load", "dictionary does not load: %v", loadErr)
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "panic: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
		return
	}
	for t, f := range fails {
		reread += len(keep[t])
		if f != "" {
			c.Fail("changed", "task %d: %s", t, f)
			return
		}
	}
	all := func(what string, values bool) {
		for t := range keep {
			for _, h := range keep[t] {
				c.Judged++
				f := ""
				if values {
					f = h.values()
				} else {
					f = h.check()
				}
				if f != "" {
					c.Fail("changed", "%s, task %d's %s: %s", what, t, h.what, f)
					return
				}
			}
		}
	}
	c.fired(k...)
	c.lib2(pr, func() { all("at the end", false) })
	if p.Drop {
		// nothing but the lists and the values is kept
		d = nil
		c.lib2(pr, vos.Collect)
		c.lib2(pr, func() { all("after all else was dropped", false) })
		c.Trivial = reread < 2
		return
	}
	c.lib2(pr, func() { d.Close() })
	c.lib2(pr, func() { all("after Close", true) })
	c.Trivial = reread < 2
}

func holdTask(ops []c03Op, d *gosudachi.JapaneseDictionary, k *ctl, keep *[]*held) string {
	toks := map[int]*gosudachi.JapaneseTokenizer{}
	var other *gosudachi.JapaneseDictionary
	for i := range ops {
		op := &ops[i]
		switch op.Op {
		case "call":
			if toks[op.Call.Tok] == nil {
				toks[op.Call.Tok] = d.Create()
			}
			ms, out := op.Call.do(toks[op.Call.Tok], k)
			if ms != nil && !strings.HasPrefix(out, "panic") {
				*keep = append(*keep, hold(fmt.Sprintf("result of call %q mode %s", op.Call.Text, op.Call.Mode), ms))
			}
		case "split":
			if len(*keep) > 0 {
				h := (*keep)[abs(op.Of)%len(*keep)]
				if n := len(h.morph); n > 0 {
					ms := h.morph[abs(op.Of)%n].Split(op.Mode)
					*keep = append(*keep, hold(fmt.Sprintf("split %s of %s", op.Mode, h.what), ms))
				}
			}
		case "load":
			o, err := world.Load("/w/sudachi.json", nil)
			if err == nil {
				if other != nil {
					other.Close()
				}
				other = o
				_, _ = op.Call.do(other.Create(), &ctl{})
			}
		case "close":
			if other != nil {
				other.Close()
				other = nil
			}
		}
		for _, h := range *keep {
			if f := h.check(); f != "" {
				return fmt.Sprintf("after step %d (%s %q), %s: %s", i, op.Op, op.Call.Text, h.what, f)
			}
		}
	}
	if other != nil {
		other.Close()
	}
	return ""
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}
