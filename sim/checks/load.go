package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

const settingsFile = "/w/sudachi.json"

// ldLoad is one attempt to create a dictionary from settings.
type ldLoad struct {
	Users  []int                `json:"users,omitempty"` // the configured user dictionaries of the world, from 1 on, repeatedly perhaps
	V1     bool                 `json:"v1,omitempty"`    // user dictionaries of version 1, where possible
	Edit   [][2]int             `json:"edit,omitempty"`  // inhibited connections
	Inh    bool                 `json:"inh,omitempty"`   // by the library's own plugin
	Faults []*vos.Fault         `json:"faults,omitempty"`
	Chunks map[string]vos.Chunk `json:"chunks,omitempty"`
	Fail   string               `json:"fail,omitempty"` // which plugin call fails: in, inl, oov (while costs are computed), setup-in, setup-oov, setup-path, setup-edit, edit
	At     int                  `json:"at,omitempty"`
	Bad    string               `json:"bad,omitempty"` // a file that is missing, a directory, malformed or cut off
	How    string               `json:"how,omitempty"`
	Where  int                  `json:"where,omitempty"`
	Reuse  bool                 `json:"reuse,omitempty"` // the retry uses the settings read by the failed attempt
	Calls  []Call               `json:"calls,omitempty"`
}

// ldStep is a load, a use of a dictionary loaded before or its end.
type ldStep struct {
	Kind  string  `json:"kind"` // load, call, close, add (a user dictionary to Which), chardef, system (read into Which, failing)
	Load  *ldLoad `json:"load,omitempty"`
	Which int     `json:"which,omitempty"`
	Call  *Call   `json:"call,omitempty"`
	With  []Call  `json:"with,omitempty"` // made on the dictionary Which by another task during the load
}

type c14Plan struct {
	World world.Spec  `json:"world"`
	Steps []ldStep    `json:"steps"`
	Reuse bool        `json:"reuse,omitempty"` // addresses of former mappings are used again
	Map   uint64      `json:"map"`
	Sched rt.Schedule `json:"sched"`
}

func init() {
	register(Check{ID: "C14", N: 30000,
		Rule: "a plan is a history of loads from settings with 0 to 17 user dictionaries, in which opens, reads, size queries, mappings or plugins fail or files are missing, malformed or cut, each followed by a retry, while dictionaries loaded before answer calls, in the same or another task; non-trivial when a load was disturbed or computed costs were compared"},
		genC14, execC14)
}

// badLines make a definition malformed.
var badLines = map[string][]string{
	"/w/char.def":    {"0x30ZZ KANJI", "0x3042..0x3041 HIRAGANA", "0x3042 NOSUCH", "NOSUCH 0 1 0", "DEFAULT 0 1 0", "KANJI", "0x1 KANJI", "ALPHA 1 1 x"},
	"/w/unk.def":     {"KANJI,1,1,100", "NOSUCH,1,1,100,名詞,普通名詞,一般,*,*,*", "CYRILLICS,1,1,1,名詞,普通名詞,一般,*,*,*", "KANJI,1,1,100,ない,品詞,*,*,*,*", "KANJI,x,1,100,名詞,普通名詞,一般,*,*,*", "KANJI,1,1,99999,名詞,普通名詞,一般,*,*,*"},
	"/w/rewrite.def": {"a b c", "ＡＢ", "か゛ が"},
}

func (w2 *ldLoad) files(w *world.World) []string {
	fs := []string{"/w/system.dic", settingsFile}
	if !w.Spec.Embed {
		fs = append(fs, "/w/char.def", "/w/unk.def", "/w/rewrite.def")
		fs = append(fs, "/w/char.def", "/w/unk.def", "/w/rewrite.def")
	} else {
		fs = append(fs, "/w/unk.def")
	}
	for _, u := range w2.Users {
		fs = append(fs, dicOf(u))
	}
	return fs
}

func genLoad(r *rt.Rand, w *world.World, calls int) *ldLoad {
	l := &ldLoad{}
	if n := len(w.Users); n > 0 {
		k := r.Intn(n + 1)
		switch r.Intn(20) {
		case 0:
			k = 15
		case 1:
			k = 16 + r.Intn(2)
		case 2:
			k = 3 + r.Intn(12)
		}
		for i := 0; i < k; i++ {
			l.Users = append(l.Users, 1+r.Intn(n))
		}
		l.V1 = r.Chance(1, 4)
	}
	if r.Chance(1, 5) {
		for i := r.Range(1, 3); i > 0; i-- {
			l.Edit = append(l.Edit, [2]int{r.Intn(w.Sys.N), r.Intn(w.Sys.N)})
			l.Inh = r.Bool()
		}
	}
	fs := l.files(w)
	switch x := r.Intn(10); {
	case x < 5:
		for n := r.Range(1, 2); n > 0; n-- {
			f := &vos.Fault{Op: rt.Pick(r, []string{"open", "open", "read", "read", "read", "stat", "mmap", "close", "munmap"}), Nth: 1, Err: rt.Pick(r, errKinds), Sticky: r.Chance(1, 3)}
			f.Path = rt.Pick(r, fs)
			if strings.HasSuffix(f.Path, ".dic") && f.Op == "read" {
				f.Op = rt.Pick(r, []string{"open", "stat", "mmap"})
			} else if !strings.HasSuffix(f.Path, ".dic") && (f.Op == "mmap" || f.Op == "munmap" || f.Op == "stat") {
				f.Op = "read"
			}
			switch {
			case r.Chance(1, 4):
				f.Path, f.Nth = "", 1+r.Intn(30)
				if f.Op != "read" {
					f.Nth = 1 + r.Intn(2+len(l.Users))
				}
			case f.Op == "read":
				f.Nth = 1 + r.Intn(3)
				f.Partial = r.Intn(2) * r.Intn(400)
			case f.Path == "/w/char.def":
				f.Nth = 1 + r.Intn(2)
			}
			l.Faults = append(l.Faults, f)
		}
	case x < 7:
		l.Fail = rt.Pick(r, []string{"in", "inl", "oov", "oov", "setup-in", "setup-oov", "setup-path", "setup-edit", "edit"})
		l.At = r.Intn(2)
		if l.Fail == "oov" {
			l.At = r.Intn(12)
		}
	case x < 8:
		l.Bad = rt.Pick(r, fs)
		l.Where = r.Intn(100000)
		l.How = rt.Pick(r, []string{"missing", "dir", "bad", "bad", "bad"})
	}
	if r.Chance(1, 4) {
		l.Chunks = map[string]vos.Chunk{}
		for _, f := range fs {
			if !strings.HasSuffix(f, ".dic") && r.Bool() {
				l.Chunks[f] = genChunk(r, w.Files[f])
			}
		}
	}
	l.Reuse = r.Chance(1, 3)
	for ; calls > 0; calls-- {
		l.Calls = append(l.Calls, genCall(r, w, false))
	}
	return l
}

// genAdd makes the addition of one user dictionary to a dictionary in use.
func genAdd(r *rt.Rand, w *world.World) *ldLoad {
	l := &ldLoad{V1: r.Chance(1, 4)}
	f := "/w/system.dic"
	if n := len(w.Users); n > 0 {
		l.Users = []int{1 + r.Intn(n)}
		f = dicOf(l.Users[0])
	}
	switch x := r.Intn(8); {
	case x < 2:
		l.Faults = []*vos.Fault{{Op: rt.Pick(r, []string{"open", "stat", "mmap"}), Nth: 1, Err: rt.Pick(r, errKinds)}}
	case x < 5:
		l.Fail = rt.Pick(r, []string{"in", "inl", "oov", "oov"})
		l.At = r.Intn(3)
		if l.Fail == "oov" {
			l.At = r.Intn(12)
		}
	case x < 7:
		l.Bad = f
		l.Where = r.Intn(100000)
		if r.Chance(1, 3) {
			l.Where = r.Intn(400)
		}
		l.How = rt.Pick(r, []string{"missing", "dir", "bad", "bad"})
	}
	return l
}

func genC14(r *rt.Rand, tier string) *c14Plan {
	p := &c14Plan{World: smallSpec(r, 3), Map: r.Next() >> 12, Sched: genSched(r, 60000)}
	if r.Chance(3, 4) {
		p.World.Users = max(1, p.World.Users)
	}
	w := world.Get(p.World)
	for n := r.Range(1, 4); n > 0; n-- {
		s := ldStep{Kind: "load", Which: r.Intn(3)}
		switch {
		case len(p.Steps) > 0 && r.Chance(1, 6):
			s.Kind = "close"
		case len(p.Steps) > 0 && r.Chance(1, 6):
			s.Kind = "call"
			x := genCall(r, w, true)
			s.Call = &x
		case len(p.Steps) > 0 && len(w.Users) > 0 && r.Chance(1, 3):
			s.Kind = "add"
			s.Load = genAdd(r, w)
		case len(p.Steps) > 0 && r.Chance(1, 8):
			s.Kind = rt.Pick(r, []string{"chardef", "system"})
			s.Load = genAdd(r, w)
		default:
			s.Load = genLoad(r, w, r.Range(1, 2))
			if len(p.Steps) > 0 && r.Chance(1, 4) {
				for k := r.Range(1, 2); k > 0; k-- {
					s.With = append(s.With, genCall(r, w, false))
				}
			}
		}
		p.Steps = append(p.Steps, s)
	}
	p.Reuse = r.Bool()
	return p
}

// settings are the world's with the load's user dictionaries; without path
// plugins if bare.
func (l *ldLoad) settings(w *world.World, bare bool) []byte {
	var s map[string]interface{}
	if err := json.Unmarshal(w.Files[settingsFile], &s); err != nil {
		panic(err)
	}
	delete(s, "userDict")
	var us []string
	for _, u := range l.Users {
		us = append(us, dicOf(u))
	}
	if us != nil {
		s["userDict"] = us
	}
	if bare {
		delete(s, "pathRewritePlugin")
	}
	b, err := json.MarshalIndent(s, "", " ")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

func (l *ldLoad) valid(w *world.World) bool {
	for _, u := range l.Users {
		if u < 1 || u > len(w.Users) {
			return false
		}
	}
	for _, e := range l.Edit {
		if e[0] < 0 || e[1] < 0 || e[0] >= w.Sys.N || e[1] >= w.Sys.N {
			return false
		}
	}
	return len(l.Calls) < 20 && len(l.Users) < 20
}

// prepare puts the files of the attempt on the disk; used tells whether the
// file to be damaged matters.
func (l *ldLoad) prepare(m *vos.Machine, w *world.World, damaged bool) (used bool) {
	for _, f := range w.Names() {
		if strings.HasPrefix(f, "/w/user") && l.V1 {
			if b := makeV1(w.Files[f]); b != nil {
				putFile(m, f, b)
				continue
			}
		}
		if f == settingsFile {
			putFile(m, f, l.settings(w, false))
		} else {
			putFile(m, f, w.Files[f])
		}
	}
	if !damaged || l.Bad == "" {
		return false
	}
	b, ok := m.Disk.Get(l.Bad)
	if !ok || !in(l.Bad, l.files(w)) {
		return false
	}
	switch l.How {
	case "missing":
		m.Disk.Remove(l.Bad)
	case "dir":
		m.Disk.Remove(l.Bad)
		m.Disk.MkdirAll(l.Bad)
	default:
		if bad := badLines[l.Bad]; bad != nil {
			lines := strings.SplitAfter(string(b), "\n")
			k := l.Where % len(lines)
			if x := bad[abs(l.Where/7)%len(bad)]; x == "DEFAULT 0 1 0" || x == "か゛ が" {
				k = len(lines) - 1 // defined again
				lines[k] += x + "\n"
			} else {
				lines[k] = x + "\n" + lines[k]
			}
			putFile(m, l.Bad, []byte(strings.Join(lines, "")))
		} else if l.Bad == settingsFile {
			s := strings.TrimRight(string(b), "\n")
			if l.Where%3 == 0 {
				s = strings.Replace(s, "DefaultInputTextPlugin", "NoSuchPlugin", 1)
			} else {
				s = s[:abs(l.Where)%len(s)]
			}
			putFile(m, l.Bad, []byte(s))
		} else {
			putFile(m, l.Bad, b[:abs(l.Where)%len(b)])
		}
	}
	return true
}

// putFile replaces a file by a new one, so that one in use stays as it is.
func putFile(m *vos.Machine, f string, b []byte) {
	if old, ok := m.Disk.Get(f); ok && bytes.Equal(old, b) {
		return
	}
	m.Disk.Remove(f)
	m.Disk.Put(f, b)
}

// editPlugin inhibits connections, and may fail.
type editPlugin struct {
	pairs [][2]int
	c     *ctl
}

func (p editPlugin) GetConfigStruct() interface{} { return &struct{}{} }

func (p editPlugin) SetUp(*dictionary.Grammar) error { return p.c.hit("setup-edit") }

func (p editPlugin) Edit(g *dictionary.Grammar) error {
	for _, x := range p.pairs {
		gosudachi.InhibitConnection(g, int16(x[0]), int16(x[1]))
	}
	return p.c.hit("edit")
}

type upIn struct {
	gosudachi.InputTextPlugin
	c *ctl
}

func (p upIn) SetUp() error {
	if err := p.c.hit("setup-in"); err != nil {
		return err
	}
	return p.InputTextPlugin.SetUp()
}

type upOov struct {
	gosudachi.OovProviderPlugin
	c *ctl
}

func (p upOov) SetUp(g *dictionary.Grammar) error {
	if err := p.c.hit("setup-oov"); err != nil {
		return err
	}
	return p.OovProviderPlugin.SetUp(g)
}

type upPath struct {
	gosudachi.PathRewritePlugin
	c *ctl
}

func (p upPath) SetUp(g *dictionary.Grammar) error {
	if err := p.c.hit("setup-path"); err != nil {
		return err
	}
	return p.PathRewritePlugin.SetUp(g)
}

// load attempts it; st are settings read by an earlier attempt.
func (l *ldLoad) load(k *ctl, st *gosudachi.SettingsJSON) (*gosudachi.JapaneseDictionary, *gosudachi.SettingsJSON, error) {
	hook := func(p *world.Plugins) {
		for i := range p.In {
			p.In[i] = upIn{p.In[i], k}
		}
		for i := range p.Oov {
			p.Oov[i] = upOov{p.Oov[i], k}
		}
		for i := range p.Path {
			p.Path[i] = upPath{p.Path[i], k}
		}
		k.hook(p)
		if len(l.Edit) > 0 || strings.HasSuffix(l.Fail, "edit") {
			if l.Inh {
				var pairs []*[]int
				for _, e := range l.Edit {
					pairs = append(pairs, &[]int{e[0], e[1]})
				}
				p.Edit = append(p.Edit, gosudachi.NewInhibitConnectionPlugin(pairs), editPlugin{nil, k})
				return
			}
			p.Edit = append(p.Edit, editPlugin{l.Edit, k})
		}
	}
	if st == nil {
		f, err := vos.OpenFile(settingsFile, 0, 0)
		if err != nil {
			return nil, nil, err
		}
		defer f.Close()
		st = gosudachi.NewSettingsJSON()
		if err := st.ParseSettingsJSON("/w", f); err != nil {
			return nil, nil, err
		}
	}
	d, err := world.Create(st, hook)
	return d, st, err
}

// answer makes a call and tells everything about its result.
func answer(d *gosudachi.JapaneseDictionary, x *Call, k *ctl) string {
	ms, out := x.do(d.Create(), k)
	if ms != nil {
		out += fmt.Sprintf("cost %d\n", ms.GetInternalCost())
	}
	return out
}

// key identifies what the loaded dictionary is made of.
func (l *ldLoad) key() string { return fmt.Sprint(l.Users, l.Edit) }

// heldDict is a dictionary in use.
type heldDict struct {
	d    *gosudachi.JapaneseDictionary
	l    *ldLoad
	step int
	k    *ctl
}

// want is what a call on the load's dictionary answers after an undisturbed
// load in a fresh process.
func (l *ldLoad) want(c *Ctx, w *world.World, x *Call) string {
	kb, _ := json.Marshal(x)
	r := c.ref(fmt.Sprint("c14 ", w.Spec, l.key(), string(kb)), func() *outRef {
		q := &ldLoad{Users: l.Users, Edit: l.Edit}
		m := c.machine()
		q.prepare(m, w, false)
		o := &outRef{}
		c.lib(m, "reference", func() {
			k := &ctl{}
			d, _, err := q.load(k, nil)
			if err != nil {
				o.err = err.Error()
				return
			}
			o.out = []byte(answer(d, x, k))
			d.Close()
		})
		return o
	})
	if r.err != "" {
		return "load error: " + r.err
	}
	return string(r.out)
}

func execC14(c *Ctx, p *c14Plan) {
	w := c.world(p.World)
	if w == nil {
		return
	}
	if len(p.Steps) > 10 {
		c.Skipped = true
		return
	}
	for _, s := range p.Steps {
		if s.Kind != "call" && s.Kind != "close" && (s.Load == nil || !s.Load.valid(w)) || s.Kind == "call" && s.Call == nil || len(s.With) > 8 {
			c.Skipped = true
			return
		}
	}
	m := c.worldMachine(w)
	m.Reuse = p.Reuse
	app := m.NewProc("app", "")
	var held []*heldDict
	c.Trivial = true
	pick := func(i int) *heldDict {
		if len(held) == 0 {
			return nil
		}
		return held[abs(i)%len(held)]
	}
	use := func(h *heldDict, x *Call, when string) {
		want := h.l.want(c, w, x)
		var got string
		c.lib2(app, func() { got = answer(h.d, x, h.k) })
		c.Judged++
		if c.V == nil && got != want {
			c.Fail("disturbed", "%s, the dictionary loaded in step %d answers %q in mode %s differently: %s", when, h.step, x.Text, x.Mode, diff(got, want))
		}
	}
	for i := range p.Steps {
		s := &p.Steps[i]
		switch s.Kind {
		case "close":
			if h := pick(s.Which); h != nil {
				c.lib2(app, h.d.Close)
				k := abs(s.Which) % len(held)
				held = append(held[:k:k], held[k+1:]...)
			}
		case "call":
			if h := pick(s.Which); h != nil {
				use(h, s.Call, fmt.Sprintf("in step %d", i))
			}
		case "add":
			if h := pick(s.Which); h != nil && len(s.Load.Users) == 1 {
				p.add(c, w, m, app, s.Load, i, h)
			}
		case "chardef", "system":
			if h := pick(s.Which); h != nil {
				p.other(c, w, m, app, s, i, h)
			}
		case "load":
			h := p.step(c, w, m, app, s, i, pick(s.Which))
			if h != nil {
				held = append(held, h)
			}
		}
		if c.V != nil {
			return
		}
		for _, h := range held {
			if len(h.l.Calls) > 0 {
				use(h, &h.l.Calls[i%len(h.l.Calls)], fmt.Sprintf("after step %d", i))
			}
			if c.V != nil {
				return
			}
		}
	}
}

// step makes a load, and again if it failed.
func (p *c14Plan) step(c *Ctx, w *world.World, m *vos.Machine, app *vos.Proc, s *ldStep, n int, busy *heldDict) *heldDict {
	l := s.Load
	must := ""
	if l.prepare(m, w, true) {
		must = fmt.Sprintf("%s is %s (%d)", l.Bad, l.How, l.Where)
	}
	if len(l.Users) > 15 {
		must = fmt.Sprintf("%d user dictionaries are configured", len(l.Users))
	}
	var st *gosudachi.SettingsJSON
	for try := 0; try < 2; try++ {
		k := &ctl{}
		if try == 0 {
			k.kind, k.at = l.Fail, l.At
			app.ChunksOf = l.Chunks
			m.Faults = nil
			for _, f := range l.Faults {
				q := *f
				m.Faults = append(m.Faults, &q)
			}
		}
		var d *gosudachi.JapaneseDictionary
		var err error
		if busy != nil && len(s.With) > 0 && try == 0 {
			var want, got []string
			for j := range s.With {
				want = append(want, busy.l.want(c, w, &s.With[j]))
			}
			sim := rt.New(p.Sched, world.Limit, p.Map)
			sim.Spawn("loader", app, func() { d, st, err = l.load(k, nil) })
			sim.Spawn("user", app, func() {
				for j := range s.With {
					got = append(got, answer(busy.d, &s.With[j], busy.k))
				}
			})
			c.run(sim, "load beside calls")
			if c.Rec == nil {
				c.Rec = sim.Rec
			}
			for j := range got {
				c.Judged++
				if got[j] != want[j] {
					c.Fail("disturbed", "during the load of step %d, the dictionary loaded in step %d answers %q in mode %s differently: %s", n, busy.step, s.With[j].Text, s.With[j].Mode, diff(got[j], want[j]))
				}
			}
		} else {
			sim := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, p.Map+uint64(try))
			old := st
			if !l.Reuse || l.Bad == settingsFile {
				old = nil
			}
			sim.Spawn("loader", app, func() { d, st, err = l.load(k, old) })
			c.run(sim, "load")
		}
		k.kind = ""
		c.fired(*k)
		if c.V != nil {
			return nil
		}
		if app.PanicMsg != "" {
			c.Fail("panic", "loading in step %d panics: %s\n%s", n, app.PanicMsg, short(app.PanicStk))
			return nil
		}
		why, soft := must, false
		if try == 0 {
			for _, f := range m.Faults {
				switch {
				case !f.DidFire():
				case f.Op == "close" || f.Op == "munmap" || !f.Live() || (f.Op == "read" && f.Hit == settingsFile):
					soft = true
				default:
					why = fmt.Sprintf("%s of %s failed with %s", f.Op, f.Hit, f.Err)
				}
			}
			if len(k.fired) > 0 {
				why = fmt.Sprintf("a plugin returned an error (%s)", l.Fail)
			}
		}
		if why != "" || soft {
			c.Trivial = false
			c.note("load disturbed")
		}
		m.Faults, app.ChunksOf = nil, nil
		c.Judged++
		if err == nil {
			if why != "" {
				c.Fail("accepted", "step %d: the dictionary loads although %s", n, why)
				return nil
			}
			h := &heldDict{d, l, n, k}
			for j := range l.Calls {
				x := &l.Calls[j]
				want := l.want(c, w, x)
				var got string
				c.lib2(app, func() { got = answer(d, x, k) })
				c.Judged++
				if c.V == nil && got != want {
					c.Fail("partial", "step %d: the dictionary loads (attempt %d) but answers %q in mode %s differently from one loaded undisturbed: %s", n, try+1, x.Text, x.Mode, diff(got, want))
				}
			}
			if c.V == nil && strings.HasPrefix(l.want(c, w, &Call{Text: "一", Mode: "C"}), "load error") {
				c.Fail("partial", "step %d: the dictionary loads, but not in a fresh process: %s", n, l.want(c, w, &Call{Text: "一", Mode: "C"}))
			}
			if c.V == nil && len(l.Users) > 0 && len(l.Users) < 5 {
				p.costs(c, w, app, h)
			}
			return h
		}
		if d != nil {
			c.Fail("both", "step %d: the load returns a dictionary and the error %v", n, err)
			return nil
		}
		if why == "" && !soft {
			// refused undisturbed, too?
			if x := l.want(c, w, &Call{Text: "一", Mode: "C"}); !strings.HasPrefix(x, "load error") {
				c.Fail("refused", "step %d: the dictionary does not load (attempt %d): %v", n, try+1, err)
			} else {
				c.note("does not load at all: " + strings.Map(noDigits, world.Tail([]byte(err.Error()))))
			}
			return nil
		}
		if len(l.Users) > 15 {
			return nil
		}
		must = ""
		l.prepare(m, w, false)
	}
	return nil
}

// posTable are the parts of speech a dictionary has.
func posTable(d *gosudachi.JapaneseDictionary) string {
	var b strings.Builder
	for i := 0; i < d.GetPartOfSpeechSize(); i++ {
		fmt.Fprintln(&b, i, d.GetPartOfSpeechString(int16(i)))
	}
	return b.String()
}

// add adds a user dictionary to one in use, and again if that failed.
func (p *c14Plan) add(c *Ctx, w *world.World, m *vos.Machine, app *vos.Proc, l *ldLoad, n int, h *heldDict) {
	path := dicOf(l.Users[0])
	must := ""
	if l.prepare(m, w, true) && l.Bad == path {
		must = fmt.Sprintf("%s is %s (%d)", l.Bad, l.How, l.Where)
	}
	if len(h.l.Users) > 14 {
		must = "15 user dictionaries are there"
	}
	now := &ldLoad{Users: append(append([]int{}, h.l.Users...), l.Users[0]), V1: l.V1, Edit: h.l.Edit, Calls: h.l.Calls}
	probe := &Call{Text: "一", Mode: "C"}
	if len(h.l.Calls) > 0 {
		probe = &h.l.Calls[0]
	}
	for try := 0; try < 2; try++ {
		k := h.k
		k.kind, k.fired = "", nil
		if try == 0 {
			k.kind, k.at, k.n = l.Fail, l.At, 0
			for _, f := range l.Faults {
				q := *f
				m.Faults = append(m.Faults, &q)
			}
		}
		var before, after string
		var err error
		c.lib2(app, func() {
			before = posTable(h.d)
			err = h.d.ReadUserDictionary(path, w.Spec.UTF16)
			k.kind = ""
			after = posTable(h.d)
		})
		c.fired(*k)
		why := must
		for _, f := range m.Faults {
			if f.DidFire() {
				why = fmt.Sprintf("%s of %s failed with %s", f.Op, f.Hit, f.Err)
			}
		}
		if len(k.fired) > 0 {
			why = fmt.Sprintf("a plugin returned an error (%s)", l.Fail)
		}
		k.fired, m.Faults = nil, nil
		if c.V != nil {
			return
		}
		c.Judged++
		if err == nil {
			if why != "" {
				c.Fail("accepted", "step %d: a user dictionary is added although %s", n, why)
				return
			}
			h.l, h.step = now, n
			want := now.want(c, w, probe)
			var got string
			c.lib2(app, func() { got = answer(h.d, probe, h.k) })
			if c.V == nil && got != want {
				c.Fail("partial", "step %d: with user dictionary %d added (attempt %d) the dictionary answers %q in mode %s differently from one loaded so: %s", n, l.Users[0], try+1, probe.Text, probe.Mode, diff(got, want))
			}
			if c.V == nil && len(now.Users) < 5 {
				p.costs(c, w, app, h)
			}
			c.note("user dictionary added")
			return
		}
		c.Trivial = false
		c.note("addition failed")
		if before != after {
			c.Fail("disturbed", "step %d: adding a user dictionary fails (%v) but changes the parts of speech: %s", n, err, diff(after, before))
			return
		}
		want := h.l.want(c, w, probe)
		var got string
		c.lib2(app, func() { got = answer(h.d, probe, h.k) })
		if c.V == nil && got != want {
			c.Fail("disturbed", "step %d: adding a user dictionary failed (%v) and the dictionary answers %q in mode %s differently: %s", n, err, probe.Text, probe.Mode, diff(got, want))
			return
		}
		if why == "" {
			if x := now.want(c, w, probe); !strings.HasPrefix(x, "load error") {
				c.Fail("refused", "step %d: the user dictionary is not added (attempt %d): %v", n, try+1, err)
			}
			return
		}
		if len(h.l.Users) > 14 {
			return
		}
		must = ""
		l.prepare(m, w, false)
	}
}

// other reads a character definition or system dictionary into a dictionary
// in use; it fails, and nothing changes.
func (p *c14Plan) other(c *Ctx, w *world.World, m *vos.Machine, app *vos.Proc, s *ldStep, n int, h *heldDict) {
	l := *s.Load
	path := "/w/system.dic"
	if s.Kind == "chardef" {
		path = "/w/char.def"
		if w.Spec.Embed {
			return
		}
	}
	l.Bad = path
	if l.How == "" {
		l.How = "bad"
	}
	if !l.prepare(m, w, true) {
		return
	}
	var before, after string
	var err error
	c.lib2(app, func() {
		before = posTable(h.d)
		if s.Kind == "chardef" {
			err = h.d.ReadCharacterDefinition(path)
		} else {
			err = h.d.ReadSystemDictionary(path, w.Spec.UTF16)
		}
		if err != nil {
			after = posTable(h.d)
		}
	})
	l.prepare(m, w, false)
	if c.V != nil {
		return
	}
	c.Judged++
	c.Trivial = false
	if err == nil && s.Kind == "chardef" && !strings.HasPrefix(badLines[path][abs(l.Where/7)%len(badLines[path])], "0x") {
		return // wrong to the reader of categories only
	}
	if err == nil {
		c.Fail("accepted", "step %d: %s is read although it is %s (%d)", n, path, l.How, l.Where)
		return
	}
	c.note("reading failed: " + s.Kind)
	if before != after {
		c.Fail("disturbed", "step %d: reading %s fails (%v) but changes the parts of speech: %s", n, path, err, diff(after, before))
	}
	// the answers are compared after every step
}

func noDigits(r rune) rune {
	if r >= '0' && r <= '9' {
		return -1
	}
	return r
}

var dumpLine = regexp.MustCompile(`^\d+: \d+ \d+ .*\((-?\d+)\) \S+ -?\d+ -?\d+ (-?\d+): `)

// dumped are the costs of the words in a lattice dump, by word id.
func dumped(s string) map[int]int {
	r := map[int]int{}
	for _, l := range strings.Split(s, "\n") {
		if x := dumpLine.FindStringSubmatch(l); x != nil {
			id, _ := strconv.Atoi(x[1])
			r[id], _ = strconv.Atoi(x[2])
		}
	}
	return r
}

// costs compares the computed costs of user dictionary words with what
// tokenizing them with the dictionaries before theirs says.
func (p *c14Plan) costs(c *Ctx, w *world.World, app *vos.Proc, h *heldDict) {
	type word struct{ id, head, cost int }
	for k := range h.l.Users {
		u := w.Users[h.l.Users[k]-1]
		var ids []int
		for i, e := range u.Entries {
			if e.Cost == -32768 && e.Left >= 0 {
				ids = append(ids, i)
			}
		}
		if len(ids) == 0 {
			continue
		}
		sort.Ints(ids)
		if len(ids) > 4 {
			ids = ids[:4]
		}
		for _, i := range ids {
			e := &u.Entries[i]
			// what the word would cost without its dictionary
			r := c.ref(fmt.Sprint("c14 cost ", w.Spec, h.l.Users[:k], h.l.Edit, i, h.l.Users[k]), func() *outRef {
				q := &ldLoad{Users: h.l.Users[:k:k], Edit: h.l.Edit}
				m := c.machine()
				q.prepare(m, w, false)
				putFile(m, settingsFile, q.settings(w, true))
				o := &outRef{}
				c.lib(m, "reference", func() {
					d, _, err := q.load(&ctl{}, nil)
					if err != nil {
						o.err = err.Error()
						return
					}
					ms, err := d.Create().Tokenize("C", e.Surf)
					if err != nil {
						o.err = err.Error()
						return
					}
					o.code = max(-32768, min(32767, ms.GetInternalCost()-20*ms.Length()))
					d.Close()
				})
				return o
			})
			if r.err != "" {
				c.note("no cost to compare with")
				continue
			}
			var b bytes.Buffer
			c.lib2(app, func() {
				t := h.d.Create()
				t.DumpOutput = &b
				t.Tokenize("C", e.Head)
			})
			if c.V != nil {
				return
			}
			got, ok := dumped(b.String())[(k+1)<<28|i]
			if !ok {
				c.note("the word is not in the lattice")
				continue
			}
			c.Judged++
			c.Trivial = false
			c.note("computed cost compared")
			if got != r.code {
				c.Fail("cost", "word %d (%q) of user dictionary %d has the computed cost %d, but with the dictionaries before it %q costs %d", i, e.Head, k+1, got, e.Surf, r.code)
				return
			}
		}
	}
}
