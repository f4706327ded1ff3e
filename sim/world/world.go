package world

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"vsim/rt"
	"vsim/vos"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dicbuilder"
	"github.com/msnoigrs/gosudachi/dicconv"
	"github.com/msnoigrs/gosudachi/gosudachicli"
	"github.com/msnoigrs/gosudachi/printdic"
	"github.com/msnoigrs/gosudachi/printdicheader"
	"github.com/msnoigrs/gosudachi/userdicbuilder"
)

// Cmds are the programs.
var Cmds = map[string]func(){
	"dicbuilder":     cmd_dicbuilder.VsimMain__,
	"userdicbuilder": cmd_userdicbuilder.VsimMain__,
	"dicconv":        cmd_dicconv.VsimMain__,
	"printdic":       cmd_printdic.VsimMain__,
	"printdicheader": cmd_printdicheader.VsimMain__,
	"gosudachicli":   cmd_gosudachicli.VsimMain__,
}

// Spec identifies a world.
type Spec struct {
	Seed  uint64 `json:"seed"`
	Size  int    `json:"size"`
	Users int    `json:"users"`
	USize int    `json:"usize"`
	UTF16 bool   `json:"utf16,omitempty"`
	Catch bool   `json:"catch,omitempty"` // a catch-all unknown word provider
	Embed bool   `json:"embed,omitempty"` // built-in character and rewrite definitions
}

// World is a set of sources, the dictionaries built from them and settings.
type World struct {
	Spec  Spec
	Sys   *Dict
	Users []*Dict
	Files map[string][]byte
	Words []string
	Steps uint64
	Err   error
}

// GenSpec picks a world out of a small family, so that its dictionaries are
// built once per process.
func GenSpec(r *rt.Rand, users int) Spec {
	s := Spec{Seed: uint64(r.Intn(12)), Size: rt.Pick(r, []int{12, 40, 90}), Users: r.Intn(users + 1), USize: r.Range(1, 14)}
	s.UTF16 = r.Chance(1, 3)
	s.Catch = r.Chance(2, 3)
	s.Embed = r.Chance(1, 10)
	if r.Chance(1, 12) {
		s.Size = 250
	}
	return s
}

const charDef = `DEFAULT 0 1 0
SPACE 0 1 0
KANJI 0 0 2
SYMBOL 0 1 0
NUMERIC 1 1 0
ALPHA 1 1 0
HIRAGANA 0 1 2
KATAKANA 1 1 2
KANJINUMERIC 0 1 0
GREEK 1 1 0
CYRILLIC 1 1 0
NOOOVBOW 0 0 0
0x0020 SPACE # space
0x0009 SPACE
0x3000 SPACE
0x0021..0x002F SYMBOL
0x0030..0x0039 NUMERIC
0x003A..0x0040 SYMBOL
0x0041..0x005A ALPHA
0x005B..0x0060 SYMBOL
0x0061..0x007A ALPHA
0x007B..0x007E SYMBOL
0x00C0..0x00FF ALPHA
0x0391..0x03C9 GREEK
0x0400..0x04FF CYRILLIC
0x2702 SYMBOL
0x3001..0x3002 SYMBOL
0x3041..0x309F HIRAGANA
0x3099 NOOOVBOW HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC KATAKANA NOOOVBOW # prolonged sound
0x31F0..0x31FF KATAKANA
0x4E00..0x9FA5 KANJI
0x4E00 KANJINUMERIC KANJI
0x4E8C KANJINUMERIC KANJI
0x4E09 KANJINUMERIC KANJI
0x56DB KANJINUMERIC KANJI
0x4E94 KANJINUMERIC KANJI
0x5341 KANJINUMERIC KANJI
0x767E KANJINUMERIC KANJI
0x5343 KANJINUMERIC KANJI
0x4E07 KANJINUMERIC KANJI
0x5104 KANJINUMERIC KANJI
0x3005 KANJI
0xFF10..0xFF19 NUMERIC
0xFF21..0xFF5A ALPHA
0xFF66..0xFF9F KATAKANA
0x01F300..0x01F9FF SYMBOL
0x200D NOOOVBOW
`

const rewriteDef = `# exempt from normalisation
Ⅳ
ー
①
# replacements
か゛	が
は゜	ぱ
ｶﾞ	ガ
カ゛	ガ
ヷ	ワ゛
～～	ー
`

// Get makes the world of a spec; the dictionaries are built by the real
// programs. Worlds are cached.
func Get(s Spec) *World {
	if vos.Simulated() {
		panic("vsim: a world is asked for inside a simulation")
	}
	key := fmt.Sprint(s)
	if w := cache[key]; w != nil {
		return w
	}
	if len(cache) > 200 {
		older, cache = cache, map[string]*World{}
	}
	w := older[key]
	if w == nil {
		w = make_(s, false)
		if w.Err == nil && len(w.Users) > 0 {
			m := w.Machine()
			var err error
			RunLib(m, "try", func() {
				d, e := Load("/w/sudachi.json", nil)
				if err = e; e == nil {
					d.Close()
				}
			})
			m.Cleanup()
			if err != nil {
				// a cost to be computed cannot be
				w = make_(s, true)
				NoCosts++
			}
		}
	}
	cache[key] = w
	return w
}

// The worlds used last, and those used before: what a plan has asked for once
// stays while it runs.
var cache, older = map[string]*World{}, map[string]*World{}

// NoCosts counts worlds made without costs to be computed.
var NoCosts int

func make_(s Spec, fixed bool) *World {
	r := rt.NewRand(s.Seed*7919 + uint64(s.Size)*31 + uint64(s.USize))
	w := &World{Spec: s, Files: map[string][]byte{}}
	w.Sys = GenSystem(r.Fork(1), s.Size)
	if s.Seed%4 == 1 {
		w.Sys.Desc = ""
	}
	for i := 0; i < s.Users; i++ {
		u := GenUser(r.Fork(uint64(i)+2), s.USize, w.Sys)
		for k := range u.Entries {
			if fixed && u.Entries[k].Cost == -32768 {
				u.Entries[k].Cost = 4000 - 100*k
			}
		}
		if s.Seed%4 == 2 {
			u.Desc = ""
		}
		w.Users = append(w.Users, u)
	}
	w.Files["/w/lex.csv"] = CSV(w.Sys.Entries, r.Intn(4))
	w.Files["/w/matrix.def"] = w.Sys.Matrix()
	for i, u := range w.Users {
		w.Files[fmt.Sprintf("/w/user%d.csv", i+1)] = CSV(u.Entries, r.Intn(4))
	}
	w.Files["/w/char.def"] = []byte(charDef)
	w.Files["/w/rewrite.def"] = []byte(rewriteDef)
	var unk strings.Builder
	for _, c := range []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KATAKANA", "KANJINUMERIC", "GREEK"} {
		p := rt.Pick(r, PosList)
		if c == "NUMERIC" || c == "KANJINUMERIC" {
			p = PosList[2]
		}
		fmt.Fprintf(&unk, "%s,%d,%d,%d,%s\n", c, 1+r.Intn(w.Sys.N-2), 1+r.Intn(w.Sys.N-2), r.Range(3000, 14000), strings.Join(p, ","))
	}
	w.Files["/w/unk.def"] = []byte(unk.String())
	w.Files["/w/sudachi.json"] = w.settings(r)
	seen := map[string]bool{}
	for _, d := range append([]*Dict{w.Sys}, w.Users...) {
		for _, e := range d.Entries {
			if e.Head != Bad && !seen[e.Head] {
				seen[e.Head] = true
				w.Words = append(w.Words, e.Head)
			}
		}
	}

	// build
	m := vos.NewMachine()
	defer m.Cleanup()
	for _, p := range w.Names() {
		m.Disk.Put(p, w.Files[p])
	}
	run := func(cmd string, args ...string) {
		if s.UTF16 {
			args = append([]string{"-j"}, args...)
		}
		p, _ := RunCmd(m, cmd, args...)
		w.Steps += rt.Steps()
		if w.Err == nil && p.Code != 0 {
			w.Err = fmt.Errorf("%s %v: status %d: %s", cmd, args, p.Code, Tail(p.Stderr))
		}
	}
	run("dicbuilder", "-o", "/w/system.dic", "-m", "/w/matrix.def", "-d", w.Sys.Desc, "/w/lex.csv")
	for i, u := range w.Users {
		run("userdicbuilder", "-o", fmt.Sprintf("/w/user%d.dic", i+1), "-s", "/w/system.dic", "-d", u.Desc, fmt.Sprintf("/w/user%d.csv", i+1))
	}
	if w.Err == nil {
		w.Files["/w/system.dic"], _ = m.Disk.Get("/w/system.dic")
		for i := range w.Users {
			p := fmt.Sprintf("/w/user%d.dic", i+1)
			w.Files[p], _ = m.Disk.Get(p)
		}
	}
	return w
}

// Tail is the end of a program's messages.
func Tail(b []byte) string {
	if len(b) > 300 {
		b = b[len(b)-300:]
	}
	return string(b)
}

func (w *World) settings(r *rt.Rand) []byte {
	type obj map[string]interface{}
	cls := func(n string) string {
		if r.Bool() {
			return "com.worksap.nlp.sudachi." + n
		}
		return n
	}
	s := obj{"systemDict": "/w/system.dic"}
	if !w.Spec.Embed {
		s["characterDefinitionFile"] = "/w/char.def"
	}
	var us []string
	for i := range w.Users {
		us = append(us, fmt.Sprintf("/w/user%d.dic", i+1))
	}
	if len(us) > 0 {
		s["userDict"] = us
	}
	if w.Spec.UTF16 {
		s["utf16String"] = true
	}
	def := obj{"class": cls("DefaultInputTextPlugin")}
	mecab := obj{"class": cls("MeCabOovProviderPlugin"), "unkDef": "/w/unk.def"}
	if !w.Spec.Embed {
		def["rewriteDef"] = "/w/rewrite.def"
		mecab["charDef"] = "/w/char.def"
	}
	in := []obj{def}
	if r.Chance(3, 4) {
		in = append(in, obj{"class": cls("ProlongedSoundMarkInputTextPlugin"), "prolongedSoundMarks": []string{"ー", "〜", "~"}, "replacementSymbol": "ー"})
	}
	s["inputTextPlugin"] = in
	oov := []obj{mecab}
	if w.Spec.Catch {
		simple := obj{"class": cls("SimpleOovProviderPlugin"), "oovPOS": PosList[5], "leftId": 1 + r.Intn(w.Sys.N-2), "rightId": 1 + r.Intn(w.Sys.N-2), "cost": r.Range(3000, 30000)}
		if r.Bool() {
			oov = []obj{simple, mecab} // only invoked categories give longer ones
		} else {
			oov = append(oov, simple)
		}
	}
	s["oovProviderPlugin"] = oov
	path := []obj{}
	if r.Chance(4, 5) {
		path = append(path, obj{"class": cls("JoinNumericPlugin"), "enableNormalize": r.Chance(3, 4)})
	}
	if r.Chance(4, 5) {
		path = append(path, obj{"class": cls("JoinKatakanaOovPlugin"), "oovPOS": PosList[0], "minLength": r.Range(1, 4)})
	}
	s["pathRewritePlugin"] = path
	b, err := json.MarshalIndent(s, "", "  ")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// Names lists the world's files, sorted.
func (w *World) Names() []string {
	var r []string
	for p := range w.Files {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// Install puts the world's files on a machine's disk.
func (w *World) Install(m *vos.Machine) {
	for _, p := range w.Names() {
		m.Disk.Put(p, w.Files[p])
	}
}

// Machine makes a machine with the world's files.
func (w *World) Machine() *vos.Machine {
	m := vos.NewMachine()
	w.Install(m)
	return m
}

// Limit is the number of steps after which a run counts as hanging.
const Limit = 60000000

// RunCmd runs a program alone to its end.
func RunCmd(m *vos.Machine, cmd string, args ...string) (*vos.Proc, *rt.Sim) {
	p := m.NewProc(cmd, cmd, args...)
	return p, RunProc(p)
}

// RunProc runs a prepared program alone.
func RunProc(p *vos.Proc) *rt.Sim {
	s := rt.New(rt.Schedule{Kind: "serial"}, Limit, 1)
	StartCmd(s, p)
	s.Run()
	return s
}

// StartCmd adds a program to a simulation.
func StartCmd(s *rt.Sim, p *vos.Proc) *rt.Task { return p.Start(s, Cmds[p.Cmd]) }

// RunLib runs fn alone as a fresh process using the library.
func RunLib(m *vos.Machine, name string, fn func()) (*vos.Proc, *rt.Sim) {
	p := m.NewProc(name, "")
	s := rt.New(rt.Schedule{Kind: "serial"}, Limit, 1)
	s.Spawn(name, p, fn)
	s.Run()
	return p, s
}

// Plugins are the plugin objects of one load.
type Plugins struct {
	In   []gosudachi.InputTextPlugin
	Oov  []gosudachi.OovProviderPlugin
	Path []gosudachi.PathRewritePlugin
	Edit []gosudachi.EditConnectionCostPlugin
}

// Load reads settings and creates the dictionary as gosudachicli does.
func Load(settings string, hook func(*Plugins)) (*gosudachi.JapaneseDictionary, error) {
	f, err := vos.OpenFile(settings, 0, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return LoadFrom(f, hook)
}

// LoadFrom does so from a reader.
func LoadFrom(rd io.Reader, hook func(*Plugins)) (*gosudachi.JapaneseDictionary, error) {
	s := gosudachi.NewSettingsJSON()
	if err := s.ParseSettingsJSON("/w", rd); err != nil {
		return nil, err
	}
	return Create(s, hook)
}

// Create makes the dictionary of settings.
func Create(s *gosudachi.SettingsJSON, hook func(*Plugins)) (*gosudachi.JapaneseDictionary, error) {
	p := &Plugins{}
	var err error
	if p.In, err = s.GetInputTextPluginArray(gosudachi.DefMakeInputTextPlugin); err != nil {
		return nil, err
	}
	if p.Oov, err = s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin); err != nil {
		return nil, err
	}
	if p.Path, err = s.GetPathRewritePluginArray(gosudachi.DefMakePathRewritePlugin); err != nil {
		return nil, err
	}
	if p.Edit, err = s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin); err != nil {
		return nil, err
	}
	if hook != nil {
		hook(p)
	}
	return gosudachi.NewJapaneseDictionary(s.GetBaseConfig(), p.In, p.Oov, p.Path, p.Edit)
}

// Call tokenizes and describes the outcome in full.
func Call(t *gosudachi.JapaneseTokenizer, mode, text string) (ms *gosudachi.MorphemeList, out string) {
	defer func() {
		if e := recover(); e != nil {
			ms, out = nil, fmt.Sprint("panic: ", e)
		}
	}()
	vos.Collect()
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return ms, Digest(ms, true)
}

// Digest writes out everything a morpheme list says.
func Digest(ms *gosudachi.MorphemeList, split bool) string {
	var b strings.Builder
	digest(&b, ms, "", split)
	return b.String()
}

func digest(b *strings.Builder, ms *gosudachi.MorphemeList, ind string, split bool) {
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		wi := m.GetWordInfo()
		fmt.Fprintf(b, "%s%d-%d %q %v dic=%q norm=%q read=%q oov=%v id=%d/%d wi=%q,%d,%d,%q,%d,%q,%q,%v,%v,%v\n", ind, m.Begin(), m.End(), m.Surface(), m.PartOfSpeech(), m.DictionaryForm(), m.NormalizedForm(), m.ReadingForm(), m.IsOOV(), m.GetWordId(), m.GetDictionaryId(),
			wi.Surface, wi.HeadwordLength, wi.PosId, wi.NormalizedForm, wi.DictionaryFormWordId, wi.DictionaryForm, wi.ReadingForm, wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure)
		if split {
			for _, mode := range []string{"A", "B"} {
				s := m.Split(mode)
				if s.Length() > 1 {
					b.WriteString(ind + " " + mode + "\n")
					digest(b, s, ind+"  ", false)
				}
			}
		}
	}
}
