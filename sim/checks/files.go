package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// mask blanks the creation time of a dictionary.
func mask(b []byte) []byte {
	r := append([]byte{}, b...)
	for i := 8; i < 16 && i < len(r); i++ {
		r[i] = 0
	}
	return r
}

func timeOf(b []byte) int64 {
	if len(b) < 16 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b[8:16]))
}

// same compares dictionary files.
func sameFile(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at byte %d", len(got), len(want), i)
}

// pad makes a line of a source longer.
type pad struct {
	Line int `json:"line"`
	N    int `json:"n"`
}

// errSpec says how a reader behaves.
type readSpec struct {
	Chunk vos.Chunk `json:"chunk"`
	Zeros int       `json:"zeros,omitempty"` // every n-th read gives nothing
	ErrAt int       `json:"errAt"`           // offset at which reading fails; -1: never
	Err   string    `json:"err,omitempty"`
	With  bool      `json:"with,omitempty"` // the error comes with the last data before it
	Once  bool      `json:"once,omitempty"` // later reads succeed again
	EOF   bool      `json:"eof,omitempty"`  // the end is told with the last data
}

var readErrs = map[string]error{"plain": errInjected, "unexpected": io.ErrUnexpectedEOF, "short": io.ErrShortBuffer, "closed": io.ErrClosedPipe}

// fragReader reads data in pieces and fails.
type fragReader struct {
	s     readSpec
	data  []byte
	pos   int
	ch    *chunkOf
	n     int
	done  bool // the failure has been delivered
	atEnd bool // and the end had been told before
	eof   bool
}

type chunkOf struct {
	c vos.Chunk
	r *rt.Rand
	i int
}

func (c *chunkOf) next(want int) int {
	n := want
	switch c.c.Kind {
	case "one":
		n = 1
	case "rand":
		if c.r == nil {
			c.r = rt.NewRand(c.c.Seed)
		}
		n = 1 + c.r.Intn(max(1, c.c.Max))
	case "list":
		if c.i < len(c.c.List) {
			n = c.c.List[c.i]
		}
		c.i++
	}
	return max(1, min(n, want))
}

func newFrag(data []byte, s readSpec) *fragReader {
	return &fragReader{s: s, data: data, ch: &chunkOf{c: s.Chunk}}
}

func (f *fragReader) err() error {
	if e := readErrs[f.s.Err]; e != nil {
		return e
	}
	return errInjected
}

func (f *fragReader) fails() bool {
	return f.s.ErrAt >= 0 && f.s.ErrAt <= len(f.data) && f.pos >= f.s.ErrAt && (!f.done || !f.s.Once)
}

func (f *fragReader) fail() error {
	if !f.done && f.eof {
		f.atEnd = true
	}
	f.done = true
	return f.err()
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	f.n++
	if f.s.Zeros > 1 && f.n%f.s.Zeros == 0 {
		return 0, nil
	}
	if f.fails() {
		return 0, f.fail()
	}
	if f.pos >= len(f.data) {
		f.eof = true
		return 0, io.EOF
	}
	lim := len(f.data)
	if f.s.ErrAt >= 0 && f.pos < f.s.ErrAt && f.s.ErrAt < lim {
		lim = f.s.ErrAt
	}
	n := copy(p[:f.ch.next(min(len(p), lim-f.pos))], f.data[f.pos:])
	f.pos += n
	if f.s.With && f.fails() {
		return n, f.fail()
	}
	if f.s.EOF && f.pos >= len(f.data) && !f.fails() {
		f.eof = true
		return n, io.EOF
	}
	return n, nil
}

// live reports whether a failure was delivered that must not be ignored.
func (f *fragReader) live() bool { return f.done && !f.atEnd }

type c06Plan struct {
	World  world.Spec           `json:"world"`
	What   string               `json:"what"`           // lex, ulex, matrix, chardef, settings, load, dicbuilder, userdicbuilder
	File   string               `json:"file,omitempty"` // load: the definition that is varied: char (default), rewrite, unk
	Pads   []pad                `json:"pads,omitempty"`
	CRLF   int                  `json:"crlf,omitempty"` // 1: CR LF line ends, 2: mixed
	NoEnd  bool                 `json:"noEnd,omitempty"`
	Cut    int                  `json:"cut,omitempty"`  // 1+number of a line that is cut in the middle
	Keep   int                  `json:"keep,omitempty"` // number of lines kept, 0: all
	Read   readSpec             `json:"read"`
	Chunks map[string]vos.Chunk `json:"chunks,omitempty"`
	Faults []*vos.Fault         `json:"faults,omitempty"`
	Calls  []Call               `json:"calls,omitempty"`
}

func (p *c06Plan) sourceFile() string {
	if p.What == "load" && (p.File == "rewrite" || p.File == "unk") {
		return "/w/" + p.File + ".def"
	}
	return sourceOf(p.What)
}

func sourceOf(what string) string {
	return map[string]string{"lex": "/w/lex.csv", "dicbuilder": "/w/lex.csv", "ulex": "/w/user1.csv", "userdicbuilder": "/w/user1.csv", "matrix": "/w/matrix.def", "chardef": "/w/char.def", "settings": "/w/sudachi.json", "load": "/w/char.def"}[what]
}

// source is the text under test.
func (p *c06Plan) source(w *world.World) []byte {
	b := w.Files[p.sourceFile()]
	lines := strings.Split(strings.TrimRight(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n"), "\n")
	for _, x := range p.Pads {
		if x.N < 0 || x.N > 70000 || len(lines) == 0 {
			continue
		}
		i := ((x.Line % len(lines)) + len(lines)) % len(lines)
		switch p.What {
		case "lex", "ulex", "dicbuilder", "userdicbuilder":
			// a longer normalised form
			cols := strings.Split(lines[i], ",")
			if len(cols) == 18 && !strings.Contains(lines[i], "\\") {
				cols[12] += strings.Repeat("n", min(x.N, 20000))
				lines[i] = strings.Join(cols, ",")
			}
		case "load":
			if p.File == "unk" {
				lines[i] += ",#" + strings.Repeat("-", x.N)
			} else {
				lines[i] += "\n#" + strings.Repeat("-", x.N)
			}
		case "chardef":
			lines[i] += " #" + strings.Repeat("-", x.N)
		default:
			lines[i] += strings.Repeat(" ", x.N)
		}
	}
	if p.Keep > 0 && p.Keep < len(lines) && p.What != "settings" {
		lines = lines[:p.Keep]
	}
	if p.Cut > 0 {
		i := (p.Cut - 1) % len(lines)
		lines[i] = lines[i][:len(lines[i])/2]
	}
	var r []byte
	for i, l := range lines {
		r = append(r, l...)
		if i == len(lines)-1 && p.NoEnd {
			break
		}
		if p.CRLF == 1 || p.CRLF == 2 && i%3 == 1 {
			r = append(r, '\r')
		}
		r = append(r, '\n')
	}
	return r
}

// buildFrom builds a dictionary from readers with the library; the user
// dictionary's system dictionary is /w/system.dic.
func buildFrom(user, u16 bool, lex, matrix io.Reader) ([]byte, error) {
	out := &memFile{}
	ver := uint64(dictionary.SystemDictVersion)
	if user {
		ver = dictionary.UserDictVersion2
	}
	hb, err := dictionary.NewDictionaryHeader(ver, 1234567, "d").ToBytes()
	if err != nil {
		return nil, err
	}
	out.Write(hb)
	if !user {
		b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, u16)
		store := dictionary.NewPosTable()
		if err := b.BuildLexicon(store, lex); err != nil {
			return out.b, fmt.Errorf("lexicon: %w", err)
		}
		if err := b.WriteGrammar(store, matrix, out); err != nil {
			return out.b, fmt.Errorf("grammar: %w", err)
		}
		err := b.WriteLexicon(out, store)
		return out.b, err
	}
	sd, err := dictionary.ReadSystemDictionary("/w/system.dic", u16)
	if err != nil {
		return nil, err
	}
	defer sd.Close()
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), sd.Lexicon, u16)
	store := dictionary.NewPosTableUser(sd.Grammar)
	if err := b.BuildLexicon(store, lex); err != nil {
		return out.b, fmt.Errorf("lexicon: %w", err)
	}
	if err := b.WriteGrammarUser(&store.PosTable, out); err != nil {
		return out.b, err
	}
	err = b.WriteLexicon(out, store)
	return out.b, err
}

// settingsDigest is what settings come to.
func settingsDigest(rd io.Reader) (string, error) {
	s := gosudachi.NewSettingsJSON()
	if err := s.ParseSettingsJSON("/w", rd); err != nil {
		return "", err
	}
	bc, _ := json.Marshal(s.GetBaseConfig())
	d := string(bc) + "\n"
	add := func(x interface{}) {
		b, _ := json.Marshal(x)
		d += fmt.Sprintf("%T %s\n", x, b)
	}
	in, err := s.GetInputTextPluginArray(gosudachi.DefMakeInputTextPlugin)
	if err != nil {
		return d, err
	}
	for _, x := range in {
		add(x.GetConfigStruct())
	}
	oov, err := s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin)
	if err != nil {
		return d, err
	}
	for _, x := range oov {
		add(x.GetConfigStruct())
	}
	path, err := s.GetPathRewritePluginArray(gosudachi.DefMakePathRewritePlugin)
	if err != nil {
		return d, err
	}
	for _, x := range path {
		add(x.GetConfigStruct())
	}
	return d, nil
}

// points are the characters whose categories are compared.
func points(def []byte) []rune {
	var r []rune
	seen := map[rune]bool{}
	for _, l := range strings.Split(string(def), "\n") {
		if !strings.HasPrefix(l, "0x") {
			continue
		}
		f := strings.Fields(l)[0]
		for _, h := range strings.Split(f, "..") {
			v, err := strconv.ParseInt(strings.TrimPrefix(h, "0x"), 16, 32)
			if err != nil {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				if c := rune(v + d); c > 0 && !seen[c] {
					seen[c] = true
					r = append(r, c)
				}
			}
		}
	}
	return r
}

// outcome reads the source from rd and describes what came of it.
func (p *c06Plan) outcome(w *world.World, src []byte, rd io.Reader) (out []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	switch p.What {
	case "lex":
		return buildFrom(false, w.Spec.UTF16, rd, bytes.NewReader(w.Files["/w/matrix.def"]))
	case "ulex":
		return buildFrom(true, w.Spec.UTF16, rd, nil)
	case "matrix":
		return buildFrom(false, w.Spec.UTF16, bytes.NewReader(w.Files["/w/lex.csv"]), rd)
	case "chardef":
		cc := dictionary.NewCharacterCategory()
		if err := cc.ReadCharacterDefinition(rd); err != nil {
			return nil, err
		}
		for _, c := range points(src) {
			out = append(out, fmt.Sprintf("%x %x\n", c, cc.GetCategoryTypes(c))...)
		}
		return out, nil
	case "settings":
		d, err := settingsDigest(rd)
		return []byte(d), err
	}
	return nil, errors.New("unknown target")
}

var c06Refs = map[string]struct {
	out []byte
	err string
}{}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func genReadSpec(r *rt.Rand, src []byte) readSpec {
	s := readSpec{Chunk: genChunk(r, src), ErrAt: -1}
	if r.Chance(1, 4) {
		// reads ending at line ends or buffer edges
		var l []int
		last := 0
		for i, c := range src {
			if (c == '\n' && r.Chance(1, 4) || (i+1)%4096 == 0 && r.Bool() || c == '\r' && r.Bool()) && len(l) < 80 {
				l = append(l, i+1-last)
				last = i + 1
			}
		}
		s.Chunk = vos.Chunk{Kind: "list", List: l}
	}
	if r.Chance(1, 5) {
		s.Zeros = r.Range(2, 7)
	}
	s.EOF = r.Chance(1, 4)
	if r.Chance(3, 5) {
		s.Err = rt.Pick(r, []string{"plain", "plain", "unexpected", "short", "closed"})
		s.With = r.Chance(1, 3)
		s.Once = r.Chance(1, 3)
		s.ErrAt = errOffset(r, src)
	}
	return s
}

// errOffset picks where reading fails: anywhere, at line ends, on the first
// line, at the end.
func errOffset(r *rt.Rand, src []byte) int {
	switch r.Intn(6) {
	case 0:
		return len(src)
	case 1:
		return r.Intn(min(len(src), 12) + 1)
	case 2, 3:
		var at []int
		for i, c := range src {
			if c == '\n' {
				at = append(at, i, i+1)
			}
		}
		if len(at) > 0 {
			return rt.Pick(r, at)
		}
	}
	return r.Intn(len(src) + 1)
}

func smallSpec(r *rt.Rand, users int) world.Spec {
	s := world.GenSpec(r, users)
	s.Size = rt.Pick(r, []int{12, 12, 12, 40})
	return s
}

func init() {
	register(Check{ID: "C06", N: 100000,
		Rule: "a plan is a source (lexicon, matrix, character definition, settings) with long lines, mixed line ends or a malformed line, and how it is read: sizes of reads, empty reads, data together with the end or an error, and an error at some offset; or a run of dicbuilder/userdicbuilder or a load with short and failing reads; non-trivial when the source has at least one byte"},
		genC06, execC06)
	register(Check{ID: "C07", N: 100000,
		Rule: "a plan is a library writer call or a command and the failures of its output: the n-th write (possibly partial), seek, sync, close, rename, open, a full disk, a closed pipe; non-trivial when a failure took effect"},
		genC07, execC07)
}

func genC06(r *rt.Rand, tier string) *c06Plan {
	p := &c06Plan{World: smallSpec(r, 1)}
	p.What = rt.Pick(r, []string{"lex", "lex", "ulex", "matrix", "matrix", "matrix", "chardef", "chardef", "chardef", "settings", "settings", "dicbuilder", "userdicbuilder", "load"})
	if p.What == "ulex" || p.What == "userdicbuilder" {
		p.World.Users = 1
	}
	if p.What == "load" || p.What == "chardef" {
		p.World.Embed = false
	}
	w := world.Get(p.World)
	for n := rt.Pick(r, []int{0, 0, 1, 2}); n > 0; n-- {
		p.Pads = append(p.Pads, pad{r.Intn(200), rt.Pick(r, []int{5, 300, 4000, 4090 + r.Intn(12), 8190 + r.Intn(6), 9000})})
	}
	p.CRLF = rt.Pick(r, []int{0, 0, 1, 2})
	p.NoEnd = r.Bool()
	if r.Chance(1, 10) {
		p.Cut = 1 + r.Intn(60)
	}
	if r.Chance(1, 2) {
		p.Keep = r.Range(1, 20)
	}
	if p.What == "load" {
		p.Cut, p.Keep = 0, 0
		p.File = rt.Pick(r, []string{"char", "rewrite", "unk"})
	}
	src := p.source(w)
	switch p.What {
	case "dicbuilder", "userdicbuilder", "load":
		p.Chunks = map[string]vos.Chunk{}
		names := p.inputs()
		for _, n := range names {
			b := w.Files[n]
			if n == p.sourceFile() {
				b = src
			}
			p.Chunks[n] = genChunk(r, b)
		}
		if r.Chance(2, 3) {
			f := &vos.Fault{Op: "read", Path: rt.Pick(r, names), Nth: 1 + r.Intn(rt.Pick(r, []int{2, 4, 40})), Err: rt.Pick(r, errKinds), Sticky: r.Bool()}
			if r.Chance(1, 4) {
				f.Op, f.Nth = "open", 1
			}
			p.Faults = append(p.Faults, f)
		}
		if p.What == "load" {
			for i := r.Range(1, 3); i > 0; i-- {
				p.Calls = append(p.Calls, genCall(r, w, false))
			}
		}
		p.Read.ErrAt = -1
	default:
		p.Read = genReadSpec(r, src)
	}
	return p
}

// inputs are the text files the target reads.
func (p *c06Plan) inputs() []string {
	switch p.What {
	case "dicbuilder":
		return []string{"/w/lex.csv", "/w/matrix.def"}
	case "userdicbuilder":
		return []string{"/w/user1.csv"}
	}
	return []string{"/w/char.def", "/w/rewrite.def", "/w/unk.def", "/w/sudachi.json"}
}

func (p *c06Plan) key(w *world.World, src []byte) string {
	return fmt.Sprint(w.Spec, p.What, len(src), rt.HashBytes(src))
}

func execC06(c *Ctx, p *c06Plan) {
	if (p.What == "ulex" || p.What == "userdicbuilder") && p.World.Users == 0 || sourceOf(p.What) == "" {
		c.Skipped = true
		return
	}
	w := c.world(p.World)
	if w == nil {
		return
	}
	if p.What == "load" && (p.Cut > 0 || p.Keep > 0 || p.World.Embed) {
		c.Skipped = true // the reference is that of the world
		return
	}
	src := p.source(w)
	c.Trivial = len(src) == 0
	c.note("target " + p.What)
	switch p.What {
	case "dicbuilder", "userdicbuilder":
		p.execCmd(c, w, src)
		return
	case "load":
		p.execLoad(c, w, src)
		return
	}
	key := p.key(w, src)
	ref, ok := c06Refs[key]
	if !ok {
		c.aside(func() {
			m := c.worldMachine(w)
			c.lib(m, "reference", func() {
				out, err := p.outcome(w, src, bytes.NewReader(src))
				ref.out, ref.err = out, errText(err)
			})
		})
		if len(c06Refs) > 2000 {
			c06Refs = map[string]struct {
				out []byte
				err string
			}{}
		}
		c06Refs[key] = ref
	}
	m := c.worldMachine(w)
	rd := newFrag(src, p.Read)
	var out []byte
	var err error
	pr := c.lib(m, "app", func() { out, err = p.outcome(w, src, rd) })
	if pr.PanicMsg != "" {
		c.Fail("panic", "panic: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
		return
	}
	c.Judged++
	if rd.live() {
		c.fired(ctl{fired: map[string]int{"reader error": 1}})
		if err == nil && p.What == "settings" && valueEnd(src) >= 0 && p.Read.ErrAt >= valueEnd(src) {
			// everything had been read
		} else if err == nil && p.What == "settings" && p.Read.With && p.Read.Once && valueEnd(src) >= 0 && rd.pos >= valueEnd(src) {
			// the JSON decoder of the standard library asks again after an
			// error that came with data
		} else if err == nil {
			c.Fail("half-read", "%s: the reader failed (%v) after %d of %d bytes but the result is accepted", p.What, rd.err(), rd.pos, len(src))
			return
		} else {
			return
		}
	}
	if errText(err) != ref.err {
		c.Fail("chunks", "%s: read in pieces the outcome is %q, read at once it is %q", p.What, errText(err), ref.err)
		return
	}
	if err == nil {
		if d := sameFile(out, ref.out); d != "" {
			c.Fail("chunks", "%s: the result differs from that of reading at once: %s", p.What, d)
		}
	}
}

// valueEnd is where the first JSON value ends.
func valueEnd(b []byte) int {
	d := json.NewDecoder(bytes.NewReader(b))
	var x json.RawMessage
	if d.Decode(&x) != nil {
		return -1
	}
	return int(d.InputOffset())
}

const outDic = "/w/out.dic"

func buildArgs(what string, w *world.World) (string, []string) {
	var a []string
	if w.Spec.UTF16 {
		a = append(a, "-j")
	}
	if what == "dicbuilder" {
		return what, append(a, "-o", outDic, "-m", "/w/matrix.def", "-d", "desc", "/w/lex.csv")
	}
	return what, append(a, "-o", outDic, "-s", "/w/system.dic", "-d", "desc", "/w/user1.csv")
}

func (p *c06Plan) execCmd(c *Ctx, w *world.World, src []byte) {
	cmd, args := buildArgs(p.What, w)
	key := p.key(w, src)
	ref, ok := c06Refs[key]
	if !ok {
		c.aside(func() {
			m := c.worldMachine(w)
			m.Disk.Put(sourceOf(p.What), src)
			pr := c.cmd(m, cmd, args...)
			if pr.Code == 0 {
				ref.out, _ = m.Disk.Get(outDic)
			} else {
				ref.err = fmt.Sprintf("status %d", pr.Code)
			}
		})
		c06Refs[key] = ref
	}
	m := c.worldMachine(w)
	m.Disk.Put(sourceOf(p.What), src)
	m.Faults = p.Faults
	pr := m.NewProc(cmd, cmd, args...)
	pr.ChunksOf = p.Chunks
	if !c.runProc(pr) {
		return
	}
	c.Judged++
	live := liveFault(m)
	if live != "" {
		if pr.Code == 0 {
			c.Fail("half-read", "%s exits successfully although %s", cmd, live)
		}
		return
	}
	if pr.Code != 0 && m.FaultsFired() > 0 {
		return // at the end already told
	}
	if (pr.Code == 0) != (ref.err == "") {
		c.Fail("chunks", "%s: status %d with short reads, undisturbed: %q: %s", cmd, pr.Code, ref.err, world.Tail(pr.Stderr))
		return
	}
	if pr.Code == 0 {
		got, _ := m.Disk.Get(outDic)
		if d := sameFile(mask(got), mask(ref.out)); d != "" {
			c.Fail("chunks", "%s: the dictionary differs from that of an undisturbed run: %s", cmd, d)
		}
	}
}

// liveFault names a fault that struck and may not be ignored.
func liveFault(m *vos.Machine) string {
	for _, f := range m.Faults {
		if f.Live() && f.Act == "" && (f.Op == "read" || f.Op == "open" || f.Op == "mmap" || f.Op == "stat") {
			return fmt.Sprintf("%s of %s failed with %s", f.Op, f.Hit, f.Err)
		}
	}
	return ""
}

func (p *c06Plan) execLoad(c *Ctx, w *world.World, src []byte) {
	if len(p.Calls) > 20 {
		c.Skipped = true
		return
	}
	want := c.expect(w, p.Calls, false)
	m := c.worldMachine(w)
	m.Disk.Put(p.sourceFile(), src)
	m.Faults = p.Faults
	pr := m.NewProc("app", "")
	pr.ChunksOf = p.Chunks
	var lerr error
	var got []string
	c.lib2(pr, func() {
		d, err := world.Load("/w/sudachi.json", nil)
		if err != nil {
			lerr = err
			return
		}
		defer d.Close()
		t := d.Create()
		for i := range p.Calls {
			k := &ctl{}
			_, o := p.Calls[i].do(t, k)
			got = append(got, o)
		}
	})
	if pr.PanicMsg != "" {
		c.Fail("panic", "panic: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
		return
	}
	c.Judged++
	live := liveFault(m)
	if live != "" {
		// the settings' JSON value may have been complete
		if lerr == nil && !strings.Contains(live, "sudachi.json") {
			c.Fail("half-read", "the dictionary loads although %s", live)
		}
		if lerr == nil && !strings.HasPrefix(live, "read of /w/sudachi.json") {
			return
		}
		if lerr != nil {
			return
		}
	}
	if lerr != nil && m.FaultsFired() > 0 {
		return
	}
	if lerr != nil {
		c.Fail("chunks", "the dictionary does not load with short reads: %v", lerr)
		return
	}
	for i := range got {
		if got[i] != want[i] {
			c.Fail("chunks", "loaded with short reads, %q is answered differently: %s", p.Calls[i].Text, diff(got[i], want[i]))
			return
		}
	}
}
