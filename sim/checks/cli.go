package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi"
)

// seg is a piece of an input: a text, repeated, and what ends it.
type seg struct {
	T string `json:"t,omitempty"`
	N int    `json:"n,omitempty"` // additional repetitions
	E string `json:"e,omitempty"` // n, r, rn, "" (nothing) or other bytes in hexadecimal
}

func (s *seg) bytes() []byte {
	b := []byte(strings.Repeat(s.T, 1+max(0, min(s.N, 5000))))
	switch s.E {
	case "n":
		b = append(b, '\n')
	case "r":
		b = append(b, '\r')
	case "rn":
		b = append(b, "\r\n"...)
	case "":
	default:
		var x []byte
		fmt.Sscanf(s.E, "%x", &x)
		b = append(b, x...)
	}
	return b
}

func join(ss []seg) []byte {
	var b []byte
	for i := range ss {
		b = append(b, ss[i].bytes()...)
	}
	return b
}

// splitLines is the model of what a line is: ended by LF, CR LF, CR or the end
// of the input. ended tells for each line how many bytes of the input must
// have been seen to know that it ended there (-1: only the end tells).
func splitLines(b []byte) (lines []string, ended []int) {
	start := 0
	for i := 0; i < len(b); i++ {
		if b[i] != '\n' && b[i] != '\r' {
			continue
		}
		lines = append(lines, string(b[start:i]))
		ended = append(ended, i+1)
		if b[i] == '\r' && i+1 < len(b) && b[i+1] == '\n' {
			i++
		}
		start = i + 1
	}
	if start < len(b) {
		lines = append(lines, string(b[start:]))
		ended = append(ended, -1)
	}
	return
}

// cliPlan is a run of gosudachicli.
type cliPlan struct {
	World  world.Spec   `json:"world"`
	Inputs [][]seg      `json:"inputs"`
	Stdin  bool         `json:"stdin,omitempty"`
	Mode   string       `json:"mode"`
	All    bool         `json:"all,omitempty"`
	Force  bool         `json:"force,omitempty"`
	Debug  bool         `json:"debug,omitempty"`
	Out    bool         `json:"out,omitempty"` // -o
	Old    int          `json:"old,omitempty"` // length of what -o's file held
	Merge  bool         `json:"merge,omitempty"`
	Chunks []vos.Chunk  `json:"chunks"`
	Faults []*vos.Fault `json:"faults,omitempty"`
	Room   int          `json:"room,omitempty"` // free space of the disk, plus one
	Dir    int          `json:"dir,omitempty"`  // 1+index of the input that is a directory
	Gone   int          `json:"gone,omitempty"` // 1+index of the input that does not exist
}

func genInputs(r *rt.Rand, w *world.World, p *cliPlan, failing bool) {
	nf := rt.Pick(r, []int{1, 1, 1, 2, 3})
	p.Stdin = r.Chance(1, 3)
	if p.Stdin {
		nf = 1
	}
	ends := []string{"n", "n", "n", "rn", "rn", "r", "r"}
	only := ""
	if r.Chance(1, 3) {
		only = rt.Pick(r, ends)
	}
	for f := 0; f < nf; f++ {
		var in []seg
		if r.Chance(1, 6) {
			// reads as long as the usual buffers, with line ends at their edges
			var l []int
			for k := r.Range(2, 5); k > 0; k-- {
				n := len(join(in))
				size := rt.Pick(r, []int{4096, 4096, 4096, 512}) - rt.Pick(r, []int{0, 0, 0, 0, 1, 1, 1, 2, 3})
				head := rt.Pick(r, []string{"", "0a", "0a", "0a0a", "0d", "0d0a", "61"})
				tail := rt.Pick(r, []string{"0d", "0d", "0d", "0d0a", "0d0a", "0d0a", "0a", "61", "0d0d0a", "0d0a0d"})
				mid := rt.Pick(r, []string{"", "n", "rn", "rn", "r"})
				in = append(in, seg{E: head}, seg{T: rt.Pick(r, []string{"a", "あ", ""}), E: mid})
				pad := size - len(tail)/2 - (len(join(in)) - n)
				in = append(in, seg{T: "\n", N: max(0, pad-1)}, seg{E: tail})
				l = append(l, len(join(in))-n)
			}
			in = append(in, seg{E: rt.Pick(r, []string{"0a", "0a", "0a61", "0d", "0d0a", ""})})
			p.Inputs = append(p.Inputs, in)
			p.Chunks = append(p.Chunks, vos.Chunk{Kind: "list", List: l})
			continue
		}
		if r.Chance(1, 3) {
			// many short lines: what a read leaves in a buffer matters
			for i := r.Range(5, 60); i > 0; i-- {
				s := seg{E: rt.Pick(r, ends)}
				if r.Chance(1, 3) {
					s.T = rt.Pick(r, []string{"a", "x", "1", "あ", "ab"})
				}
				in = append(in, s)
			}
			p.Inputs = append(p.Inputs, in)
			p.Chunks = append(p.Chunks, genChunk(r, join(in)))
			continue
		}
		n := r.Range(0, 6)
		if r.Chance(1, 6) {
			n = r.Range(6, 40)
		}
		for i := 0; i < n; i++ {
			s := seg{E: rt.Pick(r, ends)}
			if only != "" {
				s.E = only
			}
			switch r.Intn(9) {
			case 0:
				// an empty line
			case 1:
				s.T = w.Text(r, failing)
			case 2:
				// bytes that are no characters, and what is taken for marks
				s.E = rt.Pick(r, []string{"ff", "e381", "c0af0a", "eda080", "f09f8d", "80800d0a", "efbbbf", "fffe", "1a", "00", "c285", "e280a8", "0b", "0c", "1b", "5c0a", "20200a", "230a"})
				if r.Bool() {
					s.T = w.Text(r, false)
				}
			default:
				s.T = strings.Map(func(c rune) rune {
					if c == '\n' || c == '\r' {
						return 'x'
					}
					return c
				}, w.Text(r, false))
			}
			in = append(in, s)
		}
		if r.Chance(1, 4) {
			// a line that ends near the size of the usual buffers
			size := rt.Pick(r, []int{4096, 4096, 4096, 8192, 512})
			have := len(join(in))
			pad := size - have + r.Range(-3, 3)
			if pad > 0 {
				unit := rt.Pick(r, []string{"あ", "山", "x", "アイ", "。"})
				in = append(in, seg{T: unit, N: max(0, pad/len(unit)-1), E: ""})
				if k := pad % len(unit); k > 0 {
					in = append(in, seg{T: strings.Repeat("x", k)})
				}
				in = append(in, seg{E: rt.Pick(r, ends)}, seg{T: w.Text(r, false), E: rt.Pick(r, ends)})
			}
		}
		if r.Chance(1, 12) {
			in = append(in, seg{T: rt.Pick(r, w.Words), N: r.Range(300, 1500), E: rt.Pick(r, ends)})
		}
		if !failing && r.Chance(1, 150) {
			// longer than the longest word can be
			unit := rt.Pick(r, []string{"x", "ア", "山", "あ", "1", "一", "。"})
			in = append(in, seg{T: unit, N: rt.Pick(r, []int{32767, 32768, 32800, 65540})/len(unit) + r.Range(0, 2), E: rt.Pick(r, ends)}, seg{T: w.Text(r, false), E: rt.Pick(r, ends)})
		}
		if len(in) > 0 && r.Chance(1, 2) {
			in[len(in)-1].E = ""
		}
		p.Inputs = append(p.Inputs, in)
		p.Chunks = append(p.Chunks, genChunk(r, join(in)))
	}
}

func genChunk(r *rt.Rand, data []byte) vos.Chunk {
	switch r.Intn(7) {
	case 2, 6:
		return vos.Chunk{Kind: "rand", Seed: r.Next() >> 12, Max: rt.Pick(r, []int{2, 3, 4, 5, 6, 7, 9, 13, 40, 1000})}
	case 0:
		return vos.Chunk{}
	case 1:
		return vos.Chunk{Kind: "one"}
	}
	// reads that end at interesting places
	var l []int
	last := 0
	for i, c := range data {
		cut := false
		switch {
		case c == '\r':
			cut = r.Chance(3, 4)
		case c == '\n':
			cut = r.Chance(1, 3)
		case c >= 0x80:
			cut = r.Chance(1, 40)
		default:
			cut = r.Chance(1, 80)
		}
		if cut && len(l) < 60 {
			l = append(l, i+1-last)
			last = i + 1
		}
	}
	if r.Bool() && len(data) > last {
		l = append(l, len(data)-last)
	}
	return vos.Chunk{Kind: "list", List: l}
}

// block is what gosudachicli prints for a line.
func block(ms *gosudachi.MorphemeList, all bool) string {
	var b strings.Builder
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		b.WriteString(m.Surface() + "\t" + strings.Join(m.PartOfSpeech(), ",") + "\t" + m.NormalizedForm())
		if all {
			b.WriteString("\t" + m.DictionaryForm() + "\t" + m.ReadingForm() + "\t" + fmt.Sprint(m.GetDictionaryId()))
			if m.IsOOV() {
				b.WriteString("\t(OOV)")
			}
		}
		b.WriteString("\n")
	}
	return b.String() + "EOS\n"
}

type lineRes struct {
	out string
	err bool
	bad bool // panics
	why string
}

var blockCache = map[string][]lineRes{}

// blocks analyses lines in sequence with the library in an undisturbed process.
func (c *Ctx) blocks(w *world.World, mode string, all bool, lines []string) []lineRes {
	lb, _ := json.Marshal(lines)
	key := fmt.Sprint(w.Spec, mode, all, string(lb))
	if r, ok := blockCache[key]; ok {
		return r
	}
	if len(blockCache) > 3000 {
		blockCache = map[string][]lineRes{}
	}
	var r []lineRes
	c.aside(func() {
		m := c.worldMachine(w)
		c.lib(m, "reference", func() {
			d, err := world.Load("/w/sudachi.json", nil)
			if err != nil {
				return
			}
			t := d.Create()
			for _, l := range lines {
				r = append(r, oneBlock(t, mode, all, l))
			}
			d.Close()
		})
	})
	for len(r) < len(lines) {
		r = append(r, lineRes{bad: true})
	}
	blockCache[key] = r
	return r
}

func oneBlock(t *gosudachi.JapaneseTokenizer, mode string, all bool, l string) (r lineRes) {
	defer func() {
		if e := recover(); e != nil {
			r = lineRes{bad: true, why: fmt.Sprintf("%v (a line of %d bytes: %s)", e, len(l), short(l))}
		}
	}()
	ms, err := t.Tokenize(mode, l)
	if err != nil {
		return lineRes{err: true}
	}
	return lineRes{out: block(ms, all)}
}

const outFile = "/w/out.txt"

func inName(i int) string { return fmt.Sprintf("/w/in%d.txt", i) }

// setup puts the inputs in place and makes the process.
func (p *cliPlan) setup(c *Ctx, w *world.World) (*vos.Machine, *vos.Proc, [][]byte) {
	m := c.worldMachine(w)
	var data [][]byte
	for i := range p.Inputs {
		data = append(data, join(p.Inputs[i]))
	}
	args := []string{"-m", p.Mode}
	if p.Merge {
		args = append(args, "-s", string(w.Files["/w/sudachi.json"]))
	} else {
		args = append(args, "-r", "/w/sudachi.json")
	}
	if p.All {
		args = append(args, "-a")
	}
	if p.Force {
		args = append(args, "-f")
	}
	if p.Debug {
		args = append(args, "-d")
	}
	if p.Out {
		args = append(args, "-o", outFile)
		if p.Old > 0 {
			m.Disk.Put(outFile, bytes.Repeat([]byte("old\n"), p.Old))
		}
	}
	if !p.Stdin {
		for i, b := range data {
			switch {
			case p.Dir == i+1:
				m.Disk.MkdirAll(inName(i))
			case p.Gone == i+1:
			default:
				m.Disk.Put(inName(i), b)
			}
			args = append(args, inName(i))
		}
	}
	pr := m.NewProc("gosudachicli", "gosudachicli", args...)
	if p.Stdin && len(data) > 0 {
		pr.Stdin = data[0]
	}
	pr.ChunksOf = map[string]vos.Chunk{}
	for i := range p.Inputs {
		if i < len(p.Chunks) {
			n := inName(i)
			if p.Stdin {
				n = "/dev/stdin"
			}
			pr.ChunksOf[n] = p.Chunks[i]
		}
	}
	return m, pr, data
}

func (p *cliPlan) output(m *vos.Machine, pr *vos.Proc) (string, bool) {
	if p.Out {
		b, ok := m.Disk.Get(outFile)
		return string(b), ok
	}
	return string(pr.Stdout), true
}

func genCli(r *rt.Rand, failing bool) *cliPlan {
	p := &cliPlan{World: world.GenSpec(r, 2), Mode: rt.Pick(r, modes), All: r.Bool(), Out: r.Chance(1, 3), Merge: r.Chance(1, 6), Force: r.Chance(1, 3)}
	w := world.Get(p.World)
	genInputs(r, w, p, failing)
	if p.Out && r.Bool() {
		p.Old = r.Range(1, 2000)
	}
	return p
}

func (p *cliPlan) valid() bool {
	if len(p.Inputs) == 0 || len(p.Inputs) > 8 || !strings.Contains("ABC", p.Mode) || p.Mode == "" {
		return false
	}
	return !p.Stdin || len(p.Inputs) == 1
}

func init() {
	register(Check{ID: "C04", N: 6000,
		Rule: "a plan is a world, 1-3 inputs made of lines with mixed line ends (also lines around the sizes of buffers), options, and for each input the sizes of the reads; non-trivial when some input is not empty"},
		func(r *rt.Rand, tier string) *cliPlan { return genCli(r, r.Chance(1, 4)) },
		execC04)
	register(Check{ID: "C05", N: 7500,
		Rule: "a plan is a run of gosudachicli as in C04 plus lines that cannot be analysed and failures of opens, reads, writes, seeks, syncs and closes, a full disk, a closed pipe, missing inputs; non-trivial when something failed"},
		genC05, execC05)
}

func execC04(c *Ctx, p *cliPlan) {
	w := c.world(p.World)
	if w == nil || !p.valid() {
		c.Skipped = true
		return
	}
	p.Faults, p.Room, p.Dir, p.Gone, p.Debug = nil, 0, 0, 0, false
	m, pr, data := p.setup(c, w)
	var lines []string
	for _, b := range data {
		l, _ := splitLines(b)
		lines = append(lines, l...)
	}
	want := ""
	failed := false
	for _, b := range c.blocks(w, p.Mode, p.All, lines) {
		if b.bad {
			c.Fail("panic", "a line cannot be analysed, not even alone, for a panic: %s", b.why)
			return
		}
		if b.err && !p.Force {
			failed = true
			break
		}
		want += b.out
	}
	if !c.runProc(pr) {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "gosudachicli panics: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
		return
	}
	got, _ := p.output(m, pr)
	c.Judged += len(lines)
	if got != want {
		c.Fail("output", "output differs from the analysis of the input's lines (status %d %s): %s", pr.Code, world.Tail(pr.Stderr), diff(got, want))
	} else if (pr.Code != 0) != failed {
		c.Fail("status", "status %d (a line cannot be analysed: %v): %s", pr.Code, failed, world.Tail(pr.Stderr))
	}
	c.Trivial = len(lines) == 0
}

var errKinds = []string{"EIO", "EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE"}

func genC05(r *rt.Rand, tier string) *cliPlan {
	p := genCli(r, r.Chance(1, 2))
	w := world.Get(p.World)
	if r.Chance(1, 40) {
		p.Debug = true
	}
	total := 0
	for i := range p.Inputs {
		total += len(join(p.Inputs[i]))
	}
	out := "/dev/stdout"
	if p.Out {
		out = outFile
	}
	in := "/dev/stdin"
	k := r.Intn(max(1, len(p.Inputs)))
	if !p.Stdin {
		in = inName(k)
	}
	// small chunks give a failure more places to strike
	for i := range p.Chunks {
		if p.Chunks[i].Kind == "" && r.Bool() {
			p.Chunks[i] = vos.Chunk{Kind: "rand", Seed: r.Next() >> 12, Max: rt.Pick(r, []int{5, 60})}
		}
	}
	for n := rt.Pick(r, []int{1, 1, 1, 2}); n > 0; n-- {
		f := &vos.Fault{Nth: 1, Err: rt.Pick(r, errKinds), Sticky: r.Bool()}
		switch r.Intn(12) {
		case 0, 1, 2:
			f.Op, f.Path = "read", in
			f.Nth = 1 + r.Intn(rt.Pick(r, []int{2, 6, 30}))
		case 3, 4, 5, 6:
			f.Op, f.Path = "write", out
			f.Nth = 1 + r.Intn(rt.Pick(r, []int{1, 2, 10, 60}))
			if p.Out {
				f.Nth = 1 + r.Intn(2)
			}
			if r.Bool() {
				f.Partial = r.Intn(rt.Pick(r, []int{5, 40, 4096}))
			}
			if r.Chance(1, 4) { // a closed pipe, or fifo
				f.Err = "EPIPE"
			}
		case 7:
			f.Op, f.Path = "open", in
		case 8:
			f.Op, f.Path = "close", out
		case 9:
			p.Room = 1 + r.Intn(rt.Pick(r, []int{10, 200, 5000}))
			p.Out = true
			continue
		case 10:
			if r.Bool() {
				p.Gone = 1 + k
			} else {
				p.Dir = 1 + k
			}
			continue
		default:
			if r.Chance(1, 2) {
				continue
			}
			f.Op = rt.Pick(r, []string{"open", "read", "mmap", "stat", "close"})
			f.Path = rt.Pick(r, w.Names())
			if f.Op == "mmap" || f.Op == "stat" {
				f.Path = "/w/system.dic"
			}
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}

func execC05(c *Ctx, p *cliPlan) {
	w := c.world(p.World)
	if w == nil || !p.valid() || p.Room < 0 {
		c.Skipped = true
		return
	}
	m, pr, data := p.setup(c, w)
	out := "/dev/stdout"
	if p.Out {
		out = outFile
	}
	m.Faults = p.Faults
	if p.Room > 0 {
		m.Disk.Capacity = diskUse(m) + int64(p.Room) - 1
	}
	type part struct {
		lineRes
		f, end int
	}
	var parts []part
	var lines []string
	for f, b := range data {
		l, ended := splitLines(b)
		for i := range l {
			parts = append(parts, part{f: f, end: ended[i]})
		}
		lines = append(lines, l...)
	}
	unanalysable := false
	for i, b := range c.blocks(w, p.Mode, p.All, lines) {
		if b.bad {
			c.skip("a line panics")
			return
		}
		unanalysable = unanalysable || b.err
		parts[i].lineRes = b
	}
	if !c.runProc(pr) {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "gosudachicli panics: %s\n%s", pr.PanicMsg, short(pr.PanicStk))
		return
	}
	got, there := p.output(m, pr)
	hit := func(op, path string) bool {
		for _, f := range m.Faults {
			if f.DidFire() && f.Act == "" && f.Op == op && f.Path == path {
				return true
			}
		}
		return false
	}
	full := m.Fired["write/full disk"] > 0
	outFail := hit("write", out) || hit("close", out) || hit("open", out) || hit("sync", out) || full
	// which input could not be read, and how far it was
	inFail := -1
	for i := range data {
		n := inName(i)
		if p.Stdin {
			n = "/dev/stdin"
		}
		if hit("read", n) || hit("open", n) || (!p.Stdin && (p.Dir == i+1 || p.Gone == i+1)) {
			inFail = i
			break
		}
	}
	c.Trivial = m.FaultsFired() == 0 && !full && inFail < 0 && !unanalysable
	c.Judged++
	if p.Debug {
		if pr.Code == 0 && (outFail || inFail >= 0) {
			c.Fail("hidden", "status 0 although %s", c.why(m, full))
		}
		return
	}
	// the complete correct output, and the part of it that must be there
	all, must := "", ""
	stop := false
	for _, x := range parts {
		if x.err && !p.Force {
			stop = true
		}
		if stop {
			break
		}
		all += x.out
	}
	for _, x := range parts {
		if x.err && !p.Force {
			break
		}
		if inFail >= 0 {
			n := inName(x.f)
			if p.Stdin {
				n = "/dev/stdin"
			}
			if x.f > inFail || (x.f == inFail && (x.end < 0 && !pr.GotEOF[n] || x.end > pr.Got[n])) {
				break
			}
		}
		must += x.out
	}
	desc := c.why(m, full)
	if pr.Code == 0 {
		switch {
		case outFail:
			c.Fail("hidden", "status 0 although %s", desc)
		case inFail >= 0:
			c.Fail("hidden", "status 0 although input %d could not be read: %s", inFail, desc)
		case stop:
			c.Fail("hidden", "status 0 although a line cannot be analysed")
		case got != all:
			c.Fail("incomplete", "status 0 but the output is not that of the input (%s): %s", desc, diff(got, all))
		}
		return
	}
	if outFail && hit("open", out) {
		return
	}
	if p.Out && !there {
		got = ""
	}
	if p.Out && p.Old > 0 && got == strings.Repeat("old\n", p.Old) {
		// nothing delivered; allowed when it never got to its input
		if must != "" && !c.loadFault(p, m) && !outFail {
			c.Fail("lost", "the output file was not written although lines were analysed before the failure")
		}
		return
	}
	if !strings.HasPrefix(all, got) {
		c.Fail("garbled", "what was delivered is not a prefix of the correct output (%s): %s", desc, diff(got, all))
		return
	}
	if inFail >= 0 && len(got) > len(must) {
		c.Fail("partial", "the output holds the analysis of a line that was not completely read (%s): %q", desc, short(got[len(must):]))
		return
	}
	if !outFail && !c.loadFault(p, m) && len(got) < len(must) {
		c.Fail("lost", "output for lines before the failure is missing (%s): %d of %d bytes delivered, status %d, read %v: %s", desc, len(got), len(must), pr.Code, pr.Got, world.Tail(pr.Stderr))
		return
	}
	if m.FaultsFired() == 0 && !full && inFail < 0 && !stop {
		c.Fail("status", "status %d although nothing failed: %s", pr.Code, world.Tail(pr.Stderr))
	}
}

// loadFault reports whether something other than input and output failed.
func (c *Ctx) loadFault(p *cliPlan, m *vos.Machine) bool {
	for _, f := range m.Faults {
		if f.DidFire() && !strings.HasPrefix(f.Path, "/w/in") && f.Path != outFile && !strings.HasPrefix(f.Path, "/dev/") {
			return true
		}
	}
	return false
}

func (c *Ctx) why(m *vos.Machine, full bool) string {
	var r []string
	for _, f := range m.Faults {
		if f.DidFire() {
			s := f.Op
			if f.Path != "" {
				s += " of " + f.Path
			}
			if f.Act != "" {
				s += " " + f.Act
			} else {
				s += " failed with " + f.Err
			}
			r = append(r, s)
		}
	}
	if full {
		r = append(r, "the disk was full")
	}
	if len(r) == 0 {
		return "no fault"
	}
	return strings.Join(r, ", ")
}

// diskUse is the space the files of a machine take.
func diskUse(m *vos.Machine) int64 { return m.Disk.Used() }
