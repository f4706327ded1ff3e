package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi/dartsclone"
	"github.com/msnoigrs/gosudachi/dictionary"
)

// c07Plan is a writer call or command with a failing output.
type c07Plan struct {
	World  world.Spec   `json:"world"`
	What   string       `json:"what"`
	Which  int          `json:"which,omitempty"`  // 0: system dictionary, n: user dictionary
	FailAt int          `json:"failAt,omitempty"` // library calls: the operation that fails
	Part   int          `json:"part,omitempty"`   // bytes a failing write takes
	Once   bool         `json:"once,omitempty"`
	Buf    int          `json:"buf,omitempty"` // size of a buffer in between
	Faults []*vos.Fault `json:"faults,omitempty"`
	Room   int          `json:"room,omitempty"` // free space of the disk, plus one
	Old    int          `json:"old,omitempty"`  // length of what the output path held, plus one
	Same   bool         `json:"same,omitempty"` // dicconv: output is the input's path
}

var c07Libs = []string{"build", "convert", "print", "header", "save", "tableto"}
var c07Cmds = []string{"dicbuilder", "userdicbuilder", "dicconv", "printdic", "printdicheader"}

func dicOf(which int) string {
	if which == 0 {
		return "/w/system.dic"
	}
	return fmt.Sprintf("/w/user%d.dic", which)
}

func genC07(r *rt.Rand, tier string) *c07Plan {
	p := &c07Plan{World: smallSpec(r, 2)}
	if p.World.Users > 0 {
		p.Which = r.Intn(p.World.Users + 1)
	}
	if r.Chance(2, 5) {
		p.What = rt.Pick(r, c07Libs)
		if r.Chance(5, 6) {
			p.FailAt = 1 + r.Intn(rt.Pick(r, []int{4, 16, 60, 200}))
		}
		p.Part = r.Intn(rt.Pick(r, []int{1, 3, 300}))
		p.Once = r.Bool()
		if p.What != "build" && r.Chance(1, 3) {
			p.Buf = rt.Pick(r, []int{16, 100, 4096})
		}
		return p
	}
	p.What = rt.Pick(r, []string{"dicbuilder", "dicbuilder", "userdicbuilder", "userdicbuilder", "dicconv", "dicconv", "dicconv", "printdic", "printdic", "printdicheader"})
	if p.What == "userdicbuilder" && p.World.Users == 0 {
		p.World.Users, p.Which = 1, 1
	}
	stdout := strings.HasPrefix(p.What, "print")
	p.Old = rt.Pick(r, []int{0, 1, 100, 5000, 90000})
	p.Same = r.Chance(1, 12)
	for n := rt.Pick(r, []int{0, 1, 1, 1, 1, 1, 2}); n > 0; n-- {
		f := &vos.Fault{Nth: 1, Err: rt.Pick(r, errKinds), Sticky: r.Bool(), Wr: true}
		if stdout {
			f.Op, f.Path = "write", "/dev/stdout"
			f.Nth = 1 + r.Intn(rt.Pick(r, []int{1, 2, 6, 60}))
			if r.Chance(1, 4) {
				f.Err = "EPIPE"
			}
			if r.Bool() {
				f.Partial = r.Intn(60)
			}
			p.Faults = append(p.Faults, f)
			continue
		}
		switch r.Intn(12) {
		case 0, 1, 2, 3, 4:
			f.Op = "write"
			f.Nth = 1 + r.Intn(rt.Pick(r, []int{2, 5, 8}))
			f.Partial = rt.Pick(r, []int{0, 0, r.Intn(20), r.Intn(5000)})
		case 5:
			f.Op, f.Nth = "seek", 1+r.Intn(3)
		case 6:
			f.Op = "sync"
		case 7:
			f.Op = "close"
		case 8:
			f.Op, f.Wr = "rename", false
		case 9:
			f.Op = "open"
		default:
			p.Room = 1 + r.Intn(rt.Pick(r, []int{10, 400, 3000, 20000}))
			continue
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}

// bufTo puts a buffer in front of a writer; flushing it is the caller's job.
func bufTo(w io.Writer, size int) (io.Writer, func() error) {
	if size <= 0 {
		return w, func() error { return nil }
	}
	b := bufio.NewWriterSize(w, size)
	return b, b.Flush
}

// libWrite makes the writer calls of a target, each writing to f, and stops
// when f has failed: then the call during which that happened must have said
// so.
func (p *c07Plan) libWrite(w *world.World, f *memFile) (what string, err error) {
	u16 := w.Spec.UTF16
	step := func(name string, call func() error) bool {
		what, err = name, call()
		return err == nil && !f.failed
	}
	file := dicOf(p.Which)
	switch p.What {
	case "build":
		hb, _ := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, 1234567, "d").ToBytes()
		f.b = append(f.b, hb...)
		f.pos = int64(len(hb))
		if p.Which == 0 {
			b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, u16)
			store := dictionary.NewPosTable()
			_ = step("BuildLexicon", func() error { return b.BuildLexicon(store, bytes.NewReader(w.Files["/w/lex.csv"])) }) &&
				step("WriteGrammar", func() error { return b.WriteGrammar(store, bytes.NewReader(w.Files["/w/matrix.def"]), f) }) &&
				step("WriteLexicon", func() error { return b.WriteLexicon(f, store) })
			return
		}
		sd, e := dictionary.ReadSystemDictionary("/w/system.dic", u16)
		if e != nil {
			return "ReadSystemDictionary", e
		}
		defer sd.Close()
		b := dictionary.NewDictionaryBuilder(int64(len(hb)), sd.Lexicon, u16)
		store := dictionary.NewPosTableUser(sd.Grammar)
		_ = step("BuildLexicon", func() error {
			return b.BuildLexicon(store, bytes.NewReader(w.Files[fmt.Sprintf("/w/user%d.csv", p.Which)]))
		}) &&
			step("WriteGrammarUser", func() error { return b.WriteGrammarUser(&store.PosTable, f) }) &&
			step("WriteLexicon", func() error { return b.WriteLexicon(f, store) })
		return
	case "convert":
		d, e := dictionary.NewBinaryDictionary(file, u16)
		if e != nil {
			return "NewBinaryDictionary", e
		}
		defer d.Close()
		each := func(name string, call func(io.Writer) error) bool {
			return step(name, func() error {
				bw, flush := bufTo(f, p.Buf)
				if err := call(bw); err != nil {
					return err
				}
				return flush()
			})
		}
		l := int64(4 * d.Lexicon.Size())
		var offs *bytes.Buffer
		_ = (d.Grammar == nil || each("WriteConnMatrixTo", func(o io.Writer) error { _, err := d.Grammar.WriteConnMatrixTo(o); return err })) &&
			each("WriteTrieTo", func(o io.Writer) error { _, err := d.Lexicon.WriteTrieTo(o); return err }) &&
			each("WriteWordIdTableTo", func(o io.Writer) error { _, err := d.Lexicon.WriteWordIdTableTo(o); return err }) &&
			each("WriteWordParamsTo", func(o io.Writer) error { _, err := d.Lexicon.WriteWordParamsTo(o); return err }) &&
			each("WriteWordInfos", func(o io.Writer) error {
				var err error
				_, offs, err = d.Lexicon.WriteWordInfos(o, 1000, l, !u16)
				return err
			})
		if offs != nil && !f.failed {
			f.b = append(f.b, offs.Bytes()...)
		}
		return
	case "print", "header":
		var sd *dictionary.BinaryDictionary
		if p.What == "print" && p.Which > 0 {
			var e error
			if sd, e = dictionary.ReadSystemDictionary("/w/system.dic", u16); e != nil {
				return "ReadSystemDictionary", e
			}
			defer sd.Close()
		}
		name := "PrintHeader"
		if p.What == "print" {
			name = "PrintDictionary"
		}
		step(name, func() error {
			bw, flush := bufTo(f, p.Buf)
			if p.What == "header" {
				if err := dictionary.PrintHeader(file, bw); err != nil {
					return err
				}
			} else if err := dictionary.PrintDictionary(file, u16, sd, bw); err != nil {
				return err
			}
			return flush()
		})
		return
	case "save":
		da := dartsclone.NewDoubleArray()
		da.SetArray([]uint32{1, 2, 3, uint32(p.Which), 5, 6, 7})
		step("Save", func() error {
			bw, flush := bufTo(f, p.Buf)
			n, err := da.Save(bw)
			if err == nil && n != 28 {
				return fmt.Errorf("Save wrote %d bytes of 28 without an error", n)
			}
			if err != nil {
				return err
			}
			return flush()
		})
		return
	case "tableto":
		// a partly filled buffer of the caller's own
		d, e := dictionary.NewBinaryDictionary(file, u16)
		if e != nil {
			return "NewBinaryDictionary", e
		}
		defer d.Close()
		if d.Grammar == nil {
			return "", nil
		}
		step("WritePOSTableTo", func() error {
			var b bytes.Buffer
			b.WriteString("head")
			if err := d.Grammar.WritePOSTableTo(&b, !u16); err != nil {
				return err
			}
			_, err := b.WriteTo(f)
			return err
		})
		return
	}
	return "", fmt.Errorf("unknown target")
}

type outRef struct {
	out  []byte
	code int
	err  string
}

var c07Refs = map[string]*outRef{}

// ref runs fn once per key, undisturbed.
func (c *Ctx) ref(key string, fn func() *outRef) *outRef {
	if r := c07Refs[key]; r != nil {
		return r
	}
	if len(c07Refs) > 2000 {
		c07Refs = map[string]*outRef{}
	}
	var r *outRef
	c.aside(func() { r = fn() })
	c07Refs[key] = r
	return r
}

// c07Args are the arguments of a command.
func c07Args(w *world.World, what string, which int, out string) []string {
	var a []string
	j := w.Spec.UTF16
	switch what {
	case "dicbuilder":
		_, a = buildArgs(what, w)
		return a
	case "userdicbuilder":
		if j {
			a = append(a, "-j")
		}
		return append(a, "-o", outDic, "-s", "/w/system.dic", "-d", "desc", fmt.Sprintf("/w/user%d.csv", which))
	case "dicconv":
		if !j {
			a = append(a, "-j")
		}
		return append(a, "-o", out, dicOf(which))
	case "printdic":
		if j {
			a = append(a, "-j")
		}
		if which > 0 {
			a = append(a, "-s", "/w/system.dic")
		}
	}
	return append(a, dicOf(which))
}

// outOps are the operations whose failure means that output is incomplete.
func outFault(m *vos.Machine) string {
	for _, f := range m.Faults {
		if f.DidFire() && f.Act == "" {
			switch f.Op {
			case "write", "seek", "sync", "close", "rename", "open", "truncate", "any":
				return fmt.Sprintf("%s of %s failed with %s", f.Op, f.Hit, f.Err)
			}
		}
	}
	if m.Fired["write/full disk"] > 0 {
		return "the disk was full"
	}
	return ""
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func execC07(c *Ctx, p *c07Plan) {
	if p.Which < 0 || p.Which > p.World.Users || p.Room < 0 || p.Old < 0 || p.Old > 1<<20 || p.What == "userdicbuilder" && p.Which == 0 {
		if p.What == "userdicbuilder" && p.World.Users > 0 && p.Which == 0 {
			p.Which = 1
		} else {
			c.Skipped = true
			return
		}
	}
	w := c.world(p.World)
	if w == nil {
		return
	}
	c.note("target " + p.What)
	if in(p.What, c07Libs) {
		p.execLib(c, w)
		return
	}
	if !in(p.What, c07Cmds) {
		c.Skipped = true
		return
	}
	stdout := strings.HasPrefix(p.What, "print")
	out := outDic
	if p.Same && p.What == "dicconv" {
		out = dicOf(p.Which)
	}
	args := c07Args(w, p.What, p.Which, out)
	result := func(m *vos.Machine, pr *vos.Proc) []byte {
		if stdout {
			return pr.Stdout
		}
		b, _ := m.Disk.Get(out)
		return mask(b)
	}
	ref := c.ref(fmt.Sprint(w.Spec, p.What, args), func() *outRef {
		m := c.worldMachine(w)
		a := args
		if p.Same && p.What == "dicconv" {
			a = c07Args(w, p.What, p.Which, outDic)
		}
		pr := c.cmd(m, p.What, a...)
		r := &outRef{out: pr.Stdout, code: pr.Code}
		if !stdout {
			b, _ := m.Disk.Get(outDic)
			r.out = mask(b)
		}
		return r
	})
	if ref.code != 0 {
		c.skip("the command fails undisturbed")
		return
	}
	m := c.worldMachine(w)
	if p.Old > 0 && out == outDic && !stdout {
		m.Disk.Put(out, bytes.Repeat([]byte{'o'}, p.Old-1))
	}
	m.Faults = p.Faults
	if p.Room > 0 {
		m.Disk.Capacity = diskUse(m) + int64(p.Room) - 1
	}
	pr := c.cmd(m, p.What, args...)
	if c.V != nil {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "%s panics: %s\n%s", p.What, pr.PanicMsg, short(pr.PanicStk))
		return
	}
	c.Judged++
	bad := outFault(m)
	c.Trivial = bad == ""
	switch {
	case bad != "" && pr.Code == 0:
		c.Fail("hidden", "%s exits successfully although %s", p.What, bad)
	case bad == "" && pr.Code != 0:
		c.Fail("status", "%s: status %d although nothing failed: %s", p.What, pr.Code, world.Tail(pr.Stderr))
	case pr.Code == 0:
		got := result(m, pr)
		if d := sameFile(got, ref.out); d != "" {
			c.Fail("incomplete", "%s exits successfully but the output is wrong: %s", p.What, d)
		}
	}
}

func (p *c07Plan) execLib(c *Ctx, w *world.World) {
	key := fmt.Sprint(w.Spec, p.What, p.Which, p.Buf)
	ref := c.ref(key, func() *outRef {
		m := c.worldMachine(w)
		r := &outRef{}
		c.lib(m, "reference", func() {
			f := &memFile{}
			q := *p
			q.FailAt = 0
			_, err := q.libWrite(w, f)
			r.out, r.err = f.b, errText(err)
		})
		return r
	})
	if ref.err != "" {
		c.skip("the call fails undisturbed")
		return
	}
	m := c.worldMachine(w)
	f := &memFile{failAt: p.FailAt, part: p.Part, once: p.Once}
	var what string
	var err error
	pr := c.lib(m, "app", func() { what, err = p.libWrite(w, f) })
	if c.V != nil {
		return
	}
	if pr.PanicMsg != "" {
		c.Fail("panic", "%s panics: %s\n%s", what, pr.PanicMsg, short(pr.PanicStk))
		return
	}
	if pr.Code != 0 {
		c.Fail("exit", "%s ends the process with status %d", what, pr.Code)
		return
	}
	c.Judged++
	c.Trivial = !f.failed
	if f.failed {
		c.fired(ctl{fired: map[string]int{"writer error": 1}})
		if err == nil {
			c.Fail("hidden", "%s reports success although operation %d (%s) on its output failed after %d bytes", what, p.FailAt, f.log[p.FailAt-1], p.Part)
		}
		return
	}
	if err != nil {
		c.Fail("status", "%s: %v although nothing failed", what, err)
		return
	}
	if d := sameFile(f.b, ref.out); d != "" {
		c.Fail("incomplete", "%s reports success but the output is wrong: %s", p.What, d)
	}
}
