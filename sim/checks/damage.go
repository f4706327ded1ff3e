package checks

import (
	"bytes"
	"fmt"
	"strings"

	"vsim/rt"
	"vsim/vos"
	"vsim/world"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// dmgOp is a use of a dictionary file that may be damaged.
type dmgOp struct {
	Cons  string     `json:"cons"`            // who uses it
	File  int        `json:"file"`            // the file: 0 system, n user
	Kind  string     `json:"kind,omitempty"`  // what it is instead, "" for the file itself
	Cut   int        `json:"cut,omitempty"`   // length left; negative: bytes cut off the end
	V1    bool       `json:"v1,omitempty"`    // user dictionary of version 1
	As    bool       `json:"as,omitempty"`    // printdic: the damaged file is the one given with -s
	Fault *vos.Fault `json:"fault,omitempty"` // of an operation on the file
	Text  string     `json:"text,omitempty"`
}

type c10Plan struct {
	World world.Spec `json:"world"`
	Ops   []dmgOp    `json:"ops"`
	Reuse bool       `json:"reuse,omitempty"` // addresses of former mappings are used again
	Map   uint64     `json:"map"`
}

var dmgLibs = []string{"new", "readsys", "readuser", "load", "print", "header"}
var dmgCmds = []string{"printdic", "printdicheader", "dicconv", "userdicbuilder", "gosudachicli"}

func init() {
	register(Check{ID: "C10", N: 150000,
		Rule: "a plan is a history of opens, loads, prints, conversions and builds in which the dictionary file used is cut off at some length, empty, missing, a directory, a text, without magic number or of the other kind, or its opening, size query or mapping fails, with undamaged uses in between; non-trivial when a damaged file was used or a fault fired"},
		genC10, execC10)
}

func genC10(r *rt.Rand, tier string) *c10Plan {
	p := &c10Plan{World: smallSpec(r, 2), Map: r.Next() >> 12}
	if r.Chance(3, 4) {
		p.World.Users = max(1, p.World.Users)
	}
	w := world.Get(p.World)
	for n := r.Range(1, 4); n > 0; n-- {
		o := dmgOp{Cons: rt.Pick(r, append(dmgLibs, dmgCmds...)), File: r.Intn(p.World.Users + 1)}
		switch o.Cons {
		case "readsys", "userdicbuilder":
			o.File = 0
		case "readuser":
			o.File = max(o.File, min(1, p.World.Users))
		}
		if len(w.Users) == 0 {
			if o.Cons == "readuser" {
				o.Cons = "readsys"
			} else if o.Cons == "userdicbuilder" {
				o.Cons = "dicconv"
			}
		}
		o.V1 = r.Chance(1, 4)
		o.As = r.Chance(1, 3)
		size := len(w.Files[dicOf(o.File)])
		switch x := r.Intn(20); {
		case x < 10:
			o.Kind = "cut"
			switch r.Intn(6) {
			case 0:
				o.Cut = r.Intn(300)
			case 1:
				o.Cut = -1 - r.Intn(60)
			case 2:
				o.Cut = -1
			default:
				o.Cut = r.Intn(max(1, size))
			}
		case x < 16:
			o.Kind = rt.Pick(r, []string{"empty", "missing", "dir", "text", "magic", "other", "other", "other"})
			if o.Kind == "other" && len(w.Users) == 0 {
				o.Kind = "magic"
			}
		case x < 19:
			o.Fault = &vos.Fault{Op: rt.Pick(r, []string{"open", "stat", "mmap"}), Nth: 1, Err: rt.Pick(r, errKinds), Sticky: r.Bool()}
		}
		p.Ops = append(p.Ops, o)
	}
	p.Reuse = r.Bool()
	return p
}

func (o *dmgOp) valid(w *world.World) bool {
	n := len(w.Users)
	switch {
	case o.File < 0 || o.File > n:
	case !in(o.Cons, dmgLibs) && !in(o.Cons, dmgCmds):
	case o.Cons == "readuser" && o.File == 0:
	case (o.Cons == "readsys" || o.Cons == "userdicbuilder") && o.File != 0:
	case o.Cons == "userdicbuilder" && n == 0:
	case o.Kind == "other" && n == 0:
	default:
		return true
	}
	return false
}

// content is what the file holds; ok tells whether the consumer may accept it.
func (o *dmgOp) content(w *world.World, good []byte) (b []byte, ok bool) {
	switch o.Kind {
	case "cut":
		n := o.Cut
		if n < 0 {
			n += len(good)
		}
		if n < 0 || n >= len(good) {
			return good, true
		}
		// the header is all that printing it needs
		return good[:n], n >= 272 && (o.Cons == "header" || o.Cons == "printdicheader")
	case "empty":
		return nil, false
	case "text":
		return w.Files["/w/lex.csv"], false
	case "magic":
		b = append([]byte{}, good...)
		b[abs(o.Cut)%8] ^= 0x55
		return b, false
	}
	return good, true
}

func execC10(c *Ctx, p *c10Plan) {
	w := c.world(p.World)
	if w == nil {
		return
	}
	if len(p.Ops) > 20 {
		c.Skipped = true
		return
	}
	for i := range p.Ops {
		if !p.Ops[i].valid(w) {
			c.Skipped = true
			return
		}
	}
	m := c.worldMachine(w)
	m.Reuse = p.Reuse
	app := m.NewProc("app", "")
	c.Trivial = true
	for i := range p.Ops {
		o := &p.Ops[i]
		file := dicOf(o.File)
		good := w.Files[file]
		if o.V1 && o.File > 0 && in(o.Cons, []string{"new", "readuser", "dicconv", "header", "printdicheader", "load"}) {
			if b := makeV1(good); b != nil {
				good = b
			}
		}
		as := o.as(w)
		b, ok := o.content(w, good)
		if o.Kind == "other" {
			other := 0
			if o.File == 0 {
				other = 1
			}
			b = w.Files[dicOf(other)]
			// a consumer that takes either kind may accept it
			ok = in(o.Cons, []string{"new", "header", "printdicheader", "dicconv"})
			if (o.Cons == "print" || o.Cons == "printdic") && !as {
				ok = o.File > 0 // a system dictionary may be printed with -s
			}
		}
		m.Disk.Remove(file)
		switch o.Kind {
		case "missing":
			ok = false
		case "dir":
			m.Disk.MkdirAll(file)
			ok = false
		default:
			m.Disk.Put(file, b)
		}
		var f *vos.Fault
		if o.Fault != nil {
			q := *o.Fault
			f = &q
			f.Path = file
			m.Faults = []*vos.Fault{f}
		}
		out, what, pr, err := o.do(c, w, m, app, p.Map+uint64(i))
		if c.V != nil {
			return
		}
		m.Faults = nil
		how := fmt.Sprintf("%s, which is %s", file, orGood(o.Kind))
		if o.Kind == "cut" {
			how = fmt.Sprintf("%s, cut to %d of %d bytes,", file, len(b), len(good))
		}
		fired := f != nil && f.DidFire()
		if fired {
			ok = false
			how = fmt.Sprintf("%s when its %s fails with %s", file, f.Op, f.Err)
		}
		if !ok {
			c.Trivial = false
			c.note(o.Cons + " of damaged")
		}
		if pr.PanicMsg != "" {
			c.Fail("panic", "step %d: %s of %s panics: %s\n%s", i, what, how, pr.PanicMsg, short(pr.PanicStk))
			return
		}
		c.Judged++
		if !ok && err == nil {
			c.Fail("accepted", "step %d: %s succeeds with %s: %s", i, what, how, short(out))
			return
		}
		if l := append(app.OpenFDs(), app.Mapped()...); len(l) > 0 {
			c.Fail("left open", "step %d: after %s of %s, still open: %s", i, what, how, strings.Join(l, ", "))
			return
		}
		if ok && o.Kind != "cut" && o.Kind != "other" {
			// the same as in the beginning
			v1 := len(good) != len(w.Files[file])
			ref := c.ref(fmt.Sprint("c10 ", w.Spec, o.Cons, o.File, as, v1), func() *outRef {
				m := c.worldMachine(w)
				m.Disk.Put(file, good)
				q := *o
				q.Kind, q.Fault = "", nil
				s, _, _, err := q.do(c, w, m, m.NewProc("app", ""), 1)
				return &outRef{out: []byte(s), err: errText(err)}
			})
			if err != nil && ref.err == "" {
				c.Fail("refused", "step %d: %s refuses %s: %v", i, what, how, err)
				return
			}
			if string(ref.out) != out {
				c.Fail("different", "step %d: %s of %s now gives something else: %s", i, what, how, diff(out, string(ref.out)))
				return
			}
		}
		// as it was
		m.Disk.Remove(file)
		m.Disk.Put(file, w.Files[file])
	}
}

func orGood(s string) string {
	if s == "" {
		return "complete"
	}
	return s
}

// do lets the consumer use the file as it is on the machine.
func (o *dmgOp) do(c *Ctx, w *world.World, m *vos.Machine, app *vos.Proc, mapSeed uint64) (out, what string, pr *vos.Proc, err error) {
	u16 := w.Spec.UTF16
	file := dicOf(o.File)
	target := file // the file a command is run on
	if o.as(w) {
		target = dicOf(1)
	}
	text := "東京都に行った１２３abc"
	if len(w.Words) > 0 {
		text += w.Words[0]
	}
	lib := in(o.Cons, dmgLibs)
	use := func() {
		var d *dictionary.BinaryDictionary
		switch o.Cons {
		case "new":
			d, err = dictionary.NewBinaryDictionary(file, u16)
		case "readsys":
			d, err = dictionary.ReadSystemDictionary(file, u16)
		case "readuser":
			d, err = dictionary.ReadUserDictionary(file, u16)
		case "load":
			jd, e := world.Load("/w/sudachi.json", nil)
			if err = e; e == nil {
				_, out = world.Call(jd.Create(), "C", text)
				jd.Close()
			}
			return
		case "header":
			var b bytes.Buffer
			err = dictionary.PrintHeader(file, &b)
			out = b.String()
			return
		case "print":
			var sd *dictionary.BinaryDictionary
			if o.File > 0 {
				if sd, err = dictionary.ReadSystemDictionary("/w/system.dic", u16); err != nil {
					return
				}
				defer sd.Close()
			}
			var b bytes.Buffer
			err = dictionary.PrintDictionary(file, u16, sd, &b)
			out = b.String()
			return
		}
		if err == nil {
			out = fmt.Sprint(d.Header.Version, d.Header.Description, d.Lexicon.Size())
			err = d.Close()
		}
	}
	what = o.Cons
	if lib {
		s := rt.New(rt.Schedule{Kind: "serial"}, world.Limit, mapSeed)
		s.Spawn(o.Cons, app, use)
		if !c.run(s, o.Cons) {
			return
		}
		pr = app
	} else {
		var args []string
		j := func() {
			if u16 {
				args = append(args, "-j")
			}
		}
		switch o.Cons {
		case "printdic":
			j()
			if target != "/w/system.dic" || o.as(w) {
				args = append(args, "-s", "/w/system.dic")
			}
			args = append(args, target)
		case "printdicheader":
			args = append(args, file)
		case "dicconv":
			args = c07Args(w, "dicconv", o.File, outDic)
		case "userdicbuilder":
			args = c07Args(w, "userdicbuilder", 1, outDic)
		case "gosudachicli":
			m.Disk.Put("/w/in.txt", []byte(text+"\n"))
			args = append(args, "-r", "/w/sudachi.json", "/w/in.txt")
		}
		pr = m.NewProc(o.Cons, o.Cons, args...)
		if !c.runProc(pr) {
			return
		}
		what = fmt.Sprintf("%s %v", o.Cons, args)
		out = string(pr.Stdout)
		if pr.Code != 0 {
			err = fmt.Errorf("status %d: %s", pr.Code, world.Tail(pr.Stderr))
		}
		if o.Cons == "dicconv" || o.Cons == "userdicbuilder" {
			b, _ := m.Disk.Get(outDic)
			out = string(mask(b))
			m.Disk.Remove(outDic)
		}
	}
	return
}

// as tells that the file is the one given with -s.
func (o *dmgOp) as(w *world.World) bool {
	return o.As && o.Cons == "printdic" && o.File == 0 && len(w.Users) > 0
}
