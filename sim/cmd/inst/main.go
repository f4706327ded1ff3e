// Command inst copies the Go packages of a module into a directory and
// instruments them: a yield point before every statement, seams for files,
// clocks, locks, flags, randomness, goroutines and map order, and registered
// package variables.
//
//	inst -src DIR -out DIR -skip data
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles, EmbedFiles, CgoFiles []string
	Standard, DepOnly             bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

var shims = map[string]string{
	"os": "vsim/shim/os", "io/ioutil": "vsim/shim/ioutil", "time": "vsim/shim/time", "sync": "vsim/shim/sync",
	"runtime": "vsim/shim/runtime", "flag": "vsim/shim/flag", "fmt": "vsim/shim/fmt", "log": "vsim/shim/log", "math/rand": "vsim/shim/rand", "crypto/rand": "vsim/shim/crand",
	"path/filepath": "vsim/shim/filepath", "golang.org/x/sys/unix": "vsim/shim/unix", "syscall": "vsim/shim/syscall",
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "inst: "+f+"\n", a...)
	os.Exit(1)
}

func check(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	src := flag.String("src", "", "module to instrument")
	out := flag.String("out", "", "output directory")
	skip := flag.String("skip", "", "comma separated package directories copied as they are")
	flag.Parse()
	skipped := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skipped[s] = true
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,EmbedFiles,CgoFiles,Standard,DepOnly,Module,Error", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			if p.Error != nil {
				die("%s: %s", p.ImportPath, p.Error.Err)
			}
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	nYield = 0
	var sites []string
	for _, p := range pkgs {
		rel, err := filepath.Rel(*src, p.Dir)
		check(err)
		dst := filepath.Join(*out, rel)
		check(os.MkdirAll(dst, 0777))
		for _, f := range p.EmbedFiles {
			c, err := os.ReadFile(filepath.Join(p.Dir, f))
			check(err)
			check(os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0777))
			check(os.WriteFile(filepath.Join(dst, f), c, 0666))
		}
		if skipped[rel] {
			for _, f := range p.GoFiles {
				c, err := os.ReadFile(filepath.Join(p.Dir, f))
				check(err)
				check(os.WriteFile(filepath.Join(dst, f), c, 0666))
			}
			continue
		}
		instrument(fset, imp, p, rel, dst, &sites)
	}
	check(os.WriteFile(filepath.Join(*out, "vsim_sites.txt"), []byte(strings.Join(sites, "\n")), 0666))
	fmt.Printf("inst: %d packages, %d yield points\n", len(pkgs), nYield)
}

var nYield int

type edit struct {
	off, end int
	text     string
	seq      int
}

type file struct {
	name  string
	ast   *ast.File
	src   []byte
	edits []edit
	tail  strings.Builder
}

func (f *file) insert(off int, s string) { f.replace(off, off, s) }
func (f *file) replace(off, end int, s string) {
	f.edits = append(f.edits, edit{off, end, s, len(f.edits)})
}

// render gives the edited text of [from,to).
func (f *file) render(from, to int) string {
	es := append([]edit(nil), f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if a, b := es[i].off == es[i].end, es[j].off == es[j].end; a != b {
			return a
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	pos := from
	for _, e := range es {
		if e.off < from || e.end > to || e.off < pos {
			continue
		}
		if e.off == to && e.end == to && to != len(f.src) {
			continue
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:to])
	return b.String()
}

func instrument(fset *token.FileSet, imp types.Importer, p *listPkg, rel, dst string, sites *[]string) {
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		full := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(full)
		check(err)
		a, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		check(err)
		files = append(files, &file{name: n, ast: a, src: src})
		asts = append(asts, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}, GoVersion: ""}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		fmt.Fprintf(os.Stderr, "inst: type check of %s: %v\n", p.ImportPath, err)
	}
	isMain := p.Name == "main"
	regPath := p.ImportPath
	if isMain {
		regPath = "cmd:" + filepath.Base(p.Dir)
	}
	var mainObj types.Object
	if tp != nil {
		mainObj = tp.Scope().Lookup("main")
	}
	var inits []string
	ninit := 0
	for fi, f := range files {
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		// package line
		name := f.ast.Name.Name
		if isMain {
			name = "cmd_" + strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
					return r
				}
				return '_'
			}, filepath.Base(p.Dir))
		}
		f.replace(off(f.ast.Name.Pos()), off(f.ast.Name.End()), name+`; import vsimrt__ "vsim/rt"`)
		f.tail.WriteString("\nvar _ = vsimrt__.Y\n")
		for _, is := range f.ast.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			if s, ok := shims[path]; ok {
				f.replace(off(is.Path.Pos()), off(is.Path.End()), strconv.Quote(s))
			}
		}
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				nn := fmt.Sprintf("vsiminitf_%d_%d__", fi, ninit)
				ninit++
				f.replace(off(fd.Name.Pos()), off(fd.Name.End()), nn)
				f.tail.WriteString("func init() { " + nn + "() }\n")
				inits = append(inits, nn+"()")
			}
		}
		in := &inserter{f: f, fset: fset, info: info, off: off, rel: rel, sites: sites}
		ast.Inspect(f.ast, func(n ast.Node) bool {
			in.node(n)
			if id, ok := n.(*ast.Ident); ok && isMain && mainObj != nil {
				if info.Defs[id] == mainObj || info.Uses[id] == mainObj {
					f.replace(off(id.Pos()), off(id.End()), "VsimMain__")
				}
			}
			return true
		})
	}
	// package variables
	fileOf := func(pos token.Pos) *file {
		n := fset.Position(pos).Filename
		for _, f := range files {
			if filepath.Base(n) == f.name {
				return f
			}
		}
		return files[0]
	}
	var order []string
	for k, in := range info.InitOrder {
		blank := true
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		f := fileOf(in.Rhs.Pos())
		o := func(p token.Pos) int { return fset.Position(p).Offset }
		nn := fmt.Sprintf("vsiminitv_%d__", k)
		f.tail.WriteString("func " + nn + "() { " + strings.Join(lhs, ", ") + " = " + f.render(o(in.Rhs.Pos()), o(in.Rhs.End())) + " }\n")
		order = append(order, nn+"()")
	}
	var g strings.Builder
	pname := files[0].ast.Name.Name
	if isMain {
		pname = "cmd_" + filepath.Base(p.Dir)
	}
	fmt.Fprintf(&g, "package %s\n\nimport vsimrt__ \"vsim/rt\"\n\n", pname)
	if tp != nil {
		for _, n := range tp.Scope().Names() {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok {
				fmt.Fprintf(&g, "var _ = vsimrt__.RegGlobal(%q, &%s)\n", regPath, v.Name())
			}
		}
	}
	fmt.Fprintf(&g, "var _ = vsimrt__.RegInit(%q, vsimReinit__)\n\nfunc vsimReinit__() {\n", regPath)
	for _, s := range append(order, inits...) {
		fmt.Fprintf(&g, "\t%s\n", s)
	}
	g.WriteString("}\n")
	check(os.WriteFile(filepath.Join(dst, "vsim_globals__.go"), []byte(g.String()), 0666))
	for _, f := range files {
		check(os.WriteFile(filepath.Join(dst, f.name), []byte(f.render(0, len(f.src))+f.tail.String()), 0666))
	}
}

type inserter struct {
	f     *file
	fset  *token.FileSet
	info  *types.Info
	off   func(token.Pos) int
	rel   string
	sites *[]string
	ok    map[ast.Node]bool // receives used for two values
}

func (in *inserter) y(pos token.Pos) string {
	id := nYield
	nYield++
	p := in.fset.Position(pos)
	*in.sites = append(*in.sites, fmt.Sprintf("%s:%d", filepath.Join(in.rel, filepath.Base(p.Filename)), p.Line))
	return fmt.Sprintf("vsimrt__.Y(%d);", id)
}

func (in *inserter) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		t := in.y(s.Pos())
		in.f.insert(in.off(s.Pos()), t)
	}
}

func (in *inserter) node(n ast.Node) {
	switch x := n.(type) {
	case *ast.BlockStmt:
		in.list(x.List)
	case *ast.CaseClause:
		in.list(x.Body)
	case *ast.CommClause:
		in.list(x.Body)
	case *ast.SelectStmt:
		in.sel(x)
	case *ast.SendStmt:
		in.f.insert(in.off(x.Pos()), "vsimrt__.SendOp(")
		in.f.replace(in.off(x.Chan.End()), in.off(x.Value.Pos()), ").Now(")
		in.f.insert(in.off(x.Value.End()), ")")
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			in.commaOk(x.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			in.commaOk(x.Values[0])
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			f := "Recv"
			if in.ok[x] {
				f = "Recv2"
			}
			in.f.replace(in.off(x.Pos()), in.off(x.X.Pos()), "vsimrt__."+f+"(")
			in.f.insert(in.off(x.X.End()), ")")
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
			if _, ok := in.info.Uses[id].(*types.Builtin); ok {
				in.f.replace(in.off(id.Pos()), in.off(id.End()), "vsimrt__.Close")
			}
		}
	case *ast.ForStmt:
		if len(x.Body.List) == 0 {
			in.f.insert(in.off(x.Body.Lbrace)+1, in.y(x.Pos()))
		}
	case *ast.RangeStmt:
		in.rng(x)
	case *ast.GoStmt:
		in.goStmt(x)
	}
}

// commaOk notes that e is used for two values.
func (in *inserter) commaOk(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		if in.ok == nil {
			in.ok = map[ast.Node]bool{}
		}
		in.ok[u] = true
	}
}

// sel makes a select a switch on what the scheduler did.
func (in *inserter) sel(x *ast.SelectStmt) {
	var names, ops []string
	def := "false"
	for i, s := range x.Body.List {
		c := s.(*ast.CommClause)
		head := fmt.Sprintf("case %d:", i)
		name := fmt.Sprintf("vsimo%d__", i)
		var recv ast.Expr
		switch c := c.Comm.(type) {
		case nil:
			def = "true"
			head = "default:"
			name = ""
		case *ast.SendStmt:
			ops = append(ops, "vsimrt__.SendOp("+in.text(c.Chan)+").Of("+in.text(c.Value)+")")
		case *ast.ExprStmt:
			recv = c.X
		case *ast.AssignStmt:
			recv = c.Rhs[0]
			head += " " + in.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				head += ", " + in.text(c.Lhs[1])
			}
			head += " " + c.Tok.String() + " " + name + ".V"
			if len(c.Lhs) == 2 {
				head += ", " + name + ".OK"
			}
			head += ";"
		}
		for recv != nil {
			if p, ok := recv.(*ast.ParenExpr); ok {
				recv = p.X
				continue
			}
			ops = append(ops, "vsimrt__.RecvOp("+in.text(recv.(*ast.UnaryExpr).X)+")")
			recv = nil
		}
		if name != "" {
			names = append(names, name)
			// (the operations are numbered without the default)
			head = strings.Replace(head, fmt.Sprintf("case %d:", i), fmt.Sprintf("case %d:", len(names)-1), 1)
		}
		in.f.replace(in.off(c.Case), in.off(c.Colon)+1, head)
	}
	t := "switch "
	if len(names) > 0 {
		t += strings.Join(names, ", ") + " := " + strings.Join(ops, ", ") + "; "
	}
	in.f.replace(in.off(x.Select), in.off(x.Body.Lbrace), t+"vsimrt__.Select("+strings.Join(append([]string{def}, names...), ", ")+") ")
	if def == "false" {
		in.f.insert(in.off(x.Body.Rbrace), `; default: panic("unreachable"); `)
	}
}

func (in *inserter) text(n ast.Node) string {
	return string(in.f.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *inserter) rng(x *ast.RangeStmt) {
	if len(x.Body.List) == 0 {
		in.f.insert(in.off(x.Body.Lbrace)+1, in.y(x.Pos()))
	}
	tv, ok := in.info.Types[x.X]
	if !ok || tv.Type == nil {
		return
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch tv.Type.Underlying().(type) {
	case *types.Map:
		k, v := !blank(x.Key), !blank(x.Value)
		in.f.replace(in.off(x.For), in.off(x.X.Pos()), "for _, vsime__ := range vsimrt__.MapRange(")
		in.f.insert(in.off(x.X.End()), ")")
		t := " if !vsime__.Live() { continue }; "
		op := " " + x.Tok.String() + " "
		switch {
		case k && v:
			t += in.text(x.Key) + ", " + in.text(x.Value) + op + "vsime__.K, vsime__.V(); "
		case k:
			t += in.text(x.Key) + op + "vsime__.K; "
		case v:
			t += in.text(x.Value) + op + "vsime__.V(); "
		}
		in.f.insert(in.off(x.Body.Lbrace)+1, t+"{ ")
		in.f.insert(in.off(x.Body.Rbrace), " }")
	case *types.Chan:
		t := "_"
		op := " := "
		if !blank(x.Key) {
			t = in.text(x.Key)
			op = " " + x.Tok.String() + " "
		}
		ok := "vsimok__"
		in.f.replace(in.off(x.For), in.off(x.X.Pos()), "for vsimch__ := (")
		in.f.insert(in.off(x.X.End()), "); ; ")
		decl := ""
		if op == " = " {
			decl = "var vsimok__ bool; "
		}
		in.f.insert(in.off(x.Body.Lbrace)+1, decl+" "+t+", "+ok+op+"vsimrt__.Recv2(vsimch__); if !"+ok+" { break }; { ")
		in.f.insert(in.off(x.Body.Rbrace), " }")
	}
}

func (in *inserter) goStmt(x *ast.GoStmt) {
	c := x.Call
	simple := true
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.f.replace(in.off(x.Go), in.off(c.Fun.Pos()), "vsimrt__.Go(")
		in.f.replace(in.off(c.Lparen), in.off(c.Rparen)+1, ")")
		return
	}
	if tv, ok := in.info.Types[c.Fun]; !ok || tv.IsBuiltin() || tv.IsType() {
		simple = false
	}
	for _, a := range c.Args {
		if tv, ok := in.info.Types[a]; !ok || tv.IsNil() {
			simple = false
		}
	}
	if !simple {
		in.f.replace(in.off(x.Go), in.off(c.Fun.Pos()), "vsimrt__.Go(func() { ")
		in.f.insert(in.off(c.Rparen)+1, " })")
		return
	}
	in.f.replace(in.off(x.Go), in.off(c.Fun.Pos()), "{ vsimf__ := ")
	var names []string
	prev := in.off(c.Lparen)
	for i, a := range c.Args {
		n := fmt.Sprintf("vsima%d__", i)
		names = append(names, n)
		t := "; " + n + " := "
		if in.info.Types[a].Value != nil {
			t = "; const " + n + " = "
		}
		in.f.replace(prev, in.off(a.Pos()), t)
		prev = in.off(a.End())
	}
	ell := ""
	if c.Ellipsis != token.NoPos {
		ell = "..."
	}
	in.f.replace(prev, in.off(c.Rparen)+1, "; vsimrt__.Go(func() { vsimf__("+strings.Join(names, ", ")+ell+") }) }")
}
