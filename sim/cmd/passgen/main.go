// Command passgen writes a file that passes every exported name of a package
// through, except those the hand-written files beside it declare.
//
//	passgen DIR IMPORTPATH NAME
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	dir, path, name := os.Args[1], os.Args[2], os.Args[3]
	fset := token.NewFileSet()
	have := map[string]bool{}
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range m {
		if strings.HasSuffix(f, "zz_pass.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					have[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						have[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by passgen. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, path)
	for _, n := range p.Scope().Names() {
		if !token.IsExported(n) || have[n] {
			continue
		}
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_pass.go"), out, 0666); err != nil {
		panic(err)
	}
}
