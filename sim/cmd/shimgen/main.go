// shimgen writes zz_gen.go into a shim directory: everything the real package exports that is safe to pass through.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	real := flag.String("real", "", "import path")
	dir := flag.String("dir", "", "shim dir")
	funcs := flag.String("funcs", "", "comma separated functions to pass through, or *")
	deny := flag.String("deny", "", "names never passed through")
	flag.Parse()
	have := map[string]bool{}
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(*dir + "/*.go")
	name := ""
	for _, f := range fs {
		if filepath.Base(f) == "zz_gen.go" {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		name = a.Name.Name
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	for _, n := range strings.Split(*deny, ",") {
		have[n] = true
	}
	pass := map[string]bool{}
	for _, n := range strings.Split(*funcs, ",") {
		pass[n] = true
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(*real)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by shimgen. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, *real)
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if s := o.Type().(*types.Signature); s.TypeParams().Len() > 0 {
				continue
			}
			if pass["*"] || pass[n] {
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			}
		}
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(*dir+"/zz_gen.go", out, 0o644); err != nil {
		panic(err)
	}
}
