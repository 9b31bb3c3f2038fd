// simgen rewrites the packages of the repository under test so that every source of nondeterminism goes through the
// simulator, and writes an overlay for the go command. The repository itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"os": "verifsim/shim/os", "os/exec": "verifsim/shim/exec", "syscall": "verifsim/shim/syscall", "time": "verifsim/shim/time",
	"path/filepath": "verifsim/shim/filepath", "context": "verifsim/shim/context", "math/rand": "verifsim/shim/rand", "math/rand/v2": "verifsim/shim/randv2", "sync": "verifsim/shim/sync", "io/ioutil": "verifsim/shim/ioutil",
	"os/signal": "verifsim/shim/signal", "log": "verifsim/shim/stdlog", "github.com/spf13/viper": "verifsim/shim/viper",
	"github.com/IfanTsai/go-lib/logger": "verifsim/shim/logger",
}
var shimName = map[string]string{"os": "os", "os/exec": "exec", "syscall": "syscall", "time": "time", "path/filepath": "filepath", "context": "context", "math/rand": "rand", "math/rand/v2": "rand", "sync": "sync", "io/ioutil": "ioutil",
	"os/signal": "signal", "log": "log", "github.com/spf13/viper": "viper", "github.com/IfanTsai/go-lib/logger": "logger"}

// calls of these methods become calls of a function of the shim
var methods = map[string]string{"(*github.com/spf13/viper.Viper).WatchConfig": "Watch", "(*github.com/spf13/viper.Viper).OnConfigChange": "OnChange"}

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	CgoFiles                      []string
	Module                        *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func fatal(v ...any) { fmt.Fprintln(os.Stderr, append([]any{"simgen:"}, v...)...); os.Exit(2) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json", "./...")
	cmd.Dir = *repo
	var errb bytes.Buffer
	cmd.Stderr = &errb
	data, err := cmd.Output()
	if err != nil {
		fatal("go list:", err, errb.String())
	}
	exports := map[string]string{}
	var mine []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	if len(mine) == 0 {
		fatal("no packages", errb.String())
	}
	mod := mine[0].Module.Path
	overlay := map[string]string{}
	for _, p := range mine {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		switch {
		case p.Name == "main", rel == "":
			continue
		}
		if p.Error != nil {
			fatal(p.ImportPath, p.Error.Err)
		}
		doPkg(p, exports, *out, overlay)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

type gen struct {
	fset *token.FileSet
	info *types.Info
	n    int
	used bool
	skip map[ast.Node]bool

	file_       int
	resets      map[*types.Var]string
	zero, inits []string
	extra       []ast.Decl
	final       []string // in the last file: everything that brings the package back to its initial state, in order
}

// vars prepares functions that initialise the package's variables again: a simulated process starts with fresh ones.
// init functions get a name, so that they can run again.
func (g *gen) vars(a *ast.File) {
	fn := func(body ...ast.Stmt) string {
		g.n++
		name := fmt.Sprintf("resetʹ%d_%d", g.file_, g.n)
		g.extra = append(g.extra, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		return name
	}
	for _, d := range a.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				g.n++
				d.Name = id(fmt.Sprintf("initʹ%d_%d", g.file_, g.n))
				g.inits = append(g.inits, d.Name.Name)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							g.zero = append(g.zero, fn(&ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN,
								Rhs: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{v.Type}}}}}))
						}
					}
					continue
				}
				set := func(names []*ast.Ident, vals []ast.Expr) {
					var lhs []ast.Expr
					for _, n := range names {
						lhs = append(lhs, id(n.Name))
					}
					f := fn(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vals})
					for _, n := range names {
						if o, ok := g.info.Defs[n].(*types.Var); ok {
							g.resets[o] = f
						}
					}
				}
				if len(v.Values) == len(v.Names) {
					for i := range v.Names {
						set(v.Names[i:i+1], v.Values[i:i+1])
					}
				} else {
					set(v.Names, v.Values)
				}
			}
		}
	}
}

func doPkg(p *listPkg, exports map[string]string, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "simgen: typecheck:", err) }}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal("type check of", p.ImportPath, "failed")
	}
	dir := filepath.Join(out, "src", strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal(err)
	}
	resets := map[*types.Var]string{} // variable -> function that initialises it again
	var zero, inits []string
	var gens []*gen
	for i, a := range files {
		g := &gen{fset: fset, info: info, skip: map[ast.Node]bool{}, file_: i, resets: resets}
		g.vars(a)
		zero, inits = append(zero, g.zero...), append(inits, g.inits...)
		gens = append(gens, g)
	}
	var order []string
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			if f := resets[v]; f != "" {
				order = append(order, f)
				break
			}
		}
		if len(in.Lhs) == 1 && in.Lhs[0].Name() == "_" {
			continue
		}
	}
	for i, a := range files {
		g := gens[i]
		if i == len(files)-1 {
			g.final = append(append(append([]string(nil), zero...), order...), inits...)
			g.inits = inits
		}
		src := g.file(a)
		name := filepath.Join(dir, p.GoFiles[i])
		if old, err := os.ReadFile(name); err != nil || !bytes.Equal(old, src) {
			if err := os.WriteFile(name, src, 0o644); err != nil {
				fatal(err)
			}
		}
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
	}
}

const rt = "simrtʹ"

func id(s string) *ast.Ident { return &ast.Ident{Name: s} }

func (g *gen) call(fn string, args ...ast.Expr) *ast.CallExpr {
	g.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(rt), Sel: id(fn)}, Args: args}
}

func (g *gen) tmp(p string) *ast.Ident { g.n++; return id(fmt.Sprintf("%sʹ%d", p, g.n)) }

func define(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func (g *gen) file(a *ast.File) []byte {
	a.Comments = nil
	a.Doc = nil
	for _, is := range a.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		is.Doc, is.Comment = nil, nil
		if s, ok := shims[p]; ok {
			if is.Name == nil {
				is.Name = id(shimName[p])
			}
			is.Path.Value = strconv.Quote(s)
			is.EndPos = token.NoPos
		}
	}
	ast.Inspect(a, func(n ast.Node) bool { // drop comments everywhere
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	for _, d := range a.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				g.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i := range v.Values {
						v.Values[i] = g.expr(v.Values[i])
					}
				}
			}
		}
	}
	a.Decls = append(a.Decls, g.extra...)
	if len(g.final) > 0 {
		callAll := func(l []string) (o []ast.Stmt) {
			for _, n := range l {
				o = append(o, &ast.ExprStmt{X: &ast.CallExpr{Fun: id(n)}})
			}
			return
		}
		reg := &ast.ExprStmt{X: g.call("OnReset", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: callAll(g.final)}})}
		a.Decls = append(a.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: append(callAll(g.inits), reg)}})
	}
	if g.used {
		spec := &ast.ImportSpec{Name: id(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/simrt"`}}
		a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, a.Decls...)
	}
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), a); err != nil {
		fatal("print", err)
	}
	return b.Bytes()
}

func (g *gen) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = g.stmts(b.List)
	}
}

func (g *gen) stmts(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			out = append(out, &ast.ExprStmt{X: g.call("P")})
		}
		out = append(out, g.stmt(s, nil))
	}
	return out
}

func (g *gen) body(b *ast.BlockStmt) {
	g.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{&ast.ExprStmt{X: g.call("P")}}
	}
}

func (g *gen) isMap(e ast.Expr) bool {
	t := g.info.TypeOf(e)
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (g *gen) isChan(e ast.Expr) bool {
	t := g.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func label(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// stmt rewrites one statement; lab is the label it carries, if any.
func (g *gen) stmt(s ast.Stmt, lab *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.RangeStmt, *ast.SelectStmt:
			return g.stmt(s.Stmt, s.Label)
		}
		s.Stmt = g.stmt(s.Stmt, nil)
		return s
	case *ast.BlockStmt:
		g.block(s)
		return s
	case *ast.IfStmt:
		s.Init = g.stmt(s.Init, nil)
		s.Cond = g.expr(s.Cond)
		g.block(s.Body)
		s.Else = g.stmt(s.Else, nil)
		return s
	case *ast.ForStmt:
		s.Init = g.stmt(s.Init, nil)
		s.Cond = g.expr(s.Cond)
		s.Post = g.stmt(s.Post, nil)
		g.body(s.Body)
		return s
	case *ast.RangeStmt:
		return g.rangeStmt(s, lab)
	case *ast.SwitchStmt:
		s.Init = g.stmt(s.Init, nil)
		s.Tag = g.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = g.expr(cc.List[i])
			}
			cc.Body = g.stmts(cc.Body)
		}
		return s
	case *ast.TypeSwitchStmt:
		s.Init = g.stmt(s.Init, nil)
		s.Assign = g.stmt(s.Assign, nil)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = g.stmts(cc.Body)
		}
		return s
	case *ast.SelectStmt:
		return g.selectStmt(s, lab)
	case *ast.GoStmt:
		return g.goStmt(s)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: g.call("SendTo", g.expr(s.Chan)), Args: []ast.Expr{g.expr(s.Value)}}}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isRecv(s.Rhs[0]); ok {
				s.Rhs[0] = g.call("Recv2", g.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = g.expr(s.Lhs[i])
				}
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = g.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = g.expr(s.Rhs[i])
		}
		return s
	case *ast.DeclStmt:
		if d, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range d.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := isRecv(v.Values[0]); ok {
							v.Values[0] = g.call("Recv2", g.expr(u.X))
							continue
						}
					}
					for i := range v.Values {
						v.Values[i] = g.expr(v.Values[i])
					}
				}
			}
		}
		return s
	case *ast.ExprStmt:
		s.X = g.expr(s.X)
		return s
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = g.expr(s.Results[i])
		}
		return s
	case *ast.DeferStmt:
		s.Call = g.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.IncDecStmt:
		s.X = g.expr(s.X)
		return s
	}
	return s
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (g *gen) rangeStmt(s *ast.RangeStmt, lab *ast.Ident) ast.Stmt {
	switch {
	case g.isMap(s.X):
		m := g.tmp("m")
		pre := define(m, g.expr(s.X))
		k := g.tmp("k")
		g.body(s.Body)
		var head []ast.Stmt
		v, ok := ast.Expr(id("_")), g.tmp("ok")
		vt := g.tmp("v")
		if !blank(s.Value) {
			v = vt
		}
		head = append(head,
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(s.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{k}})
		}
		if !blank(s.Value) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{vt}})
		}
		f := &ast.RangeStmt{Key: id("_"), Value: k, Tok: token.DEFINE, X: g.call("MapKeys", m),
			Body: &ast.BlockStmt{List: append(head, s.Body.List...)}}
		return &ast.BlockStmt{List: []ast.Stmt{pre, label(lab, f)}}
	case g.isChan(s.X):
		c := g.tmp("c")
		pre := define(c, g.expr(s.X))
		g.body(s.Body)
		v, ok := g.tmp("v"), g.tmp("ok")
		lhs := ast.Expr(v)
		if blank(s.Key) {
			lhs = id("_")
		}
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{lhs, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{g.call("Recv2", c)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if !blank(s.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		}
		f := &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, s.Body.List...)}}
		return &ast.BlockStmt{List: []ast.Stmt{pre, label(lab, f)}}
	}
	s.X = g.expr(s.X)
	g.body(s.Body)
	return label(lab, s)
}

func (g *gen) constant(e ast.Expr) bool {
	tv, ok := g.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (g *gen) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	fun := c.Fun
	if _, lit := fun.(*ast.FuncLit); lit {
		fun = g.expr(fun)
	} else {
		static := false
		switch f := fun.(type) {
		case *ast.Ident:
			_, static = g.info.Uses[f].(*types.Func)
			if _, b := g.info.Uses[f].(*types.Builtin); b {
				static = true
			}
		case *ast.SelectorExpr:
			if x, ok := f.X.(*ast.Ident); ok {
				_, static = g.info.Uses[x].(*types.PkgName)
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			static = true
		}
		fun = g.expr(fun)
		if !static {
			t := g.tmp("f")
			pre = append(pre, define(t, fun))
			fun = t
		}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if g.constant(a) {
			args[i] = a
			continue
		}
		t := g.tmp("a")
		pre = append(pre, define(t, g.expr(a)))
		args[i] = t
	}
	var call ast.Stmt
	ell := token.NoPos
	if c.Ellipsis != token.NoPos {
		ell = 1
	}
	call = &ast.ExprStmt{X: g.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}}}}})}
	if len(pre) == 0 {
		return call
	}
	return &ast.BlockStmt{List: append(pre, call)}
}

func (g *gen) selectStmt(s *ast.SelectStmt, lab *ast.Ident) ast.Stmt {
	var pre, clauses []ast.Stmt
	var tries []ast.Expr
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: g.stmts(cc.Body)})
			continue
		}
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := g.tmp("c")
			pre = append(pre, define(ch, g.expr(comm.Chan)))
			v := comm.Value
			if !g.constant(v) {
				t := g.tmp("v")
				pre = append(pre, define(t, g.expr(v)))
				v = t
			}
			tries = append(tries, &ast.CallExpr{Fun: g.call("CaseSend", ch), Args: []ast.Expr{v}})
		default:
			var rx *ast.UnaryExpr
			var lhs []ast.Expr
			tok := token.ASSIGN
			switch x := comm.(type) {
			case *ast.ExprStmt:
				rx, _ = isRecv(x.X)
			case *ast.AssignStmt:
				rx, _ = isRecv(x.Rhs[0])
				lhs, tok = x.Lhs, x.Tok
			}
			ch, v, ok := g.tmp("c"), g.tmp("v"), g.tmp("ok")
			pre = append(pre, define(ch, g.expr(rx.X)), define(v, g.call("Zero", ch)), define(ok, id("false")),
				&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v, ok}})
			tries = append(tries, g.call("CaseRecv", ch, &ast.UnaryExpr{Op: token.AND, X: v}, &ast.UnaryExpr{Op: token.AND, X: ok}))
			if len(lhs) > 0 {
				rhs := []ast.Expr{v, ok}[:len(lhs)]
				allBlank := true
				for _, l := range lhs {
					if !blank(l) {
						allBlank = false
					}
				}
				if !allBlank {
					head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
				}
			}
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(head, g.stmts(cc.Body)...)})
		idx++
	}
	d := "false"
	if hasDefault {
		d = "true"
	} else {
		// keep the statement terminating when the select was
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	sw := &ast.SwitchStmt{Tag: g.call("Select", append([]ast.Expr{id(d)}, tries...)...), Body: &ast.BlockStmt{List: clauses}}
	return &ast.BlockStmt{List: append(pre, label(lab, sw))}
}

// expr rewrites receives and function literals inside an expression.
func (g *gen) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		e.X = g.expr(e.X)
		if e.Op == token.ARROW {
			return g.call("Recv", e.X)
		}
		return e
	case *ast.FuncLit:
		g.block(e.Body)
		return e
	case *ast.CallExpr:
		if x, ok := e.Fun.(*ast.SelectorExpr); ok {
			if f, ok := g.info.Uses[x.Sel].(*types.Func); ok && methods[f.FullName()] != "" {
				g.used = true
				args := []ast.Expr{g.expr(x.X)}
				for _, a := range e.Args {
					args = append(args, g.expr(a))
				}
				return g.call(methods[f.FullName()], args...)
			}
		}
		e.Fun = g.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = g.expr(e.Args[i])
		}
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = g.expr(e.X), g.expr(e.Y)
		return e
	case *ast.ParenExpr:
		e.X = g.expr(e.X)
		return e
	case *ast.SelectorExpr:
		e.X = g.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = g.expr(e.X), g.expr(e.Index)
		return e
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = g.expr(e.X), g.expr(e.Low), g.expr(e.High), g.expr(e.Max)
		return e
	case *ast.StarExpr:
		e.X = g.expr(e.X)
		return e
	case *ast.TypeAssertExpr:
		e.X = g.expr(e.X)
		return e
	case *ast.KeyValueExpr:
		e.Value = g.expr(e.Value)
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = g.expr(e.Key)
		}
		return e
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = g.expr(e.Elts[i])
		}
		return e
	}
	return e
}
