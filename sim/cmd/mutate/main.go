// mutate lists small changes to the Go sources of a tree, or makes one of them (to measure what the checks notice).
//
//	mutate -repo DIR            lists them: ID, file:line, what
//	mutate -repo DIR -apply ID  makes that change in DIR
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type site struct {
	line int
	what string
	do   func()
}

func main() {
	repo := flag.String("repo", "/repo", "tree")
	apply := flag.Int("apply", -1, "change to make")
	flag.Parse()
	var files []string
	for _, d := range []string{"ae", "cmd", "config", "database", "datastruct", "log", "server", "socket"} {
		m, _ := filepath.Glob(filepath.Join(*repo, d, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				files = append(files, f)
			}
		}
	}
	sort.Strings(files)
	id := 0
	for _, f := range files {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, s := range sites(fset, af) {
			if *apply < 0 {
				rel, _ := filepath.Rel(*repo, f)
				fmt.Printf("%d\t%s:%d\t%s\n", id, rel, s.line, s.what)
			} else if *apply == id {
				s.do()
				var b bytes.Buffer
				if err := format.Node(&b, fset, af); err != nil {
					panic(err)
				}
				if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
					panic(err)
				}
				return
			}
			id++
		}
	}
}

func src(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	_ = format.Node(&b, fset, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func sites(fset *token.FileSet, af *ast.File) []site {
	var out []site
	add := func(n ast.Node, what string, do func()) {
		out = append(out, site{fset.Position(n.Pos()).Line, what, do})
	}
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
		token.OR: {token.AND}, token.AND: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	block := func(list *[]ast.Stmt) {
		for i, st := range *list {
			i := i
			old := *list
			del := false
			switch x := st.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				del = true
			case *ast.AssignStmt:
				del = x.Tok != token.DEFINE
			case *ast.BranchStmt:
				del = true
			case *ast.ReturnStmt:
				del = len(x.Results) == 0
			case *ast.IfStmt:
				del = true
			}
			if c, ok := st.(*ast.ExprStmt); ok && strings.HasPrefix(src(fset, c), "log.") {
				del = false
			}
			if del {
				add(st, "delete: "+src(fset, st), func() {
					n := append([]ast.Stmt(nil), old[:i]...)
					*list = append(n, old[i+1:]...)
				})
			}
			if i+1 < len(old) {
				a, ok1 := st.(*ast.ExprStmt)
				b, ok2 := old[i+1].(*ast.ExprStmt)
				_, ok3 := st.(*ast.AssignStmt)
				_, ok4 := old[i+1].(*ast.AssignStmt)
				if (ok1 || ok3 && st.(*ast.AssignStmt).Tok != token.DEFINE) && (ok2 || ok4) {
					_, _ = a, b
					add(st, "swap with next: "+src(fset, st), func() {
						n := append([]ast.Stmt(nil), old...)
						n[i], n[i+1] = n[i+1], n[i]
						*list = n
					})
				}
			}
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.CallExpr:
			if strings.HasPrefix(src(fset, x.Fun), "log.") {
				return false
			}
		case *ast.BlockStmt:
			block(&x.List)
		case *ast.CaseClause:
			block(&x.Body)
		case *ast.IfStmt:
			add(x, "negate: if "+src(fset, x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			if x.Else != nil {
				add(x, "drop else: if "+src(fset, x.Cond), func() { x.Else = nil })
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
					continue
				}
				add(x, fmt.Sprintf("%s for %s: %s", t, x.Op, src(fset, x)), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, "left only: "+src(fset, x), func() { y := *x; x.Op = token.LAND; x.X = y.X; x.Y = y.X })
				add(x, "right only: "+src(fset, x), func() { y := *x; x.Op = token.LAND; x.X = y.Y; x.Y = y.Y })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x, fmt.Sprintf("%d for %s", v+1, x.Value), func() { x.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(x, fmt.Sprintf("%d for %s", v-1, x.Value), func() { x.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x, "not "+x.Name, func() { x.Name = map[string]string{"true": "false", "false": "true"}[x.Name] })
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB {
				add(x, "drop minus: "+src(fset, x), func() { x.Op = token.ADD })
			}
		}
		return true
	})
	return out
}
