// Command instr writes an overlay for "go build" in which the concurrent parts
// of the code under test yield between statements, and read-modify-write
// statements are split into their two halves, so that ordinary runs explore
// many more interleavings. Without a race the code means the same.
//
//	instr -repo /repo -out DIR   writes DIR/overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const yieldPkg = `package verifyield

import (
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var state atomic.Uint64
var enabled = false

func init() {
	if s := os.Getenv("VERIF_YIELD"); s != "" {
		n, _ := strconv.ParseUint(s, 10, 64)
		state.Store(n * 0x9e3779b97f4a7c15)
		enabled = true
	}
}

// Y sometimes lets other goroutines run.
func Y() {
	if !enabled {
		return
	}
	x := state.Add(0x9e3779b97f4a7c15)
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 29
	switch {
	case x&3 == 0:
		runtime.Gosched()
	case x&255 == 1:
		time.Sleep(time.Duration(5+(x>>8)&31) * time.Microsecond)
	}
}
`

var module string

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	check(err)
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	check(os.MkdirAll(*out, 0o755))
	replace := map[string]string{}
	yp := filepath.Join(*out, "verifyield.go")
	check(os.WriteFile(yp, []byte(yieldPkg), 0o644))
	replace[filepath.Join(*repo, "internal", "verifyield", "y.go")] = yp
	n := 0
	for _, dir := range []string{"ag", "nn", "optimizers", "mat"} {
		root := filepath.Join(*repo, dir)
		check(filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() {
				if info.Name() == "internal" || info.Name() == "gradfn" || info.Name() == "fbs" || info.Name() == "float" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, ok := rewrite(path, dir == "mat" && filepath.Dir(path) == root)
			if !ok {
				return nil
			}
			n++
			p := filepath.Join(*out, fmt.Sprintf("f%03d.go", n))
			check(os.WriteFile(p, src, 0o644))
			replace[path] = p
			return nil
		}))
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

var counter int

func rewrite(path string, gradOnly bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0) // comments are dropped (directives too)
	if err != nil {
		return nil, false
	}
	raw, _ := os.ReadFile(path)
	if bytes.Contains(raw, []byte("//go:")) || bytes.Contains(raw, []byte("// +build")) || bytes.Contains(raw, []byte(`import "C"`)) {
		return nil, false
	}
	done := false
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if gradOnly && !strings.Contains(fd.Name.Name, "Grad") && !mentions(fd, "gradMu") {
			continue
		}
		instrument(fd.Body)
		done = true
	}
	if !done {
		return nil, false
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
		Name: ast.NewIdent("verifyield"),
		Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", module+"/internal/verifyield")}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, false
	}
	return buf.Bytes(), true
}

func mentions(n ast.Node, name string) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return true
	})
	return found
}

func instrument(b *ast.BlockStmt) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true // the body of a switch or select
				}
			}
			x.List = weave(x.List)
		case *ast.CaseClause:
			x.Body = weave(x.Body)
		case *ast.CommClause:
			x.Body = weave(x.Body)
		}
		return true
	})
}

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifyield"), Sel: ast.NewIdent("Y")}}}
}

func weave(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, yield())
		out = append(out, split(s)...)
	}
	return out
}

// pure reports whether evaluating the expression twice is harmless.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.BasicLit:
		return true
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

var ops = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}

// split turns x op= y, with x not a plain variable, into t := x; yield; x = t op y.
func split(s ast.Stmt) []ast.Stmt {
	var lhs, rhs ast.Expr
	var op token.Token
	switch x := s.(type) {
	case *ast.IncDecStmt:
		lhs, rhs, op = x.X, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
	case *ast.AssignStmt:
		o, ok := ops[x.Tok]
		if !ok || len(x.Lhs) != 1 {
			return []ast.Stmt{s}
		}
		lhs, rhs, op = x.Lhs[0], &ast.ParenExpr{X: x.Rhs[0]}, o
	default:
		return []ast.Stmt{s}
	}
	if _, plain := lhs.(*ast.Ident); plain || !pure(lhs) {
		return []ast.Stmt{s}
	}
	counter++
	t := ast.NewIdent(fmt.Sprintf("verifTmp%d", counter))
	return []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{lhs}},
		yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: rhs}}},
	}
}
