// vrewrite [-nosync] [-r path.Name=path.Name]... OUTDIR OVERLAY.json PKGDIR...:
// writes copies of the packages' files (tests excepted) in which package sync is
// replaced by verif/vsync, go statements start threads of its scheduler, and
// statements with channel operations are preceded by a scheduling point (all
// that unless -nosync), and other packages' functions are replaced as told by
// -r, and an overlay for go build.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	nosync bool
	funcs  = map[string]string{}
)

func main() {
	flag.BoolVar(&nosync, "nosync", false, "leave synchronisation alone")
	flag.Func("r", "replace a function", func(s string) error {
		from, to, _ := strings.Cut(s, "=")
		funcs[from] = to
		return nil
	})
	flag.Parse()
	args := flag.Args()
	out, ov := args[0], args[1]
	repl := map[string]string{}
	for n, dir := range args[2:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			res, changed := rewrite(f, src)
			if !changed {
				continue
			}
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(f)))
			check(os.WriteFile(dst, res, 0o644))
			repl[f] = dst
		}
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": repl})
	check(err)
	check(os.WriteFile(ov, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrewrite:", err)
		os.Exit(1)
	}
}

const pkg = "zzvsync"

func rewrite(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	check(err)
	r := &rewriter{}
	for _, im := range f.Imports {
		r.atomics = r.atomics || im.Path.Value == `"sync/atomic"`
	}
	imports, tail := replaceFuncs(f)
	usesSync := false
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && !nosync {
			usesSync = true
			im.Path.Value = `"verif/vsync"`
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
	for _, d := range f.Decls {
		if nosync {
			break
		}
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.block(fd.Body)
		}
		if gd, ok := d.(*ast.GenDecl); ok {
			ast.Inspect(gd, r.literals)
		}
	}
	if !usesSync && !r.changed && imports == "" {
		return nil, false
	}
	// keep only what steers the compiler
	var keep []*ast.CommentGroup
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				keep = append(keep, g)
				break
			}
		}
	}
	f.Comments = keep
	var buf bytes.Buffer
	check((&printer.Config{Mode: printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, fset, f))
	text := buf.String()
	if r.changed {
		imports += "; import " + pkg + ` "verif/vsync"`
	}
	if imports != "" {
		// a second import of the same package under a name of our own
		i := strings.Index(text, "\npackage ")
		if i < 0 && strings.HasPrefix(text, "package ") {
			i = -1
		}
		j := i + 1 + strings.IndexByte(text[i+1:], '\n')
		text = text[:j] + imports + text[j:] + tail
	}
	return []byte(text), true
}

// replaceFuncs replaces functions of other packages.  It returns the imports to
// add, and declarations that keep the replaced ones' packages in use.
func replaceFuncs(f *ast.File) (imports, tail string) {
	names := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		for from := range funcs {
			i := strings.LastIndexByte(from, '.')
			if from[:i] == path {
				n := path[strings.LastIndexAny(path, "/-")+1:]
				if im.Name != nil {
					n = im.Name.Name
				}
				names[n+from[i:]] = from
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		from, ok := names[id.Name+"."+s.Sel.Name]
		if !ok {
			return true
		}
		to := funcs[from]
		i := strings.LastIndexByte(to, '.')
		if imp := "; import zz" + id.Name + " " + strconv.Quote(to[:i]); !strings.Contains(imports, imp) {
			imports += imp
			tail += "\nvar _ = " + id.Name + "." + s.Sel.Name + "\n"
		}
		id.Name = "zz" + id.Name
		s.Sel.Name = to[i+1:]
		return true
	})
	return imports, tail
}

type rewriter struct {
	changed bool
	atomics bool // the file uses sync/atomic
	n       int
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.touches(s) {
			out = append(out, r.point())
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) point() ast.Stmt {
	r.changed = true
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Point")}}
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}

// literals rewrites the bodies of function literals.
func (r *rewriter) literals(n ast.Node) bool {
	if fl, ok := n.(*ast.FuncLit); ok {
		r.block(fl.Body)
		return false
	}
	return true
}

// touches tells whether executing s itself (not the statements nested in it,
// nor function literals) operates on channels.
func (r *rewriter) touches(s ast.Stmt) bool {
	found := false
	var look func(n ast.Node) bool
	look = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && r.atomics {
				for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
					found = found || strings.HasPrefix(s.Sel.Name, p)
				}
			}
		case *ast.CaseClause, *ast.CommClause:
			return false
		}
		return true
	}
	switch s := s.(type) {
	case *ast.SelectStmt:
		return true
	case *ast.LabeledStmt:
		return r.touches(s.Stmt)
	case *ast.DeferStmt, *ast.GoStmt:
		return false
	default:
		ast.Inspect(s, look)
	}
	return found
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		r.exprs(s.Init, s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.ForStmt:
		r.exprs(s.Init, s.Cond, s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		r.exprs(s.X)
		r.block(s.Body)
	case *ast.SwitchStmt:
		r.exprs(s.Init, s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		r.exprs(s.Init, s.Assign)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		r.clauses(s.Body)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.GoStmt:
		return r.goStmt(s)
	default:
		ast.Inspect(s, r.literals)
	}
	return s
}

func (r *rewriter) exprs(ns ...ast.Node) {
	for _, n := range ns {
		switch x := n.(type) {
		case nil:
		case ast.Stmt:
			if x != nil {
				ast.Inspect(x, r.literals)
			}
		case ast.Expr:
			if x != nil {
				ast.Inspect(x, r.literals)
			}
		}
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, e := range c.List {
				ast.Inspect(e, r.literals)
			}
			c.Body = r.list(c.Body)
		case *ast.CommClause:
			if c.Comm != nil {
				ast.Inspect(c.Comm, r.literals)
			}
			c.Body = r.list(c.Body)
		}
	}
}

// goStmt turns go f(a, b) into {f0, a0, a1 := f, a, b; zzvsync.Go(func(){f0(a0, a1)})}.
func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	r.changed = true
	call := s.Call
	ast.Inspect(call, r.literals)
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{call.Fun}}}
	}
	b := &ast.BlockStmt{}
	inner := &ast.CallExpr{Ellipsis: call.Ellipsis}
	tmp := func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.BasicLit:
			return e
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				return e
			}
		}
		r.n++
		id := "zzgo" + strconv.Itoa(r.n)
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id)
	}
	inner.Fun = tmp(call.Fun)
	for _, a := range call.Args {
		inner.Args = append(inner.Args, tmp(a))
	}
	b.List = append(b.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}}}})
	return b
}
