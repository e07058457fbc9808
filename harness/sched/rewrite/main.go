// rewrite SRCDIR DSTDIR LEVEL: copies a package so that it runs under gxv/sched.
// LEVEL 2: points before every statement, shared assignments split into read and
// write; 1: points only; 0: only the imports are replaced.
// With a fourth argument "globals" accesses to package variables are reported to the
// scheduler (race detection), and GxvReset gives all of them their initial values;
// with "fields", so are accesses to fields through local pointers.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	level   int
	globals = map[string]bool{}
	nTmp    int
	imports = map[string]bool{}
	track   bool
	fields  bool
	info    = &types.Info{Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
	pkg     *types.Package
	nInit   int
)

const pk = "gxvsched_"

func main() {
	src, dst := os.Args[1], os.Args[2]
	level, _ = strconv.Atoi(os.Args[3])
	p, err := build.Default.ImportDir(src, 0)
	if err != nil {
		fatal(err)
	}
	os.RemoveAll(dst)
	if err := os.MkdirAll(dst, 0755); err != nil {
		fatal(err)
	}
	fs := token.NewFileSet()
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(fs, filepath.Join(src, n), nil, 0)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						globals[id.Name] = true
					}
				}
			}
		}
	}
	if len(os.Args) > 4 {
		track, fields = true, os.Args[4] == "fields"
		cfg := types.Config{Importer: importer.ForCompiler(fs, "source", nil)}
		if pkg, err = cfg.Check(p.Name, fs, files, info); err != nil {
			fatal(err)
		}
		defer reset(fs, p.Name, filepath.Join(dst, "gxv_reset_.go"))
	}
	for i, f := range files {
		rewrite(f)
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), b.Bytes(), 0644); err != nil {
			fatal(err)
		}
	}
	for _, n := range p.SFiles {
		b, _ := os.ReadFile(filepath.Join(src, n))
		os.WriteFile(filepath.Join(dst, n), b, 0644)
	}
}

// reset writes GxvReset.
func reset(fs *token.FileSet, name, file string) {
	var b, z bytes.Buffer
	for _, n := range pkg.Scope().Names() {
		if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok {
			fmt.Fprintf(&z, "\tgxvZero_(&%s)\n", v.Name())
		}
	}
	for _, in := range info.InitOrder {
		fmt.Fprintf(&z, "\tgxvInitExpr%d_()\n", nExpr(in))
	}
	for i := 0; i < nInit; i++ {
		fmt.Fprintf(&z, "\tgxvInit%d_()\n", i)
	}
	fmt.Fprintf(&b, "package %s\n\nfunc gxvZero_[T any](p *T) {\n\tvar z T\n\t*p = z\n}\n\nfunc GxvReset() {\n%s}\n", name, z.Bytes())
	if err := os.WriteFile(file, b.Bytes(), 0644); err != nil {
		fatal(err)
	}
}

var exprNo = map[ast.Expr]int{}

func nExpr(in *types.Initializer) int { return exprNo[in.Rhs] }

// initExprs adds a function per initialiser of a file's package variables.
func initExprs(f *ast.File) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, v := range vs.Values {
				n := len(exprNo)
				exprNo[v] = n
				var l []ast.Expr
				if len(vs.Values) == len(vs.Names) {
					l = append(l, id(vs.Names[i].Name))
				} else {
					for _, x := range vs.Names {
						l = append(l, id(x.Name))
					}
				}
				late = append(late, &ast.FuncDecl{Name: id(fmt.Sprintf("gxvInitExpr%d_", n)), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}}})
			}
		}
	}
}

var late []ast.Decl

func isVar(x *ast.Ident) bool {
	v, ok := info.Uses[x].(*types.Var)
	return ok && pkg != nil && v.Parent() == pkg.Scope()
}

// touched lists the package variables a statement header reads and writes.
func touched(n ast.Node, rd, wr map[string]bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			if _, ok := n.X.(*ast.Ident); ok && n.Op == token.AND {
				return false
			}
			if _, ok := n.X.(*ast.SelectorExpr); ok && n.Op == token.AND {
				return false
			}
		case *ast.SelectorExpr:
			if k := field(n); k != "" {
				rd[k] = true
				return false
			}
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if fs, ok := se.X.(*ast.SelectorExpr); ok && field(fs) != "" {
					if _, ptr := info.Types[fs].Type.Underlying().(*types.Pointer); !ptr {
						for _, a := range n.Args {
							touched(a, rd, wr)
						}
						return false // method of a field
					}
				}
				if x, ok := se.X.(*ast.Ident); ok && isVar(x) {
					if _, ptr := info.Uses[x].Type().Underlying().(*types.Pointer); !ptr {
						for _, a := range n.Args {
							touched(a, rd, wr)
						}
						return false // method of a package variable
					}
				}
			}
			if f, ok := n.Fun.(*ast.Ident); ok && f.Name == "delete" && len(n.Args) == 2 {
				if x, ok := n.Args[0].(*ast.Ident); ok && isVar(x) {
					wr[x.Name] = true
				}
			}
		case *ast.BinaryExpr:
			if n.Op == token.LAND || n.Op == token.LOR {
				touched(n.X, rd, wr)
				second(n)
				return false
			}
		case *ast.IncDecStmt:
			lhs(n.X, wr)
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				lhs(e, wr)
				if x, ok := e.(*ast.Ident); ok && isVar(x) && n.Tok == token.ASSIGN {
					continue
				}
				if x, ok := e.(*ast.SelectorExpr); ok && field(x) != "" && n.Tok == token.ASSIGN {
					continue
				}
				touched(e, rd, wr)
			}
			for _, e := range n.Rhs {
				touched(e, rd, wr)
			}
			return false
		case *ast.Ident:
			if isVar(n) {
				rd[n.Name] = true
			}
		}
		return true
	})
}

var seconds = map[ast.Expr]bool{}

// second reports what the second operand of && or || reads when it is evaluated.
func second(n *ast.BinaryExpr) {
	if seconds[n] {
		return
	}
	seconds[n] = true
	rd, wr := map[string]bool{}, map[string]bool{}
	touched(n.Y, rd, wr)
	if len(rd) == 0 {
		return
	}
	y := &ast.BinaryExpr{Op: token.LAND, Y: n.Y}
	y.X = &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(pk), Sel: id("Noted")}, Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: notes("Rd", rd)}}}}
	if b, ok := info.Types[n.Y].Type.(*types.Named); ok {
		y.X = &ast.CallExpr{Fun: id(b.Obj().Name()), Args: []ast.Expr{y.X}}
	}
	seconds[y] = true
	n.Y = &ast.ParenExpr{X: y}
}

// field gives "x.f" for a field of the struct that a local pointer x points to; x has to
// be declared before the statement at hand.
func field(e *ast.SelectorExpr) string {
	x, ok := e.X.(*ast.Ident)
	if !fields || !ok {
		return ""
	}
	v, ok := info.Uses[x].(*types.Var)
	if !ok || v.Parent() == pkg.Scope() || v.Pos() >= here {
		return ""
	}
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
		return ""
	}
	if f, ok := info.Uses[e.Sel].(*types.Var); !ok || !f.IsField() || f.Pkg() != pkg {
		return ""
	}
	return x.Name + "." + e.Sel.Name
}

var here token.Pos

func lhs(e ast.Expr, wr map[string]bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		lhs(e.X, wr)
	case *ast.Ident:
		if isVar(e) {
			wr[e.Name] = true
		}
	case *ast.SelectorExpr:
		if k := field(e); k != "" {
			wr[k] = true
		}
	case *ast.IndexExpr:
		if x, ok := e.X.(*ast.SelectorExpr); ok && field(x) != "" {
			if _, ok := info.Types[x].Type.Underlying().(*types.Map); ok {
				wr[field(x)] = true
			}
		}
		if x, ok := e.X.(*ast.Ident); ok && isVar(x) {
			if _, ok := info.Uses[x].Type().Underlying().(*types.Map); ok {
				wr[x.Name] = true
			}
		}
	}
}

func notes(fn string, m map[string]bool) (out []ast.Stmt) {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if i := strings.Index(n, "."); i >= 0 { // the pointer may be nil: look at it in a function
			ret := &ast.ReturnStmt{Results: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: &ast.SelectorExpr{X: id(n[:i]), Sel: id(n[i+1:])}}}}
			ft := &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.InterfaceType{Methods: &ast.FieldList{}}}}}}
			out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(pk), Sel: id(fn + "F")}, Args: []ast.Expr{&ast.FuncLit{Type: ft, Body: &ast.BlockStmt{List: []ast.Stmt{ret}}}}}})
			continue
		}
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(pk), Sel: id(fn)}, Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: id(n)}}}})
	}
	return
}

// headOf returns the parts of a statement evaluated before its blocks.
func headOf(s ast.Stmt) (ns []ast.Node) {
	add := func(n ast.Node, ok bool) {
		if ok {
			ns = append(ns, n)
		}
	}
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt:
	case *ast.IfStmt:
		add(s.Init, s.Init != nil)
		add(s.Cond, true)
	case *ast.ForStmt:
		add(s.Init, s.Init != nil)
		add(s.Cond, s.Cond != nil)
	case *ast.RangeStmt:
		add(s.X, true)
	case *ast.SwitchStmt:
		add(s.Init, s.Init != nil)
		add(s.Tag, s.Tag != nil)
	case *ast.TypeSwitchStmt:
		add(s.Assign, true)
	default:
		add(s, true)
	}
	return
}

func fatal(a ...interface{}) { fmt.Fprintln(os.Stderr, a...); os.Exit(1) }

func id(n string) *ast.Ident { return &ast.Ident{Name: n} }
func call(fn string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(pk), Sel: id(fn)}}}
}

func rewrite(f *ast.File) {
	names := map[string]string{} // local name -> path
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := filepath.Base(path)
			if is.Name != nil {
				name = is.Name.Name
			}
			imports[name] = true
			switch path {
			case "sync":
				is.Path.Value = `"gxv/sched/sync"`
			case "sync/atomic":
				is.Path.Value = `"gxv/sched/atomic"`
			case "time", "runtime":
				names[name] = path
			}
		}
	}
	// time.Sleep, runtime.Gosched
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := se.X.(*ast.Ident); ok && x.Obj == nil {
				switch names[x.Name] + "." + se.Sel.Name {
				case "time.Sleep":
					used[x.Name+".Sleep"] = true
					x.Name, se.Sel.Name = pk, "Sleep"
				case "runtime.Gosched":
					used[x.Name+".Gosched"] = true
					x.Name, se.Sel.Name = pk, "Yield"
				}
			}
		}
		return true
	})
	if level > 0 {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
				block(fd.Body)
			}
		}
	}
	if track {
		initExprs(f)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				fd.Name = id(fmt.Sprintf("gxvInit%d_", nInit))
				late = append(late, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id(fd.Name.Name)}}}}})
				nInit++
			}
		}
		f.Decls = append(f.Decls, late...)
		late = nil
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(pk), Path: &ast.BasicLit{Kind: token.STRING, Value: `"gxv/sched"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(pk), Sel: id("Point")}}}}})
	for u := range used {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{id(u)}}}})
	}
}

func block(b *ast.BlockStmt) {
	if b != nil {
		b.List = stmts(b.List)
	}
}

func stmts(l []ast.Stmt) (out []ast.Stmt) {
	for _, s := range l {
		rd, wr := map[string]bool{}, map[string]bool{}
		if track {
			here = s.Pos()
			for _, n := range headOf(s) {
				touched(n, rd, wr)
			}
		}
		if header(s) {
			out = append(out, call("Point"))
		}
		out = append(out, notes("Rd", rd)...)
		out = append(out, notes("Wr", wr)...)
		out = append(out, stmt(s)...)
	}
	return
}

// header tells whether a statement, without its nested blocks, touches memory that
// other threads may see; calls have their own points inside.
func header(s ast.Stmt) bool {
	some := func(ns ...ast.Node) bool {
		for _, n := range ns {
			if access(n) {
				return true
			}
		}
		return false
	}
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt:
		return true
	case *ast.IfStmt:
		return s.Init != nil && some(s.Init) || some(s.Cond)
	case *ast.ForStmt:
		return s.Init != nil && some(s.Init) || s.Cond != nil && some(s.Cond) || s.Post != nil && some(s.Post)
	case *ast.RangeStmt:
		return some(s.X)
	case *ast.SwitchStmt:
		if s.Init != nil && some(s.Init) || s.Tag != nil && some(s.Tag) {
			return true
		}
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if some(e) {
					return true
				}
			}
		}
		return false
	case *ast.TypeSwitchStmt:
		return true
	}
	return access(s)
}

func access(n ast.Node) (r bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		if r {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if se, ok := n.X.(*ast.SelectorExpr); ok {
					if _, ok := se.X.(*ast.Ident); ok {
						return false // address of a field
					}
				}
			}
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if x, ok := se.X.(*ast.SelectorExpr); ok {
					if _, ok := x.X.(*ast.Ident); !ok {
						r = r || access(se.X)
					}
				} else if _, ok := se.X.(*ast.Ident); !ok {
					r = r || access(se.X)
				}
				for _, a := range n.Args {
					r = r || access(a)
				}
				return false
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && x.Obj == nil && !globals[x.Name] && imports[x.Name] {
				return false
			}
			r = true
		case *ast.IndexExpr, *ast.StarExpr:
			r = true
		case *ast.Ident:
			if globals[n.Name] && shared(n) {
				r = true
			}
		}
		return !r
	})
	return
}

// lits rewrites function literals inside an expression or simple statement.
func lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			block(fl.Body)
			return false
		}
		return true
	})
}

func shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return shared(e.X)
	case *ast.Ident:
		return globals[e.Name] && (e.Obj == nil || e.Obj.Kind != ast.Var || isGlobal(e))
	}
	return false
}

func isGlobal(e *ast.Ident) bool {
	vs, ok := e.Obj.Decl.(*ast.ValueSpec)
	_ = vs
	return ok
}

func reads(e ast.Expr) (r bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr:
			r = true
		}
		return !r
	})
	return
}

func pure(e ast.Expr) (r bool) {
	r = true
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = false
		}
		return r
	})
	return
}

func stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		block(s)
	case *ast.IfStmt:
		lits(s.Cond)
		if s.Init != nil {
			lits(s.Init)
		}
		block(s.Body)
		if s.Else != nil {
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				block(e)
			default:
				stmt(e)
			}
		}
	case *ast.ForStmt:
		if s.Cond != nil {
			lits(s.Cond)
		}
		block(s.Body)
		if s.Cond != nil && access(s.Cond) {
			pre := []ast.Stmt{call("Point")}
			if track {
				rd, wr := map[string]bool{}, map[string]bool{}
				here = s.Body.Pos()
				touched(s.Cond, rd, wr)
				pre = append(pre, notes("Rd", rd)...)
			}
			s.Body.List = append(pre, s.Body.List...)
		}
	case *ast.RangeStmt:
		lits(s.X)
		block(s.Body)
	case *ast.SwitchStmt:
		for _, c := range s.Body.List {
			c.(*ast.CaseClause).Body = stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			c.(*ast.CaseClause).Body = stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			c.(*ast.CommClause).Body = stmts(c.(*ast.CommClause).Body)
		}
	case *ast.LabeledStmt:
		r := stmt(s.Stmt)
		if len(r) == 1 {
			s.Stmt = r[0]
		} else {
			s.Stmt = &ast.BlockStmt{List: r}
		}
	case *ast.IncDecStmt:
		if level > 1 && shared(s.X) && pure(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return split(s.X, &ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})
		}
		if shared(s.X) {
			return []ast.Stmt{s, call("Changed")}
		}
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			lits(e)
		}
		if s.Tok == token.DEFINE {
			break
		}
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && shared(s.Lhs[0]) {
			if level > 1 && pure(s.Lhs[0]) {
				if op, ok := ops[s.Tok]; ok && op != token.SHL && op != token.SHR {
					return split(s.Lhs[0], &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}})
				}
				if s.Tok == token.ASSIGN && reads(s.Rhs[0]) {
					return split(s.Lhs[0], s.Rhs[0])
				}
			}
			return []ast.Stmt{s, call("Changed")}
		}
		for _, e := range s.Lhs {
			if shared(e) {
				return []ast.Stmt{s, call("Changed")}
			}
		}
	default:
		lits(s)
	}
	return []ast.Stmt{s}
}

var ops = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func split(lhs, rhs ast.Expr) []ast.Stmt {
	nTmp++
	v := id(fmt.Sprintf("gxvt%d_", nTmp))
	return []ast.Stmt{
		&ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
			call("Point"),
			&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
			call("Changed"),
		}},
	}
}
