// Command rewrite turns the packages of a copy of the repository into the same packages
// under control of package vrt: sync, sync/atomic and time are replaced by their
// controlled versions, goroutines, channel operations and select by calls into vrt, and
// a function that re-initialises all package-level state is added. Nothing else changes.
//
//	rewrite [-main] DIR
//
// rewrites DIR in place (with -main, the program itself too) and prints the import paths of the rewritten packages, in
// dependency order.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"verif/rewrite/astutil"
)

const (
	vrtPath = "github.com/ti-mo/comfo/zzverif/vrt"
	vrtName = "zzvrt"
	ctxPath = "github.com/ti-mo/comfo/zzverif/vcontext"
	ctxName = "zzctx"
)

var shims = map[string]string{
	"sync":        "github.com/ti-mo/comfo/zzverif/vsync",
	"time":        "github.com/ti-mo/comfo/zzverif/vtime",
	"sync/atomic": "github.com/ti-mo/comfo/zzverif/vatomic",
	"context":     "github.com/ti-mo/comfo/zzverif/vcontext",
}

// replaced are single functions with a controlled version, used what keeps the import of
// their package in use.
var (
	replaced = map[string]string{"runtime.Gosched": "Gosched", "maps.Keys": "MapKeys", "maps.Values": "MapValues", "maps.All": "MapAll"}
	used     = map[string]string{"runtime": "GOOS", "maps": "Clone[map[int]int]"}
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	withMain := len(os.Args) == 3 && os.Args[1] == "-main"
	if len(os.Args) != 2 && !withMain {
		fatal("usage: rewrite [-main] DIR")
	}
	dir := os.Args[len(os.Args)-1]
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Export,Standard,Module", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*pkgInfo
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, &p)
	}
	target := map[string]bool{}
	var order []*pkgInfo
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main || p.Name == "main" && (!withMain || p.Module.Path != p.ImportPath) ||
			strings.Contains(p.ImportPath, "/rpc/") || strings.Contains(p.ImportPath, "/zzverif") {
			continue
		}
		target[p.ImportPath] = true
		order = append(order, p)
	}
	for _, p := range order {
		rewritePkg(p, exports, target)
		fmt.Println(p.ImportPath)
	}
}

type rw struct {
	fset   *token.FileSet
	info   *types.Info
	target map[string]bool
	need   bool              // file needs the vrt import
	ctx    bool              // file needs the vcontext import
	iter   bool              // file ranges over functions
	kept   map[string]string // packages of replaced functions and their names in the file
	tmp    int
}

func rewritePkg(p *pkgInfo, exports map[string]string, target map[string]bool) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},

		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal("%v", err)
	}

	r := &rw{fset: fset, info: info, target: target}

	var inits []string
	needs, iters := make([]bool, len(files)), make([]bool, len(files))
	for i, f := range files {
		r.need, r.ctx, r.iter = false, false, false
		r.kept = map[string]string{}
		r.file(f)
		for _, path := range slices.Sorted(maps.Keys(r.kept)) {
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
				Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel(r.kept[path], used[path])}}}})
		}
		if r.ctx {
			addImport(f, ctxName, ctxPath)
		}
		// func init() -> a named function that the reset can call again
		var extra []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			name := fmt.Sprintf("zzInit%d", len(inits))
			inits = append(inits, name)
			fd.Name = ast.NewIdent(name)
			extra = append(extra, &ast.FuncDecl{
				Name: ast.NewIdent("init"),
				Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}}},
			})
		}
		f.Decls = append(f.Decls, extra...)
		needs[i], iters[i] = r.need, r.iter
	}

	// Reset of package-level variables. Initialisers are emitted as a function in the
	// file of the variable, so that they see that file's imports.
	initOf := map[*types.Var]*types.Initializer{}
	orderOf := map[*types.Initializer]int{}
	for i, in := range info.InitOrder {
		orderOf[in] = i
		for _, v := range in.Lhs {
			initOf[v] = in
		}
	}
	type step struct {
		order int
		fn    string
	}
	var steps []step
	var zeroFns []string
	cnt := 0
	for fi, f := range files {
		var add []ast.Decl
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				mk := func(body ...ast.Stmt) string {
					name := fmt.Sprintf("zzReset%d", cnt)
					cnt++
					add = append(add, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
					return name
				}
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						needs[fi] = true
						zeroFns = append(zeroFns, mk(&ast.ExprStmt{X: &ast.CallExpr{
							Fun:  sel(vrtName, "Zero"),
							Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)}},
						}}))
					}
					continue
				}
				one := func(names []*ast.Ident, val ast.Expr) {
					all := true
					for _, n := range names {
						if n.Name != "_" {
							all = false
						}
					}
					o := 1 << 30
					for _, n := range names {
						if v, ok := info.Defs[n].(*types.Var); ok {
							if in := initOf[v]; in != nil && orderOf[in] < o {
								o = orderOf[in]
							}
						}
					}
					if all {
						return
					}
					var lhs []ast.Expr
					for _, n := range names {
						lhs = append(lhs, ast.NewIdent(n.Name))
					}
					steps = append(steps, step{o, mk(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})})
				}
				if len(vs.Values) == len(vs.Names) {
					for i := range vs.Names {
						one(vs.Names[i:i+1], vs.Values[i])
					}
				} else {
					one(vs.Names, vs.Values[0])
				}
			}
		}
		f.Decls = append(f.Decls, add...)
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].order < steps[j].order })

	for i, f := range files {
		if needs[i] {
			addImport(f, vrtName, vrtPath)
		}
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			fatal("%s: %v", p.GoFiles[i], err)
		}
		if iters[i] && !bytes.Contains(buf.Bytes(), []byte("\n//go:build")) && !bytes.HasPrefix(buf.Bytes(), []byte("//go:build")) {
			// a language version that has iterators
			b := append([]byte("//go:build go1.23\n\n"), buf.Bytes()...)
			buf.Reset()
			buf.Write(b)
		}
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// ZZReset re-initialises all package-level state.\nfunc ZZReset() {\n", p.Name)
	for _, z := range zeroFns {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	for _, s := range steps {
		fmt.Fprintf(&b, "\t%s()\n", s.fn)
	}
	for _, n := range inits {
		if p.Name == "main" {
			break // parses the command line; runs once
		}
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(p.Dir, "zz_verif_reset.go"), b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
}

func sel(x, s string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(s)}
}

func addImport(f *ast.File, name, path string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + path + `"`}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{gd}, f.Decls...)
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool { return chanOf(t) != nil }

// chanOf returns the channel type behind t, which may be a type parameter.
func chanOf(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	if p, ok := types.Unalias(t).(*types.TypeParam); ok {
		it, ok := p.Constraint().Underlying().(*types.Interface)
		if !ok || it.NumEmbeddeds() == 0 {
			return nil
		}
		for i := 0; i < it.NumEmbeddeds(); i++ {
			e := it.EmbeddedType(i)
			if u, ok := e.(*types.Union); ok && u.Len() > 0 {
				e = u.Term(0).Type()
			}
			if c := chanOf(e); c != nil {
				return c
			}
		}
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

// plain returns x, of a channel type of its own, as a plain channel: one with methods.
func (r *rw) plain(x ast.Expr) ast.Expr {
	t := r.typeOf(x)
	if t == nil || !isChan(t) {
		return x
	}
	if _, ok := types.Unalias(t).(*types.Chan); ok {
		return x
	}
	r.need = true
	return &ast.CallExpr{Fun: sel(vrtName, "Plain"), Args: []ast.Expr{x}}
}

func (r *rw) method(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.ParenExpr{X: x}, Sel: ast.NewIdent(m)}, Args: args}
}

func (r *rw) builtin(c *ast.CallExpr) string {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// foreign reports whether e yields a channel owned by code that is not rewritten.
func (r *rw) foreign(e ast.Expr) bool {
	if !isChan(r.typeOf(e)) {
		return false
	}
	var o types.Object
	switch v := e.(type) {
	case *ast.CallExpr:
		switch f := ast.Unparen(v.Fun).(type) {
		case *ast.Ident:
			o = r.info.Uses[f]
		case *ast.SelectorExpr:
			o = r.info.Uses[f.Sel]
		}
		if _, ok := o.(*types.Func); !ok {
			return false
		}
	case *ast.SelectorExpr:
		o = r.info.Uses[v.Sel]
		if _, ok := o.(*types.Var); !ok {
			return false
		}
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	p := o.Pkg().Path()
	return !r.target[p] && shims[p] == ""
}

// ctxDone returns x if the call is x.Done() of a context.
func (r *rw) ctxDone(n *ast.CallExpr) ast.Expr {
	s, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr)
	if !ok || s.Sel.Name != "Done" || len(n.Args) != 0 {
		return nil
	}
	if f, ok := r.info.Uses[s.Sel].(*types.Func); !ok || f.Pkg() == nil || f.Pkg().Path() != "context" {
		return nil
	}
	if nt, ok := types.Unalias(r.typeOf(s.X)).(*types.Named); !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != "context" {
		return nil
	}
	return s.X
}

func (r *rw) file(f *ast.File) {
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		if s, ok := shims[path]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
			}
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: `"` + s + `"`}
		}
	}
	// Selects are rewritten on the way down (their communication clauses must not be
	// touched by the other rules); everything else on the way up.
	r.steps(f)
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		if p, ok := c.Node().(*ast.ParenExpr); ok {
			if u, ok := p.X.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				c.Replace(u) // becomes a call
			}
		}
		return true
	})
	comm := map[ast.Node]bool{}
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		if cc, ok := c.Node().(*ast.CommClause); ok && cc.Comm != nil {
			comm[cc.Comm] = true
			switch s := cc.Comm.(type) {
			case *ast.ExprStmt:
				comm[ast.Unparen(s.X)] = true
			case *ast.AssignStmt:
				comm[ast.Unparen(s.Rhs[0])] = true
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		old, isExpr := c.Node().(ast.Expr)
		r.node(c, comm)
		if now, ok := c.Node().(ast.Expr); ok && isExpr && now != old {
			if tv, ok := r.info.Types[old]; ok {
				r.info.Types[now] = tv
			}
		}
		return true
	})
}

// steps puts a call of vrt.Step before every statement that reads or writes memory which
// other goroutines might use, and after every such read in a composite literal. These are
// scheduling points for the scenarios that ask for them.
func (r *rw) steps(f *ast.File) {
	shared := func(n ast.Node, fn ast.Node) bool {
		found := false
		ast.Inspect(n, func(m ast.Node) bool {
			if found {
				return false
			}
			switch v := m.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				// has statements of its own; captured variables count nevertheless
				return false
			case *ast.StarExpr:
				if tv, ok := r.info.Types[v]; ok && tv.IsValue() {
					found = true
				}
			case *ast.SelectorExpr:
				if s, ok := r.info.Selections[v]; ok && s.Kind() == types.FieldVal && (s.Indirect() || isPtr(r.typeOf(v.X))) {
					found = true
				}
			case *ast.IndexExpr:
				switch t := r.typeOf(v.X); {
				case t == nil:
				default:
					switch u := t.Underlying().(type) {
					case *types.Map, *types.Pointer:
						found = true
					case *types.Slice:
						if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
							found = true
						}
					}
				}
			case *ast.Ident:
				o, ok := r.info.Uses[v].(*types.Var)
				if !ok || o.IsField() {
					break
				}
				if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
					found = true
				} else if fn != nil && (o.Pos() < fn.Pos() || o.Pos() > fn.End()) {
					found = true // captured
				}
			}
			return true
		})
		return found
	}
	step := func() ast.Stmt {
		r.need = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel(vrtName, "Step")}}
	}
	var fns []ast.Node
	list := func(in []ast.Stmt) []ast.Stmt {
		var fn ast.Node
		if len(fns) > 0 {
			fn = fns[len(fns)-1]
		}
		var out []ast.Stmt
		for _, s := range in {
			if _, ok := s.(*ast.EmptyStmt); !ok && !r.syncCall(s) && shared(s, fn) {
				out = append(out, step())
			}
			out = append(out, s)
		}
		return out
	}
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			fns = append(fns, n)
		}
		return true
	}, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			fns = fns[:len(fns)-1]
		case *ast.BlockStmt:
			switch c.Parent().(type) {
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return true
			}
			n.List = list(n.List)
		case *ast.CaseClause:
			n.Body = list(n.Body)
		case *ast.CommClause:
			n.Body = list(n.Body)
		case *ast.AssignStmt:
			// a struct is written in two steps
			if n.Tok != token.ASSIGN || len(n.Lhs) != 1 || len(n.Rhs) != 1 || len(fns) == 0 {
				return true
			}
			if _, ok := c.Parent().(*ast.BlockStmt); !ok || c.Index() < 0 {
				return true
			}
			if ix, ok := ast.Unparen(n.Lhs[0]).(*ast.IndexExpr); ok && r.typeOf(ix.X) != nil {
				if _, ok := r.typeOf(ix.X).Underlying().(*types.Map); ok {
					return true
				}
			}
			lt, rt := r.typeOf(n.Lhs[0]), r.typeOf(n.Rhs[0])
			if lt == nil || rt == nil || !types.Identical(lt, rt) || !shared(n.Lhs[0], fns[len(fns)-1]) {
				return true
			}
			if st, ok := lt.Underlying().(*types.Struct); ok && st.NumFields() > 1 {
				r.need = true
				c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: sel(vrtName, "Assign"), Args: []ast.Expr{
					&ast.UnaryExpr{Op: token.AND, X: n.Lhs[0]}, n.Rhs[0]}}})
			}
		case *ast.CompositeLit:
			for i, e := range n.Elts {
				v := &n.Elts[i]
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					v = &kv.Value
				}
				tv, ok := r.info.Types[*v]
				if !ok || !tv.IsValue() || tv.Value != nil || tv.IsNil() || isUntyped(tv.Type) || len(fns) == 0 {
					continue
				}
				switch (*v).(type) {
				case *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr:
					if !isChan(tv.Type) && shared(*v, nil) {
						r.need = true
						*v = &ast.CallExpr{Fun: sel(vrtName, "Read"), Args: []ast.Expr{*v}}
					}
				}
			}
		}
		return true
	})
}

// syncCall reports whether s only calls a method of package sync, a scheduling point in
// its own right.
func (r *rw) syncCall(s ast.Stmt) bool {
	var call *ast.CallExpr
	switch v := s.(type) {
	case *ast.ExprStmt:
		call, _ = v.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		call = v.Call
	}
	if call == nil || len(call.Args) > 0 {
		return false
	}
	f, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o, ok := r.info.Uses[f.Sel].(*types.Func)
	return ok && o.Pkg() != nil && o.Pkg().Path() == "sync"
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (r *rw) node(c *astutil.Cursor, comm map[ast.Node]bool) {
	switch n := c.Node().(type) {
	case *ast.ChanType:
		r.need = true
		c.Replace(&ast.StarExpr{X: &ast.IndexExpr{X: sel(vrtName, "Chan"), Index: n.Value}})

	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !comm[n] {
			// two-valued receives are handled by their statement; mark them
			switch p := c.Parent().(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					c.Replace(r.method(r.plain(n.X), "Recv2"))
					return
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					c.Replace(r.method(r.plain(n.X), "Recv2"))
					return
				}
			}
			c.Replace(r.method(r.plain(n.X), "Recv"))
		}

	case *ast.SendStmt:
		if !comm[n] {
			c.Replace(&ast.ExprStmt{X: r.method(r.plain(n.Chan), "Send", n.Value)})
		}

	case *ast.CallExpr:
		switch r.builtin(n) {
		case "make":
			if len(n.Args) > 0 {
				// the ChanType argument has already become *zzvrt.Chan[T]
				if st, ok := n.Args[0].(*ast.StarExpr); ok {
					if ix, ok := st.X.(*ast.IndexExpr); ok && isVrtChan(ix.X) {
						r.need = true
						n.Fun = &ast.IndexExpr{X: sel(vrtName, "MakeChan"), Index: ix.Index}
						args := []ast.Expr{}
						for _, a := range n.Args[1:] {
							args = append(args, &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{a}})
						}
						n.Args = args
						return
					}
				}
				if isChan(r.typeOf(n.Args[0])) {
					// make(T, n) of a type of its own
					r.need = true
					n.Fun = &ast.IndexExpr{X: sel(vrtName, "MakeOf"), Index: n.Args[0]}
					n.Args = n.Args[1:]
					for i, a := range n.Args {
						n.Args[i] = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{a}}
					}
				}
			}
			return
		case "close":
			n.Fun = &ast.SelectorExpr{X: &ast.ParenExpr{X: r.plain(n.Args[0])}, Sel: ast.NewIdent("Close")}
			n.Args = nil
			return
		case "len", "cap":
			if isChan(r.typeOf(n.Args[0])) {
				m := "Len"
				if r.builtin(n) == "cap" {
					m = "Cap"
				}
				n.Fun = &ast.SelectorExpr{X: &ast.ParenExpr{X: r.plain(n.Args[0])}, Sel: ast.NewIdent(m)}
				n.Args = nil
			}
			return
		}
		if s, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
			if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil {
				if to := replaced[f.Pkg().Path()+"."+f.Name()]; to != "" {
					if id, ok := s.X.(*ast.Ident); ok {
						r.need = true
						r.kept[f.Pkg().Path()] = id.Name
						n.Fun = sel(vrtName, to)
						return
					}
				}
			}
		}
		if x := r.ctxDone(n); x != nil {
			r.ctx = true
			c.Replace(&ast.CallExpr{Fun: sel(ctxName, "Done"), Args: []ast.Expr{x}})
			return
		}
		if r.foreign(n) {
			r.need = true
			c.Replace(&ast.CallExpr{Fun: sel(vrtName, "Native"), Args: []ast.Expr{n}})
		}

	case *ast.SelectorExpr:
		if r.foreign(n) {
			if _, isCall := c.Parent().(*ast.CallExpr); isCall && c.Name() == "Fun" {
				return
			}
			r.need = true
			c.Replace(&ast.CallExpr{Fun: sel(vrtName, "Native"), Args: []ast.Expr{n}})
		}

	case *ast.RangeStmt:
		if t := r.typeOf(n.X); t != nil {
			if _, ok := t.Underlying().(*types.Map); ok {
				r.need, r.iter = true, true
				n.X = &ast.CallExpr{Fun: sel(vrtName, "MapRange"), Args: []ast.Expr{n.X}}
				return
			}
		}
		if isChan(r.typeOf(n.X)) {
			r.need = true
			ok := r.name()
			if n.Tok == token.ASSIGN && n.Key != nil {
				call := r.method(r.plain(n.X), "RecvInto", &ast.UnaryExpr{Op: token.AND, X: n.Key})
				c.Replace(&ast.ForStmt{
					Init: &ast.AssignStmt{Lhs: []ast.Expr{ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}},
					Cond: ok,
					Post: &ast.AssignStmt{Lhs: []ast.Expr{ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call}},
					Body: n.Body,
				})
				return
			}
			var v ast.Expr = ast.NewIdent("_")
			if n.Key != nil {
				v = n.Key
			}
			body := &ast.BlockStmt{List: append([]ast.Stmt{}, n.Body.List...)}
			if id, isID := v.(*ast.Ident); isID && id.Name != "_" {
				tmp := r.name()
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{tmp}}}, body.List...)
				v = tmp
			}
			recv := r.method(r.plain(n.X), "Recv2")
			c.Replace(&ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}},
				Cond: ok,
				Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv}},
				Body: body,
			})
		}

	case *ast.GoStmt:
		r.goStmt(c, n)

	case *ast.SelectStmt:
		r.selectStmt(c, n)
	}
}

func isVrtChan(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	return ok && id.Name == vrtName && s.Sel.Name == "Chan"
}

func (r *rw) name() *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zzv%d", r.tmp))
}

// goStmt: go f(a, b) -> evaluate f, a, b now, then zzvrt.Go(func() { f(a, b) }).
func (r *rw) goStmt(c *astutil.Cursor, n *ast.GoStmt) {
	r.need = true
	call := n.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv, ok := r.info.Types[e]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return e
		}
		id := r.name()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	fun := call.Fun
	switch f := ast.Unparen(fun).(type) {
	case *ast.FuncLit:
	case *ast.Ident:
		if _, isVar := r.info.Uses[f].(*types.Var); isVar {
			fun = bind(fun)
		}
	default:
		if tv, ok := r.info.Types[fun]; ok && !tv.IsType() && !tv.IsBuiltin() {
			fun = bind(fun)
		}
	}
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		args[i] = bind(a)
	}
	var body []ast.Stmt
	nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	if len(args) == 0 {
		if fl, ok := ast.Unparen(fun).(*ast.FuncLit); ok && fl.Type.Results == nil {
			// go func() { ... }()
			g := &ast.ExprStmt{X: &ast.CallExpr{Fun: sel(vrtName, "Go"), Args: []ast.Expr{fl}}}
			c.Replace(g)
			return
		}
	}
	body = append(body, &ast.ExprStmt{X: nc})
	g := &ast.ExprStmt{X: &ast.CallExpr{Fun: sel(vrtName, "Go"), Args: []ast.Expr{
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}},
	}}}
	if len(pre) == 0 {
		c.Replace(g)
		return
	}
	c.Replace(&ast.BlockStmt{List: append(pre, g)})
}

func (r *rw) selectStmt(c *astutil.Cursor, n *ast.SelectStmt) {
	r.need = true
	if len(n.Body.List) == 0 {
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{
			&ast.CallExpr{Fun: sel(vrtName, "BlockForeverV")}}}})
		return
	}
	var lhs, rhs []ast.Expr
	var clauses []ast.Stmt
	args := []ast.Expr{ast.NewIdent("false")}
	hasDef := false
	idx := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			args[0] = ast.NewIdent("true")
			clauses = append(clauses, &ast.CaseClause{List: nil, Body: cc.Body})
			continue
		}
		v := r.name()
		var body []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			return r.method(r.plain(u.X), "RecvCase")
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, r.method(r.plain(m.Chan), "SendCase", m.Value))
		case *ast.ExprStmt:
			rhs = append(rhs, recv(m.X))
		case *ast.AssignStmt:
			rhs = append(rhs, recv(m.Rhs[0]))
			vals := []ast.Expr{&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")}}
			if len(m.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")})
			}
			body = append(body, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: vals})
		default:
			fatal("unexpected communication clause %T", m)
		}
		lhs = append(lhs, v)
		args = append(args, v)
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}},
			Body: append(body, cc.Body...),
		})
		idx++
	}
	if !hasDef {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
			Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw := &ast.SwitchStmt{
		Tag:  &ast.CallExpr{Fun: sel(vrtName, "Select"), Args: args},
		Body: &ast.BlockStmt{List: clauses},
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	c.Replace(sw)
}
