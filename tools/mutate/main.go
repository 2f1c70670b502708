// Command mutate lists the mutants of Go files, or writes one. Development tool; no check
// uses it.
//
//	mutate FILE...            one line per mutant: FILE OFFSET LENGTH LINE REPLACEMENT(JSON) WHAT
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"},
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, repl, what string) {
			r, _ := json.Marshal(repl)
			w, _ := json.Marshal(what)
			fmt.Printf("{\"file\":%q,\"off\":%d,\"len\":%d,\"line\":%d,\"repl\":%s,\"what\":%s}\n", f, off(a), off(b)-off(a), fset.Position(a).Line, r, w)
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		clip := func(s string) string {
			if len(s) > 60 {
				s = s[:60]
			}
			return s
		}
		var inFunc func(n ast.Node) bool
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch v := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete: "+clip(text(s)))
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete: "+clip(text(s)))
					}
				case *ast.IfStmt:
					if v.Init == nil {
						emit(s.Pos(), s.End(), "", "delete: "+clip(text(s)))
					}
				case *ast.ReturnStmt:
					if i < len(l)-1 || true {
						for k, e := range v.Results {
							if t := text(e); t == "err" {
								emit(e.Pos(), e.End(), "nil", fmt.Sprintf("result %d nil: %s", k, clip(text(s))))
							}
						}
					}
				}
				// a lock released earlier, a statement moved behind the next
				if i+1 < len(l) {
					_, d1 := s.(*ast.DeclStmt)
					_, r1 := s.(*ast.ReturnStmt)
					_, r2 := l[i+1].(*ast.ReturnStmt)
					if !d1 && !r1 && !r2 {
						a, b := s, l[i+1]
						emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap: "+clip(text(a)))
					}
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					emit(s.Pos(), s.End(), text(d.Call), "not deferred: "+clip(text(s)))
				}
			}
		}
		inFunc = func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt:
				stmts(v.List)
			case *ast.CaseClause:
				stmts(v.Body)
				if len(v.List) > 0 {
					emit(v.Pos(), v.End(), "", "delete case "+clip(text(v.List[0])))
				}
			case *ast.CommClause:
				stmts(v.Body)
			case *ast.BinaryExpr:
				for _, s := range swaps[v.Op] {
					emit(v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), s, clip(text(v))+" -> "+s)
				}
			case *ast.IfStmt:
				emit(v.Cond.Pos(), v.Cond.End(), "true || "+text(v.Cond), "if true: "+clip(text(v.Cond)))
				emit(v.Cond.Pos(), v.Cond.End(), "false && "+text(v.Cond), "if false: "+clip(text(v.Cond)))
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					emit(v.Pos(), v.X.Pos(), "", "no !: "+clip(text(v)))
				}
			case *ast.Ident:
				if v.Name == "true" {
					emit(v.Pos(), v.End(), "false", "true -> false")
				} else if v.Name == "false" {
					emit(v.Pos(), v.End(), "true", "false -> true")
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if x, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
						emit(v.Pos(), v.End(), fmt.Sprint(x+1), v.Value+" + 1")
						emit(v.Pos(), v.End(), fmt.Sprint(x-1), v.Value+" - 1")
						if x > 4 {
							emit(v.Pos(), v.End(), fmt.Sprint(x*2), v.Value+" * 2")
							emit(v.Pos(), v.End(), fmt.Sprint(x/2), v.Value+" / 2")
						}
					}
				}
			case *ast.SelectorExpr:
				for _, p := range [][2]string{{"RLock", "Lock"}, {"Lock", "RLock"}, {"RUnlock", "Unlock"}, {"Unlock", "RUnlock"}} {
					if v.Sel.Name == p[0] {
						emit(v.Sel.Pos(), v.Sel.End(), p[1], text(v)+" -> "+p[1])
					}
				}
			}
			return true
		}
		for _, d := range af.Decls {
			switch g := d.(type) {
			case *ast.FuncDecl:
				if g.Body != nil {
					ast.Inspect(g.Body, inFunc)
				}
			case *ast.GenDecl:
				if g.Tok == token.VAR || g.Tok == token.CONST {
					ast.Inspect(g, inFunc)
				}
			}
		}
	}
}
