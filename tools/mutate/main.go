// mutgen FILE: prints mutants as JSON lines {"off":..,"end":..,"new":..,"what":..}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type M struct {
	Off, End int
	New, What string
	Line int
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil { panic(err) }
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(a, b token.Pos, n, what string) {
		enc.Encode(M{off(a), off(b), n, what, fs.Position(a).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
	}
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete "+txt(s))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "", "delete "+txt(s))
				}
			case *ast.GoStmt:
				emit(s.Pos(), s.Call.Pos(), "", "not in a goroutine")
			case *ast.IfStmt:
				if s.Else == nil { emit(s.Pos(), s.End(), "", "delete if "+txt(s.Cond)) }
			case *ast.ReturnStmt:
				if len(s.Results) == 0 && i < len(l) { emit(s.Pos(), s.End(), "", "delete return") }
			}
			if i+1 < len(l) {
				a, b := s, l[i+1]
				_, r1 := b.(*ast.ReturnStmt)
				d1, ok1 := a.(*ast.AssignStmt)
				if !r1 && !(ok1 && d1.Tok == token.DEFINE) {
					emit(a.Pos(), b.End(), txt(b)+"\n"+txt(a), "swap "+txt(a)+" / "+txt(b))
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT { return false }
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o+" in "+txt(n))
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit(n.Pos(), n.End(), txt(n.X), "only "+txt(n.X))
				emit(n.Pos(), n.End(), txt(n.Y), "only "+txt(n.Y))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				emit(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" + 1")
				if n.Value != "0" { emit(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+" - 1") }
			}
		case *ast.Ident:
			if n.Name == "true" { emit(n.Pos(), n.End(), "false", "true -> false") }
			if n.Name == "false" { emit(n.Pos(), n.End(), "true", "false -> true") }
		case *ast.IfStmt:
			emit(n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")", "negate "+txt(n.Cond))
			if n.Else != nil { emit(n.Body.End(), n.Else.End(), "", "delete else") }
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
					emit(r.Pos(), r.End(), "*new(T_"+id.Name+")", "")
				}
			}
		case *ast.CallExpr:
			// arguments exchanged
			for i := 0; i+1 < len(n.Args); i++ {
				emit(n.Args[i].Pos(), n.Args[i+1].End(), txt(n.Args[i+1])+", "+txt(n.Args[i]), "exchange arguments of "+txt(n))
			}
		case *ast.IncDecStmt:
			o := "--"
			if n.Tok == token.DEC { o = "++" }
			emit(n.TokPos, n.TokPos+2, o, "inc/dec "+txt(n))
		case *ast.SliceExpr:
			if n.Low != nil { emit(n.Low.Pos(), n.Low.End(), "("+txt(n.Low)+")+1", "low bound +1 in "+txt(n)) }
			if n.High != nil { emit(n.High.Pos(), n.High.End(), "("+txt(n.High)+")-1", "high bound -1 in "+txt(n)) }
		}
		return true
	})
	_ = fmt.Sprint
}
