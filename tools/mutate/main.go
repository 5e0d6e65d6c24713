// mutate lists small changes of Go files as JSON lines: file, start and end
// offset, new text, description.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, New, What  string
	Start, End, Line int
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, neu, what string) {
			out.Encode(mut{file, neu, what, off(a), off(b), fs.Position(a).Line})
		}
		fn := ""
		swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
				if fn == "Debug" || fn == "String" || fn == "init" {
					return false
				}
			case *ast.BinaryExpr:
				if s, ok := swap[x.Op]; ok {
					if x.Op == token.ADD {
						if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							return true
						}
						if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							return true
						}
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fn+": "+text(x)+" with "+s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), fn+": only left of "+text(x))
					emit(x.Pos(), x.End(), text(x.Y), fn+": only right of "+text(x))
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", fn+": negate "+text(x.Cond))
				if x.Else == nil && x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", fn+": never "+text(x.Cond))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), fn+": "+x.Value+"+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), fn+": "+x.Value+"-1")
						}
					}
				}
			case *ast.CallExpr:
				for i, a := range x.Args {
					if l, ok := a.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) > 2 && (l.Value[1] == '-') {
						end := a.End()
						if i+1 < len(x.Args) {
							end = x.Args[i+1].Pos()
						}
						emit(a.Pos(), end, "", fn+": without "+l.Value)
					}
				}
			case *ast.CompositeLit:
				for i, a := range x.Elts {
					if l, ok := a.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) > 2 && (l.Value[1] == '-') {
						end := a.End()
						if i+1 < len(x.Elts) {
							end = x.Elts[i+1].Pos()
						}
						emit(a.Pos(), end, "", fn+": without "+l.Value)
					}
				}
			case *ast.BlockStmt, *ast.CaseClause:
				var l []ast.Stmt
				if b, ok := x.(*ast.BlockStmt); ok {
					l = b.List
				} else {
					l = x.(*ast.CaseClause).Body
				}
				for _, s := range l {
					what := ""
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						what = "delete"
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							what = "delete"
						}
					case *ast.BranchStmt:
						what = "delete"
						if y.Tok == token.CONTINUE && y.Label == nil {
							emit(s.Pos(), s.End(), "break", fn+": break for continue")
						}
						if y.Tok == token.BREAK && y.Label == nil {
							emit(s.Pos(), s.End(), "continue", fn+": continue for break")
						}
					case *ast.ReturnStmt:
						if n := len(y.Results); n > 0 {
							if id, ok := y.Results[n-1].(*ast.Ident); ok && (id.Name == "err" || id.Name == "rerr") {
								emit(id.Pos(), id.End(), "nil", fn+": nil for "+id.Name)
							}
						}
					}
					if what != "" {
						var b bytes.Buffer
						printer.Fprint(&b, fs, s)
						t := b.String()
						if len(t) > 100 {
							t = t[:100]
						}
						neu := ""
						// keep what is used
						if a, ok := s.(*ast.AssignStmt); ok {
							for _, r := range a.Rhs {
								if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
									neu += "_ = " + id.Name + ";"
								}
							}
						}
						emit(s.Pos(), s.End(), neu, fn+": delete "+t)
					}
				}
			}
			return true
		})
	}
}
