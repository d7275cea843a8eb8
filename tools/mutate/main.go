// mutate lists small changes of Go files: one JSON object {file, off, len, new, line, what} a line.
// Development only: tools/mutants.py builds and runs them in scratch copies.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Line int    `json:"line"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, new, what string) {
			o := off(a)
			enc.Encode(mut{f, o, off(b) - o, new, fs.Position(a).Line, what})
		}
		short := func(n ast.Node) string {
			s := strings.Join(strings.Fields(text(n)), " ")
			if len(s) > 90 {
				s = s[:90] + "..."
			}
			return s
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "delete "+short(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						r := ""
						for i := range s.Lhs {
							if i < len(s.Rhs) {
								r += fmt.Sprintf("_ = %s;", text(s.Rhs[i]))
							}
						}
						emit(s.Pos(), s.End(), r, "no assignment "+short(s))
					}
				case *ast.BranchStmt:
					if s.Label == nil && s.Tok != token.FALLTHROUGH {
						emit(s.Pos(), s.End(), "", "delete "+s.Tok.String())
					}
				}
			}
			for i := 0; i+1 < len(list); i++ {
				ok := func(s ast.Stmt) bool {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						return true
					case *ast.AssignStmt:
						return s.Tok != token.DEFINE
					}
					return false
				}
				if ok(list[i]) && ok(list[i+1]) {
					emit(list[i].Pos(), list[i+1].End(), text(list[i+1])+"\n"+text(list[i]), "swap "+short(list[i])+" / "+short(list[i+1]))
				}
			}
		}
		for _, d := range file.Decls {
			fn, is := d.(*ast.FuncDecl)
			if !is || fn.Body == nil {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.AND: {"|"}, token.OR: {"&"}}[n.Op]
					for _, a := range alt {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, short(n)+": "+n.Op.String()+" -> "+a)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), text(n.X), short(n)+": left only")
						emit(n.Pos(), n.End(), text(n.Y), short(n)+": right only")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n.Pos(), n.End(), text(n.X), short(n)+": no !")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						emit(n.Pos(), n.End(), "("+n.Value+"+1)", "literal "+n.Value+"+1")
						if n.Value != "0" {
							emit(n.Pos(), n.End(), "("+n.Value+"-1)", "literal "+n.Value+"-1")
						}
					}
				case *ast.Ident:
					if n.Name == "true" || n.Name == "false" {
						emit(n.Pos(), n.End(), map[string]string{"true": "false", "false": "true"}[n.Name], n.Name+" flipped")
					}
					if n.Name == "nil" {
						break
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "if negated: "+short(n.Cond))
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if never: "+short(n.Cond))
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if always: "+short(n.Cond))
				case *ast.CaseClause:
					if len(n.Body) > 0 {
						emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case "+short(n))
					}
					stmts(n.Body)
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CallExpr:
					for i := 0; i+1 < len(n.Args); i++ {
						a, b := text(n.Args[i]), text(n.Args[i+1])
						if a != b {
							emit(n.Args[i].Pos(), n.Args[i+1].End(), b+", "+a, "swapped arguments "+short(n))
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", "slice low+1 "+short(n))
					}
					if n.High != nil {
						emit(n.High.Pos(), n.High.End(), text(n.High)+"-1", "slice high-1 "+short(n))
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 1 {
						if c, is := n.Results[0].(*ast.CallExpr); is {
							t := text(c)
							if strings.HasPrefix(t, "core.ERROR(") || strings.HasSuffix(strings.SplitN(t, "(", 2)[0], "_ERROR") {
								emit(n.Pos(), n.End(), "return core.OK(core.NIL)", "no error: "+short(n))
							}
						}
					}
				}
				return true
			})
		}
	}
}
