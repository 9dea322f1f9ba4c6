// mut lists mutants of Go files: one JSON per line {file,start,end,text,desc,line}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string
	Line       int
	Start, End int
	Text, Desc string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, _ := os.ReadFile(fn)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, text, desc string) {
			enc.Encode(M{fn, fs.Position(a).Line, off(a), off(b), text, desc})
		}
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		bin := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"},
			token.LEQ: {"<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LAND: {"||"}, token.LOR: {"&&"},
		}
		delStmt := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
					emit(s.Pos(), s.End(), "", "delete: "+str(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete: "+str(s))
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(s.Pos(), s.End(), "", "delete if: "+str(x.Cond))
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "continue", "break->continue")
						emit(s.Pos(), s.End(), "", "delete break")
					} else if x.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "continue->break")
						emit(s.Pos(), s.End(), "", "delete continue")
					}
				case *ast.ReturnStmt:
					if i < len(list)-1 {
						continue
					}
					if len(x.Results) == 0 {
						emit(s.Pos(), s.End(), "", "delete return")
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range bin[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" -> "+r+" in "+str(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), str(x.X), "drop right of "+str(x))
					emit(x.Pos(), x.End(), str(x.Y), "drop left of "+str(x))
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+str(x.Cond)+")", "negate "+str(x.Cond))
			case *ast.BlockStmt:
				delStmt(x.List)
			case *ast.CaseClause:
				delStmt(x.Body)
				if len(x.List) > 0 {
					for i, e := range x.List {
						if len(x.List) > 1 {
							a, b := e.Pos(), e.End()
							if i > 0 {
								a = x.List[i-1].End()
							} else {
								b = x.List[1].Pos()
							}
							emit(a, b, "", "drop case "+str(e))
						}
					}
				}
			case *ast.CommClause:
				delStmt(x.Body)
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							emit(r.Pos(), r.End(), "nil", "return nil for err")
						case "true":
							emit(r.Pos(), r.End(), "false", "return false")
						case "false":
							emit(r.Pos(), r.End(), "true", "return true")
						}
					}
				}
			case *ast.KeyValueExpr:
				// drop a field of a composite literal
				e := off(x.End())
				if e < len(src) && src[e] == ',' {
					emit(x.Pos(), x.End()+1, "", "drop field "+str(x))
				} else {
					emit(x.Pos(), x.End(), "", "drop field "+str(x))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1 "+x.Value)
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1 "+x.Value)
						}
					}
				case token.STRING:
					v, err := strconv.Unquote(x.Value)
					if err == nil && len(v) > 0 {
						emit(x.Pos(), x.End(), `""`, "empty string for "+x.Value)
						if len(v) > 1 && x.Value[0] == '"' {
							emit(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "cut "+x.Value)
						}
						if x.Value[0] == '`' {
							for i := 0; i < len(v); i++ {
								emit(x.Pos(), x.End(), "`"+v[:i]+v[i+1:]+"`", fmt.Sprintf("raw without byte %d: %s", i, v[i:]))
							}
						}
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), "'\\x01'", "char "+x.Value)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), str(x.X), "drop ! of "+str(x))
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), str(x.Low)+"+1", "low+1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), str(x.High)+"-1", "high-1")
				}
			}
			return true
		})
	}
}
