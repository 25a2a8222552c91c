package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File  string
	Start int
	End   int
	New   string
	Op    string
	Line  int
	Func  string
	Old   string
}

func main() {
	var out []edit
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		add := func(s, e token.Pos, nw, op string) {
			out = append(out, edit{f, off(s), off(e), nw, op, fset.Position(s).Line, fn, string(src[off(s):off(e)])})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if gd, ok2 := d.(*ast.GenDecl); ok2 && gd.Tok == token.IMPORT {
				continue
			}
			if ok {
				fn = fd.Name.Name
			} else {
				fn = ""
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate-if")
					if x.Init == nil {
						add(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if-false")
						add(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "if-true")
					} else {
						add(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if-false")
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"/"},
					}[x.Op]
					for _, a := range alt {
						out = append(out, edit{f, off(x.OpPos), off(x.OpPos) + len(x.Op.String()), a, "binop", fset.Position(x.OpPos).Line, fn, x.Op.String()})
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x.Pos(), x.End(), txt(x.X), "left-only")
						add(x.Pos(), x.End(), txt(x.Y), "right-only")
					}
				case *ast.BlockStmt:
					stmts(x.List, add, txt)
				case *ast.CaseClause:
					stmts(x.Body, add, txt)
					if len(x.List) > 1 {
						for i := range x.List {
							if i+1 < len(x.List) {
								add(x.List[i].Pos(), x.List[i+1].Pos(), "", "case-item")
							} else {
								add(x.List[i-1].End(), x.List[i].End(), "", "case-item")
							}
						}
					}
				case *ast.SwitchStmt:
					for _, c := range x.Body.List {
						add(c.Pos(), c.End(), "", "del-case")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							add(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
							if v > 0 {
								add(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
							}
						}
					case token.STRING:
						if v, err := strconv.Unquote(x.Value); err == nil {
							if v != "" {
								add(x.Pos(), x.End(), `""`, "str-empty")
							} else {
								add(x.Pos(), x.End(), `"zz"`, "str-zz")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						add(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						add(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add(x.Pos(), x.End(), txt(x.X), "drop-not")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							add(r.Pos(), r.End(), "nil", "ret-nil")
						} else if c, ok := r.(*ast.CallExpr); ok && len(txt(c)) > 10 && txt(c)[:10] == "fmt.Errorf" {
							add(r.Pos(), r.End(), "nil", "ret-nil")
						}
					}
				case *ast.CallExpr:
					for i, a := range x.Args {
						if i+1 < len(x.Args) && txt(a) != txt(x.Args[i+1]) {
							add(a.Pos(), x.Args[i+1].End(), txt(x.Args[i+1])+", "+txt(a), "swap-args")
						}
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						add(x.Cond.Pos(), x.Cond.End(), "false", "for-none")
					}
				case *ast.RangeStmt:
					if id, ok := x.X.(*ast.Ident); ok {
						add(x.X.Pos(), x.X.End(), id.Name+"[min(1,len("+id.Name+")):]", "range-skip1")
						add(x.X.Pos(), x.X.End(), id.Name+"[:len("+id.Name+")-min(1,len("+id.Name+"))]", "range-less1")
					} else if s, ok := x.X.(*ast.SelectorExpr); ok {
						t := txt(s)
						add(x.X.Pos(), x.X.End(), t+"[min(1,len("+t+")):]", "range-skip1")
						add(x.X.Pos(), x.X.End(), t+"[:len("+t+")-min(1,len("+t+"))]", "range-less1")
					}
				case *ast.KeyValueExpr:
					add(x.Value.Pos(), x.Value.End(), "*new("+"FIELDTYPE"+")", "skip")
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						add(x.Pos(), x.End(), "break", "continue-break")
					}
				}
				return true
			})
		}
	}
	var o2 []edit
	for _, e := range out {
		if e.Op != "skip" {
			o2 = append(o2, e)
		}
	}
	json.NewEncoder(os.Stdout).Encode(o2)
}

func stmts(list []ast.Stmt, add func(token.Pos, token.Pos, string, string), txt func(ast.Node) string) {
	for _, s := range list {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt:
			add(s.Pos(), s.End(), "", "del-stmt")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				t := ""
				for _, r := range x.Rhs { t += "; _ = " + txt(r) }
				add(s.Pos(), s.End(), "if false { "+txt(s)+" }", "del-assign")
			} 
		case *ast.IfStmt:
			if x.Else == nil { add(s.Pos(), s.End(), "if false { "+txt(s)+" }", "del-if") }
		case *ast.ForStmt, *ast.RangeStmt:
			add(s.Pos(), s.End(), "if false { "+txt(s)+" }", "del-loop")
		}
	}
}
