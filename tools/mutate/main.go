// mutate lists small source changes to the non-test files of a Go tree, one
// JSON object per line: {"file","start","end","repl","kind","line"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Kind  string `json:"kind"`
	Line  int    `json:"line"`
	Old   string `json:"old"`
}

var pairs = [][2]string{{"Local", "Remote"}, {"Sender", "Receiver"}, {"Our", "Their"}, {"our", "their"}, {"Public", "Private"}, {"sender", "receiver"}, {"local", "remote"}, {"Signed", ""}, {"Base", "Ratchet"}, {"CipherKey", "MacKey"}, {"Iv", "CipherKey"}, {"SessionState", "PreviousStates"}, {"ID", "Index"}, {"Identity", "SignedPre"}, {"Encrypt", "Decrypt"}}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, ".pb.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		for _, d := range []string{"tests/", "logger/", "vendor/", "util/medium", "edwards25519"} {
			if strings.HasPrefix(rel, d) || strings.Contains(rel, "/"+d) {
				return nil
			}
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return nil
		}
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		emit := func(a, b token.Pos, repl, kind string) {
			s, e := off(a), off(b)
			old := string(src[s:e])
			if old == repl {
				return
			}
			if strings.Contains(old, "logger.") && kind != "cond-false" && kind != "cond-true" && kind != "cond-neg" {
				return
			}
			enc.Encode(mut{rel, s, e, repl, kind, fset.Position(a).Line, old})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.GenDecl:
					if x.Tok == token.IMPORT || x.Tok == token.TYPE {
						return false
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if id, ok := s.X.(*ast.Ident); ok && id.Name == "logger" {
							return false
						}
					}
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap-args")
					}
					if s, ok := x.Fun.(*ast.Ident); ok && s.Name == "append" && len(x.Args) == 2 {
						emit(x.Pos(), x.End(), text(x.Args[0]), "drop-append")
					}
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
					for _, r := range alts[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "binop")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "drop-operand")
						emit(x.Pos(), x.End(), text(x.Y), "drop-operand")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "cond-false")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "cond-true")
				case *ast.BlockStmt:
					for i, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
							emit(s.Pos(), s.End(), "", "del-stmt")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "del-stmt")
							} else {
								emit(s.Pos(), s.End(), "var "+text(y.Lhs[0])+" = "+text(y.Rhs[0]), "none")
							}
						case *ast.BranchStmt:
							if y.Tok == token.BREAK || y.Tok == token.CONTINUE {
								emit(s.Pos(), s.End(), "", "del-stmt")
							}
						case *ast.ReturnStmt:
							if len(y.Results) >= 2 {
								last := y.Results[len(y.Results)-1]
								if text(last) != "nil" {
									emit(last.Pos(), last.End(), "nil", "ret-nil-err")
								}
							}
							if len(y.Results) == 1 {
								t := text(y.Results[0])
								if t == "true" {
									emit(y.Results[0].Pos(), y.Results[0].End(), "false", "ret-bool")
								} else if t == "false" {
									emit(y.Results[0].Pos(), y.Results[0].End(), "true", "ret-bool")
								} else if t != "nil" {
									emit(y.Results[0].Pos(), y.Results[0].End(), "nil", "ret-nil")
								}
							}
						}
						if i+1 < len(x.List) {
							_, r := x.List[i+1].(*ast.ReturnStmt)
							if !r {
								emit(s.Pos(), x.List[i+1].End(), text(x.List[i+1])+"\n"+text(s), "swap-stmts")
							}
						}
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
							}
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 3 {
						emit(x.Pos(), x.End(), x.Value[:1]+"x"+x.Value[2:], "string")
					}
				case *ast.SelectorExpr:
					nm := x.Sel.Name
					for _, p := range pairs {
						for k := 0; k < 2; k++ {
							if p[k] != "" && strings.Contains(nm, p[k]) {
								emit(x.Sel.Pos(), x.Sel.End(), strings.Replace(nm, p[k], p[1-k], 1), "name")
							}
						}
					}
				case *ast.KeyValueExpr:
					emit(x.Value.Pos(), x.Value.End(), "nil", "kv-nil")
				case *ast.Ident:
					nm := x.Name
					for _, p := range pairs[:8] {
						for k := 0; k < 2; k++ {
							if p[k] != "" && strings.Contains(nm, p[k]) && x.Obj != nil && x.Obj.Kind == ast.Var {
								emit(x.Pos(), x.End(), strings.Replace(nm, p[k], p[1-k], 1), "ident")
							}
						}
					}
				}
				return true
			})
		}
		return nil
	})
}
