// Command mutate lists small source mutations of the library: one JSON object per line with the file, the
// byte range and the replacement. tools/mutrun.py applies them one at a time to a scratch copy.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	ID, File, Kind, Old, New string
	Line, From, To           int
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	n := 0
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			if rel == "test" || strings.HasPrefix(fi.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return err
		}
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		emit := func(kind string, from, to token.Pos, repl string) {
			n++
			a, b := off(from), off(to)
			enc.Encode(mut{fmt.Sprintf("m%05d", n), rel, kind, string(src[a:b]), repl, fset.Position(from).Line, a, b})
		}
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		ast.Inspect(f, func(nd ast.Node) bool {
			switch v := nd.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"+"},
					token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
				}
				for _, r := range alt[v.Op] {
					emit("op", v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), r)
				}
			case *ast.BasicLit:
				switch v.Kind {
				case token.INT:
					if x, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
						emit("int", v.Pos(), v.End(), fmt.Sprint(x+1))
						if x > 0 {
							emit("int", v.Pos(), v.End(), fmt.Sprint(x-1))
						}
					}
				case token.FLOAT:
					if x, err := strconv.ParseFloat(v.Value, 64); err == nil {
						y := x * 1.05
						if x == 0 {
							y = 0.05
						}
						emit("float", v.Pos(), v.End(), strconv.FormatFloat(y, 'f', -1, 64))
						if x == 0 || x == 1 {
							emit("float", v.Pos(), v.End(), strconv.FormatFloat(1-x, 'f', 1, 64))
						}
					}
				case token.STRING:
					if len(v.Value) > 2 && v.Value[0] == '"' {
						emit("string", v.Pos(), v.End(), `"x`+v.Value[1:])
					}
				}
			case *ast.AssignStmt:
				if v.Tok != token.DEFINE {
					emit("drop", v.Pos(), v.End(), "{}")
				}
				if v.Tok == token.ADD_ASSIGN {
					emit("op", v.TokPos, v.TokPos+2, "-=")
				}
			case *ast.IncDecStmt:
				emit("drop", v.Pos(), v.End(), "{}")
			case *ast.ExprStmt:
				emit("drop", v.Pos(), v.End(), "{}")
			case *ast.IfStmt:
				emit("cond", v.Cond.Pos(), v.Cond.End(), "!("+text(v.Cond)+")")
				emit("cond", v.Cond.Pos(), v.Cond.End(), "true || ("+text(v.Cond)+")")
				emit("cond", v.Cond.Pos(), v.Cond.End(), "false && ("+text(v.Cond)+")")
			case *ast.BranchStmt:
				if v.Tok == token.CONTINUE && v.Label == nil {
					emit("branch", v.Pos(), v.End(), "break")
				} else if v.Tok == token.BREAK && v.Label == nil {
					emit("branch", v.Pos(), v.End(), "continue")
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT || v.Op == token.SUB {
					emit("unary", v.OpPos, v.OpPos+1, " ")
				}
			case *ast.CallExpr:
				if s, ok := v.Fun.(*ast.SelectorExpr); ok && len(v.Args) == 2 {
					switch s.Sel.Name {
					case "Max", "MaxF64", "MaxI", "MaxI64", "MaxF32":
						emit("call", s.Sel.Pos(), s.Sel.End(), strings.Replace(s.Sel.Name, "Max", "Min", 1))
					case "Min", "MinF64", "MinI", "MinI64", "MinF32":
						emit("call", s.Sel.Pos(), s.Sel.End(), strings.Replace(s.Sel.Name, "Min", "Max", 1))
					}
					emit("swap", v.Args[0].Pos(), v.Args[1].End(), text(v.Args[1])+", "+text(v.Args[0]))
				}
			}
			return true
		})
		return nil
	})
}
