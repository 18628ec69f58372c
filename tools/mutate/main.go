// mutate lists small changes of the non-test Go files of a directory: one JSON object a line with the file, the
// range of bytes replaced, the new text and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	From, To int
	New      string `json:"new"`
	Line     int    `json:"line"`
	Kind     string `json:"kind"`
	Old      string `json:"old"`
}

func main() {
	files, _ := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	enc := json.NewEncoder(os.Stdout)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(kind string, a, b token.Pos, new string) {
			m := mut{filepath.Base(f), off(a), off(b), new, fs.Position(a).Line, kind, string(src[off(a):off(b)])}
			if m.Old != m.New {
				enc.Encode(m)
			}
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		block := func(l []ast.Stmt) {
			for i, s := range l {
				switch v := s.(type) {
				case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.GoStmt:
					put("del", s.Pos(), s.End(), "")
				case *ast.DeferStmt:
					put("del", s.Pos(), s.End(), "")
					put("undefer", s.Pos(), s.End(), text(v.Call))
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						put("del", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					if v.Else == nil {
						put("delif", s.Pos(), s.End(), "")
					}
				case *ast.ReturnStmt:
					if i < len(l)-1 {
						continue
					}
				case *ast.BranchStmt:
					put("del", s.Pos(), s.End(), "")
				case *ast.ForStmt, *ast.RangeStmt:
					put("delfor", s.Pos(), s.End(), "")
				}
				if i+1 < len(l) {
					t := l[i+1]
					simple := func(s ast.Stmt) bool {
						switch v := s.(type) {
						case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt, *ast.IfStmt, *ast.SelectStmt, *ast.ForStmt, *ast.RangeStmt:
							return true
						case *ast.AssignStmt:
							return v.Tok != token.DEFINE
						}
						return false
					}
					if simple(s) && simple(t) {
						put("swap", s.Pos(), t.End(), text(t)+string(src[off(s.End()):off(t.Pos())])+text(s))
					}
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt:
				block(v.List)
			case *ast.CaseClause:
				block(v.Body)
			case *ast.CommClause:
				block(v.Body)
				if v.Comm == nil {
					put("nodefault", v.Pos(), v.End(), "")
				} else {
					put("nocase", v.Pos(), v.End(), "")
				}
			case *ast.IfStmt:
				put("neg", v.Cond.Pos(), v.Cond.End(), "!("+text(v.Cond)+")")
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"/"}}[v.Op]
				for _, a := range alt {
					put("op", v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), a)
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					put("left", v.Pos(), v.End(), text(v.X))
					put("right", v.Pos(), v.End(), text(v.Y))
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					put("not", v.OpPos, v.OpPos+1, "")
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if x, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
						put("int", v.Pos(), v.End(), fmt.Sprint(x+1))
						if x > 0 {
							put("int", v.Pos(), v.End(), fmt.Sprint(x-1))
						}
					}
				}
			case *ast.Ident:
				switch v.Name {
				case "true":
					put("bool", v.Pos(), v.End(), "false")
				case "false":
					put("bool", v.Pos(), v.End(), "true")
				case "RLock":
					put("name", v.Pos(), v.End(), "Lock")
				}
			case *ast.ReturnStmt:
				for _, r := range v.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						put("nilerr", r.Pos(), r.End(), "nil")
					}
				}
			case *ast.CallExpr:
				if s, ok := v.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "AddInt64" {
					_ = s
				}
			}
			return true
		})
	}
}
