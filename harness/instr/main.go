// instr copies the non-test Go files of a package directory into an overlay in which every statement is
// preceded by a call of verifPoint(n), so that the harness can control the interleaving of goroutines.
// Nothing is written in the package directory.
//
// sync's locks are replaced by equivalents that synctest sees through (vsync).
//
//	instr -dir /repo -out DIR        -> DIR/overlay.json, DIR/*.go, DIR/points.txt
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

//go:embed vsync/vsync.go.txt
var vsync string

// modPath is the module path in dir's go.mod.
func modPath(dir string) string {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	panic("no module path")
}

func main() {
	dir := flag.String("dir", "/repo", "")
	out := flag.String("out", "", "")
	nopoints := flag.Bool("nopoints", false, "don't instrument, only replace sync")
	plain := flag.Bool("plain", false, "only add the hook file, without instrumenting")
	flag.Parse()
	files, err := filepath.Glob(filepath.Join(*dir, "*.go"))
	if err != nil {
		panic(err)
	}
	overlay := map[string]string{}
	var points []string
	pkg := ""
	n := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		pkg = af.Name.Name
		if *plain {
			continue
		}
		type ins struct {
			off int
			s   string
		}
		var inss []ins
		add := func(list []ast.Stmt, fn string) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				p := fset.Position(s.Pos())
				n++
				inss = append(inss, ins{p.Offset, fmt.Sprintf("verifPoint(%d); ", n)})
				points = append(points, fmt.Sprintf("%d %s:%d %s", n, filepath.Base(f), p.Line, fn))
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || *nopoints || pure(fd) {
				continue
			}
			ast.Inspect(fd, func(nd ast.Node) bool {
				switch x := nd.(type) {
				case *ast.BlockStmt:
					add(x.List, fd.Name.Name)
				case *ast.CaseClause:
					add(x.Body, fd.Name.Name)
				case *ast.CommClause:
					add(x.Body, fd.Name.Name)
				}
				return true
			})
		}
		for _, im := range af.Imports {
			if im.Path.Value == `"sync"` {
				o := fset.Position(im.Path.Pos()).Offset
				name := "sync "
				if im.Name != nil {
					name = ""
				}
				inss = append(inss, ins{o, name + strconv.Quote(modPath(*dir)+"/verifsync") + " //"})
			}
		}
		sort.Slice(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
		var b strings.Builder
		last := 0
		for _, x := range inss {
			b.Write(src[last:x.off])
			b.WriteString(x.s)
			last = x.off
		}
		b.Write(src[last:])
		o := filepath.Join(*out, filepath.Base(f))
		if err := os.WriteFile(o, []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
		overlay[f] = o
	}
	hook := filepath.Join(*out, "verif_point_gen.go")
	code := "package " + pkg + `

// VerifPoint is called before every statement (verification harness only).
var VerifPoint func(id int)

func verifPoint(id int) {
	if f := VerifPoint; f != nil {
		f(id)
	}
}
`
	if err := os.WriteFile(hook, []byte(code), 0o644); err != nil {
		panic(err)
	}
	overlay[filepath.Join(*dir, "verif_point_gen.go")] = hook
	vs := filepath.Join(*out, "vsync.go")
	if err := os.WriteFile(vs, []byte(vsync), 0o644); err != nil {
		panic(err)
	}
	overlay[filepath.Join(*dir, "verifsync", "vsync.go")] = vs
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(*out, "points.txt"), []byte(strings.Join(points, "\n")+"\n"), 0o644); err != nil {
		panic(err)
	}
}

// pure reports whether a function only computes on its arguments: no receiver state, no channels, goroutines,
// selects, defers and no calls of methods. Interleavings inside of it can't matter.
func pure(fd *ast.FuncDecl) bool {
	p := fd.Recv == nil
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.DeferStmt, *ast.FuncLit:
			p = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				p = false
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				id, ok := s.X.(*ast.Ident)
				// calls of functions of a few pure packages
				ok = ok && (id.Name == "binary" || id.Name == "bits" || id.Name == "strings" || id.Name == "slices" || id.Name == "errors" || id.Name == "base64")
				if _, isSel := s.X.(*ast.SelectorExpr); isSel && !ok { // binary.LittleEndian.Uint64
					if in, k := s.X.(*ast.SelectorExpr).X.(*ast.Ident); k && in.Name == "binary" {
						ok = true
					}
				}
				if !ok {
					p = false
				}
			}
		}
		return true
	})
	return p
}
