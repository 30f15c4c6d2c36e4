// instr SRC OUT: writes copies of the packages of SRC in which every statement
// is preceded by a scheduling point, and a build overlay that substitutes them.
// Statements that mention package-level variables get a marked point. The
// package sync is replaced by one driven by the scheduler.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(e error) {
	if e != nil {
		fmt.Println("instr:", e)
		os.Exit(3)
	}
}

func main() {
	src, out, vsync := os.Args[1], os.Args[2], os.Args[3]
	die(os.RemoveAll(out))
	die(os.MkdirAll(out, 0o755))
	repl := map[string]string{filepath.Join(src, "vsync", "vsync.go"): vsync}
	dirs := map[string][]string{}
	die(filepath.Walk(src, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() {
			switch st.Name() {
			case "cli", "benchmarks", "vsync", "testdata":
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			d := filepath.Dir(p)
			if d != src {
				dirs[d] = append(dirs[d], p)
			}
		}
		return nil
	}))
	n := 0
	for _, files := range dirs {
		sort.Strings(files)
		fset := token.NewFileSet()
		globals := map[string]bool{}
		var parsed []*ast.File
		for _, f := range files {
			a, err := parser.ParseFile(fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
			die(err)
			parsed = append(parsed, a)
			for _, d := range a.Decls {
				if g, is := d.(*ast.GenDecl); is && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							globals[id.Name] = true
						}
					}
				}
			}
		}
		for i, f := range files {
			text, err := os.ReadFile(f)
			die(err)
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(f)))
			n++
			die(os.WriteFile(dst, instrument(fset, parsed[i], text, globals), 0o644))
			repl[f] = dst
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	die(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
}

type edit struct {
	at, end int
	text    string
}

func instrument(fset *token.FileSet, f *ast.File, text []byte, globals map[string]bool) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	mentions := func(s ast.Stmt) (yes bool) {
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				yes = yes || globals[n.Name]
			case *ast.BlockStmt:
				return ast.Node(n) == ast.Node(s)
			case *ast.FuncLit:
				return false
			case *ast.CaseClause, *ast.CommClause:
				return false
			}
			return true
		})
		return
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, is := s.(*ast.EmptyStmt); is {
				continue
			}
			p := "vsync.P();"
			if mentions(s) {
				p = "vsync.G();"
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), p})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// clauses of switches and selects hold the statements
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import "helena/vsync"`})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), name + `"helena/vsync"`})
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b strings.Builder
	at := 0
	for _, e := range edits {
		b.Write(text[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(text[at:])
	b.WriteString("\nvar _ = vsync.P\n")
	return []byte(b.String())
}
