// perturb writes an overlay in which every statement of the library's non-test
// files is preceded, on the same line, by a call that randomly yields.
//
//	perturb SRCDIR OUTDIR   (writes OUTDIR/overlay.json)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const sched = `package zzverifsched

import (
	"math/rand/v2"
	"runtime"
)

var (
	hot   uint32
	left  int32
)

// Y yields now and then. At any time one site is "hot" and yields for long.
// It must not synchronise: no atomics, no locks, and norace, so that it adds
// no happens-before edges and no reports of its own.
//
//go:norace
//go:noinline
func Y(site uint32) {
	x := rand.Uint32()
	if site == hot {
		for i := x % 300; i > 0; i-- {
			runtime.Gosched()
		}
	}
	left--
	if left <= 0 {
		left = int32(200 + x%2000)
		hot = site
		if x&0x10000 == 0 {
			hot = rand.Uint32N(%d)
		}
	}
	if x&0x3f == 0 {
		runtime.Gosched()
		if x&0xfc0 == 0 {
			for i := (x >> 16) %% 200; i > 0; i-- {
				runtime.Gosched()
			}
		}
	}
}
`

func main() {
	src, out := os.Args[1], os.Args[2]
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	replace := map[string]string{}
	site, failed := 0, 0
	filepath.WalkDir(src, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			name := d.Name()
			if path != src && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "cmd" || name == "hack" || name == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		text, n, err := rewrite(path, site)
		if err != nil {
			failed++
			return nil
		}
		if n == 0 {
			return nil
		}
		site += n
		dst := filepath.Join(out, fmt.Sprintf("f%03d.go", len(replace)))
		if err := os.WriteFile(dst, text, 0o644); err != nil {
			fatal(err)
		}
		replace[path] = dst
		return nil
	})
	if site == 0 {
		site = 1
	}
	dst := filepath.Join(out, "zzverifsched.go")
	text := strings.Replace(sched, "Uint32N(%d)", fmt.Sprintf("Uint32N(%d)", site), 1)
	text = strings.ReplaceAll(text, "%%", "%")
	if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
		fatal(err)
	}
	replace[filepath.Join(src, "internal", "zzverifsched", "sched.go")] = dst
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%d sites in %d files, %d files left alone\n", site, len(replace)-1, failed)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func rewrite(path string, base int) ([]byte, int, error) {
	text, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, text, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	for _, cg := range file.Comments {
		for _, cm := range cg.List {
			if strings.HasPrefix(cm.Text, "//go:build") || strings.HasPrefix(cm.Text, "//go:embed") {
				return nil, 0, nil
			}
		}
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, st := range list {
			switch st.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.PositionFor(st.Pos(), false).Offset)
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			if n.Init != nil {
				ast.Inspect(n.Init, func(m ast.Node) bool {
					if b, ok := m.(*ast.BlockStmt); ok {
						add(b.List)
					}
					return true
				})
			}
			for _, cl := range n.Body.List {
				ast.Inspect(cl, visitClause(add))
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, cl := range n.Body.List {
				ast.Inspect(cl, visitClause(add))
			}
			return false
		case *ast.SelectStmt:
			for _, cl := range n.Body.List {
				ast.Inspect(cl, visitClause(add))
			}
			return false
		case *ast.BlockStmt:
			add(n.List)
		}
		return true
	})
	if len(at) == 0 {
		return nil, 0, nil
	}
	sort.Ints(at)
	pkgEnd := fset.PositionFor(file.Name.End(), false).Offset
	var b strings.Builder
	b.Write(text[:pkgEnd])
	b.WriteString(`; import zzverifsched "github.com/peterbourgon/trc/internal/zzverifsched"`)
	prev, n := pkgEnd, 0
	for i, off := range at {
		if i > 0 && at[i-1] == off {
			continue
		}
		b.Write(text[prev:off])
		fmt.Fprintf(&b, "zzverifsched.Y(%d);", base+n)
		n++
		prev = off
	}
	b.Write(text[prev:])
	res := []byte(b.String())
	if _, err := parser.ParseFile(token.NewFileSet(), path, res, 0); err != nil {
		return nil, 0, err
	}
	return res, n, nil
}

// visitClause handles switch and select clauses, whose block holds clauses and
// not statements.
func visitClause(add func([]ast.Stmt)) func(ast.Node) bool {
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		case *ast.SwitchStmt:
			for _, cl := range n.Body.List {
				ast.Inspect(cl, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, cl := range n.Body.List {
				ast.Inspect(cl, visit)
			}
			return false
		case *ast.SelectStmt:
			for _, cl := range n.Body.List {
				ast.Inspect(cl, visit)
			}
			return false
		case *ast.BlockStmt:
			add(n.List)
		}
		return true
	}
	return visit
}
