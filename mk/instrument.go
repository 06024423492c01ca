package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrumenter copies a Go source tree and puts a scheduling point in front
// of every statement of it.
type instrumenter struct {
	sites []string
	state state
	plain bool // without state
}

func (in *instrumenter) tree(from, to string) error {
	if !in.plain {
		in.state.packages(from)
	}
	for p, text := range in.state.extra {
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		out := filepath.Join(to, rel)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
			return err
		}
	}
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "test-outputs") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		switch filepath.Ext(base) {
		case ".go":
		case ".s", ".h", ".c":
			// part of the package if present
		default:
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if filepath.Ext(base) == ".go" {
			src = in.state.apply(p, src)
			if src, err = in.file(rel, src); err != nil {
				return err
			}
		}
		return os.WriteFile(filepath.Join(to, rel), src, 0o644)
	})
}

func (in *instrumenter) file(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	yield := func(pos token.Pos) {
		p := fset.Position(pos)
		all = append(all, ins{p.Offset, fmt.Sprintf("verifrt.Yield(%d);", len(in.sites))})
		in.sites = append(in.sites, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.EmptyStmt:
				continue
			}
			yield(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				yield(n.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				yield(n.Body.Lbrace + 1)
			}
		}
		return true
	})
	if len(all) == 0 {
		return src, nil
	}
	all = append(all, ins{fset.Position(f.Name.End()).Offset, `; import verifrt "verifsim/rt"`})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var out strings.Builder
	prev := 0
	for _, i := range all {
		out.Write(src[prev:i.off])
		out.WriteString(i.text)
		prev = i.off
	}
	out.Write(src[prev:])
	return []byte(out.String()), nil
}

func (in *instrumenter) table() []byte {
	var b strings.Builder
	b.WriteString("package rt\n\nvar Sites = []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	return []byte(b.String())
}
