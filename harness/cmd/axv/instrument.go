package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument writes, under dir, a copy of every non-test Go file of repo with
// "axyield.Y();" in front of every statement, and an overlay file that makes
// the go command build those copies. Files are never written inside repo.
func instrument(repo, dir string) (overlay string, points int, err error) {
	if err = os.RemoveAll(dir); err != nil {
		return
	}
	repl := map[string]string{}
	err = filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, n, err := instrumentFile(src)
		if err != nil || n == 0 {
			return nil // left as it is; a file that does not parse fails the build anyway
		}
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(dir, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		points += n
		repl[p] = dst
		return os.WriteFile(dst, out, 0o644)
	})
	if err != nil {
		return
	}
	overlay = filepath.Join(dir, "overlay.json")
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	err = os.WriteFile(overlay, b, 0o644)
	return
}

func instrumentFile(src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution|parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	tf := fset.File(f.Pos())
	at := map[int]bool{}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at[tf.Offset(s.Pos())] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, 0, nil
	}
	offs := make([]int, 0, len(at))
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var b bytes.Buffer
	last := 0
	put := func(off int, text string) {
		b.Write(src[last:off])
		b.WriteString(text)
		last = off
	}
	put(tf.Offset(f.Name.End()), "; import axyield \"axverif/yield\"")
	for _, o := range offs {
		put(o, "axyield.Y();")
	}
	b.Write(src[last:])
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", b.Bytes(), 0); err != nil {
		return nil, 0, fmt.Errorf("instrumented file does not parse: %w", err)
	}
	return b.Bytes(), len(offs), nil
}
