// Command instr copies Go files with a call of runtime.VerifPoint before every
// statement, so that the simulated scheduler can switch goroutines there. Line
// numbers stay as they are.
//
//	instr DST FILE...    writes DST/<file with / replaced by __>, prints "FILE\tCOPY" for each
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func instrument(name string) ([]byte, bool) {
	src, err := os.ReadFile(name)
	if err != nil {
		return nil, false
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false
	}
	var at []int
	put := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			skip[n.Body] = true
		case *ast.TypeSwitchStmt:
			skip[n.Body] = true
		case *ast.SelectStmt:
			skip[n.Body] = true
		case *ast.BlockStmt:
			if !skip[n] {
				put(n.List)
			}
		case *ast.CaseClause:
			put(n.Body)
		case *ast.CommClause:
			put(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	var b strings.Builder
	pkg := fset.Position(f.Name.End()).Offset
	b.Write(src[:pkg])
	b.WriteString(`; import verifrt "runtime"`)
	last := pkg
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("verifrt.VerifPoint(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}

func main() {
	dst := os.Args[1]
	os.MkdirAll(dst, 0o755)
	for _, name := range os.Args[2:] {
		out, ok := instrument(name)
		if !ok {
			continue
		}
		to := filepath.Join(dst, strings.ReplaceAll(strings.Trim(name, "/"), "/", "__"))
		if old, err := os.ReadFile(to); err != nil || string(old) != string(out) {
			if err := os.WriteFile(to, out, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
		fmt.Printf("%s\t%s\n", name, to)
	}
}
