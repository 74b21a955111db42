// Command instrument makes an overlay in which every statement of a package is preceded by a scheduling point:
// instrument <module dir> <out dir>
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	n, points := 0, 0
	check(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := fi.Name()
		if fi.IsDir() {
			if p != repo && (name == "testdata" || strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		check(err)
		res, k := instrument(p, src, points)
		points += k
		if k == 0 {
			return nil
		}
		q := filepath.Join(out, fmt.Sprintf("%d_%s", n, name))
		n++
		check(os.WriteFile(q, res, 0o644))
		replace[p] = q
		return nil
	}))
	j, err := json.Marshal(map[string]interface{}{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
	fmt.Printf("%d files, %d scheduling points\n", n, points)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func instrument(path string, src []byte, first int) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	check(err)
	if f.Name.Name == "main" {
		return src, 0
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	k := 0
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			all = append(all, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("verifsched.Point(%d); ", first+k)})
			k++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the clauses of switch and select statements are handled below
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if k == 0 {
		return src, 0
	}
	all = append(all, ins{fset.Position(f.Name.End()).Offset, `; import verifsched "verif/harness/sched"`})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var out []byte
	at := 0
	for _, x := range all {
		out = append(out, src[at:x.off]...)
		out = append(out, x.text...)
		at = x.off
	}
	return append(out, src[at:]...), k
}
