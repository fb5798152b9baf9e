// inst writes copies of the sources of the code under test in which every
// statement is preceded by a call of mcpoint.P, a possible preemption point of
// the explorer (see Scenario.Fine), and prints {"file": "copy"} for the build
// overlay. Line numbers stay as they are.
// usage: inst REPO OUTDIR MODULE
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out, mod := os.Args[1], os.Args[2], os.Args[3]
	res := map[string]string{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if n := fi.Name(); rel != "." && (n[0] == '.' || n[0] == '_' || n == "testdata" || n == "vendor" || rel == "example" || rel == "verifmc") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		b := instrument(src, mod)
		if b == nil {
			return nil
		}
		q := filepath.Join(out, "inst__"+strings.ReplaceAll(rel, "/", "__"))
		if old, err := os.ReadFile(q); err != nil || string(old) != string(b) {
			if err := os.WriteFile(q, b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
		res[p] = q
		return nil
	})
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
}

func instrument(src []byte, mod string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil || f.Name.Name == "main" {
		return nil // the compiler says what is wrong
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at = append(at, fs.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.LabeledStmt:
			return true
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	sort.Ints(at)
	var sb strings.Builder
	prev := fs.Position(f.Name.End()).Offset
	sb.Write(src[:prev])
	fmt.Fprintf(&sb, "; import mcpoint__ %q", mod+"/internal/mcpoint")
	for _, o := range at {
		sb.Write(src[prev:o])
		sb.WriteString("mcpoint__.P(); ")
		prev = o
	}
	sb.Write(src[prev:])
	return []byte(sb.String())
}
