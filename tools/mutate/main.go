// Command mutate lists the mechanical mutants of a Go file, one JSON object
// per line: {"id","line","op","start","end","new"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	ID    int    `json:"id"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var out []mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(op string, a, b token.Pos, s string) {
		out = append(out, mutant{0, fs.Position(a).Line, op, off(a), off(b), s, string(src[off(a):off(b)])})
	}
	isLog := func(s ast.Node) bool { t := text(s); return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print") }
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			if isLog(s) {
				continue
			}
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt:
				add("delete", s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add("delete", s.Pos(), s.End(), "")
				}
			case *ast.BranchStmt:
				add("delete", s.Pos(), s.End(), "")
				if s.Tok == token.CONTINUE {
					add("continue>break", s.Pos(), s.End(), "break")
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add("delete", s.Pos(), s.End(), "")
				}
			}
			switch s := s.(type) {
			case *ast.GoStmt:
				add("go>call", s.Pos(), s.End(), text(s.Call))
			case *ast.DeferStmt:
				add("defer>now", s.Pos(), s.End(), text(s.Call))
			case *ast.ExprStmt:
				add("now>go", s.Pos(), s.End(), "go "+text(s))
			}
			if i+1 < len(list) && !isLog(list[i+1]) {
				n := list[i+1]
				add("swap", s.Pos(), n.End(), text(n)+"\n"+text(s))
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			add("drop case", n.Pos(), n.End(), "")
		case *ast.CommClause:
			stmts(n.Body)
			add("drop comm", n.Pos(), n.End(), "")
		case *ast.IfStmt:
			c := text(n.Cond)
			add("if not", n.Cond.Pos(), n.Cond.End(), "!("+c+")")
			add("if false", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
			add("if true", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
			if n.Else != nil {
				add("drop else", n.Body.End(), n.End(), "")
			}
		case *ast.BinaryExpr:
			for _, o := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
				token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}}[n.Op] {
				add("op "+n.Op.String()+">"+o, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add("left only", n.Pos(), n.End(), text(n.X))
				add("right only", n.Pos(), n.End(), text(n.Y))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add("drop !", n.OpPos, n.OpPos+1, "")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				add("int+1", n.Pos(), n.End(), n.Value+"+1")
				add("int 0", n.Pos(), n.End(), "0*"+n.Value)
			case token.STRING:
				if strings.HasPrefix(n.Value, `"`) {
					s, _ := strconv.Unquote(n.Value)
					add("string", n.Pos(), n.End(), strconv.Quote(s+"x"))
					if s != "" {
						add("string empty", n.Pos(), n.End(), `""`)
					}
				}
			}
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			if n.Tag != nil {
				t := n.Tag.Value
				if strings.Contains(t, ",omitempty") {
					add("tag -omitempty", n.Tag.Pos(), n.Tag.End(), strings.ReplaceAll(t, ",omitempty", ""))
				} else if strings.Contains(t, `xml:"`) {
					i := strings.Index(t, `xml:"`) + 5
					j := i + strings.IndexByte(t[i:], '"')
					add("tag +omitempty", n.Tag.Pos(), n.Tag.End(), t[:j]+",omitempty"+t[j:])
					add("tag rename", n.Tag.Pos(), n.Tag.End(), t[:i]+"x"+t[i:])
				}
			}
			if n.Tag != nil {
				return false
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					add("bool", r.Pos(), r.End(), "!"+id.Name)
				}
				if t := text(r); t == "err" {
					add("err>nil", r.Pos(), r.End(), "nil")
				}
			}
		case *ast.FieldList:
			// fields of structs: swap neighbours (order of elements)
			for i := 0; i+1 < len(n.List); i++ {
				if n.List[i].Tag != nil && n.List[i+1].Tag != nil && fs.Position(n.List[i].Pos()).Line != fs.Position(n.List[i+1].Pos()).Line {
					add("swap fields", n.List[i].Pos(), n.List[i+1].End(), text(n.List[i+1])+"\n"+text(n.List[i]))
				}
			}
		}
		return true
	})
	// literals in logs and messages of errors matter to nobody
	var dull [][2]int
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			t := text(c.Fun)
			if strings.HasPrefix(t, "log.") || t == "fmt.Errorf" || t == "errors.New" || t == "make" {
				dull = append(dull, [2]int{off(c.Pos()), off(c.End())})
			}
		}
		return true
	})
	enc := json.NewEncoder(os.Stdout)
next:
	for i := range out {
		out[i].ID = i
		for _, d := range dull {
			if (strings.HasPrefix(out[i].Op, "string") || strings.HasPrefix(out[i].Op, "int")) && d[0] <= out[i].Start && out[i].End <= d[1] {
				continue next
			}
		}
		enc.Encode(out[i])
	}
	fmt.Fprintln(os.Stderr, len(out), "mutants of", os.Args[1])
}
