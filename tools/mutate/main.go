// mutate lists or writes small syntactic changes to Go files: operators,
// constants, conditions, dropped statements, skipped elements, dropped copies.
//
//	mutate DIR OUT   writes OUT/<n>/{mutant.go,info} for every change
//
// A development aid: changes that survive the repository's tests show what
// the checks of this directory must find on their own.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	n := 0
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/examples/") || strings.Contains(p, "/testing/") {
			return nil
		}
		src, _ := os.ReadFile(p)
		for _, e := range edits(p, src) {
			n++
			d := filepath.Join(out, fmt.Sprintf("%05d", n))
			os.MkdirAll(d, 0o755)
			m := string(src[:e.from]) + e.text + string(src[e.to:])
			os.WriteFile(filepath.Join(d, "mutant.go"), []byte(m), 0o644)
			line := 1 + strings.Count(string(src[:e.from]), "\n")
			old := strings.Join(strings.Fields(string(src[e.from:e.to])), " ")
			if len(old) > 160 {
				old = old[:160]
			}
			nw := strings.Join(strings.Fields(e.text), " ")
			if len(nw) > 160 {
				nw = nw[:160]
			}
			os.WriteFile(filepath.Join(d, "info"), []byte(fmt.Sprintf("%s\n%d\n%s: %s => %s\n", p, line, e.what, old, nw)), 0o644)
		}
		return nil
	})
	fmt.Println(n)
}

func edits(path string, src []byte) []edit {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var out []edit
	add := func(a, b token.Pos, t, w string) { out = append(out, edit{off(a), off(b), t, w}) }
	swap := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="},
		token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.LAND: {"||"}, token.LOR: {"&&"},
	}
	inPanic := 0
	var stack []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if isMsg(top) {
				inPanic--
			}
			return true
		}
		stack = append(stack, n)
		if isMsg(n) {
			inPanic++
		}
		if inPanic > 0 {
			return true
		}
		switch x := n.(type) {
		case *ast.ImportSpec:
			return true
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), "("+txt(x.X)+")", "left only")
				add(x.Pos(), x.End(), "("+txt(x.Y)+")", "right only")
			}
			if x.Op == token.ADD || x.Op == token.SUB {
				add(x.Pos(), x.End(), txt(x.X), "left only")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.End(), txt(x.X), "not")
			}
			if x.Op == token.SUB {
				add(x.Pos(), x.End(), txt(x.X), "sign")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				switch x.Value {
				case "0":
					add(x.Pos(), x.End(), "1", "const")
				case "1":
					add(x.Pos(), x.End(), "0", "const")
					add(x.Pos(), x.End(), "2", "const")
				default:
					add(x.Pos(), x.End(), x.Value+"+1", "const")
				}
			}
			if x.Kind == token.FLOAT {
				add(x.Pos(), x.End(), "("+x.Value+"+1)", "const")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "if true")
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if false")
			add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
			if x.Else != nil {
				if _, ok := x.Else.(*ast.BlockStmt); ok {
					add(x.Else.Pos(), x.Else.End(), "{}", "drop else")
				}
			}
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				return true
			}
			if par(stack) {
				add(x.Pos(), x.End(), strings.Repeat("_ = ", 0)+blank(x, txt), "drop assignment")
			}
			if x.Tok != token.ASSIGN {
				add(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "plain assignment")
			}
		case *ast.ExprStmt:
			if par(stack) {
				add(x.Pos(), x.End(), "", "drop call")
			}
		case *ast.IncDecStmt:
			if par(stack) {
				add(x.Pos(), x.End(), "", "drop inc")
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE && x.Label == nil {
				add(x.Pos(), x.End(), "break", "break for continue")
				add(x.Pos(), x.End(), "", "drop continue")
			}
			if x.Tok == token.BREAK && x.Label == nil {
				add(x.Pos(), x.End(), "", "drop break")
				add(x.Pos(), x.End(), "continue", "continue for break")
			}
		case *ast.RangeStmt:
			v := txt(x.X)
			if k, ok := x.Key.(*ast.Ident); ok && k.Name != "_" {
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif int("+k.Name+") == len("+v+")-1 && len("+v+") > 1 { continue }\n", "skip last")
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif int("+k.Name+") == 0 && len("+v+") > 1 { continue }\n", "skip first")
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif int("+k.Name+") > 3 { continue }\n", "only four")
			} else if x.Key != nil {
				add(x.X.Pos(), x.X.End(), v+"[1:]", "skip first")
				add(x.X.Pos(), x.X.End(), v+"[:len("+v+")-1]", "skip last")
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 && x.Ellipsis == token.NoPos {
				add(x.Args[0].Pos(), x.Args[1].End(), txt(x.Args[1])+", "+txt(x.Args[0]), "swap args")
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				if _, ok := x.Args[0].(*ast.CompositeLit); ok {
					add(x.Pos(), x.End(), txt(x.Args[1]), "no copy")
				} else {
					add(x.Pos(), x.End(), txt(x.Args[0]), "no append")
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				switch s.Sel.Name {
				case "Copy", "Simplify", "AsSimplifiedExpression":
					if len(x.Args) == 0 {
						add(x.Pos(), x.End(), txt(s.X), "no "+s.Sel.Name)
					}
				case "Plus":
					add(s.Sel.Pos(), s.Sel.End(), "Minus", "method")
				case "Minus":
					add(s.Sel.Pos(), s.Sel.End(), "Plus", "method")
				case "Multiply":
					add(s.Sel.Pos(), s.Sel.End(), "Plus", "method")
				case "LessEq":
					add(s.Sel.Pos(), s.Sel.End(), "GreaterEq", "method")
				}
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					add(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "bool")
				}
			}
		case *ast.CaseClause:
			if len(x.List) > 1 {
				for i := range x.List {
					var ts []string
					for j, y := range x.List {
						if j != i {
							ts = append(ts, txt(y))
						}
					}
					add(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(ts, ", "), "fewer cases")
				}
			}
		}
		return true
	})
	return out
}

// isMsg: texts of errors and panics are not changed.
func isMsg(n ast.Node) bool {
	c, ok := n.(*ast.CallExpr)
	if !ok {
		return false
	}
	switch f := c.Fun.(type) {
	case *ast.Ident:
		return f.Name == "panic"
	case *ast.SelectorExpr:
		return f.Sel.Name == "Errorf"
	}
	return false
}

func par(s []ast.Node) bool {
	if len(s) < 2 {
		return false
	}
	switch s[len(s)-2].(type) {
	case *ast.BlockStmt, *ast.CaseClause:
		return true
	}
	return false
}

// blank keeps the operands of a dropped assignment in use.
func blank(x *ast.AssignStmt, txt func(ast.Node) string) string {
	var t []string
	for _, r := range x.Rhs {
		t = append(t, txt(r))
	}
	if len(x.Rhs) == len(x.Lhs) {
		return strings.Repeat("_, ", len(x.Lhs)-1) + "_ = " + strings.Join(t, ", ")
	}
	return strings.Repeat("_, ", len(x.Lhs)-1) + "_ = " + strings.Join(t, ", ")
}
