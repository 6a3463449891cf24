// Command mutate lists small changes of the Go sources of the repository, as
// JSON lines {file,start,end,new,desc}; it is used to look for changes that no
// check reports, never by a check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
}

func main() {
	repo := os.Args[1]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "templates_tests") {
			continue
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(repo, name)
			m := &mutator{p: p, src: src, f: f}
			m.emit = func(a, b token.Pos, nw, desc string) {
				s, e := p.Fset.Position(a).Offset, p.Fset.Position(b).Offset
				if string(src[s:e]) == nw {
					return
				}
				enc.Encode(mut{rel, p.Fset.Position(a).Line, s, e, nw, desc + ": " + clip(string(src[s:e])) + " -> " + clip(nw)})
			}
			m.run()
		}
	}
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}

type mutator struct {
	p    *packages.Package
	f    *ast.File
	src  []byte
	emit func(a, b token.Pos, nw, desc string)
}

func (m *mutator) text(n ast.Node) string {
	return string(m.src[m.p.Fset.Position(n.Pos()).Offset:m.p.Fset.Position(n.End()).Offset])
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"},
}

func (m *mutator) run() {
	info := m.p.TypesInfo
	errT := types.Universe.Lookup("error").Type()
	var stack []ast.Node
	ast.Inspect(m.f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.ImportSpec:
			stack = stack[:len(stack)-1]
			return false
		case *ast.IfStmt:
			c := m.text(n.Cond)
			m.emit(n.Cond.Pos(), n.Cond.End(), "!("+c+")", "negate")
			m.emit(n.Cond.Pos(), n.Cond.End(), "("+c+") && false", "never")
			m.emit(n.Cond.Pos(), n.Cond.End(), "("+c+") || true", "always")
			if n.Else != nil {
				m.emit(n.Body.End(), n.Else.End(), "", "drop else")
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				if n.Op == token.ADD {
					if b, ok := info.TypeOf(n).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						m.emit(n.Pos(), n.End(), m.text(n.X), "left operand")
						m.emit(n.Pos(), n.End(), m.text(n.Y), "right operand")
						continue
					}
				}
				m.emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				m.emit(n.Pos(), n.End(), m.text(n.X), "left operand")
				m.emit(n.Pos(), n.End(), m.text(n.Y), "right operand")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				m.emit(n.Pos(), n.End(), m.text(n.X), "drop not")
			}
		case *ast.BasicLit:
			if len(stack) > 1 {
				if f, ok := stack[len(stack)-2].(*ast.Field); ok && f.Tag == n {
					break
				}
			}
			switch n.Kind {
			case token.STRING:
				if n.Value == `""` {
					m.emit(n.Pos(), n.End(), `"x"`, "string")
				} else {
					m.emit(n.Pos(), n.End(), `""`, "string")
					q := n.Value[:1]
					m.emit(n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"x"+q, "string")
				}
			case token.INT:
				m.emit(n.Pos(), n.End(), "("+n.Value+"+1)", "int")
				m.emit(n.Pos(), n.End(), "("+n.Value+"-1)", "int")
			}
		case *ast.ExprStmt:
			m.emit(n.Pos(), n.End(), "", "drop statement")
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				break
			}
			l := []string{}
			for _, r := range n.Rhs {
				l = append(l, m.text(r))
			}
			blanks := strings.TrimSuffix(strings.Repeat("_,", len(n.Lhs)), ",")
			m.emit(n.Pos(), n.End(), blanks+" = "+strings.Join(l, ", "), "drop assignment")
			if n.Tok == token.ADD_ASSIGN {
				m.emit(n.TokPos, n.TokPos+2, "=", "assign")
			}
		case *ast.IncDecStmt:
			m.emit(n.Pos(), n.End(), "", "drop statement")
		case *ast.DeferStmt, *ast.GoStmt:
			m.emit(n.Pos(), n.End(), "", "drop statement")
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				m.emit(n.Pos(), n.End(), "break", "branch")
			}
			if n.Tok == token.BREAK {
				m.emit(n.Pos(), n.End(), "continue", "branch")
			}
			m.emit(n.Pos(), n.End(), "", "drop statement")
		case *ast.CaseClause:
			if n.List != nil {
				m.emit(n.Pos(), n.End(), "", "drop case")
				if len(n.List) > 1 {
					for i := range n.List {
						l := []string{}
						for j, e := range n.List {
							if i != j {
								l = append(l, m.text(e))
							}
						}
						m.emit(n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(l, ", "), "drop alternative")
					}
				}
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				t := info.TypeOf(r)
				if t != nil && types.Identical(t, errT) && m.text(r) != "nil" {
					m.emit(r.Pos(), r.End(), "nil", "no error")
				}
				if t != nil {
					if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						m.emit(r.Pos(), r.End(), "!("+m.text(r)+")", "negate")
					}
				}
			}
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					m.emit(kv.Pos(), kv.End()+m.comma(kv.End()), "", "drop element")
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
				m.emit(n.Pos(), n.End(), m.text(n.Args[0]), "no append")
			}
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := info.TypeOf(n.Args[i]), info.TypeOf(n.Args[i+1])
				if a != nil && b != nil && types.AssignableTo(a, b) && types.AssignableTo(b, a) {
					m.emit(n.Args[i].Pos(), n.Args[i+1].End(), m.text(n.Args[i+1])+", "+m.text(n.Args[i]), "swap arguments")
				}
			}
			if len(n.Args) == 1 {
				a, b := info.TypeOf(n.Args[0]), info.TypeOf(n)
				if a != nil && b != nil && types.Identical(a, b) && !isStmt(stack) {
					m.emit(n.Pos(), n.End(), m.text(n.Args[0]), "skip call")
				}
			}
			if len(n.Args) == 0 {
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if a, b := info.TypeOf(s.X), info.TypeOf(n); a != nil && b != nil && types.Identical(a, b) && !isStmt(stack) {
						m.emit(n.Pos(), n.End(), m.text(s.X), "skip call")
					}
				}
			}
		case *ast.SelectorExpr:
			sel := info.Selections[n]
			if sel == nil || sel.Kind() != types.FieldVal {
				break
			}
			t := sel.Recv()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				break
			}
			c := 0
			for i := 0; i < st.NumFields() && c < 3; i++ {
				f := st.Field(i)
				if f.Name() != n.Sel.Name && types.Identical(f.Type(), sel.Type()) && (f.Exported() || f.Pkg() == m.p.Types) {
					m.emit(n.Sel.Pos(), n.Sel.End(), f.Name(), "other field")
					c++
				}
			}
		case *ast.Ident:
			v, ok := info.Uses[n].(*types.Var)
			if !ok || v.IsField() || len(stack) < 2 {
				break
			}
			if kv, ok := stack[len(stack)-2].(*ast.KeyValueExpr); ok && kv.Key == n {
				break
			}
			// another variable of the same type in scope
			sc := m.p.Types.Scope().Innermost(n.Pos())
			c := 0
			for ; sc != nil && sc != m.p.Types.Scope() && c < 3; sc = sc.Parent() {
				names := sc.Names()
				sort.Strings(names)
				for _, nm := range names {
					o, ok := sc.Lookup(nm).(*types.Var)
					if !ok || nm == n.Name || nm == "_" || o.Pos() >= n.Pos() || !types.Identical(o.Type(), v.Type()) || c >= 3 {
						continue
					}
					m.emit(n.Pos(), n.End(), nm, "other variable")
					c++
				}
			}
		}
		return true
	})
	_ = fmt.Sprint
}

func (m *mutator) comma(p token.Pos) token.Pos {
	o := m.p.Fset.Position(p).Offset
	if o < len(m.src) && m.src[o] == ',' {
		return 1
	}
	return 0
}

func isStmt(stack []ast.Node) bool {
	if len(stack) < 2 {
		return false
	}
	_, ok := stack[len(stack)-2].(*ast.ExprStmt)
	return ok
}
