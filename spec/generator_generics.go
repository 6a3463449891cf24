package generator

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"github.com/hexdigest/gowrap/printer"
)

// Reference definitions of generic interfaces.

func specGenericParam(g genericParam) string {
	if len(g.Params) == 0 {
		return g.Name
	}
	var l []string
	for i := range g.Params {
		l = append(l, g.Params[i].String())
	}
	return g.Name + "[" + strings.Join(l, ", ") + "]"
}

func rootGenericParam(g genericParam) string { return g.String() }

func specBuildVars(g genericTypes) (string, string) {
	var types, params []string
	for _, t := range g {
		if len(t.Names) > 0 {
			types = append(types, strings.Join(t.Names, ", ")+" "+t.Type)
		}
		for _, n := range t.Names {
			params = append(params, n)
		}
	}
	a, b := strings.Join(types, ", "), strings.Join(params, ", ")
	if a != "" {
		a = "[" + a + "]"
	}
	if b != "" {
		b = "[" + b + "]"
	}
	return a, b
}

// specConstraint prints a constraint.
func specConstraint(e ast.Expr, all []*ast.TypeSpec, prefix string) string {
	if id, ok := e.(*ast.Ident); ok {
		if prefix != "" {
			for _, t := range all {
				if t.Name.Name == id.Name {
					return prefix + "." + id.Name
				}
			}
		}
		return id.Name
	}
	if s, ok := e.(*ast.SelectorExpr); ok {
		return s.X.(*ast.Ident).Name + "." + s.Sel.Name
	}
	if u, ok := e.(*ast.UnaryExpr); ok {
		if u.Op == token.TILDE {
			return "~" + specConstraint(u.X, all, prefix)
		}
		return ""
	}
	if b, ok := e.(*ast.BinaryExpr); ok {
		if b.Op == token.OR {
			return specConstraint(b.X, all, prefix) + " | " + specConstraint(b.Y, all, prefix)
		}
		return ""
	}
	s, err := printer.New(token.NewFileSet(), all, prefix).PrintType(e)
	if err != nil {
		return types.ExprString(e)
	}
	return s
}

func specGenericTypes(t *ast.TypeSpec, all []*ast.TypeSpec, prefix string) genericTypes {
	var l genericTypes
	if t.TypeParams == nil {
		return nil
	}
	for _, f := range t.TypeParams.List {
		if f == nil {
			continue
		}
		var names []string
		for _, n := range f.Names {
			if n != nil {
				names = append(names, n.Name)
			}
		}
		l = append(l, genericType{Names: names, Type: specConstraint(f.Type, all, prefix)})
	}
	return l
}

func specSubstitute(text string, declared genericTypes, given genericParams) string {
	byName := map[string]string{}
	n := 0
	for _, d := range declared {
		for _, name := range d.Names {
			if n < len(given) {
				byName[name] = given[n].String()
			}
			n++
		}
	}
	bare := strings.TrimPrefix(text, "...")
	tree, err := parser.ParseExpr(bare)
	if err != nil || len(byName) == 0 {
		return text
	}
	shift := len(text) - len(bare) - 1
	var out strings.Builder
	done := 0
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		if _, ok := n.(*ast.SelectorExpr); ok {
			return false
		}
		if f, ok := n.(*ast.Field); ok {
			ast.Inspect(f.Type, walk)
			return false
		}
		if id, ok := n.(*ast.Ident); ok {
			if arg, ok := byName[id.Name]; ok {
				out.WriteString(text[done:int(id.Pos())+shift] + arg)
				done = int(id.End()) + shift
			}
		}
		return true
	}
	ast.Inspect(tree, walk)
	return out.String() + text[done:]
}
