package generator

import (
	"errors"
	"go/ast"
	"strconv"
	"strings"
)

// Reference definitions of how a method of an interface becomes a Method.

func specComments(g *ast.CommentGroup) (l []string) {
	if g == nil {
		return nil
	}
	for i := range g.List {
		l = append(l, g.List[i].Text)
	}
	return l
}

// specPrefix is the first part of a generated name.
func specPrefix(e ast.Expr) string {
	if sel, ok := e.(*ast.SelectorExpr); ok {
		return specPrefix(sel.Sel)
	}
	if star, ok := e.(*ast.StarExpr); ok {
		return specPrefix(star.X) + "p"
	}
	if sl, ok := e.(*ast.SliceExpr); ok {
		return specPrefix(sl.X) + "s"
	}
	if arr, ok := e.(*ast.ArrayType); ok {
		return specPrefix(arr.Elt) + "a"
	}
	if _, ok := e.(*ast.MapType); ok {
		return "m"
	}
	if _, ok := e.(*ast.ChanType); ok {
		return "ch"
	}
	if _, ok := e.(*ast.StructType); ok {
		return "st"
	}
	if _, ok := e.(*ast.FuncType); ok {
		return "f"
	}
	if id, ok := e.(*ast.Ident); ok {
		return strings.ToLower(string([]rune(id.Name)[:1]))
	}
	return "p"
}

// specFree is the first name of the series that is not taken.
func specFree(prefix string, taken map[string]bool) string {
	n := 1
	for taken[prefix+strconv.Itoa(n)] {
		n++
	}
	return prefix + strconv.Itoa(n)
}

func specNewParam(name string, fi *ast.Field, taken map[string]bool, pr typePrinter, gt genericTypes, gp genericParams) (*Param, error) {
	final := name
	if name == "" || name == "_" || taken[name] {
		final = specFree(specPrefix(fi.Type), taken)
	}
	taken[final] = true
	s, err := pr.PrintType(fi.Type)
	if err != nil {
		return nil, err
	}
	_, dots := fi.Type.(*ast.Ellipsis)
	return &Param{
		Doc:      specComments(fi.Doc),
		Comment:  specComments(fi.Comment),
		Name:     final,
		Type:     buildGenericParamsString(s, gt, gp),
		Variadic: dots,
	}, nil
}

// specParams declares one parameter per name, or one per field without names.
func specParams(fl *ast.FieldList, taken map[string]bool, pr typePrinter, gt genericTypes, gp genericParams) (ParamsSlice, error) {
	if fl == nil {
		return nil, nil
	}
	var l ParamsSlice
	for _, f := range fl.List {
		if f.Names == nil {
			p, err := NewParam("", f, taken, pr, gt, gp)
			if err != nil {
				return nil, err
			}
			l = append(l, *p)
			continue
		}
		for i := 0; i < len(f.Names); i++ {
			p, err := NewParam(f.Names[i].Name, f, taken, pr, gt, gp)
			if err != nil {
				return nil, err
			}
			l = append(l, *p)
		}
	}
	return l, nil
}

func specNewMethod(name string, fi *ast.Field, pr typePrinter, gt genericTypes, gp genericParams) (*Method, error) {
	f, ok := fi.Type.(*ast.FuncType)
	if !ok {
		return nil, errors.New("not a method")
	}
	m := &Method{Name: name, Doc: specComments(fi.Doc), Comment: specComments(fi.Comment)}
	taken := make(map[string]bool)
	if f.Results != nil && len(f.Results.List) > 0 {
		last := f.Results.List[len(f.Results.List)-1]
		if id, ok := last.Type.(*ast.Ident); ok && id.Name == "error" {
			m.ReturnsError = true
		}
		taken["err"] = true
	}
	if len(f.Params.List) > 0 {
		if sel, ok := f.Params.List[0].Type.(*ast.SelectorExpr); ok {
			taken["ctx"] = true
			if sel.Sel.Name == "Context" {
				m.AcceptsContext = true
			}
		}
	}
	ps, err := makeParams(f.Params, taken, pr, gt, gp)
	if err != nil {
		return nil, err
	}
	rs, err := makeParams(f.Results, taken, pr, gt, gp)
	if err != nil {
		return nil, err
	}
	if m.ReturnsError {
		rs[len(rs)-1].Name = "err"
	}
	if m.AcceptsContext {
		ps[0].Name = "ctx"
	}
	m.Params = ps
	m.Results = rs
	return m, nil
}
