package printer

import (
	"bytes"
	"errors"
	"go/ast"
	"go/printer"
	"go/token"
	"strings"
)

// The reference says how each form of type is printed, given that the types in
// it are printed right by the Printer.  The harness runs the code on a new
// Printer and also gives the state it leaves behind.

func rootPrintType(fs *token.FileSet, types []*ast.TypeSpec, prefix string, n ast.Node) (string, error, *Printer) {
	p := New(fs, types, prefix)
	s, err := p.PrintType(n)
	return s, err, p
}

func specVerbatim(fs *token.FileSet, n ast.Node) (string, error) {
	var b bytes.Buffer
	err := printer.Fprint(&b, fs, n)
	return b.String(), err
}

func specPrintType(fs *token.FileSet, types []*ast.TypeSpec, prefix string, n ast.Node) (string, error, *Printer) {
	s, err := specType(fs, types, prefix, n)
	return s, err, New(fs, types, prefix)
}

func specFields(fs *token.FileSet, types []*ast.TypeSpec, prefix string, fl *ast.FieldList) ([]string, error) {
	if fl == nil {
		return nil, nil
	}
	var l []string
	for i := range fl.List {
		t, err := New(fs, types, prefix).PrintType(fl.List[i].Type)
		if err != nil {
			return nil, err
		}
		s := ""
		for j, n := range fl.List[i].Names {
			if j > 0 {
				s += ", "
			}
			s += n.Name
		}
		l = append(l, s+" "+t)
	}
	return l, nil
}

func specIdent(fs *token.FileSet, types []*ast.TypeSpec, prefix string, id *ast.Ident) (string, error) {
	declared := false
	for _, t := range types {
		if t.Name.Name == id.Name {
			declared = true
			break
		}
	}
	if !declared {
		return specVerbatim(fs, id)
	}
	if prefix == "" {
		return id.Name, nil
	}
	if []rune(id.Name)[0] == []rune(strings.ToLower(id.Name))[0] {
		return "", errUnexportedType
	}
	return prefix + "." + id.Name, nil
}

func specType(fs *token.FileSet, types []*ast.TypeSpec, prefix string, n ast.Node) (string, error) {
	sub := func(n ast.Node) (string, error) { return New(fs, types, prefix).PrintType(n) }
	switch t := n.(type) {
	case *ast.Ident:
		return specIdent(fs, types, prefix, t)
	case *ast.ParenExpr:
		s, err := sub(t.X)
		if err != nil {
			return "", err
		}
		return "(" + s + ")", nil
	case *ast.StarExpr:
		s, err := sub(t.X)
		if err != nil {
			return "", err
		}
		return "*" + s, nil
	case *ast.Ellipsis:
		s, err := sub(t.Elt)
		if err != nil {
			return "", err
		}
		return "..." + s, nil
	case *ast.MapType:
		k, err := sub(t.Key)
		if err != nil {
			return "", err
		}
		v, err := sub(t.Value)
		if err != nil {
			return "", err
		}
		return "map[" + k + "]" + v, nil
	case *ast.ChanType:
		v, err := sub(t.Value)
		if err != nil {
			return "", err
		}
		switch t.Dir {
		case ast.SEND:
			return "chan<- " + v, nil
		case ast.RECV:
			return "<-chan " + v, nil
		}
		return "chan " + v, nil
	case *ast.ArrayType:
		e, err := sub(t.Elt)
		if err != nil {
			return "", err
		}
		if t.Len == nil {
			return "[]" + e, nil
		}
		l, err := specVerbatim(fs, t.Len)
		if err != nil {
			return "", err
		}
		if c, ok := t.Len.(*ast.Ident); ok && prefix != "" {
			if !ast.IsExported(c.Name) {
				return "", errors.New("unexported constant")
			}
			l = prefix + "." + l
		}
		return "[" + l + "]" + e, nil
	case *ast.FuncType:
		ps, err := specFields(fs, types, prefix, t.Params)
		if err != nil {
			return "", err
		}
		rs, err := specFields(fs, types, prefix, t.Results)
		if err != nil {
			return "", err
		}
		return "func(" + strings.Join(ps, ", ") + ") (" + strings.Join(rs, ", ") + ")", nil
	case *ast.StructType:
		l, err := specFields(fs, types, prefix, t.Fields)
		if err != nil {
			return "", err
		}
		var tagged []string
		for i, f := range l {
			if t.Fields.List[i].Tag != nil {
				f += " " + t.Fields.List[i].Tag.Value
			}
			tagged = append(tagged, f)
		}
		return "struct{\n" + strings.Join(tagged, "\n") + "\n}", nil
	case *ast.InterfaceType:
		if t.Methods == nil || len(t.Methods.List) == 0 {
			return "interface{}", nil
		}
		var l []string
		for _, m := range t.Methods.List {
			s, err := sub(m.Type)
			if err != nil {
				return "", err
			}
			if len(m.Names) > 0 {
				l = append(l, m.Names[0].Name+strings.TrimPrefix(s, "func"))
			} else {
				l = append(l, s)
			}
		}
		return "interface{\n" + strings.Join(l, "\n") + "\n}", nil
	case *ast.IndexExpr:
		g, err := sub(t.X)
		if err != nil {
			return "", err
		}
		a, err := sub(t.Index)
		if err != nil {
			return "", err
		}
		return g + "[" + a + "]", nil
	case *ast.IndexListExpr:
		g, err := sub(t.X)
		if err != nil {
			return "", err
		}
		var l []string
		for _, i := range t.Indices {
			a, err := sub(i)
			if err != nil {
				return "", err
			}
			l = append(l, a)
		}
		return g + "[" + strings.Join(l, ", ") + "]", nil
	}
	return specVerbatim(fs, n)
}
