package generator

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/hexdigest/gowrap/pkg"
	"github.com/hexdigest/gowrap/printer"
)

// Reference definitions of how the methods of an interface are collected.

var errSpec = errors.New("some error")

// specDeclared lists all types declared at the top level of the files, and the
// last declaration of the name with the imports of its file.
func specDeclared(p *pkg.Package, name string) (found *ast.TypeSpec, imports []*ast.ImportSpec, all []*ast.TypeSpec) {
	for _, file := range p.Files {
		if file == nil {
			continue
		}
		for _, t := range typeSpecs(file) {
			if t.Name.Name == name {
				found, imports = t, file.Imports
			}
			all = append(all, t)
		}
	}
	return found, imports, all
}

// specTypeSpecs lists the types a file declares at its top level.
func specTypeSpecs(f *ast.File) (l []*ast.TypeSpec) {
	for i := range f.Decls {
		gen, ok := f.Decls[i].(*ast.GenDecl)
		if !ok || gen.Tok != token.TYPE {
			continue
		}
		for _, s := range gen.Specs {
			if t, ok := s.(*ast.TypeSpec); ok {
				l = append(l, t)
			}
		}
	}
	return l
}

// specImportByPath finds an import by its explicit name or by the last element
// of its path.
func specImportByPath(name string, imports []*ast.ImportSpec) string {
	for i := range imports {
		path := strings.Trim(imports[i].Path.Value, `"`)
		if imports[i].Name == nil {
			if path[strings.LastIndex(path, "/")+1:] == name {
				return path
			}
		} else if imports[i].Name.Name == name {
			return path
		}
	}
	return ""
}

func specFindTarget(in processInput) (out processOutput, err error) {
	decl, imports, all := specDeclared(in.astPackage, in.targetName)
	if decl == nil {
		return out, errSpec
	}
	gen := buildGenericTypesFromSpec(decl, all, in.astPackage.Name)
	ms, err := specMethodsOf(decl, targetProcessInput{processInput: in, types: all, typesPrefix: in.astPackage.Name, imports: imports, genericTypes: gen})
	if err != nil {
		return processOutput{}, err
	}
	return processOutput{genericTypes: gen, methods: ms, imports: imports}, nil
}

// specMethodsOf follows the declaration to an interface, possibly in another
// package.
func specMethodsOf(decl *ast.TypeSpec, in targetProcessInput) (methodsList, error) {
	if it, ok := decl.Type.(*ast.InterfaceType); ok {
		return processInterface(it, in)
	}
	if id, ok := decl.Type.(*ast.Ident); ok {
		if id.Obj != nil {
			if next, ok := id.Obj.Decl.(*ast.TypeSpec); ok {
				return specMethodsOf(next, in)
			}
		}
		return nil, nil
	}
	sel, ok := decl.Type.(*ast.SelectorExpr)
	if !ok {
		return nil, nil
	}
	x, ok := sel.X.(*ast.Ident)
	if !ok {
		return nil, nil
	}
	var path string
	if in.currentPackage == nil {
		// names of packages are unknown
		path = specImportByPath(x.Name, in.imports)
	} else {
		var err error
		if path, err = findImportPathForName(x.Name, in.imports, in.currentPackage); err != nil {
			return nil, err
		}
	}
	p, err := pkg.Load(path)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	syntax, err := pkg.AST(fs, p)
	if err != nil {
		return nil, err
	}
	out, err := findTarget(processInput{fileSet: fs, currentPackage: p, astPackage: syntax, targetName: sel.Sel.Name})
	if err != nil {
		return nil, err
	}
	return out.methods, nil
}

// specEmbedded gives the printed form of an embedded type and its methods.
func specEmbedded(t ast.Expr, pr typePrinter, in targetProcessInput, check bool) (self genericParam, ms methodsList, err error) {
	base, generic := t, false
	var args genericParams
	if ix, ok := t.(*ast.IndexExpr); ok {
		base, generic = ix.X, true
		a, _, err := specEmbedded(ix.Index, pr, in, false)
		if err != nil {
			return genericParam{}, nil, err
		}
		if a.Name != "" {
			args = append(args, a)
		}
	} else if ix, ok := t.(*ast.IndexListExpr); ok {
		base, generic = ix.X, true
		for _, e := range ix.Indices {
			a, _, err := specEmbedded(e, pr, in, false)
			if err != nil {
				return genericParam{}, nil, err
			}
			if a.Name != "" {
				args = append(args, a)
			}
		}
	}
	inner := in
	inner.genericParams = args
	if self.Name, err = pr.PrintType(base); err != nil {
		return genericParam{}, nil, err
	}
	switch b := base.(type) {
	case *ast.Ident:
		ms, err = processIdent(b, inner, check)
	case *ast.SelectorExpr:
		ms, err = processSelector(b, inner)
	case *ast.InterfaceType:
		if check {
			ms, err = processInterface(b, inner)
		}
	}
	if err != nil {
		return genericParam{}, nil, err
	}
	self.Name = buildGenericParamsString(self.Name, in.genericTypes, in.genericParams)
	if generic {
		self.Params = args
	}
	return self, ms, nil
}

// specInterface collects the declared and the embedded methods.
func specInterface(it *ast.InterfaceType, in targetProcessInput) (methodsList, error) {
	if it.Methods == nil {
		return nil, nil
	}
	pr := printer.New(in.fileSet, in.types, in.typesPrefix)
	ms := methodsList{}
	for _, f := range it.Methods.List {
		if _, ok := f.Type.(*ast.FuncType); ok {
			if len(f.Names) > 0 {
				m, err := NewMethod(f.Names[0].Name, f, pr, in.genericTypes, in.genericParams)
				if err != nil {
					return nil, err
				}
				ms[f.Names[0].Name] = *m
			}
			continue
		}
		_, embedded, err := specEmbedded(f.Type, pr, in, true)
		if err != nil {
			return nil, err
		}
		if ms, err = mergeMethods(ms, embedded); err != nil {
			return nil, err
		}
	}
	return ms, nil
}

func specSelector(sel *ast.SelectorExpr, in targetProcessInput) (methodsList, error) {
	path, err := findImportPathForName(sel.X.(*ast.Ident).Name, in.imports, in.currentPackage)
	if err != nil {
		return nil, err
	}
	p, ok := in.currentPackage.Imports[path]
	if !ok {
		return nil, errSpec
	}
	syntax, err := pkg.AST(in.fileSet, p)
	if err != nil {
		return nil, err
	}
	out, err := findTarget(processInput{fileSet: in.fileSet, currentPackage: p, astPackage: syntax, targetName: sel.Sel.Name, genericParams: in.genericParams})
	if err != nil {
		return nil, err
	}
	return out.methods, nil
}

func specIdent(id *ast.Ident, in targetProcessInput, check bool) (methodsList, error) {
	for _, t := range in.types {
		if t.Name.Name != id.Name {
			continue
		}
		it, ok := t.Type.(*ast.InterfaceType)
		if ok {
			in.genericTypes = buildGenericTypesFromSpec(t, in.types, in.typesPrefix)
			in.imports = specImportsOf(t, in)
			return processInterface(it, in)
		}
		if check {
			return nil, errSpec
		}
		return nil, nil
	}
	if !check {
		return nil, nil
	}
	// not declared in the package: a predeclared type
	if types.Universe.Lookup(id.Name) == nil {
		return nil, errSpec
	}
	if id.Name == "error" {
		return methodsList{"Error": {Name: "Error", Results: ParamsSlice{{Name: "s1", Type: "string"}}}}, nil
	}
	return nil, nil
}

// specImportsOf are the imports of the file that declares an embedded interface: its
// selectors refer to them.
func specImportsOf(t *ast.TypeSpec, in targetProcessInput) []*ast.ImportSpec {
	if in.astPackage == nil {
		return in.imports
	}
	for _, f := range in.astPackage.Files {
		if f != nil {
			for _, ts := range typeSpecs(f) {
				if ts == t {
					return f.Imports
				}
			}
		}
	}
	return in.imports
}

func specMerge(own, embedded methodsList) (methodsList, error) {
	if own == nil || embedded == nil {
		return own, nil
	}
	all := methodsList{}
	for n, m := range embedded {
		all[n] = m
	}
	for n, m := range own {
		all[n] = m
	}
	return all, nil
}

func specImportPath(name string, imports []*ast.ImportSpec, current *packages.Package) (string, error) {
	for _, i := range imports {
		if i.Name != nil && i.Name.Name == name {
			return unquote(i.Path.Value), nil
		}
	}
	for _, i := range imports {
		if i.Name != nil {
			continue
		}
		p, ok := current.Imports[unquote(i.Path.Value)]
		if ok && p.Name == name {
			return unquote(i.Path.Value), nil
		}
	}
	best := ""
	for path, p := range current.Imports {
		if p.Name == name {
			if best == "" || path < best {
				best = path
			}
		}
	}
	if best == "" {
		return "", errSpec
	}
	return best, nil
}

func specUnquote(s string) string {
	if s[0] == '"' || s[0] == '`' {
		s = s[1:]
	}
	if s[len(s)-1] == '"' || s[len(s)-1] == '`' {
		s = s[:len(s)-1]
	}
	return s
}

var _ = fmt.Sprint
