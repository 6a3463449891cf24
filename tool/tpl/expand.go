package tpl

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"
	"text/template"
)

// Expand expands a template into the source of a package.
func Expand(name, body, pkg string, in Inputs) (string, error) {
	t, err := template.New(name).Funcs(Funcs()).Parse(body)
	if err != nil {
		return "", err
	}
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "package %s\n\nimport (\n", pkg)
	for _, i := range in.Imports {
		buf.WriteString("\t" + i + "\n")
	}
	buf.WriteString(")\n")
	if err := t.Execute(&buf, in); err != nil {
		return "", err
	}
	return buf.String(), nil
}

var std = map[string]string{}

func init() {
	for _, p := range strings.Fields("bytes context encoding/json errors fmt io log math os runtime sort strconv strings sync sync/atomic time unicode reflect regexp net/http math/bits path path/filepath bufio slices maps runtime/debug io/fs hash/fnv unsafe") {
		std[p[strings.LastIndex(p, "/")+1:]] = p
	}
}

// FixImports removes unused imports and adds missing ones of the standard
// library, like the formatter of the generated code does; nameOf tells the
// name of a package by its path.
func FixImports(src string, nameOf func(path string) string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	unresolved := map[string]bool{}
	for _, id := range f.Unresolved {
		unresolved[id.Name] = true
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && unresolved[id.Name] && id.Obj == nil {
				used[id.Name] = true
			}
		}
		return true
	})
	have := map[string]bool{}
	type imp struct{ name, path string }
	var imps []imp
	for _, s := range f.Imports {
		path, err := strconv.Unquote(s.Path.Value)
		if err != nil {
			return "", err
		}
		n := nameOf(path)
		explicit := ""
		if s.Name != nil {
			n = s.Name.Name
			explicit = n
		}
		if n == "_" || n == "." {
			imps = append(imps, imp{n, path})
			continue
		}
		if !used[n] || have[n] {
			continue
		}
		have[n] = true
		imps = append(imps, imp{explicit, path})
	}
	var missing []string
	for n := range used {
		if !have[n] && std[n] != "" {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	for _, n := range missing {
		imps = append(imps, imp{"", std[n]})
	}
	// rebuild the file without its import declarations
	var out strings.Builder
	out.WriteString("package " + f.Name.Name + "\n\nimport (\n")
	for _, i := range imps {
		fmt.Fprintf(&out, "\t%s %q\n", i.name, i.path)
	}
	out.WriteString(")\n")
	last := fset.Position(f.Name.End()).Offset
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		out.WriteString(src[last:fset.Position(g.Pos()).Offset])
		last = fset.Position(g.End()).Offset
	}
	out.WriteString(src[last:])
	b, err := format.Source([]byte(out.String()))
	if err != nil {
		return "", err
	}
	return string(b), nil
}

// Imports lists the paths a file imports.
func Imports(src string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, parser.ImportsOnly)
	if err != nil {
		return nil
	}
	var out []string
	for _, s := range f.Imports {
		if p, err := strconv.Unquote(s.Path.Value); err == nil {
			out = append(out, p)
		}
	}
	return out
}
