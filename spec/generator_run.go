package generator

import (
	"bytes"
	"io"
	"path/filepath"
	"sort"
	"strings"
	"text/template"

	"go/ast"
	"go/token"

	"golang.org/x/text/cases"
	"golang.org/x/text/language"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/imports"

	"github.com/hexdigest/gowrap/pkg"
)

// Reference definitions of the generator.

func specImport(t TemplateInputs, wanted ...string) string {
	all := map[string]struct{}{}
	for _, i := range t.Imports {
		all[strings.TrimSpace(i)] = struct{}{}
	}
	for _, w := range wanted {
		i := strings.TrimSpace(w)
		if i == "" {
			continue
		}
		if i[len(i)-1] != '"' {
			i = i + `"`
		}
		if i[0] != '"' && strings.Count(i, `"`) <= 1 {
			i = `"` + i
		}
		all[i] = struct{}{}
	}
	var l []string
	for i := range all {
		l = append(l, i)
	}
	sort.Strings(l)
	return "import (\n" + strings.Join(l, "\n") + ")\n"
}

func specDestination(file string) (*packages.Package, error) {
	dir := filepath.Dir(file)
	if !strings.HasPrefix(dir, "./") && !strings.HasPrefix(dir, "/") {
		dir = "./" + dir
	}
	if p, err := pkg.Load(dir); err == nil {
		return p, nil
	}
	base := filepath.Base(dir)
	if base == "." || base == string(filepath.Separator) {
		return nil, errSpec
	}
	return &packages.Package{Name: base}, nil
}

func specImports(l []*ast.ImportSpec) []string {
	var r []string
	for _, i := range l {
		if i.Name == nil {
			r = append(r, " "+i.Path.Value)
		} else {
			r = append(r, i.Name.Name+" "+i.Path.Value)
		}
	}
	return r
}

func specNewGenerator(o Options) (*Generator, error) {
	if o.Funcs == nil {
		o.Funcs = template.FuncMap{}
	}
	header, err := template.New("header").Funcs(o.Funcs).Parse(o.HeaderTemplate)
	if err != nil {
		return nil, err
	}
	body, err := template.New("body").Funcs(o.Funcs).Parse(o.BodyTemplate)
	if err != nil {
		return nil, err
	}
	if o.Vars == nil {
		o.Vars = map[string]interface{}{}
	}
	set := token.NewFileSet()
	src := o.SourcePackageInstance
	if src == nil {
		if src, err = pkg.Load(o.SourcePackage); err != nil {
			return nil, err
		}
	}
	dst, err := specDestination(o.OutputFile)
	if err != nil {
		return nil, err
	}
	syntax, err := pkg.AST(set, src)
	if err != nil {
		return nil, err
	}
	var name string
	if src.PkgPath == dst.PkgPath {
		syntax.Name = ""
		name = o.InterfaceName
	} else {
		if o.SourcePackageAlias == "" {
			syntax.Name = "_source" + cases.Title(language.Und, cases.NoLower).String(syntax.Name)
		} else {
			syntax.Name = o.SourcePackageAlias
		}
		name = syntax.Name + "." + o.InterfaceName
		o.Imports = append(o.Imports, syntax.Name+` "`+src.PkgPath+`"`)
	}
	found, err := findTarget(processInput{targetName: o.InterfaceName, fileSet: set, currentPackage: src, astPackage: syntax})
	if err != nil {
		return nil, err
	}
	if len(found.methods) == 0 {
		return nil, errSpec
	}
	for _, m := range found.methods {
		if syntax.Name == "" {
			continue
		}
		if []rune(strings.ToLower(m.Name))[0] == []rune(m.Name)[0] {
			return nil, errSpec
		}
	}
	o.Imports = append(o.Imports, specImports(found.imports)...)
	types, params := found.genericTypes.buildVars()
	return &Generator{
		Options:        o,
		headerTemplate: header,
		bodyTemplate:   body,
		srcPackage:     src,
		dstPackage:     dst,
		methods:        found.methods,
		interfaceType:  name,
		genericTypes:   types,
		genericParams:  params,
		localPrefix:    o.LocalPrefix,
	}, nil
}

func specGenerate(g Generator, w io.Writer) error {
	var text bytes.Buffer
	if err := g.headerTemplate.Execute(&text, map[string]interface{}{
		"Options":       g.Options,
		"Package":       g.dstPackage,
		"SourcePackage": g.srcPackage,
		"Vars":          g.Vars,
	}); err != nil {
		return err
	}
	if err := g.bodyTemplate.Execute(&text, TemplateInputs{
		Interface: TemplateInputInterface{
			Name:     g.InterfaceName,
			Type:     g.interfaceType,
			Generics: TemplateInputGenerics{Types: g.genericTypes, Params: g.genericParams},
			Methods:  g.methods,
		},
		Imports: g.Options.Imports,
		Vars:    g.Vars,
	}); err != nil {
		return err
	}
	imports.LocalPrefix = g.localPrefix
	out, err := imports.Process(g.OutputFile, text.Bytes(), nil)
	if err != nil {
		return err
	}
	_, err = w.Write(out)
	return err
}
