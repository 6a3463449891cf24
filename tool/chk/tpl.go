package chk

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"verif.local/tool/tpl"
	"verif.local/tool/vg"
)

const genPath = "verif.local/tpl/gen"

// world holds the packages that expanded templates depend on.
type world struct {
	c     *Ctx
	fset  *token.FileSet
	prog  *ssa.Program
	types map[string]*types.Package
	src   string // declarations of the source package
	ifcs  map[string][]tpl.Method
}

// bundled lists the bundled templates.
func (c *Ctx) bundled() []string {
	es, err := os.ReadDir(filepath.Join(c.Repo, "templates"))
	if err != nil {
		panic(Fatal{err.Error()})
	}
	var l []string
	for _, e := range es {
		if !e.IsDir() && !strings.HasPrefix(e.Name(), ".") {
			l = append(l, e.Name())
		}
	}
	sort.Strings(l)
	return l
}

func (c *Ctx) tplBody(name string) string {
	b, err := os.ReadFile(filepath.Join(c.Repo, "templates", name))
	if err != nil {
		panic(Fatal{fmt.Sprintf("no template %s: %v", name, err)})
	}
	return string(b)
}

// newWorld loads the dependencies of the expanded sources.
func (c *Ctx) newWorld(paths map[string]bool, ifcs map[string][]tpl.Method) *world {
	w := &world{c: c, fset: token.NewFileSet(), types: map[string]*types.Package{}, ifcs: ifcs}
	var pats []string
	for p := range paths {
		if p != tpl.SrcPath {
			pats = append(pats, p)
		}
	}
	pats = append(pats, "context")
	sort.Strings(pats)
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(c.Verif, "tpl"), Fset: w.fset, Env: env}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		panic(Fatal{fmt.Sprintf("failed to load the dependencies of the templates: %v", err)})
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
		w.types[p.PkgPath] = p.Types
	})
	w.types["unsafe"] = types.Unsafe
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 5 {
			errs = errs[:5]
		}
		panic(Fatal{"dependencies of the templates: " + strings.Join(errs, "; ")})
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	// the package with the interfaces
	src := "package src\n\nimport \"context\"\n\nvar _ context.Context\n" + tpl.SrcTypes
	var names []string
	for n := range ifcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		src += tpl.SrcDecl(n, ifcs[n])
	}
	w.src = src
	p, files, info, err := w.check(tpl.SrcPath, map[string]string{"src.go": src})
	if err != nil {
		panic(Fatal{"shapes: " + err.Error()})
	}
	w.types[tpl.SrcPath] = p
	prog.CreatePackage(p, files, info, true)
	return w
}

// Import implements types.Importer.
func (w *world) Import(path string) (*types.Package, error) {
	if p := w.types[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

// check type-checks sources as a package.
func (w *world) check(path string, srcs map[string]string) (*types.Package, []*ast.File, *types.Info, error) {
	return w.checkVersion(path, srcs, "go1.22")
}

func (w *world) checkVersion(path string, srcs map[string]string, version string) (*types.Package, []*ast.File, *types.Info, error) {
	var files []*ast.File
	var names []string
	for n := range srcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(w.fset, path+"/"+n, srcs[n], parser.ParseComments)
		if err != nil {
			return nil, nil, nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	cfg := &types.Config{Importer: w, GoVersion: version}
	p, err := cfg.Check(path, w.fset, files, info)
	return p, files, info, err
}

// nameOf guesses or knows the name of a package.
func nameOf(path string) string {
	known := map[string]string{
		"github.com/opentracing/opentracing-go": "opentracing",
		"go.elastic.co/apm/v2":                  "apm",
	}
	if n := known[path]; n != "" {
		return n
	}
	n := path[strings.LastIndex(path, "/")+1:]
	if len(n) > 1 && n[0] == 'v' && strings.Trim(n[1:], "0123456789") == "" {
		path = path[:strings.LastIndex(path, "/")]
		n = path[strings.LastIndex(path, "/")+1:]
	}
	return strings.TrimPrefix(strings.TrimSuffix(n, "-go"), "go-")
}

// expansion is a template expanded for an interface.
type expansion struct {
	tmpl, ifc string
	same      bool
	vars      map[string]interface{}
	ms        []tpl.Method
	src       string
	err       error
	ref       string
}

func (e *expansion) construct() string {
	s := "templates/" + e.tmpl
	if e.ifc != "All" {
		s += " for " + e.ifc
	}
	if e.same {
		s += " in the package of the interface"
	}
	var ks []string
	for k, v := range e.vars {
		ks = append(ks, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		s += " with " + strings.Join(ks, " ")
	}
	return s
}

// expand expands a template of the repository for an interface.
func (c *Ctx) expand(name, ifc string, ms []tpl.Method, same bool, vars map[string]interface{}) *expansion {
	e := &expansion{tmpl: name, ifc: ifc, same: same, vars: vars, ms: ms}
	pkg := "gen"
	if same {
		pkg = "src"
	}
	src, err := tpl.Expand(name, c.tplBody(name), pkg, tpl.NewInputs(ifc, ms, same, vars))
	if err == nil {
		src, err = tpl.FixImports(src, nameOf)
	}
	e.src, e.err = src, err
	return e
}

// refer expands the reference of a template.
func (c *Ctx) refer(e *expansion, kind string) {
	file := filepath.Join(c.Verif, "spec", "tpl", kind)
	b, err := os.ReadFile(file)
	if err != nil {
		panic(Fatal{err.Error()})
	}
	pkg := "gen"
	if e.same {
		pkg = "src"
	}
	src, err := tpl.Expand(kind, string(b), pkg, tpl.NewInputs(e.ifc, e.ms, e.same, e.vars))
	if err == nil {
		src, err = tpl.FixImports(src, nameOf)
	}
	if err != nil {
		panic(Fatal{"reference " + kind + ": " + err.Error()})
	}
	e.ref = src
}

const ruleTpl = "the value graph of the generated method equals that of its reference"

// tplOpts tells how the calls of generated code are treated.
type tplOpts struct {
	ref      string // file with the reference
	classify func(string) vg.Kind
	panics   bool // the decorated method may panic
	leaf     func(u *vg.U, st *vg.State, op string, res []*vg.Term) []*vg.Term
	rewrite  func(u *vg.U, t *vg.Term) *vg.Term
	mutable  func(typ, field string) bool
	vars     map[string]interface{}
	prefixes []string // of the pairs of functions, impl and ref by default
}

// tplSame compares the methods generated by a template with their references.
func (c *Ctx) tplSame(name string, o tplOpts) {
	ms := tpl.Shapes(false, c.Tier == "thorough")
	e := c.expand(name, "All", ms, false, o.vars)
	if e.err != nil {
		c.Bad(ruleTpl, e.construct(), "the template does not expand: %v", e.err)
		return
	}
	if o.ref == "" {
		o.ref = name
	}
	c.refer(e, o.ref)
	paths := map[string]bool{}
	for _, p := range append(tpl.Imports(e.src), tpl.Imports(e.ref)...) {
		paths[p] = true
	}
	w := c.newWorld(paths, map[string][]tpl.Method{"All": ms})
	path := genPath + "/" + name
	_, _, _, err := w.check(path, map[string]string{"gen.go": e.src})
	if err != nil {
		c.Bad(ruleTpl, e.construct(), "the generated code does not compile: %v", err)
		return
	}
	p, files, info, err := w.check(path, map[string]string{"gen.go": e.src, "ref.go": e.ref})
	if err != nil {
		c.Bad(ruleTpl, e.construct(), "the generated code does not have the documented constructor: %v", err)
		return
	}
	sp := w.prog.CreatePackage(p, files, info, true)
	w.prog.Build()
	var impls []string
	for n := range sp.Members {
		if strings.HasPrefix(n, "zimpl") {
			impls = append(impls, n)
		}
	}
	sort.Strings(impls)
	if len(impls) == 0 {
		panic(Fatal{"reference " + o.ref + " has no harness"})
	}
	bad := map[string][]string{}
	for _, n := range impls {
		f, s := sp.Func(n), sp.Func("zref"+strings.TrimPrefix(n, "zimpl"))
		if s == nil {
			panic(Fatal{"no reference for " + n})
		}
		construct := "templates/" + name + " method " + strings.TrimPrefix(n, "zimpl")
		x := vg.NewExec(w.prog, &vg.Config{
			Module: func(p string) bool { return strings.HasPrefix(p, genPath) },
			Classify: func(n string) vg.Kind {
				if strings.HasSuffix(n, ".init") {
					return vg.Ignore
				}
				if strings.Contains(n, genPath) || o.classify == nil {
					return vg.Default
				}
				return o.classify(n)
			},
			Mutable:    o.mutable,
			Structural: true, Init: true,
			Panics: func(n string) bool { return o.panics && strings.HasPrefix(n, "("+tpl.SrcPath+".") },
		})
		if o.leaf != nil {
			x.Leaf = func(st *vg.State, op string, res []*vg.Term) []*vg.Term { return o.leaf(x.U, st, op, res) }
		}
		ts, err := c.graph(x, s, nil)
		if err != nil {
			panic(Fatal{fmt.Sprintf("reference %s: %v", n, err)})
		}
		tf, err := c.graph(x, f, nil)
		if err != nil {
			c.Bad(ruleTpl, construct, "not decided: %v", err)
			continue
		}
		if o.rewrite != nil {
			ts, tf = o.rewrite(x.U, ts), o.rewrite(x.U, tf)
		}
		c.Count("functions inlined into value graphs", len(x.Funcs))
		c.Count("paths compared", vg.Paths(ts))
		c.Count("generated methods", 1)
		if d := vg.Diff(x.U, tf, ts); d != "" {
			c.Bad(ruleTpl, construct, "differs from the reference\n%s\nvalue graph of the code:\n%s\nvalue graph of the reference:\n%s", d, clip(tf.Tree()), clip(ts.Tree()))
			continue
		}
		c.Ok(ruleTpl, construct)
	}
	_ = bad
}
