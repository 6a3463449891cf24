package chk

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif.local/tool/vg"
)

var (
	inOptions = opaque("gowrap.varsToArgs", "gowrap/pkg.Load!")
	inRun     = opaque("getOptions!", "generator.NewGenerator!", "Generate!")
	inGet     = opaque("Loader).get!")
)

// options compares how the options of the generator are made, with some of them.
func (c *Ctx) options(keep string) {
	r := noHeader
	if keep != "" {
		r = keepFields(map[string]string{"generator.Options": keep})
	}
	c.optionsR(r)
}

func (c *Ctx) optionsR(r func(u *vg.U, t *vg.Term) *vg.Term) {
	r2 := func(u *vg.U, t *vg.Term) *vg.Term { return r(u, noSource(u, t)) }
	c.same(vgOpts{classify: inOptions, rewrite: r2}, pair{fn: "(*.GenerateCommand).getOptions", spec: ".specOptions"})
}

// noSource ignores that the field with the path of the source package may be replaced by
// the path that is used: only the options are read from then on.
func noSource(u *vg.U, t *vg.Term) *vg.Term {
	return fixMap(u, t, func(s *vg.Term) *vg.Term {
		if s.Op != "ret" {
			return nil
		}
		for i, a := range s.Args {
			f := strings.Split(a.Aux, ",")
			if a.Op != "memset" || !strings.HasSuffix(f[0], "gowrap.GenerateCommand") {
				continue
			}
			m, aux := []*vg.Term{a.Args[0]}, f[0]
			for j, n := range f[1:] {
				if n != "sourcePkg" {
					m, aux = append(m, a.Args[j+1]), aux+","+n
				}
			}
			if len(m) == len(a.Args) {
				continue
			}
			args := append([]*vg.Term(nil), s.Args[:i]...)
			if len(m) > 1 {
				args = append(args, u.Raw("memset", aux, m...))
			}
			return u.Raw("ret", s.Aux, append(args, s.Args[i+1:]...)...)
		}
		return nil
	})
}

// run compares the run of the gen command.
func (c *Ctx) run(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inRun, rewrite: r}, pair{fn: "(*.GenerateCommand).Run", spec: ".specRun"})
}

// command compares how the gen command is made, with some of its fields.
func (c *Ctx) command(keep string) {
	r := flagTable
	if keep != "" {
		k := keepFields(map[string]string{"gowrap.GenerateCommand": keep})
		r = func(u *vg.U, t *vg.Term) *vg.Term {
			t = k(u, flagTable(u, t))
			if t.Op == "command" {
				return t.Args[0]
			}
			return t
		}
	}
	c.same(vgOpts{rewrite: r}, pair{fn: ".NewGenerateCommand", spec: ".specNewGenerate"})
}

// remote compares how templates are loaded from elsewhere.
func (c *Ctx) remote(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inGet, rewrite: r},
		pair{fn: "(loader.Loader).fetchFromGithub", spec: "loader.specGithub"},
		pair{fn: "(loader.Loader).List", spec: "loader.specList"},
	)
	c.same(vgOpts{classify: opaque("Loader).get!", "fetchFromGithub!"), rewrite: r},
		pair{fn: "(loader.Loader).Load", spec: "loader.specLoad"})
}

// varFacts is what holds of the values of variables if everything that is stored there is
// a string or a bool: what is not the one is the other.
func (c *Ctx) varFacts() func(u *vg.U, x *vg.Term, typ string) *vg.Term {
	m := c.Root()
	set := m.Fn("(*.vars).Set")
	if set == nil {
		return nil
	}
	list, ok := set.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	stored := 0
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.IsInterface(st.Val.Type()) || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), list.Elem()) {
					continue
				}
				if strings.HasPrefix(f.Name(), "spec") {
					continue
				}
				if !stringOrBool(st.Val, 0) {
					return nil
				}
				stored++
			}
		}
	}
	if stored == 0 {
		return nil
	}
	return func(u *vg.U, x *vg.Term, typ string) *vg.Term {
		if typ == "bool" && x.Op == "sel" && x.Args[0].Op == "index" {
			return u.Not(u.TypeIs(x, "string"))
		}
		return nil
	}
}

func stringOrBool(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		b, ok := v.X.Type().(*types.Basic)
		return ok && (b.Kind() == types.String || b.Kind() == types.Bool)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if depth > 3 || !stringOrBool(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register("C19", func(c *Ctx) {
		c.same(vgOpts{},
			pair{fn: "(*.vars).Set", spec: ".specSet"},
			pair{fn: "(.vars).toMap", spec: ".specToMap"},
		)
		c.command("")
		c.options("")
		c.newGenerator(keepFields(map[string]string{"generator.Generator": "Options localPrefix"}))
		c.generate(map[string]string{"generator.TemplateInputs": "Vars"})
	})
	register("C18", func(c *Ctx) {
		c.same(vgOpts{}, pair{fn: "(*.vars).Set", spec: ".specSet"})
		c.same(vgOpts{is: c.varFacts()}, pair{fn: ".varsToArgs", spec: ".specVarsToArgs"})
		c.options("")
		c.header(rulePackage, ruleDirect)
		c.generate(map[string]string{"generator.TemplateInputs": ""})
	})
	register("C16", func(c *Ctx) {
		c.run(nil)
		c.command("filepath")
	})
	register("C20", func(c *Ctx) {
		c.same(vgOpts{}, pair{fn: "(.loader).Load", spec: ".specLoad"})
		c.options("BodyTemplate HeaderVars")
		c.command("loader")
	})
	register("C21", func(c *Ctx) {
		c.remote(nil)
		c.same(vgOpts{}, pair{fn: "loader.New", spec: "loader.specNew"}, pair{fn: "loader.gitRootPath", spec: "loader.specGitRoot"})
	})
	register("C22", func(c *Ctx) {
		c.same(vgOpts{}, pair{fn: "(loader.Loader).get", spec: "loader.specGet"})
		c.remote(failures)
	})
	register("C25", func(c *Ctx) {
		c.same(vgOpts{}, pair{fn: ".upFirst", spec: ".specUpFirst"}, pair{fn: ".downFirst", spec: ".specDownFirst"})
		c.same(vgOpts{init: true, classify: opaque("sprig/v3.TxtFuncMap", "sprig.TxtFuncMap", "gowrap.upFirst", "gowrap.downFirst", "gowrap.toSnakeCase")}, pair{fn: ".rootHelpers", spec: ".specHelpers"})
		c.same(vgOpts{init: true, rewrite: regexps}, pair{fn: ".toSnakeCase", spec: ".specSnake"})
		c.options("Funcs")
	})
}
