package chk

import (
	"sort"
	"strings"

	"verif.local/tool/vg"
)

// noNames uses that names and types are never empty, so that a list of them is
// joined to the empty string only if it is empty.
func noNames(u *vg.U, t *vg.Term) *vg.Term {
	for i := 0; i < 4; i++ {
		n := u.Map(t, func(s *vg.Term) *vg.Term {
			if s.Op == "eq" && s.Args[0].Op == "join" && s.Args[1].Op == "str" && s.Args[1].Aux == "" {
				return u.Eq(u.Len(s.Args[0].Args[0], "l"), u.Num(0))
			}
			return nil
		})
		if n == t {
			break
		}
		t = n
	}
	return t
}

// anyErr does not tell errors made by the code from each other.
func anyErr(u *vg.U, t *vg.Term) *vg.Term {
	return u.Map(t, func(s *vg.Term) *vg.Term {
		if s.Op == "sentinel" {
			return u.Raw("newerr", "")
		}
		return nil
	})
}

// flagTable replaces the registration of flags by the set of flags.
func flagTable(u *vg.U, t *vg.Term) *vg.Term {
	set := u.Raw("flagset", "")
	flags := map[string]*vg.Term{}
	isReg := func(d *vg.Term) bool { return d.Op == "do" && strings.Contains(d.Aux, "flag.FlagSet).") }
	var leaf *vg.Term
	for leaf = t; leaf.Op == "eff" && isReg(leaf.Args[0]); leaf = leaf.Args[1] {
		d := leaf.Args[0]
		name := d.Aux[strings.Index(d.Aux, ").")+2:]
		if i := strings.Index(name, "#"); i >= 0 {
			name = name[:i]
		}
		var l []*vg.Term
		for i, a := range d.Args {
			if i == 0 || i == len(d.Args)-1 {
				continue
			}
			a = u.Map(a, func(s *vg.Term) *vg.Term {
				if s.Op == "ref" && (s.Args[0].Op == "struct" || s.Args[0].Op == "mut") {
					return u.Raw("self", "")
				}
				return nil
			})
			l = append(l, a)
		}
		f := u.Raw("flag", name, l...)
		flags[f.String()] = f
	}
	isSet := func(s *vg.Term) bool {
		if s.Op != "ref" {
			return false
		}
		a := s.Args[0]
		return a.Op == "mut" && isReg(a.Args[0]) || a.Op == "struct" && strings.HasPrefix(a.Aux, "flag.FlagSet,")
	}
	leaf = u.Map(leaf, func(s *vg.Term) *vg.Term {
		if isSet(s) {
			return set
		}
		return nil
	})
	leaf = u.Map(leaf, func(s *vg.Term) *vg.Term {
		if s.Op == "struct" && strings.HasPrefix(s.Aux, rootPath+".BaseCommand,") {
			return u.Sel(s, "Flags")
		}
		return nil
	})
	var keys []string
	for k := range flags {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var l []*vg.Term
	for _, k := range keys {
		l = append(l, flags[k])
	}
	return u.Raw("command", "", append([]*vg.Term{leaf}, l...)...)
}

// fixMap applies a rewriting until nothing changes.
func fixMap(u *vg.U, t *vg.Term, f func(*vg.Term) *vg.Term) *vg.Term {
	for i := 0; i < 8; i++ {
		n := u.Map(t, f)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// keepFields hides all fields but the given ones of values of struct types.
func keepFields(types map[string]string) func(u *vg.U, t *vg.Term) *vg.Term {
	return func(u *vg.U, t *vg.Term) *vg.Term {
		any := u.Raw("hidden", "")
		return fixMap(u, t, func(s *vg.Term) *vg.Term {
			if s.Op != "struct" {
				return nil
			}
			f := strings.Split(s.Aux, ",")
			keep, ok := types[f[0][strings.LastIndex(f[0], "/")+1:]]
			if !ok {
				return nil
			}
			args := append([]*vg.Term(nil), s.Args...)
			changed := false
			for i, n := range f[1:] {
				if !strings.Contains(" "+keep+" ", " "+n+" ") && args[i] != any {
					args[i], changed = any, true
				}
			}
			if !changed {
				return nil
			}
			return u.Raw("struct", s.Aux, args...)
		})
	}
}

// failures keeps of results only whether they are errors.
func failures(u *vg.U, t *vg.Term) *vg.Term {
	ok := u.Raw("ret", "ok")
	return fixMap(u, t, func(s *vg.Term) *vg.Term {
		if s.Op == "ret" && s != ok {
			l := s.Args
			for len(l) > 0 && l[len(l)-1].Op == "memset" {
				l = l[:len(l)-1]
			}
			if len(l) > 0 && l[len(l)-1].Op == "nil" {
				return ok
			}
		}
		return nil
	})
}

const typePrinter = "typePrinter).PrintType"

var (
	inNewMethod  = opaque(typePrinter, "generator.makeParams!")
	inMakeParams = opaque(typePrinter, "generator.NewParam!")
	inNewParam   = opaque(typePrinter, "generator.buildGenericParamsString")
	inFindTarget = opaque("generator.buildGenericTypesFromSpec", "generator.processInterface!", "generator.findImportPathForName", "pkg.Load!", "pkg.AST!", "generator.findTarget!", "generator.typeSpecs")
	inInterface  = opaque(typePrinter, "generator.buildGenericParamsString", "generator.NewMethod", "generator.processIdent!", "generator.processSelector!", "generator.mergeMethods", "generator.processInterface!")
	inSelector   = opaque("generator.findImportPathForName", "pkg.AST!", "generator.findTarget!")
	inIdent      = opaque("generator.buildGenericTypesFromSpec", "generator.typeSpecs", "generator.processInterface!")
	inGenerator  = opaque("pkg.Load!", "pkg.AST!", "generator.findTarget!", "buildVars")
)

// methods compares how methods are made, with some fields of them.
func (c *Ctx) methods(keep map[string]string, level int) {
	var r func(u *vg.U, t *vg.Term) *vg.Term
	if keep != nil {
		r = keepFields(keep)
	}
	c.methodsR(r, level)
}

func (c *Ctx) methodsR(r func(u *vg.U, t *vg.Term) *vg.Term, level int) {
	c.same(vgOpts{classify: inNewMethod, rewrite: r}, pair{fn: "generator.NewMethod", spec: "generator.specNewMethod"})
	if level > 0 {
		c.same(vgOpts{classify: inMakeParams, rewrite: r}, pair{fn: "generator.makeParams", spec: "generator.specParams"})
		c.same(vgOpts{classify: inNewParam, rewrite: r}, pair{fn: "generator.NewParam", spec: "generator.specNewParam"})
	}
}

// collection compares how the methods of an interface are found.
func (c *Ctx) collection(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inFindTarget, rewrite: r}, pair{fn: "generator.findTarget", spec: "generator.specFindTarget"})
	c.same(vgOpts{rewrite: r}, pair{fn: "generator.typeSpecs", spec: "generator.specTypeSpecs"})
	c.same(vgOpts{classify: inInterface, rewrite: r}, pair{fn: "generator.processInterface", spec: "generator.specInterface"})
	c.same(vgOpts{classify: inSelector, rewrite: r}, pair{fn: "generator.processSelector", spec: "generator.specSelector"})
	c.same(vgOpts{classify: inIdent, rewrite: r}, pair{fn: "generator.processIdent", spec: "generator.specIdent"})
	c.same(vgOpts{rewrite: r}, pair{fn: "generator.mergeMethods", spec: "generator.specMerge"})
}

func (c *Ctx) printed(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: opaque("printer.Printer).PrintType^"), rewrite: r, eqs: true, init: true},
		pair{fn: "printer.rootPrintType", spec: "printer.specPrintType"})
}

func (c *Ctx) selectors() {
	c.same(vgOpts{classify: opaque("generator.unquote")},
		pair{fn: "generator.findImportPathForName", spec: "generator.specImportPath"})
	c.same(vgOpts{nonEmpty: true}, pair{fn: "generator.unquote", spec: "generator.specUnquote"})
}

func (c *Ctx) newGenerator(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inGenerator, rewrite: r}, pair{fn: "generator.NewGenerator", spec: "generator.specNewGenerator"})
}

// generate compares what templates are given and what is written, with some fields of it.
func (c *Ctx) generate(keep map[string]string) {
	var r func(u *vg.U, t *vg.Term) *vg.Term
	if keep != nil {
		r = keepFields(keep)
	}
	c.same(vgOpts{rewrite: r}, pair{fn: "(generator.Generator).Generate", spec: "generator.specGenerate"})
}

func (c *Ctx) target(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inFindTarget, rewrite: r}, pair{fn: "generator.findTarget", spec: "generator.specFindTarget"})
}

func (c *Ctx) iface(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inInterface, rewrite: r}, pair{fn: "generator.processInterface", spec: "generator.specInterface"})
}

func (c *Ctx) selector(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inSelector, rewrite: r}, pair{fn: "generator.processSelector", spec: "generator.specSelector"})
}

func (c *Ctx) ident(r func(u *vg.U, t *vg.Term) *vg.Term) {
	c.same(vgOpts{classify: inIdent, rewrite: r}, pair{fn: "generator.processIdent", spec: "generator.specIdent"})
}

func init() {
	gen := func(f string) func(*vg.U, *vg.Term) *vg.Term {
		return keepFields(map[string]string{"generator.Generator": f})
	}
	register("C01", func(c *Ctx) {
		c.collection(nil)
		c.newGenerator(gen("methods"))
	})
	register("C02", func(c *Ctx) {
		c.methods(nil, 1)
		c.declared()
	})
	register("C03", func(c *Ctx) {
		c.methods(map[string]string{"generator.Param": "Name", "generator.Method": "Params Results"}, 1)
	})
	register("C06", func(c *Ctx) {
		c.methods(map[string]string{"generator.Param": "Type", "generator.Method": "ReturnsError AcceptsContext"}, 0)
	})
	register("C07", func(c *Ctx) { c.printed(nil) })
	register("C08", func(c *Ctx) {
		c.printed(nil)
		c.newGenerator(gen("Options interfaceType methods"))
		c.target(nil)
		c.iface(nil)
		c.selector(nil)
	})
	register("C09", func(c *Ctx) {
		c.printed(failures)
		c.newGenerator(failures)
		c.target(failures)
		c.iface(failures)
		c.methodsR(failures, 1)
	})
	register("C10", func(c *Ctx) {
		c.same(vgOpts{rewrite: noNames}, pair{fn: "(generator.genericTypes).buildVars", spec: "generator.specBuildVars"})
		c.same(vgOpts{classify: opaque(typePrinter, "printer.Printer).PrintType")}, pair{fn: "generator.buildGenericTypesFromSpec", spec: "generator.specGenericTypes"})
		c.newGenerator(gen("genericTypes genericParams"))
		c.target(keepFields(map[string]string{"generator.processOutput": "genericTypes"}))
		c.generate(map[string]string{"generator.TemplateInputs": "Interface", "generator.TemplateInputInterface": "Generics"})
	})
	register("C11", func(c *Ctx) {
		c.same(vgOpts{classify: opaque("genericParam).String^"), rewrite: noNames}, pair{fn: "generator.rootGenericParam", spec: "generator.specGenericParam"})
		c.same(vgOpts{classify: opaque("genericParam).String")}, pair{fn: "generator.buildGenericParamsString", spec: "generator.specSubstitute"})
		c.iface(nil)
		c.selector(nil)
		c.ident(nil)
		c.target(nil)
		c.methods(map[string]string{"generator.Param": "Type", "generator.Method": "Params Results"}, 1)
	})
	register("C12", func(c *Ctx) {
		c.selectors()
		c.selector(nil)
		c.ident(nil)
		c.target(nil)
	})
	register("C13", func(c *Ctx) {
		c.collection(failures)
		c.newGenerator(failures)
		c.same(vgOpts{rewrite: failures}, pair{fn: "(generator.Generator).Generate", spec: "generator.specGenerate"}, pair{fn: "pkg.Load", spec: "pkg.specLoad"}, pair{fn: "pkg.AST", spec: "pkg.specAST"})
		c.optionsR(failures)
		c.run(failures)
		c.methodsR(failures, 1)
		c.printed(failures)
	})
	register("C28", func(c *Ctx) {
		c.same(vgOpts{}, pair{fn: "pkg.Load", spec: "pkg.specLoad"}, pair{fn: "pkg.Dir", spec: "pkg.specDir"}, pair{fn: "pkg.AST", spec: "pkg.specAST"})
		c.newGenerator(gen("srcPackage dstPackage"))
		c.options("SourcePackage SourcePackageInstance")
		c.header(rulePackage)
	})
	register("C26", func(c *Ctx) {
		c.same(vgOpts{nonEmpty: true}, pair{fn: "(generator.TemplateInputs).Import", spec: "generator.specImport"})
		c.newGenerator(gen("Options"))
		c.target(keepFields(map[string]string{"generator.processOutput": "imports"}))
		c.generate(map[string]string{"generator.TemplateInputs": "Imports"})
		c.header(ruleImports)
	})
	register("C29", func(c *Ctx) {
		c.generate(nil)
		c.newGenerator(nil)
		c.options("")
	})
	register("C27", func(c *Ctx) {
		c.same(vgOpts{}, pair{fn: "(*.TemplateCommand).list", spec: ".specTemplateList"}, pair{fn: "(*.TemplateCommand).fetch", spec: ".specTemplateFetch"})
		c.same(vgOpts{classify: opaque("TemplateCommand).list!", "TemplateCommand).fetch!")}, pair{fn: "(*.TemplateCommand).Run", spec: ".specTemplateRun"})
		c.same(vgOpts{rewrite: keepFields(map[string]string{"gowrap.BaseCommand": "Flags"})}, pair{fn: ".NewTemplateCommand", spec: ".specNewTemplate"})
	})
	register("C23", func(c *Ctx) {
		c.same(vgOpts{errs: true, rewrite: anyErr}, pair{fn: "cmd/gowrap.main", spec: "cmd/gowrap.specMain"})
		c.same(vgOpts{initCode: true, rewrite: registrations, classify: opaque("gowrap.RegisterCommand!", "gowrap.NewGenerateCommand", "gowrap.NewTemplateCommand", "loader.New")}, pair{fn: "cmd/gowrap.rootStart", spec: "cmd/gowrap.specStart"})
		c.same(vgOpts{},
			pair{fn: ".RegisterCommand", spec: ".specRegister"},
			pair{fn: ".GetCommand", spec: ".specGetCommand"},
			pair{fn: "(.BaseCommand).ShortDescription", spec: ".specShort"},
			pair{fn: "(.BaseCommand).UsageLine", spec: ".specUsageLine"},
			pair{fn: "(.BaseCommand).FlagSet", spec: ".specFlagSet"},
			pair{fn: "(.BaseCommand).HelpMessage", spec: ".specHelpMessage"},
			pair{fn: ".Usage", spec: ".specUsage"},
		)
		usage := func(e *vg.Term) string {
			if e.Op == "iface" && strings.HasSuffix(e.Aux, "gowrap.CommandLineError") {
				return "usage"
			}
			return ""
		}
		c.same(vgOpts{errKind: usage, classify: inRun, rewrite: failures}, pair{fn: "(*.GenerateCommand).Run", spec: ".specRun"})
		c.same(vgOpts{errKind: usage, rewrite: failures}, pair{fn: "(*.TemplateCommand).list", spec: ".specTemplateList"}, pair{fn: "(*.TemplateCommand).fetch", spec: ".specTemplateFetch"})
		c.same(vgOpts{errKind: usage, rewrite: failures, classify: opaque("TemplateCommand).list!", "TemplateCommand).fetch!")}, pair{fn: "(*.TemplateCommand).Run", spec: ".specTemplateRun"})
	})
}

// registrations keeps of the start of the program what is done to register commands.
func registrations(u *vg.U, t *vg.Term) *vg.Term {
	return fixMap(u, t, func(s *vg.Term) *vg.Term {
		switch {
		case s.Op == "eff" && strings.Contains(s.Args[0].Aux, ".init#"):
			return s.Args[1]
		case s.Op == "ret" && len(s.Args) > 0:
			return u.Raw("ret", "")
		}
		return nil
	})
}
