package chk

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif.local/tool/vg"
)

const ruleUsed = "the error returned by a call is used"

// neverFails are functions whose error is documented to be nil always.
func neverFails(c *ssa.CallCommon, name string) bool {
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).Write", "(hash.Hash)"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if !strings.HasPrefix(name, "fmt.Fprint") && name != "io.WriteString" {
		return false
	}
	w := c.Args[0]
	for {
		if m, ok := w.(*ssa.MakeInterface); ok {
			w = m.X
			continue
		}
		if m, ok := w.(*ssa.ChangeInterface); ok {
			w = m.X
			continue
		}
		break
	}
	switch w.Type().String() {
	case "*strings.Builder", "*bytes.Buffer":
		return true
	}
	// there is nowhere to report a failure of the standard error output
	if l, ok := w.(*ssa.UnOp); ok {
		if g, ok := l.X.(*ssa.Global); ok && g.RelString(nil) == "os.Stderr" {
			return true
		}
	}
	return false
}

// usedErrors checks that no call site drops an error.
func (c *Ctx) usedErrors() {
	m := c.Root()
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	for _, f := range c.repoFuncs() {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				res := cc.Signature().Results()
				if res.Len() == 0 || !isErr(res.At(res.Len()-1).Type()) {
					continue
				}
				name := "a function value"
				if s := cc.StaticCallee(); s != nil {
					name = vg.FuncName(s)
				} else if cc.IsInvoke() {
					name = cc.Method.Name()
				}
				on := m.Pos(f) + " " + f.RelString(nil) + " calls " + name
				// the first error on a path is the one that is reported
				if neverFails(cc, name) || name == "Close" || strings.HasSuffix(name, ").Close") {
					continue
				}
				used := false
				if v, ok := in.(*ssa.Call); ok {
					for _, r := range *v.Referrers() {
						switch r := r.(type) {
						case *ssa.Extract:
							if r.Index == res.Len()-1 {
								for _, rr := range *r.Referrers() {
									if _, ok := rr.(*ssa.DebugRef); !ok {
										used = true
									}
								}
							}
						case *ssa.DebugRef:
						default:
							used = true
						}
					}
				}
				c.Count("calls that return an error", 1)
				if !used {
					c.Bad(ruleUsed, f.RelString(nil)+" calls "+name, "%s and drops its error", on)
				} else {
					c.Ok(ruleUsed, f.RelString(nil)+" calls "+name)
				}
			}
		}
	}
}

// failing compares when every operation fails.
func (c *Ctx) failing() {
	r := failures
	opt := opaque("gowrap.varsToArgs", "gowrap/pkg.Load!")
	c.methodsR(r, 1)
	c.collection(r)
	c.printed(r)
	c.newGenerator(r)
	c.same(vgOpts{rewrite: r, classify: opaque(typePrinter, "printer.Printer).PrintType")}, pair{fn: "generator.buildGenericTypesFromSpec", spec: "generator.specGenericTypes"})
	c.same(vgOpts{rewrite: r},
		pair{fn: "(generator.Generator).Generate", spec: "generator.specGenerate"},
		pair{fn: "pkg.Load", spec: "pkg.specLoad"}, pair{fn: "pkg.Dir", spec: "pkg.specDir"}, pair{fn: "pkg.AST", spec: "pkg.specAST"})
	c.same(vgOpts{rewrite: r, classify: opt}, pair{fn: "(*.GenerateCommand).getOptions", spec: ".specOptions"})
	c.same(vgOpts{rewrite: r, classify: opaque("getOptions!", "generator.NewGenerator!", "Generate!")}, pair{fn: "(*.GenerateCommand).Run", spec: ".specRun"})
	c.same(vgOpts{rewrite: r}, pair{fn: "(.loader).Load", spec: ".specLoad"}, pair{fn: "(*.vars).Set", spec: ".specSet"})
	get := "Loader).get!"
	c.same(vgOpts{rewrite: r, classify: opaque(get)},
		pair{fn: "(loader.Loader).fetchFromGithub", spec: "loader.specGithub"}, pair{fn: "(loader.Loader).List", spec: "loader.specList"})
	c.same(vgOpts{rewrite: r, classify: opaque(get, "fetchFromGithub!")}, pair{fn: "(loader.Loader).Load", spec: "loader.specLoad"})
	c.same(vgOpts{rewrite: r}, pair{fn: "(loader.Loader).get", spec: "loader.specGet"}, pair{fn: "loader.gitRootPath", spec: "loader.specGitRoot"})
	c.same(vgOpts{rewrite: r}, pair{fn: "(*.TemplateCommand).list", spec: ".specTemplateList"}, pair{fn: "(*.TemplateCommand).fetch", spec: ".specTemplateFetch"})
	c.same(vgOpts{rewrite: r, classify: opaque("TemplateCommand).list!", "TemplateCommand).fetch!")}, pair{fn: "(*.TemplateCommand).Run", spec: ".specTemplateRun"})
	c.same(vgOpts{errs: true, rewrite: anyErr}, pair{fn: "cmd/gowrap.main", spec: "cmd/gowrap.specMain"})
	c.same(vgOpts{rewrite: r}, pair{fn: "(.BaseCommand).HelpMessage", spec: ".specHelpMessage"}, pair{fn: ".Usage", spec: ".specUsage"})
}

func init() {
	register("C15", func(c *Ctx) {
		c.usedErrors()
		c.failing()
	})
}
