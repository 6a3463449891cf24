package chk

import (
	"go/types"
	"sort"
	"strings"

	"verif.local/tool/tpl"
)

const (
	ruleCompiles   = "the expanded template type-checks"
	ruleImplements = "a type of the expanded template implements the interface with exactly its methods"
	ruleNamed      = "the expanded template declares the documented names"
)

// variants of the documented variables of a template.
func variants(body string) []map[string]interface{} {
	out := []map[string]interface{}{{}}
	all := map[string]interface{}{}
	for _, v := range []struct{ name, val string }{
		{"DecoratorName", "ZNamed"}, {"MetricName", "zmetric"}, {"ComponentName", "zcomponent"}, {"SpanNamePrefix", "zspan"},
	} {
		if strings.Contains(body, ".Vars."+v.name) {
			all[v.name] = v.val
			out = append(out, map[string]interface{}{v.name: v.val})
		}
	}
	if len(all) > 1 {
		out = append(out, all)
	}
	return out
}

func init() {
	register("C30", func(c *Ctx) {
		names := c.bundled()
		c.Rule("each bundled template is expanded for every shape of method alone and for all shapes together, next to the interface and in another package, with and without its documented variables; the sources are type-checked")
		type group struct {
			ifc  string
			ms   map[bool][]tpl.Method
			all  bool
			only bool
		}
		deep := c.Tier == "thorough"
		far, near := tpl.Shapes(false, true), tpl.Shapes(true, true)
		groups := []group{{ifc: "All", all: true, ms: map[bool][]tpl.Method{false: far, true: near}}}
		for i := range far {
			groups = append(groups, group{ifc: "Only" + far[i].Name, only: true, ms: map[bool][]tpl.Method{false: far[i : i+1], true: near[i : i+1]}})
		}
		// lower-case interface: its decorators live in its package only
		groups = append(groups, group{ifc: "private", ms: map[bool][]tpl.Method{true: near}})
		// two methods of different kinds
		for i := range far {
			j := (i*7 + 5) % len(far)
			if i != j && deep {
				groups = append(groups, group{ifc: "Two" + far[i].Name, only: true, ms: map[bool][]tpl.Method{false: {far[i], far[j]}, true: {near[i], near[j]}}})
			}
		}
		ifcs := map[string][]tpl.Method{}
		for _, g := range groups {
			ms := g.ms[false]
			if ms == nil {
				ms = g.ms[true]
			}
			ifcs[g.ifc] = ms
		}
		var es []*expansion
		paths := map[string]bool{}
		for _, n := range names {
			vs := variants(c.tplBody(n))
			for _, g := range groups {
				for _, same := range []bool{false, true} {
					if g.ms[same] == nil {
						continue
					}
					for i, v := range vs {
						if i > 0 && !g.all && !deep {
							continue
						}
						e := c.expand(n, g.ifc, g.ms[same], same, v)
						es = append(es, e)
						for _, p := range tpl.Imports(e.src) {
							paths[p] = true
						}
					}
				}
			}
		}
		w := c.newWorld(paths, ifcs)
		decorators := 0
		for _, e := range es {
			if e.err != nil {
				c.Bad(ruleCompiles, e.construct(), "does not expand: %v", e.err)
				continue
			}
			var p *types.Package
			var err error
			if e.same {
				p, _, _, err = w.check(tpl.SrcPath, map[string]string{"src.go": w.src, "gen.go": e.src})
			} else {
				p, _, _, err = w.check(genPath, map[string]string{"gen.go": e.src})
			}
			if err != nil {
				c.Bad(ruleCompiles, e.construct(), "%v", err)
				continue
			}
			c.Ok(ruleCompiles, e.construct())
			src := w.types[tpl.SrcPath]
			if e.same {
				src = p
			}
			ifc := src.Scope().Lookup(e.ifc).Type().Underlying().(*types.Interface)
			found := ""
			for _, n := range p.Scope().Names() {
				tn, ok := p.Scope().Lookup(n).(*types.TypeName)
				if !ok || w.fset.Position(tn.Pos()).Filename == tpl.SrcPath+"/src.go" || types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if !types.Implements(t, ifc) {
						continue
					}
					if found == "" {
						found = n
					}
					break
				}
			}
			c.Check(found != "", ruleImplements, e.construct(), "no type has the methods of the interface")
			if found == "" {
				continue
			}
			decorators++
			want, ok := e.vars["DecoratorName"].(string)
			if ok {
				o, isType := p.Scope().Lookup(want).(*types.TypeName)
				c.Check(isType && o != nil && found == want, ruleNamed, e.construct(), "the decorator is not named %s", want)
				c.Check(p.Scope().Lookup("New"+want) != nil, ruleNamed, e.construct(), "there is no constructor New%s", want)
			}
		}
		c.Count("templates", len(names))
		c.Count("expansions type-checked", len(es))
		c.Count("decorators", decorators)
		for _, n := range []string{"log", "retry", "fallback", "circuitbreaker"} {
			i := sort.SearchStrings(names, n)
			c.Check(i < len(names) && names[i] == n, "the bundled templates must be found", "templates/"+n, "no such template")
		}
	})
}
