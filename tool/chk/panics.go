package chk

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif.local/tool/vg"
)

// panicRoot is a function analysed for operations that panic, with the functions
// it calls.
type panicRoot struct {
	fn   string
	opts vgOpts
}

func panicRoots() []panicRoot {
	get := "Loader).get!"
	l := []panicRoot{
		{"generator.NewMethod", vgOpts{classify: inNewMethod}},
		{"generator.makeParams", vgOpts{classify: inMakeParams}},
		{"generator.NewParam", vgOpts{classify: inNewParam}},
		{"generator.findTarget", vgOpts{classify: inFindTarget}},
		{"generator.processInterface", vgOpts{classify: inInterface}},
		{"generator.processSelector", vgOpts{classify: inSelector}},
		{"generator.processIdent", vgOpts{classify: inIdent}},
		{"printer.rootPrintType", vgOpts{classify: opaque("printer.Printer).PrintType^"), eqs: true, init: true}},
		{"generator.findImportPathForName", vgOpts{}},
		{"generator.NewGenerator", vgOpts{classify: inGenerator}},
		{"generator.buildGenericTypesFromSpec", vgOpts{classify: opaque(typePrinter, "printer.Printer).PrintType")}},
		{"generator.rootGenericParam", vgOpts{classify: opaque("genericParam).String^")}},
		{"generator.buildGenericParamsString", vgOpts{classify: opaque("genericParam).String")}},
		{"(generator.Generator).Generate", vgOpts{}},
		{"(*.TemplateCommand).Run", vgOpts{classify: opaque("TemplateCommand).list!", "TemplateCommand).fetch!")}},
		{"cmd/gowrap.main", vgOpts{}},
		{".NewGenerateCommand", vgOpts{}},
		{"(*.GenerateCommand).getOptions", vgOpts{classify: opaque("gowrap.varsToArgs", "gowrap/pkg.Load!")}},
		{"(*.GenerateCommand).Run", vgOpts{classify: opaque("getOptions!", "generator.NewGenerator!", "Generate!")}},
		{"(loader.Loader).fetchFromGithub", vgOpts{classify: opaque(get)}},
		{"(loader.Loader).List", vgOpts{classify: opaque(get)}},
		{"(loader.Loader).Load", vgOpts{classify: opaque(get, "fetchFromGithub!")}},
		{".toSnakeCase", vgOpts{init: true}},
	}
	return l
}

const rulePanic = "no operation that panics can be reached"

func (c *Ctx) panics() {
	m := c.Root()
	seen := map[*ssa.Function]bool{}
	opts := map[*ssa.Function]vgOpts{}
	for _, r := range panicRoots() {
		if f := m.Fn(r.fn); f != nil {
			opts[f] = r.opts
		}
	}
	// the reachable panics of a function if some of its parameters may be nil
	reach := func(f *ssa.Function, o vgOpts, ns []vg.Need) (map[string]bool, *vg.Exec, *vg.Term, error) {
		o.guards = true
		if ns != nil {
			o.nilParam = func(t *vg.Term) bool {
				for _, n := range ns {
					if isNeed(t, n) {
						return true
					}
				}
				return false
			}
		}
		x := c.newExec(o)
		t, err := c.graph(x, f, nil)
		if err != nil {
			return nil, x, nil, err
		}
		found := reachable(f, t)
		for g, t := range x.Recursive() {
			for s := range reachable(g, t) {
				found[s] = true
			}
		}
		return found, x, t, nil
	}
	memo := map[*ssa.Function][]vg.Need{}
	var stack []*ssa.Function
	partial, before := map[*ssa.Function]bool{}, map[*ssa.Function][]vg.Need{}
	var needs func(o vgOpts) func(f *ssa.Function) []vg.Need
	needs = func(o vgOpts) func(f *ssa.Function) []vg.Need {
		return func(f *ssa.Function) []vg.Need {
			if l, ok := memo[f]; ok {
				for i, g := range stack {
					if g == f {
						// what is between them is not complete
						for _, h := range stack[i+1:] {
							partial[h] = true
						}
					}
				}
				return l
			}
			memo[f] = before[f]
			stack = append(stack, f)
			defer func() { stack = stack[:len(stack)-1] }()
			var cand []vg.Need
			for i, p := range f.Params {
				if i > 0 || f.Signature.Recv() == nil {
					cand = candidates(cand, vg.Need{Param: i}, p.Type())
				}
			}
			if len(cand) == 0 {
				return nil
			}
			o := o
			if r, ok := opts[f]; ok {
				o = r
			}
			o.needs = needs(o)
			base, _, _, err := reach(f, o, nil)
			if err != nil {
				return nil
			}
			more := func(ns []vg.Need) bool {
				with, _, _, err := reach(f, o, ns)
				if os.Getenv("VERIF_GRAPH") == "needs" {
					fmt.Println("needs? ", f, ns, err, len(base), len(with))
				}
				if err != nil {
					return false
				}
				for s := range with {
					if !base[s] {
						return true
					}
				}
				return false
			}
			var l []vg.Need
			if len(cand) == 1 || more(cand) {
				for _, n := range cand {
					if more([]vg.Need{n}) {
						l = append(l, n)
					}
				}
			}
			memo[f] = l
			if os.Getenv("VERIF_GRAPH") == "needs" {
				fmt.Println("needs", f, l)
			}
			return l
		}
	}
	run := func(name string, f *ssa.Function, o vgOpts) {
		o.needs = needs(o)
		seen[f] = true
		found, x, t, err := reach(f, o, nil)
		for g := range x.Funcs {
			seen[g] = true
		}
		if err != nil {
			c.Bad(rulePanic, name, "%s: not decided: %v", m.Pos(f), err)
			return
		}
		if os.Getenv("VERIF_GRAPH") == name {
			fmt.Println(t.Tree())
		}
		if len(found) == 0 {
			c.Ok(rulePanic, name)
			return
		}
		var l []string
		for s := range found {
			l = append(l, s)
		}
		sort.Strings(l)
		c.Bad(rulePanic, name, "%s: %s\n%s", m.Pos(f), strings.Join(l, "; "), clip(t.Tree()))
	}
	// functions that call each other
	for round := 0; round < 3; round++ {
		for _, r := range panicRoots() {
			if f := m.Fn(r.fn); f != nil {
				needs(r.opts)(f)
			}
		}
		if len(partial) == 0 {
			break
		}
		changed := false
		for f := range memo {
			if !partial[f] {
				continue
			}
			if len(memo[f]) != len(before[f]) {
				changed = true
			}
			before[f] = memo[f]
		}
		if !changed {
			break
		}
		for f := range partial {
			delete(memo, f)
		}
		partial = map[*ssa.Function]bool{}
	}
	for _, r := range panicRoots() {
		if f := m.Fn(r.fn); f != nil {
			run(r.fn, f, r.opts)
		}
	}
	var rest []string
	for n, f := range m.fns {
		if !seen[f] && f.Blocks != nil && f.Parent() == nil && !strings.Contains(m.Prog.Fset.Position(f.Pos()).Filename, "zz_verif_") {
			rest = append(rest, n)
		}
	}
	sort.Strings(rest)
	for _, n := range rest {
		f := m.fns[n]
		if seen[f] || f.Name() == "init" {
			continue
		}
		run(strings.Replace(n, rootPath, "", 1), f, vgOpts{})
	}
}

// reachable lists the panics in a value graph.
func reachable(f *ssa.Function, t *vg.Term) map[string]bool {
	found := map[string]bool{}
	vg.Walk(t, func(s *vg.Term) bool {
		switch s.Op {
		case "guard":
			found[s.Aux] = true
		case "panic":
			if len(s.Args) > 0 && s.Args[0].Op != "guard" && s.Args[0].Op != "assertfail" {
				found["call of panic"] = true
			}
		case "assertfail":
			if selectorX(f, s) {
				return true
			}
			found["failed type assertion to "+s.Aux] = true
		}
		return true
	})
	return found
}

// candidates lists what of a parameter can be nil.
func candidates(l []vg.Need, n vg.Need, t types.Type) []vg.Need {
	if s, ok := t.Underlying().(*types.Struct); ok && len(n.Path) < 3 {
		if nt, ok := t.(*types.Named); ok && (nt.Obj().Pkg() == nil || !inRepo(nt.Obj().Pkg().Path())) {
			return l
		}
		for i := 0; i < s.NumFields(); i++ {
			l = candidates(l, vg.Need{Param: n.Param, Path: append(append([]string(nil), n.Path...), s.Field(i).Name())}, s.Field(i).Type())
		}
		return l
	}
	if nilable(t) {
		l = append(l, n)
	}
	return l
}

func isNeed(t *vg.Term, n vg.Need) bool {
	for i := len(n.Path) - 1; i >= 0; i-- {
		if t.Op != "sel" || t.Aux != n.Path[i] {
			return false
		}
		t = t.Args[0]
	}
	return t.Op == "param" && (t.Aux == strconv.Itoa(n.Param) || t.Aux == "p"+strconv.Itoa(n.Param))
}

func nilable(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	case *types.Interface:
		return t.NumMethods() > 0
	}
	return false
}

func init() {
	register("C24", func(c *Ctx) { c.panics() })
}

// nonEmptyText tells which strings are known to have at least n bytes: names in
// syntax trees are not empty, and import paths have quotes around them.
func nonEmptyText(s *vg.Term) int {
	switch {
	case s.Op == "sel" && s.Aux == "Name":
		return 1
	case s.Op == "sel" && s.Aux == "Value" && s.Args[0].Op == "sel" && s.Args[0].Aux == "Path":
		return 2
	case s.Op == "call" && (s.Aux == "strings.ToLower" || s.Aux == "strings.ToUpper"):
		return nonEmptyText(s.Args[0])
	case s.Op == "conv":
		return nonEmptyText(s.Args[0])
	case s.Op == "slice" && s.Args[2].Op == "nil":
		if n, ok := s.Args[1].Int(); ok {
			return nonEmptyText(s.Args[0]) - n
		}
	}
	return 0
}

func lengthFacts(u *vg.U, t *vg.Term) *vg.Term {
	if t.Op == "eq" && t.Args[1].Op == "str" && t.Args[1].Aux == "" && nonEmptyText(t.Args[0]) > 0 {
		return u.Bool(false)
	}
	if t.Op != "eq" || t.Args[0].Op != "len" {
		return nil
	}
	n, ok := t.Args[1].Int()
	if !ok {
		return nil
	}
	l := t.Args[0].Args[0]
	if k := nonEmptyText(l); n < k {
		return u.Bool(false)
	}
	// there are parameters if there are fields (see C02)
	if n == 0 && l.Op == "proj" && l.Aux == "0" && l.Args[0].Op == "do" && strings.Contains(l.Args[0].Aux, "generator.makeParams#") {
		fl := l.Args[0].Args[0]
		return u.Ite(u.Eq(fl, u.Nil()), u.Bool(true), u.Eq(u.Len(u.Sel(fl, "List"), "l"), u.Num(0)))
	}
	return nil
}

// selectorX tells whether a failed assertion is on the left side of a selector,
// which is a name in every type the parser accepts.
func selectorX(f *ssa.Function, s *vg.Term) bool {
	if s.Aux != "*go/ast.Ident" || s.Args[0].Op != "sel" || s.Args[0].Aux != "X" {
		return false
	}
	owner := s.Args[0].Args[0]
	if owner.Op == "as" {
		return owner.Aux == "*go/ast.SelectorExpr"
	}
	if owner.Op == "param" {
		for i, p := range f.Params {
			if owner.Aux == strconv.Itoa(i) || owner.Aux == "p"+strconv.Itoa(i) {
				return p.Type().String() == "*go/ast.SelectorExpr"
			}
		}
	}
	return false
}

func boundFacts(u *vg.U, a, b *vg.Term) *vg.Term {
	if v := u.LtFacts(a, b); v != nil {
		return v
	}
	n, ok := a.Int()
	if ok && b.Op == "len" {
		if k := nonEmptyText(b.Args[0]); n < k {
			return u.Bool(true)
		}
	}
	return nil
}
