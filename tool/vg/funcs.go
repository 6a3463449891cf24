package vg

import (
	"fmt"
	"hash/fnv"

	"golang.org/x/tools/go/ssa"
)

// NameFuncs names the functions of the module that are used as values after
// what they compute.
func (x *Exec) NameFuncs(t *Term) *Term {
	return x.nameFuncs(t, map[*ssa.Function]bool{})
}

func (x *Exec) nameFuncs(t *Term, busy map[*ssa.Function]bool) *Term {
	m := map[*Term]*Term{}
	Walk(t, func(s *Term) bool {
		if s.Op != "func" {
			return true
		}
		f := fnTable[s.Aux]
		if f == nil || f.Blocks == nil || f.Pkg == nil || !x.C.Module(f.Pkg.Pkg.Path()) || len(f.FreeVars) > 0 || busy[f] {
			return true
		}
		if x.kindOf(f, x.name(FuncName(f))) != Default || f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			return true
		}
		busy[f] = true
		leaf, ei := x.Leaf, x.ErrIdx
		init := x.C.Init
		x.Leaf, x.ErrIdx, x.C.Init = nil, 0, false
		g := x.tryFunc(f)
		x.Leaf, x.ErrIdx, x.C.Init = leaf, ei, init
		if g != nil {
			g = x.nameFuncs(g, busy)
			if n := eta(g, len(f.Params)); n != "" {
				m[s] = x.U.raw("func", n)
				delete(busy, f)
				return true
			}
			h := fnv.New64a()
			x.hash(h, g)
			m[s] = x.U.raw("func", fmt.Sprintf("value:%x", h.Sum64()))
		}
		delete(busy, f)
		return true
	})
	if len(m) == 0 {
		return t
	}
	return x.U.Subst(t, m)
}

// eta is the function that a graph only calls with the parameters.
func eta(g *Term, n int) string {
	if g.Op != "ret" || len(g.Args) != 1 || g.Args[0].Op != "call" || len(g.Args[0].Args) != n {
		return ""
	}
	for i, a := range g.Args[0].Args {
		if a.Op != "param" || a.Aux != fmt.Sprintf("p%d", i) {
			return ""
		}
	}
	return g.Args[0].Aux
}

func (x *Exec) tryFunc(f *ssa.Function) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Undecided); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return x.Func(f)
}

// Map rebuilds a term bottom-up.
func (u *U) Map(t *Term, f func(*Term) *Term) *Term {
	m := map[*Term]*Term{}
	Walk(t, func(s *Term) bool {
		if r := f(s); r != nil && r != s {
			m[s] = r
			return false
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return u.Subst(t, m)
}

// Raw makes a term as it is.
func (u *U) Raw(op, aux string, args ...*Term) *Term { return u.raw(op, aux, args...) }
