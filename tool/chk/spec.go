package chk

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif.local/tool/vg"
)

// pair is a function of the repository with its reference.
type pair struct {
	fn   string // function of the repository
	spec string // reference in the same package
	leaf func(op string, res []*vg.Term) []*vg.Term
}

type vgOpts struct {
	classify func(name string) vg.Kind
	leaf     func(u *vg.U, st *vg.State, op string, res []*vg.Term) []*vg.Term
	panics   func(name string) bool
	rewrite  func(u *vg.U, t *vg.Term) *vg.Term
	args     func(x *vg.Exec) []*vg.Term
	maxSteps int
	errs     bool // compare also which error is returned
	errKind  func(e *vg.Term) string
	eqs      bool // equal values are represented by one of them
	nonEmpty bool // strings are never empty
	guards   bool // operations that panic are leaves
	is       func(u *vg.U, x *vg.Term, typ string) *vg.Term
	needs    func(f *ssa.Function) []vg.Need
	nilParam func(t *vg.Term) bool
	init     bool // package variables have their initial values
	initCode bool // those of the code only
}

func (c *Ctx) newExec(o vgOpts) *vg.Exec {
	m := c.Root()
	x := vg.NewExec(m.Prog, &vg.Config{Module: inRepo, Classify: o.classify, Panics: o.panics, MaxSteps: o.maxSteps, Init: o.init, Guards: o.guards, Needs: o.needs, NilParam: o.nilParam})
	x.U.SubstEq = o.eqs
	x.U.NonEmpty = o.nonEmpty
	x.U.Fact = func(t *vg.Term) *vg.Term { return treeFacts(x.U, t) }
	x.U.FactLt = func(a, b *vg.Term) *vg.Term {
		if a.Op == "num" && b.Op == "len" && b.Args[0].Op == "gval" && b.Args[0].Aux == "os.Args" {
			switch a.Aux {
			case "0":
				return x.U.Bool(true)
			case "1":
				return x.U.Not(x.U.Eq(b, a))
			}
		}
		if o.guards {
			return boundFacts(x.U, a, b)
		}
		return nil
	}
	if o.is != nil {
		x.U.FactIs = func(t *vg.Term, typ string) *vg.Term { return o.is(x.U, t, typ) }
	}
	if o.guards {
		x.U.Guards = true
		x.U.Fact = func(t *vg.Term) *vg.Term {
			if v := lengthFacts(x.U, t); v != nil {
				return v
			}
			return treeFacts(x.U, t)
		}
	}
	if o.leaf != nil {
		x.Leaf = func(st *vg.State, op string, res []*vg.Term) []*vg.Term { return o.leaf(x.U, st, op, res) }
	}
	return x
}

// graph computes the value graph of a function.
func (c *Ctx) graph(x *vg.Exec, f *ssa.Function, args []*vg.Term) (t *vg.Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(vg.Undecided); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	return x.Func(f, args...), nil
}

// treeFacts is what holds of every syntax tree made by the parser: there are no
// nil pointers to nodes in interfaces, an index list has at least two indices,
// functions, structs and interfaces have a list of fields, and a channel is for
// sending, for receiving or for both.  A program has a name.
func treeFacts(u *vg.U, t *vg.Term) *vg.Term {
	if t.Op != "eq" {
		return nil
	}
	a, b := t.Args[0], t.Args[1]
	switch {
	case a.Op == "len" && a.Args[0].Op == "gval" && a.Args[0].Aux == "os.Args" && b.Op == "num":
		// there is always the name of the program
		if b.Aux == "0" {
			return u.Bool(false)
		}
	case b.Op == "nil" && a.Op == "as" && strings.HasPrefix(a.Aux, "*go/ast."):
		return u.Bool(false)
	case b.Op == "nil" && a.Op == "sel" && a.Args[0].Op == "as":
		switch a.Args[0].Aux + "." + a.Aux {
		case "*go/ast.StructType.Fields", "*go/ast.InterfaceType.Methods", "*go/ast.FuncType.Params":
			return u.Bool(false)
		}
	case a.Op == "sel" && a.Aux == "Dir" && a.Args[0].Op == "as" && a.Args[0].Aux == "*go/ast.ChanType" && b.Op == "num" && b.Aux == "3":
		// the other direction
		return u.Ite(u.Eq(a, u.Num(1)), u.Bool(false), u.Not(u.Eq(a, u.Num(2))))
	case b.Op == "nil" && a.Op == "index" && a.Args[0].Op == "call" && strings.HasSuffix(a.Args[0].Aux, "generator.typeSpecs"):
		return u.Bool(false)
	case b.Op == "nil" && a.Op == "sel" && a.Aux == "Type" && a.Args[0].Op == "index" && a.Args[0].Args[0].Op == "sel" && a.Args[0].Args[0].Aux == "List":
		return u.Bool(false)
	case b.Op == "nil" && a.Op == "index" && a.Args[0].Op == "sel":
		switch a.Args[0].Aux {
		case "List", "Decls", "Specs", "Imports", "Names", "Indices", "types", "Args":
			return u.Bool(false)
		}
	case b.Op == "nil" && a.Op == "call" && strings.HasSuffix(a.Aux, "go/types.Scope).Lookup"):
		// the universe
		if l := a.Args[len(a.Args)-1]; a.Args[0].Aux == "go/types.Universe" && l.Op == "str" && types.Universe.Lookup(l.Aux) != nil {
			return u.Bool(false)
		}
	case a.Op == "len" && b.Op == "num" && (b.Aux == "0" || b.Aux == "1"):
		if l := a.Args[0]; l.Op == "sel" && l.Aux == "Indices" {
			return u.Bool(false)
		}
	}
	return nil
}

const ruleSpec = "the value graph of the function equals that of its reference"

// same checks that functions compute what their references compute.
func (c *Ctx) same(o vgOpts, pairs ...pair) {
	m := c.Root()
	for _, p := range pairs {
		t0 := time.Now()
		f, s := m.Fn(p.fn), m.Fn(p.spec)
		if s == nil {
			c.Bad(ruleSpec, p.fn, "the declarations it relies on have changed so that the reference %s does not fit any more", p.spec)
			continue
		}
		if f == nil {
			c.Bad(ruleSpec, p.fn, "the function does not exist any more")
			continue
		}
		if f.Signature.Params().Len()+recv(f) != s.Signature.Params().Len()+recv(s) {
			c.Bad(ruleSpec, p.fn, "the signature differs from that of the reference")
			continue
		}
		x := c.newExec(o)
		if p.leaf != nil {
			x.Leaf = func(_ *vg.State, op string, res []*vg.Term) []*vg.Term { return p.leaf(op, res) }
		}
		x.ErrKind = o.errKind
		if !o.errs {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if f.Signature.Results().At(i).Type().String() == "error" {
					x.ErrIdx = i + 1
				}
			}
		}
		var args []*vg.Term
		if o.args != nil {
			args = o.args(x)
		}
		if o.initCode {
			x.C.Init = false
		}
		ts, err := c.graph(x, s, args)
		if o.initCode {
			x.C.Init = true
		}
		if err != nil {
			panic(Fatal{fmt.Sprintf("reference %s: %v", p.spec, err)})
		}
		tf, err := c.graph(x, f, args)
		if err != nil {
			c.Bad(ruleSpec, p.fn, "%s: not decided: %v", m.Pos(f), err)
			continue
		}
		ts, tf = x.NameFuncs(ts), x.NameFuncs(tf)
		if o.rewrite != nil {
			ts, tf = o.rewrite(x.U, ts), o.rewrite(x.U, tf)
		}
		c.Count("functions inlined into value graphs", len(x.Funcs))
		c.Count("paths compared", vg.Paths(ts))
		if d := vg.Diff(x.U, tf, ts); d != "" {
			c.Bad(ruleSpec, p.fn, "%s: differs from the reference %s\n%s\nvalue graph of the code:\n%s\nvalue graph of the reference:\n%s", m.Pos(f), p.spec, d, clip(tf.Tree()), clip(ts.Tree()))
			continue
		}
		c.Ok(ruleSpec, p.fn)
		_ = t0
	}
}

func clip(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 150 {
		l = append(l[:150], "…")
	}
	for i := range l {
		if len(l[i]) > 600 && os.Getenv("VERIF_DEBUG") == "" {
			l[i] = l[i][:600] + "…"
		}
	}
	return strings.Join(l, "\n")
}

func recv(f *ssa.Function) int {
	if f.Signature.Recv() != nil {
		return 1
	}
	return 0
}
