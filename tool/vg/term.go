// Package vg computes value graphs of Go functions.
//
// A function in SSA form is turned into a term: a decision diagram over
// uninterpreted atoms whose leaves are the returned values and whose inner
// nodes are the effects the function performs.  Helper functions of the
// analysed module are inlined, local memory is tracked, and loops are
// summarised as comprehensions whenever possible.  Terms are hash-consed, so two
// functions with the same normal form are pointer-equal.  Nothing is executed
// and no path is handed to a solver: this is value numbering with
// normalisation.
package vg

import (
	"fmt"
	"go/constant"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed node of the value graph.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term

	isBool bool
	height int             // number of nested binders
	free   []int           // names of the binders of free bound variables
	toks   map[string]bool // free loop tokens
	size   int
}

// U is a universe of hash-consed terms.
type U struct {
	tab   map[string]*Term
	terms []*Term

	substMemo map[string]*Term
	nTok      int
	Budget    int // upper bound of the number of terms

	containsMemo map[[2]int]bool
	NonEmpty     bool                // indices are in the bounds of strings
	SubstEq      bool                // equal values are represented by one of them
	Fact         func(t *Term) *Term // what is known of an equation, or nil
	FactLt       func(a, b *Term) *Term
	Text         func(typ string, x *Term) *Term // what the method of a type returns
	FactIs       func(x *Term, typ string) *Term
	Guards       bool
	rangeOf      map[string]*Term // the map that a key of a loop ranges over
	asZero       map[string]*Term // values of failed type assertions
	assumeMemo   map[string]*Term
}

// Undecided is thrown when a construct is outside of the analysed fragment.
type Undecided struct{ Reason string }

func (u Undecided) Error() string { return u.Reason }

func fail(format string, args ...interface{}) {
	panic(Undecided{fmt.Sprintf(format, args...)})
}

// NewU returns an empty universe.
func NewU() *U {
	return &U{tab: map[string]*Term{}, Budget: 3000000, containsMemo: map[[2]int]bool{}, assumeMemo: map[string]*Term{}}
}

// raw creates a term without any simplification.
func (u *U) raw(op, aux string, args ...*Term) *Term {
	if op == "list" && len(args) == 0 {
		op = "nil" // nil and empty slices are not told apart
	}
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(strconv.Quote(aux))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := u.tab[k]; ok {
		return t
	}
	if len(u.terms) > u.Budget {
		fail("value graph exceeds %d nodes", u.Budget)
	}
	t := &Term{ID: len(u.terms), Op: op, Aux: aux, Args: append([]*Term(nil), args...), size: 1}
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.height > t.height {
			t.height = a.height
		}
		t.free = mergeInts(t.free, a.free)
		for k := range a.toks {
			if t.toks == nil {
				t.toks = map[string]bool{}
			}
			t.toks[k] = true
		}
	}
	switch op {
	case "tok":
		t.toks = map[string]bool{aux: true}
	case "bound":
		n, err := strconv.Atoi(strings.SplitN(aux, ".", 2)[0])
		if err == nil {
			t.free = []int{n}
		}
	case "eq", "lt", "not", "typeis", "haskey", "true", "false", "exists":
		t.isBool = true
	}
	u.terms = append(u.terms, t)
	u.tab[k] = t
	return t
}

func (t *Term) is(op string) bool { return t.Op == op }

// Const makes a constant term.
func (u *U) Const(v constant.Value, typ string) *Term {
	if v == nil {
		return u.raw("nil", "")
	}
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return u.raw("true", "")
		}
		return u.raw("false", "")
	case constant.String:
		return u.Str(constant.StringVal(v))
	}
	return u.raw("num", v.ExactString())
}

func (u *U) Str(s string) *Term { return u.raw("str", s) }
func (u *U) Num(n int) *Term    { return u.raw("num", strconv.Itoa(n)) }
func (u *U) Bool(b bool) *Term {
	if b {
		return u.raw("true", "")
	}
	return u.raw("false", "")
}
func (u *U) Nil() *Term { return u.raw("nil", "") }

func (t *Term) isConst() bool {
	switch t.Op {
	case "num", "str", "true", "false", "nil", "zero", "func":
		return true
	}
	return false
}

func (t *Term) intVal() (int, bool) {
	if t.Op != "num" {
		return 0, false
	}
	n, err := strconv.Atoi(t.Aux)
	return n, err == nil
}

// Contains reports whether sub occurs in t.
func (u *U) Contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	if len(t.Args) == 0 || t.ID < sub.ID {
		return false
	}
	k := [2]int{t.ID, sub.ID}
	if r, ok := u.containsMemo[k]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if u.Contains(a, sub) {
			r = true
			break
		}
	}
	u.containsMemo[k] = r
	return r
}

// Any reports whether some subterm satisfies f.
func (u *U) Any(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Walk visits every distinct subterm once, parents first.
func Walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// Subst replaces terms according to m, rebuilding with simplification.
func (u *U) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	minID := 1 << 60
	for k := range m {
		if k.ID < minID {
			minID = k.ID
		}
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 || t.ID < minID {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = u.Mk(t.Op, t.Aux, args...)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// fresh returns a fresh loop token name.
func (u *U) fresh(prefix string) string {
	u.nTok++
	return prefix + strconv.Itoa(u.nTok)
}

// String renders a term.
func (t *Term) String() string { return t.render(0) }

func (t *Term) render(depth int) string {
	if depth > 40 {
		return "…"
	}
	as := func() []string {
		r := make([]string, len(t.Args))
		for i, a := range t.Args {
			r[i] = a.render(depth + 1)
		}
		return r
	}
	switch t.Op {
	case "str":
		return strconv.Quote(t.Aux)
	case "num":
		return t.Aux
	case "nil", "true", "false":
		return t.Op
	case "zero":
		return "zero(" + t.Aux + ")"
	case "param", "global", "func", "free":
		return t.Aux
	case "tok":
		return t.Aux
	case "bound":
		return "$" + t.Aux
	case "sel":
		return t.Args[0].render(depth+1) + "." + t.Aux
	case "index":
		return t.Args[0].render(depth+1) + "[" + t.Args[1].render(depth+1) + "]"
	case "eq":
		a := as()
		return "(" + a[0] + " == " + a[1] + ")"
	case "lt":
		a := as()
		return "(" + a[0] + " < " + a[1] + ")"
	case "cat":
		return strings.Join(as(), " + ")
	case "list":
		return "[" + strings.Join(as(), ", ") + "]"
	case "call":
		n := t.Aux
		return n + "(" + strings.Join(as(), ", ") + ")"
	case "struct":
		names := strings.Split(t.Aux, ",")
		r := []string{}
		for i, a := range t.Args {
			n := "?"
			if i+1 < len(names) {
				n = names[i+1]
			}
			r = append(r, n+": "+a.render(depth+1))
		}
		return names[0] + "{" + strings.Join(r, ", ") + "}"
	}
	s := t.Op
	if t.Aux != "" {
		s += "<" + t.Aux + ">"
	}
	if len(t.Args) > 0 {
		s += "(" + strings.Join(as(), ", ") + ")"
	}
	return s
}

// Tree renders a decision tree with indentation.
func (t *Term) Tree() string {
	var sb strings.Builder
	var rec func(t *Term, ind string, depth int)
	lines := 0
	rec = func(t *Term, ind string, depth int) {
		lines++
		if lines > 4000 {
			return
		}
		switch t.Op {
		case "ite":
			sb.WriteString(ind + "if " + t.Args[0].String() + "\n")
			rec(t.Args[1], ind+"  ", depth+1)
			sb.WriteString(ind + "else\n")
			rec(t.Args[2], ind+"  ", depth+1)
		case "eff":
			sb.WriteString(ind + "do " + t.Args[0].String() + "\n")
			rec(t.Args[1], ind, depth+1)
		case "loop":
			sb.WriteString(ind + "loop " + t.Aux + " over " + t.Args[0].String() + "\n")
			sb.WriteString(ind + " body:\n")
			rec(t.Args[1], ind+"    ", depth+1)
			for i, a := range t.Args[3:] {
				sb.WriteString(fmt.Sprintf("%s init %d: %s\n", ind, i, a.String()))
			}
			sb.WriteString(ind + " then:\n")
			rec(t.Args[2], ind+"  ", depth+1)
		default:
			sb.WriteString(ind + t.String() + "\n")
		}
	}
	rec(t, "", 0)
	return sb.String()
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
