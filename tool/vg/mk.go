package vg

import (
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Mk builds a term in normal form.
func (u *U) Mk(op, aux string, args ...*Term) *Term {
	switch op {
	case "ite":
		return u.Ite(args[0], args[1], args[2])
	case "eff":
		return u.Eff(args[0], args[1])
	case "loop", "lmap", "smap", "mmap", "fold", "lam", "exists":
		return u.binder(op, aux, args)
	case "not":
		return u.Not(args[0])
	case "eq":
		return u.Eq(args[0], args[1])
	case "lt":
		return u.Lt(args[0], args[1])
	case "add":
		return u.Add(args[0], args[1])
	case "mul", "sub", "quo", "rem":
		return u.arith(op, args[0], args[1])
	case "cat":
		return u.Cat(args...)
	case "lcat":
		return u.LCat(args...)
	case "join":
		return u.Join(args[0], args[1])
	case "sel":
		return u.Sel(args[0], aux)
	case "deref":
		return u.Deref(args[0], aux)
	case "ref":
		if args[0].Op == "deref" && false {
			return args[0].Args[0]
		}
		return u.raw(op, aux, args...)
	case "struct":
		return u.mkStruct(aux, args)
	case "index":
		return u.Index(args[0], args[1])
	case "slice":
		return u.Slice(args[0], args[1], args[2], aux)
	case "len":
		return u.Len(args[0], aux)
	case "typeis":
		return u.TypeIs(args[0], aux)
	case "iface":
		return u.Iface(aux, args[0])
	case "as":
		return u.As(args[0], aux)
	case "lookup":
		return u.Lookup(args[0], args[1], aux)
	case "haskey":
		return u.HasKey(args[0], args[1])
	case "sepjoin":
		return u.SepJoin(args[0], args[1], args[2])
	case "septail":
		return u.SepTail(args[0], args[1], args[2])
	case "upto":
		return u.raw(op, aux, args...)
	case "proj":
		return u.Proj(args[0], aux)
	case "call":
		return u.CallTerm(aux, args...)
	case "conv":
		return u.Conv(args[0], aux)
	case "setidx":
		return u.SetIndex(args[0], args[1], args[2])
	}
	return u.raw(op, aux, args...)
}

// Not negates a boolean term.
func (u *U) Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return u.Bool(false)
	case "false":
		return u.Bool(true)
	case "not":
		return t.Args[0]
	}
	r := u.raw("not", "", t)
	return r
}

func isIT(t *Term) bool {
	return (t.Op == "tok" || t.Op == "bound") && strings.HasSuffix(t.Aux, ".it")
}

func nonNeg(t *Term) bool {
	if n, ok := t.intVal(); ok {
		return n >= 0
	}
	if t.Op == "add" {
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	}
	if t.Op == "proj" && t.Aux == "1" && t.Args[0].Op == "call" && t.Args[0].Aux == "unicode/utf8.DecodeRuneInString" {
		return true
	}
	if t.Op == "call" && t.Aux == "(*go/ast.FieldList).NumFields" {
		return true
	}
	return t.Op == "len" || isIT(t)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "iface", "ref", "func", "closure", "lam", "newerr", "struct", "mapempty", "mapset", "mklist", "mmap":
		return true
	case "zero":
		return false
	case "sentinel":
		return true
	}
	return false
}

// properSuffix is true for s[n:] of s with n at least 1.
func properSuffix(a, b *Term) bool {
	if a.Op != "slice" || a.Aux != "s" || a.Args[0] != b {
		return false
	}
	n, ok := a.Args[1].intVal()
	return ok && n > 0
}

// pointersOnly holds of maps that never contain nil.
func pointersOnly(m *Term) bool {
	if m.Op == "sel" && m.Aux == "Imports" {
		// of a *packages.Package
		return true
	}
	return m.Op == "proj" && m.Args[0].Op == "do" && strings.HasPrefix(m.Args[0].Aux, "go/parser.ParseDir#")
}

// Eq is equality.
func (u *U) Eq(a, b *Term) *Term {
	if a == b {
		return u.Bool(true)
	}
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.Op == "true" {
		return a
	}
	if b.Op == "false" {
		return u.Not(a)
	}
	if b.Op == "zero" && a.Op != "zero" {
		// comparison with a zero value of a nilable type
		if nilable(b.Aux) {
			b = u.Nil()
		}
	}
	if a.isConst() && b.isConst() {
		if a.Op == "zero" && nilable(a.Aux) {
			a = u.Nil()
		}
		if b.Op == "zero" && nilable(b.Aux) {
			b = u.Nil()
		}
		if a == b {
			return u.Bool(true)
		}
		if a.Op != "zero" && b.Op != "zero" {
			return u.Bool(false)
		}
	}
	if b.Op == "str" && b.Aux == "" && firstOfMap(a) {
		// keys and names are not empty
		return u.Bool(false)
	}
	if a.Op == "ite" && b.isConst() && (constLeaves(a) || firstOfMap(a.Args[1]) && constLeaves(a.Args[2])) {
		return u.Ite(a.Args[0], u.Eq(a.Args[1], b), u.Eq(a.Args[2], b))
	}
	if b.Op == "nil" && a.Op == "ite" {
		// tests whether something was found
		decided := true
		r := u.mapLeaves(a, func(t *Term) *Term {
			e := u.Eq(t, b)
			if e.Op != "true" && e.Op != "false" {
				decided = false
			}
			return e
		})
		if decided {
			return r
		}
	}
	if b.Op == "nil" {
		if nonNil(a) {
			return u.Bool(false)
		}
		if a.Op == "lcat" {
			for _, x := range a.Args {
				if x.Op == "list" && len(x.Args) > 0 {
					return u.Bool(false)
				}
			}
		}
	}
	if properSuffix(a, b) || properSuffix(b, a) {
		return u.Bool(false)
	}
	if b.Op == "nil" && a.Op == "fold" && a.Args[2].Op == "none" {
		// something was found
		some := true
		eachLeaf(a.Args[1], func(t *Term) {
			if v := t.Args[1]; v.Op != "bound" && v.Op != "tok" && u.Eq(v, b).Op != "false" {
				some = false
			}
		})
		if some {
			return u.Bool(false)
		}
	}
	if b.Op == "nil" && a.Op == "lookup" && pointersOnly(a.Args[0]) {
		return u.Not(u.Mk("haskey", "", a.Args[0], a.Args[1]))
	}
	if b.Op == "str" {
		if a.Op == "cat" {
			if b.Aux == "" {
				for _, x := range a.Args {
					if x.Op == "str" && x.Aux != "" {
						return u.Bool(false)
					}
				}
			} else if f := a.Args[0]; f.Op == "str" && !strings.HasPrefix(b.Aux, f.Aux) {
				return u.Bool(false)
			} else if l := a.Args[len(a.Args)-1]; l.Op == "str" && !strings.HasSuffix(b.Aux, l.Aux) {
				return u.Bool(false)
			}
		}
	}
	// x + c == k
	if bn, ok := b.intVal(); ok {
		if a.Op == "add" && bn == 0 && nonNeg(a.Args[0]) && nonNeg(a.Args[1]) {
			return u.Ite(u.Eq(a.Args[0], b), u.Eq(a.Args[1], b), u.Bool(false))
		}
		if a.Op == "add" {
			if c, ok := a.Args[1].intVal(); ok {
				return u.Eq(a.Args[0], u.Num(bn-c))
			}
		}
		if a.Op == "proj" && a.Aux == "1" && a.Args[0].Op == "call" && a.Args[0].Aux == "unicode/utf8.DecodeRuneInString" && bn == 0 {
			return u.Eq(a.Args[0].Args[0], u.Str(""))
		}
		if nonNeg(a) && bn < 0 {
			return u.Bool(false)
		}
		if a.Op == "len" && a.Aux == "s" && bn == 0 {
			return u.Eq(a.Args[0], u.Str(""))
		}
		if a.Op == "len" && bn == 0 && a.Args[0].Op == "lmap" && a.Args[0].Args[1].Op == "ite" {
			// no element was selected
			if c := u.nonEmpty(a.Args[0].Args[1]); c != nil {
				return u.Not(u.Mk("exists", a.Args[0].Aux, a.Args[0].Args[0], c))
			}
		}
	}
	if a.Op == "add" && b.Op == "add" {
		ca, oka := a.Args[1].intVal()
		cb, okb := b.Args[1].intVal()
		if oka && okb {
			if ca > cb {
				return u.Eq(u.Add(a.Args[0], u.Num(ca-cb)), b.Args[0])
			} else if ca < cb || ca == cb {
				return u.Eq(a.Args[0], u.Add(b.Args[0], u.Num(cb-ca)))
			}
		}
	}
	if a.Op == "iface" && b.Op == "iface" && a.Aux == b.Aux {
		return u.Eq(a.Args[0], b.Args[0])
	}
	if !b.isConst() && a.ID > b.ID {
		a, b = b, a
	}
	if r := u.eqSpecial(a, b); r != nil {
		return r
	}
	r := u.raw("eq", "", a, b)
	if u.Fact != nil {
		if v := u.Fact(r); v != nil {
			return v
		}
	}
	return r
}

// firstOfMap recognises the smallest of selected strings of a map.
func firstOfMap(t *Term) bool {
	return t.Op == "index" && t.Args[0].Op == "sorted" && t.Args[0].Args[0].Op == "lmap" && t.Args[0].Args[0].Args[0].Op == "maprange"
}

// nonEmpty is the condition under which a list has elements, or nil.
func (u *U) nonEmpty(l *Term) *Term {
	switch l.Op {
	case "list":
		return u.Bool(len(l.Args) > 0)
	case "nil":
		return u.Bool(false)
	case "ite":
		a, b := u.nonEmpty(l.Args[1]), u.nonEmpty(l.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return u.Ite(l.Args[0], a, b)
	case "lcat":
		r := u.Bool(false)
		for _, a := range l.Args {
			c := u.nonEmpty(a)
			if c == nil {
				return nil
			}
			r = u.Ite(c, u.Bool(true), r)
		}
		return r
	}
	return nil
}

func nilable(typ string) bool {
	return strings.HasPrefix(typ, "*") || strings.HasPrefix(typ, "[]") || strings.HasPrefix(typ, "map[") ||
		strings.HasPrefix(typ, "func(") || strings.HasPrefix(typ, "interface") || strings.HasPrefix(typ, "chan") ||
		strings.HasPrefix(typ, "~nil:")
}

// Lt is integer or string less-than.
func (u *U) Lt(a, b *Term) *Term {
	if a == b {
		return u.Bool(false)
	}
	an, aok := a.intVal()
	bn, bok := b.intVal()
	if aok && bok {
		return u.Bool(an < bn)
	}
	if bok && a.Op == "ite" && constLeaves(a) {
		return u.Ite(a.Args[0], u.Lt(a.Args[1], b), u.Lt(a.Args[2], b))
	}
	if aok && b.Op == "ite" && constLeaves(b) {
		return u.Ite(b.Args[0], u.Lt(a, b.Args[1]), u.Lt(a, b.Args[2]))
	}
	if a.Op == "add" {
		if c, ok := a.Args[1].intVal(); ok {
			return u.Lt(a.Args[0], u.Add(b, u.Num(-c)))
		}
	}
	if aok && b.Op == "add" {
		if c, ok := b.Args[1].intVal(); ok {
			return u.Lt(u.Num(an-c), b.Args[0])
		}
	}
	if aok && nonNeg(b) {
		if an < 0 {
			return u.Bool(true)
		}
		if an == 0 {
			return u.Not(u.Eq(b, u.Num(0)))
		}
		if an == 1 && b.Op == "len" {
			return u.Ite(u.Eq(b, u.Num(0)), u.Bool(false), u.Not(u.Eq(b, u.Num(1))))
		}
	}
	if bok && nonNeg(a) {
		if bn <= 0 {
			return u.Bool(false)
		}
		if bn == 1 {
			return u.Eq(a, u.Num(0))
		}
	}
	// not (x < c)  is kept as c-1 < x for constants: use one orientation
	if b.Op == "add" && b.Args[0] == a {
		if c, ok := b.Args[1].intVal(); ok {
			return u.Bool(c > 0)
		}
	}
	if u.FactLt != nil {
		if v := u.FactLt(a, b); v != nil {
			return v
		}
	}
	if bok { // x < c  <=>  not (c-1 < x)
		if u.FactLt != nil {
			return u.Not(u.Lt(u.Num(bn-1), a))
		}
		return u.Not(u.raw("lt", "", u.Num(bn-1), a))
	}
	return u.raw("lt", "", a, b)
}

// Add adds integers.
func (u *U) Add(a, b *Term) *Term {
	an, aok := a.intVal()
	bn, bok := b.intVal()
	if aok && bok {
		return u.Num(an + bn)
	}
	if aok {
		a, b = b, a
		an, bn = bn, an
		aok, bok = bok, aok
	}
	if bok {
		if bn == 0 {
			return a
		}
		if a.Op == "add" {
			if c, ok := a.Args[1].intVal(); ok {
				return u.Add(a.Args[0], u.Num(c+bn))
			}
		}
		return u.raw("add", "", a, b)
	}
	// pull constants out
	if a.Op == "add" {
		if _, ok := a.Args[1].intVal(); ok {
			return u.Add(u.Add(a.Args[0], b), a.Args[1])
		}
	}
	if b.Op == "add" {
		if _, ok := b.Args[1].intVal(); ok {
			return u.Add(u.Add(a, b.Args[0]), b.Args[1])
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return u.raw("add", "", a, b)
}

func (u *U) arith(op string, a, b *Term) *Term {
	an, aok := a.intVal()
	bn, bok := b.intVal()
	if aok && bok {
		switch op {
		case "mul":
			return u.Num(an * bn)
		case "sub":
			return u.Num(an - bn)
		case "quo":
			if bn != 0 {
				return u.Num(an / bn)
			}
		case "rem":
			if bn != 0 {
				return u.Num(an % bn)
			}
		}
	}
	if op == "sub" {
		if bok {
			return u.Add(a, u.Num(-bn))
		}
		if a == b {
			return u.Num(0)
		}
		// (x + c) - x
		if a.Op == "add" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
	}
	if op == "mul" && a.ID > b.ID {
		a, b = b, a
	}
	return u.raw(op, "", a, b)
}

// Cat concatenates strings.
func (u *U) Cat(args ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "cat":
			for _, a := range t.Args {
				add(a)
			}
			return
		case "str":
			if t.Aux == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].Op == "str" {
				flat[n-1] = u.Str(flat[n-1].Aux + t.Aux)
				return
			}
		case "zero":
			if t.Aux == "string" {
				return
			}
		}
		flat = append(flat, t)
	}
	for _, a := range args {
		add(a)
	}
	switch len(flat) {
	case 0:
		return u.Str("")
	case 1:
		return flat[0]
	}
	return u.raw("cat", "", flat...)
}

// LCat concatenates lists.
func (u *U) LCat(args ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "lcat":
			for _, a := range t.Args {
				add(a)
			}
			return
		case "nil":
			return
		case "list":
			if len(t.Args) == 0 {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].Op == "list" {
				flat[n-1] = u.raw("list", "", append(append([]*Term(nil), flat[n-1].Args...), t.Args...)...)
				return
			}
		case "zero":
			return
		}
		flat = append(flat, t)
	}
	for _, a := range args {
		add(a)
	}
	switch len(flat) {
	case 0:
		return u.Nil()
	case 1:
		return flat[0]
	}
	return u.raw("lcat", "", flat...)
}

// Join is strings.Join.
func (u *U) Join(l, sep *Term) *Term {
	switch l.Op {
	case "nil", "zero":
		return u.Str("")
	case "list":
		var parts []*Term
		for i, a := range l.Args {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, a)
		}
		return u.Cat(parts...)
	}
	if sep.Op == "str" && sep.Aux == "" && l.Op == "lmap" {
		if r := u.lmapToSmap(l); r != nil {
			return r
		}
	}
	if sep.Op == "str" && l.Op == "lmap" && (l.Args[0].Op == "upto" || l.Args[0].Op == "maprange") {
		// what all elements start with belongs to the separator
		if h := commonHead(l.Args[1]); h != "" {
			b := u.mapLeaves(l.Args[1], func(t *Term) *Term {
				e := t.Args[0]
				if e.Op == "str" {
					return u.raw("list", "", u.Str(e.Aux[len(h):]))
				}
				return u.raw("list", "", u.Cat(append([]*Term{u.Str(e.Args[0].Aux[len(h):])}, e.Args[1:]...)...))
			})
			n := l.Args[0].Args[0]
			if l.Args[0].Op == "maprange" {
				n = u.Len(n, "m")
			}
			j := u.Cat(u.Str(h), u.Join(u.Mk("lmap", l.Aux, l.Args[0], b), u.Str(sep.Aux+h)))
			return u.Ite(u.Eq(n, u.Num(0)), u.Str(""), j)
		}
	}
	return u.raw("join", "", l, sep)
}

// commonHead is the constant text that the only elements of all leaves begin
// with.
func commonHead(t *Term) string {
	h, first, ok := "", true, true
	eachLeaf(t, func(t *Term) {
		e := ""
		if t.Op != "list" || len(t.Args) != 1 {
			ok = false
			return
		}
		switch a := t.Args[0]; {
		case a.Op == "str":
			e = a.Aux
		case a.Op == "cat" && a.Args[0].Op == "str":
			e = a.Args[0].Aux
		}
		if first {
			h, first = e, false
		}
		for !strings.HasPrefix(e, h) {
			h = h[:len(h)-1]
		}
	})
	if !ok {
		return ""
	}
	return h
}

// SepJoin prepends each element of a list with a separator: the first one with
// s0, the following ones with k.
func (u *U) SepJoin(s0, k, l *Term) *Term {
	switch l.Op {
	case "nil", "zero":
		return u.Str("")
	case "list":
		var parts []*Term
		for i, a := range l.Args {
			if i > 0 {
				parts = append(parts, k)
			} else {
				parts = append(parts, s0)
			}
			parts = append(parts, a)
		}
		return u.Cat(parts...)
	}
	if s0.Op == "str" && s0.Aux == "" {
		return u.Join(l, k)
	}
	return u.raw("sepjoin", "", s0, k, l)
}

// SepTail is the separator to use after SepJoin.
func (u *U) SepTail(s0, k, l *Term) *Term {
	switch l.Op {
	case "nil", "zero":
		return s0
	case "list":
		if len(l.Args) == 0 {
			return s0
		}
		return k
	}
	return u.raw("septail", "", s0, k, l)
}

// Sel reads a field of a struct or of a pointer to a struct.
func (u *U) Sel(x *Term, f string) *Term {
	switch x.Op {
	case "deref":
		return u.Sel(x.Args[0], f)
	case "ref":
		return u.Sel(x.Args[0], f)
	case "struct":
		names := strings.Split(x.Aux, ",")[1:]
		for i, n := range names {
			if n == f {
				return x.Args[i]
			}
		}
	}
	return u.raw("sel", f, x)
}

// Deref loads through a pointer.
func (u *U) Deref(p *Term, epoch string) *Term {
	switch p.Op {
	case "ref":
		return p.Args[0]
	case "fieldaddr":
		return u.Sel(u.derefBase(p.Args[0]), p.Aux)
	case "indexaddr":
		return u.Index(u.derefBase(p.Args[0]), p.Args[1])
	}
	return u.raw("deref", epoch, p)
}

func (u *U) derefBase(p *Term) *Term {
	switch p.Op {
	case "fieldaddr", "indexaddr":
		return u.Deref(p, "")
	}
	return p
}

func (u *U) mkStruct(aux string, args []*Term) *Term {
	names := strings.Split(aux, ",")[1:]
	// struct of all the fields of the same value is this value
	if len(args) > 0 && args[0].Op == "sel" && args[0].Aux == names[0] {
		base := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "sel" || a.Aux != names[i] || a.Args[0] != base {
				same = false
			}
		}
		if same {
			return u.raw("deref", "", base)
		}
	}
	return u.raw("struct", aux, args...)
}

// Index reads an element.
func (u *U) Index(x, i *Term) *Term {
	if n, ok := i.intVal(); ok {
		switch x.Op {
		case "list":
			if n >= 0 && n < len(x.Args) {
				return x.Args[n]
			}
		case "lcat":
			f := x.Args[0]
			if f.Op == "list" && n >= 0 && n < len(f.Args) {
				return f.Args[n]
			}
			if f.Op != "list" && n == 0 {
				return u.Ite(u.Eq(u.Len(f, "l"), u.Num(0)), u.Index(u.LCat(x.Args[1:]...), i), u.Index(f, i))
			}
		case "str":
			if n >= 0 && n < len(x.Aux) {
				return u.Num(int(x.Aux[n]))
			}
		}
	}
	if x.Op == "setidx" {
		if x.Args[1] == i {
			return x.Args[2]
		}
		if x.Args[1].isConst() && i.isConst() {
			return u.Index(x.Args[0], i)
		}
	}
	if x.Op == "slice" && u.NonEmpty {
		return u.Index(x.Args[0], u.Add(x.Args[1], i))
	}
	if r := u.indexSpecial(x, i); r != nil {
		return r
	}
	return u.raw("index", "", x, i)
}

// SetIndex is a functional update of a list.
func (u *U) SetIndex(x, i, v *Term) *Term {
	if n, ok := i.intVal(); ok && x.Op == "list" && n >= 0 && n < len(x.Args) {
		args := append([]*Term(nil), x.Args...)
		args[n] = v
		return u.raw("list", "", args...)
	}
	if n, ok := i.intVal(); ok && x.Op == "lcat" && x.Args[0].Op == "list" && n >= 0 && n < len(x.Args[0].Args) {
		args := append([]*Term(nil), x.Args...)
		args[0] = u.SetIndex(x.Args[0], i, v)
		return u.raw("lcat", "", args...)
	}
	if x.Op == "setidx" && x.Args[1] == i {
		return u.SetIndex(x.Args[0], i, v)
	}
	return u.raw("setidx", "", x, i, v)
}

// Slice is x[lo:hi]; hi is nil term when absent.
func (u *U) Slice(x, lo, hi *Term, kind string) *Term {
	if n, ok := lo.intVal(); ok && n == 0 {
		if hi.Op == "nil" {
			return x
		}
		if hi == u.Len(x, kind) {
			return x
		}
	}
	if hi.Op != "nil" && hi == u.Len(x, kind) {
		hi = u.Nil()
	}
	if kind == "s" {
		// s[:i] and s[i+len(sep):] around the first separator
		cutOf := func(l *Term) *Term {
			if l.Op == "len" && l.Args[0].Op == "proj" && l.Args[0].Aux == "0" && l.Args[0].Args[0].Op == "call" && l.Args[0].Args[0].Aux == "strings.Cut" && l.Args[0].Args[0].Args[0] == x {
				return l.Args[0].Args[0]
			}
			return nil
		}
		if n, ok := lo.intVal(); ok && n == 0 {
			if c := cutOf(hi); c != nil {
				return u.Proj(c, "0")
			}
		}
		if hi.Op == "nil" && lo.Op == "add" {
			if c := cutOf(lo.Args[0]); c != nil && lo.Args[1] == u.Len(c.Args[1], "s") {
				return u.Proj(c, "1")
			}
		}
		if x.Op == "str" {
			l, lok := lo.intVal()
			h, hok := hi.intVal()
			if hi.Op == "nil" {
				h, hok = len(x.Aux), true
			}
			if lok && hok && 0 <= l && l <= h && h <= len(x.Aux) {
				return u.Str(x.Aux[l:h])
			}
		}
	}
	ln, lok := lo.intVal()
	if x.Op == "list" && lok && ln <= len(x.Args) && ln >= 0 {
		if hi.Op == "nil" {
			return u.raw("list", "", x.Args[ln:]...)
		}
		if hn, ok := hi.intVal(); ok && hn <= len(x.Args) && hn >= ln {
			return u.raw("list", "", x.Args[ln:hn]...)
		}
	}
	if x.Op == "lcat" && x.Args[0].Op == "list" && lok && ln > 0 && hi.Op == "nil" {
		if f := x.Args[0]; ln <= len(f.Args) {
			return u.LCat(append([]*Term{u.raw("list", "", f.Args[ln:]...)}, x.Args[1:]...)...)
		}
	}
	if x.Op == "slice" && hi.Op != "nil" && x.Args[2].Op == "nil" && x.Aux == kind && u.NonEmpty {
		return u.Slice(x.Args[0], u.Add(x.Args[1], lo), u.Add(x.Args[1], hi), kind)
	}
	if x.Op == "slice" && hi.Op == "nil" && x.Args[2].Op == "nil" && x.Aux == kind {
		return u.Slice(x.Args[0], u.Add(x.Args[1], lo), hi, kind)
	}
	return u.raw("slice", kind, x, lo, hi)
}

// Len is the length of a list ("l"), string ("s") or map ("m").
func (u *U) Len(x *Term, kind string) *Term {
	switch x.Op {
	case "list":
		return u.Num(len(x.Args))
	case "nil":
		return u.Num(0)
	case "zero":
		return u.Num(0)
	case "str":
		return u.Num(len(x.Aux))
	case "mapempty":
		return u.Num(0)
	case "mklist":
		return x.Args[0]
	case "setidx":
		return u.Len(x.Args[0], kind)
	case "slice":
		if u.NonEmpty {
			hi := x.Args[2]
			if hi.Op == "nil" {
				hi = u.Len(x.Args[0], kind)
			}
			if n, ok := x.Args[1].intVal(); ok {
				return u.Add(hi, u.Num(-n))
			}
		}
	case "lcat":
		s := u.Num(0)
		for _, a := range x.Args {
			s = u.Add(s, u.Len(a, kind))
		}
		return s
	case "lmap":
		if d := x.Args[0]; d.Op == "upto" && x.Args[1].Op == "list" && len(x.Args[1].Args) == 1 {
			return d.Args[0]
		}
	case "sorted":
		return u.Len(x.Args[0], kind)
	case "conv":
		if kind == "l" && x.Aux == "[]byte" {
			return u.Len(x.Args[0], "s")
		}
	case "deref":
	}
	if r := u.lenSpecial(x, kind); r != nil {
		return r
	}
	return u.raw("len", kind, x)
}

// TypeIs tests the dynamic type of an interface value.
func (u *U) TypeIs(x *Term, typ string) *Term {
	switch x.Op {
	case "iface":
		if !strings.HasPrefix(typ, "~iface:") {
			return u.Bool(x.Aux == typ)
		}
	case "nil":
		return u.Bool(false)
	}
	if u.FactIs != nil {
		if v := u.FactIs(x, typ); v != nil {
			return v
		}
	}
	return u.raw("typeis", typ, x)
}

// Iface is a value converted to an interface type.
func (u *U) Iface(typ string, x *Term) *Term {
	if x.Op == "as" && x.Aux == typ {
		return x.Args[0]
	}
	return u.raw("iface", typ, x)
}

// As is the value of a type assertion.
func (u *U) As(x *Term, typ string) *Term {
	if x.Op == "iface" && x.Aux == typ {
		return x.Args[0]
	}
	if strings.HasPrefix(typ, "~iface:") {
		return x
	}
	return u.raw("as", typ, x)
}

// Lookup reads a map.
func (u *U) Lookup(m, k *Term, zero string) *Term {
	switch m.Op {
	case "mapset":
		switch e := u.Eq(m.Args[1], k); e.Op {
		case "true":
			return m.Args[2]
		case "false":
			return u.Lookup(m.Args[0], k, zero)
		default:
			if m.Args[1].isConst() && (m.Args[2].isConst() || m.Args[2].Op == "closure") {
				return u.Ite(e, m.Args[2], u.Lookup(m.Args[0], k, zero))
			}
		}
	case "mmap":
		if zero == "false" && allTrue(m) {
			return u.HasKey(m, k)
		}
	case "mapempty", "nil":
		switch zero {
		case "str":
			return u.Str("")
		case "num":
			return u.Num(0)
		case "false":
			return u.Bool(false)
		case "nil":
			return u.Nil()
		}
		return u.raw("zero", zero)
	}
	if k.Op == "tok" && u.rangeOf[k.Aux] == m {
		return u.raw("tok", strings.TrimSuffix(k.Aux, ".key")+".val")
	}
	return u.raw("lookup", zero, m, k)
}

// HasKey tests a key of a map.
func (u *U) HasKey(m, k *Term) *Term {
	switch m.Op {
	case "mapset":
		switch e := u.Eq(m.Args[1], k); e.Op {
		case "true":
			return u.Bool(true)
		case "false":
			return u.HasKey(m.Args[0], k)
		default:
			if m.Args[1].isConst() {
				return u.Ite(e, u.Bool(true), u.HasKey(m.Args[0], k))
			}
		}
	case "mmap":
		if src := u.copyOf(m.Aux, m.Args[0], m.Args[1]); src != nil {
			return u.Ite(u.HasKey(src, k), u.Bool(true), u.HasKey(m.Args[2], k))
		}
		ok := true
		c := u.mapLeaves(m.Args[1], func(t *Term) *Term {
			switch t.Op {
			case "pair":
				return u.Ite(u.Eq(t.Args[0], k), u.Bool(true), u.Bool(false))
			case "skip":
				return u.Bool(false)
			}
			ok = false
			return t
		})
		if ok {
			return u.Ite(u.Mk("exists", m.Aux, m.Args[0], c), u.Bool(true), u.HasKey(m.Args[2], k))
		}
	case "mapempty", "nil":
		return u.Bool(false)
	}
	if k.Op == "tok" && u.rangeOf[k.Aux] == m {
		return u.Bool(true)
	}
	return u.raw("haskey", "", m, k)
}

// allTrue reports whether a map has no values but true.
func allTrue(m *Term) bool {
	switch m.Op {
	case "mapempty", "nil":
		return true
	case "mapset":
		return m.Args[2].Op == "true" && allTrue(m.Args[0])
	case "mmap":
		ok := true
		eachLeaf(m.Args[1], func(t *Term) {
			if t.Op != "skip" && (t.Op != "pair" || t.Args[1].Op != "true") {
				ok = false
			}
		})
		return ok && allTrue(m.Args[2])
	}
	return false
}

// keysOnly replaces the values of a map.
func (u *U) keysOnly(m *Term) *Term {
	switch m.Op {
	case "mapset":
		return u.raw("mapset", m.Aux, u.keysOnly(m.Args[0]), m.Args[1], u.Bool(true))
	case "mmap":
		b := u.mapLeaves(m.Args[1], func(t *Term) *Term {
			if t.Op == "pair" {
				return u.raw("pair", "", t.Args[0], u.Bool(true))
			}
			return t
		})
		return u.Mk("mmap", m.Aux, m.Args[0], b, u.keysOnly(m.Args[2]))
	}
	return m
}

// Proj is the i-th result of a call.
func (u *U) Proj(c *Term, i string) *Term {
	if c.Op == "tuple" {
		n, _ := strconv.Atoi(i)
		return c.Args[n]
	}
	return u.raw("proj", i, c)
}

// Conv converts between types.
func (u *U) Conv(x *Term, typ string) *Term {
	if x.Op == "conv" && (typ == "string" && x.Aux == "[]byte" || typ == "[]byte" && x.Aux == "string" || typ == "string" && x.Aux == "[]rune") {
		return x.Args[0]
	}
	if typ == "[]byte" && x.Op == "list" && len(x.Args) == 0 {
		return x
	}
	if typ == "string" && x.Op == "list" && len(x.Args) == 0 {
		return u.Str("")
	}
	if x.Op == "index" && (typ == "rune" || typ == "int32") {
		return x // a byte or a rune
	}
	if _, ok := x.intVal(); ok {
		switch typ {
		case "int", "int64", "int32", "uint", "uint32", "uint64", "float64", "time.Duration", "os.FileMode", "io/fs.FileMode", "uint8":
			return x
		}
	}
	return u.raw("conv", typ, x)
}

// ---------------------------------------------------------------- trees

func isTree(t *Term) bool {
	switch t.Op {
	case "ite", "eff", "loop", "ret", "panic", "next", "done", "exit":
		return true
	}
	return false
}

// Ite is an ordered decision node.
func (u *U) Ite(c, a, b *Term) *Term {
	switch c.Op {
	case "true":
		return a
	case "false":
		return b
	case "not":
		return u.Ite(c.Args[0], b, a)
	case "ite":
		// condition that is itself a decision
		return u.Ite(c.Args[0], u.Ite(c.Args[1], a, b), u.Ite(c.Args[2], a, b))
	}
	if a == b {
		return a
	}
	a = u.Assume(a, c, true)
	b = u.Assume(b, c, false)
	if a == b {
		return a
	}
	top := c
	if a.Op == "ite" && a.Args[0].ID < top.ID {
		top = a.Args[0]
	}
	if b.Op == "ite" && b.Args[0].ID < top.ID {
		top = b.Args[0]
	}
	if top == c {
		if c.Op == "eq" && c.Args[1].isConst() {
			if u.Subst(b, map[*Term]*Term{c.Args[0]: c.Args[1]}) == a || u.ifEmpty(c, b) == a {
				return b
			}
		}
		if a.Op == "bot" {
			return b
		}
		if b.Op == "bot" {
			return a
		}
		return u.raw("ite", "", c, a, b)
	}
	t := u.Ite(u.Assume(c, top, true), u.Assume(a, top, true), u.Assume(b, top, true))
	e := u.Ite(u.Assume(c, top, false), u.Assume(a, top, false), u.Assume(b, top, false))
	return u.node(top, t, e)
}

// node builds a decision node whose condition precedes those in the branches,
// unless they were reordered by simplification.
func (u *U) node(c, t, e *Term) *Term {
	if t == e {
		return t
	}
	ok := true
	if t.Op == "ite" && t.Args[0].ID <= c.ID || e.Op == "ite" && e.Args[0].ID <= c.ID {
		ok = false
	}
	if !ok {
		return u.Ite(c, t, e)
	}
	if c.Op == "eq" && c.Args[1].isConst() {
		if u.Subst(e, map[*Term]*Term{c.Args[0]: c.Args[1]}) == t || u.ifEmpty(c, e) == t {
			return e
		}
	}
	if t.Op == "bot" {
		return e
	}
	if e.Op == "bot" {
		return t
	}
	return u.raw("ite", "", c, t, e)
}

// ifEmpty is the value of a term if a list is empty.
func (u *U) ifEmpty(c, t *Term) *Term {
	if l := c.Args[0]; l.Op == "len" && l.Aux == "l" && c.Args[1].Op == "num" && c.Args[1].Aux == "0" && u.Contains(t, l.Args[0]) {
		return u.Subst(t, map[*Term]*Term{l.Args[0]: u.Nil()})
	}
	return nil
}

// escaped reports whether a string that is equal to its quoted form has, according
// to the other atom, a part that quotes escape.
func (u *U) escaped(atom, a2 *Term) bool {
	if atom.Op != "eq" || a2.Op != "call" || a2.Aux != "strings.Contains" || a2.Args[1].Op != "str" {
		return false
	}
	s, p := a2.Args[0], a2.Args[1].Aux
	q := u.raw("fmt", "%q", s)
	if atom.Args[0] != q && atom.Args[1] != q {
		return false
	}
	o := u.Cat(u.Str("\""), s, u.Str("\""))
	return (atom.Args[0] == o || atom.Args[1] == o) && utf8.ValidString(p) && strconv.Quote(p) != "\""+p+"\""
}

// implied decides atom a2 given atom=val.
func (u *U) implied(atom *Term, val bool, a2 *Term) (known, v bool) {
	if atom == a2 {
		return true, val
	}
	if a2.Op == "eq" && a2.Args[1].isConst() && atom.Op == "eq" && a2.Args[0] != atom.Args[0] && a2.Args[0] != atom.Args[1] && u.Contains(atom, a2.Args[0]) {
		// the equation would contradict the atom
		if r := u.Subst(atom, map[*Term]*Term{a2.Args[0]: a2.Args[1]}); r.Op == "true" && !val || r.Op == "false" && val {
			return true, false
		}
	}
	if val && u.escaped(atom, a2) || val && u.escaped(a2, atom) {
		return true, false
	}
	switch atom.Op {
	case "call":
		if u.Guards && val && (atom.Aux == "strings.HasPrefix" || atom.Aux == "strings.HasSuffix") && atom.Args[1].Op == "str" {
			n, l := len(atom.Args[1].Aux), u.Len(atom.Args[0], "s")
			if a2.Op == "lt" && a2.Args[1] == l {
				if c, ok := a2.Args[0].intVal(); ok && c < n {
					return true, true
				}
			}
			if a2.Op == "eq" && a2.Args[0] == l {
				if c, ok := a2.Args[1].intVal(); ok && c < n {
					return true, false
				}
			}
		}
		if atom.Aux == "strings.HasPrefix" && atom.Args[1].Op == "str" && !val && a2.Op == "eq" && a2.Args[0] == atom.Args[0] && a2.Args[1].Op == "str" && strings.HasPrefix(a2.Args[1].Aux, atom.Args[1].Aux) {
			return true, false
		}
	case "typeis":
		if !val {
			return false, false
		}
		x := atom.Args[0]
		if a2.Op == "typeis" && a2.Args[0] == x && !strings.HasPrefix(atom.Aux, "~iface:") && !strings.HasPrefix(a2.Aux, "~iface:") {
			return true, atom.Aux == a2.Aux
		}
		if a2.Op == "eq" && a2.Args[0] == x && a2.Args[1].Op == "nil" {
			return true, false
		}
	case "lt":
		if val && a2.Op == "lt" && a2.Args[0] == atom.Args[1] && a2.Args[1] == atom.Args[0] {
			return true, false
		}
		if val && a2.Op == "eq" && (a2.Args[0] == atom.Args[0] && a2.Args[1] == atom.Args[1] || a2.Args[0] == atom.Args[1] && a2.Args[1] == atom.Args[0]) {
			return true, false
		}
		c, cok := atom.Args[0].intVal()
		if cok { // c < y
			y := atom.Args[1]
			if a2.Op == "lt" && a2.Args[1] == y {
				if d, ok := a2.Args[0].intVal(); ok {
					if val && d <= c {
						return true, true
					}
					if !val && d >= c {
						return true, false
					}
				}
			}
			if a2.Op == "eq" && a2.Args[0] == y {
				if d, ok := a2.Args[1].intVal(); ok {
					if val && d <= c || !val && d > c {
						return true, false
					}
				}
			}
		}
	case "eq":
		if !val && a2.Op == "typeis" {
			return false, false
		}
	}
	return false, false
}

// cost orders terms that are known to be equal.
func (t *Term) cost() int {
	c := t.size
	for k := range t.toks {
		if k[0] == 'U' {
			return c + 1<<31
		}
	}
	return c
}

// Assume simplifies t knowing that atom has the given value.
func (u *U) Assume(t, atom *Term, val bool) *Term {
	if t.isConst() || t == atom && t.isConst() {
		return t
	}
	if atom.Op == "not" {
		return u.Assume(t, atom.Args[0], !val)
	}
	key := strconv.Itoa(t.ID) + ":" + strconv.Itoa(atom.ID) + ":" + strconv.FormatBool(val)
	if r, ok := u.assumeMemo[key]; ok {
		return r
	}
	var repl map[*Term]*Term
	if atom.Op == "eq" && val && atom.Args[1].isConst() && atom.Args[0].Op == "tok" && strings.Contains(atom.Args[0].Aux, ".lv") && atom.Args[1].Op == "num" {
		// perhaps an induction
	} else if atom.Op == "eq" && val && atom.Args[1].isConst() {
		repl = map[*Term]*Term{atom.Args[0]: atom.Args[1]}
	} else if u.SubstEq && atom.Op == "eq" && val && !atom.Args[0].isConst() {
		// equal values are represented by the simpler term
		a, b := atom.Args[0], atom.Args[1]
		ca, cb := a.cost(), b.cost()
		if ca > cb {
			repl = map[*Term]*Term{a: b}
		} else if cb > ca {
			repl = map[*Term]*Term{b: a}
		}
	}
	if atom.Op == "eq" && !val && nonNeg(atom.Args[0]) {
		if c, ok := atom.Args[1].intVal(); ok && c > 0 {
			// c < n  is  c-1 < n
			repl = map[*Term]*Term{u.raw("lt", "", atom.Args[1], atom.Args[0]): u.Lt(u.Num(c-1), atom.Args[0])}
		}
	}
	if atom.Op == "typeis" && !val {
		z := u.asZero[atom.Aux]
		if z == nil {
			z = u.raw("zero", "~as:"+atom.Aux)
		}
		repl = map[*Term]*Term{u.raw("as", atom.Aux, atom.Args[0]): z}
	}
	if atom.Op == "typeis" && val && !strings.HasPrefix(atom.Aux, "~iface:") {
		v := u.raw("as", atom.Aux, atom.Args[0])
		repl = map[*Term]*Term{u.raw("fmt", "%v", atom.Args[0]): u.fmtVerb("%v", u.raw("iface", atom.Aux, v)), u.raw("fmt", "%q", atom.Args[0]): u.fmtVerb("%q", u.raw("iface", atom.Aux, v))}
	}
	if atom.Op == "call" && atom.Aux == "strings.HasPrefix" && atom.Args[1].Op == "str" && val {
		// what is behind the prefix is empty
		x, p := atom.Args[0], atom.Args[1]
		rest := u.raw("slice", "s", x, u.Num(len(p.Aux)), u.Nil())
		repl = map[*Term]*Term{u.raw("eq", "", rest, u.Str("")): u.Eq(x, p), u.raw("eq", "", u.raw("len", "s", x), u.Num(len(p.Aux))): u.Eq(x, p)}
	}
	if atom.Op == "haskey" && !val {
		repl = nil
	}
	minID := atom.ID
	for _, a := range atom.Args {
		if a.ID < minID && !a.isConst() {
			minID = a.ID
		}
	}
	if atom.Op == "typeis" || atom.Op == "lt" {
		minID = -1
		for _, a := range atom.Args {
			if !a.isConst() && (minID < 0 || a.ID < minID) {
				minID = a.ID
			}
		}
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := repl[t]; ok {
			return r
		}
		if t.isBool && t.Op != "not" {
			if k, v := u.implied(atom, val, t); k {
				return u.Bool(v)
			}
		}
		if t == atom {
			return u.Bool(val)
		}
		if len(t.Args) == 0 || t.ID < minID {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = u.Mk(t.Op, t.Aux, args...)
		}
		if atom.Op == "haskey" && !val && t.Op == "lookup" && t.Args[0] == atom.Args[0] && t.Args[1] == atom.Args[1] {
			r = u.raw("zero", t.Aux)
		}
		memo[t] = r
		return r
	}
	r := rec(t)
	u.assumeMemo[key] = r
	return r
}

// regionAtoms lists the atoms of the decision region at the root of a tree.
func regionAtoms(t *Term) []*Term {
	seen := map[*Term]bool{}
	atoms := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.Op != "ite" {
			return
		}
		seen[t] = true
		atoms[t.Args[0]] = true
		rec(t.Args[1])
		rec(t.Args[2])
	}
	rec(t)
	r := []*Term{}
	for a := range atoms {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Eff sequences an effect before a tree.  Decisions that do not depend on the
// effect are made before it.
func (u *U) Eff(call, k *Term) *Term {
	if k.Op == "bot" {
		return k
	}
	for _, a := range regionAtoms(k) {
		if !u.Contains(a, call) {
			kt, kf := u.Assume(k, a, true), u.Assume(k, a, false)
			ct, cf := u.Assume(call, a, true), u.Assume(call, a, false)
			return u.Ite(a, u.Eff(ct, kt), u.Eff(cf, kf))
		}
	}
	if k.Op == "eff" && commute(call, k.Args[0]) && k.Args[0].Aux < call.Aux && !u.Contains(k.Args[0], call) {
		return u.Eff(k.Args[0], u.Eff(call, k.Args[1]))
	}
	return u.raw("eff", "", call, k)
}

// commute reports whether the order of two effects does not matter.
func commute(a, b *Term) bool {
	if a.Op != "do" || b.Op != "do" || len(a.Args) == 0 || len(b.Args) == 0 {
		return false
	}
	x, y := strings.SplitN(a.Aux, "#", 2)[0], strings.SplitN(b.Aux, "#", 2)[0]
	set := map[string]bool{"(*flag.FlagSet).Init": true, "(*flag.FlagSet).SetOutput": true}
	return x != y && set[x] && set[y]
}

// constLeaves reports whether a choice is between constants.
func constLeaves(t *Term) bool {
	if t.Op == "ite" {
		return constLeaves(t.Args[1]) && constLeaves(t.Args[2])
	}
	return t.isConst()
}
