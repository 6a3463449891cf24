package vg

import (
	"strconv"
	"strings"
)

func isBinder(op string) bool {
	switch op {
	case "loop", "lmap", "smap", "fold", "lam":
		return true
	}
	return false
}

// scoped returns the arguments of a binder that are in the scope of its bound
// variables.
func scoped(op string, i int) bool {
	switch op {
	case "loop":
		return i == 1 || i == 2
	case "lam":
		return i == 0
	}
	return i == 1
}

// rename replaces the bound variables or tokens of one binder.
func (u *U) rename(t *Term, from, to string, toBound bool) *Term {
	op := "tok"
	if toBound {
		op = "bound"
	}
	n, err := strconv.Atoi(from)
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if err == nil && !t.hasFree(n) {
			// also binders of the same name
			return t
		}
		if t.Op == "tok" || t.Op == "bound" {
			if strings.HasPrefix(t.Aux, from+".") {
				r := u.raw(op, to+t.Aux[len(from):])
				return r
			}
			return t
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = rec(a)
			changed = changed || args[i] != a
		}
		r := t
		if changed {
			r = u.Mk(t.Op, t.Aux, args...)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) hasFree(n int) bool {
	for _, b := range t.free {
		if b == n {
			return true
		}
	}
	return false
}

func (u *U) mentions(t *Term, name string) bool {
	return u.Any(t, func(x *Term) bool {
		return (x.Op == "tok" || x.Op == "bound") && strings.HasPrefix(x.Aux, name+".")
	})
}

func (u *U) binder(op, aux string, args []*Term) *Term {
	args = append([]*Term(nil), args...)
	// The name of a binder is one more than the number of binders nested in it,
	// so terms that differ only in names are the same.  A name that belongs to a
	// binder further out is skipped; it changes when that one is closed again.
	own, rest := aux, ""
	if op == "fold" {
		i := strings.IndexByte(aux, ':')
		own, rest = aux[:i], aux[i:]
	}
	h, name := 0, ""
	for round := 0; ; round++ {
		h = 0
		foreign := map[int]bool{}
		for i, a := range args {
			if !scoped(op, i) {
				continue
			}
			if a.height > h {
				h = a.height
			}
			for _, b := range a.free {
				if strconv.Itoa(b) != own {
					foreign[b] = true
				}
			}
		}
		n := h + 1
		for foreign[n] {
			n++
		}
		name = strconv.Itoa(n)
		if name == own {
			break
		}
		if round > 10 {
			fail("binder names do not stabilise")
		}
		for i := range args {
			if scoped(op, i) {
				args[i] = u.rename(args[i], own, name, true)
			}
		}
		own = name
	}
	aux = name + rest
	if len(args) > 1 && args[0].Op == "maprange" {
		// the value of the key
		k, v := u.raw("bound", name+".key"), u.raw("bound", name+".val")
		mm := map[*Term]*Term{}
		for i, a := range args {
			if scoped(op, i) {
				Walk(a, func(t *Term) bool {
					if t.Op == "lookup" && t.Args[0] == args[0].Args[0] && t.Args[1] == k {
						mm[t] = v
					}
					return true
				})
			}
		}
		if len(mm) > 0 {
			for i := range args {
				if scoped(op, i) {
					args[i] = u.Subst(args[i], mm)
				}
			}
			return u.binder(op, aux, args)
		}
	}
	switch op {
	case "lmap":
		if r := u.simpLmap(name, args[0], args[1]); r != nil {
			return r
		}
	case "smap":
		if r := u.simpSmap(name, args[0], args[1]); r != nil {
			return r
		}
	case "mmap":
		if r := u.simpMmap(name, args[0], args[1], args[2]); r != nil {
			return r
		}
	case "fold":
		if d := args[0]; d.Op == "upto" {
			if n, ok := d.Args[0].intVal(); ok && n == 0 {
				idx, _ := strconv.Atoi(strings.SplitN(aux, ":", 2)[1])
				return args[2+idx]
			}
		}
		if args[0].Op == "maprange" && (args[0].Args[0].Op == "nil" || args[0].Args[0].Op == "mapempty") {
			idx, _ := strconv.Atoi(strings.SplitN(aux, ":", 2)[1])
			return args[2+idx]
		}
		if r := u.smallest(name, args, rest); r != nil {
			return r
		}
	case "exists":
		if r := u.simpExists(name, args[0], args[1]); r != nil {
			return r
		}
	case "loop":
		return u.mkLoop(name, args)
	}
	return u.rawBinder(op, aux, args)
}

// rawBinder makes a binder node.
func (u *U) rawBinder(op, aux string, args []*Term) *Term {
	t := u.raw(op, aux, args...)
	h := 0
	own := aux
	if i := strings.IndexByte(aux, ':'); i >= 0 {
		own = aux[:i]
	}
	var free []int
	for i, a := range args {
		if !scoped(op, i) {
			free = mergeInts(free, a.free)
			continue
		}
		if a.height > h {
			h = a.height
		}
		var l []int
		for _, b := range a.free {
			if strconv.Itoa(b) != own {
				l = append(l, b)
			}
		}
		free = mergeInts(free, l)
	}
	t.free = free
	if t.height < h+1 {
		t.height = h + 1
	}
	return t
}

// mergeInts merges sorted lists.
func mergeInts(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var r []int
	for i, j := 0, 0; i < len(a) || j < len(b); {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (u *U) mkLoop(name string, args []*Term) *Term {
	dom, body, k := args[0], args[1], args[2]
	if d := dom; d.Op == "upto" {
		if n, ok := d.Args[0].intVal(); ok && n == 0 {
			// never entered: outputs are the initial values
			m := map[*Term]*Term{}
			for i, init := range args[3:] {
				m[u.raw("bound", name+".out"+strconv.Itoa(i))] = init
			}
			return u.Subst(k, m)
		}
	}
	if len(args) == 3 && (dom.Op == "upto" || dom.Op == "maprange") && body.Op == "next" && len(body.Args) == 1 &&
		body.Args[0].Op == "bound" && body.Args[0].Aux == name+".nx" && !u.mentions(k, name) {
		// nothing happens in it
		return k
	}
	if r := u.counted(name, args); r != nil {
		return r
	}
	if r := u.rotate(name, args); r != nil {
		return r
	}
	t := u.rawBinder("loop", name, args)
	// decisions that do not depend on the loop are made before it
	inLoop := map[*Term]bool{}
	Walk(body, func(x *Term) bool {
		if x.Op == "eff" {
			inLoop[x.Args[0]] = true
		}
		return true
	})
	depends := func(a *Term) bool {
		if u.mentions(a, name) {
			return true
		}
		for c := range inLoop {
			if u.Contains(a, c) {
				return true
			}
		}
		return false
	}
	for _, part := range []*Term{body, k} {
		for _, a := range regionAtoms(part) {
			if !depends(a) {
				return u.Ite(a, u.Assume(t, a, true), u.Assume(t, a, false))
			}
		}
	}
	// a search that ends for certain, whatever it finds
	if dom.Op == "forever" && k.Op == "never" {
		var e *Term
		ok := true
		eachLeaf(body, func(t *Term) {
			switch {
			case t.Op == "next" && len(t.Args) > 0 && t.Args[0].Op == "bound" && t.Args[0].Aux == name+".nx":
			case e == nil && !u.mentions(t, name) && t.Op == "ret":
				e = t
			case e != t:
				ok = false
			}
		})
		if ok && e != nil {
			return e
		}
	}
	if len(args) == 3 && !u.mentions(k, name) {
		if r := u.sortedSearch(name, dom, body, k); r != nil {
			return r
		}
	}
	// a search
	if len(args) == 3 && !u.mentions(k, name) && (dom.Op == "upto" || dom.Op == "maprange") {
		var e *Term
		ok := true
		eachLeaf(body, func(t *Term) {
			switch {
			case t.Op == "next" && len(t.Args) == 1 && t.Args[0].Op == "bound" && t.Args[0].Aux == name+".nx":
			case e == nil && !u.mentions(t, name) && (t.Op == "ret" || t.Op == "next" || t.Op == "exit" || t.Op == "eff" || t.Op == "loop"):
				e = t
			case e != t:
				ok = false
			}
		})
		if ok && e != nil {
			c := u.mapLeaves(body, func(t *Term) *Term { return u.Bool(t == e) })
			return u.Ite(u.Mk("exists", name, dom, c), e, k)
		}
	}
	return t
}

// sortedSearch is the search for the first element of a sorted list that has a
// property: the first of those, sorted, that have it.
func (u *U) sortedSearch(name string, dom, body, k *Term) *Term {
	if dom.Op != "upto" || dom.Args[0].Op != "len" {
		return nil
	}
	sorted := u.Sorted(dom.Args[0].Args[0])
	if sorted.Op != "sorted" {
		return nil
	}
	from, elem := sorted.Args[0], (*Term)(nil)
	switch from.Op {
	case "keys":
		from = u.raw("maprange", "", from.Args[0])
		elem = u.raw("bound", name+".key")
	case "lmap":
		if from.Args[1].Op != "list" || len(from.Args[1].Args) != 1 || from.Args[0].Op != "maprange" {
			return nil
		}
		elem = u.rename(from.Args[1].Args[0], from.Aux, name, true)
		from = from.Args[0]
	default:
		return nil
	}
	if u.Any(elem, func(x *Term) bool { return isBinder(x.Op) || x.Op == "exists" || x.Op == "mmap" }) {
		return nil
	}
	var e *Term
	ok := true
	eachLeaf(body, func(t *Term) {
		switch {
		case t.Op == "next" && len(t.Args) == 1 && t.Args[0].Op == "bound" && t.Args[0].Aux == name+".nx":
		case e == nil && (t.Op == "ret" || t.Op == "exit"):
			e = t
		case e != t:
			ok = false
		}
	})
	if !ok || e == nil {
		return nil
	}
	cur := u.Index(sorted, u.raw("bound", name+".it"))
	hole := u.raw("bound", name+".hole")
	sel := u.Subst(u.mapLeaves(body, func(t *Term) *Term { return u.Bool(t == e) }), map[*Term]*Term{cur: hole})
	e = u.Subst(e, map[*Term]*Term{cur: hole})
	it := u.raw("bound", name+".it")
	if u.Contains(sel, it) || u.Contains(e, it) {
		return nil
	}
	sel = u.Subst(sel, map[*Term]*Term{hole: elem})
	list := u.Mk("lmap", name, from, u.mapLeaves(sel, func(t *Term) *Term {
		if t.Op == "true" {
			return u.raw("list", "", elem)
		}
		return u.raw("nil", "")
	}))
	first := u.Index(u.Sorted(list), u.Num(0))
	return u.Ite(u.Mk("exists", name, from, sel), u.Subst(e, map[*Term]*Term{hole: first}), k)
}

// simpExists simplifies the condition that something holds of some element.
func (u *U) simpExists(name string, dom, c *Term) *Term {
	if c.Op == "false" {
		return c
	}
	it := u.raw("bound", name+".it")
	switch dom.Op {
	case "upto":
		n := dom.Args[0]
		if k, ok := n.intVal(); ok && k <= 8 {
			r := u.Bool(false)
			for i := k - 1; i >= 0; i-- {
				r = u.Ite(u.Subst(c, map[*Term]*Term{it: u.Num(i)}), u.Bool(true), r)
			}
			return r
		}
		if !u.mentions(c, name) {
			return u.Ite(u.Eq(n, u.Num(0)), u.Bool(false), c)
		}
	case "maprange":
		if d := dom.Args[0]; d.Op == "nil" || d.Op == "mapempty" {
			return u.Bool(false)
		}
		if !u.mentions(c, name) {
			return u.Ite(u.Eq(u.Len(dom.Args[0], "m"), u.Num(0)), u.Bool(false), c)
		}
	}
	for _, a := range regionAtoms(c) {
		if !u.mentions(a, name) {
			return u.Ite(a, u.Mk("exists", name, dom, u.Assume(c, a, true)), u.Mk("exists", name, dom, u.Assume(c, a, false)))
		}
	}
	return nil
}

// leaves maps the leaves of a decision region.
func (u *U) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Op == "ite" {
			r = u.Ite(t.Args[0], rec(t.Args[1]), rec(t.Args[2]))
		} else {
			r = f(t)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func eachLeaf(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "ite" {
			rec(t.Args[1])
			rec(t.Args[2])
			return
		}
		f(t)
	}
	rec(t)
}

// copyOf is the map a loop copies all entries of.
func (u *U) copyOf(name string, dom, body *Term) *Term {
	if dom.Op != "maprange" || body.Op != "pair" {
		return nil
	}
	k, v := body.Args[0], body.Args[1]
	if k.Op == "bound" && k.Aux == name+".key" && v.Op == "bound" && v.Aux == name+".val" {
		return dom.Args[0]
	}
	return nil
}

func (t *Term) uptoConst() (int, bool) {
	if t.Op != "upto" {
		return 0, false
	}
	return t.Args[0].intVal()
}

func (u *U) simpMmap(name string, dom, body, init *Term) *Term {
	if body.Op == "skip" || dom.Op == "maprange" && (dom.Args[0].Op == "nil" || dom.Args[0].Op == "mapempty") {
		return init
	}
	// known entries
	if body.Op == "pair" && dom.Op == "maprange" {
		k, v := u.raw("bound", name+".key"), u.raw("bound", name+".val")
		m := dom.Args[0]
		var known []*Term
		for m.Op == "mapset" && m.Args[1].isConst() && len(known) < 32 {
			known = append(known, m)
			m = m.Args[0]
		}
		if m.Op == "mapempty" && body.Args[0] == k {
			for i := len(known) - 1; i >= 0; i-- {
				e := known[i]
				init = u.mapSet(init, e.Args[1], u.Subst(body.Args[1], map[*Term]*Term{k: e.Args[1], v: e.Args[2]}))
			}
			return init
		}
	}
	if n, ok := dom.uptoConst(); ok && body.Op == "pair" && n <= 32 {
		for i := 0; i < n; i++ {
			at := map[*Term]*Term{u.raw("bound", name+".it"): u.Num(i)}
			init = u.mapSet(init, u.Subst(body.Args[0], at), u.Subst(body.Args[1], at))
		}
		return init
	}
	// entries that are not overwritten: the others win
	if body.Op == "ite" && body.Args[1].Op == "skip" && body.Args[0].Op == "haskey" {
		c := body.Args[0]
		k := c.Args[1]
		src := u.copyOf(name, dom, body.Args[2])
		if src == nil || k.Op != "bound" || k.Aux != name+".key" {
			return nil
		}
		if init.Op == "mmap" && init.Args[2].Op == "mapempty" {
			if over := u.copyOf(init.Aux, init.Args[0], init.Args[1]); over != nil && c.Args[0] == over {
				return u.Mk("mmap", init.Aux, init.Args[0], init.Args[1], u.rawBinder("mmap", name, []*Term{dom, body.Args[2], init.Args[2]}))
			}
		}
	}
	return nil
}

func (u *U) simpLmap(name string, dom, body *Term) *Term {
	if body.Op == "bot" {
		return u.raw("list", "")
	}
	if (body.Op == "list" && len(body.Args) == 0) || body.Op == "nil" {
		return u.raw("list", "")
	}
	if dom.Op == "maprange" && (dom.Args[0].Op == "nil" || dom.Args[0].Op == "mapempty") {
		return u.raw("list", "")
	}
	it := u.raw("bound", name+".it")
	if dom.Op == "upto" {
		n := dom.Args[0]
		if c, ok := n.intVal(); ok && c <= 0 {
			return u.raw("list", "")
		} else if ok && c <= 8 && body.Op != "ite" {
			var parts []*Term
			for i := 0; i < c; i++ {
				parts = append(parts, u.Subst(body, map[*Term]*Term{it: u.Num(i)}))
			}
			return u.LCat(parts...)
		}
		// identity
		if body.Op == "list" && len(body.Args) == 1 {
			e := body.Args[0]
			if e.Op == "index" && e.Args[1] == it && n == u.Len(e.Args[0], "l") && !u.mentions(e.Args[0], name) {
				return e.Args[0]
			}
		}
	}
	return u.unswitch("lmap", name, dom, body)
}

// smallest recognises the search for the smallest of the selected strings of a map, none
// of which is empty.
func (u *U) smallest(name string, args []*Term, rest string) *Term {
	if rest != ":0" || len(args) != 3 || args[0].Op != "maprange" || args[2].Op != "str" || args[2].Aux != "" {
		return nil
	}
	cur := u.raw("bound", name+".c0")
	var elem *Term
	ok := true
	eachLeaf(args[1], func(t *Term) {
		if t.Op != "next" || len(t.Args) != 2 {
			ok = false
		} else if v := t.Args[1]; v != cur {
			ok = ok && (elem == nil || elem == v)
			elem = v
		}
	})
	if !ok || elem == nil || u.Contains(elem, cur) {
		return nil
	}
	none, less := u.Eq(cur, u.Str("")), u.Lt(elem, cur)
	some := u.Assume(args[1], none, false)
	first, better, worse := u.Assume(args[1], none, true), u.Assume(some, less, true), u.Assume(some, less, false)
	taken := func(t *Term) *Term {
		return u.mapLeaves(t, func(t *Term) *Term { return u.Bool(t.Args[1] == elem) })
	}
	sel := taken(first)
	if taken(worse).Op != "false" || taken(better) != sel || u.Contains(sel, cur) {
		return nil
	}
	list := u.Mk("lmap", name, args[0], u.mapLeaves(first, func(t *Term) *Term {
		if t.Args[1] == elem {
			return u.raw("list", "", elem)
		}
		return u.raw("nil", "")
	}))
	return u.Ite(u.Mk("exists", name, args[0], sel), u.Index(u.Sorted(list), u.Num(0)), u.Str(""))
}

// unswitch takes decisions that are the same for all elements out of a comprehension.
func (u *U) unswitch(op, name string, dom, body *Term) *Term {
	for _, a := range regionAtoms(body) {
		if !u.mentions(a, name) {
			return u.Ite(a, u.Mk(op, name, dom, u.Assume(body, a, true)), u.Mk(op, name, dom, u.Assume(body, a, false)))
		}
	}
	return nil
}

func (u *U) simpSmap(name string, dom, body *Term) *Term {
	if body.Op == "str" && body.Aux == "" || body.Op == "bot" {
		return u.Str("")
	}
	it := u.raw("bound", name+".it")
	if dom.Op == "upto" {
		n := dom.Args[0]
		if c, ok := n.intVal(); ok && c <= 0 {
			return u.Str("")
		} else if ok && c <= 8 && body.Op != "ite" {
			var parts []*Term
			for i := 0; i < c; i++ {
				parts = append(parts, u.Subst(body, map[*Term]*Term{it: u.Num(i)}))
			}
			return u.Cat(parts...)
		}
	}
	if dom.Op == "upto" || dom.Op == "maprange" {
		list := u.mapLeaves(body, func(t *Term) *Term { return u.raw("list", "", t) })
		h := commonHead(list)
		b := u.mapLeaves(body, func(t *Term) *Term {
			if h == "" {
				return t
			}
			if t.Op == "str" {
				return u.Str(t.Aux[len(h):])
			}
			return u.Cat(append([]*Term{u.Str(t.Args[0].Aux[len(h):])}, t.Args[1:]...)...)
		})
		s, first := "", true
		eachLeaf(b, func(t *Term) {
			e := ""
			if t.Op == "str" {
				e = t.Aux
			} else {
				_, e = splitTail(u, t)
			}
			if first {
				s, first = e, false
			}
			for !strings.HasSuffix(e, s) {
				s = s[1:]
			}
		})
		if h+s != "" {
			// what all elements start or end with belongs to a separator
			b = u.mapLeaves(b, func(t *Term) *Term {
				if t.Op == "str" {
					return u.raw("list", "", u.Str(strings.TrimSuffix(t.Aux, s)))
				}
				x, e := splitTail(u, t)
				return u.raw("list", "", u.Cat(x, u.Str(strings.TrimSuffix(e, s))))
			})
			n := dom.Args[0]
			if dom.Op == "maprange" {
				n = u.Len(n, "m")
			}
			j := u.Cat(u.Str(h), u.Join(u.Mk("lmap", name, dom, b), u.Str(s+h)), u.Str(s))
			return u.Ite(u.Eq(n, u.Num(0)), u.Str(""), j)
		}
	}
	return u.unswitch("smap", name, dom, body)
}

// lmapToSmap turns a comprehension of strings into a concatenation.
func (u *U) lmapToSmap(l *Term) *Term {
	ok := true
	b := u.mapLeaves(l.Args[1], func(t *Term) *Term {
		switch t.Op {
		case "list":
			return u.Cat(t.Args...)
		case "bot":
			return t
		case "nil":
			return u.Str("")
		}
		r := u.Join(t, u.Str(""))
		return r
	})
	if !ok {
		return nil
	}
	return u.Mk("smap", l.Aux, l.Args[0], b)
}

// indexSpecial reads elements of comprehensions.
func (u *U) indexSpecial(x, i *Term) *Term {
	if x.Op == "lmap" && x.Args[0].Op == "upto" && x.Args[1].Op == "list" && len(x.Args[1].Args) == 1 {
		it := u.raw("bound", x.Aux+".it")
		return u.Subst(x.Args[1].Args[0], map[*Term]*Term{it: i})
	}
	if x.Op == "call" && x.Aux == "strings.SplitN" && len(x.Args) == 3 {
		if n, ok := x.Args[2].intVal(); ok && n == 2 {
			cut := u.CallTerm("strings.Cut", x.Args[0], x.Args[1])
			if k, ok := i.intVal(); ok && k <= 1 {
				return u.Proj(cut, strconv.Itoa(k))
			}
		}
	}
	return nil
}

func (u *U) lenSpecial(x *Term, kind string) *Term { return nil }

// eqSpecial compares special terms.
func (u *U) eqSpecial(a, b *Term) *Term {
	if a.Op == "len" && b.Op == "num" {
		x := a.Args[0]
		if x.Op == "call" && x.Aux == "strings.SplitN" && len(x.Args) == 3 {
			if n, ok := x.Args[2].intVal(); ok && n == 2 {
				found := u.foundAtom(x.Args[0], x.Args[1])
				switch b.Aux {
				case "1":
					return u.Not(found)
				case "2":
					return found
				default:
					return u.Bool(false)
				}
			}
		}
	}
	return nil
}

// foundAtom is the condition that s contains sep.
func (u *U) foundAtom(s, sep *Term) *Term {
	return u.CallTerm("strings.Contains", s, sep)
}
