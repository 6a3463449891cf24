package vg

import (
	"strconv"
	"strings"
)

// rotate removes a carried value that ends the loop once it is set: the test
// at the beginning of an iteration moves to the end of the one before.
func (u *U) rotate(name string, args []*Term) *Term {
	dom, body, k, inits := args[0], args[1], args[2], args[3:]
	if dom.Op != "forever" && dom.Op != "upto" || len(inits) == 0 {
		return nil
	}
	it := u.raw("bound", name+".it")
	cv := make([]*Term, len(inits))
	outs := map[*Term]*Term{}
	Walk(body, func(x *Term) bool {
		if i, ok := carriedIndex(x, name, ".c"); ok && i < len(cv) {
			cv[i] = x
		}
		return true
	})
	Walk(k, func(x *Term) bool {
		if i, ok := carriedIndex(x, name, ".out"); ok && i < len(cv) {
			if cv[i] == nil {
				cv[i] = u.raw("bound", name+".c"+strconv.Itoa(i))
				cv[i].isBool = x.isBool
			}
			outs[x] = cv[i]
		}
		return true
	})
	if dom.Op == "upto" {
		body = u.Ite(u.Lt(it, dom.Args[0]), body, u.Subst(k, outs))
	}
	// at(t, i, vals) is t at another iteration
	at := func(t, i *Term, vals []*Term) *Term {
		m := map[*Term]*Term{it: i}
		for j, c := range cv {
			if c != nil {
				m[c] = vals[j]
			}
		}
		return u.Subst(t, m)
	}
	for i, c := range cv {
		if c == nil {
			continue
		}
		// the loop goes on while cond
		var conds []*Term
		if c.isBool {
			conds = []*Term{c, u.Not(c)}
		} else {
			conds = []*Term{u.Eq(c, u.Nil())}
		}
		for _, cond := range conds {
			on, off := u.Assume(body, cond, true), u.Assume(body, cond, false)
			if !c.isBool {
				on = u.Subst(on, map[*Term]*Term{c: u.Nil()})
			}
			if u.Any(on, func(x *Term) bool { return x == c }) || !onlyReturns(off) {
				continue
			}
			if u.Any(off, func(x *Term) bool { return x == c }) && c.isBool {
				continue
			}
			holds := func(v *Term) *Term { return u.Subst(cond, map[*Term]*Term{c: v}) }
			lower := map[*Term]*Term{}
			for j := i + 1; j < len(cv); j++ {
				if cv[j] != nil {
					b := u.raw("bound", name+".c"+strconv.Itoa(j-1))
					b.isBool = cv[j].isBool
					lower[cv[j]] = b
				}
			}
			ok := true
			memo := map[*Term]*Term{}
			var rec func(t *Term) *Term
			rec = func(t *Term) *Term {
				if r, ok := memo[t]; ok {
					return r
				}
				r := t
				switch t.Op {
				case "ite":
					r = u.Ite(t.Args[0], rec(t.Args[1]), rec(t.Args[2]))
				case "eff":
					r = u.Eff(t.Args[0], rec(t.Args[1]))
				case "loop":
					ok = false
				case "next":
					if t.Args[0].Op != "bound" || t.Args[0].Aux != name+".nx" || len(t.Args) != len(inits)+1 {
						ok = false
						break
					}
					vals := t.Args[1:]
					a := append([]*Term{t.Args[0]}, vals[:i]...)
					a = append(a, vals[i+1:]...)
					h := holds(vals[i])
					stop := u.Assume(at(off, u.Add(it, u.Num(1)), vals), h, false)
					r = u.Ite(h, u.raw("next", "", a...), stop)
				}
				memo[t] = r
				return r
			}
			b := rec(on)
			if !ok {
				continue
			}
			b = u.Subst(b, lower)
			rest := append(append([]*Term(nil), inits[:i]...), inits[i+1:]...)
			h := holds(inits[i])
			stop := u.Assume(at(off, u.Num(0), inits), h, false)
			return u.Ite(h, u.Mk("loop", name, append([]*Term{u.raw("forever", ""), b, u.raw("never", "")}, rest...)...), stop)
		}
	}
	return nil
}

// counted turns a loop that begins with a test of the iteration number into
// one over a range.
func (u *U) counted(name string, args []*Term) *Term {
	dom, body, k := args[0], args[1], args[2]
	if dom.Op != "forever" || k.Op != "never" || body.Op != "ite" {
		return nil
	}
	it := u.raw("bound", name+".it")
	for _, a := range regionAtoms(body) {
		if a.Op != "lt" || a.Args[0] != it || u.mentions(a.Args[1], name) {
			continue
		}
		on, off := u.Assume(body, a, true), u.Assume(body, a, false)
		if !onlyReturns(off) {
			continue
		}
		m := map[*Term]*Term{it: a.Args[1]}
		Walk(off, func(x *Term) bool {
			if i, ok := carriedIndex(x, name, ".c"); ok {
				o := u.raw("bound", name+".out"+strconv.Itoa(i))
				o.isBool = x.isBool
				m[x] = o
			}
			return true
		})
		return u.Mk("loop", name, append([]*Term{u.raw("upto", "", a.Args[1]), on, u.Subst(off, m)}, args[3:]...)...)
	}
	return nil
}

func carriedIndex(x *Term, name, kind string) (int, bool) {
	if x.Op != "bound" || !strings.HasPrefix(x.Aux, name+kind) {
		return 0, false
	}
	i, err := strconv.Atoi(x.Aux[len(name+kind):])
	return i, err == nil
}

// onlyReturns holds of decision trees whose leaves all return.
func onlyReturns(t *Term) bool {
	ok := true
	eachLeaf(t, func(t *Term) {
		if t.Op != "ret" {
			ok = false
		}
	})
	return ok
}
