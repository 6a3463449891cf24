package vg

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	tail   bool // loop made of tail calls
}

func (x *Exec) natLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if m, ok := x.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					y := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[y] {
						continue
					}
					l.body[y] = true
					work = append(work, y.Preds...)
				}
			}
		}
	}
	x.loops[fn] = m
	return m
}

// resume is a way out of a loop.
type resume struct {
	fr   *frame
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *state
	res  []*Term
	kind string
	head bool
	pan  *Term
	toks []*Term // tokens of inner loops, which the exit leaf carries as arguments
}

type loopRun struct {
	x           *Exec
	nat         *natLoop
	tok         string
	cond        *Term
	condEnv     *frame
	iter        *Term
	phis        []*ssa.Phi
	roots       []*Term
	entry       *state
	exits       []*resume
	newRoot     map[*Term]bool
	nObj0       int
	nv          int
	moreByValue map[int]bool
	byValue     map[int]bool // maps that the loop both changes and replaces
	moreNil     map[int]bool
	changed     map[int]bool // carried values that an iteration changes
}

// own is the number of the carried value that a token stands for, or -1.
func (l *loopRun) own(t *Term) int {
	p := l.tok + ".lv"
	if t.Op != "tok" || !strings.HasPrefix(t.Aux, p) {
		return -1
	}
	i, err := strconv.Atoi(t.Aux[len(p):])
	if err != nil || i >= l.nv {
		return -1
	}
	return i
}

func (l *loopRun) leafExit(r *resume) *Term {
	l.exits = append(l.exits, r)
	outer := map[string]bool{}
	for _, n := range l.entry.iter {
		outer[n] = true
	}
	found := map[string]bool{}
	collect := func(t *Term) {
		if t == nil {
			return
		}
		for k := range t.toks {
			if i := strings.IndexByte(k, '.'); i > 0 && k[0] == 'U' && !outer[k[:i]] {
				found[k] = true
			}
		}
	}
	for _, t := range r.res {
		collect(t)
	}
	collect(r.pan)
	if r.kind == "block" {
		for _, t := range r.fr.env {
			collect(t)
		}
	}
	for _, t := range r.st.mem {
		collect(t)
	}
	var names []string
	for k := range found {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		r.toks = append(r.toks, l.x.U.raw("tok", k))
	}
	return l.x.U.raw("exit", l.tok+":"+strconv.Itoa(len(l.exits)-1), r.toks...)
}

func (l *loopRun) exit(fr *frame, b, pred *ssa.BasicBlock, st *state) *Term {
	return l.leafExit(&resume{fr: fr.clone(), b: b, pred: pred, st: st.clone(), kind: "block", head: pred == l.nat.header})
}

func (l *loopRun) exitRet(fr *frame, st *state, res []*Term) *Term {
	return l.leafExit(&resume{fr: fr.clone(), st: st.clone(), res: res, kind: "ret"})
}

func (l *loopRun) exitPanic(fr *frame, st *state, v *Term) *Term {
	return l.leafExit(&resume{fr: fr.clone(), st: st.clone(), pan: v, kind: "panic"})
}

func (l *loopRun) lv(i int) *Term {
	t := l.x.U.raw("tok", l.tok+".lv"+strconv.Itoa(i))
	if i < len(l.phis) && isBoolType(l.phis[i].Type()) {
		t.isBool = true
	}
	return t
}

func (l *loopRun) back(fr *frame, st *state, vals []*Term) *Term {
	x := l.x
	inner := func(o *Term) bool {
		n, _ := strconv.Atoi(o.Aux[:strings.IndexByte(o.Aux, ':')])
		return n > l.nObj0
	}
	for r, c := range st.mem {
		if r.Op == "obj" && inner(r) {
			continue
		}
		b, ok := l.entry.mem[r]
		if ok && b == c {
			continue
		}
		if !ok && (r.hasObj() && r.Op != "obj") {
			continue
		}
		if i := l.own(r); i >= 0 {
			if l.byValue[i] {
				continue
			}
			l.moreByValue[i] = true
		}
		l.newRoot[r] = true
	}
	var out []*Term
	for i, v := range vals {
		if v != l.lv(i) {
			l.changed[i] = true
		}
		if x.C.Guards && mayBeNil(v) {
			l.moreNil[i] = true
		}
		if l.byValue[i] {
			out = append(out, x.freeze(st, x.content(st, v)))
			continue
		}
		out = append(out, x.freezeF(st, v, inner))
	}
	for _, r := range l.roots {
		c := st.mem[r]
		if e := l.entry.mem[r]; e.Op == "struct" {
			names := strings.Split(e.Aux, ",")[1:]
			for _, n := range names {
				out = append(out, x.freezeF(st, x.U.Sel(c, n), inner))
			}
			continue
		}
		out = append(out, x.freezeF(st, c, inner))
	}
	return x.U.raw("next", "", append([]*Term{x.U.raw("tok", l.tok+".nx")}, out...)...)
}

// loop summarises a loop.
func (x *Exec) loop(fr *frame, nat *natLoop, phis []*ssa.Phi, inits []*Term, st *state) *Term {
	if !x.C.Guards {
		return x.loopFrom(fr, nat, phis, inits, st, nil)
	}
	// carried values that may be nil
	var split func(fr *frame, st *state, i int, isNil []int) *Term
	split = func(fr *frame, st *state, i int, isNil []int) *Term {
		for ; i < len(inits); i++ {
			var typ types.Type
			if nat.tail {
				typ = fr.fn.Params[i].Type()
			} else {
				typ = phis[i].Type()
			}
			c := x.nilIf(st, inits[i], typ)
			if c == nil || c.Op == "false" || !canBeNil(typ) {
				continue
			}
			if c.Op == "true" {
				isNil = append(isNil[:len(isNil):len(isNil)], i)
				continue
			}
			yes := split(fr.clone(), st.clone(), i+1, append(isNil[:len(isNil):len(isNil)], i))
			return x.U.Ite(c, yes, split(fr, st, i+1, isNil))
		}
		return x.loopFrom(fr, nat, phis, inits, st, isNil)
	}
	return split(fr, st, 0, nil)
}

func (x *Exec) loopFrom(fr *frame, nat *natLoop, phis []*ssa.Phi, inits []*Term, st *state, nils []int) *Term {
	u := x.U
	var roots []*Term
	var l *loopRun
	var body *Term
	byValue := map[int]bool{}
	isNil := map[int]bool{}
	same := map[int]bool{}
	for _, i := range nils {
		isNil[i] = true
	}
	inits = append([]*Term(nil), inits...)
	for round := 0; ; round++ {
		if round > 8 {
			fail("%s: loop does not stabilise", fr.fn)
		}
		l = &loopRun{x: x, nat: nat, tok: u.fresh("U"), phis: phis, roots: roots, newRoot: map[*Term]bool{}, nObj0: x.nObj, byValue: byValue, moreByValue: map[int]bool{}, moreNil: map[int]bool{}, changed: map[int]bool{}}
		fr2, st2 := fr.clone(), st.clone()
		fr2.memo = map[string]*Term{}
		for i := range byValue {
			if o := inits[i]; o.Op == "obj" {
				delete(st2.mem, o) // not to be used any more
			}
		}
		nv := len(phis)
		for i, p := range phis {
			fr2.env[p] = l.lv(i)
		}
		if nat.tail {
			nv = len(fr.fn.Params)
			for i, p := range fr.fn.Params {
				fr2.env[p] = l.lv(i)
				if same[i] {
					fr2.env[p] = inits[i]
				}
			}
		}
		l.nv = nv
		for i := range isNil {
			x.nilTok[l.lv(i)] = true
		}
		slot := nv
		for _, r := range roots {
			// structs are carried field by field
			if c := x.entryContent(st, r); c.Op == "struct" {
				args := make([]*Term, len(c.Args))
				for j := range args {
					args[j] = l.lv(slot)
					slot++
				}
				st2.mem[r] = u.mkStruct(c.Aux, args)
				continue
			}
			st2.mem[r] = l.lv(slot)
			slot++
		}
		st2.occ = map[*Term]int{}
		st2.iter = append(append([]string(nil), st.iter...), l.tok)
		l.entry = st2.clone()
		fr2.loops = append(fr2.loops, l)
		body = x.instrs(fr2, nat.header, len(phis), st2)
		var add []*Term
		more := false
		if x.C.Guards && nat.tail && len(same) == 0 {
			// what does not change is known
			for i := range fr.fn.Params {
				if !l.changed[i] {
					same[i], more = true, true
				}
			}
		}
		for i := range l.moreNil {
			if !isNil[i] {
				isNil[i], more = true, true
			}
		}
		if more { // once more
			continue
		}
		if len(l.moreByValue) > 0 && !nat.tail {
			for i := range l.moreByValue {
				if _, ok := phis[i].Type().Underlying().(*types.Map); !ok {
					fail("%s: loop changes what it replaces", fr.fn)
				}
				byValue[i] = true
			}
			continue
		}
		for r := range l.newRoot {
			known := false
			for _, q := range roots {
				if q == r {
					known = true
				}
			}
			if !known {
				add = append(add, r)
			}
		}
		if len(add) == 0 {
			break
		}
		sort.Slice(add, func(i, j int) bool { return add[i].ID < add[j].ID })
		roots = append(append([]*Term(nil), roots...), add...)
	}
	ini := append([]*Term(nil), inits...)
	for i := range byValue {
		ini[i] = x.freeze(st, x.content(st, inits[i]))
	}
	for _, r := range roots {
		c := x.entryContent(st, r)
		if c.Op == "struct" {
			ini = append(ini, c.Args...)
			continue
		}
		ini = append(ini, c)
	}
	// merge equal exits
	s := &loopSum{x: x, l: l, body: body, init: ini, fr: fr, st: st, sub: map[*Term]*Term{}}
	return s.finish()
}

// entryContent is what a memory root holds before a loop.
func (x *Exec) entryContent(st *state, r *Term) *Term {
	c, ok := st.mem[r]
	if ok {
		return c
	}
	if r.Op == "obj" {
		fail("dead object in a loop")
	}
	if x.container[r] || r.Op == "list" || r.Op == "lcat" {
		return r
	}
	return x.load(st, r, nil)
}

type loopSum struct {
	x        *Exec
	l        *loopRun
	body     *Term
	init     []*Term
	fr       *frame
	st       *state
	sub      map[*Term]*Term // what tokens are in terms of the iteration
	done     []*Term         // closed form after the last iteration; nil if not known
	drop     []bool
	dead     []bool // only contributes to itself
	closed   []bool // has a closed form, used if nothing else needs the carried value
	dom      *Term
	headExit *resume
}

// nexts lists the next leaves of the body.
func (s *loopSum) nexts() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "next":
			if s.isNext(t) {
				r = append(r, t)
			}
		case "ite":
			rec(t.Args[1])
			rec(t.Args[2])
		case "eff":
			rec(t.Args[1])
		case "loop":
			rec(t.Args[1])
			rec(t.Args[2])
		}
	}
	rec(s.body)
	return r
}

func (s *loopSum) isNext(t *Term) bool {
	return t.Op == "next" && t.Args[0].Aux == s.l.tok+".nx"
}

func (s *loopSum) hasExits() bool {
	return s.x.U.Any(s.body, func(t *Term) bool { return t.Op == "exit" && strings.HasPrefix(t.Aux, s.l.tok+":") })
}

func (s *loopSum) hasEffects() bool {
	return s.x.U.Any(s.body, func(t *Term) bool { return t.Op == "eff" || t.Op == "loop" })
}

func (s *loopSum) subst(m map[*Term]*Term) {
	u := s.x.U
	s.body = u.Subst(s.body, m)
	for k, v := range s.sub {
		s.sub[k] = u.Subst(v, m)
	}
	for k, v := range m {
		s.sub[k] = v
	}
	if s.l.cond != nil {
		s.l.cond = u.Subst(s.l.cond, m)
	}
}

func (s *loopSum) anyCarried(t *Term, except *Term) bool {
	return s.x.U.Any(t, func(y *Term) bool {
		return y != except && y.Op == "tok" && strings.HasPrefix(y.Aux, s.l.tok+".lv")
	})
}

func (s *loopSum) finish() *Term {
	u, l := s.x.U, s.l
	n := len(s.init)
	s.done = make([]*Term, n)
	s.drop = make([]bool, n)
	s.dead = make([]bool, n)
	s.closed = make([]bool, n)
	it := u.raw("tok", l.tok+".it")
	nx := s.nexts()
	// invariants and inductions
	for changed := true; changed; {
		changed = false
		for i := 0; i < n; i++ {
			if s.drop[i] {
				continue
			}
			lv := l.lv(i)
			same, ind, neg := true, true, true
			for _, t := range nx {
				if t.Args[i+1] != lv && t.Args[i+1] != s.init[i] {
					same = false
				}
				if t.Args[i+1] != u.Add(lv, u.Num(1)) {
					ind = false
				}
				if t.Args[i+1] != u.Add(lv, u.Num(-1)) {
					neg = false
				}
			}
			if len(nx) == 0 {
				same = true
			}
			if same {
				s.drop[i] = true
				s.done[i] = s.init[i]
				s.subst(map[*Term]*Term{lv: s.init[i]})
				nx = s.nexts()
				changed = true
			} else if ind {
				s.drop[i] = true
				s.subst(map[*Term]*Term{lv: u.Add(it, s.init[i])})
				nx = s.nexts()
				changed = true
			} else if neg {
				s.drop[i] = true
				s.subst(map[*Term]*Term{lv: u.arith("sub", s.init[i], it)})
				nx = s.nexts()
				changed = true
			} else if f := s.ofIteration(i, nx, it); f != nil {
				s.drop[i] = true
				s.subst(map[*Term]*Term{lv: f})
				nx = s.nexts()
				changed = true
			}
		}
	}
	// the domain
	c := l.cond
	neg := false
	for c != nil && c.Op == "not" {
		c, neg = c.Args[0], !neg
	}
	if c != nil {
		bt, bf := u.Assume(s.body, c, true), u.Assume(s.body, c, false)
		if neg {
			bt, bf = bf, bt
		}
		if bf.Op == "exit" && strings.HasPrefix(bf.Aux, l.tok+":") {
			if r := s.resumeOf(bf); r.head {
				s.dom = s.domain(c, neg, it)
				if s.dom != nil {
					s.headExit = r
					s.body = bt
				}
			}
		} else if bt.Op == "exit" && strings.HasPrefix(bt.Aux, l.tok+":") {
			if r := s.resumeOf(bt); r.head {
				s.dom = s.domain(c, !neg, it)
				if s.dom != nil {
					s.headExit = r
					s.body = bf
				}
			}
		}
	}
	if s.dom == nil {
		s.dom = u.raw("forever", "")
		return s.residual()
	}
	// value of inductions after the loop
	if s.dom.Op == "upto" {
		for i := 0; i < n; i++ {
			if s.drop[i] && s.done[i] == nil {
				if t := s.sub[l.lv(i)]; t != nil {
					s.done[i] = u.Subst(t, map[*Term]*Term{it: s.dom.Args[0]})
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if s.drop[i] && s.done[i] == nil {
			s.done[i] = nil
		}
	}
	s.firstFlags(it)
	s.accumulators(it)
	if !s.hasExits() && !s.hasEffects() {
		s.folds(it)
		return s.after()
	}
	return s.residual()
}

// ofIteration finds the function of the iteration number that a carried value
// is.
func (s *loopSum) ofIteration(i int, nx []*Term, it *Term) *Term {
	u := s.x.U
	if len(nx) == 0 {
		return nil
	}
	t := nx[0].Args[i+1]
	for _, n := range nx {
		if n.Args[i+1] != t {
			return nil
		}
	}
	if s.anyCarried(t, nil) || !u.Any(t, func(a *Term) bool { return a == it }) {
		return nil
	}
	f := u.Subst(t, map[*Term]*Term{it: u.Add(it, u.Num(-1))})
	if u.Subst(f, map[*Term]*Term{it: u.Num(0)}) != s.init[i] {
		return nil
	}
	return f
}

func (s *loopSum) resumeOf(t *Term) *resume {
	i, _ := strconv.Atoi(t.Aux[strings.IndexByte(t.Aux, ':')+1:])
	return s.l.exits[i]
}

// domain of a loop that goes on while c != neg.
func (s *loopSum) domain(c *Term, neg bool, it *Term) *Term {
	u, l := s.x.U, s.l
	if c.Op == "tok" && c.Aux == l.tok+".more" && l.iter != nil && !neg {
		if s.x.U.Any(l.iter, func(t *Term) bool { return t.Op == "tok" && strings.HasPrefix(t.Aux, l.tok+".") }) {
			return nil
		}
		if l.iter.Aux == "s" {
			return u.raw("strrange", "", l.iter.Args[0])
		}
		return u.raw("maprange", "", l.iter.Args[0])
	}
	inv := func(t *Term) bool {
		return !u.Any(t, func(y *Term) bool { return y.Op == "tok" && strings.HasPrefix(y.Aux, l.tok+".") })
	}
	// it < n
	if c.Op == "lt" && !neg && c.Args[0] == it && inv(c.Args[1]) {
		return u.raw("upto", "", c.Args[1])
	}
	// not (k-1 < it): it < k for a constant k
	if c.Op == "lt" && neg && c.Args[1] == it {
		if k, ok := c.Args[0].intVal(); ok {
			return u.raw("upto", "", u.Num(k+1))
		}
	}
	// not (n == it), counting up from 0 to a length
	if c.Op == "eq" && neg && (c.Args[0] == it && inv(c.Args[1]) && nonNeg(c.Args[1])) {
		return u.raw("upto", "", c.Args[1])
	}
	if c.Op == "eq" && neg && (c.Args[1] == it && inv(c.Args[0]) && nonNeg(c.Args[0])) {
		return u.raw("upto", "", c.Args[0])
	}
	return nil
}

// firstFlags replaces booleans and strings that only differ in the first
// iteration by tests of the iteration number.
func (s *loopSum) firstFlags(it *Term) {
	u, l := s.x.U, s.l
	if s.dom.Op != "upto" {
		return
	}
	for i := range s.init {
		if s.drop[i] {
			continue
		}
		lv := l.lv(i)
		nx := s.nexts()
		var k *Term
		ok := len(nx) > 0
		for _, t := range nx {
			if !t.Args[i+1].isConst() || k != nil && k != t.Args[i+1] {
				ok = false
				break
			}
			k = t.Args[i+1]
		}
		if !ok || !s.init[i].isConst() {
			continue
		}
		// lv is init in iteration 0 and k later
		first := u.Eq(it, u.Num(0))
		a := u.Subst(s.body, map[*Term]*Term{lv: s.init[i]})
		b := u.Subst(s.body, map[*Term]*Term{lv: k})
		s.body = u.Ite(first, a, b)
		s.drop[i] = true
		s.done[i] = nil
		n := s.dom.Args[0]
		if v, ok := n.intVal(); ok {
			if v > 0 {
				s.done[i] = k
			} else {
				s.done[i] = s.init[i]
			}
		} else {
			s.done[i] = u.raw("firstorlater", "", n, s.init[i], k)
		}
	}
}

// accumulators extracts lists and strings that grow by one piece per iteration.
func (s *loopSum) accumulators(it *Term) {
	u, l := s.x.U, s.l
	if s.hasEffects() {
		return
	}
	// with other ways out of the loop the closed form holds if the loop is left
	// at its head
	exits := s.hasExits()
	// maps the next leaves of the body; others are not reached then
	leaves := func(f func(*Term) *Term) *Term {
		return u.mapLeaves(s.body, func(t *Term) *Term {
			if !s.isNext(t) {
				return u.raw("bot", "")
			}
			return f(t)
		})
	}
	for changed := true; changed; {
		changed = false
		for i := range s.init {
			if s.drop[i] || s.closed[i] {
				continue
			}
			lv := l.lv(i)
			kind := ""
			ok := true
			prefix := false
			s.elementwise(i, it)
			s.ownKeys(i)
			var check func(t *Term)
			check = func(t *Term) {
				v := t.Args[i+1]
				if v == lv {
					return
				}
				switch {
				case v.Op == "lcat" && v.Args[0] == lv && (kind == "" || kind == "l"):
					kind = "l"
					if s.anyCarried(u.raw("list", "", v.Args[1:]...), nil) {
						ok = false
					}
				case v.Op == "cat" && v.Args[0] == lv && (kind == "" || kind == "s"):
					kind = "s"
					if s.anyCarried(u.raw("list", "", v.Args[1:]...), nil) {
						ok = false
					}
				case v.Op == "setidx" && v.Args[0] == lv && (kind == "" || kind == "x"):
					kind = "x"
					if s.anyCarried(v.Args[1], nil) || s.anyCarried(v.Args[2], nil) {
						ok = false
					}
				case v.Op == "mapset" && v.Args[0] == lv && (kind == "" || kind == "m"):
					kind = "m"
					if s.anyCarried(v.Args[1], nil) || s.anyCarried(v.Args[2], nil) {
						ok = false
					}
				default:
					ok = false
				}
			}
			for _, t := range s.nexts() {
				check(t)
			}
			// no decision may depend on carried values
			dep := false
			var deps []*Term
			for _, a := range regionAtoms(s.body) {
				if s.anyCarried(a, nil) {
					dep = true
					deps = append(deps, a)
				}
			}
			_ = prefix
			if dep && (ok && kind == "s" || s.init[i].Op == "str") && !exits {
				// s != "" ? sep : nothing
				if r := s.emptyTest(i, deps); r != nil {
					s.done[i] = r
					s.drop[i] = true
					changed = true
					continue
				}
			}
			if !ok || dep || kind == "" || exits && kind != "l" && kind != "s" && kind != "x" {
				continue
			}
			switch kind {
			case "l":
				b := leaves(func(t *Term) *Term {
					v := t.Args[i+1]
					if v == lv {
						return u.raw("list", "")
					}
					return u.LCat(v.Args[1:]...)
				})
				s.done[i] = u.LCat(s.x.content(s.st, s.init[i]), u.Mk("lmap", l.tok, s.dom, b))
			case "s":
				b := leaves(func(t *Term) *Term {
					v := t.Args[i+1]
					if v == lv {
						return u.Str("")
					}
					return u.Cat(v.Args[1:]...)
				})
				s.done[i] = u.Cat(s.init[i], s.smapJoin(it, b))
			case "x":
				r := s.indexed(i, it)
				if r == nil {
					continue
				}
				s.done[i] = r
			case "m":
				b := leaves(func(t *Term) *Term {
					v := t.Args[i+1]
					if v == lv {
						return u.raw("skip", "")
					}
					return u.raw("pair", "", v.Args[1], v.Args[2])
				})
				s.done[i] = u.Mk("mmap", l.tok, s.dom, b, s.init[i])
			}
			if exits {
				s.closed[i] = true
				continue
			}
			s.drop[i] = true
			changed = true
		}
	}
}

// smapJoin recognises the pattern that puts a separator before all but the
// first element.
func (s *loopSum) smapJoin(it, b *Term) *Term {
	u, l := s.x.U, s.l
	first := u.Eq(it, u.Num(0))
	if b.Op == "ite" && u.Any(b, func(t *Term) bool { return t == first }) {
		a0 := u.Assume(b, first, true)
		a1 := u.Assume(b, first, false)
		// a1 == sep + a0 at every leaf
		sep := ""
		ok := true
		var rec func(x, y *Term)
		rec = func(x, y *Term) {
			if x.Op == "ite" && y.Op == "ite" && x.Args[0] == y.Args[0] {
				rec(x.Args[1], y.Args[1])
				rec(x.Args[2], y.Args[2])
				return
			}
			if y.Op != "cat" || y.Args[0].Op != "str" {
				ok = false
				return
			}
			var sp string
			if x.Op == "cat" && x.Args[0].Op == "str" || x.Op == "str" {
				head := x
				if x.Op == "cat" {
					head = x.Args[0]
				}
				if !strings.HasSuffix(y.Args[0].Aux, head.Aux) {
					ok = false
					return
				}
				sp = strings.TrimSuffix(y.Args[0].Aux, head.Aux)
			} else {
				sp = y.Args[0].Aux
			}
			if u.Cat(u.Str(sp), x) != y {
				ok = false
				return
			}
			if sep != "" && sep != sp {
				ok = false
			}
			sep = sp
		}
		rec0 := func() {
			// a0 may have lost it-dependent parts: substitute it=0 in a1 instead
			rec(u.mapLeaves(a1, func(t *Term) *Term {
				if t.Op == "cat" && t.Args[0].Op == "str" {
					return t
				}
				return t
			}), a1)
		}
		_ = rec0
		rec(a0, a1)
		if !ok {
			// the branches differ because it is 0 in the first one
			sep, ok = "", true
			g := u.mapLeaves(a1, func(t *Term) *Term { return t })
			eachLeaf(g, func(t *Term) {
				if t.Op != "cat" || t.Args[0].Op != "str" {
					ok = false
				}
			})
			if ok {
				z := u.Subst(a1, map[*Term]*Term{it: u.Num(0)})
				sep, ok = commonSep(u, a0, z)
				if ok {
					a0 = u.mapLeaves(a1, func(t *Term) *Term { return stripPrefix(u, t, sep) })
				}
			}
		}
		if ok && sep != "" {
			lst := u.Mk("lmap", l.tok, s.dom, u.mapLeaves(a0, func(t *Term) *Term { return u.raw("list", "", t) }))
			return u.Join(lst, u.Str(sep))
		}
	}
	if s.dom.Op == "upto" {
		// every piece but the last one is followed by a separator
		last := u.Eq(s.dom.Args[0], u.Add(it, u.Num(1)))
		if b.Op == "ite" && u.Any(b, func(t *Term) bool { return t == last }) {
			al, an := u.Assume(b, last, true), u.Assume(b, last, false)
			if al.Op != "ite" && an.Op != "ite" {
				e1, t1 := splitTail(u, al)
				e2, t2 := splitTail(u, an)
				if e1 == e2 && t2 != "" {
					lst := u.Mk("lmap", l.tok, s.dom, u.raw("list", "", e1))
					j := u.Join(lst, u.Str(t2))
					if t1 == "" {
						return j
					}
					return u.Ite(u.Eq(s.dom.Args[0], u.Num(0)), u.Str(""), u.Cat(j, u.Str(t1)))
				}
			}
		}
	}
	return u.Mk("smap", l.tok, s.dom, b)
}

// splitTail splits constant text off the end.
func splitTail(u *U, t *Term) (*Term, string) {
	if t.Op == "cat" && t.Args[len(t.Args)-1].Op == "str" {
		return u.Cat(t.Args[:len(t.Args)-1]...), t.Args[len(t.Args)-1].Aux
	}
	return t, ""
}

func stripPrefix(u *U, t *Term, sep string) *Term {
	if t.Op == "cat" && t.Args[0].Op == "str" && strings.HasPrefix(t.Args[0].Aux, sep) {
		return u.Cat(append([]*Term{u.Str(strings.TrimPrefix(t.Args[0].Aux, sep))}, t.Args[1:]...)...)
	}
	return t
}

func commonSep(u *U, a, b *Term) (string, bool) {
	if a.Op == "ite" && b.Op == "ite" && a.Args[0] == b.Args[0] {
		s1, ok1 := commonSep(u, a.Args[1], b.Args[1])
		s2, ok2 := commonSep(u, a.Args[2], b.Args[2])
		return s1, ok1 && ok2 && s1 == s2
	}
	if b.Op != "cat" || b.Args[0].Op != "str" {
		return "", false
	}
	for i := len(b.Args[0].Aux); i > 0; i-- {
		p := b.Args[0].Aux[:i]
		if u.Cat(u.Str(p), a) == b {
			return p, true
		}
	}
	return "", false
}

// emptyTest recognises `if s != "" { s += sep }; s += x` with x never empty;
// decided as a join only when every piece starts or ends with constant text.
func (s *loopSum) emptyTest(i int, deps []*Term) *Term {
	u, l := s.x.U, s.l
	lv := l.lv(i)
	empty := u.Eq(lv, u.Str(""))
	for _, d := range deps {
		if d != empty {
			return nil
		}
	}
	if s.init[i].Op != "str" || s.init[i].Aux != "" {
		return nil
	}
	a0 := u.Assume(s.body, empty, true)
	a1 := u.Assume(s.body, empty, false)
	pick := func(t *Term) *Term {
		return u.mapLeaves(t, func(t *Term) *Term {
			v := t.Args[i+1]
			if v == lv {
				return u.Str("")
			}
			if v.Op == "cat" && v.Args[0] == lv {
				return u.Cat(v.Args[1:]...)
			}
			return v
		})
	}
	p0, p1 := pick(a0), pick(a1)
	if s.anyCarried(u.raw("list", "", p0, p1), nil) {
		return nil
	}
	sep, ok := commonSep(u, p0, p1)
	if !ok || sep == "" {
		return nil
	}
	lst := u.Mk("lmap", l.tok, s.dom, u.mapLeaves(p0, func(t *Term) *Term { return u.raw("list", "", t) }))
	return u.Join(lst, u.Str(sep))
}

// indexed recognises filling a list by position.
// elementwise uses that an element of a slice that is changed element by element
// has its initial value when its turn comes.
func (s *loopSum) elementwise(i int, it *Term) {
	u, lv := s.x.U, s.l.lv(i)
	any := false
	for _, t := range s.nexts() {
		v := t.Args[i+1]
		if v == lv {
			continue
		}
		if v.Op != "setidx" || v.Args[0] != lv || v.Args[1] != it {
			return
		}
		any = true
	}
	if any && s.dom.Op == "upto" {
		s.subst(map[*Term]*Term{u.raw("index", "", lv, it): u.Index(s.init[i], it), u.Len(lv, "l"): u.Len(s.init[i], "l")})
	}
}

// ownKeys uses that a loop over a map meets every key once: what it sets for
// its keys is not seen by later iterations.
func (s *loopSum) ownKeys(i int) {
	u, lv := s.x.U, s.l.lv(i)
	if s.dom.Op != "maprange" {
		return
	}
	key := u.raw("tok", s.l.tok+".key")
	any := false
	for _, t := range s.nexts() {
		v := t.Args[i+1]
		if v == lv {
			continue
		}
		if v.Op != "mapset" || v.Args[0] != lv || v.Args[1] != key {
			return
		}
		any = true
	}
	if !any {
		return
	}
	m := map[*Term]*Term{u.raw("haskey", "", lv, key): u.HasKey(s.init[i], key)}
	Walk(s.body, func(t *Term) bool {
		if t.Op == "lookup" && t.Args[0] == lv && t.Args[1] == key {
			m[t] = u.Lookup(s.init[i], key, t.Aux)
		}
		return true
	})
	s.subst(m)
}

func (s *loopSum) indexed(i int, it *Term) *Term {
	u, l := s.x.U, s.l
	lv := l.lv(i)
	if s.dom.Op != "upto" || u.Len(s.init[i], "l") != s.dom.Args[0] {
		return nil
	}
	ok := true
	var zero *Term
	if s.init[i].Op == "mklist" {
		zero = s.init[i].Args[1]
	}
	b := u.mapLeaves(s.body, func(t *Term) *Term {
		if !s.isNext(t) {
			return u.raw("bot", "")
		}
		v := t.Args[i+1]
		if v == lv {
			if zero == nil {
				return u.raw("list", "", u.Index(s.init[i], it))
			}
			return u.raw("list", "", zero)
		}
		if v.Args[1] != it {
			ok = false
			return t
		}
		return u.raw("list", "", v.Args[2])
	})
	if !ok {
		return nil
	}
	return u.Mk("lmap", l.tok, s.dom, b)
}

// folds closes the remaining carried values of a pure loop.
func (s *loopSum) folds(it *Term) {
	u, l := s.x.U, s.l
	var rest []int
	for i := range s.init {
		if !s.drop[i] {
			rest = append(rest, i)
		}
	}
	s.flags(rest)
	rest = rest[:0]
	for i := range s.init {
		if !s.drop[i] {
			rest = append(rest, i)
		}
	}
	for s.sepPair(rest) {
		rest = rest[:0]
		for i := range s.init {
			if !s.drop[i] {
				rest = append(rest, i)
			}
		}
	}
	rest = s.matches(rest)
	if len(rest) == 2 && (s.smallestOf(rest[0], rest[1]) || s.smallestOf(rest[1], rest[0])) {
		return
	}
	if len(rest) == 0 {
		return
	}
	// order the values by their first use in the body
	rest = s.order(rest)
	m := map[*Term]*Term{}
	for j, i := range rest {
		m[l.lv(i)] = u.raw("tok", l.tok+".c"+strconv.Itoa(j))
	}
	b := u.mapLeaves(s.body, func(t *Term) *Term {
		a := []*Term{t.Args[0]}
		for _, i := range rest {
			a = append(a, t.Args[i+1])
		}
		return u.raw("next", "", a...)
	})
	b = u.Subst(b, m)
	inits := []*Term{}
	for _, i := range rest {
		inits = append(inits, s.init[i])
	}
	for j, i := range rest {
		s.done[i] = u.Mk("fold", l.tok+":"+strconv.Itoa(j), append([]*Term{s.dom, b}, inits...)...)
		s.drop[i] = true
	}
}

// matches finds values that are replaced in some iterations by what does not
// depend on earlier ones: the last replacement remains.
func (s *loopSum) matches(rest []int) []int {
	u, l := s.x.U, s.l
	var left []int
	for _, i := range rest {
		lv := l.lv(i)
		ok, kept := true, false
		body := u.mapLeaves(s.body, func(t *Term) *Term {
			if !s.isNext(t) || t.Args[i+1].Op != "ite" {
				return t
			}
			return u.mapLeaves(t.Args[i+1], func(v *Term) *Term {
				a := append([]*Term(nil), t.Args...)
				a[i+1] = v
				return u.raw("next", "", a...)
			})
		})
		eachLeaf(body, func(t *Term) {
			if !s.isNext(t) {
				ok = false
				return
			}
			if v := t.Args[i+1]; v == lv {
				kept = true
			} else if s.anyCarried(v, nil) {
				ok = false
			}
		})
		var when, last *Term
		if ok && kept && s.dom.Op != "forever" && !lv.isBool {
			when = u.mapLeaves(body, func(t *Term) *Term { return u.Bool(t.Args[i+1] != lv) })
			c0 := u.raw("tok", l.tok+".c0")
			last = u.mapLeaves(body, func(t *Term) *Term {
				v := t.Args[i+1]
				if v == lv {
					v = c0
				}
				return u.raw("next", "", t.Args[0], v)
			})
			ok = !s.anyCarried(when, nil) && !u.Any(last, func(t *Term) bool {
				return t.Op == "tok" && t != c0 && (strings.HasPrefix(t.Aux, l.tok+".lv") || strings.HasPrefix(t.Aux, l.tok+".c"))
			})
		} else {
			ok = false
		}
		if !ok {
			left = append(left, i)
			continue
		}
		// the same in all iterations
		var same *Term
		eachLeaf(last, func(t *Term) {
			v := t.Args[1]
			if v.Op == "tok" && v.Aux == l.tok+".c0" {
				return
			}
			if same == nil {
				same = v
			} else if same != v {
				same = u.raw("none", "")
			}
		})
		if same == nil || same.Op == "none" || u.Any(same, func(t *Term) bool { return t.Op == "tok" && strings.HasPrefix(t.Aux, l.tok+".") }) {
			same = u.Mk("fold", l.tok+":0", s.dom, last, u.raw("none", ""))
		}
		s.done[i] = u.Ite(u.Mk("exists", l.tok, s.dom, when), same, s.init[i])
		s.drop[i] = true
	}
	return left
}

// smallestOf finds the search for the smallest of the selected strings of a map, where a
// flag tells whether there is one.
func (s *loopSum) smallestOf(f, c int) bool {
	u, l := s.x.U, s.l
	flag, cur := l.lv(f), l.lv(c)
	if s.dom.Op != "maprange" || s.init[f].Op != "false" {
		return false
	}
	var elem *Term
	ok := true
	eachLeaf(s.body, func(t *Term) {
		if !s.isNext(t) {
			ok = false
		} else if v := t.Args[c+1]; v != cur {
			ok = ok && (elem == nil || elem == v)
			elem = v
		}
	})
	if !ok || elem == nil || s.anyCarried(elem, nil) {
		return false
	}
	first, some := u.Assume(s.body, flag, false), u.Assume(s.body, flag, true)
	less := u.Lt(elem, cur)
	better, worse := u.Assume(some, less, true), u.Assume(some, less, false)
	taken := func(t *Term) *Term {
		return u.mapLeaves(t, func(t *Term) *Term { return u.Bool(t.Args[c+1] == elem) })
	}
	sel := taken(first)
	if taken(worse).Op != "false" || taken(better) != sel || s.anyCarried(sel, nil) {
		return false
	}
	eachLeaf(first, func(t *Term) {
		v := t.Args[f+1]
		if took := t.Args[c+1] == elem; took && v.Op != "true" || !took && v != flag && v.Op != "false" {
			ok = false
		}
	})
	eachLeaf(some, func(t *Term) {
		if v := t.Args[f+1]; v != flag && v.Op != "true" {
			ok = false
		}
	})
	if !ok {
		return false
	}
	list := u.Mk("lmap", l.tok, s.dom, u.mapLeaves(first, func(t *Term) *Term {
		if t.Args[c+1] == elem {
			return u.raw("list", "", elem)
		}
		return u.raw("nil", "")
	}))
	s.done[f] = u.Mk("exists", l.tok, s.dom, sel)
	s.done[c] = u.Ite(s.done[f], u.Index(u.Sorted(list), u.Num(0)), s.init[c])
	s.drop[f], s.drop[c] = true, true
	return true
}

// flags finds values that change once to a constant.
func (s *loopSum) flags(rest []int) {
	u, l := s.x.U, s.l
	if s.dom.Op != "upto" && s.dom.Op != "maprange" {
		return
	}
	for _, i := range rest {
		lv := l.lv(i)
		var k *Term
		ok := true
		for _, t := range s.nexts() {
			if v := t.Args[i+1]; v != lv && v != s.init[i] {
				if !v.isConst() || k != nil && v != k {
					ok = false
					break
				}
				k = v
			}
		}
		if !ok || k == nil || !s.init[i].isConst() {
			continue
		}
		before := u.Subst(s.body, map[*Term]*Term{lv: s.init[i]})
		after := u.Subst(s.body, map[*Term]*Term{lv: k})
		others := func(t *Term) *Term {
			return u.mapLeaves(t, func(n *Term) *Term {
				a := append([]*Term(nil), n.Args...)
				a[i+1] = k
				return u.raw("next", "", a...)
			})
		}
		if others(before) != after || others(after) != after {
			continue
		}
		c := u.mapLeaves(before, func(n *Term) *Term { return u.Bool(n.Args[i+1] == k) })
		if s.anyCarried(c, nil) {
			continue
		}
		s.body = u.mapLeaves(before, func(n *Term) *Term {
			a := append([]*Term(nil), n.Args...)
			a[i+1] = lv
			return u.raw("next", "", a...)
		})
		s.drop[i] = true
		s.done[i] = u.Ite(u.Mk("exists", l.tok, s.dom, c), k, s.init[i])
		if k.Op == "true" && s.init[i].Op == "false" {
			s.done[i] = u.Mk("exists", l.tok, s.dom, c)
		}
	}
}

func (s *loopSum) order(rest []int) []int {
	pos := map[int]int{}
	n := 0
	Walk(s.body, func(t *Term) bool {
		if t.Op == "tok" {
			for _, i := range rest {
				if t.Aux == s.l.tok+".lv"+strconv.Itoa(i) {
					if _, ok := pos[i]; !ok {
						pos[i] = n
						n++
					}
				}
			}
		}
		return true
	})
	r := append([]int(nil), rest...)
	sort.SliceStable(r, func(a, b int) bool {
		pa, oka := pos[r[a]]
		pb, okb := pos[r[b]]
		if oka != okb {
			return oka
		}
		if s.init[r[a]] != s.init[r[b]] {
			return s.init[r[a]].String() < s.init[r[b]].String()
		}
		return pa < pb
	})
	return r
}

// sepPair recognises a string with a separator variable.
func (s *loopSum) sepPair(rest []int) bool {
	u, l := s.x.U, s.l
	for _, i := range rest {
		for _, j := range rest {
			if i == j {
				continue
			}
			// j is the separator: constant in every next; i = i + lv_j + X
			sv, lv := l.lv(j), l.lv(i)
			var k *Term
			ok := true
			// the elements that one iteration adds
			piece := func(t *Term) (sep, elems *Term) {
				v, n := t.Args[i+1], t.Args[j+1]
				switch {
				case v == lv && n == sv:
					return nil, u.raw("list", "")
				case v.Op == "cat" && len(v.Args) >= 3 && v.Args[0] == lv && v.Args[1] == sv:
					return n, u.raw("list", "", u.Cat(v.Args[2:]...))
				case v.Op == "cat" && len(v.Args) == 2 && v.Args[0] == lv && v.Args[1].Op == "sepjoin" && v.Args[1].Args[0] == sv &&
					n == u.SepTail(sv, v.Args[1].Args[1], v.Args[1].Args[2]):
					return v.Args[1].Args[1], v.Args[1].Args[2]
				}
				return nil, nil
			}
			for _, t := range s.nexts() {
				sep, elems := piece(t)
				if elems == nil || sep != nil && (k != nil && k != sep || s.anyCarried(sep, nil)) || s.anyCarried(elems, nil) {
					ok = false
					break
				}
				if sep != nil {
					k = sep
				}
			}
			for _, a := range regionAtoms(s.body) {
				if s.anyCarried(a, nil) {
					ok = false
				}
			}
			if !ok || k == nil {
				continue
			}
			lst := u.Mk("lmap", l.tok, s.dom, u.mapLeaves(s.body, func(t *Term) *Term {
				_, elems := piece(t)
				return elems
			}))
			s.done[i] = u.Cat(s.init[i], u.SepJoin(s.init[j], k, lst))
			s.done[j] = u.SepTail(s.init[j], k, lst)
			s.drop[i], s.drop[j] = true, true
			return true
		}
	}
	return false
}

// after continues behind a pure loop.
func (s *loopSum) after() *Term {
	x, u, l := s.x, s.x.U, s.l
	m := map[*Term]*Term{}
	for i := range s.init {
		if s.done[i] == nil {
			// inductions over ranges of maps and strings
			if s.sub[l.lv(i)] == nil {
				fail("%s: value after a loop is not known", s.fr.fn)
			}
			m[l.lv(i)] = u.raw("count", "", s.dom, s.init[i])
			continue
		}
		m[l.lv(i)] = s.done[i]
	}
	if s.dom.Op == "upto" {
		m[u.raw("tok", l.tok+".it")] = s.dom.Args[0]
	}
	return x.resume(s, s.headExit, nil, m, true)
}

// resume continues behind a loop with the tokens replaced.
func (x *Exec) resume(s *loopSum, r *resume, leaf *Term, m map[*Term]*Term, end bool) *Term {
	u := x.U
	full := map[*Term]*Term{}
	for k, v := range s.sub {
		full[k] = v
	}
	for k, v := range m {
		full[k] = v
	}
	if leaf != nil {
		for i, k := range r.toks {
			if leaf.Args[i] != k {
				full[k] = leaf.Args[i]
			}
		}
	}
	// closure: the images may mention tokens
	for i := 0; i < 4; i++ {
		for k, v := range full {
			full[k] = u.Subst(v, m)
		}
	}
	fr, st := r.fr.clone(), r.st.clone()
	fr.memo = map[string]*Term{}
	for k, v := range fr.env {
		fr.env[k] = u.Subst(v, full)
	}
	nm := map[*Term]*Term{}
	for k, v := range st.mem {
		if i := s.l.own(k); i >= 0 && s.l.byValue[i] {
			if k2 := u.Subst(k, full); k2 != k {
				x.container[k2] = true
				k = k2
			}
		}
		nm[k] = u.Subst(v, full)
	}
	st.mem = nm
	n := len(fr.loops)
	for n > 0 && fr.loops[n-1] != s.l {
		n--
	}
	fr.loops = fr.loops[:n-1]
	// what follows happens at most once, however the loop is left
	st.iter = s.st.iter
	st.occ = map[*Term]int{}
	for k, v := range s.st.occ {
		st.occ[k] = v
	}
	switch r.kind {
	case "ret":
		res := make([]*Term, len(r.res))
		for i, t := range r.res {
			res[i] = u.Subst(t, full)
		}
		if k := len(fr.loops); k > 0 {
			return fr.loops[k-1].exitRet(fr, st, res)
		}
		return fr.k.ret(st, res)
	case "panic":
		return x.doPanic(fr, st, u.Subst(r.pan, full))
	}
	return x.block(fr, r.b, r.pred, st)
}

// residual keeps the loop as a node.
func (s *loopSum) residual() *Term {
	for i := range s.init {
		if s.closed[i] {
			s.drop[i] = true
		}
	}
	for {
		if t := s.tryResidual(); t != nil {
			return t
		}
	}
}

// dropDead marks carried values that only contribute to themselves.
func (s *loopSum) dropDead(rest []int, body, kEnd *Term) bool {
	l := s.l
	used := map[string]bool{}
	collect := func(t *Term, used map[string]bool) {
		Walk(t, func(t *Term) bool {
			if t.Op == "tok" {
				used[t.Aux] = true
			}
			return true
		})
	}
	collect(kEnd, used)
	contrib := make([]map[string]bool, len(rest))
	for j := range rest {
		contrib[j] = map[string]bool{}
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "ite" && !t.isBool:
			collect(t.Args[0], used)
			rec(t.Args[1])
			rec(t.Args[2])
		case t.Op == "eff":
			collect(t.Args[0], used)
			rec(t.Args[1])
		case t.Op == "loop":
			for i, a := range t.Args {
				if i == 1 || i == 2 {
					rec(a)
				} else {
					collect(a, used)
				}
			}
		case t.Op == "next" && s.isNext(t):
			collect(t.Args[0], used)
			for j := range rest {
				collect(t.Args[j+1], contrib[j])
			}
		default:
			collect(t, used)
		}
	}
	rec(body)
	live := make([]bool, len(rest))
	for changed := true; changed; {
		changed = false
		for j := range rest {
			n := strconv.Itoa(j)
			if !live[j] && (used[l.tok+".c"+n] || used[l.tok+".out"+n]) {
				live[j], changed = true, true
				for k := range contrib[j] {
					used[k] = true
				}
			}
		}
	}
	found := false
	for j, i := range rest {
		if !live[j] {
			s.dead[i], found = true, true
		}
	}
	return found
}

// onExit lets effects of the last round of a recursion that is seen as a loop be like
// effects behind the loop.
func (s *loopSum) onExit(body *Term) *Term {
	u := s.x.U
	it := u.raw("tok", s.l.tok+".it")
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !s.goesOn(t) {
			m := map[*Term]*Term{}
			Walk(t, func(d *Term) bool {
				if n := len(d.Args); d.Op == "do" && n > 0 && d.Args[n-1] == it {
					m[d] = u.raw("do", d.Aux, d.Args[:n-1]...)
				}
				return true
			})
			for i := 0; i < 4 && len(m) > 0; i++ {
				t2 := u.Subst(t, m)
				if t2 == t {
					break
				}
				t = t2
			}
			return t
		}
		switch {
		case t.Op == "ite" && !t.isBool:
			return u.Ite(t.Args[0], rec(t.Args[1]), rec(t.Args[2]))
		case t.Op == "eff":
			return u.Eff(t.Args[0], rec(t.Args[1]))
		}
		return t
	}
	return rec(body)
}

// goesOn reports whether another round may follow.
func (s *loopSum) goesOn(t *Term) bool {
	return s.x.U.Any(t, func(t *Term) bool { return t.Op == "next" && s.isNext(t) })
}

// tryResidual returns nil if a slot with a closed form has to be kept.
func (s *loopSum) tryResidual() *Term {
	x, u, l := s.x, s.x.U, s.l
	var rest []int
	for i := range s.init {
		if !s.drop[i] && !s.dead[i] {
			rest = append(rest, i)
		}
	}
	rest = s.order(rest)
	m := map[*Term]*Term{}
	for j, i := range rest {
		t := u.raw("tok", l.tok+".c"+strconv.Itoa(j))
		t.isBool = l.lv(i).isBool
		m[l.lv(i)] = t
	}
	body := u.Subst(s.body, m)
	// exits inside of the body
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.Op {
		case "next":
			if !s.isNext(t) {
				r = t
				break
			}
			a := []*Term{t.Args[0]}
			for _, i := range rest {
				a = append(a, t.Args[i+1])
			}
			r = u.raw("next", "", a...)
		case "exit":
			if strings.HasPrefix(t.Aux, l.tok+":") {
				r = x.resume(s, s.resumeOf(t), t, m, false)
			} else {
				r = t
			}
		case "ite":
			r = u.Ite(t.Args[0], rec(t.Args[1]), rec(t.Args[2]))
		case "eff":
			r = u.Eff(t.Args[0], rec(t.Args[1]))
		case "loop":
			r = t
			b, k := rec(t.Args[1]), rec(t.Args[2])
			if b != t.Args[1] || k != t.Args[2] {
				args := append([]*Term(nil), t.Args...)
				args[1], args[2] = b, k
				r = u.Mk("loop", t.Aux, args...)
			}
		default:
			r = t
		}
		memo[t] = r
		return r
	}
	body = rec(body)
	if l.nat.tail {
		body = s.onExit(body)
	}
	redo := false
	for i := range s.init {
		if s.closed[i] && s.drop[i] && u.Any(body, func(t *Term) bool { return t == l.lv(i) }) {
			s.drop[i], s.closed[i], s.done[i] = false, false, nil
			redo = true
		}
	}
	if redo {
		return nil
	}
	inits := []*Term{}
	for _, i := range rest {
		inits = append(inits, x.freeze(s.st, s.init[i]))
	}
	kEnd := u.raw("never", "")
	if s.headExit != nil {
		em := map[*Term]*Term{}
		for i := range s.init {
			if s.done[i] != nil {
				em[l.lv(i)] = s.done[i]
			}
		}
		for j, i := range rest {
			t := u.raw("tok", l.tok+".out"+strconv.Itoa(j))
			t.isBool = l.lv(i).isBool
			em[l.lv(i)] = t
		}
		for i := range s.init {
			if s.done[i] == nil && s.drop[i] {
				if s.sub[l.lv(i)] == nil {
					fail("%s: value after a loop is not known", s.fr.fn)
				}
				em[l.lv(i)] = u.raw("count", "", s.dom, s.init[i])
			}
		}
		if s.dom.Op == "upto" {
			em[u.raw("tok", l.tok+".it")] = s.dom.Args[0]
		}
		kEnd = x.resume(s, s.headExit, nil, em, true)
	}
	if s.dropDead(rest, body, kEnd) {
		return nil
	}
	// a loop without effects and results
	if len(rest) == 0 && s.headExit != nil && s.isNext(body) {
		return kEnd
	}
	return u.Mk("loop", l.tok, append([]*Term{s.dom, body, kEnd}, inits...)...)
}

var _ = fmt.Sprint
var _ types.Type
