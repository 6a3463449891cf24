package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif.local/tool/vg"
)

const (
	ruleOrder  = "the result of a loop over a map does not depend on the order of iteration"
	ruleSource = "nothing that differs from run to run is consulted"
	ruleSearch = "lists of declarations in no particular order are only searched by name"
)

// varying are sources of values that differ between runs on the same inputs.
func varying(o types.Object) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	p, n := o.Pkg().Path(), o.Name()
	switch p {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker":
			return true
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "github.com/google/uuid":
		return true
	case "os":
		switch n {
		case "Getpid", "Getppid", "Hostname", "TempDir", "MkdirTemp", "CreateTemp", "Getuid":
			return true
		}
	case "runtime":
		switch n {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "ReadMemStats", "NumCgoCall", "Stack":
			return true
		}
	case "reflect":
		switch n {
		case "MapKeys", "MapRange", "Pointer", "UnsafePointer":
			return true
		}
	}
	return false
}

func isMapSeq(f *ssa.Function) bool {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	switch o.RelString(nil) {
	case "maps.Keys", "maps.Values", "maps.All":
		return true
	}
	return false
}

func originName(cc *ssa.CallCommon) string {
	f := cc.StaticCallee()
	if f == nil {
		return ""
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.RelString(nil)
}

func isSort(name string) bool {
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Sorted", "slices.SortedFunc":
		return true
	}
	return false
}

func (c *Ctx) order() {
	m := c.Root()
	funcs := c.repoFuncs()
	lists := false
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := m.Prog.Fset.Position(in.Pos()).String()
				switch in := in.(type) {
				case *ssa.Go, *ssa.Select:
					c.Bad(ruleSource, f.RelString(nil), "%s: the result depends on scheduling", pos)
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						l := &mapLoop{c: c, f: f, rng: in}
						l.check()
						lists = lists || l.lists
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if g := cc.StaticCallee(); g != nil && isMapSeq(g) {
						v, _ := in.(*ssa.Call)
						ok := v != nil
						if ok {
							for _, r := range *v.Referrers() {
								if rc, isCall := r.(*ssa.Call); !isCall || !isSort(originName(&rc.Call)) && !strings.HasPrefix(originName(&rc.Call), "maps.") {
									if _, dbg := r.(*ssa.DebugRef); !dbg {
										ok = false
									}
								}
							}
						}
						c.Check(ok, ruleOrder, f.RelString(nil)+" "+g.Name(), "%s: keys or values of a map are used in the order of iteration", pos)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && varying(g.Object()) {
						c.Bad(ruleSource, f.RelString(nil)+" refers to "+g.RelString(nil), "%s: the result depends on %s", pos, g.RelString(nil))
					}
				}
			}
		}
	}
	c.Count("functions", len(funcs))
	c.Ok(ruleSource, fmt.Sprintf("%d functions", len(funcs)))
	if lists {
		c.searched(funcs)
	}
}

// mapLoop is a loop over a map.
type mapLoop struct {
	c        *Ctx
	f        *ssa.Function
	rng      *ssa.Range
	next     *ssa.Next
	key, val ssa.Value
	in       map[*ssa.BasicBlock]bool
	lists    bool // it makes a list of declarations
	early    bool // it may end before all elements were visited
	cells    map[*ssa.Alloc]bool
	hist     bool // what it does depends on earlier iterations
	why      string
}

func (l *mapLoop) bad(format string, a ...interface{}) {
	if l.why == "" {
		l.why = fmt.Sprintf(format, a...)
	}
}

func (l *mapLoop) check() {
	name := l.f.RelString(nil) + ": " + l.rng.X.Type().String()
	pos := l.c.Root().Prog.Fset.Position(l.rng.Pos()).String()
	l.c.Count("loops over maps", 1)
	l.analyse()
	l.c.Check(l.why == "", ruleOrder, name, "%s: %s", pos, l.why)
}

func (l *mapLoop) at(v ssa.Value) string {
	return l.c.Root().Prog.Fset.Position(v.Pos()).String()
}

func (l *mapLoop) analyse() {
	for _, r := range *l.rng.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			if l.next != nil {
				l.bad("the iterator is used in two places")
				return
			}
			l.next = n
		}
	}
	if l.next == nil {
		return
	}
	for _, r := range *l.next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				l.key = e
			case 2:
				l.val = e
			}
		}
	}
	h := l.next.Block()
	// the blocks of the loop
	l.in = map[*ssa.BasicBlock]bool{h: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if l.in[b] {
			return
		}
		l.in[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back(p)
		}
	}
	// exits
	for b := range l.in {
		if b == h {
			continue
		}
		for i, s := range b.Succs {
			if !l.in[s] && !l.uniqueEdge(b, i) {
				l.early = true
			}
		}
	}
	pure := map[*ssa.Function]bool{}
	l.history(h)
	for b := range l.in {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if l.inside(in.Map) {
					continue
				}
				if l.hist {
					l.bad("%s: whether something is stored in a map depends on earlier iterations", l.at(in.Map))
				}
				switch {
				case l.early:
					l.bad("a map is filled in a loop that may end early")
				case in.Key == l.key && l.key != nil && !l.carried(in.Value, nil):
				case !l.inside(in.Value):
				case l.uniqueAt(in.Block()):
				default:
					l.bad("%s: what is stored in a map depends on the order", l.at(in.Map))
				}
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok && !l.in[a.Block()] && l.cellList(a) {
					continue
				}
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && l.filled(ia, in) {
					continue
				}
				if !localAddr(in.Addr, l) {
					if l.inside(in.Val) || l.early {
						if !l.uniqueAt(in.Block()) {
							l.bad("%s: a variable is assigned in the order of iteration", l.c.Root().Prog.Fset.Position(in.Pos()))
						}
					}
				}
			case *ssa.Send, *ssa.Defer, *ssa.Panic:
				l.bad("%s: it has effects in the order of iteration", l.c.Root().Prog.Fset.Position(in.Pos()))
			case ssa.CallInstruction:
				if !l.callOK(in.Common(), pure) {
					l.bad("%s: the call has effects in the order of iteration", l.c.Root().Prog.Fset.Position(in.Pos()))
				}
			}
		}
	}
	if l.why != "" {
		return
	}
	// what leaves the loop
	for b := range l.in {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, ok := v.(*ssa.Range); ok {
				continue
			}
			var outside []ssa.Instruction
			for _, r := range *v.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if p, ok := r.(*ssa.Phi); ok {
					for i, e := range p.Edges {
						if e == v && !l.in[p.Block()] {
							pred := p.Block().Preds[i]
							if b == h && v.Parent() != nil && l.in[pred] {
								outside = append(outside, r)
							} else if !l.uniqueEnd(pred, p.Block()) {
								outside = append(outside, r)
							}
						}
					}
					continue
				}
				if !l.in[r.Block()] && !l.uniqueAt(r.Block()) {
					outside = append(outside, r)
				}
			}
			if len(outside) == 0 {
				continue
			}
			p, ok := v.(*ssa.Phi)
			if !ok || p.Block() != h {
				if len(l.elements(v, nil)) == 0 {
					// a value that is the same in every iteration
					continue
				}
				l.bad("%s: a value of the iteration that ends the loop is used", l.at(v))
				continue
			}
			l.phi(p, outside)
		}
	}
}

// history finds decisions that depend on what earlier iterations did.
func (l *mapLoop) history(h *ssa.BasicBlock) {
	updated := map[ssa.Value]bool{}
	for b := range l.in {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				updated[mu.Map] = true
			}
		}
	}
	for b := range l.in {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == h {
			continue
		}
		if l.carried(i.Cond, nil) {
			l.hist = true
		}
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			in, ok := v.(ssa.Instruction)
			if !ok || seen[v] || !l.in[in.Block()] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Lookup:
				if updated[x.X] && x.Index != l.key {
					l.hist = true
				}
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if updated[a] {
						l.hist = true
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
		}
		walk(i.Cond)
	}
}

// inside reports whether a value is computed in the loop.
func (l *mapLoop) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.in[in.Block()] {
		return false
	}
	return len(l.elements(v, nil)) > 0
}

// elements are the keys, elements and carried values a value is computed from.
func (l *mapLoop) elements(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return nil
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !l.in[in.Block()] {
		return nil
	}
	if v == l.key || v == l.val {
		return []ssa.Value{v}
	}
	if v == ssa.Value(l.next) {
		return []ssa.Value{v}
	}
	if p, ok := v.(*ssa.Phi); ok {
		if p.Block() == l.next.Block() {
			return []ssa.Value{v}
		}
		if len(p.Edges) > 1 {
			// which of its values it has depends on conditions
			var r []ssa.Value
			for _, e := range p.Edges {
				r = append(r, l.elements(e, seen)...)
			}
			return append(r, v)
		}
	}
	var r []ssa.Value
	for _, op := range in.Operands(nil) {
		if *op != nil {
			r = append(r, l.elements(*op, seen)...)
		}
	}
	if _, ok := v.(*ssa.Alloc); ok && len(r) == 0 {
		return []ssa.Value{v}
	}
	return r
}

// carried reports whether a value depends on earlier iterations.
func (l *mapLoop) carried(v ssa.Value, seen map[ssa.Value]bool) bool {
	for _, e := range l.elements(v, nil) {
		if p, ok := e.(*ssa.Phi); ok && p.Block() == l.next.Block() {
			return true
		}
	}
	return false
}

func localAddr(v ssa.Value, l *mapLoop) bool {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
			continue
		case *ssa.IndexAddr:
			v = a.X
			continue
		case *ssa.Slice:
			v = a.X
			continue
		case *ssa.Alloc:
			return l == nil || l.in[a.Block()]
		case *ssa.MakeSlice:
			return l == nil || l.in[a.Block()]
		}
		return false
	}
}

func (l *mapLoop) callOK(cc *ssa.CallCommon, pure map[*ssa.Function]bool) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "append", "min", "max", "real", "imag", "complex", "ssa:wrapnilchk":
			return true
		case "copy":
			return localAddr(cc.Args[0], l)
		}
		return false
	}
	return pureCall(cc, pure)
}

// pureCall reports whether a call has no effects other than on what it makes.
func pureCall(cc *ssa.CallCommon, pure map[*ssa.Function]bool) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "close", "clear", "print", "println", "panic":
			return false
		}
		return true
	}
	g := cc.StaticCallee()
	if g == nil {
		if cc.IsInvoke() {
			return vg.IsPure("(" + cc.Value.Type().String() + ")." + cc.Method.Name())
		}
		return false
	}
	if g.Blocks == nil || g.Pkg == nil && g.Parent() == nil || g.Pkg != nil && !inRepo(g.Pkg.Pkg.Path()) {
		return vg.IsPure(vg.FuncName(g))
	}
	if r, ok := pure[g]; ok {
		return r
	}
	pure[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ok := true
			switch in := in.(type) {
			case *ssa.Store:
				ok = localAddr(in.Addr, nil)
			case *ssa.MapUpdate:
				_, ok = in.Map.(*ssa.MakeMap)
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				ok = false
			case ssa.CallInstruction:
				ok = pureCall(in.Common(), pure)
			}
			if !ok {
				pure[g] = false
			}
		}
	}
	return pure[g]
}

// phi classifies a value carried from one iteration to the next.
func (l *mapLoop) phi(p *ssa.Phi, outside []ssa.Instruction) {
	type leaf struct {
		v    ssa.Value
		from *ssa.BasicBlock
		to   *ssa.BasicBlock
	}
	var leaves []leaf
	seen := map[*ssa.Phi]bool{}
	var walk func(q *ssa.Phi)
	walk = func(q *ssa.Phi) {
		if seen[q] {
			return
		}
		seen[q] = true
		for i, e := range q.Edges {
			pred := q.Block().Preds[i]
			if q == p && !l.in[pred] {
				continue
			}
			if eq, ok := e.(*ssa.Phi); ok && l.in[eq.Block()] {
				walk(eq)
				continue
			}
			leaves = append(leaves, leaf{e, pred, q.Block()})
		}
	}
	walk(p)
	isSelf := func(v ssa.Value) bool {
		q, ok := v.(*ssa.Phi)
		return ok && seen[q]
	}
	var same ssa.Value
	for _, lf := range leaves {
		v := lf.v
		// a constant or something computed before the loop
		if !l.inside(v) {
			if l.hist {
				l.bad("%s: the value of %s depends on the order", l.at(p), p.Comment)
				return
			}
			if same != nil && !equalConst(same, v) {
				if !l.uniqueEnd(lf.from, lf.to) {
					l.bad("%s: the last value that is assigned depends on the order", l.at(p))
				}
			}
			same = v
			continue
		}
		if l.uniqueEnd(lf.from, lf.to) {
			continue
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			t, ok := x.Type().Underlying().(*types.Basic)
			if ok && t.Info()&types.IsInteger != 0 && !l.early && !l.hist {
				switch x.Op {
				case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
					if isSelf(x.X) && !l.carried(x.Y, nil) || isSelf(x.Y) && !l.carried(x.X, nil) {
						continue
					}
				case token.SUB:
					if isSelf(x.X) && !l.carried(x.Y, nil) {
						continue
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					if !l.early && !l.hist && l.onlyAppends(x.Call.Args[0], seen) {
						l.unordered(p, outside)
						continue
					}
				case "min", "max":
					continue
				}
			}
		}
		if l.extremum(v, seen, lf.from, lf.to) {
			continue
		}
		l.bad("%s: the value of %s depends on the order", l.at(p), p.Comment)
		return
	}
}

// onlyAppends reports whether a list is the carried one with something appended.
func (l *mapLoop) onlyAppends(v ssa.Value, self map[*ssa.Phi]bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			return self[x]
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				v = x.Call.Args[0]
				continue
			}
		}
		return false
	}
}

func equalConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && x.String() == y.String()
}

// cellList reports whether a variable that functions refer to is a list that things are
// appended to in the loop and that is sorted before it is used.
func (l *mapLoop) cellList(a *ssa.Alloc) bool {
	if l.cells == nil {
		l.cells = map[*ssa.Alloc]bool{}
	}
	if r, ok := l.cells[a]; ok {
		return r
	}
	l.cells[a] = true
	l.cells[a] = l.appended(a)
	return l.cells[a]
}

func (l *mapLoop) appended(a *ssa.Alloc) bool {
	if l.early || l.hist {
		return false
	}
	var loads []ssa.Value
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if !l.in[r.Block()] {
				loads = append(loads, r)
				continue
			}
			for _, r2 := range *r.Referrers() {
				c, ok := r2.(*ssa.Call)
				if _, dbg := r2.(*ssa.DebugRef); dbg {
					continue
				}
				if !ok {
					return false
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || c.Call.Args[0] != ssa.Value(r) || len(c.Call.Args) > 1 && c.Call.Args[1] == ssa.Value(r) {
					return false
				}
			}
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return false
			}
			if !l.in[r.Block()] {
				// assigned before the loop
				if !r.Block().Dominates(l.next.Block()) {
					return false
				}
				continue
			}
			c, ok := r.Val.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return false
			}
			ld, ok := c.Call.Args[0].(*ssa.UnOp)
			if !ok || ld.X != ssa.Value(a) {
				return false
			}
		case *ssa.MakeClosure:
			// the order in which a list is sorted
			for _, r2 := range *r.Referrers() {
				if _, dbg := r2.(*ssa.DebugRef); dbg {
					continue
				}
				c, ok := r2.(*ssa.Call)
				if !ok || !isSort(originName(&c.Call)) {
					return false
				}
			}
		default:
			return false
		}
	}
	var vals []ssa.Value
	for _, ld := range loads {
		// those before the loop are of the list without the elements
		if ld.(ssa.Instruction).Block().Dominates(l.next.Block()) {
			continue
		}
		vals = append(vals, ld)
	}
	var uses []ssa.Instruction
	for _, v := range vals {
		uses = append(uses, *v.Referrers()...)
	}
	l.sortedFirst(a, vals, uses)
	return true
}

// filled handles a list whose elements are assigned one after the other.
func (l *mapLoop) filled(ia *ssa.IndexAddr, st *ssa.Store) bool {
	x, ok := ia.X.(ssa.Instruction)
	n, ok2 := ia.Index.(*ssa.Phi)
	if !ok || !ok2 || l.in[x.Block()] || n.Block() != l.next.Block() || l.early || l.hist || l.carried(st.Val, nil) {
		return false
	}
	var uses []ssa.Instruction
	for _, r := range *ia.X.Referrers() {
		if l.in[r.Block()] {
			if a, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *a.Referrers() {
					if s, ok := r2.(*ssa.Store); !ok || s.Addr != ssa.Value(a) {
						return false
					}
				}
				continue
			}
			return false
		}
		uses = append(uses, r)
	}
	l.sortedFirst(ia.X, []ssa.Value{ia.X}, uses)
	return true
}

// unordered checks the uses of a list whose elements come in no particular order.
func (l *mapLoop) unordered(p *ssa.Phi, outside []ssa.Instruction) {
	if p.Type().String() == "[]*go/ast.TypeSpec" {
		l.lists = true
		return
	}
	l.sortedFirst(p, []ssa.Value{p}, outside)
}

func (l *mapLoop) sortedFirst(p ssa.Value, list []ssa.Value, uses []ssa.Instruction) {
	// values that are the list
	vals := map[ssa.Value]bool{}
	for _, v := range list {
		vals[v] = true
	}
	var sorts []ssa.Instruction
	var rest []ssa.Instruction
	for len(uses) > 0 {
		u := uses[0]
		uses = uses[1:]
		switch u := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
			v := u.(ssa.Value)
			if !vals[v] {
				vals[v] = true
				for _, r := range *v.Referrers() {
					if _, ok := r.(*ssa.DebugRef); !ok {
						uses = append(uses, r)
					}
				}
			}
			continue
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if isSort(originName(&u.Call)) && total(&u.Call) {
				sorts = append(sorts, u)
				continue
			}
		case *ssa.BinOp:
			continue
		}
		rest = append(rest, u)
	}
	for _, r := range rest {
		ok := false
		for _, s := range sorts {
			if s.Block() == r.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == r {
						break
					}
				}
			} else if s.Block().Dominates(r.Block()) {
				ok = true
			}
		}
		if !ok {
			pos := l.c.Root().Prog.Fset.Position(r.Pos())
			if !pos.IsValid() {
				pos = l.c.Root().Prog.Fset.Position(p.Pos())
			}
			l.bad("%s: a list in the order of iteration is used without sorting it", pos)
			return
		}
	}
}

// total reports whether a list is sorted such that there is only one order: elements
// that compare equal are the same.
func total(cc *ssa.CallCommon) bool {
	switch originName(cc) {
	case "sort.Strings", "sort.Ints", "slices.Sort", "slices.Sorted":
		return true
	case "sort.Sort", "sort.Stable":
		mi, ok := cc.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		switch mi.X.Type().String() {
		case "sort.StringSlice", "sort.IntSlice":
			return true
		}
		return false
	}
	if len(cc.Args) < 2 {
		return false
	}
	var f *ssa.Function
	switch x := cc.Args[1].(type) {
	case *ssa.MakeClosure:
		f, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || len(f.Params) != 2 {
		return false
	}
	three := func(f *ssa.Function) bool {
		if f.Origin() != nil {
			f = f.Origin()
		}
		switch f.RelString(nil) {
		case "strings.Compare", "cmp.Compare", "bytes.Compare":
			return true
		}
		return false
	}
	if three(f) {
		return true
	}
	if len(f.Blocks) != 1 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	var x, y ssa.Value
	switch r := ret.Results[0].(type) {
	case *ssa.BinOp:
		if r.Op != token.LSS && r.Op != token.GTR {
			return false
		}
		x, y = r.X, r.Y
	case *ssa.Call:
		g := r.Call.StaticCallee()
		if g == nil || !three(g) {
			return false
		}
		x, y = r.Call.Args[0], r.Call.Args[1]
	default:
		return false
	}
	// the whole element, or its name
	var elem func(v ssa.Value) ssa.Value
	elem = func(v ssa.Value) ssa.Value {
		switch v := v.(type) {
		case *ssa.Parameter:
			return v
		case *ssa.Field:
			if v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name() == "Name" {
				return elem(v.X)
			}
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return nil
			}
			a := v.X
			if fa, ok := a.(*ssa.FieldAddr); ok {
				if fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name() != "Name" {
					return nil
				}
				a = fa.X
			}
			if ia, ok := a.(*ssa.IndexAddr); ok {
				if p, ok := ia.Index.(*ssa.Parameter); ok {
					return p
				}
			}
		}
		return nil
	}
	a, b := elem(x), elem(y)
	return a == ssa.Value(f.Params[0]) && b == ssa.Value(f.Params[1]) || a == ssa.Value(f.Params[1]) && b == ssa.Value(f.Params[0])
}

// conds are the conditions that hold at the end of an edge.
func (l *mapLoop) conds(from, to *ssa.BasicBlock) []cond {
	var r []cond
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && to != nil && from.Succs[0] != from.Succs[1] {
		r = append(r, cond{i.Cond, from.Succs[0] == to})
	}
	for b := from; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || !l.in[d] {
			break
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k := 0; k < 2; k++ {
			s := d.Succs[k]
			if s != d.Succs[1-k] && len(s.Preds) == 1 && s.Dominates(from) {
				r = append(r, cond{i.Cond, k == 0})
			}
		}
	}
	return r
}

type cond struct {
	v   ssa.Value
	val bool
}

// unique reports whether conditions select at most one element: its key, a
// declaration or the name of one equals something that is the same in every iteration.
func (l *mapLoop) unique(cs []cond) bool {
	return l.selects(cs, l.inside, func(v ssa.Value) bool { return !l.inside(v) }, 0)
}

func (l *mapLoop) selects(cs []cond, inner, outer func(v ssa.Value) bool, depth int) bool {
	for _, c := range cs {
		if call, ok := c.v.(*ssa.Call); ok && c.val && l.calledSelects(call, inner, outer, depth) {
			return true
		}
		b, ok := c.v.(*ssa.BinOp)
		if !ok || !(b.Op == token.EQL && c.val || b.Op == token.NEQ && !c.val) {
			continue
		}
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			decl := p[0].Type().String() == "*go/ast.TypeSpec"
			if (p[0] == l.key && l.key != nil || (decl || declName(p[0]) != nil) && inner(p[0])) && outer(p[1]) {
				return true
			}
		}
	}
	return false
}

// calledSelects reports whether a call is true for at most one element.
func (l *mapLoop) calledSelects(call *ssa.Call, inner, outer func(v ssa.Value) bool, depth int) bool {
	g := call.Call.StaticCallee()
	if g == nil || depth > 3 {
		return false
	}
	args := call.Call.Args
	if n := originName(&call.Call); n == "slices.Contains" || n == "golang.org/x/exp/slices.Contains" {
		return args[0].Type().String() == "[]*go/ast.TypeSpec" && inner(args[0]) && outer(args[1])
	}
	if len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
		return false
	}
	isOuter := map[ssa.Value]bool{}
	for i, p := range g.Params {
		if i < len(args) && outer(args[i]) {
			isOuter[p] = true
		}
	}
	out := func(v ssa.Value) bool { return isOuter[v] }
	in := func(v ssa.Value) bool {
		_, isConst := v.(*ssa.Const)
		return !isConst && !isOuter[v]
	}
	k := &mapLoop{in: map[*ssa.BasicBlock]bool{}}
	for _, b := range g.Blocks {
		k.in[b] = true
	}
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value, from, to *ssa.BasicBlock) bool
	only = func(v ssa.Value, from, to *ssa.BasicBlock) bool {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "false" || seen[v] {
			return true
		}
		if k.selects(append(k.conds(from, to), cond{v, true}), in, out, depth+1) {
			return true
		}
		p, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		seen[v] = true
		for i, e := range p.Edges {
			if !only(e, p.Block().Preds[i], p.Block()) {
				return false
			}
		}
		return true
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !only(r.Results[0], b, nil) {
			return false
		}
	}
	return true
}

func (l *mapLoop) uniqueAt(b *ssa.BasicBlock) bool { return l.unique(l.conds(b, nil)) }

func (l *mapLoop) uniqueEdge(b *ssa.BasicBlock, i int) bool {
	return l.unique(l.conds(b, b.Succs[i]))
}

func (l *mapLoop) uniqueEnd(from, to *ssa.BasicBlock) bool { return l.unique(l.conds(from, to)) }

// declName is the declaration whose name a value is, or nil.
func declName(v ssa.Value) ssa.Value {
	field := func(v ssa.Value, typ, name string) ssa.Value {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		a, ok := u.X.(*ssa.FieldAddr)
		if !ok || a.X.Type().String() != "*"+typ {
			return nil
		}
		if a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field).Name() != name {
			return nil
		}
		return a.X
	}
	if c, ok := v.(*ssa.Call); ok && originName(&c.Call) == "(*go/ast.Ident).String" {
		return field(c.Call.Args[0], "go/ast.TypeSpec", "Name")
	}
	id := field(v, "go/ast.Ident", "Name")
	if id == nil {
		return nil
	}
	return field(id, "go/ast.TypeSpec", "Name")
}

// extremum reports whether a value is selected because it is the smallest or greatest.
func (l *mapLoop) extremum(v ssa.Value, self map[*ssa.Phi]bool, from, to *ssa.BasicBlock) bool {
	if l.early {
		return false
	}
	isSelf := func(x ssa.Value) bool {
		p, ok := x.(*ssa.Phi)
		return ok && self[p]
	}
	cmp := func(x ssa.Value) token.Token {
		b, ok := x.(*ssa.BinOp)
		if !ok {
			return token.ILLEGAL
		}
		switch b.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if l.sameVal(b.X, v) && isSelf(b.Y) || l.sameVal(b.Y, v) && isSelf(b.X) {
				return b.Op
			}
		}
		return token.ILLEGAL
	}
	first := func(x ssa.Value) bool {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok {
			return false
		}
		if isSelf(b.X) {
			return true
		}
		// len(found) == 0
		c, ok := b.X.(*ssa.Call)
		if !ok || k.Value == nil {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && isSelf(c.Call.Args[0])
	}
	// every way to the assignment passes a comparison with the value so far or the test
	// that there is none
	end := from
	if len(to.Preds) == 1 {
		end = to
	}
	seen := map[*ssa.BasicBlock]bool{}
	cmps := 0
	var up func(b *ssa.BasicBlock) bool
	up = func(b *ssa.BasicBlock) bool {
		if b == l.next.Block() || !l.in[b] {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, p := range b.Preds {
			if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				if cmp(i.Cond) != token.ILLEGAL {
					cmps++
					continue
				}
				if first(i.Cond) {
					eq := i.Cond.(*ssa.BinOp).Op == token.EQL
					if (p.Succs[0] == b) == eq {
						continue
					}
				}
			}
			if !up(p) {
				return false
			}
		}
		return true
	}
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && cmp(i.Cond) != token.ILLEGAL && len(to.Preds) > 1 {
		return true
	}
	return up(end) && cmps > 0
}

// sameVal reports whether two values of an iteration are the same.
func (l *mapLoop) sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return l.sameAddr(x.X, y.X)
	}
	f, ok := a.(*ssa.Field)
	g, ok2 := b.(*ssa.Field)
	return ok && ok2 && f.Field == g.Field && l.sameVal(f.X, g.X)
}

// sameAddr reports whether two addresses are of the same part of a variable that is
// assigned once in an iteration.
func (l *mapLoop) sameAddr(a, b ssa.Value) bool {
	if x, ok := a.(*ssa.FieldAddr); ok {
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && l.sameAddr(x.X, y.X)
	}
	x, ok := a.(*ssa.Alloc)
	if !ok || a != b {
		return false
	}
	stores := 0
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != x {
				return false
			}
			stores++
		case *ssa.FieldAddr:
			for _, r2 := range *r.Referrers() {
				if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
					if _, ok := r2.(*ssa.DebugRef); !ok {
						return false
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return stores == 1
}

// searched checks that lists of type declarations are only searched by name.
func (c *Ctx) searched(funcs []*ssa.Function) {
	m := c.Root()
	n := 0
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || ia.X.Type().String() != "[]*go/ast.TypeSpec" {
					continue
				}
				for _, r := range *ia.Referrers() {
					e, ok := r.(*ssa.UnOp)
					if !ok {
						continue
					}
					if foundByName(ia.Index) {
						n++
						continue
					}
					n++
					why := byName(e)
					name := f.RelString(nil)
					c.Check(why == nil, ruleSearch, name, "%s: an element of a list of declarations is used which is not selected by its name", posOf(m, why, e))
				}
			}
		}
	}
	c.Count("searches of lists of declarations", n)
}

func posOf(m *Module, in ssa.Instruction, v ssa.Value) string {
	if in != nil && in.Pos().IsValid() {
		return m.Prog.Fset.Position(in.Pos()).String()
	}
	return m.Prog.Fset.Position(v.Pos()).String()
}

// foundByName reports whether an index is that of the element with a name.
func foundByName(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || originName(&c.Call) != "slices.IndexFunc" {
		return false
	}
	f, ok := c.Call.Args[1].(*ssa.Function)
	if mc, isClosure := c.Call.Args[1].(*ssa.MakeClosure); isClosure {
		f, ok = mc.Fn.(*ssa.Function)
	}
	if !ok || len(f.Blocks) != 1 || len(f.Params) != 1 {
		return false
	}
	in := f.Blocks[0].Instrs
	r, ok := in[len(in)-1].(*ssa.Return)
	if !ok {
		return false
	}
	b, ok := r.Results[0].(*ssa.BinOp)
	return ok && b.Op == token.EQL && (declName(b.X) == ssa.Value(f.Params[0]) || declName(b.Y) == ssa.Value(f.Params[0]))
}

// byName returns a use of an element that is not guarded by a comparison of its name.
func byName(e *ssa.UnOp) ssa.Instruction {
	// blocks in which the name has the value looked for
	guarded := func(b, to *ssa.BasicBlock) bool {
		l := &mapLoop{in: map[*ssa.BasicBlock]bool{}}
		for _, x := range b.Parent().Blocks {
			l.in[x] = true
		}
		for _, c := range l.conds(b, to) {
			bo, ok := c.v.(*ssa.BinOp)
			if !ok || !(bo.Op == token.EQL && c.val || bo.Op == token.NEQ && !c.val) {
				continue
			}
			if declName(bo.X) == ssa.Value(e) || declName(bo.Y) == ssa.Value(e) {
				return true
			}
		}
		return false
	}
	for _, r := range *e.Referrers() {
		if guarded(r.Block(), nil) {
			continue
		}
		switch r := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			continue // a test for nil
		case *ssa.FieldAddr:
			// only for the comparison
			ok := true
			for _, r2 := range *r.Referrers() {
				u, isLoad := r2.(*ssa.UnOp)
				if !isLoad {
					ok = false
					continue
				}
				for _, r3 := range *u.Referrers() {
					fa, isField := r3.(*ssa.FieldAddr)
					if call, isCall := r3.(*ssa.Call); isCall && originName(&call.Call) == "(*go/ast.Ident).String" {
						continue
					}
					if _, isNil := r3.(*ssa.BinOp); isNil {
						continue
					}
					if !isField {
						ok = false
						continue
					}
					for _, r4 := range *fa.Referrers() {
						if u, isLoad := r4.(*ssa.UnOp); !isLoad || declName(u) != ssa.Value(e) {
							ok = false
						}
					}
				}
			}
			if ok {
				continue
			}
		case *ssa.Store:
			// put into a list of declarations
			if ia, ok := r.Addr.(*ssa.IndexAddr); ok && strings.HasSuffix(ia.X.Type().String(), "*go/ast.TypeSpec") {
				continue
			}
		case *ssa.Phi:
			ok := true
			for i, ed := range r.Edges {
				if ed == ssa.Value(e) && !guarded(r.Block().Preds[i], r.Block()) {
					ok = false
				}
			}
			if ok {
				continue
			}
		}
		return r
	}
	return nil
}

func init() {
	register("C14", func(c *Ctx) {
		c.order()
	})
}
