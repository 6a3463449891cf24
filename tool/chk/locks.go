package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif.local/tool/tpl"
)

// The lock analysis explores the paths of the generated methods with an
// abstract state: the locks held, the deferred calls and the resources to be
// released. Calls of functions of the generated package are followed.

const (
	ruleShared   = "state written after construction is accessed under one lock, by atomics, or not shared"
	ruleRelease  = "a lock is released on every exit"
	ruleDouble   = "a lock is not acquired while it is held"
	ruleUnheld   = "only a held lock is released"
	ruleBaseLock = "no lock is held during the decorated call"
	ruleCopy     = "a value that contains a lock is not copied by a method"
	ruleStale    = "a value written under a lock does not depend on shared state read before the lock was acquired"
	ruleResource = "an acquired timer, ticker or context is released on every exit"
	ruleCaptured = "a variable shared with a goroutine is not written while the other side may access it"
	ruleUnsafe   = "objects that are not safe for concurrent use are used under a lock"
	ruleSection  = "all that a call writes under a lock it writes in one critical section"
	ruleMixed    = "a variable accessed by atomics is accessed only by atomics"
)

type heldLock struct {
	excl bool
	site ssa.Instruction
}

type lstate struct {
	held   map[string]heldLock
	once   map[string]bool
	defers []*ssa.Defer
	open   map[ssa.Value]bool         // resources to be released
	wrote  map[string]ssa.Instruction // where a lock was acquired for what was written under it
}

func (s *lstate) clone() *lstate {
	n := &lstate{held: map[string]heldLock{}, once: map[string]bool{}, open: map[ssa.Value]bool{}, wrote: map[string]ssa.Instruction{}, defers: append([]*ssa.Defer(nil), s.defers...)}
	for k, v := range s.wrote {
		n.wrote[k] = v
	}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k := range s.once {
		n.once[k] = true
	}
	for k := range s.open {
		n.open[k] = true
	}
	return n
}

func (s *lstate) key() string {
	var l []string
	for k, v := range s.held {
		l = append(l, fmt.Sprintf("h%s%v%p", k, v.excl, v.site))
	}
	for k := range s.once {
		l = append(l, "o"+k)
	}
	for k := range s.open {
		l = append(l, fmt.Sprintf("r%p", k))
	}
	for k, v := range s.wrote {
		l = append(l, fmt.Sprintf("w%s%p", k, v))
	}
	sort.Strings(l)
	for _, d := range s.defers {
		l = append(l, fmt.Sprintf("d%p", d))
	}
	return strings.Join(l, " ")
}

type access struct {
	write, atomic bool
	fn            *ssa.Function
	instr         ssa.Instruction
	held          map[string]heldLock
	once          map[string]bool
	entry         string
}

type lockAn struct {
	c        *Ctx
	w        *world
	pkg      *ssa.Package
	tmpl     string
	src      *types.Package
	accesses map[string][]access
	loads    map[ssa.Instruction]map[ssa.Instruction]bool // acquire sites at loads of shared state
	stores   []access
	bad      map[string]bool
	entry    string
	paths    int
	depth    int
	atomic   bool // a call writes in one critical section
	bindings map[*ssa.FreeVar]ssa.Value
	goFns    map[*ssa.Function]bool
	seenFn   map[*ssa.Function]bool
}

func (a *lockAn) fail(rule string, in ssa.Instruction, format string, args ...interface{}) {
	where := a.entry
	msg := fmt.Sprintf(format, args...)
	k := rule + where + msg
	if a.bad[k] {
		return
	}
	a.bad[k] = true
	pos := a.w.fset.Position(in.Pos())
	a.c.Bad(rule, "templates/"+a.tmpl+" "+where, "%s (line %d of the generated file)", msg, pos.Line)
}

// locOf names the memory an address refers to; ok is false for memory that is
// not shared between calls of methods.
func (a *lockAn) locOf(v ssa.Value) (string, bool) { return a.loc(v, 0) }

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (a *lockAn) own(n *types.Named) bool {
	return n != nil && n.Obj().Pkg() == a.pkg.Pkg
}

func (a *lockAn) loc(v ssa.Value, depth int) (string, bool) {
	if depth > 30 {
		return "", false
	}
	switch v := v.(type) {
	case *ssa.Global:
		return "variable " + v.Name(), v.Pkg == a.pkg
	case *ssa.FieldAddr:
		if a.fresh(v.X, depth+1) {
			return "", false
		}
		f := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(v.Field)
		if n := namedOf(v.X.Type()); a.own(n) {
			return n.Obj().Name() + "." + f.Name(), true
		}
		b, ok := a.loc(v.X, depth+1)
		return b + "." + f.Name(), ok
	case *ssa.Field:
		if n := namedOf(v.X.Type()); a.own(n) {
			return n.Obj().Name() + "." + v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name(), true
		}
		return "", false
	case *ssa.IndexAddr:
		if a.fresh(v.X, depth+1) {
			return "", false
		}
		b, ok := a.loc(v.X, depth+1)
		return b + "[]", ok
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// the object a loaded pointer, map or slice refers to
			if c, ok := a.cell(v.X); ok {
				if len(c) == 1 {
					return a.loc(c[0], depth+1)
				}
				return "", false
			}
			b, ok := a.deref(v.X, depth+1)
			return b + "*", ok
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if b, ok := a.loc(e, depth+10); ok {
				return b, ok
			}
		}
	case *ssa.Slice:
		return a.loc(v.X, depth+1)
	case *ssa.ChangeType:
		return a.loc(v.X, depth+1)
	case *ssa.FreeVar:
		if b := a.bindings[v]; b != nil {
			return a.loc(b, depth+1)
		}
	}
	return "", false
}

// deref names the location an address refers to even for the copy a method
// has of its receiver, the contents of whose fields are shared.
func (a *lockAn) deref(v ssa.Value, depth int) (string, bool) {
	if f, ok := v.(*ssa.FieldAddr); ok {
		if n := namedOf(f.X.Type()); a.own(n) && a.receiverCopy(f.X) {
			return n.Obj().Name() + "." + f.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(f.Field).Name(), true
		}
	}
	return a.loc(v, depth)
}

func (a *lockAn) receiverCopy(v ssa.Value) bool {
	if f, ok := v.(*ssa.FreeVar); ok && a.bindings[f] != nil {
		v = a.bindings[f]
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if _, ok := s.Val.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

// cell returns the values stored in a local variable.
func (a *lockAn) cell(v ssa.Value) ([]ssa.Value, bool) {
	if f, ok := v.(*ssa.FreeVar); ok && a.bindings[f] != nil {
		v = a.bindings[f]
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var vals []ssa.Value
	for _, in := range a.users(al) {
		if s, ok := in.(*ssa.Store); ok {
			vals = append(vals, s.Val)
		}
	}
	return vals, true
}

// users lists the instructions that use a variable, in closures too.
func (a *lockAn) users(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		if m, ok := r.(*ssa.MakeClosure); ok {
			for i, b := range m.Bindings {
				if b == v {
					out = append(out, a.users(m.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
			continue
		}
		if s, ok := r.(*ssa.Store); ok && s.Addr != v {
			continue
		}
		out = append(out, r)
	}
	return out
}

// fresh tells whether an address belongs to an object the function made.
func (a *lockAn) fresh(v ssa.Value, depth int) bool {
	if depth > 30 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FreeVar:
		if b := a.bindings[v]; b != nil {
			return a.fresh(b, depth+1)
		}
	case *ssa.FieldAddr:
		return a.fresh(v.X, depth+1)
	case *ssa.IndexAddr:
		return a.fresh(v.X, depth+1)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return true
	case *ssa.Slice:
		return a.fresh(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if c, ok := a.cell(v.X); ok && len(c) == 1 {
				return a.fresh(c[0], depth+1)
			}
		}
	}
	return false
}

// lockOf names the lock a receiver denotes.
func (a *lockAn) lockOf(v ssa.Value) string {
	if n, ok := a.locOf(v); ok {
		return n
	}
	if f, ok := v.(*ssa.FieldAddr); ok {
		if n := namedOf(f.X.Type()); a.own(n) {
			return n.Obj().Name() + "." + f.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(f.Field).Name() + " of a copy"
		}
	}
	if f, ok := v.(*ssa.FreeVar); ok && a.bindings[f] != nil {
		v = a.bindings[f]
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if c, ok := a.cell(u.X); ok && len(c) == 1 {
			return a.lockOf(c[0])
		}
	}
	return fmt.Sprintf("lock %s of %s", v.Name(), v.Parent())
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "invoke " + cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Object() != nil {
			return f.Object().(*types.Func).FullName()
		}
		return f.String()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

// sources follows a value back to the instructions that made it.
func (a *lockAn) sources(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if out[v] {
			return
		}
		out[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.Extract:
			walk(v.Tuple)
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.MakeInterface:
			walk(v.X)
		case *ssa.ChangeInterface:
			walk(v.X)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if c, ok := a.cell(v.X); ok {
					for _, e := range c {
						walk(e)
					}
				}
			}
		case *ssa.FreeVar:
			if b := a.bindings[v]; b != nil {
				walk(b)
			}
		}
	}
	walk(v)
	return out
}

var unsafeObjects = map[string]bool{
	"math/rand.Rand": true, "bytes.Buffer": true, "strings.Builder": true, "bufio.Writer": true, "bufio.Reader": true,
	"bufio.ReadWriter": true, "bufio.Scanner": true, "container/list.List": true, "container/ring.Ring": true, "math/rand/v2.Rand": true,
	"text/tabwriter.Writer": true,
}

func isBlocking(n string) bool { return n == "time.Sleep" || n == "(*sync.WaitGroup).Wait" }

// exit checks the state when the function that is the entry ends.
func (a *lockAn) exit(st *lstate, in ssa.Instruction, how string) {
	for k := range st.held {
		a.fail(ruleRelease, in, "%s is still held %s", k, how)
	}
	for r := range st.open {
		a.fail(ruleResource, in, "%s made by %s is not released %s", r.Type(), calleeName(r.(*ssa.Call).Common()), how)
	}
}

// call applies a call to the state.
func (a *lockAn) call(cc *ssa.CallCommon, in ssa.Instruction, st *lstate, deferred bool) []*lstate {
	n := calleeName(cc)
	arg := func(i int) ssa.Value {
		if i < len(cc.Args) {
			return cc.Args[i]
		}
		return nil
	}
	if strings.HasPrefix(n, "invoke (sync.Locker).") {
		// a locker made from a lock by RLocker or a conversion
		v := cc.Value
		excl := true
		for s := range a.sources(v) {
			if c, ok := s.(*ssa.Call); ok && calleeName(c.Common()) == "(*sync.RWMutex).RLocker" {
				v, excl = c.Call.Args[0], false
			}
			if m, ok := s.(*ssa.MakeInterface); ok {
				v = m.X
			}
		}
		k := a.lockOf(v)
		if strings.HasSuffix(n, ".Lock") {
			a.acquire(st, k, excl, in)
		} else {
			a.release(st, k, excl, in)
		}
		return []*lstate{st}
	}
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		a.acquire(st, a.lockOf(arg(0)), true, in)
		return []*lstate{st}
	case "(*sync.RWMutex).RLock":
		a.acquire(st, a.lockOf(arg(0)), false, in)
		return []*lstate{st}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		a.release(st, a.lockOf(arg(0)), true, in)
		return []*lstate{st}
	case "(*sync.RWMutex).RUnlock":
		a.release(st, a.lockOf(arg(0)), false, in)
		return []*lstate{st}
	case "(*sync.Once).Do":
		k := a.lockOf(arg(0))
		f := staticFn(arg(1))
		outs := []*lstate{st}
		if f != nil {
			n := st.clone()
			n.held["once "+k] = heldLock{true, in}
			outs = a.run(f, n, arg(1))
		}
		for _, o := range outs {
			delete(o.held, "once "+k)
			o.once["once "+k] = true
		}
		return outs
	case "time.NewTicker", "time.NewTimer", "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		if v, ok := in.(*ssa.Call); ok && !a.handedOver(v) {
			st.open[v] = true
		}
		return []*lstate{st}
	case "(*time.Ticker).Stop", "(*time.Timer).Stop":
		for s := range a.sources(arg(0)) {
			delete(st.open, s)
		}
		return []*lstate{st}
	case "time.Tick":
		if !strings.HasPrefix(a.entry, "method") {
			break
		}
		a.fail(ruleResource, in, "a ticker that cannot be released is made by each call")
	}
	if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
		if l, ok := a.locOf(arg(0)); ok {
			a.accesses[l] = append(a.accesses[l], access{write: !strings.Contains(n, "Load"), atomic: true, fn: in.Parent(), instr: in, entry: a.entry})
		}
		return []*lstate{st}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "copy", "append":
			if l, ok := a.locOf(arg(0)); ok && !a.fresh(arg(0), 0) {
				a.touch(l+"{}", b.Name() != "append", in, st)
			}
		case "len", "cap":
			if l, ok := a.locOf(arg(0)); ok {
				if _, isMap := arg(0).Type().Underlying().(*types.Map); isMap {
					a.touch(l+"{}", false, in, st)
				}
			}
		}
		return []*lstate{st}
	}
	// functions of the generated package are followed
	f := cc.StaticCallee()
	if f != nil && f.Pkg == a.pkg || f != nil && f.Parent() != nil && f.Parent().Pkg == a.pkg {
		return a.run(f, st, cc.Value)
	}
	if f == nil && !cc.IsInvoke() {
		// a cancel function, a closure or a value given by the user
		released := false
		for s := range a.sources(cc.Value) {
			if st.open[s] {
				delete(st.open, s)
				released = true
			}
			if m, ok := s.(*ssa.MakeClosure); ok {
				if len(a.stack(m.Fn.(*ssa.Function))) < 3 {
					return a.run(m.Fn.(*ssa.Function), st, m)
				}
			}
		}
		if released {
			return []*lstate{st}
		}
	}
	isBaseCall := cc.IsInvoke() && cc.Method.Pkg() != nil && (cc.Method.Pkg() == a.src || strings.HasPrefix(cc.Method.Pkg().Path(), tpl.SrcPath))
	if isBaseCall {
		for k := range st.held {
			a.fail(ruleBaseLock, in, "%s is held during the call of the decorated %s", k, cc.Method.Name())
		}
		if !deferred {
			p := st.clone()
			for _, o := range a.runDefers(p, in) {
				a.exit(o, in, "when the decorated "+cc.Method.Name()+" panics")
			}
		}
		return []*lstate{st}
	}
	if f != nil && f.Signature.Recv() != nil {
		if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil && unsafeObjects[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
			v := arg(0)
			l, ok := a.locOf(v)
			if ok && !a.fresh(v, 0) {
				a.touch(l+" object", true, in, st)
			}
		}
	}
	return []*lstate{st}
}

func (a *lockAn) stack(f *ssa.Function) []*ssa.Function {
	if a.seenFn[f] {
		return make([]*ssa.Function, 9)
	}
	return nil
}

// handedOver tells whether a resource is kept beyond the function.
func (a *lockAn) handedOver(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if _, isCtx := v.Type().Underlying().(*types.Interface); isCtx {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Extract:
				if walk(r) {
					return true
				}
			case *ssa.Phi:
				if walk(r) {
					return true
				}
			case *ssa.Return:
				return true
			case *ssa.Store:
				if r.Val == v {
					if _, ok := r.Addr.(*ssa.Alloc); !ok {
						if _, ok := r.Addr.(*ssa.FreeVar); !ok {
							return true
						}
					}
				}
			case *ssa.Send, *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				f := r.Common().StaticCallee()
				for _, x := range r.Common().Args {
					if x == v && (f == nil || f.Signature.Recv() == nil) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

func staticFn(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	}
	return nil
}

func (a *lockAn) acquire(st *lstate, k string, excl bool, in ssa.Instruction) {
	if strings.HasSuffix(k, " of a copy") {
		a.fail(ruleCopy, in, "the lock %s is acquired", k)
	}
	if _, ok := st.held[k]; ok {
		a.fail(ruleDouble, in, "%s is acquired while it is held", k)
	}
	st.held[k] = heldLock{excl, in}
}

func (a *lockAn) release(st *lstate, k string, excl bool, in ssa.Instruction) {
	h, ok := st.held[k]
	if !ok {
		a.fail(ruleUnheld, in, "%s is released but not held", k)
	} else if h.excl != excl {
		a.fail(ruleUnheld, in, "%s is released in another mode than acquired", k)
	}
	delete(st.held, k)
}

func (a *lockAn) touch(l string, write bool, in ssa.Instruction, st *lstate) {
	h := map[string]heldLock{}
	for k, v := range st.held {
		h[k] = v
	}
	ac := access{write: write, fn: in.Parent(), instr: in, held: h, once: st.clone().once, entry: a.entry}
	a.accesses[l] = append(a.accesses[l], ac)
	if write {
		a.stores = append(a.stores, ac)
		for k, v := range st.held {
			if w := st.wrote[k]; w != nil && w != v.site && a.atomic {
				a.fail(ruleSection, in, "%s is written in another critical section of %s than what was written before", l, k)
			}
			st.wrote[k] = v.site
		}
	}
	sites := a.loads[in]
	if sites == nil {
		sites = map[ssa.Instruction]bool{}
		a.loads[in] = sites
	}
	for _, v := range st.held {
		sites[v.site] = true
	}
}

func (a *lockAn) runDefers(st *lstate, in ssa.Instruction) []*lstate {
	states := []*lstate{st}
	ds := st.defers
	for _, s := range states {
		s.defers = nil
	}
	for i := len(ds) - 1; i >= 0; i-- {
		if ds[i].Parent() != in.Parent() {
			continue
		}
		var next []*lstate
		for _, s := range states {
			next = append(next, a.call(&ds[i].Call, ds[i], s, true)...)
		}
		states = next
	}
	return states
}

// run explores the paths of a function; it returns the states at its exits.
func (a *lockAn) run(f *ssa.Function, entry *lstate, clo ssa.Value) []*lstate {
	if a.seenFn[f] || len(f.Blocks) == 0 {
		return []*lstate{entry}
	}
	a.seenFn[f] = true
	defer func() { delete(a.seenFn, f) }()
	if m, ok := clo.(*ssa.MakeClosure); ok {
		for i, b := range m.Bindings {
			a.bindings[f.FreeVars[i]] = b
		}
	}
	outer := entry.defers
	type item struct {
		b  *ssa.BasicBlock
		st *lstate
	}
	start := entry.clone()
	start.defers = nil
	work := []item{{f.Blocks[0], start}}
	seen := map[string]bool{}
	var exits []*lstate
	seenExit := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d %s", it.b.Index, it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		a.paths++
		if a.paths > 200000 {
			panic(Fatal{"too many paths in " + f.String()})
		}
		states := []*lstate{it.st}
		for _, in := range it.b.Instrs {
			var next []*lstate
			for _, st := range states {
				next = append(next, a.step(in, st)...)
			}
			states = next
			if _, ok := in.(*ssa.Return); ok {
				for _, st := range states {
					n := st.clone()
					n.defers = append([]*ssa.Defer(nil), outer...)
					if !seenExit[n.key()] {
						seenExit[n.key()] = true
						exits = append(exits, n)
					}
				}
			}
			if _, ok := in.(*ssa.Panic); ok {
				for _, st := range states {
					for _, o := range a.runDefers(st.clone(), in) {
						o.defers = append([]*ssa.Defer(nil), outer...)
						if a.depth == 0 {
							a.exit(o, in, "after a panic")
						}
					}
				}
			}
		}
		for _, s := range it.b.Succs {
			for _, st := range states {
				work = append(work, item{s, st.clone()})
			}
		}
	}
	return exits
}

func (a *lockAn) step(in ssa.Instruction, st *lstate) []*lstate {
	switch in := in.(type) {
	case *ssa.Call:
		return a.call(in.Common(), in, st, false)
	case *ssa.Defer:
		for _, d := range st.defers {
			if d == in {
				return []*lstate{st}
			}
		}
		st.defers = append(st.defers, in)
	case *ssa.RunDefers:
		return a.runDefers(st, in)
	case *ssa.Go:
		a.goStmt(in, st)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if l, ok := a.locOf(in.X); ok {
				a.touch(l, false, in, st)
			}
		}
	case *ssa.Store:
		if l, ok := a.locOf(in.Addr); ok {
			a.touch(l, true, in, st)
		}
	case *ssa.MapUpdate:
		if l, ok := a.locOf(in.Map); ok && !a.fresh(in.Map, 0) {
			a.touch(l+"{}", true, in, st)
		}
	case *ssa.Lookup:
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			if l, ok := a.locOf(in.X); ok && !a.fresh(in.X, 0) {
				a.touch(l+"{}", false, in, st)
			}
		}
	case *ssa.Range:
		if l, ok := a.locOf(in.X); ok && !a.fresh(in.X, 0) {
			a.touch(l+"{}", false, in, st)
		}
	}
	return []*lstate{st}
}

// goStmt analyses a goroutine on its own and the variables it shares.
func (a *lockAn) goStmt(in *ssa.Go, st *lstate) {
	f := staticFn(in.Call.Value)
	if f == nil {
		f = in.Call.StaticCallee()
	}
	if f == nil || len(f.Blocks) == 0 || f.Pkg != a.pkg && (f.Parent() == nil || f.Parent().Pkg != a.pkg) {
		return
	}
	if a.goFns[f] {
		return
	}
	a.goFns[f] = true
	outer, entry := a.seenFn, a.entry
	a.seenFn = map[*ssa.Function]bool{}
	a.entry = entry + " (goroutine)"
	for _, o := range a.run(f, &lstate{held: map[string]heldLock{}, once: map[string]bool{}, open: map[ssa.Value]bool{}, wrote: map[string]ssa.Instruction{}}, in.Call.Value) {
		a.exit(o, in, "when the goroutine ends")
	}
	a.seenFn, a.entry = outer, entry
	if m, ok := in.Call.Value.(*ssa.MakeClosure); ok {
		for i := range m.Bindings {
			a.captured(in, f, m.Bindings[i], f.FreeVars[i])
		}
	}
}

// captured checks a variable that a goroutine captures.
func (a *lockAn) captured(g *ssa.Go, f *ssa.Function, outer ssa.Value, inner *ssa.FreeVar) {
	name := outer.Name()
	if al, ok := outer.(*ssa.Alloc); ok {
		name = al.Comment
	}
	inside := map[ssa.Instruction]bool{}
	var writesIn, allIn []ssa.Instruction
	for _, u := range a.users(inner) {
		inside[u] = true
		allIn = append(allIn, u)
		if s, ok := u.(*ssa.Store); ok {
			_ = s
			writesIn = append(writesIn, u)
		}
	}
	root := outer
	if fv, ok := outer.(*ssa.FreeVar); ok {
		if a.bindings[fv] != nil {
			root = a.bindings[fv]
		}
	}
	var writesOut, allOut []ssa.Instruction
	for _, u := range a.users(root) {
		if inside[u] {
			continue
		}
		if u.Parent() == g.Parent() && !mayFollow(g, u) {
			continue // before the goroutine starts
		}
		if u.Parent() != g.Parent() && !a.runsAfter(u, g) {
			continue
		}
		allOut = append(allOut, u)
		if _, ok := u.(*ssa.Store); ok {
			writesOut = append(writesOut, u)
		}
	}
	if len(writesIn) > 0 && len(allOut) > 0 {
		a.fail(ruleCaptured, writesIn[0], "variable %s is written by the goroutine and accessed outside of it", name)
	}
	if len(writesOut) > 0 && len(allIn) > 0 {
		a.fail(ruleCaptured, writesOut[0], "variable %s is written while a goroutine may access it", name)
	}
	if len(writesIn) > 0 && inLoop(g) && !a.perIteration(root, g) {
		a.fail(ruleCaptured, writesIn[0], "variable %s is written by several goroutines", name)
	}
}

// perIteration tells whether a variable is made anew for each goroutine.
func (a *lockAn) perIteration(v ssa.Value, g *ssa.Go) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && al.Parent() == g.Parent() && inLoop(al) && mayFollow(g, al)
}

// runsAfter tells whether an instruction of an enclosing or sibling function
// may run after the goroutine started.
func (a *lockAn) runsAfter(u ssa.Instruction, g *ssa.Go) bool {
	for f := g.Parent(); f != nil; f = f.Parent() {
		if f.Parent() != u.Parent() {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
					return mayFollow(m, u)
				}
			}
		}
	}
	return true
}

func inLoop(in ssa.Instruction) bool { return reach(in.Block(), in.Block()) }

func reach(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), from.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if !seen[b] {
			seen[b] = true
			work = append(work, b.Succs...)
		}
	}
	return false
}

// mayFollow tells whether b may run after a.
func mayFollow(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	return reach(a.Block(), b.Block())
}

// analyse runs the analysis over the entry functions of an expansion.
func (a *lockAn) analyse(entries []*ssa.Function) {
	for _, f := range entries {
		a.entry = "method " + f.Name()
		a.depth = 0
		if f.Signature.Recv() == nil {
			a.entry = "function " + f.Name()
		}
		if r := f.Signature.Recv(); r != nil {
			if _, ptr := r.Type().Underlying().(*types.Pointer); !ptr {
				if l := lockIn(r.Type(), map[types.Type]bool{}); l != "" {
					a.c.Bad(ruleCopy, "templates/"+a.tmpl+" "+a.entry, "the receiver of type %s is a copy with the %s", r.Type(), l)
				}
			}
		}
		for _, o := range a.run(f, &lstate{held: map[string]heldLock{}, once: map[string]bool{}, open: map[ssa.Value]bool{}, wrote: map[string]ssa.Instruction{}}, nil) {
			a.exit(o, f.Blocks[0].Instrs[0], "on return")
		}
	}
	var locs []string
	for l := range a.accesses {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	for _, l := range locs {
		acs := a.accesses[l]
		written, atomics, plain := false, 0, 0
		for _, ac := range acs {
			written = written || ac.write
			if ac.atomic {
				atomics++
			} else {
				plain++
			}
		}
		construct := "templates/" + a.tmpl + " " + l
		a.c.Count("accesses to shared state", len(acs))
		if !written {
			a.c.Ok(ruleShared, construct)
			continue
		}
		if atomics > 0 && plain > 0 {
			for _, ac := range acs {
				if !ac.atomic {
					a.c.Bad(ruleMixed, construct, "plain access in %s", ac.entry)
					break
				}
			}
			continue
		}
		if atomics > 0 {
			a.c.Ok(ruleShared, construct)
			continue
		}
		var common map[string]bool
		for _, ac := range acs {
			h := map[string]bool{}
			for k, v := range ac.held {
				if v.excl || !ac.write {
					h[k] = true
				}
			}
			if !ac.write {
				for k := range ac.once {
					h[k] = true
				}
			}
			if common == nil {
				common = h
				continue
			}
			for k := range common {
				if !h[k] {
					delete(common, k)
				}
			}
		}
		if len(common) == 0 {
			var who string
			for _, ac := range acs {
				if len(ac.held) == 0 || ac.write && !anyExcl(ac.held) {
					who = fmt.Sprintf("; %s accesses it without (line %d)", ac.entry, a.w.fset.Position(ac.instr.Pos()).Line)
				}
			}
			a.c.Bad(ruleShared, construct, "no lock is held on all accesses%s", who)
			continue
		}
		a.c.Ok(ruleShared, construct)
	}
	for _, l := range locs {
		for _, ac := range a.accesses[l] {
			c, ok := ac.instr.(ssa.CallInstruction)
			if !ac.atomic || !ok || !strings.Contains(calleeName(c.Common()), "Store") {
				continue
			}
			for in := range a.dependsOn(c.Common().Args[len(c.Common().Args)-1]) {
				if o, ok := in.(*ssa.Call); ok {
					if m, ok := a.locOf(o.Call.Args[0]); ok && m == l {
						a.entry = ac.entry
						a.fail(ruleStale, ac.instr, "the value stored in %s depends on what was loaded from it before", l)
					}
				}
			}
		}
	}
	// stale values
	for _, s := range a.stores {
		st, ok := s.instr.(*ssa.Store)
		if !ok {
			continue
		}
		now := map[ssa.Instruction]bool{}
		for _, h := range s.held {
			now[h.site] = true
		}
		if len(now) == 0 {
			continue
		}
		for in := range a.dependsOn(st.Val) {
			then, ok := a.loads[in]
			if !ok {
				continue
			}
			l := ""
			if u, ok := in.(*ssa.UnOp); ok {
				l, _ = a.locOf(u.X)
			}
			if !a.written(l) {
				continue
			}
			share := false
			for x := range then {
				share = share || now[x]
			}
			if !share {
				a.entry = s.entry
				a.fail(ruleStale, st, "the value depends on %s read before", l)
			}
		}
	}
}

func anyExcl(h map[string]heldLock) bool {
	for _, v := range h {
		if v.excl {
			return true
		}
	}
	return false
}

func (a *lockAn) written(l string) bool {
	for _, ac := range a.accesses[l] {
		if ac.write {
			return true
		}
	}
	return false
}

// dependsOn lists the loads a value is computed from.
func (a *lockAn) dependsOn(v ssa.Value) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			out[in] = true
			if c, ok := a.cell(u.X); ok {
				for _, e := range c {
					walk(e)
				}
			}
			return
		}
		if c, ok := v.(*ssa.Call); ok {
			if strings.Contains(calleeName(c.Common()), "sync/atomic.") {
				out[in] = true
			}
			return
		}
		for _, o := range in.Operands(nil) {
			if *o != nil {
				walk(*o)
			}
		}
	}
	walk(v)
	return out
}

// lockIn finds a lock inside a type.
func lockIn(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if p == "sync" || p == "sync/atomic" {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return "lock " + n.Obj().Name()
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if l := lockIn(u.Field(i).Type(), seen); l != "" {
				return l
			}
		}
	case *types.Array:
		return lockIn(u.Elem(), seen)
	}
	return ""
}

// concurrency analyses the code of templates.
func (c *Ctx) concurrency(names []string, atomic bool) {
	{
		ms := tpl.Shapes(false, c.Tier == "thorough")
		var es []*expansion
		paths := map[string]bool{}
		for _, n := range names {
			e := c.expand(n, "All", ms, false, nil)
			if e.err != nil {
				c.Bad(ruleCompiles, e.construct(), "%v", e.err)
				continue
			}
			for _, p := range tpl.Imports(e.src) {
				paths[p] = true
			}
			es = append(es, e)
		}
		w := c.newWorld(paths, map[string][]tpl.Method{"All": ms})
		for _, e := range es {
			if e.tmpl == "minimock" {
				continue
			}
			path := genPath + "/" + e.tmpl
			p, files, info, err := w.checkVersion(path, map[string]string{"gen.go": e.src}, "go1.21")
			if err != nil {
				c.Bad(ruleCompiles, e.construct(), "%v", err)
				continue
			}
			sp := w.prog.CreatePackage(p, files, info, true)
			sp.Build()
			a := &lockAn{c: c, w: w, pkg: sp, tmpl: e.tmpl, atomic: atomic, src: w.types[tpl.SrcPath], accesses: map[string][]access{},
				loads: map[ssa.Instruction]map[ssa.Instruction]bool{}, bad: map[string]bool{}, bindings: map[*ssa.FreeVar]ssa.Value{},
				goFns: map[*ssa.Function]bool{}, seenFn: map[*ssa.Function]bool{}}
			var entries []*ssa.Function
			ifc := w.types[tpl.SrcPath].Scope().Lookup("All").Type().Underlying().(*types.Interface)
			for _, n := range p.Scope().Names() {
				tn, ok := p.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					if o, ok := p.Scope().Lookup(n).(*types.Func); ok {
						if f := w.prog.FuncValue(o); f != nil && strings.HasPrefix(n, "New") {
							entries = append(entries, f)
						}
					}
					continue
				}
				named, ok := tn.Type().(*types.Named)
				if !ok || !types.Implements(types.NewPointer(named), ifc) {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					entries = append(entries, w.prog.FuncValue(named.Method(i)))
				}
			}
			n := 0
			for _, f := range entries {
				if f.Signature.Recv() != nil {
					n++
				}
			}
			c.Check(n > 0 || e.tmpl == "twirp_error", "methods must be found", "templates/"+e.tmpl, "no methods to analyse")
			c.Count("methods explored", n)
			before := len(c.Obls)
			a.analyse(entries)
			c.Count("path states explored", a.paths)
			ok := true
			for _, o := range c.Obls[before:] {
				ok = ok && o.OK
			}
			if ok {
				for _, r := range []string{ruleRelease, ruleDouble, ruleUnheld, ruleBaseLock, ruleCopy, ruleStale, ruleResource, ruleCaptured} {
					c.Ok(r, "templates/"+e.tmpl)
				}
				if atomic {
					c.Ok(ruleSection, "templates/"+e.tmpl)
				}
			}
		}
	}
}

func init() {
	register("C43", func(c *Ctx) { c.concurrency(c.bundled(), false) })
	register("C44", func(c *Ctx) { c.concurrency([]string{"circuitbreaker"}, true) })
}
