package vg

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind classifies calls.
type Kind int

const (
	Default Kind = iota // decide by the whitelist
	Pure                // uninterpreted pure function
	Effect              // observable effect
	Inline              // inline the body
	Ignore              // no effect, no result of interest
	Divert              // effect that never returns
	Below               // inlined when called by a harness, whose name begins with root, and pure otherwise
)

// Config tells how calls are treated.
type Config struct {
	Module      func(path string) bool       // packages whose functions are inlined
	Classify    func(name string) Kind       // overrides; name as in FuncName
	Alias       map[string]string            // canonical names of functions
	Panics      func(name string) bool       // effects that may panic
	Mutable     func(typ, field string) bool // fields that other goroutines or calls change
	MaxSteps    int
	PureMethods func(name string) bool
	Structural  bool               // interfaces of the analysed packages are identified by their structure
	Init        bool               // package variables have the values their initialisers give them
	Guards      bool               // operations that panic are part of the graph
	NilParam    func(t *Term) bool // parameters, and fields of them, that may be nil
	MayBeNil    func(name string) bool
	Needs       func(f *ssa.Function) []Need // what a function dereferences
}

// Exec builds value graphs.
type Exec struct {
	U           *U
	C           *Config
	Prog        *ssa.Program
	steps       int
	nFid        int
	nObj        int
	live        map[*ssa.Function]map[*ssa.BasicBlock][]ssa.Value
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	gconst      map[*ssa.Global]*Term
	globals     map[*Term]*ssa.Global
	Funcs       map[*ssa.Function]bool // functions inlined
	Calls       map[string]int         // opaque calls met
	objType     map[*Term]types.Type
	objMade     map[*Term]int
	RecNames    map[string]string // names given to recursive functions
	tails       map[*ssa.Function]bool
	recs        map[*ssa.Function]*recInfo
	rec         map[*ssa.Function]bool
	recKind     map[string]Kind
	madeLen     map[*Term]*Term
	optionalSel map[*Term]bool
	nilTok      map[*Term]bool          // carried values of loops that may be nil
	recTerms    map[*ssa.Function]*Term // graphs of recursive functions
	errPos      map[string]string
	busyLam     map[*ssa.Function]*busyLam                      // the closures being summarised
	container   map[*Term]bool                                  // slices and maps that are changed in place
	ErrIdx      int                                             // position of the error among the results, from 1
	ErrKind     func(e *Term) string                            // distinguishes errors that are returned
	Leaf        func(st *State, op string, res []*Term) []*Term // projection of the leaves
}

// Recursive lists the graphs of the recursive functions that were met.
func (x *Exec) Recursive() map[*ssa.Function]*Term { return x.recTerms }

// NewExec returns an executor.
func NewExec(prog *ssa.Program, c *Config) *Exec {
	x := &Exec{U: NewU(), C: c, Prog: prog, live: map[*ssa.Function]map[*ssa.BasicBlock][]ssa.Value{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, gconst: map[*ssa.Global]*Term{}, globals: map[*Term]*ssa.Global{},
		Funcs: map[*ssa.Function]bool{}, Calls: map[string]int{}, objType: map[*Term]types.Type{},
		tails: map[*ssa.Function]bool{}, RecNames: map[string]string{}, recKind: map[string]Kind{}, recs: map[*ssa.Function]*recInfo{}, optionalSel: map[*Term]bool{}, nilTok: map[*Term]bool{}, recTerms: map[*ssa.Function]*Term{}, madeLen: map[*Term]*Term{}, errPos: map[string]string{}, busyLam: map[*ssa.Function]*busyLam{}, container: map[*Term]bool{}, rec: map[*ssa.Function]bool{}}
	x.U.Text = x.plainText
	return x
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr ssa.Instruction
}

type cont struct {
	ret func(st *state, res []*Term) *Term
	pan func(st *state, v *Term) *Term
}

type frame struct {
	fid        int
	fn         *ssa.Function
	env        map[ssa.Value]*Term
	defers     []*deferred
	k          cont
	loops      []*loopRun
	stack      []*ssa.Function
	memo       map[string]*Term
	free       []*Term
	recovering *bool
	unroll     map[*natLoop]int // iterations of loops with a known number of iterations
}

// unrollFail stops the attempt to unroll a loop.
type unrollFail struct {
	nat *natLoop
	fid int
}

const maxUnroll = 24

func (fr *frame) clone() *frame {
	c := *fr
	c.env = make(map[ssa.Value]*Term, len(fr.env)+4)
	for k, v := range fr.env {
		c.env[k] = v
	}
	c.defers = append([]*deferred(nil), fr.defers...)
	c.loops = append([]*loopRun(nil), fr.loops...)
	if fr.unroll != nil {
		c.unroll = make(map[*natLoop]int, len(fr.unroll))
		for k, v := range fr.unroll {
			c.unroll[k] = v
		}
	}
	return &c
}

// State is the abstract memory.
type State = state

type state struct {
	mem   map[*Term]*Term
	occ   map[*Term]int
	epoch int
	pan   *Term
	iter  []string // loop tokens around
	cells []*Term  // atomic variables
}

func (s *state) clone() *state {
	c := &state{mem: make(map[*Term]*Term, len(s.mem)), occ: make(map[*Term]int, len(s.occ)), epoch: s.epoch, pan: s.pan, iter: s.iter, cells: s.cells}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.occ {
		c.occ[k] = v
	}
	return c
}

func (s *state) sig() string {
	parts := []string{}
	for k, v := range s.mem {
		parts = append(parts, fmt.Sprintf("%d=%d", k.ID, v.ID))
	}
	for k, v := range s.occ {
		parts = append(parts, fmt.Sprintf("o%d=%d", k.ID, v))
	}
	sort.Strings(parts)
	p := ""
	if s.pan != nil {
		p = strconv.Itoa(s.pan.ID)
	}
	return strings.Join(parts, ",") + "|" + strconv.Itoa(s.epoch) + "|" + p + "|" + strings.Join(s.iter, ",")
}

// FuncName is the canonical name of a function.
func FuncName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func (x *Exec) name(n string) string {
	if a, ok := x.C.Alias[n]; ok {
		return a
	}
	return n
}

// typeName renders a type.  The names of parameters do not matter, nor do the
// names of types that can be seen as nothing but a record for a decoder.
func typeName(t types.Type) string {
	return types.TypeString(plainType(t, map[*types.Named]bool{}), nil)
}

// exportedMethods reports whether code elsewhere can find methods of the type.
func exportedMethods(t *types.Named) bool {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Exported() {
			return true
		}
	}
	return false
}

func plainType(t types.Type, busy map[*types.Named]bool) types.Type {
	switch t := t.(type) {
	case *types.Pointer:
		if e := plainType(t.Elem(), busy); e != t.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := plainType(t.Elem(), busy); e != t.Elem() {
			return types.NewSlice(e)
		}
	case *types.Map:
		k, e := plainType(t.Key(), busy), plainType(t.Elem(), busy)
		if k != t.Key() || e != t.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Signature:
		tuple := func(tt *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < tt.Len(); i++ {
				vs = append(vs, types.NewParam(0, nil, "", plainType(tt.At(i).Type(), busy)))
			}
			return types.NewTuple(vs...)
		}
		if t.TypeParams() == nil {
			return types.NewSignatureType(nil, nil, nil, tuple(t.Params()), tuple(t.Results()), t.Variadic())
		}
	case *types.Named:
		st, ok := t.Underlying().(*types.Struct)
		if !ok || t.Obj().Exported() || exportedMethods(t) || t.TypeArgs() != nil || busy[t] || t.Obj().Pkg() == nil || !localish(t) {
			return t
		}
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() || st.Field(i).Embedded() {
				return t
			}
		}
		if st.NumFields() == 0 {
			return t
		}
		busy[t] = true
		defer delete(busy, t)
		return plainType(st, busy)
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		same := true
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			ft, tag := plainType(f.Type(), busy), t.Tag(i)
			if strings.EqualFold(tag, `json:"`+f.Name()+`"`) {
				tag = ""
			}
			if ft != f.Type() || tag != t.Tag(i) {
				same = false
			}
			fs = append(fs, types.NewField(0, f.Pkg(), f.Name(), ft, f.Embedded()))
			tags = append(tags, tag)
		}
		if !same {
			return types.NewStruct(fs, tags)
		}
	}
	return t
}

// Zero is the zero value of a type.
func (x *Exec) Zero(t types.Type) *Term {
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case tt.Info()&types.IsString != 0:
			return x.U.Str("")
		case tt.Info()&types.IsBoolean != 0:
			return x.U.Bool(false)
		case tt.Info()&types.IsNumeric != 0:
			return x.U.Num(0)
		}
		return x.U.Nil()
	case *types.Struct:
		switch typeName(t) {
		case "strings.Builder", "bytes.Buffer":
			return x.U.Str("")
		}
		if tt.NumFields() > 30 || !localish(t) {
			return x.U.raw("zero", typeName(t))
		}
		args := []*Term{}
		for i := 0; i < tt.NumFields(); i++ {
			args = append(args, x.Zero(tt.Field(i).Type()))
		}
		return x.U.mkStruct(x.structAux(t), args)
	case *types.Array:
		if tt.Len() <= 64 {
			args := []*Term{}
			for i := int64(0); i < tt.Len(); i++ {
				args = append(args, x.Zero(tt.Elem()))
			}
			return x.U.raw("list", "", args...)
		}
		return x.U.raw("mklist", "", x.U.Num(int(tt.Len())), x.Zero(tt.Elem()))
	case *types.Tuple:
		return x.U.raw("zero", typeName(t))
	}
	return x.U.Nil()
}

func localish(t types.Type) bool { return true }

func (x *Exec) structAux(t types.Type) string {
	st := t.Underlying().(*types.Struct)
	names := []string{x.structTypeName(t)}
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, st.Field(i).Name())
	}
	return strings.Join(names, ",")
}

func (x *Exec) structTypeName(t types.Type) string {
	if _, ok := plainType(t, map[*types.Named]bool{}).(*types.Struct); ok {
		return "struct"
	}
	n := typeName(t)
	if nt, ok := t.(*types.Named); ok && x.C.Structural && nt.Obj().Pkg() != nil && x.C.Module(nt.Obj().Pkg().Path()) {
		return "struct"
	}
	if _, ok := t.(*types.Struct); ok {
		return "struct"
	}
	return strings.ReplaceAll(n, ",", ";")
}

// Func builds the value graph of a function.
func (x *Exec) Func(fn *ssa.Function, args ...*Term) *Term {
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, x.Param(i, p.Type()))
		}
	}
	var fvs []*Term
	for range fn.FreeVars {
		fail("free variables at the root")
	}
	st := &state{mem: map[*Term]*Term{}, occ: map[*Term]int{}}
	k := cont{
		ret: func(st *state, res []*Term) *Term { return x.leaf(st, "ret", fn.Signature.Results(), res) },
		pan: func(st *state, v *Term) *Term { return x.leaf(st, "panic", nil, []*Term{v}) },
	}
	if x.C.Init && fn.Pkg != nil {
		if init := fn.Pkg.Func("init"); init != nil && len(init.Blocks) > 1 {
			x.nFid++
			fr := &frame{fid: x.nFid, fn: init, env: map[ssa.Value]*Term{}, memo: map[string]*Term{}, stack: []*ssa.Function{init}}
			fr.k = cont{
				ret: func(st *state, res []*Term) *Term { return x.call(fn, args, fvs, st, k, nil) },
				pan: k.pan,
			}
			// behind the guard
			return x.instrs(fr, init.Blocks[1], 0, st)
		}
	}
	return x.call(fn, args, fvs, st, k, nil)
}

// Param is the i-th parameter of the analysed function.
func (x *Exec) Param(i int, t types.Type) *Term {
	r := x.U.raw("param", "p"+strconv.Itoa(i))
	return r
}

func (x *Exec) leaf(st *state, op string, types_ *types.Tuple, res []*Term) *Term {
	var args []*Term
	for _, r := range res {
		args = append(args, x.freeze(st, r))
	}
	if op == "ret" && x.ErrIdx > 0 && x.ErrIdx <= len(args) {
		// which error is returned, and what comes with it, does not matter
		e := args[x.ErrIdx-1]
		if nonNil(e) {
			kind := ""
			if x.ErrKind != nil {
				kind = x.ErrKind(e)
			}
			return x.U.raw("ret", "", x.U.raw("error", kind))
		}
		if e.Op == "ite" && x.ErrKind != nil {
			var alt [2]*Term
			for i := range alt {
				l := append([]*Term(nil), res...)
				for j := range l {
					l[j] = x.U.Assume(l[j], e.Args[0], i == 0)
				}
				alt[i] = x.leaf(st, op, types_, l)
			}
			return x.U.Ite(e.Args[0], alt[0], alt[1])
		}
		if e.Op != "nil" {
			isNil := x.U.Eq(e, x.U.Nil())
			i := x.ErrIdx
			res2 := append([]*Term(nil), res...)
			res2[i-1] = x.U.Nil()
			for j := range res2 {
				if j != i-1 {
					res2[j] = x.U.Assume(res2[j], isNil, true)
				}
			}
			return x.U.Ite(isNil, x.leaf(st, op, types_, res2), x.U.raw("ret", "", x.U.raw("error", "")))
		}
	}
	if x.Leaf != nil {
		args = x.Leaf(st, op, args)
		return x.splitLeaf(op, args, nil)
	}
	// changes of memory that is visible outside
	var roots []*Term
	for r := range st.mem {
		if r.Op == "gaddr" && strings.HasSuffix(r.Aux, "init$guard") {
			continue
		}
		if r.Op != "obj" && !r.hasObj() && !localList(r) {
			roots = append(roots, r)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	for _, r := range roots {
		c := x.freeze(st, st.mem[r])
		if c == x.U.Deref(r, "") || c == r {
			continue
		}
		if c.Op == "struct" {
			// the fields that differ
			names := strings.Split(c.Aux, ",")
			m := []*Term{r}
			aux := names[0]
			for i, v := range c.Args {
				if v != x.U.Sel(r, names[i+1]) {
					m, aux = append(m, v), aux+","+names[i+1]
				}
			}
			if len(m) > 1 {
				args = append(args, x.U.raw("memset", aux, m...))
			}
			continue
		}
		args = append(args, x.U.raw("memset", "", r, c))
	}
	return x.splitLeaf(op, args, types_)
}

// localList reports whether a slice was made by the function itself.
func localList(r *Term) bool {
	switch r.Op {
	case "list", "lcat", "lmap", "conv", "sorted":
		return true
	case "call":
		return strings.HasPrefix(r.Aux, "strings.")
	case "tok":
		return strings.Contains(r.Aux, ".out")
	}
	return false
}

func (x *Exec) splitLeaf(op string, args []*Term, tt *types.Tuple) *Term {
	for i, a := range args {
		b := x.findBool(a)
		if b == nil && tt != nil && i < tt.Len() && isBoolType(tt.At(i).Type()) && a.Op != "true" && a.Op != "false" {
			b = a
		}
		if b != nil {
			for b.Op == "not" {
				b = b.Args[0]
			}
			ta, fa := make([]*Term, len(args)), make([]*Term, len(args))
			for j, a := range args {
				ta[j] = x.U.Assume(a, b, true)
				fa[j] = x.U.Assume(a, b, false)
			}
			return x.U.Ite(b, x.splitLeaf(op, ta, tt), x.splitLeaf(op, fa, tt))
		}
	}
	return x.U.raw(op, "", args...)
}

// findBool finds a boolean value inside a structure, not under a binder.
func (x *Exec) findBool(t *Term) *Term {
	switch t.Op {
	case "true", "false":
		return nil
	case "ite":
		if t.isBool {
			return t
		}
		return t.Args[0]
	case "lmap", "smap", "fold", "mmap", "lam", "loop", "call", "proj", "sel", "deref", "index":
		if t.isBool {
			return t
		}
		return nil
	}
	if t.isBool {
		return t
	}
	for _, a := range t.Args {
		if b := x.findBool(a); b != nil {
			return b
		}
	}
	return nil
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (t *Term) hasObj() bool {
	for k := range t.toks {
		if strings.HasPrefix(k, "obj:") {
			return true
		}
	}
	return false
}

// newObj allocates a tracked object; kind p (pointer), a (array), l, m.
func (x *Exec) newObj(st *state, kind string, content *Term, t types.Type) *Term {
	x.nObj++
	id := strconv.Itoa(x.nObj)
	o := x.U.raw("obj", id+":"+kind)
	o.toks = map[string]bool{"obj:" + id: true}
	st.mem[o] = content
	x.objType[o] = t
	return o
}

func objKind(o *Term) string { return o.Aux[strings.IndexByte(o.Aux, ':')+1:] }

// freeze replaces tracked objects with their contents.
func (x *Exec) freeze(st *state, t *Term) *Term { return x.freezeF(st, t, nil) }

func (x *Exec) freezeF(st *state, t *Term, only func(*Term) bool) *Term {
	return x.freezeRec(st, t, map[*Term]bool{}, only)
}

func (x *Exec) freezeRec(st *state, t *Term, busy map[*Term]bool, only func(*Term) bool) *Term {
	m := map[*Term]*Term{}
	Walk(t, func(s *Term) bool {
		if s.Op == "obj" {
			if only != nil && !only(s) {
				return false
			}
			c, ok := st.mem[s]
			if !ok {
				m[s] = x.U.raw("dead", s.Aux)
				return false
			}
			if busy[s] {
				m[s] = x.U.raw("cycle", "")
				return false
			}
			busy[s] = true
			c = x.freezeRec(st, c, busy, only)
			delete(busy, s)
			switch objKind(s) {
			case "p":
				m[s] = x.U.raw("ref", "", c)
			default:
				m[s] = c
			}
			return false
		}
		return s.hasObj()
	})
	return x.U.Subst(x.contents(st, t, 0), m)
}

// contents replaces slices that are changed in place by what they hold; only
// references to them are replaced, not values computed from them.
func (x *Exec) contents(st *state, t *Term, depth int) *Term {
	if len(x.container) == 0 || depth > 10 {
		return t
	}
	if x.container[t] && t.Op != "param" && t.Op != "obj" {
		if c, ok := st.mem[t]; ok {
			return c
		}
	}
	switch t.Op {
	case "struct", "iface", "ref", "tuple", "list":
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = x.contents(st, a, depth+1)
			changed = changed || args[i] != a
		}
		if changed {
			return x.U.Mk(t.Op, t.Aux, args...)
		}
	}
	return t
}

// content is the present content of a slice or map value.
func (x *Exec) content(st *state, v *Term) *Term {
	if c, ok := st.mem[v]; ok {
		return c
	}
	return v
}

func (x *Exec) load(st *state, addr *Term, t types.Type) *Term {
	u := x.U
	if c, ok := st.mem[addr]; ok {
		return c
	}
	switch addr.Op {
	case "obj":
		fail("load of a dead object")
	case "gaddr":
		if g := x.globals[addr]; g != nil {
			if c := x.global(g); c.Op == "list" || c.Op == "mapset" || c.Op == "mapempty" {
				return c
			}
		}
		return u.raw("gval", addr.Aux)
	case "fieldaddr":
		f := addr.Aux
		base := addr.Args[0]
		if x.C.Mutable != nil && base.Op != "obj" && !base.hasObj() {
			tn := ""
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				tn = f[:i]
			}
			_ = tn
		}
		return u.Sel(x.load(st, base, nil), fieldName(f))
	case "indexaddr":
		var c *Term
		if addr.Aux == "p" {
			c = x.load(st, addr.Args[0], nil)
		} else {
			c = x.content(st, addr.Args[0])
		}
		return u.Index(c, addr.Args[1])
	}
	return u.Deref(addr, "")
}

func fieldName(aux string) string {
	if i := strings.LastIndexByte(aux, '\x00'); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

func (x *Exec) store(st *state, addr, v *Term, addrType types.Type) {
	u := x.U
	switch addr.Op {
	case "fieldaddr":
		base := addr.Args[0]
		bt := x.objType[addr]
		if bt == nil {
			fail("store to a field of an unknown type")
		}
		sty := bt.Underlying().(*types.Struct)
		cur := x.load(st, base, bt)
		args := make([]*Term, sty.NumFields())
		for i := range args {
			n := sty.Field(i).Name()
			if n == fieldName(addr.Aux) {
				args[i] = v
			} else if cur.Op == "zero" {
				args[i] = x.Zero(sty.Field(i).Type())
			} else {
				args[i] = u.Sel(cur, n)
			}
		}
		x.store(st, base, u.mkStruct(x.structAux(bt), args), nil)
		return
	case "indexaddr":
		if addr.Aux == "p" {
			c := x.load(st, addr.Args[0], nil)
			x.store(st, addr.Args[0], u.SetIndex(c, addr.Args[1], v), nil)
		} else {
			c := x.content(st, addr.Args[0])
			if addr.Args[0].Op == "nil" {
				// a panic unless the path is infeasible
				st.mem[u.raw("nilwrite", "")] = v
				return
			}
			x.container[addr.Args[0]] = true
			st.mem[addr.Args[0]] = u.SetIndex(c, addr.Args[1], v)
		}
		return
	}
	st.mem[addr] = v
}

// ------------------------------------------------------------------ running

func (x *Exec) call(fn *ssa.Function, args, fvs []*Term, st *state, k cont, stack []*ssa.Function) *Term {
	if fn.Blocks == nil {
		fail("no body: %s", fn)
	}
	x.Funcs[fn] = true
	x.nFid++
	fr := &frame{fid: x.nFid, fn: fn, env: map[ssa.Value]*Term{}, k: k, memo: map[string]*Term{}, free: fvs}
	fr.stack = append(append([]*ssa.Function(nil), stack...), fn)
	if len(fr.stack) > 60 {
		fail("call stack too deep at %s", fn)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = fvs[i]
	}
	if len(fn.FreeVars) == 0 && x.tailSelf(fn) {
		nat := &natLoop{header: fn.Blocks[0], body: map[*ssa.BasicBlock]bool{}, tail: true}
		for _, b := range fn.Blocks {
			nat.body[b] = true
		}
		return x.loop(fr, nat, nil, args, st)
	}
	return x.block(fr, fn.Blocks[0], nil, st)
}

// tailCall reports whether a call is followed by the return of its results.
func tailCall(c *ssa.Call) bool {
	b := c.Block()
	i := 0
	for i < len(b.Instrs) && b.Instrs[i] != ssa.Instruction(c) {
		i++
	}
	ext := map[ssa.Value]int{}
	for _, in := range b.Instrs[i+1:] {
		switch in := in.(type) {
		case *ssa.Extract:
			if in.Tuple != ssa.Value(c) {
				return false
			}
			ext[in] = in.Index
		case *ssa.Return:
			if len(in.Results) == 1 && in.Results[0] == ssa.Value(c) {
				return true
			}
			for j, r := range in.Results {
				if k, ok := ext[r]; !ok || k != j {
					return false
				}
			}
			return len(in.Results) == c.Call.Signature().Results().Len()
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return false
}

// tailSelf reports whether a function calls itself in tail position, and
// nowhere else.
func (x *Exec) tailSelf(fn *ssa.Function) bool {
	if r, ok := x.tails[fn]; ok {
		return r
	}
	n, bad := 0, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Defer:
				bad = true
			case *ssa.Call:
				if in.Call.StaticCallee() == fn {
					if tailCall(in) {
						n++
					} else {
						bad = true
					}
				}
			}
		}
	}
	r := n > 0 && !bad
	x.tails[fn] = r
	return r
}

func (x *Exec) block(fr *frame, b, pred *ssa.BasicBlock, st *state) *Term {
	x.steps++
	max := x.C.MaxSteps
	if max == 0 {
		max = 400000
	}
	if x.steps > max {
		fail("more than %d steps", max)
	}
	// leaving loops
	if n := len(fr.loops); n > 0 {
		l := fr.loops[n-1]
		if !l.nat.body[b] {
			return l.exit(fr, b, pred, st)
		}
	}
	// phis
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		idx := -1
		for i, q := range b.Preds {
			if q == pred {
				idx = i
			}
		}
		phis = append(phis, p)
		vals = append(vals, x.val(fr, st, p.Edges[idx]))
	}
	if nat := x.natLoops(fr.fn)[b]; nat != nil {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].nat == nat {
			return fr.loops[n-1].back(fr, st, vals)
		}
		if n := fr.unroll[nat]; n > 0 && pred != nil && nat.body[pred] {
			if n > maxUnroll {
				panic(unrollFail{nat, fr.fid})
			}
			fr.unroll[nat] = n + 1
		} else if r := x.tryUnroll(fr, nat, b, phis, vals, st); r != nil {
			return r
		} else {
			return x.loop(fr, nat, phis, vals, st)
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	if len(b.Preds) > 1 {
		key := x.joinKey(fr, b, st, phis)
		if r, ok := fr.memo[key]; ok {
			return r
		}
		r := x.instrs(fr, b, len(phis), st)
		fr.memo[key] = r
		return r
	}
	return x.instrs(fr, b, len(phis), st)
}

// tryUnroll runs a loop whose number of iterations is known.
func (x *Exec) tryUnroll(fr *frame, nat *natLoop, b *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term, st *state) (r *Term) {
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || nat.tail {
		return nil
	}
	fr, st = fr.clone(), st.clone()
	if fr.unroll == nil {
		fr.unroll = map[*natLoop]int{}
	}
	fr.unroll[nat] = 1
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(unrollFail); ok && f.nat == nat && f.fid == fr.fid {
				r = nil
				return
			}
			panic(e)
		}
	}()
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	return x.instrs(fr, b, len(phis), st)
}

func (x *Exec) joinKey(fr *frame, b *ssa.BasicBlock, st *state, phis []*ssa.Phi) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|", b.Index)
	for _, l := range fr.loops {
		fmt.Fprintf(&sb, "L%s.", l.tok)
	}
	for _, p := range phis {
		fmt.Fprintf(&sb, "%d,", fr.env[p].ID)
	}
	for _, v := range x.liveIn(fr.fn, b) {
		if t, ok := fr.env[v]; ok {
			fmt.Fprintf(&sb, "%d,", t.ID)
		} else {
			sb.WriteString("-,")
		}
	}
	for _, d := range fr.defers {
		fmt.Fprintf(&sb, "d%p", d)
	}
	sb.WriteString(st.sig())
	return sb.String()
}

func (x *Exec) liveIn(fn *ssa.Function, b *ssa.BasicBlock) []ssa.Value {
	m, ok := x.live[fn]
	if !ok {
		sets := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			sets[b] = map[ssa.Value]bool{}
		}
		for changed := true; changed; {
			changed = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				cur := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					for v := range sets[s] {
						cur[v] = true
					}
					for _, in := range s.Instrs {
						p, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						for j, q := range s.Preds {
							if q == b {
								cur[p.Edges[j]] = true
							}
						}
					}
				}
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					in := b.Instrs[j]
					if v, ok := in.(ssa.Value); ok {
						delete(cur, v)
					}
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						cur[*op] = true
					}
				}
				for v := range cur {
					switch v.(type) {
					case ssa.Instruction, *ssa.Parameter, *ssa.FreeVar:
						// conditions on parameters change what is known of them
					default:
						delete(cur, v)
						continue
					}
					if !sets[b][v] {
						sets[b][v] = true
						changed = true
					}
				}
			}
		}
		m = map[*ssa.BasicBlock][]ssa.Value{}
		for b, s := range sets {
			var l []ssa.Value
			for v := range s {
				l = append(l, v)
			}
			sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
			m[b] = l
		}
		x.live[fn] = m
	}
	return m[b]
}

func (x *Exec) val(fr *frame, st *state, v ssa.Value) *Term {
	u := x.U
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.Zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Int:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return u.raw("num", v.Value.ExactString())
			}
		}
		return u.Const(v.Value, typeName(v.Type()))
	case *ssa.Function:
		return u.raw("func", x.fnKey(v))
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return u.raw("func", "builtin."+v.Name())
	}
	t, ok := fr.env[v]
	if !ok {
		fail("%s: no value for %s", fr.fn, v)
	}
	return t
}

var fnTable = map[string]*ssa.Function{}

func (x *Exec) fnKey(f *ssa.Function) string {
	n := f.RelString(nil)
	fnTable[n] = f
	return n
}

func (x *Exec) globalAddr(g *ssa.Global) *Term {
	t := x.U.raw("gaddr", x.name(g.RelString(nil)))
	x.globals[t] = g
	return t
}

// gval resolves a package-level variable that is only assigned once.
func (x *Exec) global(g *ssa.Global) *Term {
	if t, ok := x.gconst[g]; ok {
		return t
	}
	u := x.U
	t := u.raw("gval", x.name(g.RelString(nil)))
	x.gconst[g] = t
	if g.Pkg == nil || x.C.Module == nil || !x.C.Module(g.Pkg.Pkg.Path()) {
		if types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
			t = u.raw("sentinel", x.name(g.RelString(nil)))
			x.gconst[g] = t
		}
		return t
	}
	var stores []ssa.Value
	other := false
	for _, m := range g.Pkg.Members {
		if f, ok := m.(*ssa.Function); ok {
			scan(f, g, &stores, &other)
		}
	}
	for _, m := range g.Pkg.Members {
		if tt, ok := m.(*ssa.Type); ok {
			for _, typ := range []types.Type{tt.Type(), types.NewPointer(tt.Type())} {
				ms := x.Prog.MethodSets.MethodSet(typ)
				for i := 0; i < ms.Len(); i++ {
					if f := x.Prog.MethodValue(ms.At(i)); f != nil {
						scan(f, g, &stores, &other)
					}
				}
			}
		}
	}
	if len(stores) == 1 && !other {
		switch s := stores[0].(type) {
		case *ssa.Const:
			t = x.val(nil, nil, s)
		case *ssa.Call:
			if f := s.Call.StaticCallee(); f != nil {
				switch FuncName(f) {
				case "errors.New", "github.com/pkg/errors.New", "fmt.Errorf", "github.com/pkg/errors.Errorf":
					t = u.raw("sentinel", x.name(g.RelString(nil)))
				}
			}
		}
	}
	if c := x.table(g); c != nil {
		t = c
	}
	x.gconst[g] = t
	return t
}

func scan(f *ssa.Function, g *ssa.Global, stores *[]ssa.Value, other *bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					switch i := in.(type) {
					case *ssa.Store:
						if i.Addr == ssa.Value(g) {
							if !containsVal(*stores, i.Val) {
								*stores = append(*stores, i.Val)
							}
							continue
						}
						*other = true
					case *ssa.UnOp:
					case *ssa.DebugRef:
					default:
						*other = true
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		scan(a, g, stores, other)
	}
}

func containsVal(l []ssa.Value, v ssa.Value) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) instrs(fr *frame, b *ssa.BasicBlock, i int, st *state) *Term {
	return x.run(fr, b, i, st, !x.C.Guards)
}

// run executes the instructions of a block; the first one has been checked if guarded.
func (x *Exec) run(fr *frame, b *ssa.BasicBlock, i int, st *state, guarded bool) *Term {
	u := x.U
	for ; i < len(b.Instrs); i++ {
		if !guarded {
			if g := x.guard(fr, st, b.Instrs[i]); g != nil && g.Op != "true" {
				what := u.raw("guard", guardText(x.Prog, b.Instrs[i]))
				bad := x.doPanic(fr.clone(), st.clone(), what)
				return u.Ite(g, x.run(fr, b, i, st, true), bad)
			}
		}
		guarded = !x.C.Guards
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := deref(in.Type())
			kind := "p"
			if _, ok := t.Underlying().(*types.Array); ok {
				kind = "a"
			}
			fr.env[in] = x.newObj(st, kind, x.Zero(t), t)
		case *ssa.BinOp:
			fr.env[in] = x.binop(in, x.val(fr, st, in.X), x.val(fr, st, in.Y), st)
		case *ssa.UnOp:
			v := x.val(fr, st, in.X)
			switch in.Op {
			case token.MUL:
				if g, ok := in.X.(*ssa.Global); ok {
					if _, set := st.mem[v]; !set {
						fr.env[in] = x.global(g)
						continue
					}
				}
				r := x.load(st, v, in.Type())
				if x.C.Guards && r.Op == "sel" && v.Op == "fieldaddr" && x.isOptional(v) {
					x.optionalSel[r] = true
				}
				if x.C.Mutable != nil && r.Op == "sel" && v.Op == "fieldaddr" {
					if bt := x.objType[v]; bt != nil && x.C.Mutable(typeName(bt), r.Aux) {
						r = u.raw("mutsel", r.Aux+"@"+strconv.Itoa(st.epoch), r.Args[0])
					}
				}
				fr.env[in] = r
			case token.NOT:
				fr.env[in] = u.Not(v)
			case token.SUB:
				fr.env[in] = u.arith("sub", u.Num(0), v)
			case token.ARROW:
				c := x.effCall(st, "recv", []*Term{x.freeze(st, v)})
				val := u.Proj(c, "0")
				if in.CommaOk {
					val = u.raw("tuple", "", u.Proj(c, "0"), u.Proj(c, "1"))
				}
				fr.env[in] = val
				return u.Eff(c, x.instrs(fr, b, i+1, st))
			default:
				fr.env[in] = u.raw("unop", in.Op.String(), v)
			}
		case *ssa.ChangeType:
			fr.env[in] = x.val(fr, st, in.X)
		case *ssa.ChangeInterface:
			fr.env[in] = x.val(fr, st, in.X)
		case *ssa.MakeInterface:
			v := x.val(fr, st, in.X)
			if isBoolType(in.X.Type()) && v.Op != "true" && v.Op != "false" {
				i := i
				return x.splitOn(fr, st, v, func(fr *frame, st *state, v *Term) *Term {
					fr.env[in] = u.Iface(typeName(in.X.Type()), v)
					return x.instrs(fr, b, i+1, st)
				})
			}
			fr.env[in] = u.Iface(typeName(in.X.Type()), v)
		case *ssa.Convert:
			fr.env[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type())
		case *ssa.MultiConvert:
			fr.env[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type())
		case *ssa.SliceToArrayPointer:
			fail("slice to array pointer")
		case *ssa.FieldAddr:
			base := x.val(fr, st, in.X)
			sty := deref(in.X.Type())
			f := sty.Underlying().(*types.Struct).Field(in.Field).Name()
			a := u.raw("fieldaddr", f, base)
			x.objType[a] = sty
			fr.env[in] = a
		case *ssa.Field:
			sty := in.X.Type().Underlying().(*types.Struct)
			fr.env[in] = u.Sel(x.val(fr, st, in.X), sty.Field(in.Field).Name())
		case *ssa.IndexAddr:
			base := x.val(fr, st, in.X)
			kind := "l"
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				kind = "p"
			}
			fr.env[in] = u.raw("indexaddr", kind, base, x.val(fr, st, in.Index))
		case *ssa.Index:
			fr.env[in] = u.Index(x.content(st, x.val(fr, st, in.X)), x.val(fr, st, in.Index))
		case *ssa.Slice:
			fr.env[in] = x.slice(fr, st, in)
		case *ssa.Lookup:
			m := x.content(st, x.val(fr, st, in.X))
			k := x.val(fr, st, in.Index)
			mt, ok := in.X.Type().Underlying().(*types.Map)
			if !ok {
				fr.env[in] = u.Index(m, k)
				continue
			}
			z := x.Zero(mt.Elem())
			l := u.Lookup(m, k, zeroKey(z))
			l = x.unzero(l, mt.Elem())
			if in.CommaOk {
				fr.env[in] = u.raw("tuple", "", l, u.HasKey(m, k))
			} else {
				fr.env[in] = l
			}
		case *ssa.MakeMap:
			fr.env[in] = x.newObj(st, "m", u.raw("mapempty", ""), in.Type())
		case *ssa.MapUpdate:
			m := x.val(fr, st, in.Map)
			v := x.val(fr, st, in.Value)
			k := x.val(fr, st, in.Key)
			if m.Op == "nil" {
				return x.doPanic(fr, st, u.raw("nilmap", ""))
			}
			if isBoolType(in.Value.Type()) && v.Op != "true" && v.Op != "false" {
				i := i
				return x.splitOn(fr, st, v, func(fr *frame, st *state, v *Term) *Term {
					x.container[m] = true
					st.mem[m] = x.mapSet(x.content(st, m), k, v)
					return x.instrs(fr, b, i+1, st)
				})
			}
			x.container[m] = true
			st.mem[m] = x.mapSet(x.content(st, m), k, v)
		case *ssa.MakeSlice:
			n := x.val(fr, st, in.Len)
			elem := in.Type().Underlying().(*types.Slice).Elem()
			var c *Term
			if k, ok := n.intVal(); ok && k >= 0 && k <= 64 {
				args := make([]*Term, k)
				for j := range args {
					args[j] = x.Zero(elem)
				}
				c = u.raw("list", "", args...)
			} else {
				c = u.raw("mklist", "", n, x.Zero(elem))
			}
			o := x.newObj(st, "l", c, in.Type())
			x.madeLen[o] = n
			fr.env[in] = o
		case *ssa.MakeChan:
			et := in.Type().Underlying().(*types.Chan).Elem()
			if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && x.C.Module(n.Obj().Pkg().Path()) {
				et = et.Underlying()
			}
			c := x.effCall(st, "makechan "+typeName(et), []*Term{x.val(fr, st, in.Size)})
			fr.env[in] = u.Proj(c, "0")
		case *ssa.MakeClosure:
			f := in.Fn.(*ssa.Function)
			args := []*Term{}
			for _, bnd := range in.Bindings {
				args = append(args, x.val(fr, st, bnd))
			}
			fr.env[in] = u.raw("closure", x.fnKey(f), args...)
		case *ssa.TypeAssert:
			v := x.val(fr, st, in.X)
			tn := x.assertName(in.AssertedType)
			if v.Op == "iface" && types.IsInterface(in.AssertedType) {
				if t := x.ifaceTypes()[v.Aux]; t != nil && !types.IsInterface(t) {
					ok := types.Implements(t, in.AssertedType.Underlying().(*types.Interface))
					if ok && in.CommaOk {
						fr.env[in] = u.raw("tuple", "", v, u.Bool(true))
						continue
					}
					if ok {
						fr.env[in] = v
						continue
					}
					if in.CommaOk {
						fr.env[in] = u.raw("tuple", "", x.Zero(in.AssertedType), u.Bool(false))
						continue
					}
				}
			}
			if in.CommaOk {
				var val *Term
				is := u.TypeIs(v, tn)
				if is.Op == "false" {
					val = x.Zero(in.AssertedType)
				} else {
					val = u.As(v, tn)
					if u.asZero == nil {
						u.asZero = map[string]*Term{}
					}
					u.asZero[tn] = x.Zero(in.AssertedType)
					if types.IsInterface(in.AssertedType) {
						val = u.Ite(is, val, u.Nil())
					}
				}
				fr.env[in] = u.raw("tuple", "", val, is)
				continue
			}
			is := u.TypeIs(v, tn)
			if is.Op == "true" {
				fr.env[in] = u.As(v, tn)
				continue
			}
			fr2, st2 := fr.clone(), st.clone()
			fr.env[in] = u.As(v, tn)
			ok := x.instrs(fr, b, i+1, st)
			bad := x.doPanic(fr2, st2, u.raw("assertfail", tn, x.freeze(st2, v)))
			return u.Ite(is, ok, bad)
		case *ssa.Extract:
			t := x.val(fr, st, in.Tuple)
			fr.env[in] = u.Proj(t, strconv.Itoa(in.Index))
		case *ssa.Range:
			kind := "m"
			if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				kind = "s"
			}
			fr.env[in] = u.raw("iter", kind, x.freeze(st, x.content(st, x.val(fr, st, in.X))))
		case *ssa.Next:
			it := x.val(fr, st, in.Iter)
			if nat := x.natLoops(fr.fn)[b]; nat != nil && (len(fr.loops) == 0 || fr.loops[len(fr.loops)-1].nat != nat) && fr.unroll[nat] > 0 {
				panic(unrollFail{nat, fr.fid})
			}
			if len(fr.loops) == 0 || fr.loops[len(fr.loops)-1].nat.header != b {
				fail("iteration outside of a loop")
			}
			l := fr.loops[len(fr.loops)-1]
			l.iter = it
			if it.Op == "iter" && it.Aux == "m" {
				if u.rangeOf == nil {
					u.rangeOf = map[string]*Term{}
				}
				u.rangeOf[l.tok+".key"] = it.Args[0]
			}
			fr.env[in] = u.raw("tuple", "", boolTok(u, l.tok+".more"), u.raw("tok", l.tok+".key"), u.raw("tok", l.tok+".val"))
		case *ssa.Store:
			a := x.val(fr, st, in.Addr)
			v := x.val(fr, st, in.Val)
			if isBoolType(in.Val.Type()) && v.Op != "true" && v.Op != "false" {
				i := i
				return x.splitOn(fr, st, v, func(fr *frame, st *state, v *Term) *Term {
					x.store(st, a, v, in.Addr.Type())
					return x.instrs(fr, b, i+1, st)
				})
			}
			x.store(st, a, v, in.Addr.Type())
			if x.C.Mutable != nil && a.Op == "fieldaddr" && !a.hasObj() {
				// a visible write
				bt := x.objType[a]
				if bt != nil && x.C.Mutable(typeName(bt), fieldName(a.Aux)) {
					delete(st.mem, rootOf(a))
					c := x.effCall(st, "write:"+fieldName(a.Aux), []*Term{a.Args[0], x.freeze(st, v)})
					st.epoch++
					return u.Eff(c, x.instrs(fr, b, i+1, st))
				}
			}
		case *ssa.Send:
			c := x.effCall(st, "send", []*Term{x.freeze(st, x.val(fr, st, in.Chan)), x.freeze(st, x.val(fr, st, in.X))})
			return u.Eff(c, x.instrs(fr, b, i+1, st))
		case *ssa.Select:
			type selcase struct {
				t    *Term
				k    int // position in the source
				recv int // position among the received values
			}
			var cases []selcase
			recvs := 0
			for k, s := range in.States {
				ch := x.freeze(st, x.val(fr, st, s.Chan))
				sc := selcase{k: k, recv: -1}
				if s.Dir == types.SendOnly {
					sc.t = u.raw("sendcase", "", ch, x.freeze(st, x.val(fr, st, s.Send)))
				} else {
					sc.t = u.raw("recvcase", "", ch)
					sc.recv = recvs
					recvs++
				}
				cases = append(cases, sc)
			}
			sort.SliceStable(cases, func(i, j int) bool { return cases[i].t.String() < cases[j].t.String() })
			args := []*Term{u.Bool(in.Blocking)}
			for _, sc := range cases {
				args = append(args, sc.t)
			}
			c := x.effCall(st, "select", args)
			ps := make([]*Term, 2+recvs)
			chosen := u.Proj(c, "0")
			var idx *Term
			for j := len(cases) - 1; j >= 0; j-- {
				n := u.Num(cases[j].k)
				switch {
				case idx != nil:
					idx = u.Ite(u.Eq(chosen, u.Num(j)), n, idx)
				case in.Blocking:
					idx = n
				default:
					idx = u.Ite(u.Eq(chosen, u.Num(j)), n, u.Num(-1))
				}
				if r := cases[j].recv; r >= 0 {
					ps[2+r] = u.Proj(c, "v"+strconv.Itoa(j))
				}
			}
			if idx == nil {
				idx = u.Num(-1)
			}
			ps[0], ps[1] = idx, u.Proj(c, "1")
			fr.env[in] = u.raw("tuple", "", ps...)
			return u.Eff(c, x.instrs(fr, b, i+1, st))
		case *ssa.Go:
			lam := x.goTerm(fr, st, &in.Call)
			c := x.effCall(st, "go", []*Term{lam})
			return u.Eff(c, x.instrs(fr, b, i+1, st))
		case *ssa.Defer:
			if len(fr.loops) > 0 {
				fail("%s: defer in a loop", fr.fn)
			}
			d := &deferred{call: &in.Call, instr: in}
			if in.Call.IsInvoke() {
				d.fn = x.val(fr, st, in.Call.Value)
			} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			i := i
			return x.runDefers(fr, st, func(fr *frame, st *state) *Term {
				return x.instrs(fr, b, i+1, st)
			})
		case *ssa.Call:
			i := i
			if n := len(fr.loops); n == 1 && fr.loops[0].nat.tail && in.Call.StaticCallee() == fr.fn {
				var vals []*Term
				for _, a := range in.Call.Args {
					vals = append(vals, x.val(fr, st, a))
				}
				return fr.loops[0].back(fr, st, vals)
			}
			args := []*Term{}
			for _, a := range in.Call.Args {
				args = append(args, x.val(fr, st, a))
			}
			var fv *Term
			if in.Call.IsInvoke() {
				fv = x.val(fr, st, in.Call.Value)
			} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				fv = x.val(fr, st, in.Call.Value)
			}
			return x.doCall(fr, st, &in.Call, fv, args, func(fr *frame, st *state, res []*Term) *Term {
				switch in.Call.Signature().Results().Len() {
				case 0:
					if _, ok := in.Call.Value.(*ssa.Builtin); ok && len(res) == 1 {
						fr.env[in] = res[0]
					} else {
						fr.env[in] = u.raw("tuple", "")
					}
				case 1:
					fr.env[in] = res[0]
				default:
					fr.env[in] = u.raw("tuple", "", res...)
				}
				return x.instrs(fr, b, i+1, st)
			})
		case *ssa.If:
			c := x.val(fr, st, in.Cond)
			if n := len(fr.loops); n > 0 && fr.loops[n-1].nat.header == b {
				fr.loops[n-1].cond = c
				fr.loops[n-1].condEnv = fr
			}
			switch c.Op {
			case "true":
				return x.block(fr, b.Succs[0], b, st)
			case "false":
				return x.block(fr, b.Succs[1], b, st)
			}
			if nat := x.natLoops(fr.fn)[b]; nat != nil && fr.unroll[nat] > 0 {
				if n := len(fr.loops); n == 0 || fr.loops[n-1].nat != nat {
					panic(unrollFail{nat, fr.fid})
				}
			}
			fr2, st2 := fr.clone(), st.clone()
			x.assume(fr, st, c, true)
			x.assume(fr2, st2, c, false)
			t := x.block(fr, b.Succs[0], b, st)
			e := x.block(fr2, b.Succs[1], b, st2)
			return u.Ite(c, t, e)
		case *ssa.Jump:
			return x.block(fr, b.Succs[0], b, st)
		case *ssa.Return:
			res := make([]*Term, len(in.Results))
			for j, r := range in.Results {
				res[j] = x.val(fr, st, r)
			}
			if n := len(fr.loops); n > 0 {
				return fr.loops[n-1].exitRet(fr, st, res)
			}
			return fr.k.ret(st, res)
		case *ssa.Panic:
			return x.doPanic(fr, st, x.freeze(st, x.val(fr, st, in.X)))
		default:
			fail("%s: instruction %T", fr.fn, in)
		}
	}
	fail("block without a terminator")
	return nil
}

func boolTok(u *U, name string) *Term {
	t := u.raw("tok", name)
	t.isBool = true
	return t
}

func rootOf(a *Term) *Term {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" {
		a = a.Args[0]
	}
	return a
}

func zeroKey(z *Term) string {
	switch z.Op {
	case "nil":
		return "nil"
	case "str":
		return "str"
	case "num":
		return "num"
	case "false":
		return "false"
	}
	return z.Op + z.Aux
}

func (x *Exec) unzero(l *Term, t types.Type) *Term {
	if l.Op == "zero" {
		return x.Zero(t)
	}
	return l
}

func (x *Exec) mapSet(m, k, v *Term) *Term { return x.U.mapSet(m, k, v) }

func (u *U) mapSet(m, k, v *Term) *Term {
	if m.Op == "mapset" && m.Args[1] == k {
		m = m.Args[0]
	}
	// canonical order of constant keys
	if m.Op == "mapset" && m.Args[1].isConst() && k.isConst() && m.Args[1].Op == k.Op && m.Args[1].Aux > k.Aux {
		return u.raw("mapset", "", u.mapSet(m.Args[0], k, v), m.Args[1], m.Args[2])
	}
	return u.raw("mapset", "", m, k, v)
}

// assume narrows the environment on a branch.
func (x *Exec) assume(fr *frame, st *state, c *Term, val bool) {
	// Only equalities with constants and type tests make later code simpler;
	// the rest is left to the decision diagram.
	for c.Op == "not" {
		c, val = c.Args[0], !val
	}
	for v, t := range fr.env {
		if t == c {
			fr.env[v] = x.U.Bool(val)
			continue
		}
		if len(t.Args) > 0 && len(t.Args) < 20 && t.size < 2000 {
			fr.env[v] = x.U.Assume(t, c, val)
		}
	}
	for r, t := range st.mem {
		if t == c {
			st.mem[r] = x.U.Bool(val)
		}
	}
}

func (x *Exec) splitOn(fr *frame, st *state, v *Term, k func(fr *frame, st *state, v *Term) *Term) *Term {
	fr2, st2 := fr.clone(), st.clone()
	t := k(fr, st, x.U.Bool(true))
	e := k(fr2, st2, x.U.Bool(false))
	return x.U.Ite(v, t, e)
}

func (x *Exec) assertName(t types.Type) string {
	if n, ok := t.(*types.Named); ok && x.C.Structural && types.IsInterface(t) && n.Obj().Pkg() != nil && x.C.Module(n.Obj().Pkg().Path()) {
		t = t.Underlying()
	}
	if types.IsInterface(t) {
		return "~iface:" + typeName(t)
	}
	return typeName(t)
}

func (x *Exec) binop(in *ssa.BinOp, a, b *Term, st *state) *Term {
	u := x.U
	isStr := false
	if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		// nil comparisons of tracked objects
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1].Op == "nil" && p[0].Op == "obj" {
				c := u.Bool(false)
				if in.Op == token.NEQ {
					c = u.Bool(true)
				}
				return c
			}
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			t := a
			if t.Op == "nil" {
				t = b
			}
			c := u.Eq(u.Len(x.content(st, t), "l"), u.Num(0))
			if in.Op == token.NEQ {
				c = u.Not(c)
			}
			return c
		}
	}
	switch in.Op {
	case token.ADD:
		if isStr {
			return u.Cat(a, b)
		}
		return u.Add(a, b)
	case token.SUB:
		return u.arith("sub", a, b)
	case token.MUL:
		return u.arith("mul", a, b)
	case token.QUO:
		return u.arith("quo", a, b)
	case token.REM:
		return u.arith("rem", a, b)
	case token.EQL:
		return u.Eq(a, b)
	case token.NEQ:
		return u.Not(u.Eq(a, b))
	case token.LSS:
		return u.Lt(a, b)
	case token.GTR:
		return u.Lt(b, a)
	case token.LEQ:
		return u.Not(u.Lt(b, a))
	case token.GEQ:
		return u.Not(u.Lt(a, b))
	}
	return u.raw("binop", in.Op.String(), a, b)
}

func (x *Exec) convert(st *state, v *Term, from, to types.Type) *Term {
	u := x.U
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Kind() == tb.Kind() {
			return v
		}
		return u.Conv(v, tb.Name())
	}
	if _, ok := tu.(*types.Slice); ok && fok {
		elem := typeName(tu.(*types.Slice).Elem().Underlying())
		if elem == "uint8" || elem == "byte" {
			return u.Conv(v, "[]byte")
		}
		return u.Conv(v, "[]rune")
	}
	if s, ok := fu.(*types.Slice); ok && tok {
		c := x.content(st, v)
		_ = s
		if c.Op == "conv" && c.Aux == "[]byte" {
			return c.Args[0]
		}
		return u.Conv(c, "string")
	}
	return u.Conv(v, typeName(to))
}

func (x *Exec) slice(fr *frame, st *state, in *ssa.Slice) *Term {
	u := x.U
	v := x.val(fr, st, in.X)
	lo, hi := u.Num(0), u.Nil()
	if in.Low != nil {
		lo = x.val(fr, st, in.Low)
	}
	if in.High != nil {
		hi = x.val(fr, st, in.High)
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		return u.Slice(v, lo, hi, "s")
	case *types.Pointer:
		if lo.Op == "num" && lo.Aux == "0" && hi.Op == "nil" {
			return v
		}
		// make([]T, n) with a constant capacity
		if n, ok := hi.intVal(); ok {
			if arr, ok2 := t.Elem().Underlying().(*types.Array); ok2 && lo.Aux == "0" && v.Op == "obj" && (n == 0 || int64(n) == arr.Len()) {
				c := x.load(st, v, nil)
				if c.Op == "list" {
					return x.newObj(st, "l", u.raw("list", "", c.Args[:n]...), in.Type())
				}
			}
		}
		return u.Slice(x.load(st, v, nil), lo, hi, "l")
	}
	if in.Low == nil && in.High == nil {
		return v
	}
	return u.Slice(x.content(st, v), lo, hi, "l")
}

func (x *Exec) doPanic(fr *frame, st *state, v *Term) *Term {
	if len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		return l.exitPanic(fr, st, v)
	}
	st.pan = v
	return x.runDefers(fr, st, func(fr *frame, st *state) *Term {
		if st.pan == nil {
			// recovered
			if fr.fn.Recover != nil {
				return x.block(fr, fr.fn.Recover, nil, st)
			}
			res := []*Term{}
			for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
				res = append(res, x.Zero(fr.fn.Signature.Results().At(i).Type()))
			}
			return fr.k.ret(st, res)
		}
		return fr.k.pan(st, st.pan)
	})
}

func (x *Exec) runDefers(fr *frame, st *state, k func(fr *frame, st *state) *Term) *Term {
	if len(fr.defers) == 0 {
		return k(fr, st)
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	return x.doCall(fr, st, d.call, d.fn, d.args, func(fr *frame, st *state, _ []*Term) *Term {
		return x.runDefers(fr, st, k)
	})
}

// effCall makes the term of an effect, numbered by its occurrence.
func (x *Exec) effCall(st *state, name string, args []*Term) *Term {
	u := x.U
	for _, tk := range st.iter {
		args = append(args, u.raw("tok", tk+".it"))
	}
	c := u.raw("call", name, args...)
	n := st.occ[c]
	st.occ[c] = n + 1
	r := u.raw("do", name+"#"+strconv.Itoa(n), args...)
	return r
}
