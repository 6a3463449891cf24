package vg

import (
	"fmt"
	"go/types"
	"hash"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont = func(fr *frame, st *state, res []*Term) *Term

// doCall performs a call and continues with k.
func (x *Exec) doCall(fr *frame, st *state, c *ssa.CallCommon, fv *Term, args []*Term, k kont) *Term {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c, args, k)
	}
	if c.IsInvoke() {
		recv := fv
		if recv.Op == "iface" || recv.Op == "obj" {
			if f := x.lookupMethod(recv, c.Method); f != nil {
				a := append([]*Term{recv.Args[0]}, args...)
				return x.callFn(fr, st, f, nil, a, c, k)
			}
		}
		name := "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()
		if m := c.Method.FullName(); m != "" {
			name = m
		}
		if x.C.Structural && c.Method.Pkg() != nil && x.C.Module(c.Method.Pkg().Path()) {
			name = "(interface)." + c.Method.Name()
		}
		return x.external(fr, st, name, c.Signature(), append([]*Term{recv}, args...), k)
	}
	switch fv.Op {
	case "func":
		if f := fnTable[fv.Aux]; f != nil {
			return x.callFn(fr, st, f, nil, args, c, k)
		}
	case "closure":
		if f := fnTable[fv.Aux]; f != nil {
			return x.callFn(fr, st, f, fv.Args, args, c, k)
		}
	}
	if fv.Op == "ite" {
		return x.splitOn(fr, st, fv.Args[0], func(fr *frame, st *state, v *Term) *Term {
			if v.Op == "true" {
				return x.doCall(fr, st, c, fv.Args[1], args, k)
			}
			return x.doCall(fr, st, c, fv.Args[2], args, k)
		})
	}
	return x.external(fr, st, "dyn", c.Signature(), append([]*Term{fv}, args...), k)
}

func (x *Exec) lookupMethod(recv *Term, m *types.Func) *ssa.Function {
	t := x.ifaceTypes()[recv.Aux]
	if t == nil {
		return nil
	}
	sel := x.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.Prog.MethodValue(sel)
}

var ifaceTypeMemo = map[*ssa.Program]map[string]types.Type{}

// ifaceTypes maps names to the concrete types that are made into interfaces.
func (x *Exec) ifaceTypes() map[string]types.Type {
	if m, ok := ifaceTypeMemo[x.Prog]; ok {
		return m
	}
	m := map[string]types.Type{}
	for _, t := range x.Prog.RuntimeTypes() {
		m[typeName(t)] = t
	}
	ifaceTypeMemo[x.Prog] = m
	return m
}

func (x *Exec) kindOf(f *ssa.Function, name string) Kind {
	if x.C.Classify != nil {
		if k := x.C.Classify(name); k != Default {
			return k
		}
	}
	return Default
}

func (x *Exec) callFn(fr *frame, st *state, f *ssa.Function, fvs, args []*Term, c *ssa.CallCommon, k kont) *Term {
	name := x.name(FuncName(f))
	kind := x.kindOf(f, name)
	if kind == Below {
		kind = Pure
		if n := fr.fn.Name(); strings.HasPrefix(n, "root") {
			kind = Inline
		}
	}
	inModule := false
	if f.Pkg != nil && x.C.Module != nil && x.C.Module(f.Pkg.Pkg.Path()) {
		inModule = true
	} else if f.Pkg == nil && f.Origin() != nil && f.Origin().Pkg != nil && x.C.Module(f.Origin().Pkg.Pkg.Path()) {
		inModule = true
	} else if f.Pkg == nil && f.Synthetic != "" && f.Blocks != nil {
		switch name {
		case "maps.Clone", "maps.Keys", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Sorted", "slices.Collect", "slices.Clone":
			// modelled as a whole
		default:
			inModule = true // wrappers, bound methods
		}
	}
	if kind == Inline || kind == Default && inModule && f.Blocks != nil {
		if kind == Default && len(f.FreeVars) == 0 && x.recursive(f) && !x.partner(fr, f) {
			return x.recCall(fr, st, f, args, k)
		}
		for _, g := range fr.stack {
			if g == f {
				return x.external(fr, st, name, f.Signature, append(append([]*Term(nil), args...), fvs...), k)
			}
		}
		memo := map[string]*Term{}
		kc := cont{
			ret: func(st *state, res []*Term) *Term {
				key := "r"
				for _, r := range res {
					key += strconv.Itoa(r.ID) + ","
				}
				key += st.sig()
				if r, ok := memo[key]; ok {
					return r
				}
				r := k(fr.clone(), st, res)
				memo[key] = r
				return r
			},
			pan: func(st *state, v *Term) *Term {
				return x.doPanic(fr.clone(), st, v)
			},
		}
		return x.call(f, args, fvs, st, kc, fr.stack)
	}
	if inModule {
		if g, bad := x.argGuard(fr, st, f, args); bad != nil {
			if g.Op == "true" {
				return bad
			}
			if len(fvs) > 0 {
				args = append(append([]*Term(nil), args...), fvs...)
			}
			return x.U.Ite(g, bad, x.external(fr, st, name, f.Signature, args, k))
		}
	}
	if len(fvs) > 0 {
		args = append(append([]*Term(nil), args...), fvs...)
	}
	return x.external(fr, st, name, f.Signature, args, k)
}

// textMethod is the method that package fmt calls to print a value of a type.
func (x *Exec) textMethod(typ string) *ssa.Function {
	t := x.ifaceTypes()[typ]
	if t == nil {
		return nil
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || x.C.Module == nil || !x.C.Module(n.Obj().Pkg().Path()) || types.IsInterface(t) {
		return nil
	}
	for _, name := range []string{"Format", "Error", "String"} {
		sel := x.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
		if sel == nil {
			continue
		}
		sig := sel.Type().(*types.Signature)
		if name == "Format" || sig.Params().Len() != 0 || sig.Results().Len() != 1 || typeName(sig.Results().At(0).Type()) != "string" {
			return nil
		}
		return x.Prog.MethodValue(sel)
	}
	return nil
}

// textArgs replaces arguments that are to be printed by what their methods return.
func (x *Exec) textArgs(fr *frame, st *state, name string, sig *types.Signature, args []*Term, k kont) (*Term, bool) {
	if len(args) < 2 || args[len(args)-2].Op != "str" {
		return nil, false
	}
	f := args[len(args)-2].Aux
	for i := 0; i < len(f); i++ {
		if f[i] == '%' {
			i++
			if i >= len(f) || !strings.ContainsRune("svq%", rune(f[i])) {
				return nil, false
			}
		}
	}
	l := x.freezeArg(fr, st, args[len(args)-1])
	if l.Op != "list" {
		return nil, false
	}
	for i, a := range l.Args {
		if a.Op != "iface" {
			continue
		}
		m := x.textMethod(a.Aux)
		if m == nil || m.Blocks == nil {
			continue
		}
		return x.callFn(fr, st, m, nil, a.Args, nil, func(fr *frame, st *state, res []*Term) *Term {
			l2 := append([]*Term(nil), l.Args...)
			l2[i] = x.U.Iface("string", res[0])
			args := append([]*Term(nil), args...)
			args[len(args)-1] = x.U.raw("list", l.Aux, l2...)
			return x.external(fr, st, name, sig, args, k)
		}), true
	}
	return nil, false
}

// plainText returns a value of a type whose method returns it as it is.
func (x *Exec) plainText(typ string, v *Term) *Term {
	m := x.textMethod(typ)
	if m == nil || len(m.Blocks) != 1 || len(m.Params) != 1 {
		return nil
	}
	in := m.Blocks[0].Instrs
	r, ok := in[len(in)-1].(*ssa.Return)
	if !ok {
		return nil
	}
	switch c := r.Results[0].(type) {
	case *ssa.ChangeType:
		if c.X == m.Params[0] && len(in) == 2 {
			return v
		}
	case *ssa.Convert:
		if b, ok := c.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && c.X == m.Params[0] && len(in) == 2 {
			return v
		}
	}
	return nil
}

// external performs a call to a function whose body is not analysed.
func (x *Exec) external(fr *frame, st *state, name string, sig *types.Signature, args []*Term, k kont) *Term {
	u := x.U
	name = x.name(name)
	if name == "fmt.Sprintf" || name == "fmt.Fprintf" {
		if r, ok := x.textArgs(fr, st, name, sig, args, k); ok {
			return r
		}
	}
	kind := Default
	if x.C.Classify != nil {
		kind = x.C.Classify(name)
	}
	if kind == Below {
		kind = Pure
	}
	if k, ok := x.recKind[name]; ok {
		kind = k
	}
	if kind == Default {
		if handled, r := x.known(fr, st, name, sig, args, k); handled {
			return r
		}
		kind = defaultKind(name)
	}
	x.Calls[name]++
	// split on boolean arguments
	for i, a := range args {
		pi := i - (len(args) - sig.Params().Len())
		if pi >= 0 && pi < sig.Params().Len() && isBoolType(sig.Params().At(pi).Type()) && a.Op != "true" && a.Op != "false" {
			return x.splitOn(fr, st, a, func(fr *frame, st *state, v *Term) *Term {
				args := append([]*Term(nil), args...)
				args[i] = v
				return x.external(fr, st, name, sig, args, k)
			})
		}
	}
	switch name {
	case "flag.Args", "flag.NArg", "flag.Arg":
		// what the last call of flag.Parse has left
		n, own := 0, true
		for c, m := range st.occ {
			switch c.Aux {
			case "flag.Parse":
				n += m
			case "(*flag.FlagSet).Parse":
				own = false
			}
		}
		if n > 0 && own {
			res := u.raw("call", "flag.Args", u.Num(n))
			switch name {
			case "flag.NArg":
				res = u.Len(res, "l")
			case "flag.Arg":
				res = u.Ite(u.Lt(args[0], u.Len(res, "l")), u.Index(res, args[0]), u.Str(""))
			}
			return k(fr, st, []*Term{res})
		}
	case "net/http.NewRequestWithContext":
		if len(args) == 4 && (args[0].Op == "call" && args[0].Aux == "context.Background" || args[0].Op == "iface" && args[0].Args[0].Op == "call" && args[0].Args[0].Aux == "context.Background") {
			return x.external(fr, st, "net/http.NewRequest", sig, args[1:], k)
		}
		if args[len(args)-1] == u.raw("iface", "net/http.noBody", u.raw("gval", "net/http.NoBody")) {
			args = append(append([]*Term(nil), args[:len(args)-1]...), u.Nil())
		}
	case "net/http.NewRequest":
		if args[len(args)-1] == u.raw("iface", "net/http.noBody", u.raw("gval", "net/http.NoBody")) {
			args = append(append([]*Term(nil), args[:len(args)-1]...), u.Nil())
		}
	}
	// choices between arguments are made before the call
	for i, a := range args {
		if a.Op == "ite" && !a.isBool {
			return x.splitOn(fr, st, a.Args[0], func(fr *frame, st *state, v *Term) *Term {
				args := append([]*Term(nil), args...)
				args[i] = a.Args[1]
				if v.Op == "false" {
					args[i] = a.Args[2]
				}
				return x.external(fr, st, name, sig, args, k)
			})
		}
	}
	fargs := make([]*Term, len(args))
	hasLam := false
	var lamRoots []*Term
	for i, a := range args {
		if a.Op == "closure" || a.Op == "iface" && len(a.Args) == 1 && a.Args[0].Op == "closure" {
			hasLam = true
			l, roots := x.lam(fr, st, a)
			lamRoots = append(lamRoots, roots...)
			fargs[i] = l
		} else {
			fargs[i] = x.freezeArg(fr, st, a)
		}
	}
	_ = hasLam
	nres := sig.Results().Len()
	results := func(c *Term) []*Term {
		res := make([]*Term, nres)
		if nres > 1 && types.Identical(sig.Results().At(nres-1).Type(), types.Universe.Lookup("error").Type()) {
			x.errPos[c.Aux] = strconv.Itoa(nres - 1)
		}
		if nres == 1 {
			res[0] = c
			if c.Op == "do" {
				res[0] = u.Proj(c, "0")
			}
		} else {
			for i := range res {
				res[i] = u.Proj(c, strconv.Itoa(i))
			}
		}
		return res
	}
	switch kind {
	case Ignore:
		res := make([]*Term, nres)
		for i := range res {
			res[i] = x.Zero(sig.Results().At(i).Type())
		}
		return k(fr, st, res)
	case Pure:
		c := u.CallTerm(name, fargs...)
		for i, r := range lamRoots {
			st.mem[r] = u.raw("proj", "m"+strconv.Itoa(i), c)
		}
		res := results(c)
		if nres == 1 && isBoolType(sig.Results().At(0).Type()) {
			res[0].isBool = true
		}
		return k(fr, st, res)
	}
	c := x.effCall(st, name, fargs)
	for i, r := range lamRoots {
		st.mem[r] = u.raw("proj", "m"+strconv.Itoa(i), c)
	}
	x.havoc(st, c, args)
	st.epoch++
	if kind == Divert {
		return u.Eff(c, u.raw("exitcall", ""))
	}
	if x.C.Panics != nil && x.C.Panics(name) {
		p := u.raw("panicked", "", c)
		p.isBool = true
		fr2, st2 := fr.clone(), st.clone()
		ok := k(fr, st, results(c))
		bad := x.doPanic(fr2, st2, u.raw("panicval", "", c))
		return u.Eff(c, u.Ite(p, bad, ok))
	}
	return u.Eff(c, k(fr, st, results(c)))
}

// freezeArg freezes an argument; closures nested in it are summarised.
func (x *Exec) freezeArg(fr *frame, st *state, a *Term) *Term {
	t := x.freeze(st, a)
	m := map[*Term]*Term{}
	Walk(t, func(s *Term) bool {
		if s.Op == "closure" {
			l, _ := x.lam(fr, st, s)
			m[s] = l
			return false
		}
		return true
	})
	if len(m) > 0 {
		t = x.U.Subst(t, m)
		t = x.freeze(st, t)
	}
	return t
}

// havoc forgets objects passed by pointer to an effect.
func (x *Exec) havoc(st *state, c *Term, args []*Term) {
	for i, a := range args {
		if a.Op == "iface" {
			a = a.Args[0]
		}
		if a.Op == "obj" {
			st.mem[a] = x.U.raw("mut", strconv.Itoa(i), c)
		}
	}
}

func defaultKind(name string) Kind {
	if isPure(name) {
		return Pure
	}
	return Effect
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "go/ast.", "go/token.", "go/types.", "errors.", "github.com/pkg/errors.", "slices.", "maps.", "net/url.", "math.", "cmp.", "bytes.", "html.", "regexp.", "math/bits.", "reflect."}

var pureFuncs = map[string]bool{
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Ext": true,
	"path/filepath.Clean": true, "path/filepath.Rel": true, "path/filepath.IsAbs": true, "path/filepath.ToSlash": true,
	"path/filepath.FromSlash": true, "path/filepath.Split": true, "path/filepath.SplitList": true, "path/filepath.VolumeName": true,
	"path/filepath.Match":           true,
	"golang.org/x/text/cases.Title": true, "(golang.org/x/text/cases.Caser).String": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"(error).Error": true, "(go/ast.Node).Pos": true, "(go/ast.Node).End": true, "(go/ast.Expr).Pos": true, "(go/ast.Expr).End": true,
	"os.IsNotExist": true, "os.IsExist": true, "time.Duration.Seconds": true, "(time.Duration).Seconds": true,
	"(time.Duration).String": true, "(time.Duration).Milliseconds": true, "(fmt.Stringer).String": true,
	"(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).After": true, "(time.Time).Before": true, "(time.Time).Equal": true, "(time.Time).IsZero": true,
	"text/template.New": true, "(*text/template.Template).Funcs": true, "(*text/template.Template).Parse": true,
	"(*text/template.Template).Option": true, "sort.StringsAreSorted": true,
	"github.com/Masterminds/sprig/v3.FuncMap": true, "github.com/Masterminds/sprig/v3.TxtFuncMap": true,
	"(*golang.org/x/tools/go/packages.Package).String": true,
	"go/parser.ParseExpr":                              true, "go/parser.ParseExprFrom": true,
	"context.Background": true, "context.TODO": true,
	"(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).IsDir": true,
}

func isPure(name string) bool {
	if pureFuncs[name] {
		return true
	}
	n := strings.TrimLeft(name, "(*")
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			rest := n[len(p):]
			if p == "bytes." && (strings.HasPrefix(rest, "Buffer") || strings.HasPrefix(rest, "Reader")) {
				return false
			}
			if p == "strings." && (strings.HasPrefix(rest, "Builder") || strings.HasPrefix(rest, "Reader")) {
				return false
			}
			return true
		}
	}
	return false
}

// busyLam is a closure that is being summarised.
type busyLam struct {
	tok     string
	changed []*Term
}

// lam summarises a closure that is passed to code outside of the analysis.
func (x *Exec) lam(fr *frame, st *state, a *Term) (*Term, []*Term) {
	u := x.U
	wrap := ""
	if a.Op == "iface" {
		wrap = a.Aux
		a = a.Args[0]
	}
	f := fnTable[a.Aux]
	if f == nil {
		return x.freeze(st, a), nil
	}
	for _, g := range fr.stack {
		if g == f {
			// what the closure changes is that of the run being summarised
			b := x.busyLam[f]
			if b == nil {
				return u.raw("reclam", "", u.raw("func", a.Aux)), nil
			}
			l := []*Term{u.raw("tok", b.tok+".self")}
			for _, r := range b.changed {
				l = append(l, x.freeze(st, x.load(st, r, nil)))
			}
			return u.raw("reclam", "", l...), b.changed
		}
	}
	// objects the closure changes
	changed := []*Term{}
	var body *Term
	tok := u.fresh("F")
	outer := x.busyLam[f]
	defer func() { x.busyLam[f] = outer }()
	for round := 0; ; round++ {
		x.busyLam[f] = &busyLam{tok, changed}
		if round > 5 {
			fail("%s: closure does not stabilise", f)
		}
		var args []*Term
		for i := range f.Params {
			args = append(args, u.raw("tok", tok+".p"+strconv.Itoa(i)))
		}
		st2 := st.clone()
		st2.occ = map[*Term]int{}
		st2.epoch = 0
		for i, r := range changed {
			st2.mem[r] = u.raw("tok", tok+".m"+strconv.Itoa(i))
		}
		st2.iter = nil
		before := st2.clone()
		more := map[*Term]bool{}
		finish := func(op string) func(st3 *state, res []*Term) *Term {
			return func(st3 *state, res []*Term) *Term {
				var out []*Term
				for _, r := range res {
					out = append(out, x.freeze(st3, r))
				}
				for r, c := range st3.mem {
					if b, ok := before.mem[r]; ok && b != c || !ok && r.Op != "obj" {
						more[r] = true
					}
				}
				for _, r := range changed {
					out = append(out, x.freeze(st3, st3.mem[r]))
				}
				return x.splitLeaf(op, out, f.Signature.Results())
			}
		}
		k := cont{ret: finish("ret"), pan: func(st3 *state, v *Term) *Term { return finish("panic")(st3, []*Term{v}) }}
		body = x.call(f, args, a.Args, st2, k, fr.stack)
		n := 0
		for r := range more {
			known := false
			for _, c := range changed {
				if c == r {
					known = true
				}
			}
			if !known {
				n++
			}
		}
		if n == 0 {
			break
		}
		var add []*Term
		for r := range more {
			known := false
			for _, c := range changed {
				if c == r {
					known = true
				}
			}
			if !known {
				add = append(add, r)
			}
		}
		sort.Slice(add, func(i, j int) bool { return add[i].ID < add[j].ID })
		changed = append(changed, add...)
	}
	body = x.freeze(st, body)
	inits := []*Term{}
	for _, r := range changed {
		if st.mem[r] == nil {
			inits = append(inits, x.freeze(st, x.load(st, r, nil)))
			continue
		}
		inits = append(inits, x.freeze(st, st.mem[r]))
	}
	t := u.Mk("lam", tok, append([]*Term{body}, inits...)...)
	if wrap != "" {
		t = u.raw("iface", wrap, t)
	}
	return t, changed
}

// goTerm is the term of a started goroutine.
func (x *Exec) goTerm(fr *frame, st *state, c *ssa.CallCommon) *Term {
	u := x.U
	args := []*Term{}
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	var fv *Term
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.val(fr, st, c.Value)
	}
	// run the callee with its arguments as a closure without parameters
	var f *ssa.Function
	var fvs []*Term
	if fv != nil && (fv.Op == "func" || fv.Op == "closure") {
		f = fnTable[fv.Aux]
		fvs = fv.Args
	}
	if f == nil || f.Blocks == nil {
		t := u.raw("gocall", "", append([]*Term{x.freeze(st, fv)}, x.freezeAll(st, args)...)...)
		return t
	}
	st2 := st.clone()
	st2.occ = map[*Term]int{}
	st2.iter = nil
	k := cont{
		ret: func(st3 *state, res []*Term) *Term { return u.raw("ret", "") },
		pan: func(st3 *state, v *Term) *Term { return u.raw("panic", "", x.freeze(st3, v)) },
	}
	body := x.call(f, args, fvs, st2, k, fr.stack)
	return u.Mk("lam", u.fresh("F"), x.freeze(st, body))
}

func (x *Exec) freezeAll(st *state, l []*Term) []*Term {
	var r []*Term
	for _, a := range l {
		r = append(r, x.freeze(st, a))
	}
	return r
}

// builtin performs a call of a builtin function.
func (x *Exec) builtin(fr *frame, st *state, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, k kont) *Term {
	u := x.U
	one := func(t *Term) *Term { return k(fr, st, []*Term{t}) }
	switch b.Name() {
	case "len":
		v := args[0]
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return one(u.Len(v, "s"))
		case *types.Map:
			return one(u.Len(x.content(st, v), "m"))
		case *types.Slice:
			return one(u.Len(x.content(st, v), "l"))
		case *types.Pointer:
			return one(u.Num(int(t.Elem().Underlying().(*types.Array).Len())))
		}
		return one(u.raw("len", "c", v))
	case "cap":
		return one(u.raw("cap", "", x.freeze(st, x.content(st, args[0]))))
	case "append":
		a := x.content(st, args[0])
		bb := x.content(st, args[1])
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			bb = u.Conv(bb, "[]byte")
		}
		return one(u.LCat(a, bb))
	case "copy":
		d, s := x.content(st, args[0]), x.content(st, args[1])
		var nv *Term
		if u.Len(d, "l") == u.Len(s, "l") {
			nv = s
		} else {
			nv = u.raw("copied", "", d, s)
		}
		if args[0].Op == "obj" {
			st.mem[args[0]] = nv
		} else {
			fail("copy to a slice that is not tracked")
		}
		return one(u.raw("mincopy", "", u.Len(d, "l"), u.Len(s, "l")))
	case "delete":
		m := x.content(st, args[0])
		st.mem[args[0]] = u.raw("mapdel", "", m, args[1])
		return one(u.Nil())
	case "panic":
		return x.doPanic(fr, st, x.freeze(st, args[0]))
	case "recover":
		if st.pan != nil {
			v := st.pan
			st.pan = nil
			return one(v)
		}
		return one(u.Nil())
	case "close":
		cl := x.effCall(st, "close", []*Term{x.freeze(st, args[0])})
		st.epoch++
		return u.Eff(cl, one(u.Nil()))
	case "print", "println":
		cl := x.effCall(st, "builtin.print", x.freezeAll(st, args))
		return u.Eff(cl, one(u.Nil()))
	case "min", "max":
		return one(u.raw(b.Name(), "", args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "clear":
		fail("clear")
	}
	fail("builtin %s", b.Name())
	return nil
}

// copyMap is a map with all entries of another one.
func (x *Exec) copyMap(st *state, src, init *Term) *Term {
	u := x.U
	d := x.freeze(st, x.content(st, src))
	x.nObj++
	n := "COPY" + strconv.Itoa(x.nObj)
	return u.Mk("mmap", n, u.raw("maprange", "", d), u.raw("pair", "", u.raw("tok", n+".key"), u.raw("tok", n+".val")), init)
}

// inPlace notes that the elements of a slice value change.
func (x *Exec) inPlace(s *Term) {
	if s.Op != "obj" && s.Op != "param" {
		x.container[s] = true
	}
}

// buffer is the tracked string builder or buffer behind a value.
func (x *Exec) buffer(st *state, v *Term) *Term {
	for v.Op == "iface" {
		v = v.Args[0]
	}
	root := v
	for root.Op == "fieldaddr" {
		root = root.Args[0]
	}
	if root.Op == "obj" {
		t := x.objType[v]
		if v.Op == "obj" {
			t = x.objType[v]
		} else {
			t = nil
		}
		if v.Op == "fieldaddr" {
			bt := x.objType[v]
			if bt != nil {
				if s, ok := bt.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == v.Aux {
							t = s.Field(i).Type()
						}
					}
				}
			}
		}
		if t != nil {
			switch typeName(t) {
			case "strings.Builder", "bytes.Buffer":
				return v
			}
		}
	}
	return nil
}

// known models functions of the standard library.
func (x *Exec) known(fr *frame, st *state, name string, sig *types.Signature, args []*Term, k kont) (bool, *Term) {
	u := x.U
	yes := func(res ...*Term) (bool, *Term) { return true, k(fr, st, res) }
	n := name
	if i := strings.LastIndex(n, ")."); i >= 0 && (strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "(*strings.Builder)")) {
		if b := x.buffer(st, args[0]); b != nil {
			cur := x.load(st, b, nil)
			set := func(t *Term) { x.store(st, b, t, nil) }
			switch n[i+2:] {
			case "WriteString":
				set(u.Cat(cur, args[1]))
				return yes(u.Len(args[1], "s"), u.Nil())
			case "Write":
				c := x.content(st, args[1])
				set(u.Cat(cur, u.Conv(c, "string")))
				return yes(u.Len(c, "l"), u.Nil())
			case "WriteByte", "WriteRune":
				if v, ok := args[1].intVal(); ok {
					set(u.Cat(cur, u.Str(string(rune(v)))))
				} else {
					set(u.Cat(cur, u.Conv(args[1], "string")))
				}
				if n[i+2:] == "WriteByte" {
					return yes(u.Nil())
				}
				return yes(u.raw("runelen", "", args[1]), u.Nil())
			case "String":
				return yes(cur)
			case "Bytes":
				return yes(u.Conv(cur, "[]byte"))
			case "Len":
				return yes(u.Len(cur, "s"))
			case "Grow":
				return yes()
			case "Reset":
				set(u.Str(""))
				return yes()
			}
		} else if args[0].Op == "param" || args[0].Op == "sel" {
			return false, nil
		}
	}
	if kind := atomicOp(name); kind != "" {
		cell := -1
		for i, c := range st.cells {
			if c == args[0] {
				cell = i
			}
		}
		if cell < 0 {
			cell = len(st.cells)
			st.cells = append(st.cells[:cell:cell], args[0])
		}
		a := []*Term{u.raw("cell", strconv.Itoa(cell))}
		if r := rootOf(args[0]); r.Op != "obj" {
			a[0] = x.freeze(st, args[0])
		}
		for _, t := range args[1:] {
			a = append(a, x.freeze(st, t))
		}
		c := x.effCall(st, kind, a)
		res := []*Term{}
		for i := 0; i < sig.Results().Len(); i++ {
			p := u.Proj(c, strconv.Itoa(i))
			if isBoolType(sig.Results().At(i).Type()) {
				p.isBool = true
			}
			res = append(res, p)
		}
		return true, u.Eff(c, k(fr, st, res))
	}
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		c := x.content(st, args[0])
		var s *Term
		switch {
		case name == "bytes.NewBufferString":
			s = c
		case c.Op == "nil":
			s = u.Str("")
		default:
			s = u.Conv(c, "string")
		}
		o := x.newObj(st, "p", s, bufferType(sig))
		return yes(o)
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if b := x.buffer(st, args[0]); b != nil {
			var t *Term
			if name == "io.WriteString" {
				t = args[1]
			} else {
				a := make([]*Term, 0)
				for _, y := range args[1:] {
					a = append(a, x.freeze(st, x.content(st, y)))
				}
				t = u.CallTerm("fmt.S"+strings.TrimPrefix(name, "fmt.F"), a...)
			}
			x.store(st, b, u.Cat(x.load(st, b, nil), t), nil)
			return yes(u.raw("written", "", t), u.Nil())
		}
		// one kind of effect for all that writes to a writer
		var t *Term
		if name == "io.WriteString" {
			t = args[1]
		} else {
			a := make([]*Term, 0)
			for _, y := range args[1:] {
				a = append(a, x.freezeArg(fr, st, x.content(st, y)))
			}
			t = u.CallTerm("fmt.S"+strings.TrimPrefix(name, "fmt.F"), a...)
		}
		if t.Op == "call" {
			break
		}
		c := x.effCall(st, "write", []*Term{x.freeze(st, args[0]), t})
		st.epoch++
		return true, u.Eff(c, k(fr, st, []*Term{u.Proj(c, "0"), u.Proj(c, "1")}))
	case "(io.Writer).Write":
		c := x.effCall(st, "write", []*Term{x.freeze(st, args[0]), u.Conv(x.freeze(st, x.content(st, args[1])), "string")})
		st.epoch++
		return true, u.Eff(c, k(fr, st, []*Term{u.Proj(c, "0"), u.Proj(c, "1")}))
	case "go/printer.Fprint", "go/format.Node":
		if b := x.buffer(st, args[0]); b != nil {
			t := u.CallTerm("go/printer.Fprint", x.freeze(st, args[1]), x.freeze(st, args[2]))
			x.store(st, b, u.Cat(x.load(st, b, nil), u.Proj(t, "0")), nil)
			return yes(u.Proj(t, "1"))
		}
	case "io.Copy":
		if b := x.buffer(st, args[0]); b != nil {
			c := x.effCall(st, "io.ReadAll", []*Term{x.freeze(st, args[1])})
			x.store(st, b, u.Cat(x.load(st, b, nil), u.Conv(u.Proj(c, "0"), "string")), nil)
			return true, u.Eff(c, k(fr, st, []*Term{u.raw("ncopied", "", c), u.Proj(c, "1")}))
		}
	case "(*bytes.Buffer).ReadFrom":
		if b := x.buffer(st, args[0]); b != nil {
			c := x.effCall(st, "io.ReadAll", []*Term{x.freeze(st, args[1])})
			x.store(st, b, u.Cat(x.load(st, b, nil), u.Conv(u.Proj(c, "0"), "string")), nil)
			return true, u.Eff(c, k(fr, st, []*Term{u.raw("ncopied", "", c), u.Proj(c, "1")}))
		}
	case "maps.Copy":
		m := args[0]
		x.container[m] = true
		st.mem[m] = x.copyMap(st, args[1], x.content(st, m))
		return yes()
	case "maps.Clone":
		src := x.freeze(st, x.content(st, args[0]))
		return true, x.splitOn(fr, st, u.Eq(src, u.Nil()), func(fr *frame, st *state, v *Term) *Term {
			if v.Op == "true" {
				return k(fr, st, []*Term{u.Nil()})
			}
			return k(fr, st, []*Term{x.newObj(st, "m", x.copyMap(st, args[0], u.raw("mapempty", "")), sig.Results().At(0).Type())})
		})
	case "sort.Strings", "slices.Sort", "sort.Sort", "sort.Stable":
		s := args[0]
		if strings.HasPrefix(name, "sort.S") && name != "sort.Strings" && !(s.Op == "iface" && s.Aux == "sort.StringSlice") {
			fail("%s of %s", name, s.Op)
		}
		for s.Op == "iface" {
			s = s.Args[0]
		}
		c := x.freeze(st, x.content(st, s))
		x.inPlace(s)
		st.mem[s] = u.Sorted(c)
		return yes()
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		s := args[0]
		for s.Op == "iface" {
			s = s.Args[0]
		}
		c := x.freeze(st, x.content(st, s))
		tok := u.raw("tok", "SORT.elems")
		st2 := st.clone()
		st2.mem[s] = tok
		st2.mem[c] = tok
		l, _ := x.lam(fr, st2, args[1])
		if less := x.plainLess(l, tok); less {
			x.inPlace(s)
			st.mem[s] = u.Sorted(c)
		} else {
			x.inPlace(s)
			st.mem[s] = u.raw("sortedby", "", c, l)
		}
		return yes()
	case "strings.Cut":
		s, sep := args[0], args[1]
		f := u.foundAtom(s, sep)
		cut := u.raw("call", "strings.Cut", s, sep)
		return true, x.splitOn(fr, st, f, func(fr *frame, st *state, v *Term) *Term {
			if v.Op == "true" {
				return k(fr, st, []*Term{u.Proj(cut, "0"), u.Proj(cut, "1"), v})
			}
			return k(fr, st, []*Term{s, u.Str(""), v})
		})
	case "strings.SplitN":
		if n, ok := args[2].intVal(); ok && n == 2 && args[1].Op == "str" && args[1].Aux != "" {
			f := u.foundAtom(args[0], args[1])
			cut := u.raw("call", "strings.Cut", args[0], args[1])
			return true, x.splitOn(fr, st, f, func(fr *frame, st *state, v *Term) *Term {
				if v.Op == "true" {
					return k(fr, st, []*Term{u.raw("list", "", u.Proj(cut, "0"), u.Proj(cut, "1"))})
				}
				return k(fr, st, []*Term{u.raw("list", "", args[0])})
			})
		}
	case "strings.TrimPrefix", "strings.CutPrefix", "strings.TrimSuffix", "strings.CutSuffix", "strings.Replace":
		if len(args) >= 2 && args[1].Op == "str" && args[1].Aux != "" {
			pre := !strings.HasSuffix(name, "Suffix")
			if name == "strings.Replace" {
				if n, ok := args[3].intVal(); !ok || n != 1 {
					break
				}
			}
			f := u.CallTerm("strings.HasPrefix", args[0], args[1])
			if !pre {
				f = u.CallTerm("strings.HasSuffix", args[0], args[1])
			}
			return true, x.splitOn(fr, st, f, func(fr *frame, st *state, v *Term) *Term {
				n := len(args[1].Aux)
				rest := args[0]
				if v.Op == "true" {
					if pre {
						rest = u.Slice(args[0], u.Num(n), u.Nil(), "s")
					} else {
						rest = u.Slice(args[0], u.Num(0), u.Add(u.Len(args[0], "s"), u.Num(-n)), "s")
					}
				}
				if strings.HasPrefix(name, "strings.Cut") {
					return k(fr, st, []*Term{rest, v})
				}
				if name == "strings.Replace" {
					if v.Op == "true" {
						rest = u.Cat(args[2], rest)
					} else {
						rest = u.CallTerm(name, args...)
					}
				}
				return k(fr, st, []*Term{rest})
			})
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		if len(args) == 2 && !u.Guards {
			sep := args[1]
			if n, ok := sep.intVal(); ok && name != "strings.Index" {
				sep = u.Str(string(rune(n)))
			}
			if sep.Op == "str" {
				f := u.foundAtom(args[0], sep)
				return true, x.splitOn(fr, st, f, func(fr *frame, st *state, v *Term) *Term {
					if v.Op == "true" {
						cut := u.raw("call", "strings.Cut", args[0], sep)
						return k(fr, st, []*Term{u.Len(u.Proj(cut, "0"), "s")})
					}
					return k(fr, st, []*Term{u.Num(-1)})
				})
			}
		}
	case "os.Exit":
		c := x.effCall(st, name, args)
		return true, u.Eff(c, u.raw("exitcall", ""))
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		c := x.effCall(st, name, x.freezeAll(st, args))
		return true, u.Eff(c, u.raw("exitcall", ""))
	case "(*sync.WaitGroup).Go":
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		return yes(args[0])
	case "errors.As", "github.com/pkg/errors.As":
	case "errors.Is", "github.com/pkg/errors.Is":
		a, b := args[0], args[1]
		if a == b {
			return yes(u.Bool(true))
		}
		if a.Op == "nil" {
			return yes(u.Eq(a, b))
		}
		t := u.CallTerm(name, x.freeze(st, a), x.freeze(st, b))
		return yes(t)
	}
	return false, nil
}

// atomicOp gives one name to the functions and methods of sync/atomic.
func atomicOp(name string) string {
	if strings.HasPrefix(name, "sync/atomic.") {
		return "atomic." + name[len("sync/atomic."):]
	}
	if strings.HasPrefix(name, "(*sync/atomic.") {
		if i := strings.Index(name, ")."); i > 0 {
			t := strings.TrimPrefix(name[:i], "(*sync/atomic.")
			return "atomic." + name[i+2:] + t
		}
	}
	return ""
}

func bufferType(sig *types.Signature) types.Type {
	return deref(sig.Results().At(0).Type())
}

// plainLess recognises elems[i] < elems[j].
func (x *Exec) plainLess(l, elems *Term) bool {
	u := x.U
	if l.Op != "lam" {
		return false
	}
	b := l.Args[0]
	if b.Op != "ite" || b.Args[1].Op != "ret" || b.Args[2].Op != "ret" {
		return false
	}
	p0, p1 := u.raw("bound", l.Aux+".p0"), u.raw("bound", l.Aux+".p1")
	less := u.Lt(u.Index(elems, p0), u.Index(elems, p1))
	return b.Args[0] == less && b.Args[1].Args[0].Op == "true" && b.Args[2].Args[0].Op == "false"
}

var _ = fmt.Sprint

// recInfo describes a recursive function.
type recInfo struct {
	name string
	kind Kind
	busy bool
}

// recursive reports whether a function may call itself other than by tail
// calls of its own.
func (x *Exec) recursive(f *ssa.Function) bool {
	if r, ok := x.rec[f]; ok {
		return r
	}
	r := x.reaches(f, f)
	x.rec[f] = r
	return r
}

// partner reports whether f is part of the recursion of a function that is
// being analysed; it is inlined then.
func (x *Exec) partner(fr *frame, f *ssa.Function) bool {
	r := false
	for _, g := range fr.stack {
		if g == f {
			return false
		}
		if x.recursive(g) && x.reaches(f, g) {
			r = true
		}
	}
	return r
}

// reaches reports whether f may call g.
func (x *Exec) reaches(f, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	found := false
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || found {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && h.Blocks != nil {
						if h == g && x.tailSelf(g) {
							continue
						}
						if h.Pkg != nil && x.C.Module(h.Pkg.Pkg.Path()) && x.kindOf(h, x.name(FuncName(h))) == Default {
							if h == to {
								found = true
								return
							}
							visit(h)
						}
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					visit(m.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(f)
	return found
}

// recCall calls a recursive function; it is named after what it computes.
func (x *Exec) recCall(fr *frame, st *state, f *ssa.Function, args []*Term, k kont) *Term {
	for i := len(fr.stack) - 1; i >= 0; i-- {
		if fr.stack[i] == f {
			return x.recExternal(fr, st, "self"+strconv.Itoa(i), Pure, f, args, k)
		}
	}
	ri := x.recs[f]
	if ri == nil {
		ri = &recInfo{}
		x.recs[f] = ri
		leaf, ei := x.Leaf, x.ErrIdx
		x.Leaf, x.ErrIdx = nil, 0
		if ei != 0 {
			// results next to an error are not used
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if res.At(i).Type().String() == "error" {
					x.ErrIdx = i + 1
				}
			}
		}
		t := x.Func(f)
		x.recTerms[f] = t
		x.Leaf, x.ErrIdx = leaf, ei
		h := fnv.New64a()
		x.hash(h, t)
		ri.name = fmt.Sprintf("rec:%x", h.Sum64())
		x.RecNames[ri.name] = FuncName(f)
		ri.kind = Pure
		if x.U.Any(t, func(y *Term) bool { return y.Op == "do" || y.Op == "memset" }) {
			ri.kind = Effect
		}
	}
	if g, bad := x.argGuard(fr, st, f, args); bad != nil {
		if g.Op == "true" {
			return bad
		}
		return x.U.Ite(g, bad, x.recExternal(fr, st, ri.name, ri.kind, f, args, k))
	}
	return x.recExternal(fr, st, ri.name, ri.kind, f, args, k)
}

// argGuard is the condition under which a call hands over nil for a parameter
// that the function needs, and what happens then.
func (x *Exec) argGuard(fr *frame, st *state, f *ssa.Function, args []*Term) (g, bad *Term) {
	if !x.C.Guards || x.C.Needs == nil || f.Blocks == nil {
		return nil, nil
	}
	for _, n := range x.C.Needs(f) {
		t := args[n.Param]
		typ := f.Params[n.Param].Type()
		for _, fld := range n.Path {
			t = x.U.Sel(t, fld)
			typ = fieldType(typ, fld)
		}
		c := x.nilIf(st, t, typ)
		if c == nil || c.Op == "false" {
			continue
		}
		if g == nil {
			g = c
		} else {
			g = x.U.Ite(g, x.U.Bool(true), c)
		}
		if bad == nil {
			what := f.Params[n.Param].Name()
			for _, fld := range n.Path {
				what += "." + fld
			}
			bad = x.doPanic(fr.clone(), st.clone(), x.U.raw("guard", "nil argument "+what+" for "+FuncName(f)+" in "+FuncName(fr.fn)))
		}
	}
	return g, bad
}

// Need is a parameter, or a field of one, that must not be nil.
type Need struct {
	Param int
	Path  []string
}

func fieldType(t types.Type, name string) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}

func (x *Exec) recExternal(fr *frame, st *state, name string, kind Kind, f *ssa.Function, args []*Term, k kont) *Term {
	x.recKind[name] = kind
	return x.external(fr, st, name, f.Signature, args, k)
}

func (x *Exec) hash(h hash.Hash64, t *Term) {
	n := map[*Term]int{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if i, ok := n[t]; ok {
			fmt.Fprintf(h, "@%d", i)
			return
		}
		n[t] = len(n)
		fmt.Fprintf(h, "(%s|%q", t.Op, t.Aux)
		for _, a := range t.Args {
			rec(a)
		}
		fmt.Fprint(h, ")")
	}
	rec(t)
}

// IsPure reports whether a function of a library is known to have no effects.
func IsPure(name string) bool { return isPure(name) }
