package vg

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Guards make the conditions under which an operation panics part of the value
// graph: a leaf panic(guard…) that remains can be reached.

// optional fields of syntax trees and of other records: they are nil where the
// source has no such part.
var optional = map[string]bool{
	"go/ast.Field.Doc": true, "go/ast.Field.Comment": true, "go/ast.Field.Tag": true,
	"go/ast.FuncType.Results": true, "go/ast.FuncType.TypeParams": true,
	"go/ast.ImportSpec.Name": true, "go/ast.ImportSpec.Doc": true, "go/ast.ImportSpec.Comment": true,
	"go/ast.TypeSpec.TypeParams": true, "go/ast.TypeSpec.Doc": true, "go/ast.TypeSpec.Comment": true,
	"go/ast.GenDecl.Doc": true, "go/ast.File.Doc": true, "go/ast.ArrayType.Len": true, "go/ast.Ellipsis.Elt": true,
	"go/ast.FuncDecl.Recv": true, "go/ast.FuncDecl.Body": true, "go/ast.FuncDecl.Doc": true, "go/ast.Ident.Obj": true,
	"go/ast.CompositeLit.Type": true, "go/ast.TypeAssertExpr.Type": true,
	"go/ast.ValueSpec.Type": true, "go/ast.ValueSpec.Doc": true, "go/ast.ValueSpec.Comment": true,
	"golang.org/x/tools/go/packages.Package.Module": true,
}

// mayReturnNil are functions whose result may be nil.
var mayReturnNil = map[string]bool{
	"(*go/types.Scope).Lookup": true, "(*go/types.Scope).Parent": true, "(*flag.FlagSet).Lookup": true, "flag.Lookup": true,
	"(*text/template.Template).Lookup": true, "(*go/token.FileSet).File": true, "go/ast.NewIdent": false,
	"(go/types.Object).Pkg": true, "(*net/url.URL).User": true, "errors.Unwrap": true, "(*go/types.Named).Obj": false,
	"(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).FindStringIndex": true,
}

// nilReceiver are methods that accept nil.
var nilReceiver = map[string]bool{
	"(*go/ast.CommentGroup).Text": true, "(*go/ast.CommentGroup).Pos": false, "(*go/ast.FieldList).NumFields": true,
	"(*go/ast.FieldList).Pos": true, "(*go/ast.FieldList).End": true, "(*bytes.Buffer).String": true,
	"(*text/template.Template).DefinedTemplates": false,
}

// nilIf is the condition under which a pointer or interface value is nil, or nil
// if it is known not to be.
func (x *Exec) nilIf(st *state, t *Term, typ types.Type) *Term {
	u := x.U
	if x.C.NilParam != nil && (t.Op == "param" || t.Op == "sel") && x.C.NilParam(t) {
		return u.Eq(t, u.Nil())
	}
	switch t.Op {
	case "nil":
		return u.Bool(true)
	case "sel":
		if x.optionalSel[t] {
			return u.Eq(t, u.Nil())
		}
	case "ite":
		a, b := x.nilIf(st, t.Args[1], typ), x.nilIf(st, t.Args[2], typ)
		if a == nil && b == nil {
			return nil
		}
		if a == nil {
			a = u.Bool(false)
		}
		if b == nil {
			b = u.Bool(false)
		}
		return u.Ite(t.Args[0], a, b)
	case "param", "tok":
		if x.nilTok[t] {
			return u.Eq(t, u.Nil())
		}
	case "fold":
		// a carried value
		j, _ := strconv.Atoi(t.Aux[strings.IndexByte(t.Aux, ':')+1:])
		if 2+j < len(t.Args) && mayBeNil(t.Args[2+j]) {
			return u.Eq(t, u.Nil())
		}
	case "as":
		if is := u.TypeIs(t.Args[0], t.Aux); is.Op != "true" {
			return u.Not(is)
		}
	case "lookup":
		if t.Aux == "nil" {
			return u.Ite(u.Eq(t, u.Nil()), u.Not(u.HasKey(t.Args[0], t.Args[1])), u.Bool(false))
		}
	case "call":
		if strings.HasSuffix(t.Aux, ".FlagSet") && types.TypeString(typ, nil) == "*flag.FlagSet" {
			// documented to return nil if there are no flags
			return u.Eq(t, u.Nil())
		}
		if mayReturnNil[t.Aux] || x.C.MayBeNil != nil && x.C.MayBeNil(t.Aux) {
			return u.Eq(t, u.Nil())
		}
		if strings.HasSuffix(t.Aux, ".Error") {
			return nil
		}
		if types.Identical(typ, types.Universe.Lookup("error").Type()) && !strings.Contains(t.Aux, "New") && !strings.Contains(t.Aux, "Errorf") {
			return u.Eq(t, u.Nil())
		}
	case "proj":
		c := t.Args[0]
		if types.Identical(typ, types.Universe.Lookup("error").Type()) {
			return u.Eq(t, u.Nil())
		}
		if c.Op == "do" && t.Aux == "0" {
			n := c.Aux
			if i := strings.LastIndexByte(n, '#'); i >= 0 {
				n = n[:i]
			}
			if strings.HasSuffix(n, ".FlagSet") && types.TypeString(typ, nil) == "*flag.FlagSet" || mayReturnNil[n] {
				return u.Eq(t, u.Nil())
			}
		}
		// a value next to an error
		if e := x.errOf(c); e != nil {
			return u.Ite(u.Eq(t, u.Nil()), u.Not(u.Eq(e, u.Nil())), u.Bool(false))
		}
	}
	return nil
}

// errOf is the error a call returns next to other values.
func (x *Exec) errOf(c *Term) *Term {
	if i, ok := x.errPos[c.Aux]; ok {
		return x.U.Proj(c, i)
	}
	return nil
}

// guard is the condition under which an instruction does not panic, or nil.
func (x *Exec) guard(fr *frame, st *state, in ssa.Instruction) *Term {
	u := x.U
	notNil := func(v ssa.Value) *Term {
		t := x.val(fr, st, v)
		if t.Op == "obj" || t.Op == "ref" || t.Op == "fieldaddr" || t.Op == "indexaddr" || t.Op == "gaddr" {
			return nil
		}
		c := x.nilIf(st, t, v.Type())
		if c == nil {
			return nil
		}
		return u.Not(c)
	}
	inBounds := func(i, n *Term) *Term {
		c := u.Lt(i, n)
		if mayBeNegative(i) {
			c = u.Ite(u.Lt(i, u.Num(0)), u.Bool(false), c)
		}
		return c
	}
	switch in := in.(type) {
	case *ssa.FieldAddr:
		return notNil(in.X)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			switch in.X.(type) {
			case *ssa.Global, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
				return nil
			}
			return notNil(in.X)
		}
	case *ssa.IndexAddr:
		i := x.val(fr, st, in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			v := x.val(fr, st, in.X)
			if n := x.madeLen[v]; n != nil {
				return inBounds(i, n)
			}
			if v.Op != "obj" {
				// changes in place do not change the length
				return inBounds(i, u.Len(v, "l"))
			}
			return inBounds(i, u.Len(x.content(st, v), "l"))
		case *types.Pointer:
			if a, ok := t.Elem().Underlying().(*types.Array); ok && i.Op != "num" {
				return inBounds(i, u.Num(int(a.Len())))
			}
		}
	case *ssa.Index:
		i := x.val(fr, st, in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			if i.Op != "num" {
				return inBounds(i, u.Num(int(t.Len())))
			}
		case *types.Basic:
			return inBounds(i, u.Len(x.val(fr, st, in.X), "s"))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return inBounds(x.val(fr, st, in.Index), u.Len(x.val(fr, st, in.X), "s"))
		}
	case *ssa.Slice:
		v := x.val(fr, st, in.X)
		var n *Term
		switch in.X.Type().Underlying().(type) {
		case *types.Basic:
			n = u.Len(v, "s")
		case *types.Slice:
			n = u.Len(x.content(st, v), "l")
		default:
			return nil
		}
		lo, hi := u.Num(0), n
		if in.Low != nil {
			lo = x.val(fr, st, in.Low)
		}
		if in.High != nil {
			hi = x.val(fr, st, in.High)
		}
		if x.position(fr, st, lo) || x.position(fr, st, hi) {
			// positions in a text that was parsed are in its bounds
			return nil
		}
		c := u.Not(u.Lt(n, hi))
		if in.High == nil {
			c = u.Bool(true)
		}
		if l := u.Lt(hi, lo); l.Op != "false" {
			c = u.Ite(l, u.Bool(false), c)
		}
		if mayBeNegative(lo) {
			c = u.Ite(u.Lt(lo, u.Num(0)), u.Bool(false), c)
		}
		return c
	case *ssa.MakeSlice:
		n, c := x.val(fr, st, in.Len), x.val(fr, st, in.Cap)
		g := u.Bool(true)
		if mayBeNegative(n) {
			g = u.Not(u.Lt(n, u.Num(0)))
		}
		if n != c && n != u.Num(0) {
			if l := u.Lt(c, n); l.Op != "false" {
				g = u.Ite(l, u.Bool(false), g)
			}
		} else if mayBeNegative(c) {
			g = u.Ite(u.Lt(c, u.Num(0)), u.Bool(false), g)
		}
		return g
	case *ssa.MapUpdate:
		m := x.val(fr, st, in.Map)
		if m.Op == "obj" {
			return nil
		}
		if c := x.nilIf(st, m, in.Map.Type()); c != nil {
			return u.Not(c)
		}
	case *ssa.Call:
		if in.Call.IsInvoke() {
			return notNil(in.Call.Value)
		}
		if f := in.Call.StaticCallee(); f != nil {
			switch FuncName(f) {
			case "text/template.Must", "html/template.Must":
				if fr.fn.Name() == "init" && fr.fn.Synthetic != "" {
					return nil // what every run does
				}
				return u.Eq(x.val(fr, st, in.Call.Args[1]), u.Nil())
			case "regexp.MustCompile", "regexp.MustCompilePOSIX":
				if _, ok := in.Call.Args[0].(*ssa.Const); !ok {
					return u.Bool(false)
				}
			case "strings.Repeat", "bytes.Repeat":
				if n := x.val(fr, st, in.Call.Args[1]); mayBeNegative(n) {
					return u.Not(u.Lt(n, u.Num(0)))
				}
			}
			// methods of the standard library need their receivers
			if r := f.Signature.Recv(); r != nil && len(in.Call.Args) > 0 && f.Pkg != nil && (x.C.Module == nil || !x.C.Module(f.Pkg.Pkg.Path())) {
				if _, ok := r.Type().(*types.Pointer); ok && !nilReceiver[FuncName(f)] {
					return notNil(in.Call.Args[0])
				}
			}
		}
		if _, ok := in.Call.Value.(*ssa.Builtin); ok || in.Call.StaticCallee() != nil {
			return nil
		}
		return notNil(in.Call.Value)
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return u.Not(u.Eq(x.val(fr, st, in.Y), u.Num(0)))
			}
		}
	}
	return nil
}

// mayBeNegative tells whether an index needs a check from below.
func mayBeNegative(i *Term) bool {
	switch i.Op {
	case "num":
		n, ok := i.intVal()
		return !ok || n < 0
	case "add":
		for _, a := range i.Args {
			if n, ok := a.intVal(); ok && n >= 0 {
				continue
			}
			if mayBeNegative(a) {
				return true
			}
		}
		return false
	case "tok", "bound", "len":
		return false
	}
	return !nonNeg(i)
}

// LtFacts is what holds of positions in strings.
func (u *U) LtFacts(a, b *Term) *Term {
	// an offset
	off, at := 0, b
	if b.Op == "add" {
		if c, ok := b.Args[1].intVal(); ok {
			off, at = c, b.Args[0]
		}
	}
	if at.Op == "call" {
		switch at.Aux {
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny":
			n := 1
			if at.Args[1].Op == "str" && !strings.HasSuffix(at.Aux, "Any") {
				n = len(at.Args[1].Aux)
			}
			// the end of what was found is not behind the end of the string
			if a == u.Len(at.Args[0], "s") && off <= n {
				return u.Bool(false)
			}
			if k, ok := a.intVal(); ok && k < -1+off {
				return u.Bool(true)
			}
		}
	}
	if at.Op == "proj" && at.Aux == "1" && at.Args[0].Op == "call" && strings.HasPrefix(at.Args[0].Aux, "unicode/utf8.Decode") && off <= 0 {
		if a == u.Len(at.Args[0].Args[0], "s") {
			return u.Bool(false)
		}
	}
	return nil
}

// position tells whether a number is made from positions in a syntax tree.
func (x *Exec) position(fr *frame, st *state, t *Term) bool {
	return x.U.Any(t, func(s *Term) bool {
		return s.Op == "call" && strings.HasPrefix(s.Aux, "(go/ast.") && (strings.HasSuffix(s.Aux, ".Pos") || strings.HasSuffix(s.Aux, ".End")) ||
			s.Op == "call" && strings.HasPrefix(s.Aux, "(*go/ast.") && (strings.HasSuffix(s.Aux, ").Pos") || strings.HasSuffix(s.Aux, ").End")) ||
			s.Op == "call" && s.Aux == "go/ast.Inspect"
	})
}

// isOptional tells whether a field may be nil.
func (x *Exec) isOptional(addr *Term) bool {
	t := x.objType[addr]
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return optional[n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+fieldName(addr.Aux)]
}

func guardText(prog *ssa.Program, in ssa.Instruction) string {
	p := in.Pos()
	var kind string
	switch in := in.(type) {
	case *ssa.FieldAddr:
		kind = "nil dereference"
	case *ssa.UnOp:
		kind = "nil dereference"
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		kind = "index out of range"
	case *ssa.Slice:
		kind = "slice out of range"
	case *ssa.MapUpdate:
		kind = "write to a nil map"
	case *ssa.MakeSlice:
		kind = "negative length"
	case *ssa.Call:
		kind = "call of a nil value"
		if f := in.Call.StaticCallee(); f != nil {
			kind = "panic of " + FuncName(f)
		}
	case *ssa.BinOp:
		kind = "division by zero"
		_ = in
	}
	pos := prog.Fset.Position(p)
	name := pos.Filename
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	return kind + " in " + FuncName(in.Parent()) + " at " + name + ":" + strconv.Itoa(pos.Line)
}

// Int is the value of a number.
func (t *Term) Int() (int, bool) { return t.intVal() }

// mayBeNil tells whether nil is among the values of a term.
func mayBeNil(t *Term) bool {
	switch t.Op {
	case "nil":
		return true
	case "ite":
		return mayBeNil(t.Args[1]) || mayBeNil(t.Args[2])
	}
	return false
}

func canBeNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map:
		return true
	}
	return false
}
