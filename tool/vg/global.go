package vg

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// table is the value of a package-level list, array or map that is built once by the
// initialisation of the package and is only read afterwards.
func (x *Exec) table(g *ssa.Global) *Term {
	typ := deref(g.Type())
	if g.Object() != nil && g.Object().Exported() {
		return nil
	}
	switch t := typ.Underlying().(type) {
	case *types.Slice:
		if !plainElem(t.Elem()) {
			return nil
		}
	case *types.Array:
		if !plainElem(t.Elem()) || t.Len() > 64 {
			return nil
		}
	case *types.Map:
		if !plainElem(t.Elem()) || !plainElem(t.Key()) {
			return nil
		}
	default:
		return nil
	}
	_, isArray := typ.Underlying().(*types.Array)
	init := g.Pkg.Func("init")
	var stored ssa.Value
	var elems []ssa.Instruction
	ok := true
	x.eachFunc(g.Pkg, func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch i := in.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						if f != init || i.Addr != ssa.Value(g) || stored != nil {
							ok = false
						}
						stored = i.Val
					case *ssa.UnOp:
						ok = ok && (isArray || readOnly(i))
					case *ssa.IndexAddr:
						if !isArray {
							ok = false
						} else if f == init {
							elems = append(elems, i)
						} else {
							ok = ok && readAddr(i)
						}
					case *ssa.Slice:
						ok = ok && isArray && readOnly(i)
					default:
						ok = false
					}
				}
			}
		}
	})
	if !ok {
		return nil
	}
	defer func() { recover() }()
	if isArray {
		if stored != nil {
			return nil
		}
		return x.initArray(typ, elems)
	}
	if stored == nil {
		return nil
	}
	return x.initVal(stored)
}

// eachFunc calls f for the functions of a package.
func (x *Exec) eachFunc(p *ssa.Package, f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		f(g)
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			visit(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := x.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					visit(x.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
}

// plainElem tells whether values of a type have no parts that can be changed.
func plainElem(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !plainElem(t.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// readOnly tells whether a list or map is not changed through a value of it, nor kept.
func readOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.Index:
		case *ssa.IndexAddr:
			if !readAddr(r) {
				return false
			}
		case *ssa.Slice:
			if !readOnly(r) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					continue
				case "append":
					if r.Call.Args[0] != v {
						continue
					}
				}
				return false
			}
			f := r.Call.StaticCallee()
			if f == nil {
				return false
			}
			switch FuncName(f) {
			case "strings.Join", "slices.Contains", "slices.Index":
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

func readAddr(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !readAddr(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// initVal is a value of the initialisation of a package; it fails if it is not constant.
func (x *Exec) initVal(v ssa.Value) *Term {
	u := x.U
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function:
		return x.val(nil, nil, v)
	case *ssa.MakeInterface:
		t := x.initVal(v.X)
		if t == nil || isBoolType(v.X.Type()) && t.Op != "true" && t.Op != "false" {
			return nil
		}
		return u.Iface(typeName(v.X.Type()), t)
	case *ssa.ChangeType:
		return x.initVal(v.X)
	case *ssa.ChangeInterface:
		return x.initVal(v.X)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			if t := x.global(a); t.isConst() || t.Op == "sentinel" || t.Op == "iface" && t.Args[0].isConst() {
				return t
			}
		case *ssa.Alloc:
			return x.initStruct(deref(a.Type()), a, v)
		}
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil && v.Max == nil {
			t := deref(a.Type())
			if _, ok := t.Underlying().(*types.Array); !ok {
				return nil
			}
			var elems []ssa.Instruction
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.IndexAddr:
					elems = append(elems, r)
				case *ssa.Slice:
					if r != v {
						return nil
					}
				case *ssa.DebugRef:
				default:
					return nil
				}
			}
			return x.initArray(t, elems)
		}
	case *ssa.MakeMap:
		m := u.raw("mapempty", "")
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, e := x.initVal(r.Key), x.initVal(r.Value)
				if r.Map != ssa.Value(v) || k == nil || e == nil || !k.isConst() {
					return nil
				}
				m = u.mapSet(m, k, e)
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return m
	}
	return nil
}

func (x *Exec) initArray(t types.Type, elems []ssa.Instruction) *Term {
	u := x.U
	list := x.Zero(t)
	if list.Op != "list" {
		return nil
	}
	args := append([]*Term(nil), list.Args...)
	for _, e := range elems {
		ia := e.(*ssa.IndexAddr)
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		i := int(c.Int64())
		if i < 0 || i >= len(args) {
			return nil
		}
		v := x.initStruct(t.Underlying().(*types.Array).Elem(), ia, nil)
		if v == nil {
			return nil
		}
		args[i] = v
	}
	return u.raw("list", "", args...)
}

// initStruct is what is stored at an address, as a whole or field by field; last is the
// only read of it.
func (x *Exec) initStruct(t types.Type, addr ssa.Value, last ssa.Instruction) *Term {
	v := x.Zero(t)
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != addr {
				return nil
			}
			if v = x.initVal(r.Val); v == nil {
				return nil
			}
		case *ssa.FieldAddr:
			st, ok := t.Underlying().(*types.Struct)
			if !ok || v.Op != "struct" {
				return nil
			}
			f := x.initStruct(st.Field(r.Field).Type(), r, nil)
			if f == nil {
				return nil
			}
			args := append([]*Term(nil), v.Args...)
			args[r.Field] = f
			v = x.U.raw("struct", v.Aux, args...)
		case *ssa.UnOp:
			if ssa.Instruction(r) != last {
				return nil
			}
		default:
			return nil
		}
	}
	return v
}
