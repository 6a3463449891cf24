package vg

import (
	"go/token"
	"strconv"
	"strings"
	"unicode/utf8"
)

// CallTerm builds the application of a pure function with the algebra of the
// standard library functions that matter here.
func (u *U) CallTerm(name string, args ...*Term) *Term {
	constStr := func(i int) (string, bool) {
		if i < len(args) && args[i].Op == "str" {
			return args[i].Aux, true
		}
		return "", false
	}
	switch name {
	case "strings.Join":
		return u.Join(args[0], args[1])
	case "strings.LastIndex", "strings.Index":
		if s, ok := constStr(0); ok {
			if p, ok := constStr(1); ok {
				if name == "strings.Index" {
					return u.Num(strings.Index(s, p))
				}
				return u.Num(strings.LastIndex(s, p))
			}
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune":
		// one of a few characters
		if s, ok := constStr(0); ok && len(s) <= 8 && (name == "strings.IndexByte" || ascii(s)) {
			yes := func(i int) *Term { return u.Num(i) }
			r := u.Num(-1)
			if name == "strings.ContainsRune" {
				yes, r = func(int) *Term { return u.Bool(true) }, u.Bool(false)
			}
			for i := len(s) - 1; i >= 0; i-- {
				r = u.Ite(u.Eq(args[1], u.Num(int(s[i]))), yes(i), r)
			}
			return r
		}
		if name == "strings.ContainsRune" {
			r := u.raw("call", name, args...)
			r.isBool = true
			return r
		}
	case "strings.Repeat":
		if s, ok := constStr(0); ok {
			if n, ok := args[1].intVal(); ok && n >= 0 && n < 100 {
				return u.Str(strings.Repeat(s, n))
			}
		}
	case "strings.Replace":
		if n, ok := args[3].intVal(); ok && n < 0 {
			return u.CallTerm("strings.ReplaceAll", args[:3]...)
		}
	case "strings.HasPrefix":
		if p, ok := constStr(1); ok {
			if p == "" {
				return u.Bool(true)
			}
			s := args[0]
			if s.Op == "cat" && s.Args[0].Op == "str" {
				s = s.Args[0]
				if strings.HasPrefix(s.Aux, p) {
					return u.Bool(true)
				}
				if !strings.HasPrefix(p, s.Aux) {
					return u.Bool(false)
				}
			} else if s.Op == "str" {
				return u.Bool(strings.HasPrefix(s.Aux, p))
			}
		}
		if p, ok := constStr(1); ok && len(p) == 1 && u.NonEmpty {
			return u.Eq(u.Index(args[0], u.Num(0)), u.Num(int(p[0])))
		}
		r := u.raw("call", name, args...)
		r.isBool = true
		return r
	case "strings.HasSuffix", "strings.Contains", "strings.ContainsAny", "strings.EqualFold", "unicode.IsUpper", "unicode.IsLower", "go/ast.IsExported", "(*go/ast.Ident).IsExported", "os.IsNotExist", "errors.Is", "github.com/pkg/errors.Is", "go/token.IsExported", "unicode.IsSpace":
		if name == "strings.Contains" || name == "strings.HasSuffix" {
			if p, ok := constStr(1); ok && p == "" {
				return u.Bool(true)
			}
			if s, ok := constStr(0); ok {
				if p, ok := constStr(1); ok {
					if name == "strings.Contains" {
						return u.Bool(strings.Contains(s, p))
					}
					return u.Bool(strings.HasSuffix(s, p))
				}
			}
		}
		if p, ok := constStr(1); ok && name == "strings.ContainsAny" && len(p) <= 4 {
			// one of them
			r := u.Bool(false)
			for _, c := range p {
				r = u.Ite(u.CallTerm("strings.Contains", args[0], u.Str(string(c))), u.Bool(true), r)
			}
			return r
		}
		if p, ok := constStr(1); ok && len(p) == 1 && u.NonEmpty && name == "strings.HasSuffix" {
			return u.Eq(u.Index(args[0], u.Add(u.Len(args[0], "s"), u.Num(-1))), u.Num(int(p[0])))
		}
		if name == "(*go/ast.Ident).IsExported" {
			return u.CallTerm("go/ast.IsExported", u.Sel(args[0], "Name"))
		}
		if name == "go/token.IsExported" {
			return u.CallTerm("go/ast.IsExported", args...)
		}
		if name == "github.com/pkg/errors.Is" {
			return u.CallTerm("errors.Is", args...)
		}
		r := u.raw("call", name, args...)
		r.isBool = true
		return r
	case "unicode/utf8.DecodeRuneInString":
		if s, ok := constStr(0); ok {
			r, n := utf8.DecodeRuneInString(s)
			return u.raw("tuple", "", u.Num(int(r)), u.Num(n))
		}
	case "(error).Error":
		return u.fmtVerb("%v", args[0])
	case "(*go/ast.Ident).String":
		return u.Sel(args[0], "Name")
	case "(go/token.Token).String":
		if n, ok := args[0].intVal(); ok {
			return u.Str(token.Token(n).String())
		}
	case "strings.TrimSpace", "strings.ToUpper", "strings.ToLower":
		if s, ok := constStr(0); ok {
			switch name {
			case "strings.TrimSpace":
				return u.Str(strings.TrimSpace(s))
			case "strings.ToUpper":
				return u.Str(strings.ToUpper(s))
			default:
				return u.Str(strings.ToLower(s))
			}
		}
		if name == "strings.TrimSpace" && args[0].Op == "call" && args[0].Aux == name {
			return args[0]
		}
	case "strings.Split":
		return u.CallTerm("strings.SplitN", args[0], args[1], u.Num(-1))
	case "strconv.Itoa":
		return u.raw("fmt", "%d", args[0])
	case "strconv.FormatInt":
		if n, ok := args[1].intVal(); ok && n == 10 {
			return u.raw("fmt", "%d", args[0])
		}
	case "strconv.Quote":
		return u.Quote(args[0])
	case "fmt.Sprintf":
		if r := u.Sprintf(args[0], args[1]); r != nil {
			return r
		}
	case "fmt.Sprint":
		if args[0].Op == "list" && len(args[0].Args) == 1 {
			return u.fmtVerb("%v", args[0].Args[0])
		}
	case "fmt.Sprintln":
		if args[0].Op == "list" || args[0].Op == "nil" {
			var parts []*Term
			for i, a := range args[0].Args {
				if i > 0 {
					parts = append(parts, u.Str(" "))
				}
				parts = append(parts, u.fmtVerb("%v", a))
			}
			return u.Cat(append(parts, u.Str("\n"))...)
		}
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		return args[0]
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return u.raw("newerr", "")
	case "fmt.Errorf":
		if f, ok := constStr(0); ok && strings.Contains(f, "%w") && args[1].Op == "list" {
			// position of the wrapped error
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
					j++
				}
				if j < len(f) && f[j] == '%' {
					i = j
					continue
				}
				if j < len(f) && f[j] == 'w' && n < len(args[1].Args) {
					return u.raw("wrapw", "", args[1].Args[n])
				}
				n++
				i = j
			}
		}
		return u.raw("newerr", "")
	case "path/filepath.Split":
	case "strings.TrimPrefix":
		// TrimPrefix is a decision and a slice; keep it as one function
	case "sort.Strings", "slices.Sort":
		return u.Sorted(args[0])
	case "maps.Keys":
		return u.raw("keys", "", args[0])
	case "slices.Sorted":
		return u.Sorted(args[0])
	case "slices.Collect":
		return args[0]
	case "slices.Clone", "bytes.Clone", "strings.Clone":
		return args[0]
	case "cmp.Or":
	}
	return u.raw("call", name, args...)
}

// Sorted is a sorted list.
func (u *U) Sorted(l *Term) *Term {
	switch l.Op {
	case "ite":
		return u.Ite(l.Args[0], u.Sorted(l.Args[1]), u.Sorted(l.Args[2]))
	case "nil":
		return l
	case "list":
		if len(l.Args) < 2 {
			return l
		}
	}
	if l.Op == "lmap" && l.Args[0].Op == "maprange" && l.Args[1].Op == "list" && len(l.Args[1].Args) == 1 {
		e := l.Args[1].Args[0]
		if e.Op == "bound" && strings.HasSuffix(e.Aux, ".key") {
			l = u.raw("keys", "", l.Args[0].Args[0])
		}
	}
	if l.Op == "keys" {
		l = u.raw("keys", "", u.keysOnly(l.Args[0]))
	}
	if l.Op == "sorted" {
		return l
	}
	return u.raw("sorted", "", l)
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// Quote is strconv.Quote; an import path has nothing to escape.
func (u *U) Quote(x *Term) *Term {
	if x.Op == "str" {
		return u.Str(strconv.Quote(x.Aux))
	}
	if x.Op == "sel" && x.Aux == "PkgPath" {
		return u.Cat(u.Cat(u.Str("\""), x), u.Str("\""))
	}
	return u.raw("fmt", "%q", x)
}

func (u *U) fmtVerb(verb string, a *Term) *Term {
	typ := ""
	x := a
	if a.Op == "iface" {
		typ, x = a.Aux, a.Args[0]
	}
	if typ == "string" && (verb == "%s" || verb == "%v") {
		return x
	}
	if u.Text != nil && typ != "" && (verb == "%s" || verb == "%v") {
		if t := u.Text(typ, x); t != nil {
			return t
		}
	}
	if verb == "%v" {
		switch typ {
		case "int", "int64", "int32", "uint", "uint32", "uint64":
			verb = "%d"
		}
	}
	if typ == "string" && verb == "%q" {
		return u.Quote(x)
	}
	if verb == "%d" {
		return u.raw("fmt", "%d", x)
	}
	if typ == "" && (verb == "%s" || verb == "%v") && a.Op != "nil" {
		return u.raw("fmt", "%v", a)
	}
	return u.raw("fmt", verb, a)
}

// Sprintf expands a constant format.
func (u *U) Sprintf(format, args *Term) *Term {
	if format.Op != "str" || (args.Op != "list" && args.Op != "nil") {
		return nil
	}
	f := format.Aux
	var parts []*Term
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, u.Str(f[i:]))
			break
		}
		parts = append(parts, u.Str(f[i:i+j]))
		i += j
		k := i + 1
		for k < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[k])) {
			k++
		}
		if k >= len(f) {
			return nil
		}
		if f[k] == '%' {
			parts = append(parts, u.Str("%"))
			i = k + 1
			continue
		}
		if f[k] == '[' || f[k] == '*' || n >= len(args.Args) {
			return nil
		}
		parts = append(parts, u.fmtVerb(f[i:k+1], args.Args[n]))
		n++
		i = k + 1
	}
	if n != len(args.Args) {
		return nil
	}
	return u.Cat(parts...)
}

func itoa(n int) string { return strconv.Itoa(n) }
