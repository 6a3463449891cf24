// Package tpl expands the bundled templates into Go source for the analysis.
package tpl

import (
	"sort"
	"strings"
	"text/template"
	"unicode"
	"unicode/utf8"

	"github.com/Masterminds/sprig/v3"
)

// Method mirrors the documented template API of a method.
type Method struct {
	Doc     []string
	Comment []string
	Name    string
	Params  ParamsSlice
	Results ParamsSlice

	ReturnsError   bool
	AcceptsContext bool
}

// Param is a parameter or a result.
type Param struct {
	Doc      []string
	Comment  []string
	Name     string
	Type     string
	Variadic bool
}

// ParamsSlice is a list of parameters.
type ParamsSlice []Param

func (ps ParamsSlice) each(f func(p Param) string) string { return ps.join(", ", f) }

func (ps ParamsSlice) join(sep string, f func(p Param) string) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, f(p))
	}
	return strings.Join(ss, sep)
}

func decl(p Param) string  { return p.Name + " " + p.Type }
func name(p Param) string  { return p.Name }
func field(p Param) string { return p.Name + " " + stored(p) }
func ptr(p Param) string   { return p.Name + " *" + stored(p) }
func entry(p Param) string { return `"` + p.Name + `": ` + p.Name }
func stored(p Param) string {
	if p.Variadic {
		return strings.Replace(p.Type, "...", "[]", 1)
	}
	return p.Type
}

func (ps ParamsSlice) String() string { return ps.each(decl) }
func (ps ParamsSlice) Pass() string   { return ps.each(Param.Pass) }
func (p Param) Pass() string {
	if p.Variadic {
		return p.Name + "..."
	}
	return p.Name
}

func (m Method) Call() string { return m.Name + "(" + m.Params.Pass() + ")" }
func (m Method) Pass(prefix string) string {
	if m.HasResults() {
		return "return " + prefix + m.Call()
	}
	return prefix + m.Call() + "\nreturn"
}
func (m Method) ParamsNames() string  { return m.Params.each(name) }
func (m Method) ResultsNames() string { return m.Results.each(name) }
func (m Method) ParamsStruct() string {
	return "struct{\n" + m.Params.join("\n ", field) + "}"
}
func (m Method) ParamPtrsStruct() string {
	return "struct{\n" + m.Params.join("\n ", ptr) + "}"
}
func (m Method) ResultsStruct() string {
	return "struct{\n" + m.Results.join("\n ", decl) + "}"
}
func (m Method) ParamsMap() string {
	return "map[string]interface{}{\n" + m.Params.join(",\n ", entry) + "}"
}
func (m Method) ResultsMap() string {
	return "map[string]interface{}{\n" + m.Results.join(",\n ", entry) + "}"
}
func (m Method) HasParams() bool  { return len(m.Params) > 0 }
func (m Method) HasResults() bool { return len(m.Results) > 0 }
func (m Method) ReturnStruct(s string) string {
	if !m.HasResults() {
		return "return"
	}
	return "return " + m.Results.each(func(p Param) string { return s + "." + p.Name })
}
func (m Method) Signature() string {
	return "(" + m.Params.String() + ") (" + m.Results.String() + ")"
}
func (m Method) Declaration() string { return m.Name + m.Signature() }

// Inputs mirrors the documented data of the body template.
type Inputs struct {
	Interface Interface
	Vars      map[string]interface{}
	Imports   []string
}

// Interface is the decorated interface.
type Interface struct {
	Name     string
	Type     string
	Generics struct{ Types, Params string }
	Methods  map[string]Method
}

// Import renders an import block.
func (t Inputs) Import(imports ...string) string {
	all := map[string]bool{}
	for _, i := range t.Imports {
		all[strings.TrimSpace(i)] = true
	}
	for _, i := range imports {
		i = strings.TrimSpace(i)
		if i == "" {
			continue
		}
		if i[len(i)-1] != '"' {
			i += `"`
		}
		if i[0] != '"' && strings.Count(i, `"`) < 2 {
			i = `"` + i
		}
		all[i] = true
	}
	var out []string
	for i := range all {
		out = append(out, i)
	}
	sort.Strings(out)
	return "import (\n" + strings.Join(out, "\n") + ")\n"
}

// Funcs are the helper functions of templates.
func Funcs() template.FuncMap {
	m := sprig.TxtFuncMap()
	m["up"] = strings.ToUpper
	m["down"] = strings.ToLower
	m["upFirst"] = func(s string) string { return first(s, unicode.ToUpper) }
	m["downFirst"] = func(s string) string { return first(s, unicode.ToLower) }
	m["replace"] = strings.ReplaceAll
	m["snake"] = snake
	return m
}

func first(s string, f func(rune) rune) string {
	r, n := utf8.DecodeRuneInString(s)
	if n == 0 {
		return ""
	}
	return string(f(r)) + s[n:]
}

// snake suffices for the names that the shapes use.
func snake(s string) string {
	var sb strings.Builder
	rs := []rune(s)
	for i, r := range rs {
		if i > 0 && unicode.IsUpper(r) && (unicode.IsLower(rs[i-1]) || unicode.IsDigit(rs[i-1]) ||
			rs[i-1] != '_' && i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
			sb.WriteByte('_')
		}
		sb.WriteRune(unicode.ToLower(r))
	}
	return sb.String()
}
