package tpl

import (
	"fmt"
	"strings"
)

// SrcPath is the import path of the package with the decorated interfaces.
const SrcPath = "verif.local/tpl/src"

// SrcTypes are the types the shapes use.
const SrcTypes = `
// Req can be validated.
type Req struct{ N int }

// Validate checks the request.
func (r *Req) Validate() error { return nil }

// Val is validated by value.
type Val struct{ N int }

// Validate checks the value.
func (v Val) Validate() error { return nil }

// ReqContext is a value that can be validated and is no context.
type ReqContext struct{ N int }

// Validate checks the value.
func (r ReqContext) Validate() error { return nil }

// Res is a result.
type Res struct{ N int }
`

// Shape is one method shape.
type Shape struct{ Method }

// q qualifies a type of the source package.
func q(same bool, t string) string {
	if same {
		return t
	}
	i := strings.IndexAny(t, "RVABCDEFGHIJKLMNOPQSTUWXYZ")
	return t[:i] + "_sourceSrc." + t[i:]
}

// Shapes enumerates the lattice of method shapes.
func Shapes(same bool, deep bool) []Method {
	ctx := Param{Name: "ctx", Type: "context.Context"}
	params := [][]Param{
		{},
		{{Name: "a", Type: "int"}},
		{{Name: "req", Type: q(same, "*Req")}, {Name: "v", Type: "interface{}"}},
		{{Name: "s", Type: "string"}, {Name: "reqs", Type: "..." + q(same, "*Req"), Variadic: true}},
		{{Name: "userID", Type: q(same, "Val")}, {Name: "f", Type: "func(int) error"}, {Name: "m", Type: "map[string]" + q(same, "Res")}},
	}
	results := [][]Param{
		{},
		{{Name: "r1", Type: q(same, "*Res")}},
		{{Name: "r1", Type: "string"}, {Name: "r2", Type: "[]int"}},
	}
	if !deep {
		params = params[:4]
	}
	var out []Method
	for c := 0; c < 2; c++ {
		for pi, p := range params {
			for ri, r := range results {
				for e := 0; e < 2; e++ {
					m := Method{Name: fmt.Sprintf("P%dR%d", pi, ri)}
					if c == 1 {
						m.Name += "Ctx"
						m.AcceptsContext = true
						m.Params = append(m.Params, ctx)
					}
					m.Params = append(m.Params, p...)
					m.Results = append(m.Results, r...)
					if e == 1 {
						m.Name += "Err"
						m.ReturnsError = true
						m.Results = append(m.Results, Param{Name: "err", Type: "error"})
					}
					out = append(out, m)
				}
			}
		}
	}
	// a context that is not the first parameter, an error that is not the last result
	out = append(out, Method{Name: "Odd",
		Params:  ParamsSlice{{Name: "a", Type: "int"}, {Name: "c1", Type: "context.Context"}},
		Results: ParamsSlice{{Name: "e1", Type: "error"}, {Name: "n", Type: "int"}}})
	// names and types that look like the context, the error or each other
	out = append(out,
		Method{Name: "LooksCtx", AcceptsContext: true, ReturnsError: true,
			Params:  ParamsSlice{ctx, {Name: "c1", Type: "context.Context"}, {Name: "rc", Type: q(same, "ReqContext")}, {Name: "context1", Type: q(same, "*Req")}},
			Results: ParamsSlice{{Name: "e1", Type: "error"}, {Name: "err", Type: "error"}}},
		Method{Name: "LooksLike", ReturnsError: true,
			Params:  ParamsSlice{{Name: "ctx", Type: q(same, "*Req")}, {Name: "rc", Type: q(same, "ReqContext")}},
			Results: ParamsSlice{{Name: "err", Type: "error"}}},
		Method{Name: "LooksPlain", Params: ParamsSlice{{Name: "err", Type: "error"}, {Name: "ctx", Type: "string"}}},
		Method{Name: "LooksResult", Results: ParamsSlice{{Name: "e1", Type: q(same, "*Res")}, {Name: "ctx1", Type: "context.Context"}}},
	)
	return out
}

// SrcDecl renders the interface and its types; the types of the methods must
// be those for the same package.
func SrcDecl(name string, ms []Method) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "\n// %s is decorated.\ntype %s interface {\n", name, name)
	for _, m := range ms {
		sb.WriteString("\t" + strings.ReplaceAll(m.Declaration(), "_sourceSrc.", "") + "\n")
	}
	sb.WriteString("}\n")
	return sb.String()
}

// NewInputs makes the data of the body template.
func NewInputs(name string, ms []Method, same bool, vars map[string]interface{}) Inputs {
	in := Inputs{Vars: vars, Imports: []string{` "context"`}}
	if vars == nil {
		in.Vars = map[string]interface{}{}
	}
	in.Interface.Name = name
	in.Interface.Type = name
	if !same {
		in.Interface.Type = "_sourceSrc." + name
		in.Imports = append(in.Imports, `_sourceSrc "`+SrcPath+`"`)
	}
	in.Interface.Methods = map[string]Method{}
	for _, m := range ms {
		in.Interface.Methods[m.Name] = m
	}
	return in
}
