package chk

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The names of unexported declarations have no meaning. The references and the
// anchors of the checks use the names recorded in names.json; where the code has
// got other names by now, the analysed copy of the code gets the recorded ones.
// A wrong guess can only make a check fail.

// Decl is a recorded declaration.
type Decl struct {
	Kind string // type, func, var, const, or the name of the type for fields and methods
	Name string
	Type string
}

func typeText(t types.Type, own *types.Package) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == own {
			return "."
		}
		return p.Path()
	})
}

// Declarations lists the unexported declarations of a package in the order of the source.
func Declarations(p *types.Package, skip func(types.Object) bool) (decls []Decl, objs []types.Object) {
	add := func(kind string, o types.Object, t string) {
		decls = append(decls, Decl{kind, o.Name(), t})
		objs = append(objs, o)
	}
	var l []types.Object
	for _, n := range p.Scope().Names() {
		if o := p.Scope().Lookup(n); !skip(o) {
			l = append(l, o)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	for _, o := range l {
		switch o := o.(type) {
		case *types.TypeName:
			if !o.Exported() {
				add("type", o, typeText(o.Type().Underlying(), p))
			}
			switch t := o.Type().Underlying().(type) {
			case *types.Struct:
				for i := 0; i < t.NumFields(); i++ {
					if f := t.Field(i); !f.Exported() && !f.Embedded() {
						add("field "+o.Name(), f, typeText(f.Type(), p))
					}
				}
			case *types.Interface:
				for i := 0; i < t.NumExplicitMethods(); i++ {
					if f := t.ExplicitMethod(i); !f.Exported() {
						add("method "+o.Name(), f, typeText(f.Type(), p))
					}
				}
			}
			if n, ok := o.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if f := n.Method(i); !f.Exported() && !skip(f) {
						add("method "+o.Name(), f, typeText(f.Type(), p))
					}
				}
			}
		case *types.Func:
			if !o.Exported() && o.Name() != "init" && o.Name() != "main" {
				add("func", o, typeText(o.Type(), p))
			}
		case *types.Var:
			if !o.Exported() {
				add("var", o, typeText(o.Type(), p))
			}
		case *types.Const:
			if !o.Exported() {
				add("const", o, typeText(o.Type(), p))
			}
		}
	}
	return decls, objs
}

// renamed matches the declarations that are gone with those that are new.
func renamed(old []Decl, now []Decl, objs []types.Object) map[types.Object]string {
	out := map[types.Object]string{}
	ren := map[string]string{} // new type names
	words := func(s string) string {
		for n, o := range ren {
			for i := 0; ; {
				j := strings.Index(s[i:], n)
				if j < 0 {
					break
				}
				j += i
				e := j + len(n)
				if j > 1 && s[j-1] == '.' && s[j-2] == '.' && (e == len(s) || !isWord(s[e])) {
					s = s[:j] + o + s[e:]
				}
				i = j + 1
			}
		}
		return s
	}
	kindOf := func(d Decl) string {
		if i := strings.IndexByte(d.Kind, ' '); i > 0 {
			if o, ok := ren[d.Kind[i+1:]]; ok {
				return d.Kind[:i+1] + o
			}
		}
		return d.Kind
	}
	match := func(types_ bool) bool {
		have := map[[2]string]bool{}
		for _, d := range now {
			have[[2]string{kindOf(d), d.Name}] = true
		}
		was := map[[2]string]bool{}
		for _, d := range old {
			was[[2]string{d.Kind, d.Name}] = true
		}
		missing, extra := map[string][]Decl{}, map[string][]int{}
		var kinds []string
		for _, d := range old {
			if (d.Kind == "type") == types_ && !have[[2]string{d.Kind, d.Name}] {
				done := false
				for o, n := range out {
					_ = o
					if n == d.Name && d.Kind == "type" {
						done = true
					}
				}
				if done {
					continue
				}
				if missing[d.Kind] == nil {
					kinds = append(kinds, d.Kind)
				}
				missing[d.Kind] = append(missing[d.Kind], d)
			}
		}
		for i, d := range now {
			k := kindOf(d)
			if (d.Kind == "type") == types_ && !was[[2]string{k, d.Name}] && out[objs[i]] == "" {
				extra[k] = append(extra[k], i)
			}
		}
		progress := false
		for _, k := range kinds {
			// by type, in order
			used := map[int]bool{}
			var rest []Decl
			for _, d := range missing[k] {
				found := -1
				for _, i := range extra[k] {
					if !used[i] && (words(now[i].Type) == d.Type) {
						found = i
						break
					}
				}
				if found < 0 {
					rest = append(rest, d)
					continue
				}
				used[found] = true
				out[objs[found]] = d.Name
				if types_ {
					ren[now[found].Name] = d.Name
				}
				progress = true
			}
			if len(rest) == 1 && len(extra[k]) == len(used)+1 {
				for _, i := range extra[k] {
					if !used[i] {
						out[objs[i]] = rest[0].Name
						if types_ {
							ren[now[i].Name] = rest[0].Name
						}
						progress = true
					}
				}
			}
		}
		return progress
	}
	for match(true) {
	}
	match(false)
	return out
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// oldNames gives declarations their recorded names in an overlay.
func oldNames(verif string, pkgs []*packages.Package, overlay map[string][]byte) bool {
	var table map[string][]Decl
	b, err := os.ReadFile(filepath.Join(verif, "spec", "names.json"))
	if err != nil || json.Unmarshal(b, &table) != nil {
		return false
	}
	changed := false
	type edit struct {
		at, end int
		text    string
	}
	names := map[types.Object]string{}
	for _, p := range pkgs {
		if p.Types == nil || table[p.PkgPath] == nil {
			continue
		}
		now, objs := Declarations(p.Types, func(o types.Object) bool {
			_, in := overlay[p.Fset.Position(o.Pos()).Filename]
			return in
		})
		for o, n := range renamed(table[p.PkgPath], now, objs) {
			names[o] = n
		}
	}
	if len(names) == 0 {
		return false
	}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			file := p.Fset.Position(f.Pos()).Filename
			if _, in := overlay[file]; in || !strings.HasSuffix(file, ".go") {
				continue
			}
			var edits []edit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Uses[id]
				if o == nil {
					o = p.TypesInfo.Defs[id]
				}
				to, ok := names[o]
				if v, isv := o.(*types.Var); isv && v.Embedded() {
					// the name of an embedded field is that of its type
					t := v.Type()
					if pt, isp := t.(*types.Pointer); isp {
						t = pt.Elem()
					}
					if nt, isn := t.(*types.Named); isn {
						to, ok = names[nt.Obj()]
					}
				}
				if ok {
					at := p.Fset.Position(id.Pos()).Offset
					edits = append(edits, edit{at, at + len(id.Name), to})
				}
				return true
			})
			if len(edits) == 0 {
				continue
			}
			src, err := os.ReadFile(file)
			if err != nil {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
			s := string(src)
			last := -1
			for _, e := range edits {
				if e.at == last || e.end > len(s) {
					continue
				}
				last = e.at
				s = s[:e.at] + e.text + s[e.end:]
			}
			overlay[file] = []byte(s)
			changed = true
		}
	}
	return changed
}

// WriteNames records the names of the unexported declarations of a repository.
func WriteNames(repo, verif string) {
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: repo}, "./...")
	if err != nil {
		panic(err)
	}
	table := map[string][]Decl{}
	for _, p := range pkgs {
		table[p.PkgPath], _ = Declarations(p.Types, func(types.Object) bool { return false })
	}
	b, _ := json.MarshalIndent(table, "", " ")
	os.WriteFile(filepath.Join(verif, "spec", "names.json"), append(b, '\n'), 0o644)
}
