// Command specids lists the unexported identifiers of the repository that the references use and
// whether the repository's tests use them too (a development aid).
package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func main() {
	overlay := map[string][]byte{}
	specs, _ := filepath.Glob("/verif/spec/*.go")
	for _, s := range specs {
		b, _ := os.ReadFile(s)
		dir := "/repo"
		base := filepath.Base(s)
		if i := strings.Index(base, "_"); i > 0 && base[:i] != "root" {
			dir = filepath.Join(dir, strings.ReplaceAll(base[:i], "-", "/"))
		}
		overlay[filepath.Join(dir, "zz_verif_"+base)] = b
	}
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: "/repo", Overlay: overlay, Tests: true}, "./...")
	if err != nil {
		panic(err)
	}
	used := map[string]map[string]bool{}
	pinned := map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			_, spec := overlay[name]
			test := strings.HasSuffix(name, "_test.go")
			if !spec && !test {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Uses[id]
				if o == nil || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), "github.com/hexdigest/gowrap") || o.Exported() {
					return true
				}
				pos := p.Fset.Position(o.Pos())
				if _, in := overlay[pos.Filename]; in || strings.HasSuffix(pos.Filename, "_test.go") {
					return true
				}
				// local variables
				if v, isv := o.(*types.Var); isv && !v.IsField() && o.Parent() != o.Pkg().Scope() {
					return true
				}
				key := fmt.Sprintf("%s %s:%d", o.Name(), filepath.Base(pos.Filename), pos.Line)
				if spec {
					if used[key] == nil {
						used[key] = map[string]bool{}
					}
					used[key][filepath.Base(name)] = true
				} else {
					pinned[key] = true
				}
				return true
			})
		}
	}
	var keys []string
	for k := range used {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var fs []string
		for f := range used[k] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		fmt.Println(map[bool]string{true: "pinned", false: "FREE"}[pinned[k]], k, fs)
	}
}
