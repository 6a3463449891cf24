package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"verif.local/tool/vg"
)

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || f.Blocks == nil {
			continue
		}
		n := vg.FuncName(f)
		for _, w := range os.Args[2:] {
			if n == w || strings.HasSuffix(n, w) && strings.Contains(n, "gowrap") {
				x := vg.NewExec(prog, &vg.Config{Module: func(p string) bool { return strings.HasPrefix(p, "github.com/hexdigest/gowrap") }, Classify: func(n string) vg.Kind {
					for _, o := range strings.Fields(os.Getenv("OPAQUE")) {
						if e := strings.TrimSuffix(o, "!"); strings.HasSuffix(n, e) {
							if e != o {
								return vg.Effect
							}
							return vg.Pure
						}
					}
					return vg.Default
				}})
				if os.Getenv("ERRS") == "" {
					for i := 0; i < f.Signature.Results().Len(); i++ {
						if f.Signature.Results().At(i).Type().String() == "error" {
							x.ErrIdx = i + 1
						}
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(vg.Undecided); ok {
								fmt.Println("UNDECIDED", n, u.Reason)
								return
							}
							panic(r)
						}
					}()
					t := x.Func(f)
					fmt.Println("==", n)
					fmt.Println(t.Tree())
				}()
			}
		}
	}
}
