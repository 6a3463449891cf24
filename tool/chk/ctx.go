// Package chk holds the checks.
package chk

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Ctx is one run of one check.
type Ctx struct {
	Property string
	Tier     string
	Repo     string
	Verif    string
	Start    time.Time

	Obls     []Obl
	Analysed map[string]int // what was analysed, by kind
	Notes    []string
	Rules    []string

	root *Module
}

// Obl is one proof obligation.
type Obl struct {
	Rule      string
	Construct string
	OK        bool
	Detail    string
}

// Key identifies an obligation in the file of known findings.
func (o Obl) Key() string { return o.Rule + " @ " + o.Construct }

// Ok records a discharged obligation.
func (c *Ctx) Ok(rule, construct string) {
	c.Obls = append(c.Obls, Obl{Rule: rule, Construct: construct, OK: true})
}

// Bad records a violated obligation.
func (c *Ctx) Bad(rule, construct, format string, args ...interface{}) {
	c.Obls = append(c.Obls, Obl{Rule: rule, Construct: construct, Detail: fmt.Sprintf(format, args...)})
}

// Check records an obligation.
func (c *Ctx) Check(ok bool, rule, construct, format string, args ...interface{}) {
	if ok {
		c.Ok(rule, construct)
		return
	}
	c.Bad(rule, construct, format, args...)
}

// Count counts analysed constructs.
func (c *Ctx) Count(kind string, n int) { c.Analysed[kind] += n }

// Rule documents a rule in the evidence.
func (c *Ctx) Rule(format string, args ...interface{}) {
	c.Rules = append(c.Rules, fmt.Sprintf(format, args...))
}

// Module is a loaded module in SSA form.
type Module struct {
	Dir  string
	Pkgs []*packages.Package
	Prog *ssa.Program
	Path string
	fns  map[string]*ssa.Function
}

const rootPath = "github.com/hexdigest/gowrap"

func inRepo(path string) bool {
	return path == rootPath || strings.HasPrefix(path, rootPath+"/")
}

// Root loads the main module of the repository together with the references.
func (c *Ctx) Root() *Module {
	if c.root != nil {
		return c.root
	}
	if Share && shared != nil {
		c.root = shared
		return c.root
	}
	overlay := map[string][]byte{}
	specs, _ := filepath.Glob(filepath.Join(c.Verif, "spec", "*.go"))
	for _, s := range specs {
		b, err := os.ReadFile(s)
		if err != nil {
			panic(err)
		}
		dir := c.Repo
		base := filepath.Base(s)
		if i := strings.Index(base, "_"); i > 0 && base[:i] != "root" {
			dir = filepath.Join(dir, strings.ReplaceAll(base[:i], "-", "/"))
		}
		overlay[filepath.Join(dir, "zz_verif_"+base)] = b
	}
	c.root = loadNames(c.Repo, c.Verif, overlay, "./...")
	shared = c.root
	return c.root
}

// Share makes several checks of one run use the same loaded program.
var Share bool

var shared *Module

func load(dir string, overlay map[string][]byte, patterns ...string) *Module {
	return loadNames(dir, "", overlay, patterns...)
}

// loadNames loads packages with an overlay of references, which use the names
// recorded in the given directory, if any.
func loadNames(dir, names string, overlay map[string][]byte, patterns ...string) *Module {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		panic(Fatal{fmt.Sprintf("failed to load %s: %v", dir, err)})
	}
	var errs []string
	misfit := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			f := e.Pos
			for strings.Contains(f, ".go:") {
				f = f[:strings.LastIndexByte(f, ':')]
			}
			if _, ok := overlay[f]; ok {
				misfit[f] = true
			}
		}
	})
	if len(misfit) > 0 {
		if names != "" {
			renamed := map[string][]byte{}
			for k, v := range overlay {
				renamed[k] = v
			}
			if oldNames(names, pkgs, renamed) {
				return loadNames(dir, "", renamed, patterns...)
			}
		}
		// renaming does not work
		clash := false
		for f := range misfit {
			clash = clash || !strings.HasPrefix(filepath.Base(f), "zz_verif_")
		}
		if clash {
			for f := range overlay {
				if !strings.HasPrefix(filepath.Base(f), "zz_verif_") {
					delete(overlay, f)
				}
			}
			return load(dir, overlay, patterns...)
		}
		// a reference that does not fit the code any more is left out
		for f := range misfit {
			delete(overlay, f)
		}
		return load(dir, overlay, patterns...)
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		panic(Fatal{"does not type-check: " + strings.Join(errs, "; ")})
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	m := &Module{Dir: dir, Pkgs: pkgs, Prog: prog, fns: map[string]*ssa.Function{}}
	for f := range ssautil.AllFunctions(prog) {
		if f.Synthetic != "" && f.Object() == nil || f.Origin() != nil {
			continue
		}
		if f.Pkg != nil && (inRepo(f.Pkg.Pkg.Path()) || strings.HasPrefix(f.Pkg.Pkg.Path(), "verif.local")) {
			m.fns[f.RelString(nil)] = f
		}
	}
	return m
}

// Fatal stops a check that cannot be decided.
type Fatal struct{ Msg string }

func (f Fatal) Error() string { return f.Msg }

// Fn finds a function of the repository; the name is relative to the module,
// such as generator.NewGenerator or (generator.Method).Call.
func (m *Module) Fn(name string) *ssa.Function {
	full := fullName(name)
	return m.fns[full]
}

func fullName(name string) string {
	star := ""
	if strings.HasPrefix(name, "(") {
		n := name[1:]
		if strings.HasPrefix(n, "*") {
			star, n = "*", n[1:]
		}
		if strings.HasPrefix(n, ".") {
			return "(" + star + rootPath + n
		}
		return "(" + star + rootPath + "/" + n
	}
	if strings.HasPrefix(name, ".") {
		return rootPath + name
	}
	return rootPath + "/" + name
}

// Pkg finds a package of the repository.
func (m *Module) Pkg(path string) *packages.Package {
	for _, p := range m.Pkgs {
		if p.PkgPath == path {
			return p
		}
	}
	return nil
}

// Pos renders a position relative to the repository.
func (m *Module) Pos(f *ssa.Function) string {
	p := m.Prog.Fset.Position(f.Pos())
	rel, err := filepath.Rel(m.Dir, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	return fmt.Sprintf("%s:%d", rel, p.Line)
}

// Checks by property.
var Checks = map[string]func(c *Ctx){}

// Techniques by property, for the evidence.
var Techniques = map[string]string{}

func register(id string, f func(c *Ctx)) { Checks[id] = f }

// Run runs a check and reports; it returns the exit status.
func Run(property, tier, repo, verif string) int {
	c := &Ctx{Property: property, Tier: tier, Repo: repo, Verif: verif, Start: time.Now(), Analysed: map[string]int{}}
	f := Checks[property]
	if f == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", property)
		return 2
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(Fatal); ok {
					c.Bad("the analysed code must be understood", "load", "%s", e.Msg)
					return
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
				c.Bad("the analysed code must be understood", "analysis", "internal failure: %v", r)
			}
		}()
		f(c)
	}()
	if len(c.Obls) == 0 {
		c.Bad("the check must not be vacuous", "obligations", "no obligation was generated")
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), property)
	var bad []Obl
	status := 0
	for _, o := range c.Obls {
		if o.OK {
			continue
		}
		if k := known[o.Key()]; k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", property, o.Key())
			continue
		}
		bad = append(bad, o)
	}
	replay := filepath.Join(verif, "evidence", property+".replay.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	if len(bad) > 0 {
		status = 1
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "rule: %s\nconstruct: %s\n%s\n\n", o.Rule, o.Construct, o.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, o := range bad {
			if i == 20 {
				fmt.Printf("... and %d more\n", len(bad)-i)
				break
			}
			d := o.Detail
			if j := strings.IndexByte(d, '\n'); j >= 0 {
				d = d[:j]
			}
			if len(d) > 300 {
				d = d[:300] + "…"
			}
			fmt.Printf("%s: %s: %s\n", o.Construct, o.Rule, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", property, replay)
	} else {
		os.Remove(replay)
	}
	c.evidence(len(bad))
	return status
}

func (c *Ctx) evidence(nbad int) {
	var lines []string
	var kinds []string
	for k := range c.Analysed {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		lines = append(lines, fmt.Sprintf("%s: %d", k, c.Analysed[k]))
	}
	byRule := map[string]int{}
	var rules []string
	for _, o := range c.Obls {
		if byRule[o.Rule] == 0 {
			rules = append(rules, o.Rule)
		}
		byRule[o.Rule]++
	}
	for _, r := range rules {
		var cs []string
		for _, o := range c.Obls {
			if o.Rule == r {
				s := o.Construct
				if !o.OK {
					s += " (VIOLATED)"
				}
				cs = append(cs, s)
			}
		}
		if len(cs) > 12 {
			cs = append(cs[:12], fmt.Sprintf("... %d more", len(cs)-12))
		}
		lines = append(lines, fmt.Sprintf("obligation %q decided on %d constructs: %s", r, byRule[r], strings.Join(cs, ", ")))
	}
	for _, r := range c.Rules {
		lines = append(lines, "rule: "+r)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property":   c.Property,
		"tier":       c.Tier,
		"seed":       seed,
		"level":      "other",
		"violations": nbad,
		"wall_s":     time.Since(c.Start).Seconds(),
		"coverage": map[string]interface{}{
			"explanation": fmt.Sprintf("static analysis of the current tree of %s; %d obligations, %d violated. ", c.Repo, len(c.Obls), nbad) + strings.Join(lines, "; "),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.Verif, "evidence", c.Property+".json"), append(b, '\n'), 0o644)
}

func readKnown(file, property string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		p := "known: property=" + property + " "
		if strings.HasPrefix(l, p) {
			m[strings.TrimPrefix(l, p)] = true
		}
	}
	return m
}

// experimental checks run with VERIF_DEBUG only.
func experimental(id string, f func(c *Ctx)) {
	if os.Getenv("VERIF_DEBUG") != "" {
		Checks[id] = f
	}
}
