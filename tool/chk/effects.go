package chk

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	ruleEffect  = "what is referred to outside of the repository has no effect the policy does not allow"
	ruleReaches = "an operation without output reaches nothing that writes"
	ruleGet     = "requests are GET requests and processes are queries of git or go"
)

// repoFuncs are the functions of the repository that are part of the tool.
func (c *Ctx) repoFuncs() []*ssa.Function {
	m := c.Root()
	var l []*ssa.Function
	for f := range ssautil.AllFunctions(m.Prog) {
		p := f.Pkg
		if p == nil && f.Parent() != nil {
			p = f.Parent().Pkg
		}
		if p == nil || !inRepo(p.Pkg.Path()) || strings.Contains(p.Pkg.Path(), "templates_tests") || f.Blocks == nil {
			continue
		}
		if n := m.Prog.Fset.Position(f.Pos()).Filename; strings.Contains(n, "zz_verif_") || strings.HasSuffix(n, "_test.go") || strings.Contains(n, "_mock") {
			continue
		}
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Pos() != l[j].Pos() {
			return l[i].Pos() < l[j].Pos()
		}
		return l[i].String() < l[j].String()
	})
	return l
}

// effectKind is what a function or variable outside of the repository does:
// "" nothing of interest, "write" files, "net", "exec", or "forbidden".
func effectKind(o types.Object) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	p, n := o.Pkg().Path(), o.Name()
	recv := ""
	if f, ok := o.(*types.Func); ok {
		if r := f.Type().(*types.Signature).Recv(); r != nil {
			t := r.Type()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if d, ok := t.(*types.Named); ok {
				recv = d.Obj().Name()
			}
		}
	}
	if recv != "" {
		n = recv + "." + n
	}
	switch {
	case p == "os":
		if strings.HasPrefix(n, "File.") {
			switch n[5:] {
			case "Write", "WriteString", "WriteAt", "ReadFrom", "Truncate", "Chmod", "Chown", "Sync":
				return "write"
			}
			return ""
		}
		switch n {
		case "WriteFile", "MkdirAll", "Mkdir":
			return "write"
		case "Create", "CreateTemp", "MkdirTemp", "OpenFile", "OpenRoot", "CopyFS",
			"Remove", "RemoveAll", "Rename", "Truncate", "Chmod", "Chown", "Lchown", "Chtimes", "Link", "Symlink",
			"Setenv", "Unsetenv", "Clearenv", "Chdir", "StartProcess", "NewFile", "Pipe":
			return "forbidden"
		}
		if strings.HasPrefix(n, "Process.") || strings.HasPrefix(n, "Root.") {
			return "forbidden"
		}
		return ""
	case p == "io/ioutil":
		switch n {
		case "WriteFile":
			return "write"
		case "TempDir", "TempFile":
			return "forbidden"
		}
		return ""
	case p == "os/exec":
		switch n {
		case "LookPath":
			return ""
		case "Command", "CommandContext":
			return "exec"
		}
		if strings.HasPrefix(n, "Cmd.") || strings.HasPrefix(n, "Error.") || strings.HasPrefix(n, "ExitError.") || recv == "" {
			return ""
		}
		return "forbidden"
	case p == "net/http":
		switch n {
		case "NewRequest", "NewRequestWithContext", "Get", "Client.Get":
			return "net"
		case "Post", "PostForm", "Head", "Client.Post", "Client.PostForm", "Client.Head", "ListenAndServe", "ListenAndServeTLS", "Serve", "ServeTLS", "Handle", "HandleFunc", "ReadRequest":
			return "forbidden"
		}
		if strings.HasPrefix(n, "Server.") || strings.HasPrefix(n, "Transport.") {
			return "forbidden"
		}
		return ""
	case p == "net" || p == "net/rpc" || p == "net/smtp" || p == "syscall" || p == "plugin" || p == "os/signal" || strings.HasPrefix(p, "golang.org/x/sys/"):
		if _, ok := o.(*types.Func); ok {
			return "forbidden"
		}
	}
	return ""
}

func constString(v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// variadicStrings are the constant elements of the slice made for a variadic call.
func variadicStrings(v ssa.Value) ([]string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	vals := map[int64]string{}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, rr := range *r.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok {
					return nil, false
				}
				t, ok := constString(st.Val)
				if !ok {
					t = "\x00"
				}
				vals[i.Int64()] = t
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	l := make([]string, len(vals))
	for i, t := range vals {
		if int(i) >= len(l) {
			return nil, false
		}
		l[i] = t
	}
	return l, true
}

func (c *Ctx) effects() {
	m := c.Root()
	funcs := c.repoFuncs()
	writers := map[*ssa.Function]string{}
	callees := map[*ssa.Function][]*ssa.Function{}
	methods := map[string][]*ssa.Function{}
	for _, f := range funcs {
		if f.Signature.Recv() != nil {
			methods[f.Name()] = append(methods[f.Name()], f)
		}
	}
	var all []*ssa.Function
	for _, f := range funcs {
		all = append(all, f)
		p := f.Pkg
		if p == nil {
			p = f.Parent().Pkg
		}
		path := p.Pkg.Path()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall && ci.Common().IsInvoke() {
					for _, g := range methods[ci.Common().Method.Name()] {
						if implements(g, ci.Common()) {
							callees[f] = append(callees[f], g)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g.Pkg != nil && inRepo(g.Pkg.Pkg.Path()) || g.Parent() != nil {
						callees[f] = append(callees[f], g)
						continue
					}
					c.Count("references to functions outside of the repository", 1)
					kind := effectKind(g.Object())
					on := f.RelString(nil) + " refers to " + g.RelString(nil)
					pos := m.Prog.Fset.Position(in.Pos()).String()
					if pos == "-" || pos == "" {
						pos = m.Pos(f)
					}
					switch kind {
					case "":
						continue
					case "forbidden":
						c.Bad(ruleEffect, on, "%s: %s", pos, on)
						continue
					case "write":
						writers[f] = on
						if path != rootPath {
							c.Bad(ruleEffect, on, "%s: files are written outside of the commands: %s", pos, on)
							continue
						}
					case "net", "exec":
						if path != rootPath+"/loader" && path != rootPath+"/pkg" {
							c.Bad(ruleEffect, on, "%s: %s outside of the loaders of templates and packages", pos, on)
							continue
						}
						if !isCall || ci.Common().Value != *op {
							c.Bad(ruleGet, on, "%s: the arguments of %s are not known", pos, g.Name())
							continue
						}
						if msg := request(g.Name(), ci.Common().Args); msg != "" {
							c.Bad(ruleGet, on, "%s: %s", pos, msg)
							continue
						}
						c.Ok(ruleGet, on)
					}
					c.Ok(ruleEffect, on)
				}
			}
		}
	}
	c.Count("functions", len(all))
	// what only reads
	quiet := []string{"(*.TemplateCommand).list", "cmd/gowrap.help", ".Usage", "(.BaseCommand).HelpMessage", "generator.NewGenerator", "(generator.Generator).Generate",
		"(loader.Loader).List", "(loader.Loader).Load", "pkg.Load", "pkg.AST", "(.loader).Load", "(*.GenerateCommand).getOptions"}
	for _, n := range quiet {
		f := m.Fn(n)
		if f == nil {
			continue
		}
		seen := map[*ssa.Function]bool{}
		bad := ""
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			if w := writers[g]; w != "" && bad == "" {
				bad = w
			}
			for _, h := range callees[g] {
				visit(h)
			}
		}
		visit(f)
		c.Check(bad == "", ruleReaches, n, "%s: it reaches %s", m.Pos(f), bad)
	}
}

// implements reports whether a method can be the target of a call by interface.
func implements(g *ssa.Function, cc *ssa.CallCommon) bool {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	r := g.Signature.Recv().Type()
	return types.Implements(r, it) || types.Implements(types.NewPointer(r), it)
}

// request checks the arguments of a call that makes a request or starts a process.
func request(name string, args []ssa.Value) string {
	switch name {
	case "NewRequest", "NewRequestWithContext":
		if name == "NewRequestWithContext" {
			args = args[1:]
		}
		if s, ok := constString(args[0]); !ok || s != "GET" && s != "" {
			return "the method of a request is not GET"
		}
		if k, ok := args[2].(*ssa.Const); !ok || k.Value != nil {
			if l, ok := args[2].(*ssa.MakeInterface); !ok || !strings.HasSuffix(l.X.Type().String(), "net/http.noBody") {
				return "a request has a body"
			}
		}
	case "Command", "CommandContext":
		if name == "CommandContext" {
			args = args[1:]
		}
		prog, ok := constString(args[0])
		l, ok2 := variadicStrings(args[1])
		if !ok || !ok2 {
			return "the command that is started is not a constant"
		}
		sub := ""
		if len(l) > 0 {
			sub = l[0]
		}
		switch prog + " " + sub {
		case "git rev-parse", "go list", "go env":
		default:
			return "the command " + prog + " " + sub + " is started"
		}
	}
	return ""
}

func init() {
	register("C17", func(c *Ctx) {
		c.effects()
		c.same(vgOpts{classify: opaque("getOptions!", "generator.NewGenerator!", "Generate!")}, pair{fn: "(*.GenerateCommand).Run", spec: ".specRun"})
		c.same(vgOpts{classify: opaque("TemplateCommand).list!", "TemplateCommand).fetch!")}, pair{fn: "(*.TemplateCommand).Run", spec: ".specTemplateRun"})
		c.same(vgOpts{}, pair{fn: "(*.TemplateCommand).fetch", spec: ".specTemplateFetch"})
		c.same(vgOpts{rewrite: flagTable}, pair{fn: ".NewGenerateCommand", spec: ".specNewGenerate"})
		c.same(vgOpts{}, pair{fn: "(loader.Loader).get", spec: "loader.specGet"})
	})
}
