package chk

import (
	"fmt"
	"go/parser"
	"go/token"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"verif.local/tool/vg"
)

// The text made by a template without calls of methods is a sequence of literal
// text and holes for values, for each combination of its conditions.

// tpiece is literal text, a hole or a repetition.
type tpiece struct {
	lit  string
	hole string   // the expression
	over string   // of a repetition
	body []tpiece // repeated
}

// tcase is what a template makes under some conditions.
type tcase struct {
	conds map[string]bool
	out   []tpiece
}

type twalk struct {
	err   error
	files map[string]*parse.Tree
	nelem int
}

func (w *twalk) fail(n parse.Node, format string, a ...interface{}) {
	if w.err == nil {
		w.err = fmt.Errorf("%s in %q", fmt.Sprintf(format, a...), n.String())
	}
}

// tscope is what the dot and the variables mean.
type tscope struct {
	dot  string
	vars map[string]string
}

func (s tscope) with(name, v string) tscope {
	m := map[string]string{}
	for k, e := range s.vars {
		m[k] = e
	}
	m[name] = v
	return tscope{s.dot, m}
}

func chain(base string, l []string) string {
	for _, f := range l {
		base += "." + f
	}
	return strings.TrimPrefix(base, ".")
}

// expr is an expression in a form without variables.
func (w *twalk) expr(s tscope, n parse.Node) string {
	switch n := n.(type) {
	case *parse.FieldNode:
		return chain(s.dot, n.Ident)
	case *parse.VariableNode:
		v, ok := s.vars[n.Ident[0]]
		if !ok {
			w.fail(n, "unknown variable")
		}
		return chain(v, n.Ident[1:])
	case *parse.DotNode:
		return s.dot
	case *parse.StringNode:
		return strconv.Quote(n.Text)
	case *parse.BoolNode, *parse.NumberNode, *parse.NilNode:
		return n.String()
	case *parse.ChainNode:
		return chain(w.expr(s, n.Node), n.Field)
	case *parse.PipeNode:
		return w.pipe(s, n)
	case *parse.IdentifierNode:
		return n.Ident + "()"
	}
	w.fail(n, "an expression of an unknown kind")
	return ""
}

func (w *twalk) pipe(s tscope, p *parse.PipeNode) string {
	val := ""
	for i, c := range p.Cmds {
		var args []string
		f, isFn := c.Args[0].(*parse.IdentifierNode)
		if !isFn {
			if len(c.Args) > 1 || i > 0 {
				w.fail(c, "a call of a method")
				return ""
			}
			val = w.expr(s, c.Args[0])
			continue
		}
		for _, a := range c.Args[1:] {
			args = append(args, w.expr(s, a))
		}
		if i > 0 {
			args = append(args, val)
		}
		switch name := f.Ident; {
		case name == "not" && len(args) == 1:
			val = "!" + args[0]
			if strings.HasPrefix(args[0], "!") {
				val = args[0][1:]
			}
		case (name == "print" || name == "toString") && len(args) == 1:
			val = args[0]
		case name == "printf" && len(args) == 2 && (args[0] == `"%s"` || args[0] == `"%v"`):
			val = args[1]
		case name == "printf" && len(args) == 2 && args[0] == `"%q"`:
			val = "quoted(" + args[1] + ")"
		default:
			val = name + "(" + strings.Join(args, ",") + ")"
		}
	}
	return val
}

func (w *twalk) seq(cases []tcase, s *tscope, l []parse.Node) []tcase {
	for _, n := range l {
		if w.err != nil {
			return nil
		}
		cases = w.node(cases, s, n)
	}
	return cases
}

func add(cases []tcase, p tpiece) []tcase {
	r := make([]tcase, len(cases))
	for i, c := range cases {
		r[i] = tcase{c.conds, append(append([]tpiece(nil), c.out...), p)}
	}
	return r
}

// branch does something under a condition and something else otherwise.
func branch(cases []tcase, cond string, yes, no func(l []tcase) []tcase) []tcase {
	want := true
	if strings.HasPrefix(cond, "!") {
		cond, want = cond[1:], false
	}
	var r []tcase
	for _, c := range cases {
		for _, v := range []bool{true, false} {
			if k, ok := c.conds[cond]; ok && k != v {
				continue
			}
			m := map[string]bool{cond: v}
			for a, b := range c.conds {
				m[a] = b
			}
			one := []tcase{{m, c.out}}
			if v == want {
				r = append(r, yes(one)...)
			} else {
				r = append(r, no(one)...)
			}
		}
	}
	return r
}

func (w *twalk) node(cases []tcase, s *tscope, n parse.Node) []tcase {
	list := func(s tscope, l *parse.ListNode) func([]tcase) []tcase {
		return func(c []tcase) []tcase {
			if l == nil {
				return c
			}
			return w.seq(c, &s, l.Nodes)
		}
	}
	switch n := n.(type) {
	case *parse.TextNode:
		return add(cases, tpiece{lit: string(n.Text)})
	case *parse.CommentNode:
		return cases
	case *parse.ActionNode:
		v := w.pipe(*s, n.Pipe)
		if len(n.Pipe.Decl) > 0 {
			if n.Pipe.IsAssign {
				w.fail(n, "an assignment")
			}
			*s = s.with(n.Pipe.Decl[0].Ident[0], v)
			return cases
		}
		if t, err := strconv.Unquote(v); err == nil {
			return add(cases, tpiece{lit: t})
		}
		return add(cases, tpiece{hole: v})
	case *parse.IfNode:
		return branch(cases, w.pipe(*s, n.Pipe), list(*s, n.List), list(*s, n.ElseList))
	case *parse.WithNode:
		v := w.pipe(*s, n.Pipe)
		in := *s
		if len(n.Pipe.Decl) > 0 {
			in = in.with(n.Pipe.Decl[0].Ident[0], v)
		}
		in.dot = v
		return branch(cases, v, list(in, n.List), list(*s, n.ElseList))
	case *parse.RangeNode:
		if n.ElseList != nil {
			w.fail(n, "an else branch of a range")
			return nil
		}
		v := w.pipe(*s, n.Pipe)
		in := *s
		w.nelem++
		el, key := fmt.Sprintf("elem(%s)", v), fmt.Sprintf("key(%s)", v)
		in.dot = el
		switch d := n.Pipe.Decl; len(d) {
		case 1:
			in = in.with(d[0].Ident[0], el)
		case 2:
			in = in.with(d[0].Ident[0], key).with(d[1].Ident[0], el)
		}
		b := w.seq([]tcase{{conds: map[string]bool{}}}, &in, n.List.Nodes)
		if len(b) != 1 {
			w.fail(n, "conditions inside of a repetition")
			return nil
		}
		return add(cases, tpiece{over: v, body: b[0].out})
	case *parse.ListNode:
		return w.seq(cases, s, n.Nodes)
	}
	w.fail(n, "an action of an unknown kind")
	return nil
}

// templateCases are the texts made by a template.
func templateCases(text string) ([]tcase, error) {
	t := parse.New("t")
	t.Mode = parse.SkipFuncCheck
	t, err := t.Parse(text, "", "", map[string]*parse.Tree{})
	if err != nil {
		return nil, err
	}
	w := &twalk{}
	s := &tscope{vars: map[string]string{"$": ""}}
	r := w.seq([]tcase{{conds: map[string]bool{}}}, s, t.Root.Nodes)
	return r, w.err
}

const (
	rulePackage = "the header starts with the marker of generated code and the package clause of the destination"
	ruleDirect  = "the directive repeats the arguments of the invocation"
	ruleImports = "the header imports what is listed and nothing else"
	ruleHeader  = "the header template is decided"
	holeMark    = "\x00"
)

// header checks the text of the header of generated files, for some rules.
func (c *Ctx) header(rules ...string) {
	all := c.Obls
	c.Obls = nil
	c.headerText()
	for _, o := range c.Obls {
		keep := o.Rule == ruleHeader
		for _, r := range rules {
			keep = keep || o.Rule == r
		}
		if keep {
			all = append(all, o)
		}
	}
	c.Obls = all
}

func (c *Ctx) headerText() {
	m := c.Root()
	name := "header template"
	f := m.Fn("(*.GenerateCommand).getOptions")
	if f == nil {
		c.Bad(ruleHeader, name, "the function that makes the options of the generator does not exist any more")
		return
	}
	x := c.newExec(vgOpts{classify: opaque("gowrap.varsToArgs", "gowrap/pkg.Load!")})
	t, err := c.graph(x, f, nil)
	if err != nil {
		c.Bad(ruleHeader, name, "%s: not decided: %v", m.Pos(f), err)
		return
	}
	texts := map[string]bool{}
	vg.Walk(t, func(s *vg.Term) bool {
		if s.Op == "struct" {
			l := strings.Split(s.Aux, ",")
			if strings.HasSuffix(l[0], "generator.Options") {
				for i, n := range l[1:] {
					if n == "HeaderTemplate" {
						if s.Args[i].Op == "str" {
							texts[s.Args[i].Aux] = true
						} else {
							texts["\x00"] = true
						}
					}
				}
			}
		}
		return true
	})
	if len(texts) != 1 || texts["\x00"] {
		c.Bad(ruleHeader, name, "%s: the header template is not a constant", m.Pos(f))
		return
	}
	for text := range texts {
		cases, err := templateCases(text)
		if err != nil {
			c.Bad(ruleHeader, name, "%s: the header template is not decided: %v", m.Pos(f), err)
			return
		}
		c.Count("cases of the header template", len(cases))
		for _, k := range cases {
			c.headerCase(m.Pos(f), k)
		}
	}
}

var (
	markerLine = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)
	packLine   = regexp.MustCompile(`^package\s`)
)

func (c *Ctx) headerCase(pos string, k tcase) {
	var conds []string
	for n, v := range k.conds {
		conds = append(conds, fmt.Sprintf("%s=%v", n, v))
	}
	sort.Strings(conds)
	on := "header template if " + strings.Join(conds, ", ")
	known := map[string]bool{"Options.HeaderVars.DisableGoGenerate": true, "Options.LocalPrefix": true, "Options.HeaderVars.VarsArgs": true, "Options.Imports": true}
	for n := range k.conds {
		if !known[n] {
			c.Bad(ruleHeader, on, "%s: the header depends on %s", pos, n)
			return
		}
	}
	// the text with marks in the place of holes
	var b strings.Builder
	var holes []string
	var put func(l []tpiece, times int)
	reps := 0
	put = func(l []tpiece, times int) {
		for _, p := range l {
			switch {
			case p.over != "":
				reps++
				for i := 0; i < times; i++ {
					put(p.body, times)
				}
			case p.hole != "":
				fmt.Fprintf(&b, "%s%d%s", holeMark, len(holes), holeMark)
				holes = append(holes, p.hole)
			default:
				b.WriteString(p.lit)
			}
		}
	}
	for _, times := range []int{0, 1, 2} {
		b.Reset()
		holes, reps = nil, 0
		put(k.out, times)
		if empty, ok := k.conds["Options.Imports"]; ok && empty == (times > 0) {
			continue
		}
		lines := strings.Split(b.String(), "\n")
		hole := func(s string) string {
			s = strings.TrimSpace(s)
			if !strings.HasPrefix(s, holeMark) || !strings.HasSuffix(s, holeMark) || strings.Count(s, holeMark) != 2 {
				return ""
			}
			i, err := strconv.Atoi(strings.Trim(s, holeMark))
			if err != nil {
				return ""
			}
			return holes[i]
		}
		// marker and package
		packs, marker := 0, -1
		src := ""
		var directives []string
		nimp := 0
		for i, l := range lines {
			if markerLine.MatchString(strings.TrimSuffix(l, "\r")) && marker < 0 {
				marker = i
				if packs > 0 {
					c.Bad(rulePackage, on, "%s: the marker is behind the package clause", pos)
					return
				}
			}
			if strings.HasPrefix(l, "//go:generate") {
				directives = append(directives, l)
			}
			if strings.HasPrefix(strings.TrimSpace(l), "//") {
				src += "//\n"
				continue
			}
			if packLine.MatchString(l) {
				packs++
				if h := hole(strings.TrimPrefix(l, "package")); h != "Package.Name" {
					c.Bad(rulePackage, on, "%s: the package clause is %q", pos, l)
					return
				}
				src += "package p\n"
				continue
			}
			if h := hole(l); h == "elem(Options.Imports)" {
				nimp++
				src += fmt.Sprintf("_ \"x%d\"\n", nimp)
				continue
			}
			if strings.Contains(l, holeMark) {
				c.Bad(ruleImports, on, "%s: %q is put into a line with something else", pos, holes)
				return
			}
			src += l + "\n"
		}
		if marker < 0 || packs != 1 {
			c.Bad(rulePackage, on, "%s: there is no marker of generated code in a line of its own or no package clause", pos)
			return
		}
		file, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
		if err != nil {
			c.Bad(ruleImports, on, "%s: the header is not the start of a Go file: %v", pos, err)
			return
		}
		n := 0
		for range file.Imports {
			n++
		}
		if nimp != times || n != times || len(file.Decls) > 1 {
			c.Bad(ruleImports, on, "%s: %d imports are made of %d", pos, n, times)
			return
		}
		if times > 0 {
			continue
		}
		if k.conds["Options.HeaderVars.DisableGoGenerate"] {
			if len(directives) > 0 {
				c.Bad(ruleDirect, on, "%s: there is a directive although it is disabled", pos)
				return
			}
			continue
		}
		if len(directives) != 1 {
			c.Bad(ruleDirect, on, "%s: there are %d directives", pos, len(directives))
			return
		}
		if msg := directive(directives[0], holes, k.conds); msg != "" {
			c.Bad(ruleDirect, on, "%s: %s", pos, msg)
			return
		}
	}
	c.Ok(rulePackage, on)
	c.Ok(ruleImports, on)
	c.Ok(ruleDirect, on)
}

// directive splits a directive as go generate does and compares the arguments.
func directive(line string, holes []string, conds map[string]bool) string {
	if !strings.HasPrefix(line, "//go:generate ") {
		return "go generate does not recognise the directive"
	}
	const varsArgs = "Options.HeaderVars.VarsArgs"
	rest := strings.TrimSuffix(strings.TrimPrefix(line, "//go:generate "), "\r")
	// arguments in a form that is parsed back: quoted if need be, or without blanks and quotes
	safe := map[string]bool{"Options.HeaderVars.TemplateArg": true, "Options.HeaderVars.OutputFileName": true, "SourcePackage.PkgPath": true, "Options.SourcePackage": true, "Options.InterfaceName": true}
	var words []string
	vars := 0
	for {
		rest = strings.TrimLeft(rest, " \t")
		if rest == "" {
			break
		}
		i := strings.IndexAny(rest, " \t")
		if i < 0 {
			i = len(rest)
		}
		w := rest[:i]
		rest = rest[i:]
		// the variables are behind a word, with a blank before each of them
		for j, h := range holes {
			mark := fmt.Sprintf("%s%d%s", holeMark, j, holeMark)
			if h == varsArgs && strings.HasSuffix(w, mark) {
				w = strings.TrimSuffix(w, mark)
				vars++
				break
			}
		}
		if w == "" {
			continue
		}
		if !strings.Contains(w, holeMark) {
			if strings.HasPrefix(w, `"`) {
				q, err := strconv.Unquote(w)
				if err != nil {
					return fmt.Sprintf("%s is not a quoted argument", w)
				}
				w = q
			}
			if strings.Contains(w, "$") {
				return "go generate substitutes " + w
			}
			words = append(words, w)
			continue
		}
		if strings.Count(w, holeMark) != 2 || !strings.HasPrefix(w, holeMark) || !strings.HasSuffix(w, holeMark) {
			return fmt.Sprintf("the argument %q with the value of %q is not parsed back", w, holes)
		}
		j, _ := strconv.Atoi(strings.Trim(w, holeMark))
		h := holes[j]
		if strings.HasPrefix(h, "quoted(") || strings.HasPrefix(h, "quote(") {
			h = strings.TrimSuffix(h[strings.IndexByte(h, '(')+1:], ")")
		} else if !safe[h] {
			return fmt.Sprintf("the value of %s is not quoted", h)
		}
		words = append(words, "{"+h+"}")
	}
	if len(words) < 2 || words[0] != "gowrap" || words[1] != "gen" {
		return fmt.Sprintf("the command is %q", words)
	}
	got := map[string]string{}
	for i := 2; i < len(words); i += 2 {
		n := strings.TrimPrefix(strings.TrimPrefix(words[i], "-"), "-")
		if n == words[i] || i+1 == len(words) {
			return fmt.Sprintf("%q is not a flag with a value", words[i])
		}
		if _, ok := got[n]; ok {
			return fmt.Sprintf("-%s is given twice", n)
		}
		got[n] = words[i+1]
	}
	if got["p"] == "{Options.SourcePackage}" {
		got["p"] = "{SourcePackage.PkgPath}"
	}
	want := map[string]string{"p": "{SourcePackage.PkgPath}", "i": "{Options.InterfaceName}", "t": "{Options.HeaderVars.TemplateArg}", "o": "{Options.HeaderVars.OutputFileName}", "l": "{Options.LocalPrefix}"}
	if set, ok := conds["Options.LocalPrefix"]; ok && !set && (got["l"] == "" || got["l"] == `""`) {
		delete(want, "l")
		delete(got, "l")
	}
	for n, v := range want {
		if got[n] != v {
			return fmt.Sprintf("-%s is given %s instead of %s", n, got[n], v)
		}
		delete(got, n)
	}
	for n := range got {
		return fmt.Sprintf("-%s is given", n)
	}
	if set, ok := conds[varsArgs]; vars != 1 && !(ok && !set && vars == 0) {
		return fmt.Sprintf("the variables are given %d times", vars)
	}
	return ""
}

// noHeader hides the text of the header.
func noHeader(u *vg.U, t *vg.Term) *vg.Term {
	any := u.Raw("hidden", "")
	return fixMap(u, t, func(s *vg.Term) *vg.Term {
		if s.Op != "struct" {
			return nil
		}
		l := strings.Split(s.Aux, ",")
		if !strings.HasSuffix(l[0], "generator.Options") {
			return nil
		}
		for i, n := range l[1:] {
			if n == "HeaderTemplate" && s.Args[i] != any {
				args := append([]*vg.Term(nil), s.Args...)
				args[i] = any
				return u.Raw("struct", s.Aux, args...)
			}
		}
		return nil
	})
}
