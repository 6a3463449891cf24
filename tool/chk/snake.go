package chk

import (
	"regexp/syntax"
	"strconv"
	"strings"

	"verif.local/tool/vg"
)

// replacement is a call of ReplaceAllString with constants.
type replacement struct {
	re    *syntax.Regexp
	parts []string // what is put instead: "$1" or text
}

// pattern of a constant regular expression.
func pattern(t *vg.Term) *syntax.Regexp {
	if t.Op != "call" || !strings.HasPrefix(t.Aux, "regexp.MustCompile") || len(t.Args) != 1 || t.Args[0].Op != "str" {
		return nil
	}
	re, err := syntax.Parse(t.Args[0].Aux, syntax.Perl)
	if err != nil {
		return nil
	}
	return re
}

// template splits what Expand puts instead of a match.
func template(s string) []string {
	var r []string
	text := ""
	for len(s) > 0 {
		if s[0] != '$' || len(s) == 1 {
			text, s = text+s[:1], s[1:]
			continue
		}
		if s[1] == '$' {
			text, s = text+"$", s[2:]
			continue
		}
		name, rest := "", ""
		if s[1] == '{' {
			i := strings.IndexByte(s, '}')
			if i < 0 {
				text, s = text+"$", s[1:]
				continue
			}
			name, rest = s[2:i], s[i+1:]
		} else {
			i := 1
			for i < len(s) && (s[i] == '_' || '0' <= s[i] && s[i] <= '9' || 'a' <= s[i] && s[i] <= 'z' || 'A' <= s[i] && s[i] <= 'Z') {
				i++
			}
			name, rest = s[1:i], s[i:]
		}
		if text != "" {
			r = append(r, text)
		}
		text, s = "", rest
		r = append(r, "$"+name)
	}
	if text != "" {
		r = append(r, text)
	}
	return r
}

// regexps gives equivalent constants of replacements the same form.
func regexps(u *vg.U, t *vg.Term) *vg.Term {
	return fixMap(u, t, func(s *vg.Term) *vg.Term {
		if re := pattern(s); re != nil {
			if n := u.Str(re.Simplify().String()); n != s.Args[0] {
				return u.Raw("call", s.Aux, n)
			}
			return nil
		}
		if s.Op == "call" && strings.HasSuffix(s.Aux, "regexp.Regexp).ReplaceAllString") && len(s.Args) == 3 && s.Args[2].Op == "str" {
			n := ""
			for _, p := range template(s.Args[2].Aux) {
				if strings.HasPrefix(p, "$") && p != "$" {
					p = "${" + p[1:] + "}"
				} else {
					p = strings.ReplaceAll(p, "$", "$$")
				}
				n += p
			}
			if n != s.Args[2].Aux {
				return u.Raw("call", s.Aux, s.Args[0], s.Args[1], u.Str(n))
			}
		}
		return nil
	})
}

// conserves checks that a replacement puts back everything that it matches and
// adds nothing but underscores between.
func conserves(re *syntax.Regexp, parts []string) string {
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	for i, s := range subs {
		if s.Op != syntax.OpCapture || s.Cap != i+1 {
			return "part " + strconv.Itoa(i+1) + " of the match is not in a group of its own"
		}
	}
	next := 1
	for _, p := range parts {
		switch {
		case p == "$"+strconv.Itoa(next):
			next++
		case strings.Trim(p, "_") == "":
		default:
			return "the replacement puts " + strconv.Quote(p) + " where group " + strconv.Itoa(next) + " is due"
		}
	}
	if next != len(subs)+1 {
		return "the replacement leaves out group " + strconv.Itoa(next)
	}
	return ""
}

func init() {
	const rule = "each replacement puts back all groups of its match, in order, and adds underscores only"
	register("C46", func(c *Ctx) {
		c.same(vgOpts{init: true, rewrite: regexps}, pair{fn: ".toSnakeCase", spec: ".specSnake"})
		f := c.Root().Fn(".toSnakeCase")
		if f == nil {
			c.Bad(rule, ".toSnakeCase", "the function does not exist any more")
			return
		}
		x := c.newExec(vgOpts{init: true})
		t, err := c.graph(x, f, nil)
		if err != nil {
			c.Bad(rule, ".toSnakeCase", "not decided: %v", err)
			return
		}
		for n := range callsIn(t, "regexp.Regexp).ReplaceAllString") {
			re := pattern(n.Args[0])
			if re == nil || n.Args[2].Op != "str" {
				c.Bad(rule, ".toSnakeCase", "a replacement without constants: %s", n)
				continue
			}
			if bad := conserves(re, template(n.Args[2].Aux)); bad != "" {
				c.Bad(rule, ".toSnakeCase "+n.Args[0].Args[0].Aux, "%s", bad)
				continue
			}
			c.Ok(rule, ".toSnakeCase "+n.Args[0].Args[0].Aux)
		}
	})
}

func callsIn(t *vg.Term, suffix string) map[*vg.Term]bool {
	r := map[*vg.Term]bool{}
	vg.Walk(t, func(s *vg.Term) bool {
		if s.Op == "call" && strings.HasSuffix(s.Aux, suffix) {
			r[s] = true
		}
		return true
	})
	return r
}
