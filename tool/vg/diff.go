package vg

import (
	"fmt"
	"os"
)

// Paths counts the leaves of a tree, up to a bound.
func Paths(t *Term) int {
	memo := map[*Term]int{}
	var rec func(t *Term) int
	rec = func(t *Term) int {
		if n, ok := memo[t]; ok {
			return n
		}
		n := 1
		switch t.Op {
		case "ite":
			n = rec(t.Args[1]) + rec(t.Args[2])
		case "eff":
			n = rec(t.Args[1])
		case "loop":
			n = rec(t.Args[1]) + rec(t.Args[2])
		}
		if n > 100000 {
			n = 100000
		}
		memo[t] = n
		return n
	}
	return rec(t)
}

// Diff describes the first path on which two trees differ; it is empty for
// equal trees.
func Diff(u *U, a, b *Term) string {
	if a == b {
		return ""
	}
	path := ""
	for {
		switch {
		case a.Op == "ite" && b.Op == "ite" && a.Args[0] == b.Args[0]:
			if a.Args[1] != b.Args[1] {
				path += "  if " + clip(a.Args[0].String()) + "\n"
				a, b = a.Args[1], b.Args[1]
			} else {
				path += "  if not " + clip(a.Args[0].String()) + "\n"
				a, b = a.Args[2], b.Args[2]
			}
			continue
		case a.Op == "eff" && b.Op == "eff" && a.Args[0] == b.Args[0]:
			path += "  after " + clip(a.Args[0].String()) + "\n"
			a, b = a.Args[1], b.Args[1]
			continue
		case a.Op == "ite" && (b.Op != "ite" || b.Args[0] != a.Args[0]):
			c := a.Args[0]
			bt, bf := u.Assume(b, c, true), u.Assume(b, c, false)
			if a.Args[1] != bt {
				path += "  if " + clip(c.String()) + "\n"
				a, b = a.Args[1], bt
			} else {
				path += "  if not " + clip(c.String()) + "\n"
				a, b = a.Args[2], bf
			}
			if a == b {
				return path + "  (decision order differs)"
			}
			continue
		case b.Op == "ite":
			c := b.Args[0]
			at, af := u.Assume(a, c, true), u.Assume(a, c, false)
			if b.Args[1] != at {
				path += "  if " + clip(c.String()) + "\n"
				a, b = at, b.Args[1]
			} else {
				path += "  if not " + clip(c.String()) + "\n"
				a, b = af, b.Args[2]
			}
			if a == b {
				return path + "  (decision order differs)"
			}
			continue
		case a.Op == "loop" && b.Op == "loop" && a.Args[0] == b.Args[0]:
			b1, b2 := b.Args[1], b.Args[2]
			if a.Aux != b.Aux {
				b1, b2 = u.rename(b1, b.Aux, a.Aux, true), u.rename(b2, b.Aux, a.Aux, true)
			}
			if a.Args[1] != b1 && len(a.Args) == len(b.Args) {
				path += "  in the loop over " + clip(a.Args[0].String()) + "\n"
				a, b = a.Args[1], b1
				continue
			}
			if a.Args[2] != b2 && len(a.Args) == len(b.Args) {
				path += "  behind the loop over " + clip(a.Args[0].String()) + "\n"
				a, b = a.Args[2], b2
				continue
			}
		}
		break
	}
	show := func(t *Term) string {
		switch t.Op {
		case "eff":
			return "do " + t.Args[0].String()
		case "loop":
			s := "loop over " + t.Args[0].String()
			for _, a := range t.Args[3:] {
				s += " init " + a.String()
			}
			return s
		}
		return t.String()
	}
	r := fmt.Sprintf("on the path\n%s  the code has  %s\n  the reference %s", path, clip(show(a)), clip(show(b)))
	if x, y := innermost(a, b); x != a {
		r += fmt.Sprintf("\n  innermost, the code has  %s\n  innermost, the reference %s", clip(x.String()), clip(y.String()))
	}
	return r
}

func clip(s string) string {
	if len(s) > 1500 && os.Getenv("VERIF_DEBUG") == "" {
		return s[:1500] + "…"
	}
	return s
}

// innermost descends to the first different subterms.
func innermost(a, b *Term) (*Term, *Term) {
	for a.Op == b.Op && a.Aux == b.Aux && len(a.Args) == len(b.Args) {
		n := -1
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				n = i
				break
			}
		}
		if n < 0 {
			break
		}
		a, b = a.Args[n], b.Args[n]
	}
	return a, b
}
