package chk

import (
	"strings"

	"verif.local/tool/tpl"
	"verif.local/tool/vg"
)

var observers = []struct{ name, imp, suffix, params, args string }{
	{"log", `import "io"`, "WithLog", ", zout, zerr io.Writer", ", zout, zerr"},
	{"logrus", `import "github.com/sirupsen/logrus"`, "WithLogrus", ", zlog *logrus.Entry", ", zlog"},
	{"prometheus", ``, "WithPrometheus", ", zname string", ", zname"},
	{"opentracing", ``, "WithTracing", ", zname string", ", zname"},
	{"opencensus", ``, "WithTracing", ", zname string", ", zname"},
	{"opentelemetry", ``, "WithTracing", ", zname string", ", zname"},
	{"elasticapm", ``, "APMTracing", "", ""},
}

// isBase tells calls of the decorated implementation.
func isBase(name string) bool { return strings.Contains(name, "("+tpl.SrcPath+".") }

// derivedContext replaces contexts made from the caller's by the caller's.
func derivedContext(u *vg.U, t *vg.Term) *vg.Term {
	m := map[*vg.Term]*vg.Term{}
	vg.Walk(t, func(s *vg.Term) bool {
		if s.Op == "do" && isBase(s.Aux) && len(s.Args) > 1 && strings.Contains(s.Aux, "Ctx") {
			a := s.Args[1]
			c := a
			for c.Op == "proj" {
				c = c.Args[0]
			}
			if a != c && c.Op == "call" {
				for _, p := range c.Args {
					if p.Op == "param" {
						m[a] = p
						break
					}
				}
			}
		}
		return true
	})
	// a context is derived from the one at the caller's position
	for i := 0; i < 2 && len(m) > 0; i++ {
		t = u.Subst(t, m)
	}
	return t
}

func init() {
	register("C31", func(c *Ctx) {
		for _, o := range observers {
			c.tplSame(o.name, tplOpts{
				ref: "transparent", panics: true, rewrite: derivedContext,
				classify: func(n string) vg.Kind {
					if isBase(n) {
						return vg.Effect
					}
					return vg.Pure
				},
				vars: map[string]interface{}{"Import": o.imp, "New": "NewAll" + o.suffix, "Params": o.params, "Args": o.args},
			})
		}
	})
	register("C32", func(c *Ctx) {
		for _, n := range []string{"opentracing", "opencensus", "opentelemetry", "elasticapm"} {
			c.tplSame(n, tplOpts{panics: true})
		}
	})
	register("C33", func(c *Ctx) {
		c.tplSame("prometheus", tplOpts{panics: true, classify: opaque("promauto.NewSummaryVec")})
	})
	register("C34", func(c *Ctx) {
		c.tplSame("log", tplOpts{classify: opaque("log.New")})
		c.tplSame("logrus", tplOpts{classify: opaque("logrus.Entry).WithFields")})
	})
	register("C35", func(c *Ctx) {
		c.tplSame("circuitbreaker", tplOpts{classify: func(n string) vg.Kind {
			if strings.HasPrefix(n, "(*sync.") {
				return vg.Ignore
			}
			return vg.Default
		}})
	})
	register("C36", func(c *Ctx) { c.tplSame("retry", tplOpts{panics: true}) })
	register("C37", func(c *Ctx) { c.tplSame("ratelimit", tplOpts{}) })
	register("C38", func(c *Ctx) {
		c.tplSame("syncpool", tplOpts{panics: true})
		c.tplSame("robinpool", tplOpts{})
	})
	register("C39", func(c *Ctx) { c.tplSame("timeout", tplOpts{panics: true}) })
	register("C40", func(c *Ctx) {
		for _, n := range []string{"validate", "grpc_validate", "twirp_validate"} {
			c.tplSame(n, tplOpts{})
		}
	})
	register("C41", func(c *Ctx) { c.tplSame("twirp_error", tplOpts{}) })
}

func init() {
	register("C42", func(c *Ctx) { c.tplSame("fallback", tplOpts{}) })
}
