package chk

import (
	"strings"

	"verif.local/tool/vg"
)

// opaque classifies the named functions as pure, or as effects if their name
// is followed by an exclamation mark.
func opaque(names ...string) func(string) vg.Kind {
	return func(n string) vg.Kind {
		for _, s := range names {
			if strings.HasSuffix(n, s) {
				return vg.Pure
			}
			if strings.HasSuffix(s, "^") && strings.HasSuffix(n, s[:len(s)-1]) {
				return vg.Below
			}
			if strings.HasSuffix(s, "!") && strings.HasSuffix(n, s[:len(s)-1]) {
				return vg.Effect
			}
		}
		return vg.Default
	}
}
