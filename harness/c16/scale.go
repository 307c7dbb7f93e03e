package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// scaleCases have errors in far lines, in far columns and of long tokens.
func scaleCases(g *lib.Gen) {
	all := []class{}
	for _, c := range classes() {
		if !c.few {
			all = append(all, c)
		}
	}
	step := max(1, len(all)/g.Pick(25, 120))
	for i := 0; i < len(all); i += step {
		c := all[i]
		for pi, p := range places(c) {
			if pi > 0 && (pi != len(places(c))/2 || !g.Thorough) {
				continue
			}
			for _, n := range lib.Lengths(g.Pick(130, 300), 10000) {
				if !g.Emit(func() *lib.Case { return mkCase(c, p, strings.Repeat("# c\n", n-1), "", "") }) {
					return
				}
			}
			for _, n := range []int{65534, 65535, 65536, 99998, 99999, 100000} {
				if i%(8*step) == 0 && !g.Emit(func() *lib.Case { return mkCase(c, p, strings.Repeat("#\n", n-1), "", "") }) {
					return
				}
			}
		}
	}
	frags := []string{
		"L config; width = 3; «width» = 4",
		"L config; ‹width› = «true»",
		"c config; ‹width› = «\"L\"»",
		"c config; ‹width› = «true» # L",
		"c config; width = 3; «width» = 4 # L",
		"const «L» = 1\nconst «L» = 2",
		"const\n  «L» = 1\n  xL = \"L\"\n  «L» = 2",
		"const L = 1 «@»",
		"const A = \"L\"; «;»",
		"const A = [\"L\", 1 «@»]",
		"c [L]config; width = 3; «width» = 4",
		"const L = 3 «)»",
	}
	for i, f := range frags {
		for _, n := range lib.Lengths(g.Pick(200, 400), g.Pick(10000, 100000)) {
			for _, u := range []string{"a", "Z_", "w1"} {
				if n > 1000 && u != "a" && !g.Thorough {
					continue
				}
				c := class{ctx: "block", name: fmt.Sprintf("long %d %s %d", i, u, n), frag: strings.ReplaceAll(f, "L", strings.Repeat(u, n)[:n]+"q")}
				for pi, p := range places(c) {
					if pi > 1 {
						break
					}
					if !g.Emit(func() *lib.Case { return mkCase(c, p, "", "", "") }) {
						return
					}
				}
			}
		}
	}
}
