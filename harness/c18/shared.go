package main

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// plain returns the functionalities with all properties and inner functionalities placed in instances.
func plain(es []lib.E) []lib.E {
	r := make([]lib.E, len(es))
	for i, e := range es {
		e.Of, e.Sub = nil, plain(e.Sub)
		r[i] = e
	}
	return r
}

// shared emits descriptions with types instantiated a few times, the reference has no types.
func shared(g *lib.Gen) {
	lib.Shared(g, func(bw int64) func(els []lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case {
			c := lib.NewLayout(bw, els...).Case()
			p := lib.NewLayout(bw, plain(els)...).Case()
			c.Meta = &model{key: "types " + p.Src, ref: p, what: "types used a few times"}
			return c
		}
	})
}
