//go:build !cliengine

package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
)

// apiCases check Empty of exported containers, each map is nil, empty, or holds one constant.
func apiCases(g *lib.Gen) {
	g.Emit(func() *lib.Case {
		return &lib.Case{Meta: "Empty of containers", Edges: 729, Run: func() (o *lib.Outcome) {
			o = &lib.Outcome{}
			defer func() {
				if r := recover(); r != nil {
					o.Kind = lib.Crash
					o.Msg = fmt.Sprint(r)
				}
			}()
			for code := 0; code < 729; code++ {
				c := &cnst.Container{}
				any := false
				k := code
				for i := 0; i < 6; i, k = i+1, k/3 {
					n := k % 3
					any = any || n == 2
					switch i {
					case 0:
						c.Bools = fill(n, false)
					case 1:
						c.BoolLists = fill(n, []bool{})
					case 2:
						c.Floats = fill(n, 0.0)
					case 3:
						c.Ints = fill(n, int64(0))
					case 4:
						c.IntLists = fill(n, []int64{})
					case 5:
						c.Strings = fill(n, "")
					}
				}
				if c.Empty() == any {
					o.Obs = fmt.Sprintf("Empty() of %+v is %v", *c, !any)
					return o
				}
			}
			o.Obs = ""
			return o
		}}
	})
}

func fill[V any](n int, v V) map[string]V {
	switch n {
	case 0:
		return nil
	case 1:
		return map[string]V{}
	}
	return map[string]V{"A": v}
}
