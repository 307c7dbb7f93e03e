//go:build !cliengine

package main

import (
	"fmt"
	"math/bits"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func apiCases(g *lib.Gen) {
	group := func(name string, edges int, f func() string) {
		g.Emit(func() *lib.Case {
			return &lib.Case{Meta: name, Edges: edges, Run: func() (o *lib.Outcome) {
				o = &lib.Outcome{}
				defer func() {
					if r := recover(); r != nil {
						o.Kind = lib.Crash
						o.Msg = fmt.Sprint(r)
					}
				}()
				o.Obs = f()
				return o
			}}
		})
	}
	width := func(ps ...pair) int64 {
		return rng{pairs: ps, list: true}.width()
	}
	single := func(p pair) types.SingleRange { return types.SingleRange{Start: p.l, End: p.r} }
	b := bounds(int64(g.Pick(300, 2000)))
	for _, l := range b {
		group(fmt.Sprintf("ranges from %d", l), len(b), func() string {
			for _, r := range b {
				if r < l {
					continue
				}
				s := single(pair{l, r})
				want := int64(bits.Len64(uint64(r)))
				if w := s.BitWidth(); w != want {
					return fmt.Sprintf("width of %v is %d", s, w)
				}
				if w := (types.ArrayRange{s}).BitWidth(); w != want {
					return fmt.Sprintf("width of [%v] is %d", s, w)
				}
				for _, d := range []int64{0, 1, 2, 32, -1} {
					if l+d < 0 || r+d < r && d > 0 {
						continue
					}
					if t := s.Shift(d); t != single(pair{l + d, r + d}) || s != single(pair{l, r}) {
						return fmt.Sprintf("%v shifted by %d is %v", s, d, t)
					}
				}
			}
			return ""
		})
	}
	ps := pairsOf(small, false)
	for _, p := range ps {
		group(fmt.Sprintf("lists from %v", p), len(ps)*len(ps), func() string {
			for _, q := range ps {
				for _, s := range ps {
					a := types.ArrayRange{single(p), single(q), single(s)}
					if w := a.BitWidth(); w != width(p, q, s) || a.IsEmpty() {
						return fmt.Sprintf("width of %v is %d", a, w)
					}
					if w := a[:2].BitWidth(); w != width(p, q) {
						return fmt.Sprintf("width of %v is %d", a[:2], w)
					}
				}
			}
			return ""
		})
	}
}
