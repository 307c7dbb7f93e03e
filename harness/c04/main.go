// C04: address spaces of blocks.
package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type meta struct {
	l     *lib.Layout
	align int64 // 0 if not set anywhere
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	m := c.Meta.(*meta)
	bad := func(sig, f string, a ...any) { vs = append(vs, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)}) }
	count(o.Bus, m.l.Els, bad)
	if o.Bus.AddrSpace.Start != 0 {
		bad("start", "bus address space starts from %d", o.Bus.AddrSpace.Start)
	}
	lib.Blocks(o.Bus, "", func(path string, b *lib.Block, main bool) {
		as := b.AddrSpace
		if as.End-as.Start+1 != b.Count*b.Sizes.Aligned {
			bad("size", "block %q: address space [%d, %d], count %d, aligned size %d", path, as.Start, as.End, b.Count, b.Sizes.Aligned)
			return
		}
		empty := b.Count == 0 || b.Sizes.Aligned == 0 && len(lib.Uses(b, o.Bus.Width)) == 0
		if empty {
			// There is nothing to be aligned.
		} else if m.align == 0 {
			if b.Sizes.Aligned <= 0 || b.Sizes.Aligned&(b.Sizes.Aligned-1) != 0 {
				bad("power", "block %q: aligned size %d is not a power of 2", path, b.Sizes.Aligned)
			} else if as.Start%b.Sizes.Aligned != 0 {
				bad("alignment", "block %q: address space starts from %d, but aligned size is %d", path, as.Start, b.Sizes.Aligned)
			}
		} else if as.Start%m.align != 0 || b.Sizes.Aligned%m.align != 0 {
			bad("alignment", "block %q: address space starts from %d, aligned size %d, align %d", path, as.Start, b.Sizes.Aligned, m.align)
		}
		for i, s := range b.Subblocks {
			ss := s.AddrSpace
			if ss.End < ss.Start {
				continue // Empty block.
			}
			if ss.Start < as.Start || ss.End > as.End {
				bad("parent", "block %q: address space of %q [%d, %d] is outside of [%d, %d]", path, s.Name, ss.Start, ss.End, as.Start, as.End)
				continue
			}
			for _, t := range b.Subblocks[:i] {
				ts := t.AddrSpace
				if ss.Start <= ts.End && ts.Start <= ss.End {
					bad("siblings", "block %q: address spaces of %q and %q overlap: [%d, %d], [%d, %d]", path, s.Name, t.Name, ss.Start, ss.End, ts.Start, ts.End)
				}
			}
			// Items of the array of blocks.
			for k := int64(0); k < b.Count; k++ {
				st := as.Start + k*b.Sizes.Aligned
				if ss.Start < st+b.Sizes.Own && st <= ss.End {
					bad("registers", "block %q: address space of %q [%d, %d] contains own registers [%d, %d] of item %d",
						path, s.Name, ss.Start, ss.End, st, st+b.Sizes.Own-1, k)
				}
			}
			if ss.End >= ss.Start && ss.Start/b.Sizes.Aligned != ss.End/b.Sizes.Aligned && m.align == 0 {
				bad("item", "block %q: address space of %q [%d, %d] lies within two items", path, s.Name, ss.Start, ss.End)
			}
		}
	})
	return vs
}

// count checks that every declared block is there.
func count(b *lib.Block, els []lib.E, bad func(sig, f string, a ...any)) {
	n := 0
	for _, e := range els {
		if e.K != "block" {
			continue
		}
		n++
		found := false
		for _, s := range b.Subblocks {
			if s.Name == e.Name {
				found = true
				want := e.N
				if e.N < 0 {
					want = 1
				}
				if s.Count != want || s.IsArray != (e.N >= 0) {
					bad("declared", "block %q: count %d, array %v, declared array size %d", e.Name, s.Count, s.IsArray, e.N)
				}
				count(s, e.Sub, bad)
			}
		}
		if !found {
			bad("declared", "block %q is missing", e.Name)
		}
	}
	if len(b.Subblocks) != n {
		bad("declared", "block %q has %d subblocks, %d declared", b.Name, len(b.Subblocks), n)
	}
}

func gen(g *lib.Gen) {
	tree := func(bw, own int64, subs []lib.E) {
		for _, align := range []int64{0, 1, 2, 4, 8, 32} {
			for mode := 0; mode < 2; mode++ {
				if align == 0 && mode > 0 {
					continue
				}
				for _, rev := range []bool{false, true} {
					if rev && (len(subs) < 2 || align > 4) {
						continue
					}
					g.Emit(func() *lib.Case {
						els := append([]lib.E{}, subs...)
						if rev {
							els = lib.Renamed(els)
						}
						if own > 0 {
							els = append(els, lib.Regs(bw, own))
						}
						l := lib.NewLayout(bw, els...)
						if mode == 0 {
							l.Align = align
						} else {
							l.Align = align
							l.Els = lib.SetAlign(l.Els, align)
						}
						c := l.Case()
						c.Meta = &meta{l, align}
						return c
					})
				}
			}
		}
	}
	lib.Trees(g, tree)
	lib.ScaleTrees(g, tree)
	for _, align := range []int64{0, 1, 4} {
		lib.Shared(g, func(bw int64) func([]lib.E) *lib.Case {
			return func(els []lib.E) *lib.Case {
				l := lib.NewLayout(bw, els...)
				l.Align = align
				c := l.Case()
				c.Meta = &meta{l, align}
				return c
			}
		})
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C04",
		Rule: "every tree of blocks up to three levels and four siblings with own sizes 0 to 9, array sizes 1 to 3, names in both orders, " +
			"align property unset, set in the bus, or set everywhere; one case is one compilation",
		CLIEvery: 499,
		Gen:      gen,
		Eval:     eval,
		Assume:   []string{"align values do not differ within one description", "arrays of blocks have at least one item"},
	})
}
