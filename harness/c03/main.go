// C03: registers lie within the own address space of the block, sizes are right.
package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

func pow2(v int64) int64 {
	if v == 0 {
		return 0
	}
	p := int64(1)
	for p < v {
		p *= 2
	}
	return p
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if h, ok := c.Meta.(*huge); ok {
		return h.eval(o)
	}
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	l := c.Meta.(*lib.Layout)
	bad := func(sig, f string, a ...any) { vs = append(vs, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)}) }
	bw := o.Bus.Width
	busAlign := o.Bus.Align
	lib.Blocks(o.Bus, "", func(path string, b *lib.Block, main bool) {
		used := map[int64]string{}
		use := func(a int64, name string) {
			used[a] = name
			if a < 0 || a >= b.Sizes.Own {
				bad("outside", "block %q: %s uses register %d, own size is %d", path, name, a, b.Sizes.Own)
			}
			if main && (a == 0) != (name == "ID") {
				bad("address0", "%s uses register %d of the main bus", name, a)
			}
		}
		for _, u := range lib.Uses(b, bw) {
			if u.Acs.RegCount < 0 || u.Acs.RegCount > 1<<20 {
				bad("regcount", "%s/%s: %d", path, u.Name, u.Acs.RegCount)
				continue
			}
			for a := u.Acs.StartAddr; a < u.Acs.StartAddr+u.Acs.RegCount; a++ {
				use(a, u.Name)
			}
			for _, it := range u.Bits {
				for _, p := range it {
					if _, ok := used[p.Addr]; !ok {
						use(p.Addr, u.Name)
					}
				}
			}
		}
		waste := false
		for _, i := range b.Irqs {
			if i.ClearAddr != nil {
				use(*i.ClearAddr, i.Name)
			}
			waste = waste || (i.AddEnable && i.Clear == "On Read")
		}
		for _, p := range b.Procs {
			if p.CallAddr != nil {
				use(*p.CallAddr, p.Name)
			}
			if p.ExitAddr != nil {
				use(*p.ExitAddr, p.Name)
			}
		}
		for _, s := range b.Streams {
			use(s.StbAddr, s.Name)
		}
		if !waste {
			for a := int64(0); a < b.Sizes.Own; a++ {
				if _, ok := used[a]; !ok {
					bad("hole", "block %q: own size is %d, but register %d is not used", path, b.Sizes.Own, a)
				}
			}
		}
		if main {
			if id, ok := used[0]; !ok || id != "ID" {
				bad("address0", "register 0 of the main bus does not hold ID")
			}
		}
		cum, ali := b.Sizes.Own, int64(0)
		for _, s := range b.Subblocks {
			cum += s.Count * s.Sizes.Cumulated
			ali += s.Count * s.Sizes.Aligned
		}
		if b.Sizes.Cumulated != cum {
			bad("cumulated", "block %q: cumulated size %d, own size plus subblocks is %d", path, b.Sizes.Cumulated, cum)
		}
		align := b.Align
		if align == 0 {
			align = busAlign
		}
		want := int64(0)
		if align == 0 {
			want = pow2(pow2(b.Sizes.Own) + ali)
		} else {
			want = (b.Sizes.Own + ali + align - 1) / align * align
		}
		if b.Sizes.Aligned != want {
			bad("aligned", "block %q: aligned size %d, expected %d, own %d, subblocks %d, align %d", path, b.Sizes.Aligned, want, b.Sizes.Own, ali, align)
		}
		if got := b.AddrSpace.End - b.AddrSpace.Start + 1; got != b.Sizes.Aligned*b.Count {
			bad("space", "block %q: address space has %d addresses, aligned size %d, count %d", path, got, b.Sizes.Aligned, b.Count)
		}
	})
	if o.Bus.AddrSpace.Start != 0 {
		bad("start", "bus address space starts from %d", o.Bus.AddrSpace.Start)
	}
	ts := false
	for _, s := range o.Bus.Statics {
		if s.Name == "TIMESTAMP" {
			ts = true
			if s.Access.StartAddr != o.Bus.Sizes.Own-1 || s.Access.RegCount != 1 {
				bad("timestamp", "timestamp in register %d, own size %d", s.Access.StartAddr, o.Bus.Sizes.Own)
			}
		}
	}
	if ts != l.TS {
		bad("timestamp", "timestamp: %v, requested: %v", ts, l.TS)
	}
	return vs
}

func gen(g *lib.Gen) {
	mk := func(bw int64, ts bool) func([]lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case {
			l := lib.NewLayout(bw, els...)
			l.TS = ts
			return l.Case()
		}
	}
	lib.ItemLists(g, 8, g.Pick(3, 4), mk(8, false))
	lib.ItemLists(g, 5, g.Pick(2, 4), mk(5, false))
	lib.Multisets(g, lib.Alphabet8(), g.Pick(3, 4), mk(8, false))
	lib.Multisets(g, lib.Alphabet8(), g.Pick(3, 4), mk(8, true))
	deep := []lib.E{lib.S("config", 3), lib.S("config", 6), lib.S("static", 4), lib.S("status", 2), lib.S("status", 8), lib.Sna("status", 11), lib.S("irq", 1), {K: "irq", N: -1, OnRd: true}}
	lib.Multisets(g, deep, g.Pick(6, 9), mk(8, true))
	lib.Sequences(g, lib.Alphabet8(), 2, g.Pick(2, 3), mk(8, false))
	for _, bw := range []int64{1, 2, 3, 16, 32, 33, 64} {
		lib.Multisets(g, lib.PairAlphabet(bw, false), 2, mk(bw, true))
		lib.Multisets(g, lib.PairAlphabet(bw, false), 2, mk(bw, false))
		lib.Multisets(g, lib.PairAlphabet(bw, true), g.Pick(3, 4), mk(bw, true))
	}
	al := lib.Alphabet8()
	for _, a := range al {
		for _, b := range al {
			g.Emit(func() *lib.Case {
				in := lib.Blk(b, a)
				in.N = 3
				return mk(8, false)([]lib.E{a, lib.Blk(a, b), lib.Blk(b, in)})
			})
		}
	}
	lib.Scale(g, func(bw int64) func([]lib.E) *lib.Case { return mk(bw, true) })
	lib.Shared(g, func(bw int64) func([]lib.E) *lib.Case { return mk(bw, false) })
	tree := func(bw, own int64, subs []lib.E) {
		els := func() []lib.E {
			r := append([]lib.E{}, subs...)
			if own > 0 {
				r = append(r, lib.Regs(bw, own))
			}
			return r
		}
		g.Emit(func() *lib.Case { return mk(bw, false)(els()) })
		for _, align := range []int64{1, 2, 4, 16} {
			g.Emit(func() *lib.Case {
				c := mk(bw, false)(els())
				l := c.Meta.(*lib.Layout)
				l.Align = align
				return l.Case()
			})
			g.Emit(func() *lib.Case { return mk(bw, false)(lib.SetAlign(els(), align)) })
		}
	}
	lib.Trees(g, tree)
	lib.ScaleTrees(g, tree)
	hugeArrays(g)
	hugeBlocks(g)
}

func main() {
	lib.Main(&lib.Check{
		ID: "C03",
		Rule: "every multiset of functionalities up to the depth bound in the bus (with and without timestamp) and in blocks, and every tree of blocks " +
			"up to three levels with own sizes 0 to 9, array sizes 1 to 3 and align property unset, set in the bus or set in all blocks; one case is one compilation",
		CLIEvery: 499,
		Gen:      gen,
		Eval:     eval,
		Assume:   []string{"align values do not differ within one description"},
	})
}
