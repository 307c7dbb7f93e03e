// C01: no two functionalities of a block share a bit of a register.
package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	bw := o.Bus.Width
	lib.Blocks(o.Bus, "", func(path string, b *lib.Block, main bool) {
		type occ struct {
			u    *lib.Use
			item int
		}
		taken := map[lib.Pos]occ{}
		for _, u := range lib.Uses(b, bw) {
			if u.Err != nil {
				vs = append(vs, lib.Viol{Sig: "descriptor", Msg: fmt.Sprintf("%s/%s: %v", path, u.Name, u.Err)})
				continue
			}
			for i, bits := range u.Bits {
				for _, p := range bits {
					if q, ok := taken[p]; ok {
						vs = append(vs, lib.Viol{
							Sig: "overlap:" + q.u.Kind + "-" + u.Kind,
							Msg: fmt.Sprintf("block %q: bit %d of register %d belongs to %s item %d and to %s item %d", path, p.Bit, p.Addr, q.u.Name, q.item, u.Name, i),
						})
						return
					}
					taken[p] = occ{u, i}
				}
			}
		}
	})
	return vs
}

func gen(g *lib.Gen) {
	// Depth first over the multisets of the alphabet, declaration order is fixed.
	mk := func(bw int64) func([]lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case { return lib.NewLayout(bw, els...).Case() }
	}
	lib.ItemLists(g, 8, g.Pick(3, 4), mk(8))
	lib.ItemLists(g, 5, g.Pick(2, 4), mk(5))
	lib.Multisets(g, lib.Alphabet8(), g.Pick(4, 5), mk(8))
	lib.Scale(g, mk)
	lib.Shared(g, mk)
	// All declaration orders.
	lib.Sequences(g, lib.Alphabet8(), 2, g.Pick(2, 3), mk(8))
	// Gaps only, deep.
	deep := []lib.E{lib.S("config", 3), lib.S("config", 6), lib.S("static", 4), lib.S("status", 2), lib.S("status", 4), lib.Sna("status", 3), lib.S("irq", 1)}
	lib.Multisets(g, deep, g.Pick(8, 11), mk(8))
	// Other bus widths.
	for _, bw := range []int64{1, 2, 3, 4, 7, 16, 32, 33, 64} {
		lib.Multisets(g, lib.PairAlphabet(bw, false), 2, mk(bw))
		lib.Multisets(g, lib.PairAlphabet(bw, true), g.Pick(3, 4), mk(bw))
	}
	// Functionalities in blocks.
	al := lib.Alphabet8()
	for i := range al {
		for j := range al {
			a, b := al[i], al[j]
			if !g.Emit(func() *lib.Case {
				blk := lib.Blk(a, b)
				blk2 := lib.Blk(b, lib.Blk(a, b))
				blk2.N = 2
				return lib.NewLayout(8, b, blk, a, blk2).Case()
			}) {
				return
			}
		}
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C01",
		Rule: "every multiset of functionalities of the alphabet up to the depth bound, on several bus widths, plus all declaration orders of a smaller depth, " +
			"plus the same inside of nested blocks; a case is the whole compilation of one description",
		CLIEvery: 499,
		Gen:      gen,
		Eval:     eval,
	})
}
