// C05: accesses to registers have no side effects on unrelated functionalities.
package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	bad := func(sig, f string, a ...any) { vs = append(vs, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)}) }
	bw := o.Bus.Width
	lib.Blocks(o.Bus, "", func(path string, b *lib.Block, main bool) {
		// Functionalities affected by writing the register, and by reading the register.
		writes := map[int64]map[string]string{}
		reads := map[int64]map[string]string{}
		holds := map[int64]map[string]string{} // All functionalities having bits in the register.
		add := func(m map[int64]map[string]string, a int64, owner, kind string) {
			if m[a] == nil {
				m[a] = map[string]string{}
			}
			m[a][owner] = kind
		}
		for _, u := range lib.Uses(b, bw) {
			for _, it := range u.Bits {
				for _, p := range it {
					add(holds, p.Addr, u.Owner, u.Kind)
					switch u.Kind {
					case "config", "mask", "param", "enable":
						add(writes, p.Addr, u.Owner, u.Kind)
					}
				}
			}
		}
		for _, i := range b.Irqs {
			if i.Clear == "Explicit" {
				if i.ClearAddr == nil {
					bad("no-clear", "block %q: explicitly cleared irq %s has no clear address", path, i.Name)
					continue
				}
				add(writes, *i.ClearAddr, i.Name, "irq clear")
				// Writing enable bit must not clear the irq, and the other way around.
				if i.AddEnable {
					for a := i.EnableAccess.StartAddr; a <= i.EnableAccess.EndAddr; a++ {
						if a == *i.ClearAddr {
							bad("enable-clear", "block %q: irq %s enable and clear are placed in the same register %d", path, i.Name, a)
						}
					}
				}
			} else {
				if i.ClearAddr != nil {
					bad("clear-address", "block %q: irq %s cleared on read has clear address", path, i.Name)
				}
				add(reads, i.Access.StartAddr, i.Name, "irq clear")
			}
		}
		for _, p := range b.Procs {
			if p.CallAddr != nil {
				if len(p.Params) > 0 || len(p.Returns) == 0 {
					add(writes, *p.CallAddr, p.Name, "proc call")
				} else {
					add(reads, *p.CallAddr, p.Name, "proc call")
				}
			}
			if p.ExitAddr != nil {
				add(reads, *p.ExitAddr, p.Name, "proc exit")
			}
		}
		for _, s := range b.Streams {
			if len(s.Returns) > 0 {
				add(reads, s.StbAddr, s.Name, "stream strobe")
			} else {
				add(writes, s.StbAddr, s.Name, "stream strobe")
			}
		}
		for a, m := range writes {
			if len(m) > 1 {
				bad("write", "block %q: writing register %d affects %v", path, a, m)
			}
		}
		for a, m := range reads {
			for o1, k1 := range m {
				for o2, k2 := range holds[a] {
					if o1 != o2 {
						bad("read", "block %q: reading register %d holding %s %s triggers %s of %s", path, a, k2, o2, k1, o1)
					}
				}
				for o2, k2 := range m {
					if o1 < o2 {
						bad("read", "block %q: reading register %d triggers %s of %s and %s of %s", path, a, k1, o1, k2, o2)
					}
				}
			}
		}
	})
	// Irq properties have to be the declared ones, otherwise the above means nothing.
	irqs(o.Bus, c.Meta.(*lib.Layout).Els, bad)
	return vs
}

func irqs(b *lib.Block, els []lib.E, bad func(sig, f string, a ...any)) {
	for _, e := range els {
		switch e.K {
		case "irq":
			found := false
			for _, i := range b.Irqs {
				if i.Name == e.Name {
					found = true
					if i.AddEnable != e.AE || (i.Clear == "On Read") != e.OnRd || (i.Clear == "Explicit") == e.OnRd {
						bad("declared", "irq %s: %+v, declared %+v", e.Name, i, e)
					}
				}
			}
			if !found {
				bad("declared", "irq %s is missing", e.Name)
			}
		case "block":
			for _, s := range b.Subblocks {
				if s.Name == e.Name {
					irqs(s, e.Sub, bad)
				}
			}
		}
	}
}

// Alphabet with everything able to share a register.
func alphabet(bw int64) []lib.E {
	r := lib.Irqs()
	r = append(r,
		lib.S("config", 3), lib.S("config", bw), lib.S("config", bw+3), lib.Sna("config", bw+3), lib.A("config", 2, 2),
		lib.S("mask", 3), lib.S("mask", bw+1),
		lib.S("static", 3), lib.S("static", bw+2), lib.A("static", 2, 3),
		lib.S("status", 1), lib.S("status", 3), lib.S("status", bw-1), lib.S("status", bw), lib.S("status", bw+3),
		lib.Sna("status", 2), lib.Sna("status", bw+2), lib.A("status", 2, 3), lib.Ana("status", 3, 3),
		lib.E{K: "proc", N: -1}, lib.E{K: "proc", N: -1, Delay: true},
		lib.E{K: "proc", N: -1, Sub: []lib.E{lib.S("param", 3)}},
		lib.E{K: "proc", N: -1, Sub: []lib.E{lib.S("param", bw), lib.S("return", 3)}},
		lib.E{K: "proc", N: -1, Delay: true, Sub: []lib.E{lib.S("return", 3)}},
		lib.E{K: "proc", N: -1, Sub: []lib.E{lib.S("return", bw+2)}},
		lib.E{K: "stream", N: -1}, lib.E{K: "stream", N: -1, Sub: []lib.E{lib.S("param", 3)}},
		lib.E{K: "stream", N: -1, Sub: []lib.E{lib.S("return", 3)}},
		lib.E{K: "stream", N: -1, Sub: []lib.E{lib.A("param", 3, 3)}},
	)
	return r
}

func allWidths(bw int64) []lib.E {
	r := []lib.E{}
	for _, k := range []string{"config", "mask", "static", "status"} {
		for w := int64(0); w <= 4*bw+1; w++ {
			for _, n := range []int64{-1, 1, 2, 4, 5} {
				for _, na := range []bool{false, true} {
					e := lib.E{K: k, W: w, N: n, NA: na}
					if lib.Supported(e, bw) && (!na || k == "config" || k == "status") {
						r = append(r, e)
					}
				}
			}
		}
	}
	return r
}

func gen(g *lib.Gen) {
	mk := func(bw int64) func([]lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case { return lib.NewLayout(bw, els...).Case() }
	}
	lib.ItemLists(g, 8, g.Pick(3, 4), mk(8))
	lib.ItemLists(g, 5, g.Pick(2, 4), mk(5))
	lib.Multisets(g, alphabet(8), g.Pick(4, 5), mk(8))
	lib.Sequences(g, alphabet(8), 2, 3, mk(8))
	// Gap reuse chains.
	deep := []lib.E{lib.S("irq", 1), {K: "irq", N: -1, OnRd: true}, {K: "irq", N: -1, AE: true}, lib.S("config", 5), lib.S("static", 5), lib.S("status", 2), lib.S("status", 7), lib.Sna("status", 1)}
	lib.Multisets(g, deep, g.Pick(8, 10), mk(8))
	for _, bw := range []int64{4, 5, 16, 32, 33, 64} {
		lib.Multisets(g, alphabet(bw), 3, mk(bw))
	}
	// Every width and array size of every functionality next to all irqs.
	for _, bw := range []int64{1, 2, 3, 4, 8, 9, 16, 32, 64} {
		wide := lib.PairAlphabet(bw, false)
		if bw <= 9 {
			wide = append(wide, allWidths(bw)...)
		}
		lib.Multisets(g, wide, 2, mk(bw))
		for _, e := range wide {
			for _, i := range lib.Irqs() {
				for _, j := range append(lib.Irqs(), lib.S("status", 1), lib.S("config", 1)) {
					g.Emit(func() *lib.Case { return mk(bw)([]lib.E{i, e, j}) })
					g.Emit(func() *lib.Case { return mk(bw)([]lib.E{e, i, j, e, i}) })
				}
			}
		}
	}
	lib.Scale(g, mk)
	lib.Shared(g, mk)
	al := alphabet(8)
	for _, a := range al {
		for _, b := range al {
			g.Emit(func() *lib.Case {
				in := lib.Blk(b, a, lib.S("irq", 1))
				in.N = 2
				return mk(8)([]lib.E{a, lib.Blk(a, b, lib.S("irq", 1), in)})
			})
		}
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C05",
		Rule: "every multiset of readable and writable functionalities up to the depth bound (deeper for the alphabet of functionalities sharing registers through gaps), " +
			"all declaration orders of a smaller depth, several bus widths and nested blocks; one case is one compilation",
		CLIEvery: 499,
		Gen:      gen,
		Eval:     eval,
	})
}
