// C02: access descriptors are consistent and describe what has been declared.
package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// checkUse returns what is wrong with the descriptor, or empty string.
func checkUse(u *lib.Use, bw int64) string {
	a := u.Acs
	if u.Err != nil {
		return u.Err.Error()
	}
	if a.RegWidth != bw {
		return fmt.Sprintf("register width %d, bus width %d", a.RegWidth, bw)
	}
	if a.ItemWidth != u.Width {
		return fmt.Sprintf("item width %d, functionality width %d", a.ItemWidth, u.Width)
	}
	count := int64(1)
	if u.IsArray {
		count = u.Count
	}
	if a.ItemCount != count {
		return fmt.Sprintf("item count %d, functionality has %d items", a.ItemCount, count)
	}
	if strings.HasPrefix(a.Type, "Array") != u.IsArray {
		return fmt.Sprintf("access type %s, array %v", a.Type, u.IsArray)
	}
	if a.StartAddr < 0 || a.RegCount < 1 || a.EndAddr != a.StartAddr+a.RegCount-1 {
		return fmt.Sprintf("start address %d, end address %d, register count %d", a.StartAddr, a.EndAddr, a.RegCount)
	}
	if a.StartBit < 0 || a.StartBit >= bw {
		return fmt.Sprintf("start bit %d", a.StartBit)
	}
	perReg := map[int64]int64{}
	total := int64(0)
	last := lib.Pos{Addr: -1}
	for _, it := range u.Bits {
		for _, p := range it {
			perReg[p.Addr]++
			total++
			if p.Addr > last.Addr || (p.Addr == last.Addr && p.Bit > last.Bit) {
				last = p
			}
		}
	}
	if total == 0 {
		if a.RegCount != 1 || a.StartRegWidth != 0 || a.EndRegWidth != 0 || a.EndBit != a.StartBit-1 {
			return "descriptor of functionality without bits is not empty"
		}
		return ""
	}
	if int64(len(perReg)) != a.RegCount {
		return fmt.Sprintf("register count %d, bits are placed in %d registers", a.RegCount, len(perReg))
	}
	for ad := a.StartAddr; ad <= a.EndAddr; ad++ {
		if perReg[ad] == 0 {
			return fmt.Sprintf("register %d is not used", ad)
		}
	}
	if last.Addr != a.EndAddr || last.Bit != a.EndBit {
		return fmt.Sprintf("last bit is bit %d of register %d, descriptor says bit %d of register %d", last.Bit, last.Addr, a.EndBit, a.EndAddr)
	}
	if perReg[a.StartAddr] != a.StartRegWidth || perReg[a.EndAddr] != a.EndRegWidth {
		return fmt.Sprintf("width in the first register %d, in the last register %d, descriptor says %d and %d",
			perReg[a.StartAddr], perReg[a.EndAddr], a.StartRegWidth, a.EndRegWidth)
	}
	oneReg := strings.HasSuffix(a.Type, "OneReg")
	if oneReg && a.RegCount != 1 {
		return "more than one register"
	}
	if a.Type == "SingleNRegs" && a.RegCount == 1 {
		return "SingleNRegs placed in one register"
	}
	// Items which do not have to be split are not split, the others start from bit 0.
	inReg := a.Type == "ArrayOneInReg" || a.Type == "ArrayNInReg" || a.Type == "ArrayNInRegMInEndReg" || oneReg
	if u.Kind != "param" && u.Kind != "return" || inReg {
		for i, it := range u.Bits {
			if len(it) == 0 {
				continue
			}
			f, l := it[0], it[len(it)-1]
			if int64(len(it)) <= bw && f.Addr != l.Addr {
				return fmt.Sprintf("item %d narrower than register is split", i)
			}
			if int64(len(it)) > bw && f.Bit != 0 {
				return fmt.Sprintf("item %d wider than register starts from bit %d", i, f.Bit)
			}
		}
	}
	return ""
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if c.Run != nil {
		if o.Kind != lib.OK {
			return []lib.Viol{{Sig: "api:" + o.Kind.String(), Msg: o.Msg}}
		}
		if s, ok := o.Obs.(string); ok && s != "" {
			return []lib.Viol{{Sig: "api:" + c.Meta.(string), Msg: s}}
		}
		return nil
	}
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	l := c.Meta.(*lib.Layout)
	bw := l.Bus
	lib.Blocks(o.Bus, "", func(path string, b *lib.Block, main bool) {
		for _, u := range lib.Uses(b, bw) {
			if s := checkUse(u, bw); s != "" {
				vs = append(vs, lib.Viol{Sig: "geometry:" + u.Kind + ":" + u.Acs.Type, Msg: fmt.Sprintf("%s/%s %+v: %s", path, u.Name, u.Acs, s)})
			}
		}
	})
	// Declared widths and counts.
	decl(o.Bus, l.Els, &vs)
	return vs
}

type wc struct {
	w, n int64
	arr  bool
}

// decl compares declared widths and array sizes with descriptors.
func decl(b *lib.Block, els []lib.E, vs *[]lib.Viol) {
	got := map[string]wc{}
	for _, u := range lib.Uses(b, b.Width) {
		got[u.Kind+" "+u.Name] = wc{u.Acs.ItemWidth, u.Acs.ItemCount, strings.HasPrefix(u.Acs.Type, "Array")}
	}
	want := func(k, name string, e lib.E) {
		w := wc{e.W, 1, e.N >= 0}
		if e.N >= 0 {
			w.n = e.N
		}
		if k == "irq" || k == "enable" {
			w.w = 1
		}
		if g, ok := got[k+" "+name]; !ok || g != w {
			*vs = append(*vs, lib.Viol{Sig: "declared:" + k, Msg: fmt.Sprintf("%s %s: declared %+v, descriptor %+v (found: %v)", k, name, w, g, ok)})
		}
	}
	for _, e := range els {
		switch e.K {
		case "proc", "stream":
			for _, s := range e.Sub {
				want(s.K, e.Name+"."+s.Name, s)
			}
		case "block":
			for _, s := range b.Subblocks {
				if s.Name == e.Name {
					decl(s, e.Sub, vs)
				}
			}
		case "group", "blackbox":
		default:
			want(e.K, e.Name, e)
			if e.AE {
				want("enable", e.Name, e)
			}
		}
	}
}

func gen(g *lib.Gen) {
	mk := func(bw int64) func([]lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case { return lib.NewLayout(bw, els...).Case() }
	}
	// Single functionalities: every width, every array size, many bus widths.
	buses := []int64{}
	for i := int64(1); i <= int64(g.Pick(12, 24)); i++ {
		buses = append(buses, i)
	}
	buses = append(buses, 16, 31, 32, 33, 36, 64)
	if g.Thorough {
		buses = append(buses, 128)
	}
	lib.Singles(g, buses, int64(g.Pick(13, 40)), []string{"config", "mask", "static", "status", "param", "return"})
	for bw := int64(1); bw <= 4; bw++ {
		for _, e := range lib.Irqs() {
			for n := int64(0); n < 3; n++ {
				g.Emit(func() *lib.Case { return mk(bw)([]lib.E{lib.S("status", n), e}) })
			}
		}
	}
	// Start bits other than 0.
	for _, bw := range []int64{2, 3, 5, 8, 16, 32, 33} {
		lib.Multisets(g, lib.PairAlphabet(bw, false), 2, mk(bw))
	}
	lib.Multisets(g, lib.Alphabet8(), g.Pick(3, 4), mk(8))
	items := func(bw int64) []lib.E {
		r := []lib.E{}
		for _, w := range []int64{0, 1, bw / 2, bw - 1, bw, bw + 1, 2*bw - 1, 2 * bw, 2*bw + 1} {
			for _, n := range []int64{-1, 0, 1, 2, 3, 4} {
				r = append(r, lib.A("param", n, w))
			}
		}
		return r
	}
	for _, bw := range []int64{3, 8, 32} {
		for _, k := range []string{"proc", "stream"} {
			for _, kind := range []string{"param", "return"} {
				lib.Sequences(g, items(bw), 1, g.Pick(2, 3), func(els []lib.E) *lib.Case {
					for i := range els {
						els[i].K = kind
					}
					return mk(bw)([]lib.E{{K: k, N: -1, Sub: els}})
				})
			}
		}
	}
	lib.Scale(g, mk)
	lib.Shared(g, mk)
	apiCases(g)
}

func main() {
	lib.Main(&lib.Check{
		ID: "C02",
		Rule: "every single functionality (all widths up to three registers and one bit, all array sizes up to the bound, many bus widths), every pair with all gaps, " +
			"every sequence of params and returns up to the bound, and every legal call of the exported access constructors within bounds; one case is one compilation or one family of constructor calls",
		CLIEvery: 499,
		Gen:      gen,
		Eval:     eval,
	})
}
