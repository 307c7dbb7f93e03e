// C06: packing of params and returns, call, exit and strobe addresses.
package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type item struct {
	name string
	w, n int64
}

type place struct{ sa, sb, ea, eb int64 } // Start and end address and bit.

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	bad := func(sig, f string, a ...any) { vs = append(vs, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)}) }
	l := c.Meta.(*lib.Layout)
	block(o.Bus, l.Els, l.Bus, bad)
	if c.API && o.Obs != nil {
		methods(o.Obs, bad)
	}
	return vs
}

func block(b *lib.Block, els []lib.E, bw int64, bad func(sig, f string, a ...any)) {
	owner := map[int64]string{} // Registers of procs and streams.
	for _, e := range els {
		switch e.K {
		case "proc":
			p := findProc(b, e.Name)
			if p == nil {
				bad("missing", "there is no proc %s", e.Name)
				continue
			}
			proc(p, e, bw, owner, bad)
		case "stream":
			s := findStream(b, e.Name)
			if s == nil {
				bad("missing", "there is no stream %s", e.Name)
				continue
			}
			stream(s, e, bw, owner, bad)
		case "block":
			for _, s := range b.Subblocks {
				if s.Name == e.Name {
					block(s, e.Sub, bw, bad)
				}
			}
		}
	}
	for _, u := range lib.Uses(b, bw) {
		if u.Kind == "param" || u.Kind == "return" {
			continue
		}
		for a := u.Acs.StartAddr; a <= u.Acs.EndAddr; a++ {
			if p, ok := owner[a]; ok {
				bad("shared", "register %d of %s is shared with %s", a, p, u.Name)
			}
		}
	}
}

func findProc(b *lib.Block, n string) *lib.Proc {
	for _, p := range b.Procs {
		if p.Name == n {
			return p
		}
	}
	return nil
}

func findStream(b *lib.Block, n string) *lib.Stream {
	for _, p := range b.Streams {
		if p.Name == n {
			return p
		}
	}
	return nil
}

// pack checks that items lie one after another, starting from bit 0 of some register.
// It returns address of the first register and the end address of every item.
func pack(name string, accs []lib.Access, names []string, items []item, bw int64, pos, base int64, bad func(sig, f string, a ...any)) (int64, []int64) {
	ends := []int64{}
	for i, it := range items {
		a := accs[i]
		n := it.n
		if n < 0 {
			n = 1
		}
		if names[i] != it.name {
			bad("order", "%s: item %d is %s, expected %s", name, i, names[i], it.name)
			return base, nil
		}
		if base < 0 {
			base = a.StartAddr
		}
		total := it.w * n
		want := place{base + pos/bw, pos % bw, 0, 0}
		if total > 0 {
			e := pos + total - 1
			want.ea, want.eb = base+e/bw, e%bw
		} else {
			want.ea, want.eb = want.sa, want.sb-1
		}
		got := place{a.StartAddr, a.StartBit, a.EndAddr, a.EndBit}
		if got != want {
			bad("packing", "%s.%s: placed at %+v, expected %+v (width %d, items %d)", name, it.name, got, want, it.w, n)
		}
		bits, err := lib.BitsOf(a, bw)
		if err != nil {
			bad("packing", "%s.%s: %v", name, it.name, err)
		}
		k := pos
		for _, x := range bits {
			for _, p := range x {
				if p.Addr != base+k/bw || p.Bit != k%bw {
					bad("packing", "%s.%s: bit %d is placed in %+v", name, it.name, k-pos, p)
					return base, nil
				}
				k++
			}
		}
		if k != pos+total {
			bad("packing", "%s.%s: has %d bits, declared %d", name, it.name, k-pos, total)
		}
		pos += total
		ends = append(ends, want.ea)
	}
	return base, ends
}

func split(e lib.E) (ps, rs []item) {
	for _, s := range e.Sub {
		if s.K == "param" {
			ps = append(ps, item{s.Name, s.W, s.N})
		} else {
			rs = append(rs, item{s.Name, s.W, s.N})
		}
	}
	return
}

func str(p *int64) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprint(*p)
}

func take(owner map[int64]string, name string, from, to int64, bad func(sig, f string, a ...any)) {
	for a := from; a <= to; a++ {
		if p, ok := owner[a]; ok && p != name {
			bad("shared", "register %d is shared by %s and %s", a, p, name)
		}
		owner[a] = name
	}
}

func delay(name string, d *lib.Time, e lib.E, bad func(sig, f string, a ...any)) {
	if e.Delay && (d == nil || d.S != 0 || d.Ns != 5) || !e.Delay && d != nil {
		bad("delay", "%s: delay %+v, declared %v", name, d, e.Delay)
	}
}

func proc(p *lib.Proc, e lib.E, bw int64, owner map[int64]string, bad func(sig, f string, a ...any)) {
	ps, rs := split(e)
	items := append(append([]item{}, ps...), rs...)
	accs, names := []lib.Access{}, []string{}
	for _, x := range p.Params {
		accs, names = append(accs, x.Access), append(names, x.Name)
	}
	for _, x := range p.Returns {
		accs, names = append(accs, x.Access), append(names, x.Name)
	}
	if len(p.Params) != len(ps) || len(p.Returns) != len(rs) {
		bad("items", "proc %s: %d params and %d returns, declared %d and %d", p.Name, len(p.Params), len(p.Returns), len(ps), len(rs))
		return
	}
	delay(p.Name, p.Delay, e, bad)
	base, ends := pack(p.Name, accs, names, items, bw, 0, -1, bad)
	if ends == nil && len(items) > 0 {
		return
	}
	var call, exit *int64
	switch {
	case len(ps) > 0:
		call = &ends[len(ps)-1]
	case len(rs) == 0:
		if p.CallAddr == nil {
			bad("call", "empty proc %s has no call address", p.Name)
			return
		}
		call = p.CallAddr // Any address, but not used by anything else.
		take(owner, p.Name, *call, *call, bad)
	case e.Delay:
		call = &base
	}
	switch {
	case len(rs) > 0:
		exit = &ends[len(ends)-1]
	case e.Delay:
		exit = call
	}
	if str(p.CallAddr) != str(call) {
		bad("call", "proc %s: call address %s, expected %s", p.Name, str(p.CallAddr), str(call))
	}
	if str(p.ExitAddr) != str(exit) {
		bad("exit", "proc %s: exit address %s, expected %s", p.Name, str(p.ExitAddr), str(exit))
	}
	if len(items) > 0 {
		take(owner, p.Name, base, ends[len(ends)-1], bad)
	}
}

func stream(s *lib.Stream, e lib.E, bw int64, owner map[int64]string, bad func(sig, f string, a ...any)) {
	ps, rs := split(e)
	items := append(append([]item{}, ps...), rs...)
	accs, names := []lib.Access{}, []string{}
	for _, x := range s.Params {
		accs, names = append(accs, x.Access), append(names, x.Name)
	}
	for _, x := range s.Returns {
		accs, names = append(accs, x.Access), append(names, x.Name)
	}
	if len(s.Params) != len(ps) || len(s.Returns) != len(rs) {
		bad("items", "stream %s: %d params and %d returns, declared %d and %d", s.Name, len(s.Params), len(s.Returns), len(ps), len(rs))
		return
	}
	delay(s.Name, s.Delay, e, bad)
	if len(items) == 0 {
		take(owner, s.Name, s.StbAddr, s.StbAddr, bad)
		return
	}
	base, ends := pack(s.Name, accs, names, items, bw, 0, -1, bad)
	if ends == nil {
		return
	}
	take(owner, s.Name, base, ends[len(ends)-1], bad)
	if s.StbAddr != ends[len(ends)-1] {
		bad("strobe", "stream %s: strobe address %d, expected %d", s.Name, s.StbAddr, ends[len(ends)-1])
	}
}

func items(bw int64, kind string, all bool) []lib.E {
	r := []lib.E{}
	ws := []int64{1, bw - 1, bw, bw + 1}
	ns := []int64{-1, 2, 3}
	if all {
		ws = []int64{0, 1, 2, bw / 2, bw - 1, bw, bw + 1, 2*bw - 1, 2 * bw, 2*bw + 1, 3 * bw}
		ns = []int64{-1, 0, 1, 2, 3, 4}
	}
	for _, w := range ws {
		for _, n := range ns {
			r = append(r, lib.A(kind, n, w))
		}
	}
	return r
}

func gen(g *lib.Gen) {
	// Single proc and single stream.
	for _, bw := range []int64{8, 5, 32, 1, 2, 33} {
		for _, delay := range []bool{false, true} {
			mk := func(k string, api bool) func([]lib.E) *lib.Case {
				return func(els []lib.E) *lib.Case {
					c := lib.NewLayout(bw, lib.E{K: k, N: -1, Delay: delay, Sub: els}).Case()
					c.API = api
					return c
				}
			}
			both := append(items(bw, "param", true), items(bw, "return", true)...)
			lib.Sequences(g, both, 0, 2, mk("proc", false))
			for _, k := range []string{"param", "return"} {
				lib.Sequences(g, items(bw, k, true), 0, 2, mk("stream", false))
				lib.Sequences(g, items(bw, k, false), 3, g.Pick(3, 4), mk("stream", false))
				lib.Sequences(g, items(bw, k, false), 0, 2, mk("stream", true))
			}
			small := append(items(bw, "param", false), items(bw, "return", false)...)
			lib.Sequences(g, small, 3, g.Pick(3, 4), mk("proc", false))
			lib.Sequences(g, small, 0, 2, mk("proc", true))
		}
	}
	lib.Scale(g, func(bw int64) func([]lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case { return lib.NewLayout(bw, els...).Case() }
	})
	lib.Shared(g, func(bw int64) func([]lib.E) *lib.Case {
		return func(els []lib.E) *lib.Case { return lib.NewLayout(bw, els...).Case() }
	})
	// Many procs and streams together with other functionalities.
	alpha := []lib.E{
		{K: "proc", N: -1}, {K: "proc", N: -1, Delay: true},
		{K: "proc", N: -1, Sub: []lib.E{lib.S("param", 3)}},
		{K: "proc", N: -1, Delay: true, Sub: []lib.E{lib.S("param", 8), lib.S("param", 3)}},
		{K: "proc", N: -1, Sub: []lib.E{lib.S("return", 3)}},
		{K: "proc", N: -1, Sub: []lib.E{lib.S("return", 3), lib.S("param", 3)}},
		{K: "proc", N: -1, Delay: true, Sub: []lib.E{lib.A("return", 3, 4)}},
		{K: "proc", N: -1, Sub: []lib.E{lib.A("param", 3, 5), lib.A("return", 2, 4), lib.S("return", 1)}},
		{K: "stream", N: -1}, {K: "stream", N: -1, Delay: true},
		{K: "stream", N: -1, Sub: []lib.E{lib.S("param", 8)}},
		{K: "stream", N: -1, Sub: []lib.E{lib.S("return", 3), lib.S("return", 6)}},
		{K: "stream", N: -1, Delay: true, Sub: []lib.E{lib.A("param", 3, 3)}},
		lib.S("config", 3), lib.S("status", 2), lib.S("static", 9), lib.S("irq", 1), lib.S("mask", 4),
	}
	lib.Sequences(g, alpha, 2, g.Pick(4, 5), func(els []lib.E) *lib.Case { return lib.NewLayout(8, els...).Case() })
	lib.Sequences(g, alpha, 1, 3, func(els []lib.E) *lib.Case {
		b := lib.Blk(els...)
		b.N = 2
		return lib.NewLayout(8, els[0], b).Case()
	})
}

func main() {
	lib.Main(&lib.Check{
		ID: "C06",
		Rule: "every sequence of params and returns (widths around multiples of the bus width, arrays of 0 to 4 items) up to the depth bound in a proc and in a stream, with and without delay, " +
			"for 6 bus widths, and every sequence of procs, streams and other functionalities up to the depth bound in the bus and in blocks; one case is one compilation",
		CLIEvery: 499,
		Gen:      gen,
		Eval:     eval,
	})
}
