package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// Descriptions with sizes of arrays up to the limit of integers.

type hfun struct {
	kind  string // status, config, static, proc, upstream, stream
	width int64
	count int64
	more  int64 // Width of one more param or return, 0 if there is none.
}

type hblock struct {
	count int64 // 0 if not an array.
	align int64
	funs  []hfun
	subs  []*hblock
}

type huge struct {
	bw    int64
	main  hblock
	align int64
}

func (f *hfun) render(b *strings.Builder, ind, name string) {
	inner := map[string]string{"proc": "param", "stream": "param", "upstream": "return"}
	it, ok := inner[f.kind]
	if !ok {
		fmt.Fprintf(b, "%s%s [%d]%s\n%s  width = %d\n", ind, name, f.count, f.kind, ind, f.width)
		if f.kind == "static" {
			fmt.Fprintf(b, "%s  init-value = 0\n", ind)
		}
		return
	}
	k := f.kind
	if k == "upstream" {
		k = "stream"
	}
	fmt.Fprintf(b, "%s%s %s\n%s  a [%d]%s; width = %d\n", ind, name, k, ind, f.count, it, f.width)
	if f.more > 0 {
		fmt.Fprintf(b, "%s  b %s; width = %d\n", ind, it, f.more)
	}
}

func (h *hblock) render(b *strings.Builder, ind string) {
	if h.align > 0 {
		fmt.Fprintf(b, "%salign = %d\n", ind, h.align)
	}
	for i := range h.funs {
		h.funs[i].render(b, ind, fmt.Sprintf("f%d", i))
	}
	for i, s := range h.subs {
		n := ""
		if s.count > 0 {
			n = fmt.Sprintf("[%d]", s.count)
		}
		fmt.Fprintf(b, "%sb%d %sblock\n", ind, i, n)
		s.render(b, ind+"  ")
	}
}

func (h *huge) src() string {
	b := &strings.Builder{}
	if h.main.count > 0 {
		fmt.Fprintf(b, "main [%d]bus\n", h.main.count)
	} else {
		fmt.Fprintf(b, "main bus\n")
	}
	if h.bw != 32 {
		fmt.Fprintf(b, "  width = %d\n", h.bw)
	}
	h.main.render(b, "  ")
	return b.String()
}

func bi(v int64) *big.Int { return big.NewInt(v) }

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func ceil(a, b *big.Int) *big.Int {
	return new(big.Int).Quo(add(a, new(big.Int).Sub(b, bi(1))), b)
}

// regs is the number of registers of the functionality.
func (f *hfun) regs(bw int64) *big.Int {
	bits := mul(bi(f.width), bi(f.count))
	switch f.kind {
	case "proc", "stream", "upstream":
		return ceil(add(bits, bi(f.more)), bi(bw))
	}
	if bits.Cmp(bi(bw)) <= 0 {
		return bi(1)
	}
	if f.width <= bw {
		return ceil(bi(f.count), bi(bw/f.width))
	}
	return mul(bi(f.count), ceil(bi(f.width), bi(bw)))
}

type hsizes struct{ own, cum, ali *big.Int }

// sizes returns sizes of the block, fits is cleared if something cannot be represented.
func (h *hblock) sizes(bw, busAlign int64, main bool, fits *bool) hsizes {
	lim := new(big.Int).Lsh(bi(1), 63)
	s := hsizes{own: bi(0)}
	if main {
		s.own = bi(1)
	}
	for i := range h.funs {
		f := &h.funs[i]
		s.own = add(s.own, f.regs(bw))
		if add(mul(bi(f.width), bi(f.count)), bi(f.more+bw)).Cmp(lim) >= 0 {
			*fits = false
		}
	}
	s.cum = s.own
	sub := bi(0)
	for _, b := range h.subs {
		x := b.sizes(bw, busAlign, false, fits)
		c := bi(max(1, b.count))
		s.cum = add(s.cum, mul(c, x.cum))
		sub = add(sub, mul(c, x.ali))
	}
	align := h.align
	if align == 0 {
		align = busAlign
	}
	if align == 0 {
		s.ali = bigPow2(add(bigPow2(s.own), sub))
	} else {
		s.ali = mul(ceil(add(s.own, sub), bi(align)), bi(align))
	}
	if s.cum.Cmp(lim) >= 0 || s.ali.Cmp(lim) >= 0 || mul(s.ali, bi(max(1, h.count))).Cmp(lim) >= 0 {
		*fits = false
	}
	return s
}

func bigPow2(v *big.Int) *big.Int {
	if v.Sign() == 0 {
		return v
	}
	return new(big.Int).Lsh(bi(1), uint(new(big.Int).Sub(v, bi(1)).BitLen()))
}

// cmp compares sizes and address spaces.
func (h *hblock) cmp(bw, busAlign int64, path string, b *lib.Block, main bool, start *big.Int, bad func(sig, f string, a ...any)) {
	fits := true
	s := h.sizes(bw, busAlign, main, &fits)
	is := func(sig, what string, got int64, want *big.Int) {
		if bi(got).Cmp(want) != 0 {
			bad(sig, "block %q: %s is %d, expected %s", path, what, got, want)
		}
	}
	is("own", "own size", b.Sizes.Own, s.own)
	is("cumulated", "cumulated size", b.Sizes.Cumulated, s.cum)
	is("aligned", "aligned size", b.Sizes.Aligned, s.ali)
	length := add(bi(b.AddrSpace.End), bi(1))
	length.Sub(length, bi(b.AddrSpace.Start))
	if want := mul(s.ali, bi(max(1, h.count))); length.Cmp(want) != 0 || b.AddrSpace.Start < 0 {
		bad("space", "block %q: address space is from %d to %d, expected %s addresses", path, b.AddrSpace.Start, b.AddrSpace.End, want)
	}
	if len(b.Subblocks) != len(h.subs) {
		bad("subblocks", "block %q has %d subblocks, expected %d", path, len(b.Subblocks), len(h.subs))
		return
	}
	for i, sub := range h.subs {
		name := fmt.Sprintf("b%d", i)
		for _, x := range b.Subblocks {
			if x.Name == name {
				sub.cmp(bw, busAlign, path+"/"+name, x, false, nil, bad)
			}
		}
	}
	// Addresses of registers are checked for blocks with one functionality.
	if len(h.funs) != 1 {
		return
	}
	f := &h.funs[0]
	first := int64(0)
	if main {
		first = 1
	}
	acs := func(a lib.Access) {
		want := f.regs(bw)
		if f.more > 0 {
			g := *f
			g.more = 0
			want = g.regs(bw)
		}
		is("registers", "number of registers", a.RegCount, want)
		is("registers", "first register", a.StartAddr, bi(first))
		is("registers", "last register", a.EndAddr, new(big.Int).Sub(add(want, bi(first)), bi(1)))
		is("registers", "number of items", a.ItemCount, bi(f.count))
		is("registers", "width of items", a.ItemWidth, bi(f.width))
		if a.StartBit < 0 || a.EndBit < 0 || a.StartBit >= bw || a.EndBit >= bw {
			bad("registers", "block %q: bits from %d to %d", path, a.StartBit, a.EndBit)
		}
	}
	last := new(big.Int).Sub(add(f.regs(bw), bi(first)), bi(1))
	switch {
	case f.kind == "status" && len(b.Statuses) == 1:
		acs(b.Statuses[0].Access)
	case f.kind == "config" && len(b.Configs) == 1:
		acs(b.Configs[0].Access)
	case f.kind == "static" && len(b.Statics) > 0:
		acs(b.Statics[0].Access)
	case f.kind == "proc" && len(b.Procs) == 1 && b.Procs[0].CallAddr != nil:
		acs(b.Procs[0].Params[0].Access)
		is("registers", "call address", *b.Procs[0].CallAddr, last)
	case f.kind == "stream" && len(b.Streams) == 1:
		acs(b.Streams[0].Params[0].Access)
		is("registers", "strobe address", b.Streams[0].StbAddr, last)
	case f.kind == "upstream" && len(b.Streams) == 1:
		acs(b.Streams[0].Returns[0].Access)
		is("registers", "strobe address", b.Streams[0].StbAddr, last)
	default:
		bad("missing", "block %q: there is no %s", path, f.kind)
	}
}

func (h *huge) eval(o *lib.Outcome) []lib.Viol {
	fits := true
	h.main.sizes(h.bw, h.main.align, true, &fits)
	if o.Kind == lib.Reject {
		if fits {
			return lib.NotOK(o)
		}
		return nil
	}
	if v := lib.NotOK(o); v != nil {
		return v
	}
	var vs []lib.Viol
	bad := func(sig, f string, a ...any) { vs = append(vs, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)}) }
	h.main.cmp(h.bw, h.main.align, "", o.Bus, true, bi(0), bad)
	return vs
}

func emitHuge(g *lib.Gen, f func() *huge) bool {
	return g.Emit(func() *lib.Case {
		h := f()
		return &lib.Case{Src: h.src(), Meta: h}
	})
}

// around returns powers of two from 2**from to 2**63 and neighbours.
func around(from, step uint) []int64 {
	r := []int64{}
	for p := from; p < 63; p += step {
		r = append(r, 1<<p-1, 1<<p, 1<<p+1)
	}
	return append(r, 1<<63-1)
}

func hugeArrays(g *lib.Gen) {
	kinds := []string{"status", "config", "static", "proc", "stream", "upstream"}
	wide := func(k string, w, bw int64) bool { return (k == "config" || k == "static") && w > bw }
	for _, bw := range []int64{1, 8, 32, 33, 64} {
		for _, k := range kinds {
			for _, w := range []int64{1, 3, 8, 20, 32, 33, 64, 100} {
				for _, n := range around(5, 1) {
					if wide(k, w, bw) {
						continue
					}
					for _, more := range []int64{0, 5} {
						if more > 0 && (k == "status" || k == "config" || k == "static" || g.Pick(1, 0) > 0 && n&(n-1) != 0) {
							continue
						}
						if !emitHuge(g, func() *huge {
							return &huge{bw: bw, main: hblock{funs: []hfun{{k, w, n, more}}}}
						}) {
							return
						}
					}
				}
			}
		}
	}
	// Sums.
	ends := []int64{1 << 52, 1<<53 + 1, 1<<57 - 1, 1 << 58, 1<<61 - 1, 1 << 61, 1<<62 - 1, 1 << 62, 1<<63 - 1}
	for _, bw := range []int64{1, 8, 32} {
		for _, k := range kinds {
			for _, l := range kinds {
				for _, n := range ends {
					for _, m := range ends {
						if !emitHuge(g, func() *huge {
							return &huge{bw: bw, main: hblock{funs: []hfun{{k, 1, n, 0}, {l, 1, m, 0}}}}
						}) || k == l && !emitHuge(g, func() *huge {
							return &huge{bw: bw, main: hblock{align: 4, funs: []hfun{{k, 1, n, 0}, {k, 1, m, 0}, {k, 1, n, 0}}}}
						}) || k == "status" && !emitHuge(g, func() *huge {
							return &huge{bw: bw, main: hblock{subs: []*hblock{{count: n, funs: []hfun{{l, 1, m, 0}}}}}}
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func hugeBlocks(g *lib.Gen) {
	funs := func(n int64) []hfun { return []hfun{{"status", 20, n, 0}} }
	counts := around(4, 1)
	for _, align := range []int64{0, 1, 4, 16} {
		for _, own := range []int64{2, 3, 4} {
			for _, n := range counts {
				for _, o := range []int64{2, 7} {
					if !emitHuge(g, func() *huge {
						return &huge{bw: 32, main: hblock{align: align, funs: funs(o), subs: []*hblock{{count: n, align: align, funs: funs(own)}}}}
					}) || !emitHuge(g, func() *huge {
						return &huge{bw: 32, main: hblock{align: align, funs: funs(o), subs: []*hblock{{count: n, funs: funs(own)}, {count: n, funs: funs(own)}}}}
					}) || !emitHuge(g, func() *huge {
						return &huge{bw: 32, main: hblock{align: align, funs: funs(o), subs: []*hblock{{funs: funs(o), subs: []*hblock{{count: n, funs: funs(own)}}}, {count: 3, funs: funs(own)}}}}
					}) || !emitHuge(g, func() *huge {
						return &huge{bw: 32, main: hblock{count: n, align: align, funs: funs(o), subs: []*hblock{{count: 3, funs: funs(own)}}}}
					}) || !emitHuge(g, func() *huge {
						return &huge{bw: 32, main: hblock{align: align, funs: funs(o), subs: []*hblock{{count: 3, funs: funs(n)}}}}
					}) {
						return
					}
				}
			}
		}
		cs := around(4, 3)
		for _, n := range cs {
			for _, m := range cs {
				if !emitHuge(g, func() *huge {
					return &huge{bw: 32, main: hblock{align: align, funs: funs(3), subs: []*hblock{{count: n, subs: []*hblock{{count: m, funs: funs(3)}}}}}}
				}) || !emitHuge(g, func() *huge {
					return &huge{bw: 32, main: hblock{align: align, funs: funs(3), subs: []*hblock{{count: n, funs: funs(2)}, {count: m, funs: funs(3)}}}}
				}) {
					return
				}
			}
		}
	}
	// Values of align.
	for p := range 63 {
		align := int64(1) << p
		for _, n := range []int64{1, 3, 1 << 10, 1 << 40, 1 << 61, 1<<62 + 1, 1<<63 - 1} {
			if !emitHuge(g, func() *huge {
				return &huge{bw: 32, main: hblock{align: align, funs: funs(3), subs: []*hblock{{count: n, funs: funs(3)}}}}
			}) || !emitHuge(g, func() *huge {
				return &huge{bw: 32, main: hblock{align: align, funs: funs(n)}}
			}) {
				return
			}
		}
	}
}
