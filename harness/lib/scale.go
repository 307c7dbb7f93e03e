package lib

import "strings"

// Scale emits large descriptions: many functionalities, long arrays, wide functionalities, long lists of params and returns.
func Scale(g *Gen, mk func(bw int64) func(els []E) *Case) {
	emit := func(bw int64, els func() []E) { g.Emit(func() *Case { return mk(bw)(els()) }) }
	rep := func(n int, es ...E) func() []E {
		return func() []E {
			r := make([]E, n)
			for i := range r {
				r[i] = es[i%len(es)]
			}
			return r
		}
	}
	seq := func(n, m int, a, b E) func() []E { return func() []E { return append(rep(n, a)(), rep(m, b)()...) } }
	// Many functionalities of one or two kinds, one after another or alternating.
	al := Alphabet8()
	few := []E{S("config", 3), S("static", 3), S("status", 3), S("status", 1), S("mask", 3), S("irq", 1), Sna("config", 11), A("config", 3, 3), A("status", 2, 11), Ana("status", 5, 3),
		{K: "irq", N: -1, AE: true}, {K: "proc", N: -1, Sub: []E{S("param", 5), S("return", 4)}}, {K: "stream", N: -1, Sub: []E{S("param", 9)}}}
	for _, bw := range []int64{8, 32} {
		for _, a := range al {
			for n := 4; n <= 40; n++ {
				if bw > 8 && n%4 > 0 {
					continue
				}
				emit(bw, rep(n, a))
			}
			for _, n := range []int{63, 64, 65, 127, 128, 129, 257} {
				emit(bw, rep(n, a))
			}
		}
		for _, a := range few {
			for _, b := range few {
				for _, n := range [][2]int{{1, 12}, {12, 1}, {2, 13}, {8, 8}, {13, 13}, {17, 20}, {40, 33}} {
					emit(bw, seq(n[0], n[1], a, b))
					emit(bw, rep(n[0]+n[1], a, b))
				}
				for _, c := range few {
					for _, n := range []int{7, 13, 30} {
						emit(bw, rep(n, a, b, c))
					}
				}
			}
		}
	}
	// Functionalities of all widths, in both orders.
	for _, bw := range []int64{8, 16, 32} {
		for _, k := range []string{"config", "mask", "static", "status"} {
			for _, n := range []int{16, 40} {
				for _, na := range []bool{false, true} {
					up := func() []E {
						r := []E{}
						for i := 1; i <= n; i++ {
							r = append(r, E{K: k, N: -1, W: int64(i), NA: na && (k == "config" || k == "status")})
						}
						return r
					}
					emit(bw, up)
					emit(bw, func() []E {
						r := up()
						for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
							r[i], r[j] = r[j], r[i]
						}
						return r
					})
				}
			}
		}
	}
	// Long arrays and wide functionalities.
	long := []int64{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024}
	wide := []int64{31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65535, 65536, 65537}
	for _, bw := range []int64{1, 7, 8, 16, 32, 64} {
		for _, k := range []string{"config", "mask", "static", "status", "param", "return"} {
			put := func(e E) {
				if !Supported(e, bw) {
					return
				}
				if k == "param" || k == "return" {
					f := S(k, 3)
					for _, p := range []string{"proc", "stream"} {
						emit(bw, func() []E { return []E{{K: p, N: -1, Sub: []E{e}}, S("config", 1)} })
						emit(bw, func() []E { return []E{{K: p, N: -1, Sub: []E{f, e, f}}, S("config", 1)} })
					}
					return
				}
				for _, o := range []E{S("status", 1), S("config", 1), S("static", 1), S("irq", 1)} {
					emit(bw, func() []E { return []E{e, o, e} })
				}
			}
			for _, w := range wide {
				put(S(k, w))
				if k == "config" || k == "status" {
					put(Sna(k, w))
				}
				put(A(k, 3, w))
			}
			for _, n := range long {
				for _, w := range []int64{1, 2, 3, 5, bw/2 + 1, bw, bw + 1} {
					put(A(k, n, w))
					if k == "status" {
						put(Ana(k, n, w))
					}
				}
			}
		}
	}
	// All widths of the bus.
	for _, n := range Lengths(130, 1024) {
		bw := int64(n)
		es := []E{S("config", 1), S("config", bw), S("config", 2*bw+1), Sna("config", bw+1), A("config", 3, bw/3), A("config", 2, bw), S("mask", bw-1), S("mask", bw+2),
			S("static", bw/2), S("static", bw+1), A("static", 5, bw/2), S("status", bw/2+1), S("status", 3*bw-1), A("status", 4, bw/4+1), A("status", 2, 2*bw+1), A("status", 7, 1), Ana("status", 3, bw-1),
			S("irq", 1), {K: "irq", N: -1, AE: true}, {K: "irq", N: -1, OnRd: true},
			{K: "proc", N: -1, Sub: []E{S("param", bw-1), A("return", 3, bw/2+1)}}, {K: "proc", N: -1, Sub: []E{A("param", 2, bw/2), S("param", bw+1), S("param", bw-1)}},
			{K: "proc", N: -1, Delay: true, Sub: []E{S("return", 2*bw), S("return", 1)}}, {K: "stream", N: -1, Sub: []E{S("param", bw), S("param", 2*bw+3)}}, {K: "stream", N: -1, Sub: []E{A("return", 5, bw/3+1), S("return", 1)}}}
		for i, a := range es {
			for _, b := range es[i:] {
				if Supported(a, bw) && Supported(b, bw) {
					emit(bw, func() []E { return []E{a, b} })
				}
			}
		}
	}
	// Params and returns around ends of registers, all widths of the bus.
	for _, n := range Lengths(130, 1024) {
		bw := int64(n)
		ws := []E{S("", 1), S("", bw/2), S("", bw-1), S("", bw), S("", bw+1), S("", 2*bw), A("", 2, bw/2), A("", 3, bw)}
		for _, k := range []string{"proc", "stream"} {
			for _, kind := range []string{"param", "return"} {
				for _, a := range ws {
					a.K = kind
					emit(bw, func() []E { return []E{{K: k, N: -1, Sub: []E{a}}} })
					for _, b := range ws {
						b.K = kind
						emit(bw, func() []E { return []E{{K: k, N: -1, Sub: []E{a, b}}} })
					}
				}
			}
		}
	}
	// Long lists of params and returns.
	for _, bw := range []int64{8, 32} {
		items := []E{S("", 1), S("", 3), S("", bw-1), S("", bw), S("", bw+1), A("", 3, 3), A("", 2, bw-1), A("", 0, 2)}
		kinds := func(n, k int, es []E) []E {
			r := make([]E, n)
			for i := range r {
				r[i] = es[i%len(es)]
				r[i].K = "param"
				if i >= k {
					r[i].K = "return"
				}
			}
			return r
		}
		for _, n := range []int{4, 5, 6, 8, 9, 16, 17, 33, 64} {
			for _, a := range items {
				for _, b := range items {
					for _, k := range []int{0, 1, n / 2, n - 1, n} {
						for _, d := range []bool{false, true} {
							emit(bw, func() []E { return []E{{K: "proc", N: -1, Delay: d, Sub: kinds(n, k, []E{a, b})}, S("status", 3)} })
						}
						if k == 0 || k == n {
							emit(bw, func() []E { return []E{{K: "stream", N: -1, Sub: kinds(n, k, []E{a, b})}, S("status", 3)} })
						}
					}
				}
			}
		}
	}
}

// ScaleTrees emits large trees of blocks.
func ScaleTrees(g *Gen, mk func(bw int64, own int64, subs []E)) {
	const bw = 8
	// Sizes and counts of a single block, alone and with a sibling.
	sizes := []int64{0, 1}
	for p := int64(2); p <= 1024; p *= 2 {
		sizes = append(sizes, p-1, p, p+1)
	}
	counts := []int64{-1, 1, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
	for _, s := range sizes {
		for _, c := range counts {
			for _, o := range []int64{0, 1, 3, 7} {
				mk(bw, o, []E{Leaf(bw, s, c)})
				mk(bw, o, []E{Leaf(bw, s, c), Leaf(bw, 1, -1)})
				mk(bw, o, []E{Leaf(bw, 3, 2), Leaf(bw, s, c), Leaf(bw, 2, 3)})
			}
			mk(bw, 1, []E{Leaf(bw, 1, 2, Leaf(bw, s, c))})
		}
	}
	for _, s := range sizes {
		for _, o := range sizes {
			mk(bw, o, []E{Leaf(bw, s, 3), Leaf(bw, s, -1)})
			mk(bw, 1, []E{Leaf(bw, o, 2, Leaf(bw, s, 3))})
		}
	}
	// Many siblings.
	small := []E{Leaf(bw, 1, -1), Leaf(bw, 1, 3), Leaf(bw, 2, -1), Leaf(bw, 3, 2), Leaf(bw, 5, -1), Leaf(bw, 4, 1), Leaf(bw, 0, -1), Leaf(bw, 17, 2), Leaf(bw, 1, -1, Leaf(bw, 2, 3))}
	for n := 5; n <= 33; n++ {
		for _, a := range small {
			for _, b := range small {
				if n > 16 && n%4 > 1 {
					continue
				}
				r := make([]E, n)
				q := make([]E, n)
				for i := range r {
					r[i], q[i] = a, a
					if i%2 > 0 {
						r[i] = b
					}
					if i >= n/2 {
						q[i] = b
					}
				}
				mk(bw, 1, r)
				mk(bw, 2, q)
			}
		}
		mk(bw, 1, append(append(append([]E{}, small...), small...), small...)[:min(n, 27)])
	}
	// Deep nesting.
	for d := 4; d <= 12; d++ {
		for _, c1 := range []int64{-1, 2, 3} {
			for _, c2 := range []int64{-1, 2} {
				if d > 8 && (c1 > 2 || c1 > 0 && c2 > 0) {
					continue
				}
				for _, own := range []int64{0, 1, 2, 3} {
					for _, side := range []int64{-1, 0, 1, 3} {
						e := Leaf(bw, 1, c2)
						for i := 0; i < d; i++ {
							c := c1
							if i%2 > 0 {
								c = c2
							}
							if side >= 0 {
								e = Leaf(bw, own, c, e, Leaf(bw, side, c))
							} else {
								e = Leaf(bw, own, c, e)
							}
						}
						mk(bw, own, []E{e})
					}
				}
			}
		}
	}
}

// Lengths is the list of all small numbers and of numbers around powers of 2 and 10 up to the limit.
func Lengths(dense, limit int) (ns []int) {
	for n := 1; n <= dense; n++ {
		ns = append(ns, n)
	}
	seen := map[int]bool{}
	for _, base := range []int{2, 10} {
		for p := base; p <= limit; p *= base {
			for n := p - 1; n <= p+1; n++ {
				if n > dense && !seen[n] {
					seen[n] = true
					ns = append(ns, n)
				}
			}
		}
	}
	return ns
}

// Alikes is the number of ways two names are alike.
const Alikes = 4

// Alike returns two different names of n characters: different in the last, first or middle one, or the second has one more.
func Alike(n, how int) (string, string) {
	s := []byte(strings.Repeat("Long_name9", n/10+1)[:n])
	i := []int{n - 1, 0, n / 2, 0}[how]
	if how == 3 {
		return string(s), string(s) + "x"
	}
	a, b := append([]byte{}, s...), append([]byte{}, s...)
	a[i], b[i] = 'q', 'Z'
	return string(a), string(b)
}
