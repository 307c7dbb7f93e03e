package lib

// Regs returns functionality occupying n whole registers.
func Regs(bw, n int64) E {
	switch n {
	case 0:
		return E{}
	case 1:
		return S("status", bw)
	}
	return A("status", n, bw)
}

// Leaf returns block with n own registers.
func Leaf(bw, n, count int64, sub ...E) E {
	e := E{K: "block", N: count}
	if n > 0 {
		e.Sub = append(e.Sub, Regs(bw, n))
	}
	e.Sub = append(e.Sub, sub...)
	return e
}

// Trees emits trees of blocks.
func Trees(g *Gen, mk func(bw int64, own int64, subs []E)) {
	const bw = 8
	sizes := []int64{0, 1, 2, 3, 4, 5, 8, 9}
	counts := []int64{-1, 1, 2, 3}
	leafs := []E{}
	for _, s := range sizes {
		for _, c := range counts {
			leafs = append(leafs, Leaf(bw, s, c))
		}
	}
	owns := []int64{0, 1, 2, 3, 6, 7, 8}
	for _, o := range owns {
		mk(bw, o, nil)
		for _, a := range leafs {
			mk(bw, o, []E{a})
			for _, b := range leafs {
				mk(bw, o, []E{a, b})
			}
		}
	}
	// Three and four subblocks.
	small := []E{Leaf(bw, 0, -1), Leaf(bw, 1, -1), Leaf(bw, 1, 3), Leaf(bw, 2, -1), Leaf(bw, 3, 2), Leaf(bw, 5, -1), Leaf(bw, 4, 1)}
	for _, o := range []int64{0, 1, 2, 5} {
		for _, a := range small {
			for _, b := range small {
				for _, c := range small {
					mk(bw, o, []E{a, b, c})
					if g.Thorough || o == 1 {
						for _, d := range small {
							mk(bw, o, []E{a, b, c, d})
						}
					}
				}
			}
		}
	}
	// Nested blocks, up to 3 levels.
	lv2 := []E{}
	for _, n := range []int64{0, 1, 2, 3} {
		for _, c := range []int64{-1, 1, 2, 3} {
			for _, a := range small {
				lv2 = append(lv2, Leaf(bw, n, c, a))
				for _, b := range small {
					lv2 = append(lv2, Leaf(bw, n, c, a, b))
				}
			}
		}
	}
	for _, x := range lv2 {
		for _, o := range []int64{0, 1, 3} {
			mk(bw, o, []E{x})
			for _, y := range small {
				mk(bw, o, []E{x, y})
			}
		}
		for _, c := range []int64{-1, 2} {
			for _, n := range []int64{0, 2} {
				mk(bw, 1, []E{Leaf(bw, n, c, x)})
				for _, y := range small[:3] {
					mk(bw, 1, []E{Leaf(bw, n, c, x, y), small[3]})
				}
			}
		}
	}
}

// SetAlign returns copy of blocks with align property set in all of them.
func SetAlign(es []E, align int64) []E {
	r := make([]E, len(es))
	for i, e := range es {
		if e.K == "block" {
			e.Align = align
			e.Sub = SetAlign(e.Sub, align)
		}
		r[i] = e
	}
	return r
}

// Renamed returns the list with names assigned in the reversed order.
func Renamed(es []E) []E {
	r := make([]E, len(es))
	for i, e := range es {
		e.Name = string(rune('z'-i)) + "_" + e.K
		if i >= 26 {
			e.Name = string([]rune{'A', rune('z' - i + 26), '_'}) + e.K
		}
		e.Sub = Renamed(e.Sub)
		r[i] = e
	}
	return r
}

// ItemLists emits procs and streams with all lists of params and returns up to given length.
func ItemLists(g *Gen, bw int64, depth int, mk func(els []E) *Case) {
	alpha := []E{}
	for _, w := range []int64{1, 2, 3, bw - 1, bw, bw + 1} {
		alpha = append(alpha, E{W: w, N: -1})
	}
	alpha = append(alpha, E{W: 1, N: 2}, E{W: 3, N: 3}, E{W: bw, N: 2}, E{W: 0, N: -1})
	for d := 1; d <= depth; d++ {
		total := 1
		for i := 0; i < d; i++ {
			total *= len(alpha)
		}
		for x := 0; x < total; x++ {
			pick := func(kind func(i int) string) []E {
				r := []E{}
				y := x
				for i := 0; i < d; i++ {
					e := alpha[y%len(alpha)]
					e.K = kind(i)
					r = append(r, e)
					y /= len(alpha)
				}
				return r
			}
			// Params come first, the rest are returns.
			for n := 0; n <= d; n++ {
				kind := func(i int) string {
					if i < n {
						return "param"
					}
					return "return"
				}
				g.Emit(func() *Case {
					return mk([]E{{K: "proc", N: -1, Delay: x%2 == 1, Sub: pick(kind)}, S("config", 3)})
				})
				if n == 0 || n == d {
					g.Emit(func() *Case {
						return mk([]E{{K: "stream", N: -1, Sub: pick(kind)}, S("status", 3)})
					})
				}
			}
		}
	}
}
