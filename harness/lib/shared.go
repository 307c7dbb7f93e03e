package lib

import "fmt"

// typ returns a type with properties and inner functionalities of e.
func typ(name string, e E) *E {
	e.Name = name
	return &e
}

// inst returns an instance of the type, ext are inner functionalities added by the instance.
func inst(t *E, n int64, ext ...E) E {
	e := *t
	e.Name, e.Of, e.N = "", t, n
	e.Sub = append(append([]E{}, t.Sub...), ext...)
	return e
}

// Shared emits descriptions with types instantiated a few times: next to different functionalities, in different blocks,
// as single functionalities and as arrays, with and without inner functionalities added by an instance or by a derived type.
func Shared(g *Gen, mk func(bw int64) func(els []E) *Case) {
	emit := func(bw int64, els func() []E) { g.Emit(func() *Case { return mk(bw)(els()) }) }
	al := Alphabet8()
	few := []E{S("config", 3), S("config", 8), S("config", 11), S("static", 3), S("status", 3), S("status", 7), S("mask", 5), S("irq", 1), Sna("status", 11), A("config", 3, 3), A("status", 2, 11),
		{K: "irq", N: -1, AE: true}, {K: "proc", N: -1, Sub: []E{S("param", 5), S("return", 4)}}, {K: "stream", N: -1, Sub: []E{S("param", 9)}}}
	leaf := func(e E) bool { return len(e.Sub) == 0 }
	// Types of functionalities other than blocks.
	for _, a := range al {
		if a.K == "block" || a.K == "group" {
			continue
		}
		for _, b := range few {
			emit(8, func() []E {
				t := typ("T", a)
				return []E{inst(t, a.N), b, inst(t, a.N), Blk(inst(t, a.N)), Blk(b, inst(t, a.N))}
			})
			emit(8, func() []E {
				t, u := typ("T", a), typ("U", b)
				return []E{inst(u, b.N), inst(t, a.N), Blk(b, inst(t, a.N), inst(u, b.N)), inst(t, a.N), inst(u, b.N), inst(u, b.N)}
			})
			emit(8, func() []E {
				t := typ("T", a)
				d := inst(t, a.N)
				d.Name = "D"
				return []E{inst(&d, a.N), b, inst(t, a.N), Blk(b, inst(&d, a.N), b), inst(&d, a.N)}
			})
		}
		// Different array sizes, and different widths set by instances of the same type.
		if leaf(a) && a.K != "irq" && a.K != "mask" && !a.NA && a.W < 8 {
			for _, n := range []int64{1, 2, 3, 5} {
				for _, m := range []int64{-1, 2, 4} {
					emit(8, func() []E {
						t := typ("T", a)
						return []E{inst(t, -1), inst(t, n), inst(t, m), Blk(inst(t, m), inst(t, n), inst(t, -1))}
					})
				}
			}
		}
		if hasWidth[a.K] && a.N < 0 {
			for _, w := range []int64{1, 4, 7, 9, 16} {
				emit(8, func() []E {
					z := a
					z.W = -1
					t := typ("T", z)
					x, y := inst(t, -1), inst(t, -1)
					x.W, y.W = a.W, w
					return []E{x, y, Blk(y, x, y), x}
				})
			}
		}
	}
	// Procs and streams extended by instances.
	items := []E{S("param", 3), S("param", 11), S("return", 4), A("param", 3, 3), A("return", 2, 7)}
	for _, k := range []string{"proc", "stream"} {
		for _, a := range items {
			for _, b := range items {
				for _, c := range items {
					if k == "stream" && (a.K != b.K || a.K != c.K) {
						continue
					}
					for _, delay := range []bool{false, true} {
						emit(8, func() []E {
							t := typ("T", E{K: k, N: -1, Delay: delay, Sub: []E{a}})
							d := inst(t, -1, b)
							d.Name = "D"
							return []E{inst(t, -1), inst(t, -1, b), inst(t, -1, c, b), inst(&d, -1), inst(&d, -1, c), Blk(inst(&d, -1, c), inst(t, -1))}
						})
						// Types of params and returns.
						emit(8, func() []E {
							p, q := typ("P", a), typ("Q", b)
							return []E{{K: k, N: -1, Delay: delay, Sub: []E{inst(p, a.N), inst(q, b.N), inst(p, a.N)}}, {K: k, N: -1, Sub: []E{inst(q, b.N), c, inst(p, a.N)}}}
						})
					}
				}
			}
		}
	}
	// Groups.
	gr := []E{S("config", 3), S("config", 8), S("config", 11), S("static", 3), S("mask", 5), S("status", 7), A("status", 3, 3)}
	for _, a := range gr {
		for _, b := range gr {
			for _, c := range gr {
				emit(8, func() []E {
					t := typ("T", Grp(a, b))
					return []E{inst(t, -1), inst(t, -1, c), c, Blk(c, inst(t, -1, c), inst(t, -1))}
				})
			}
		}
	}
	// Blocks.
	for i, a := range few {
		for j, b := range few {
			for k, c := range few {
				if (i+j+k)%2 > 0 && !g.Thorough {
					continue
				}
				emit(8, func() []E {
					t := typ("T", Blk(a, b))
					return []E{inst(t, -1), inst(t, -1, c), inst(t, 2, c, b), c}
				})
				emit(8, func() []E {
					x := typ("X", a)
					t := typ("T", Blk(inst(x, a.N), b))
					d := inst(t, -1, c, inst(x, a.N))
					d.Name = "D"
					return []E{inst(x, a.N), inst(t, -1), inst(&d, 3), inst(&d, -1, b), Blk(inst(t, -1, c), inst(&d, -1)), c}
				})
				emit(8, func() []E {
					t := typ("T", Blk(a, c))
					u := typ("U", Blk(inst(t, -1), inst(t, 2, b), b))
					return []E{inst(u, -1), b, inst(u, 2, inst(t, -1)), inst(t, -1), inst(u, -1, a, c)}
				})
			}
		}
	}
	// Many instances of the same type.
	for _, a := range few {
		for n := 1; n <= 40; n++ {
			emit(8, func() []E {
				t, u := typ("T", a), typ("U", Blk(a, S("config", 3)))
				r := []E{}
				for i := 0; i < n; i++ {
					r = append(r, inst(t, a.N), inst(u, -1, few[i%len(few)]))
				}
				return r
			})
		}
	}
	// Chains of types, every one of them adds a functionality, and every one of them is instantiated.
	for _, bw := range []int64{8, 32} {
		for i := range few {
			for n := 1; n <= 10; n++ {
				emit(bw, func() []E {
					t := typ("T0", Blk(few[i]))
					r := []E{inst(t, -1)}
					for j := 1; j <= n; j++ {
						d := inst(t, -1, few[(i+j)%len(few)])
						d.Name = fmt.Sprintf("T%d", j)
						t = &d
						r = append(r, inst(t, int64(j%4)-1))
					}
					return r
				})
			}
		}
	}
}
