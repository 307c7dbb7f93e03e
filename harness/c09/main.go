// C09: identifiers resolve to the innermost visible constant, dumps are exact.
package main

import (
	"fmt"
	"math"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type (
	X  = lib.X
	D  = lib.D
	NX = lib.NX
)

var (
	lit = lib.Lit
	ref = lib.Ref
	add = lib.Add
)

// Structures of nested scopes. In each of them scopes are numbered from the outermost one.
const (
	inline   = iota // Package, bus, block, block.
	nestedT         // Package, bus with the type, type of block, instantiation of the block.
	globalT         // Package, bus, global type, instantiation.
	packT           // Main package, imported package, type in the package, instantiation.
	paramT          // Package, bus, parameters of the global type, its body.
	groupS          // Package, bus, block, group.
	innerT          // Package, type of block, nested type within, instantiation of nested type.
	argT            // Package, bus, block with instantiation of parametrized type, body of the type.
	packFile        // Package of two files: type with the body, constants in the other file; main package and bus.
	structs
)

// use returns functionalities showing the values of both names.
func use(names ...string) []*D {
	r := []*D{}
	for i, n := range names {
		r = append(r, &D{Name: fmt.Sprintf("u%d", i), Typ: "config", Props: []NX{{"width", ref(n)}}})
	}
	return r
}

// scopes builds the description from constants of four scopes.
func scopes(structure int, cs [4][]NX, late, bare bool) *lib.Prog {
	m := &lib.FileM{Consts: cs[0], Late: late}
	p := &lib.Prog{Main: m}
	main := &D{Name: "main", Typ: "bus", Props: []NX{{"width", lit(256)}}}
	m.Defs = []*D{main}
	mk := func(d *D) *D {
		if late {
			d.Late()
		}
		return d
	}
	mk(main)
	us := use("N", "M")
	blk := func(name, typ string, c []NX, subs ...*D) *D {
		return mk(&D{Name: name, Typ: typ, Consts: c, Subs: subs})
	}
	typ := func(name, t string, c []NX, subs ...*D) *D {
		d := blk(name, t, c, subs...)
		d.IsType = true
		return d
	}
	switch structure {
	case inline:
		main.Consts = cs[1]
		main.Subs = []*D{blk("a", "block", cs[2], blk("b", "block", cs[3], us...))}
		main.Subs = append(main.Subs, use("N")...)
	case nestedT:
		main.Consts = cs[1]
		main.Subs = []*D{blk("x", "T", cs[3], use("M")...), typ("T", "block", cs[2], &D{Name: "t", Typ: "config", Props: []NX{{"width", ref("N")}}})}
	case globalT:
		main.Consts = cs[1]
		main.Subs = []*D{blk("x", "T", cs[3], use("N", "M")...)}
		m.Defs = append(m.Defs, typ("T", "block", cs[2], &D{Name: "t", Typ: "mask", Props: []NX{{"width", ref("N")}}}))
	case packT:
		m.Imports = [][2]string{{"p", "lib"}}
		main.Subs = []*D{blk("x", "p.T", cs[3], use("N")...)}
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: []*lib.FileM{{Consts: cs[1], Late: late, Defs: []*D{
			typ("T", "block", cs[2], &D{Name: "t", Typ: "mask", Props: []NX{{"width", add(ref("N"), ref("M"))}}})}}}}}
	case paramT:
		main.Consts = cs[1]
		main.Subs = []*D{{Name: "x", Typ: "T"}, blk("y", "T", nil)}
		t := typ("T", "block", cs[3], us...)
		t.Params = cs[2]
		m.Defs = append(m.Defs, t)
	case groupS:
		main.Consts = cs[1]
		main.Subs = []*D{blk("a", "block", cs[2], blk("g", "group", cs[3], us...))}
	case innerT:
		main.Subs = []*D{blk("x", "T", nil)}
		m.Defs = append(m.Defs, typ("T", "block", cs[1], typ("I", "block", cs[2], us...), blk("i", "I", cs[3])))
	case argT:
		main.Consts = cs[1]
		a := []NX{{"A", ref("N")}}
		t := typ("T", "block", cs[3], us...)
		t.Params = []NX{{"A", nil}, {"B", ref("N")}}
		t.Subs = append(t.Subs, &D{Name: "s", Typ: "status", Count: ref("A"), Props: []NX{{"width", ref("B")}}})
		main.Subs = []*D{blk("a", "block", cs[2], &D{Name: "x", Typ: "T", Args: a})}
		m.Defs = append([]*D{t}, m.Defs...)
	case packFile:
		m.Imports = [][2]string{{"", "lib"}}
		main.Consts = cs[1]
		main.Subs = []*D{{Name: "x", Typ: "lib.T"}, {Name: "c", Typ: "config", Props: []NX{{"width", add(ref("lib.N"), ref("N"))}}}}
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: []*lib.FileM{
			{Defs: []*D{typ("T", "block", cs[3], us...)}},
			{Consts: cs[2]},
		}}}
	}
	if bare {
		for _, d := range m.Defs {
			strip(d)
		}
		for _, k := range p.Pkgs {
			for _, f := range k.Files {
				for _, d := range f.Defs {
					strip(d)
				}
			}
		}
	}
	return p
}

// strip turns uses of names into constants.
func strip(d *D) {
	subs := []*D{}
	for _, s := range d.Subs {
		if s.Name[0] == 'u' && d.Typ != "group" {
			d.Consts = append(append([]NX{}, d.Consts...), NX{"K" + d.Name + s.Name, s.Props[0].X})
			continue
		}
		strip(s)
		subs = append(subs, s)
	}
	d.Subs = subs
}

// val is a value of a constant.
type value struct {
	src string
	val any
}

var values = []value{
	{"true", true}, {"false", false},
	{"0", int64(0)}, {"1", int64(1)}, {"0x10", int64(16)}, {"0b101", int64(5)}, {"0o17", int64(15)},
	{"9223372036854775807", int64(math.MaxInt64)}, {"-9223372036854775807 - 1", int64(math.MinInt64)}, {"-5", int64(-5)},
	{"9007199254740993", int64(9007199254740993)},
	{"1.5", 1.5}, {"0.1", 0.1}, {"2.0", 2.0}, {"3 / 2", 1.5}, {"1.0e10", 1e10}, {"123456789.123456789", 123456789.123456789}, {"1 / 3", 1.0 / 3},
	{`""`, ""}, {`"a"`, "a"}, {`"a b  c"`, "a b  c"}, {`"<&>\x # ; ' = ("`, `<&>\x # ; ' = (`}, {`"zażółć \u0041"`, `zażółć \u0041`}, {`"true"`, "true"}, {`"1"`, "1"},
	{"[1]", []int64{1}}, {"[3, 1, 2, 1]", []int64{3, 1, 2, 1}}, {"[-1, 2 ** 3]", []int64{-1, 8}}, {"[true]", []bool{true}}, {"[false, true, false]", []bool{false, true, false}},
	{"bool(1)", true}, {"(7)", int64(7)}, {"ceil(1.2)", int64(2)}, {"floor(1.8)", int64(1)}, {"log2(8)", int64(3)},
}

// Values without support.
var unsupported = []string{`x"ff"`, "[]", "[1, true]", "[true, 1]", "[1.5]", `["a"]`, "1:2", "5 ns", "[[1]]", `[b"0"]`, "[1, 2, true]", "[1, 1.5]"}

// Places of constants.
const places = 7

func placed(place int, consts []NX) *lib.Prog {
	m := &lib.FileM{}
	p := &lib.Prog{Main: m}
	main := &D{Name: "main", Typ: "bus"}
	m.Defs = []*D{main}
	switch place {
	case 0:
		m.Consts = consts
	case 1:
		main.Consts = consts
	case 2:
		main.Subs = []*D{{Name: "a", Typ: "block", Consts: consts}}
	case 3:
		main.Subs = []*D{{Name: "a", Typ: "group", Consts: consts, Subs: []*D{{Name: "c", Typ: "config"}}}}
	case 4:
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: []*lib.FileM{{Consts: consts}}}}
	case 5:
		main.Typ = "T"
		m.Defs = append(m.Defs, &D{IsType: true, Name: "T", Typ: "bus", Consts: consts})
	case 6:
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: []*lib.FileM{{}, {Consts: consts}}}, {Name: "lib2", Files: []*lib.FileM{{Consts: consts}}}}
		m.Imports = [][2]string{{"", "lib"}, {"x", "lib2"}}
		main.Consts = []NX{}
		for _, c := range consts {
			main.Consts = append(main.Consts, NX{c.Name + "l", ref("lib." + c.Name)}, NX{c.Name + "x", ref("x." + c.Name)})
		}
	}
	return p
}

func gen(g *lib.Gen) {
	emit := func(edges int, mk func() *lib.Prog) bool {
		return g.Emit(func() *lib.Case {
			c := mk().Case()
			c.Edges = edges
			c.Consts = true
			return c
		})
	}
	// Long names.
	for _, n := range lib.Lengths(g.Pick(70, 130), g.Pick(1100, 5000)) {
		for how := 0; how < lib.Alikes; how++ {
			a, b := lib.Alike(n, how)
			for k := 0; k < places+7; k++ {
				if k == places+4 && n > 240 {
					continue // Names of directories.
				}
				emit(1, func() *lib.Prog { return names(a, b, k) })
			}
		}
	}
	// Names over scopes.
	ns := func(s int, k int) []NX {
		switch k {
		case 1:
			return []NX{{"N", lit(int64(10 + s))}}
		case 2:
			return []NX{{"N", ref("M")}}
		case 3:
			return []NX{{"N", add(ref("M"), lit(1))}}
		}
		return nil
	}
	ms := func(s int, k int) []NX {
		switch k {
		case 1:
			return []NX{{"M", lit(int64(20 + s))}}
		case 2:
			return []NX{{"M", ref("N")}}
		}
		return nil
	}
	for st := 0; st < structs; st++ {
		for i := 0; i < 4*4*4*4; i++ {
			for j := 0; j < 3*3*3*3; j++ {
				for late := 0; late < 2; late++ {
					multi := st == packT || st == packFile
					if !g.Thorough && (late == 1) != ((i+j)%2 == 1) && multi {
						continue
					}
					var cs [4][]NX
					ki, kj := i, j
					for s := range cs {
						cs[s] = append(ns(s, ki%4), ms(s, kj%3)...)
						ki /= 4
						kj /= 3
					}
					emit(1, func() *lib.Prog { return scopes(st, cs, late == 1, false) })
					if late == (i+j)%2 || g.Thorough {
						emit(1, func() *lib.Prog { return scopes(st, cs, late == 1, true) })
					}
				}
			}
		}
	}
	// Graphs of constants of packages.
	mainX := []*X{lit(1), ref("A"), ref("B"), ref("C"), add(ref("A"), ref("B")), ref("p.A"), add(ref("p.B"), ref("C")), ref("X"), ref("p.X"), ref("q.A")}
	libX := []*X{lit(5), ref("A"), ref("B"), add(ref("B"), lit(1)), ref("m.A"), ref("C")}
	for a := range mainX {
		for b := range mainX {
			for c := range mainX {
				for d := range libX {
					for e := range libX {
						for v := 0; v < g.Pick(2, 4); v++ {
							if !g.Thorough && (d+e+a+b+c)%2 != v {
								continue
							}
							emit(1, func() *lib.Prog {
								m := &lib.FileM{Imports: [][2]string{{"p", "lib"}}, Defs: []*D{{Name: "main", Typ: "bus"}}}
								m.Consts = []NX{{"A", mainX[a]}, {"B", mainX[b]}, {"C", mainX[c]}}
								p := &lib.Prog{Main: m}
								la, lb := NX{"A", libX[d]}, NX{"B", libX[e]}
								imp := [][2]string{{"m", "other"}}
								var fs []*lib.FileM
								switch v {
								case 0:
									fs = []*lib.FileM{{Imports: imp, Consts: []NX{la}}, {Imports: imp, Consts: []NX{lb}}}
								case 1:
									// The second file lacks import.
									fs = []*lib.FileM{{Imports: imp, Consts: []NX{la, lb}}, {Consts: []NX{{"C", ref("B")}}}}
								case 2:
									fs = []*lib.FileM{{Imports: imp, Consts: []NX{lb, la}}, {Imports: imp, Consts: []NX{{"C", ref("m.A")}}}}
								case 3:
									fs = []*lib.FileM{{Consts: []NX{lb}}, {Imports: imp, Consts: []NX{la}}}
								}
								// The other package may depend on the first one.
								o := &lib.FileM{Imports: [][2]string{{"z", "lib"}}, Consts: []NX{{"A", ref("z.B")}, {"X", lit(9)}}}
								p.Pkgs = []*lib.PkgM{{Name: "lib", Files: fs}, {Name: "other", Files: []*lib.FileM{o}}}
								return p
							})
						}
					}
				}
			}
		}
	}
	// Deep scopes.
	for k := 5; k <= g.Pick(6, 8); k++ {
		for ks := 0; ks < 4; ks++ {
			kinds := func(i int) int {
				if ks == 3 {
					return i % 3
				}
				return ks
			}
			for nm := 0; nm < 1<<k; nm++ {
				for mm := 0; mm < 1<<k; mm++ {
					if !g.Thorough && k == 6 && (nm^mm)%5 != 0 {
						continue
					}
					if k > 6 && (nm*7+mm)%(1<<(k-5)) != 0 {
						continue
					}
					emit(1, func() *lib.Prog { return deep(k, kinds, nm, mm, (nm+mm)%2 == 1) })
				}
			}
		}
	}
	for _, k := range []int{10, 16, 32} {
		for ks := 0; ks < 3; ks++ {
			for i := 0; i < k; i++ {
				for j := 0; j < k; j++ {
					emit(1, func() *lib.Prog { return deep(k, func(int) int { return ks }, 1<<i, 1<<j, (i+j)%2 == 1) })
				}
			}
		}
	}
	// Many constants.
	for _, n := range []int{5, 8, 13, 21, 34, 65, 129} {
		for _, step := range []int{1, 2, 3, n - 1, n/2 + 1} {
			if gcd(step, n) != 1 {
				continue
			}
			for form := 0; form < 6; form++ {
				for pl := 0; pl < places; pl++ {
					emit(1, func() *lib.Prog { return placed(pl, many(n, step, form)) })
				}
			}
		}
	}
	// Kinds of values.
	for pl := 0; pl < places; pl++ {
		for i, v := range values {
			for _, w := range values {
				for form := 0; form < 3; form++ {
					if form == 2 && (i > 0 || pl > 3) {
						continue
					}
					emit(1, func() *lib.Prog {
						cs := []NX{{"A", lib.Raw(v.src, v.val)}, {"B", lib.Raw(w.src, w.val)}}
						switch form {
						case 1:
							cs = []NX{{"C", ref("A")}, cs[1], cs[0], {"D", ref("C")}}
						case 2:
							// The same name in different scopes.
							p := placed(pl, cs[1:])
							p.Main.Consts = append(p.Main.Consts, NX{"C", cs[1].X})
							return p
						}
						return placed(pl, cs)
					})
				}
			}
			// Repeated constants.
			for j, w := range values {
				if i > 3 && j != i {
					continue
				}
				emit(1, func() *lib.Prog {
					return &lib.Prog{Main: &lib.FileM{Defs: placed(pl, []NX{{"A", lib.Raw(v.src, v.val)}, {"B", lit(1)}, {"A", lib.Raw(w.src, w.val)}}).Main.Defs,
						Consts:  placed(pl, []NX{{"A", lib.Raw(v.src, v.val)}, {"B", lit(1)}, {"A", lib.Raw(w.src, w.val)}}).Main.Consts,
						Imports: nil}, Pkgs: placed(pl, []NX{{"A", lib.Raw(v.src, v.val)}, {"B", lit(1)}, {"A", lib.Raw(w.src, w.val)}}).Pkgs}
				})
			}
		}
		for _, u := range unsupported {
			g.Emit(func() *lib.Case {
				c := placed(pl, []NX{{"A", lib.Raw(u, nil)}, {"B", lit(1)}}).Case()
				c.Consts = true
				c.Meta = "unsupported value"
				return c
			})
		}
	}
	// Repeated constants in different files of the package.
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				emit(1, func() *lib.Prog {
					p := placed(6, []NX{{"Q", lit(1)}})
					names := []string{"A", "B", "Q"}
					p.Pkgs[0].Files = append(p.Pkgs[0].Files, &lib.FileM{Consts: []NX{{names[i], lit(1)}}}, &lib.FileM{Consts: []NX{{names[j], lit(1)}}})
					p.Main.Consts = []NX{{"Q", lit(3)}, {names[k], lit(7)}}
					return p
				})
			}
		}
	}
}

// names are two long names in the places k.
func names(a, b string, k int) *lib.Prog {
	switch {
	case k < places:
		return placed(k, []NX{{a, lit(3)}, {b, add(ref(a), lit(1))}, {a + "s", lib.Raw(fmt.Sprintf("%q", b), b)}, {b + "t", lib.Raw("[2, 1]", []int64{2, 1})}})
	case k == places:
		return placed(1, []NX{{a, lit(3)}, {b, lit(4)}, {a, lit(5)}})
	case k == places+1:
		return placed(2, []NX{{a, lit(3)}, {"K", ref(b)}})
	}
	p := &lib.Prog{Main: &lib.FileM{Consts: []NX{{a, lit(2)}, {"K", ref(b)}, {b, lit(4)}}}}
	main := &D{Name: "main", Typ: "bus", Props: []NX{{"width", lit(512)}}}
	p.Main.Defs = []*D{main}
	switch k - places {
	case 2:
		// The inner definition of one of names.
		main.Consts = []NX{{a, lit(7)}, {"M", add(ref(a), ref(b))}}
		main.Subs = []*D{{Name: a, Typ: "block", Consts: []NX{{b, ref(a)}, {"L", add(ref(a), ref(b))}}}, {Name: b, Typ: "block", Consts: []NX{{"L", add(ref(a), ref(b))}}}}
	case 3:
		// Types.
		main.Subs = []*D{{Name: "x", Typ: a}, {Name: "y", Typ: b}, {Name: "z", Typ: "block", Subs: []*D{{Name: "w", Typ: a}, {Name: a, Typ: b}, {IsType: true, Name: a, Typ: "mask"}}}}
		p.Main.Consts = p.Main.Consts[:0]
		p.Main.Defs = append(p.Main.Defs, &D{IsType: true, Name: b, Typ: a, Props: []NX{{"width", lit(3)}}}, &D{IsType: true, Name: a, Typ: "config"})
	case 4:
		// Packages and names they are imported with.
		p.Main.Consts = nil
		p.Main.Imports = [][2]string{{"", a}, {b, b}, {b + "z", a}}
		main.Consts = []NX{{"X", ref(a + "." + a)}, {"Y", ref(b + "." + a)}, {"Z", ref(b + "z." + b)}}
		main.Subs = []*D{{Name: "x", Typ: a + "." + b + "T"}, {Name: "y", Typ: b + "." + b + "T"}}
		for i, n := range []string{a, b} {
			p.Pkgs = append(p.Pkgs, &lib.PkgM{Name: n, Files: []*lib.FileM{{Consts: []NX{{a, lit(int64(3 + i))}, {b, lit(int64(8 - i))}}, Defs: []*D{{IsType: true, Name: b + "T", Typ: []string{"config", "status"}[i]}}}}})
		}
	case 5:
		// The type which is not defined.
		p.Main.Consts = nil
		main.Subs = []*D{{Name: "x", Typ: b}}
		p.Main.Defs = append(p.Main.Defs, &D{IsType: true, Name: a, Typ: "config"})
	case 6:
		// Functionalities.
		main.Subs = []*D{{Name: a, Typ: "config"}, {Name: b, Typ: "status"}, {Name: a + "b", Typ: "block", Subs: []*D{{Name: b, Typ: "mask"}, {Name: a, Typ: "irq"}}}}
	}
	return p
}

// deep nests k bodies of given kinds, names are defined according to the masks.
func deep(k int, kinds func(i int) int, nm, mm int, late bool) *lib.Prog {
	p := &lib.Prog{Main: &lib.FileM{Consts: []NX{{"N", lit(100)}, {"M", ref("N")}}}}
	main := &D{Name: "main", Typ: "bus", Props: []NX{{"width", lit(512)}}}
	p.Main.Defs = []*D{main}
	cur := main
	for i := 0; i < k; i++ {
		if nm>>i&1 == 1 {
			x := lit(int64(10 + i))
			if mm>>i&1 == 0 && i%2 == 1 {
				x = add(ref("M"), lit(1))
			}
			cur.Consts = append(cur.Consts, NX{"N", x})
		}
		if mm>>i&1 == 1 {
			cur.Consts = append(cur.Consts, NX{"M", add(ref("N"), lit(int64(i)))})
		}
		if late {
			cur.Late()
		}
		cur.Consts = append(cur.Consts, NX{fmt.Sprintf("K%d", i), ref("M")})
		cur.Subs = append(cur.Subs, use("N", "M")...)
		if i == k-1 {
			break
		}
		next := &D{Name: "b", Typ: "block"}
		switch kinds(i) {
		case 0:
			cur.Subs = append([]*D{next}, cur.Subs...)
		case 1:
			// Through the type.
			t := &D{IsType: true, Name: fmt.Sprintf("T%d", i), Typ: "block"}
			cur.Subs = append(cur.Subs, &D{Name: "b", Typ: t.Name}, t)
			next = t
		case 2:
			// Through the global type.
			t := &D{IsType: true, Name: fmt.Sprintf("T%d", i), Typ: "block"}
			cur.Subs = append(cur.Subs, &D{Name: "b", Typ: t.Name})
			p.Main.Defs = append(p.Main.Defs, t)
			next = t
		}
		cur = next
	}
	return p
}

// many places n constants in the order given by the step.
func many(n, step, form int) []NX {
	cs := make([]NX, n)
	for i := range cs {
		k := i * step % n
		name := func(j int) string { return fmt.Sprintf("C%d", (j+n)%n) }
		var x *X
		switch {
		case form == 0 || k == 0:
			x = lit(int64(k + 1))
		case form == 1:
			x = add(ref(name(k-1)), lit(1))
		case form == 2:
			x = ref(name(k / 2))
		case form == 3:
			x = lib.Raw("true", true)
			if k%4 == 1 {
				x = lib.Raw(fmt.Sprintf("%d.5", k), float64(k)+0.5)
			} else if k%4 == 2 {
				x = lib.Raw(fmt.Sprintf("%q", name(k)), name(k))
			} else if k%4 == 3 {
				x = lib.Raw(fmt.Sprintf("[%d, 1]", k), []int64{int64(k), 1})
			}
		case form == 4:
			// The last constant is repeated.
			x = lit(int64(k))
			if i == n-1 {
				return append(cs[:i], NX{name(k - 1), x})
			}
		case form == 5:
			// The cycle through all the constants.
			x = ref(name(k + 1))
			cs[0].X = ref(name(1))
		}
		cs[i] = NX{name(k), x}
		if form == 5 && i == 0 {
			cs[i].X = ref(name(1))
		}
	}
	return cs
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	p, ok := c.Meta.(*lib.Prog)
	if !ok {
		if o.Kind == lib.Reject {
			return nil
		}
		return []lib.Viol{{Sig: "accepted", Msg: "expected rejection (unsupported value of constant), got " + o.Kind.String()}}
	}
	if _, err := p.Elab(); err == nil && o.Kind == lib.OK && o.Pkgs == nil {
		return []lib.Viol{{Sig: "no-dump", Msg: "constants are not dumped"}}
	}
	return lib.JudgeElab(p, o)
}

func main() {
	lib.Main(&lib.Check{
		ID: "C09",
		Rule: "all assignments of definitions (none, literal, reference to the other name, sum) of two names to four scopes in 9 structures of scopes, constants placed before or after uses; " +
			"all graphs of references between three constants of the main package and constants of two mutually importing packages; all placements of two names in 5 to 8 nested bodies and pairs of placements in up to 32; up to 129 constants in one scope in 6 forms; all pairs of values of all kinds in 7 places; " +
			"one case is one compilation with dump of constants; long names which are alike",
		CLIEvery: 199,
		Gen:      gen,
		Eval:     eval,
	})
}
