// C08: type parameters are bound by position, name and default.
package main

import (
	"fmt"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type (
	X  = lib.X
	D  = lib.D
	NX = lib.NX
)

var (
	lit = lib.Lit
	ref = lib.Ref
	add = lib.Add
)

// Kinds of bodies using the parameters given as expressions.
const (
	useConfig = iota // Property and array size.
	useBlock         // Constants, inner functionality and inner block.
	useProc          // Inner params and returns.
	useGroup         // Constant and inner functionality.
	useNested        // Arguments of an inner type with the same parameter names.
	useShadow        // Parameters used through inner constants.
	useInner         // Inner types using parameters of the outer type directly.
	uses
)

// typ returns parametrized type using its parameters p.
func typ(name string, use int, params []NX) *D {
	t := &D{IsType: true, Name: name, Params: params}
	p := []*X{}
	for _, n := range params {
		p = append(p, ref(n.Name))
	}
	a, b := lit(2), lit(3)
	if len(p) > 0 {
		a, b = p[0], add(p[0], lit(1))
	}
	if len(p) > 1 {
		b = p[1]
	}
	if len(p) > 2 {
		b = add(p[1], p[2])
	}
	switch use {
	case useConfig:
		t.Typ, t.Count = "config", a
		t.Props = []NX{{"width", b}}
	case useBlock:
		t.Typ = "block"
		for _, n := range params {
			t.Consts = append(t.Consts, NX{"K" + n.Name, ref(n.Name)})
		}
		t.Subs = []*D{
			{Name: "c", Typ: "status", Count: a, Props: []NX{{"width", b}}},
			{Name: "s", Typ: "block", Consts: []NX{{"KS", add(a, b)}}, Subs: []*D{{Name: "m", Typ: "mask", Props: []NX{{"width", ref("KS")}}}}},
		}
	case useProc:
		t.Typ = "proc"
		t.Subs = []*D{
			{Name: "p", Typ: "param", Count: b, Props: []NX{{"width", a}}},
			{Name: "r", Typ: "return", Props: []NX{{"width", b}}},
		}
	case useGroup:
		t.Typ = "group"
		t.Consts = []NX{{"KG", add(a, a)}}
		t.Subs = []*D{{Name: "c", Typ: "config", Count: ref("KG"), Props: []NX{{"width", b}}}}
	case useNested:
		t.Typ = "block"
		t.Subs = []*D{
			{IsType: true, Name: "I", Typ: "config", Params: []NX{{"A", b}, {"B", ref("A")}}, Count: ref("A"), Props: []NX{{"width", ref("B")}}},
			{Name: "i", Typ: "I"},
			{Name: "j", Typ: "I", Args: []NX{{"", add(b, a)}}},
			{Name: "k", Typ: "I", Args: []NX{{"B", a}, {"A", b}}},
		}
	case useShadow:
		t.Typ = "block"
		t.Consts = []NX{{"N", a}, {"M", add(b, ref("N"))}}
		t.Subs = []*D{
			{Name: "c", Typ: "config", Props: []NX{{"width", ref("M")}}},
			{Name: "s", Typ: "block", Consts: []NX{{"N", b}}, Subs: []*D{{Name: "c", Typ: "config", Count: ref("N"), Props: []NX{{"width", ref("M")}}}}},
		}
	case useInner:
		t.Typ = "block"
		t.Subs = []*D{
			{IsType: true, Name: "G", Typ: "group", Subs: []*D{{Name: "m", Typ: "mask", Count: a, Props: []NX{{"width", b}}}}},
			{IsType: true, Name: "Q", Typ: "block", Params: []NX{{"Z", nil}}, Subs: []*D{{Name: "c", Typ: "config", Count: ref("Z"), Props: []NX{{"width", a}}}}},
			{Name: "g", Typ: "G"},
			{Name: "q", Typ: "Q", Args: []NX{{"", b}}},
			{Name: "r", Typ: "Q", Args: []NX{{"", lit(1)}}},
		}
	}
	return t
}

// Locations of the types.
const (
	inFile  = iota
	inBody  // Both in the body of the bus.
	inPkg   // Both in the imported package.
	inPkgs  // Each in different package.
	basePkg // The base one in the package.
	split   // The base one in the file, derived one in the body of the bus.
	inSub   // Both in the file, used within an inner block.
	inSubT  // Both in the body of the inner block, used there.
	inFiles // Both in the package, in different files, the constant in one more file.
	locs
)

// build puts types and instantiations in places. Types t1 is the base one, t2 the derived one.
// Constant N differs between places.
func build(loc int, t1, t2 *D, insts []*D) *lib.Prog {
	n := func(v int64) []NX { return []NX{{"N", lit(v)}} }
	p := &lib.Prog{Main: &lib.FileM{Consts: n(4)}}
	main := &D{Name: "main", Typ: "bus", Props: []NX{{"width", lit(128)}}}
	p.Main.Defs = []*D{main}
	q := func(pfx string, names ...string) {
		for _, d := range append([]*D{t2}, insts...) {
			for _, s := range names {
				if d.Typ == s {
					d.Typ = pfx + s
				}
			}
		}
	}
	switch loc {
	case inFile:
		main.Subs = insts
		p.Main.Defs = append(p.Main.Defs, t1, t2)
	case inBody:
		main.Consts = n(5)
		main.Subs = append([]*D{t1, t2}, insts...)
	case inPkg:
		for _, d := range insts {
			d.Typ = "lib." + d.Typ
		}
		main.Subs = insts
		p.Main.Imports = [][2]string{{"lib", "lib"}}
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: []*lib.FileM{{Consts: n(6), Defs: []*D{t1, t2}}}}}
	case inFiles:
		for _, d := range insts {
			d.Typ = "lib." + d.Typ
		}
		main.Subs = insts
		p.Main.Imports = [][2]string{{"lib", "lib"}}
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: []*lib.FileM{{Defs: []*D{t2}}, {Defs: []*D{t1}}, {Consts: n(6)}}}}
	case inPkgs:
		q("base.", "T1")
		q("lib.", "T2")
		main.Subs = insts
		p.Main.Imports = [][2]string{{"", "lib"}, {"base", "base"}}
		p.Pkgs = []*lib.PkgM{
			{Name: "lib", Files: []*lib.FileM{{Imports: [][2]string{{"base", "base"}}, Consts: n(6), Defs: []*D{t2}}}},
			{Name: "base", Files: []*lib.FileM{{Consts: n(7), Defs: []*D{t1}}}},
		}
	case basePkg:
		q("base.", "T1")
		main.Subs = insts
		p.Main.Imports = [][2]string{{"", "base"}}
		p.Main.Defs = append(p.Main.Defs, t2)
		p.Pkgs = []*lib.PkgM{{Name: "base", Files: []*lib.FileM{{Consts: n(7), Defs: []*D{t1}}}}}
	case split:
		main.Consts = n(5)
		main.Subs = append([]*D{t2}, insts...)
		p.Main.Defs = append(p.Main.Defs, t1)
	case inSub:
		main.Subs = []*D{{Name: "sub", Typ: "block", Consts: n(3), Subs: insts}}
		p.Main.Defs = append(p.Main.Defs, t1, t2)
	case inSubT:
		main.Consts = n(5)
		main.Subs = []*D{{Name: "sub", Typ: "block", Subs: append(insts, t2, t1)}}
	}
	return p
}

// lists calls f with all lists of arguments for parameters, the length is n.
func lists(n int, names []string, exprs []*X, f func([]NX)) {
	var rec func(l []NX, named bool)
	rec = func(l []NX, named bool) {
		if len(l) == n {
			f(append([]NX{}, l...))
			return
		}
		for _, e := range exprs {
			if !named {
				rec(append(l, NX{"", e}), false)
			}
			for _, s := range names {
				used := false
				for i, a := range l {
					used = used || a.Name == s || a.Name == "" && i < len(names) && names[i] == s
				}
				if !used {
					rec(append(l, NX{s, e}), true)
				}
			}
		}
	}
	rec(nil, false)
}

func gen(g *lib.Gen) {
	emit := func(edges int, mk func() *lib.Prog) bool {
		return g.Emit(func() *lib.Case {
			c := mk().Case()
			c.Edges = edges
			return c
		})
	}
	// All parameter lists with all argument lists, legal or not.
	abc := []string{"A", "B", "C"}
	for n := 0; n <= 3; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			params := []NX{}
			for i := 0; i < n; i++ {
				p := NX{abc[i], nil}
				if mask>>i&1 == 1 {
					p.X = lit(int64(5 + i))
				}
				params = append(params, p)
			}
			names := []string{"", "A", "B", "C", "X"}
			var rec func(args []NX)
			rec = func(args []NX) {
				for form := 0; form < 5; form++ {
					for _, use := range []int{useConfig, useBlock} {
						if use == useConfig && form > 0 && !g.Thorough {
							continue
						}
						a := append([]NX{}, args...)
						emit(1, func() *lib.Prog {
							t1 := typ("T1", use, params)
							t2 := &D{IsType: true, Name: "T2", Typ: "T1", Args: a}
							x := &D{Name: "x", Typ: "T2"}
							loc := inFile
							switch form {
							case 0, 3:
								t2 = &D{IsType: true, Name: "T2", Typ: "config"}
								x = &D{Name: "x", Typ: "T1", Args: a}
								if form == 3 {
									loc = inSub
								}
							case 2:
								loc = inBody
							case 4:
								loc = inPkgs
							}
							return build(loc, t1, t2, []*D{x})
						})
					}
				}
				if len(args) == g.Pick(3, 4) || len(args) > n {
					return
				}
				for i, s := range names {
					rec(append(args, NX{s, lit(int64(10 + 10*len(args) + i))}))
				}
			}
			rec(nil)
		}
	}
	// Chains of two parametrized types.
	t1s := [][]NX{
		{{"A", nil}},
		{{"A", ref("N")}},
		{{"A", nil}, {"B", nil}},
		{{"A", nil}, {"B", add(ref("A"), lit(1))}},
		{{"A", ref("N")}, {"B", lit(2)}},
		{{"A", add(ref("B"), lit(1))}, {"B", ref("N")}},
	}
	t2s := [][]NX{
		{},
		{{"A", nil}},
		{{"B", nil}, {"A", nil}},
		{{"A", ref("N")}, {"B", add(ref("A"), lit(2))}},
		{{"N", nil}, {"C", lit(3)}},
		{{"N", lit(2)}, {"B", ref("N")}},
	}
	if g.Thorough {
		t1s = append(t1s, []NX{{"A", nil}, {"B", nil}, {"C", add(ref("A"), ref("B"))}})
		t2s = append(t2s, []NX{{"C", add(ref("A"), lit(1))}, {"A", lit(2)}, {"B", ref("N")}})
	}
	names := func(l []NX) []string {
		r := []string{}
		for _, p := range l {
			r = append(r, p.Name)
		}
		return r
	}
	legal := func(params, args []NX) bool {
		for i, p := range params {
			if p.X != nil || i < len(args) && args[i].Name == "" {
				continue
			}
			ok := false
			for _, a := range args {
				ok = ok || a.Name == p.Name
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, t1 := range t1s {
		for _, t2 := range t2s {
			ex := []*X{lit(2), ref("N")}
			for _, p := range t2 {
				if p.Name != "N" {
					ex = append(ex, ref(p.Name))
				}
			}
			if len(t2) > 0 {
				ex = append(ex, add(ref(t2[0].Name), lit(1)))
			}
			for n := 0; n <= len(t1); n++ {
				lists(n, names(t1), ex, func(a1 []NX) {
					if !legal(t1, a1) {
						return
					}
					for k := 0; k <= len(t2); k++ {
						xs := []*X{lit(5), ref("N")}
						lists(k, names(t2), xs, func(a2 []NX) {
							if !legal(t2, a2) {
								return
							}
							// The second use takes different arguments.
							a3 := []NX{}
							for i, p := range t2 {
								if p.X == nil || i == 1 {
									a3 = append(a3, NX{p.Name, lit(int64(7 - i))})
								}
							}
							a4 := []NX{}
							for i, p := range t1 {
								if p.X == nil {
									a4 = append(a4, NX{p.Name, lit(int64(3 + i))})
								}
							}
							for use := 0; use < uses; use++ {
								for loc := 0; loc < locs; loc++ {
									multi := loc == inPkg || loc == inPkgs || loc == basePkg || loc == inFiles
									if !g.Thorough && multi && (use+loc)%4 != 0 && use != useBlock {
										continue
									}
									if !g.Thorough && len(t1) == 2 && len(t2) > 0 && (use+loc+n+k)%3 != 0 {
										continue
									}
									emit(1, func() *lib.Prog {
										d1 := typ("T1", use, t1)
										d2 := &D{IsType: true, Name: "T2", Typ: "T1", Params: t2, Args: a1}
										return build(loc, d1, d2, []*D{
											{Name: "x", Typ: "T2", Args: a2},
											{Name: "y", Typ: "T2", Args: a3},
											{Name: "z", Typ: "T1", Args: a4},
										})
									})
								}
							}
						})
					}
				})
			}
		}
	}
	// Sequences of uses of the same types in different contexts.
	nAlpha := 11
	max := g.Pick(4, 5)
	for _, use := range []int{useConfig, useBlock, useProc, useNested, useInner} {
		for n := 1; n <= max; n++ {
			seq := make([]int, n)
			var rec func(i int)
			rec = func(i int) {
				if i < n {
					for a := 0; a < nAlpha; a++ {
						seq[i] = a
						rec(i + 1)
					}
					return
				}
				if n == 4 && !g.Thorough && use != useBlock && use != useConfig {
					return
				}
				s := append([]int{}, seq...)
				emit(1, func() *lib.Prog { return sequence(use, s) })
			}
			rec(0)
		}
		// Longer, periodic sequences.
		for _, n := range []int{6, 9, 26} {
			for a := 0; a < nAlpha; a++ {
				for b := 0; b < nAlpha; b++ {
					for c := 0; c < nAlpha; c++ {
						if !g.Thorough && (c != b && n != 9 || n == 26 && a > b || n == 9 && (a+b+c)%2 != 0) {
							continue
						}
						s := make([]int, n)
						for i := range s {
							s[i] = []int{a, b, c}[i%3]
						}
						emit(1, func() *lib.Prog { return sequence(use, s) })
					}
				}
			}
		}
	}
	// Long lists of parameters.
	ns := []int{4, 5, 6, 8, 11}
	if g.Thorough {
		ns = []int{4, 5, 6, 7, 8, 9, 10, 11, 16, 33}
	}
	for _, n := range ns {
		for mask := 0; mask < 8; mask++ {
			for pos := 0; pos <= n; pos++ {
				for rot := 0; rot == 0 || rot < n-pos; rot++ {
					for skip := -1; skip < n; skip++ {
						if skip >= 0 && skip < pos {
							continue
						}
						if n > 5 && rot > 1 && skip >= 0 && skip != (pos+rot)%n {
							continue
						}
						for form := 0; form < 3; form++ {
							if n > 6 && form != (pos+rot+skip+1)%3 {
								continue
							}
							use := []int{useBlock, useNested, useBlock}[form]
							if form == 1 {
								use = useShadow
							}
							emit(1, func() *lib.Prog {
								ps := long(n, mask)
								as := longArgs(n, pos, rot, skip, func(i int) *X { return lit(int64(10 + i)) })
								t1 := typ("T1", use, ps)
								if form < 2 {
									t2 := &D{IsType: true, Name: "T2", Typ: "T1", Args: as}
									return build([]int{inFile, inPkgs}[form], t1, t2, []*D{{Name: "x", Typ: "T1", Args: as}, {Name: "y", Typ: "T2"}})
								}
								// The derived type has the same parameters, passed reversed.
								t2 := &D{IsType: true, Name: "T2", Typ: "T1", Params: long(n, 7-mask)}
								t2.Args = longArgs(n, pos, rot, skip, func(i int) *X { return ref(pname(n - 1 - i)) })
								return build(inBody, t1, t2, []*D{{Name: "x", Typ: "T2", Args: longArgs(n, 0, 1, -1, func(i int) *X { return lit(int64(20 + i)) })}, {Name: "y", Typ: "T1", Args: as}})
							})
						}
					}
				}
			}
		}
	}
	// Long names of parameters and types.
	for _, n := range lib.Lengths(g.Pick(40, 130), g.Pick(300, 5000)) {
		for how := 0; how < lib.Alikes; how++ {
			a, b := lib.Alike(n, how)
			for k := 0; k < 8; k++ {
				for _, use := range []int{useBlock, useNested, useShadow} {
					if n > 40 && use != useBlock {
						continue
					}
					emit(1, func() *lib.Prog { return longNames(a, b, k, use) })
				}
			}
		}
	}
	// Long chains of parametrized types.
	for k := 3; k <= g.Pick(8, 20); k++ {
		for form := 0; form < 5; form++ {
			for loc := 0; loc < 5; loc++ {
				emit(1, func() *lib.Prog { return chain(k, form, loc) })
			}
		}
	}
}

// long returns the list of n parameters, those with the bit of mask set (modulo 3) have default values.
func long(n, mask int) []NX {
	ps := []NX{}
	for i := 0; i < n; i++ {
		p := NX{pname(i), nil}
		if mask>>(i%3)&1 == 1 {
			p.X = lit(int64(3 + i))
			if i > 0 && i%2 == 1 {
				p.X = add(ref(pname(i-1)), lit(1))
			}
		}
		ps = append(ps, p)
	}
	return ps
}

func pname(i int) string { return fmt.Sprintf("P%d", i) }

// longArgs returns arguments, the first pos positional, then named ones rotated by rot, those from skip are missing.
func longArgs(n, pos, rot, skip int, mk func(i int) *X) []NX {
	as := []NX{}
	for i := 0; i < pos; i++ {
		as = append(as, NX{"", mk(i)})
	}
	for j := 0; j < n-pos; j++ {
		i := pos + (j+rot)%(n-pos)
		if i != skip {
			as = append(as, NX{pname(i), mk(i)})
		}
	}
	return as
}

// longNames has two parameters with names a and b, passed in the way k.
func longNames(a, b string, k, use int) *lib.Prog {
	ps := []NX{{a, nil}, {b, nil}}
	as := []NX{{b, lit(5)}, {a, lit(3)}}
	bs := []NX{{"", lit(4)}, {b, lit(2)}}
	ts := []NX{{"", ref(b)}, {b, ref(a)}} // Of the derived type with the parameters of the same names.
	switch k {
	case 1:
		ps[1].X = add(ref(a), lit(1))
		as, bs = as[1:], bs[:1]
	case 2:
		ps = []NX{{a, lit(6)}, {b, lit(7)}}
		as, bs = as[:1], nil
	case 3:
		as[0].Name = a // Repeated name.
	case 4:
		as[1].Name = a + "y" // No such parameter.
	case 5:
		bs[1].Name = a // Already given by position.
	case 6:
		ps[1].Name = a // Repeated parameter.
	case 7:
		ps = ps[:1]
		as, bs, ts = as[1:], []NX{{b, lit(4)}}, []NX{{a, ref("N")}} // No such parameter.
	}
	t1 := typ(a, use, ps)
	t2 := &D{IsType: true, Name: b, Typ: a, Params: []NX{{a, lit(8)}, {b, lit(9)}}, Args: ts}
	insts := []*D{{Name: "x", Typ: a, Args: as}, {Name: "y", Typ: b}, {Name: "z", Typ: b, Args: []NX{{b, lit(2)}}}, {Name: "w", Typ: a, Args: bs}}
	if k == 5 || k == 7 {
		insts = insts[1:]
	}
	return build([]int{inFile, inBody, inSub}[len(a)%3], t1, t2, insts)
}

// chain is a chain of k types, each passes its parameters to the next one.
func chain(k, form, loc int) *lib.Prog {
	tn := func(i int) string { return fmt.Sprintf("T%d", i) }
	types := []*D{}
	for i := 1; i <= k; i++ {
		t := &D{IsType: true, Name: tn(i), Typ: "block", Params: []NX{{"A", nil}, {"B", lit(int64(i))}}, Consts: []NX{{fmt.Sprintf("KA%d", i), ref("A")}, {fmt.Sprintf("KB%d", i), ref("B")}},
			Subs: []*D{{Name: fmt.Sprintf("s%d", i), Typ: "status", Props: []NX{{"width", add(ref("A"), ref("B"))}}}}}
		if i > 1 {
			t.Typ = tn(i - 1)
			switch form {
			case 0:
				t.Args = []NX{{"", add(ref("A"), lit(1))}}
			case 1:
				t.Args = []NX{{"B", ref("A")}, {"A", ref("B")}}
			case 2:
				t.Args = []NX{{"", ref("B")}, {"", add(ref("A"), lit(1))}}
			case 3:
				t.Args = []NX{{"A", ref("N")}}
			case 4:
				// Only every third type is parametrized.
				if i%3 != 0 {
					t.Params = nil
					t.Consts, t.Subs = nil, []*D{{Name: fmt.Sprintf("s%d", i), Typ: "status", Props: []NX{{"width", ref("N")}}}}
				}
				if (i-1)%3 == 0 || i == 2 {
					t.Args = []NX{{"", lit(int64(i))}}
				}
				if i == 4 && len(t.Args) == 0 {
					t.Args = nil
				}
			}
		}
		types = append(types, t)
	}
	p := &lib.Prog{Main: &lib.FileM{Consts: []NX{{"N", lit(4)}}}}
	main := &D{Name: "main", Typ: "bus", Props: []NX{{"width", lit(128)}}}
	pfx := ""
	insts := func() {
		for j, i := range []int{k, k - 1, k} {
			d := &D{Name: string(rune('x' + j)), Typ: pfx + tn(i)}
			if len(types[i-1].Params) > 0 {
				d.Args = []NX{{"", lit(int64(2 + j))}, {"B", lit(int64(9 - j))}}[:1+j%2]
			}
			main.Subs = append(main.Subs, d)
		}
	}
	p.Main.Defs = []*D{main}
	switch loc {
	case 0:
		insts()
		p.Main.Defs = append(p.Main.Defs, types...)
	case 1:
		main.Consts = []NX{{"N", lit(5)}}
		main.Subs = types
		insts()
	case 2:
		pfx = "l."
		insts()
		p.Main.Imports = [][2]string{{"l", "lib"}}
		fs := []*lib.FileM{{Consts: []NX{{"N", lit(6)}}}}
		for _, t := range types {
			fs = append(fs, &lib.FileM{Defs: []*D{t}})
		}
		p.Pkgs = []*lib.PkgM{{Name: "lib", Files: fs}}
	case 3:
		// Each type in its own package.
		for i, t := range types {
			f := &lib.FileM{Consts: []NX{{"N", lit(int64(2 + i))}}, Defs: []*D{t}}
			if i > 0 {
				f.Imports = [][2]string{{"", fmt.Sprintf("lib%d", i)}}
				t.Typ = fmt.Sprintf("lib%d.%s", i, t.Typ)
			}
			p.Pkgs = append(p.Pkgs, &lib.PkgM{Name: fmt.Sprintf("lib%d", i+1), Files: []*lib.FileM{f}})
		}
		insts()
		for j := range main.Subs {
			i := []int{k, k - 1, k}[j]
			main.Subs[j].Typ = fmt.Sprintf("lib%d.%s", i, main.Subs[j].Typ)
		}
		p.Main.Imports = [][2]string{{"", fmt.Sprintf("lib%d", k)}, {"", fmt.Sprintf("lib%d", k-1)}}
	case 4:
		// Nested bodies, types defined in the reversed order.
		main.Consts = []NX{{"N", lit(7)}}
		insts()
		sub := &D{Name: "sub", Typ: "block", Consts: []NX{{"N", lit(3)}}, Subs: main.Subs}
		main.Subs = []*D{sub}
		for i := k - 1; i >= 0; i-- {
			if i >= k/2 {
				sub.Subs = append(sub.Subs, types[i])
			} else {
				main.Subs = append(main.Subs, types[i])
			}
		}
	}
	return p
}

func sequence(use int, seq []int) *lib.Prog {
	t1 := typ("T1", use, []NX{{"A", nil}, {"B", ref("N")}})
	t2 := &D{IsType: true, Name: "T2", Typ: "T1", Params: []NX{{"B", lit(3)}}, Args: []NX{{"B", lit(2)}, {"A", ref("B")}}}
	// Blocks using the types on their own.
	t3 := &D{IsType: true, Name: "T3", Typ: "block", Params: []NX{{"A", nil}}, Consts: []NX{{"K", ref("A")}}, Subs: []*D{
		{Name: "i", Typ: "T1", Args: []NX{{"", add(ref("A"), lit(1))}, {"", ref("A")}}},
		{Name: "j", Typ: "T2", Args: []NX{{"", ref("A")}}},
		{Name: "c", Typ: "status", Props: []NX{{"width", ref("A")}}},
	}}
	p := &lib.Prog{Main: &lib.FileM{Consts: []NX{{"N", lit(4)}}}}
	main := &D{Name: "main", Typ: "bus", Props: []NX{{"width", lit(128)}}}
	for i, a := range seq {
		d := &D{Name: string(rune('a' + i))}
		switch a {
		case 0:
			d.Typ, d.Args = "T1", []NX{{"", lit(1)}}
		case 1:
			d.Typ, d.Args = "T1", []NX{{"B", lit(6)}, {"A", ref("N")}}
		case 2:
			d.Typ, d.Args = "T1", []NX{{"", lit(2)}, {"", lit(7)}}
		case 3:
			d.Typ = "T2"
		case 4:
			d.Typ, d.Args = "T2", []NX{{"B", lit(5)}}
		case 5:
			d.Typ, d.Args = "T3", []NX{{"", lit(2)}}
		case 6:
			d.Typ, d.Args = "T3", []NX{{"A", ref("N")}}
		case 7:
			d.Typ, d.Consts = "block", []NX{{"N", lit(8)}}
			d.Subs = []*D{{Name: "i", Typ: "T1", Args: []NX{{"", ref("N")}}}, {Name: "j", Typ: "T2", Args: []NX{{"", ref("N")}}}}
		case 8:
			d.Typ, d.Consts = "block", []NX{{"A", lit(6)}}
			d.Subs = []*D{{Name: "i", Typ: "T3", Args: []NX{{"", ref("A")}}}, {Name: "j", Typ: "T1", Args: []NX{{"A", ref("A")}}}}
		case 10:
			// Ancestor type used also within the derived one.
			d.Typ, d.Args = "T4", []NX{{"", ref("N")}}
			d.Consts = []NX{{"E", add(ref("N"), lit(1))}}
			d.Subs = []*D{{Name: "l", Typ: "T3", Args: []NX{{"", ref("E")}}}, {Name: "m", Typ: "T1", Args: []NX{{"", lit(1)}}}}
		case 9:
			// The type defined in between.
			d.Typ, d.Consts = "block", []NX{{"N", lit(2)}}
			d.Subs = []*D{
				{IsType: true, Name: "L", Typ: "T1", Params: []NX{{"A", lit(3)}}, Args: []NX{{"", ref("N")}, {"", ref("A")}}},
				{Name: "i", Typ: "L"}, {Name: "j", Typ: "L", Args: []NX{{"", lit(9)}}},
			}
		}
		main.Subs = append(main.Subs, d)
	}
	t4 := &D{IsType: true, Name: "T4", Typ: "T3", Params: []NX{{"A", nil}}, Args: []NX{{"", add(ref("A"), lit(1))}}, Consts: []NX{{"K4", ref("A")}}, Subs: []*D{
		{Name: "k", Typ: "T3", Args: []NX{{"", ref("A")}}},
		{Name: "d", Typ: "status", Props: []NX{{"width", ref("A")}}},
	}}
	p.Main.Defs = []*D{main, t1, t2, t3, t4}
	return p
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol { return lib.JudgeElab(c.Meta.(*lib.Prog), o) }

func main() {
	lib.Main(&lib.Check{
		ID: "C08",
		Rule: "all argument lists (positional, named, unknown, repeated, missing, in any order) for all parameter lists with up to 3 parameters; all legal argument expressions " +
			"over literals, parameters and outer constants in chains of two parametrized types with names of parameters clashing in various ways, in 7 forms of use and 9 placements; " +
			"all sequences of up to 4 (5 in thorough) uses of the same types in different contexts, and periodic ones of up to 26 uses; lists of 4 to 11 (33) parameters with every number of positional arguments, rotation of named ones and missing one; " +
			"chains of 3 to 8 (20) parametrized types in 5 forms and 5 placements; one case is one compilation; long names which are alike",
		CLIEvery: 199,
		Gen:      gen,
		Eval:     eval,
	})
}
