// Check C12: exactly the legal compositions are accepted, names are unique.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// allowed lists inner base types of base types.
var allowed = map[string]string{
	"block":  "blackbox block config group irq mask proc static status stream",
	"bus":    "blackbox block config group irq mask proc static status stream",
	"group":  "config irq mask param return static status",
	"proc":   "param return",
	"stream": "param return",
}

var kinds = []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

func allows(parent, child string) bool {
	for _, k := range strings.Fields(allowed[parent]) {
		if k == child {
			return true
		}
	}
	return false
}

// How the inner functionality gets its base type.
const (
	direct   = iota
	derived  // Type in the file.
	inner    // Type in the same body.
	imported // Type in a package.
	chain    // Type of a type.
	hows
)

type kid struct {
	name  string
	kind  string
	edge  bool // Out trigger of the irq.
	how   int
	at    int // Level of the type chain of the parent.
	width int
	array bool
}

func (k kid) String() string {
	return fmt.Sprintf("%s %s (edge %v, how %d, level %d)", k.name, k.kind, k.edge, k.how, k.at)
}

type model struct {
	parent  string
	levs    int
	kids    []kid
	virtual int // 0 is not set, 1 is true, 2 is false.
	virtAt  int
	deep    bool // Parent is in a block.
	pimp    bool // Types of the parent are imported.

	pkgLevel []kid // Instantiations at the package level of main (at 0), imported (at 1) and not imported (at 2) package.
}

func (m *model) reject() string {
	for _, k := range m.pkgLevel {
		if k.kind != "bus" {
			return k.kind + " at the package level"
		}
		if k.at > 0 {
			return "bus in package"
		}
	}
	for i, a := range m.pkgLevel {
		for _, b := range m.pkgLevel[:i] {
			if a.name == b.name && a.at == b.at {
				return "repeated name at the package level"
			}
		}
	}
	seen := map[string]bool{}
	n := map[string]int{}
	edges, levels := 0, 0
	for _, k := range m.kids {
		if !allows(m.parent, k.kind) {
			return k.kind + " within " + m.parent
		}
		if seen[k.name] {
			return "repeated name"
		}
		seen[k.name] = true
		n[k.kind]++
		if k.kind == "irq" {
			if k.edge {
				edges++
			} else {
				levels++
			}
		}
	}
	switch m.parent {
	case "group":
		if len(m.kids) == 0 {
			return "empty group"
		}
		for _, k := range []string{"irq", "param", "return"} {
			if n[k] > 0 && n[k] < len(m.kids) {
				return k + " mixed with others"
			}
			if n[k] > 0 && m.virtual == 1 {
				return "virtual group with " + k
			}
		}
		if edges > 0 && levels > 0 {
			return "different out triggers"
		}
	case "stream":
		if n["param"] > 0 && n["return"] > 0 {
			return "stream in both directions"
		}
	}
	return ""
}

// content returns what is necessary for the functionality to be legal on its own.
func content(d *lib.Def, kind string, k kid) {
	switch kind {
	case "group":
		d.Subs = append(d.Subs, &lib.Def{Name: "g0", Typ: "status", Props: []lib.PV{{Name: "width", Val: "1"}}})
	case "stream":
		d.Subs = append(d.Subs, &lib.Def{Name: "s0", Typ: "param", Props: []lib.PV{{Name: "width", Val: "1"}}})
	case "static":
		d.Props = append(d.Props, lib.PV{Name: "init-value", Val: "0"})
	case "blackbox":
		d.Props = append(d.Props, lib.PV{Name: "size", Val: "2"})
	case "irq":
		if k.edge {
			d.Props = append(d.Props, lib.PV{Name: "out-trigger", Val: "\"Edge\""})
		}
	}
	switch kind {
	case "config", "mask", "param", "return", "static", "status":
		if k.width > 0 {
			d.Props = append(d.Props, lib.PV{Name: "width", Val: fmt.Sprint(k.width)})
		}
	}
}

type src struct {
	file, pkg, pkg2 []*lib.Def
	n               int
}

func (s *src) add(k kid, fromPkg bool) (*lib.Def, []*lib.Def) {
	d := &lib.Def{Name: k.name, Typ: k.kind}
	if k.array {
		d.Count = "2"
	}
	s.n++
	t := fmt.Sprintf("K%d", s.n)
	switch k.how {
	case direct:
		content(d, k.kind, k)
		return d, nil
	case derived, inner:
		td := &lib.Def{IsType: true, Name: t, Typ: k.kind}
		content(td, k.kind, k)
		d.Typ = t
		if k.how == inner {
			return d, []*lib.Def{td}
		}
		if fromPkg {
			s.pkg = append(s.pkg, td)
		} else {
			s.file = append(s.file, td)
		}
		return d, nil
	case chain:
		td := &lib.Def{IsType: true, Name: t, Typ: k.kind}
		content(td, k.kind, k)
		ud := &lib.Def{IsType: true, Name: t + "d", Typ: t}
		d.Typ = t + "d"
		if fromPkg {
			s.pkg = append(s.pkg, ud, td)
		} else {
			s.file = append(s.file, ud, td)
		}
		return d, nil
	}
	td := &lib.Def{IsType: true, Name: t, Typ: k.kind}
	content(td, k.kind, k)
	s.pkg = append(s.pkg, td)
	d.Typ = "lib." + t
	if fromPkg {
		d.Typ = t
	}
	return d, nil
}

func (m *model) mk() *lib.Case {
	c := &lib.Case{Meta: m, Edges: 1 + len(m.kids) + len(m.pkgLevel)}
	s := &src{}
	defs := []*lib.Def{}
	for l := 0; l <= m.levs; l++ {
		d := &lib.Def{IsType: l > 0, Name: fmt.Sprintf("T%d", l), Typ: m.parent}
		if l == 0 {
			d.Name = "x"
			if m.parent == "bus" {
				d.Name = "main"
			}
		}
		if l < m.levs {
			d.Typ = fmt.Sprintf("T%d", l+1)
			if m.pimp && l == 0 {
				d.Typ = "lib." + d.Typ
			}
		}
		if l == m.levs {
			switch m.parent {
			case "blackbox":
				d.Props = append(d.Props, lib.PV{Name: "size", Val: "2"})
			case "static":
				d.Props = append(d.Props, lib.PV{Name: "init-value", Val: "0"})
			}
		}
		if m.virtual != 0 && m.virtAt == l {
			d.Props = append(d.Props, lib.PV{Name: "virtual", Val: [...]string{"", "true", "false"}[m.virtual]})
		}
		for _, k := range m.kids {
			if k.at == l {
				kd, in := s.add(k, m.pimp && l > 0)
				d.Subs = append(d.Subs, kd)
				d.Subs = append(d.Subs, in...)
			}
		}
		defs = append(defs, d)
	}
	types := defs[1:]
	var main *lib.Def
	if m.parent == "bus" {
		main = defs[0]
	} else {
		main = &lib.Def{Name: "main", Typ: "bus"}
		subs := []*lib.Def{defs[0]}
		if m.parent == "param" || m.parent == "return" {
			subs = []*lib.Def{{Name: "pp", Typ: "proc", Subs: subs}}
		}
		if m.deep {
			subs = []*lib.Def{{Name: "bb", Typ: "block", Subs: subs}}
		}
		main.Subs = subs
	}
	if m.pimp {
		s.pkg = append(s.pkg, types...)
	} else {
		s.file = append(s.file, types...)
	}
	var tops []*lib.Def
	for _, k := range m.pkgLevel {
		d := &lib.Def{Name: k.name, Typ: k.kind}
		s.n++
		t := fmt.Sprintf("P%d", s.n)
		td := &lib.Def{IsType: true, Name: t, Typ: k.kind}
		content(td, k.kind, k)
		types := []*lib.Def{}
		switch k.how {
		case direct:
			content(d, k.kind, k)
		case derived, imported:
			types = append(types, td)
			d.Typ = t
		case chain:
			types = append(types, td, &lib.Def{IsType: true, Name: t + "d", Typ: t})
			d.Typ = t + "d"
		}
		switch k.at {
		case 0:
			tops = append(tops, d)
			if k.how == imported {
				d.Typ = "lib." + d.Typ
				s.pkg = append(s.pkg, types...)
			} else {
				s.file = append(s.file, types...)
			}
		case 1:
			s.pkg = append(s.pkg, d)
			s.pkg = append(s.pkg, types...)
		case 2:
			s.pkg2 = append(s.pkg2, d)
			s.pkg2 = append(s.pkg2, types...)
		}
	}
	if len(s.pkg) > 0 || len(s.pkg2) > 0 {
		c.Files = map[string]string{"fbd-lib/a.fbd": "const LIB = 1\n" + lib.Render(s.pkg...)}
		if len(s.pkg2) > 0 {
			c.Files["fbd-other/a.fbd"] = lib.Render(s.pkg2...)
		}
		c.Src = "import \"lib\"\n"
	}
	c.Src += lib.Render(append(append(s.file, main), tops...)...)
	return c
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	desc := fmt.Sprintf("%s with %d types, kids %v, virtual %d, package level %v", m.parent, m.levs, m.kids, m.virtual, m.pkgLevel)
	why := m.reject()
	if why != "" {
		if o.Kind == lib.Reject && strings.TrimSpace(o.Msg) != "" {
			return nil
		}
		return []lib.Viol{{Sig: "accepted:" + m.parent, Msg: fmt.Sprintf("%s: expected rejection (%s), got %s %s", desc, why, o.Kind, o.Msg)}}
	}
	if o.Kind != lib.OK {
		return []lib.Viol{{Sig: "rejected:" + m.parent, Msg: fmt.Sprintf("%s: legal, but %s: %s", desc, o.Kind, o.Msg)}}
	}
	var p any = o.Bus
	if m.parent != "bus" {
		if m.deep {
			if len(o.Bus.Subblocks) != 1 {
				return []lib.Viol{{Sig: "missing", Msg: desc + ": block is missing"}}
			}
			p = o.Bus.Subblocks[0]
		}
		if m.parent == "param" || m.parent == "return" {
			return nil
		}
		v, ok := lib.Find(p, m.parent, "x")
		if !ok {
			return []lib.Viol{{Sig: "missing", Msg: desc + ": the functionality is missing"}}
		}
		p = v
	}
	for _, k := range lib.Kinds {
		want := []string{}
		for l := m.levs; l >= 0; l-- {
			for _, x := range m.kids {
				if x.at == l && x.kind == k {
					want = append(want, x.name)
				}
			}
		}
		have := []string{}
		for _, x := range lib.List(p, k) {
			n := x.FieldByName("Name").String()
			if m.parent == "bus" && k == "static" && n == "ID" {
				continue
			}
			have = append(have, n)
		}
		if k == "block" {
			// Blocks are reported in the order of addresses.
			sort.Strings(want)
			sort.Strings(have)
		}
		if fmt.Sprint(want) != fmt.Sprint(have) {
			return []lib.Viol{{Sig: "content:" + m.parent, Msg: fmt.Sprintf("%s: functionalities of kind %s %v, expected %v", desc, k, have, want)}}
		}
	}
	return nil
}

// levels enumerates all assignments of n items to levels.
func levels(n, levs int, f func(at []int)) {
	at := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(at)
			return
		}
		for l := 0; l <= levs; l++ {
			at[i] = l
			rec(i + 1)
		}
	}
	rec(0)
}

func gen(g *lib.Gen) {
	// Single inner functionality.
	for _, p := range kinds {
		for _, k := range kinds {
			for how := 0; how < hows; how++ {
				for levs := 0; levs <= g.Pick(2, 3); levs++ {
					for at := 0; at <= levs; at++ {
						for v := 0; v < 8; v++ {
							m := &model{parent: p, levs: levs, deep: v&1 > 0, pimp: v&2 > 0, kids: []kid{{name: "k", kind: k, how: how, at: at, width: 3}}}
							if p == "bus" && m.deep || m.pimp && levs == 0 {
								continue
							}
							if v&4 > 0 {
								// There is a legal one, the examined one may be after it.
								l := strings.Fields(allowed[p])
								if len(l) == 0 {
									continue
								}
								f := kid{name: "f", kind: l[len(l)-1], at: at, width: 3}
								if p == "group" && (k == "irq" || k == "param" || k == "return") {
									f.kind = k
								}
								if p == "stream" {
									f.kind = k
									if k != "param" && k != "return" {
										f.kind = "param"
									}
								}
								m.kids = append([]kid{f}, m.kids...)
							}
							g.Emit(m.mk)
						}
					}
				}
			}
		}
	}
	// Pairs with long names, different or not.
	for _, p := range []string{"bus", "block", "group", "proc", "stream"} {
		l := strings.Fields(allowed[p])
		for _, n := range lib.Lengths(g.Pick(40, 130), g.Pick(300, 5000)) {
			for how := 0; how <= lib.Alikes; how++ {
				a, b := lib.Alike(n, how%lib.Alikes)
				if how == lib.Alikes {
					b = a
				}
				for i := range l {
					g.Emit(func() *lib.Case {
						m := &model{parent: p, levs: 1}
						m.kids = []kid{{name: a, kind: l[i], at: n % 2, width: 2}, {name: b, kind: l[(i+1)%len(l)], at: i % 2, width: 3}}
						return m.mk()
					})
				}
			}
		}
	}
	// Pairs.
	for _, p := range []string{"bus", "block", "group", "proc", "stream"} {
		for _, a := range strings.Fields(allowed[p]) {
			for _, b := range strings.Fields(allowed[p]) {
				for _, n := range [][2]string{{"a", "a"}, {"a", "b"}, {"b", "a"}, {"a", "A"}, {"ab", "a"}, {"x", "y"}} {
					for levs := 0; levs <= 2; levs++ {
						levels(2, levs, func(at []int) {
							at = append([]int{}, at...)
							for how := 0; how < hows; how++ {
								if how > 0 && (n[0] != "a" || n[1] != "a") {
									continue
								}
								for v := 0; v < 2; v++ {
									if v == 1 && (p == "bus" || levs == 0) {
										continue
									}
									g.Emit(func() *lib.Case {
										m := &model{parent: p, levs: levs, deep: v == 1 && p != "block", pimp: v == 1}
										m.kids = []kid{{name: n[0], kind: a, at: at[0], how: how, width: 2}, {name: n[1], kind: b, at: at[1], how: how, width: 3}}
										return m.mk()
									})
								}
							}
						})
					}
				}
			}
		}
	}
	// Names repeated with other functionalities in between.
	for _, p := range []string{"bus", "block", "proc", "group"} {
		al := strings.Fields(allowed[p])
		if p == "group" {
			al = []string{"config", "mask", "static", "status"}
		}
		for _, a := range al {
			for _, b := range al {
				for _, c := range al {
					for names := 0; names < 5; names++ {
						nm := [...]string{"aba", "aab", "baa", "aaa", "abc"}[names]
						for levs := 0; levs <= 2; levs++ {
							if len(al) > 5 && levs > g.Pick(1, 2) {
								continue
							}
							levels(3, levs, func(at []int) {
								at = append([]int{}, at...)
								g.Emit(func() *lib.Case {
									return (&model{parent: p, levs: levs, kids: []kid{
										{name: nm[0:1], kind: a, at: at[0], width: 1},
										{name: nm[1:2], kind: b, at: at[1], width: 2},
										{name: nm[2:3], kind: c, at: at[2], width: 3},
									}}).mk()
								})
							})
						}
					}
				}
			}
		}
	}
	// Groups.
	gk := []kid{{kind: "config"}, {kind: "irq"}, {kind: "irq", edge: true}, {kind: "mask"}, {kind: "param"}, {kind: "return"}, {kind: "static"}, {kind: "status"}}
	var rec func(ks []kid, depth int, f func([]kid))
	rec = func(ks []kid, depth int, f func([]kid)) {
		f(ks)
		if len(ks) == depth {
			return
		}
		for _, k := range gk {
			k.name = string(rune('e' - len(ks)))
			k.width = len(ks) + 1
			rec(append(ks[:len(ks):len(ks)], k), depth, f)
		}
	}
	rec(nil, g.Pick(4, 5), func(ks []kid) {
		for levs := 0; levs <= 2; levs++ {
			if levs+len(ks) > g.Pick(5, 7) || len(ks) == 4 && levs > g.Pick(0, 1) || len(ks) > 4 && levs > 0 {
				continue
			}
			levels(len(ks), levs, func(at []int) {
				at = append([]int{}, at...)
				for v := 0; v < 3; v++ {
					for va := 0; va <= levs; va++ {
						if v == 0 && va > 0 || len(ks) > 3 && va > 0 && va < levs {
							continue
						}
						for how := 0; how < 2; how++ {
							if how == 1 && len(ks) > 2 {
								continue
							}
							g.Emit(func() *lib.Case {
								l := append([]kid{}, ks...)
								for i := range l {
									l[i].at = at[i]
									l[i].how = how
								}
								return (&model{parent: "group", levs: levs, virtual: v, virtAt: va, kids: l, deep: how == 1, pimp: how == 1 && levs > 0}).mk()
							})
						}
					}
				}
			})
		}
	})
	// Streams and procs.
	for _, p := range []string{"stream", "proc"} {
		for n := 0; n <= g.Pick(5, 7); n++ {
			for bits := 0; bits < 1<<uint(n); bits++ {
				for levs := 0; levs <= 2; levs++ {
					if n > 4 && levs > 1 {
						continue
					}
					levels(n, levs, func(at []int) {
						at = append([]int{}, at...)
						for v := 0; v < 4; v++ {
							if v&2 > 0 && levs == 0 || v > 0 && n > 3 {
								continue
							}
							g.Emit(func() *lib.Case {
								m := &model{parent: p, levs: levs, deep: v&1 > 0, pimp: v&2 > 0}
								for i := 0; i < n; i++ {
									m.kids = append(m.kids, kid{name: string(rune('k' - i)), kind: [...]string{"param", "return"}[bits>>uint(i)&1], at: at[i], width: i + 1, how: v})
								}
								return m.mk()
							})
						}
					})
				}
			}
		}
	}
	// Many functionalities, at most one of them is illegal or repeats the name of the other one.
	for _, p := range []string{"bus", "block", "group", "proc", "stream"} {
		al := strings.Fields(allowed[p])
		switch p {
		case "group":
			al = []string{"config", "mask", "static", "status"}
		case "stream":
			al = []string{"return"}
		}
		for _, n := range []int{5, 9, 14, 27} {
			for levs := 0; levs <= 2; levs++ {
				mk := func(off int) *model {
					m := &model{parent: p, levs: levs, deep: p != "bus" && off%2 == 1}
					for i := 0; i < n; i++ {
						k := kid{name: fmt.Sprintf("k%02d", (i*5+off)%n), kind: al[(i+off)%len(al)], at: (i + off) % (levs + 1), width: 1 + i%7}
						if n%5 == 0 {
							k.name = fmt.Sprintf("k%d", i)
						}
						m.kids = append(m.kids, k)
					}
					return m
				}
				for off := 0; off < len(al); off++ {
					g.Emit(mk(off).mk)
					if off > 0 && !g.Thorough {
						continue
					}
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							if i != j {
								g.Emit(func() *lib.Case {
									m := mk(off)
									m.kids[i].name = m.kids[j].name
									return m.mk()
								})
							}
						}
						for _, k := range kinds {
							g.Emit(func() *lib.Case {
								m := mk(off)
								m.kids[i].kind = k
								return m.mk()
							})
						}
					}
				}
			}
		}
		if p != "group" {
			continue
		}
		for _, k := range gk {
			for _, n := range []int{5, 9, 20} {
				for at := -1; at < n; at++ {
					for _, o := range gk {
						if at < 0 && o != k {
							continue
						}
						for v := 0; v < 3; v++ {
							g.Emit(func() *lib.Case {
								m := &model{parent: p, virtual: v}
								for i := 0; i < n; i++ {
									x := k
									if i == at {
										x = o
									}
									x.name, x.width = fmt.Sprintf("k%d", i), i+1
									m.kids = append(m.kids, x)
								}
								return m.mk()
							})
						}
					}
				}
			}
		}
	}
	// Package level.
	for _, k := range kinds {
		for _, k2 := range append([]string{""}, kinds...) {
			for at := 0; at < 3; at++ {
				for at2 := 0; at2 < 3; at2++ {
					for how := 0; how < hows; how++ {
						for how2 := 0; how2 < hows; how2++ {
							if how == inner || how2 == inner || k2 == "" && at2+how2 > 0 || how2 != direct && how2 != derived && !g.Thorough && k2 != "bus" || (at > 0 && how == imported) || (at2 > 0 && how2 == imported) {
								continue
							}
							for same := 0; same < 2; same++ {
								if same == 1 && k2 == "" {
									continue
								}
								g.Emit(func() *lib.Case {
									m := &model{parent: "bus", kids: []kid{{name: "k", kind: "config", width: 3}}}
									m.pkgLevel = []kid{{name: "u", kind: k, at: at, how: how, width: 3}}
									if k2 != "" {
										n := "v"
										if same == 1 {
											n = "u"
										}
										m.pkgLevel = append(m.pkgLevel, kid{name: n, kind: k2, at: at2, how: how2, width: 3})
									}
									return m.mk()
								})
							}
						}
					}
				}
			}
		}
	}
	// The order.
	al := []kid{{kind: "config", width: 3}, {kind: "config", width: 2, array: true}, {kind: "status", width: 5}, {kind: "status", width: 2, array: true}, {kind: "static", width: 4}, {kind: "mask", width: 6}, {kind: "irq"},
		{kind: "proc"}, {kind: "stream"}, {kind: "group"}, {kind: "blackbox"}, {kind: "block"}}
	for _, p := range []string{"bus", "block"} {
		var rec func(ks []kid)
		rec = func(ks []kid) {
			if len(ks) > 1 {
				for levs := 0; levs <= 2; levs++ {
					if len(ks) > 3 && levs > g.Pick(0, 1) || len(ks) == 3 && levs > g.Pick(1, 2) || p == "block" && len(ks) > 3 && !g.Thorough {
						continue
					}
					levels(len(ks), levs, func(at []int) {
						at = append([]int{}, at...)
						for rev := 0; rev < 2; rev++ {
							g.Emit(func() *lib.Case {
								m := &model{parent: p, levs: levs}
								for i, k := range ks {
									k.at = at[i]
									k.name = string(rune('e' + i))
									if rev == 1 {
										k.name = string(rune('u' - i))
									}
									if k.width > 0 {
										// Widths grow, shrink, or are the same.
										k.width += i * (2 - rev) % 5
									}
									m.kids = append(m.kids, k)
								}
								return m.mk()
							})
						}
					})
				}
			}
			if len(ks) == 4 {
				return
			}
			for _, k := range al {
				rec(append(ks[:len(ks):len(ks)], k))
			}
		}
		rec(nil)
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C12",
		Rule: "all pairs of parent and inner base types with the inner type direct, derived, nested, imported or derived twice, over all levels of the type chain of the parent; all pairs of siblings in all containers over all levels with the same or different names; " +
			"all triples with repeated names; all groups up to 4 functionalities (8 kinds) over levels with virtual set on any level; all streams and procs up to 5; all pairs of package level instantiations over three packages; all sequences up to 4 of 12 functionalities for the order; " +
			"one case is one compilation; pairs with long names",
		CLIEvery: 199,
		Gen:      gen,
		Eval:     eval,
	})
}
