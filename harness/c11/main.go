// Check C11: exactly the legal properties and values are accepted.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type vkind int

const (
	vInt vkind = iota
	vBool
	vFloat
	vStr
	vBits
	vTime
	vRange
	vList
)

// value is a value of the model.
type value struct {
	src  string
	k    vkind
	i, j int64
	s    string
	l    []value
}

func in(i int64) value { return value{src: fmt.Sprint(i), k: vInt, i: i} }
func st(s string) value {
	return value{src: "\"" + s + "\"", k: vStr, s: s}
}
func bs(s string) value { return value{src: s, k: vBits, s: s} }
func rn(a, b int64) value {
	return value{src: fmt.Sprintf("%d:%d", a, b), k: vRange, i: a, j: b}
}
func ls(l ...value) value {
	s := []string{}
	for _, v := range l {
		s = append(s, v.src)
	}
	return value{src: "[" + strings.Join(s, ", ") + "]", k: vList, l: l}
}

func (v value) bitWidth() int64 {
	n := int64(len(v.s) - 3)
	switch v.s[0] {
	case 'o', 'O':
		n *= 3
	case 'x', 'X':
		n *= 4
	}
	return n
}

var values = func() []value {
	r := []value{}
	for _, i := range []int64{-4611686018427387904, -129, -128, -127, -65, -64, -33, -32, -31, -9, -8, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17,
		24, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 65535, 65536,
		1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 - 1, 1 << 40, 1<<40 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 62, 1<<62 + 1, math.MaxInt64} {
		r = append(r, in(i))
	}
	r = append(r,
		value{src: "0x10", k: vInt, i: 16}, value{src: "0b1000", k: vInt, i: 8}, value{src: "0o17", k: vInt, i: 15},
		value{src: "4 + 4", k: vInt, i: 8}, value{src: "3 - 4", k: vInt, i: -1}, value{src: "8 / 2", k: vInt, i: 4},
		value{src: "2 ** 4", k: vInt, i: 16}, value{src: "8 / 3", k: vFloat}, value{src: "(16)", k: vInt, i: 16},
		value{src: "true", k: vBool}, value{src: "false", k: vBool, i: 1}, value{src: "bool(1)", k: vBool},
		value{src: "1.0", k: vFloat}, value{src: "0.0", k: vFloat}, value{src: "8.0", k: vFloat}, value{src: "1e2", k: vFloat}, value{src: "-1.5", k: vFloat},
	)
	for _, s := range []string{"", "Explicit", "On Read", "Edge", "Level", "Sync", "Async", "explicit", "on read", "On read", "OnRead", "On  Read", "edge", "EDGE", "level", "LEVEL", "sync", "async", "SYNC",
		"Sync ", " Sync", "Edges", "Leve", "true", "8", "8 ns", "Read Only", "None", "Synchronous", "Rising", "Explicit On Read", "Sync\nAsync"} {
		r = append(r, st(s))
	}
	for _, s := range []string{`b"0"`, `b"1"`, `b"-"`, `b"U"`, `b"01"`, `b"0000000"`, `b"11111111"`, `b"000000000"`, `o"7"`, `o"07"`, `o"777"`, `x"f"`, `x"0f"`, `x"F0"`, `X"fF"`, `B"1"`, `O"1"`, `x"fff"`,
		`x"zz"`, `x"ffffffff"`, `x"fffffffff"`, `o"77777777777"`, `x"0123456789abcdef"`, `x"00123456789abcdef"`} {
		r = append(r, bs(s))
	}
	for _, s := range []string{"0 ns", "1 ns", "5 us", "3 ms", "2 s", "1000000000 ns"} {
		r = append(r, value{src: s, k: vTime})
	}
	for _, p := range [][2]int64{{0, 0}, {0, 1}, {1, 0}, {0, 7}, {7, 0}, {3, 3}, {7, 8}, {8, 7}, {-1, 3}, {-2, -1}, {0, -1}, {100, 200}, {255, 256}, {0, math.MaxInt64}, {1 << 40, 1<<40 - 1}} {
		r = append(r, rn(p[0], p[1]))
	}
	r = append(r,
		ls(rn(0, 1)), ls(rn(0, 1), rn(4, 7)), ls(rn(4, 7), rn(0, 1)), ls(rn(0, 3), rn(2, 5)), ls(rn(1, 0)), ls(rn(0, 1), rn(3, 2)), ls(rn(0, 1), rn(-3, 2)), ls(rn(-1, 1), rn(2, 3)),
		ls(rn(0, 1), in(4)), ls(in(4), rn(0, 1)), ls(in(4)), ls(in(1), in(2)), ls(value{src: "true", k: vBool}), ls(st("Edge")), ls(bs(`b"1"`)),
		ls(rn(0, 1), st("a")), ls(ls(rn(0, 1))), ls(ls(in(1))), ls(), ls(rn(0, 1), rn(2, 3), rn(4, 1)), ls(rn(0, 1), rn(2, 3), value{src: "1.0", k: vFloat}),
	)
	return r
}()

// properties is the list of all properties known to the language.
var properties = []string{
	"access", "add-enable", "align", "atomic", "byte-write-enable", "clear", "delay", "enable-init-value", "enable-reset-value", "in-trigger", "init-value",
	"masters", "out-trigger", "range", "read-latency", "read-value", "reset", "reset-value", "size", "virtual", "width",
}

var kinds = []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

// defines lists properties of base types.
var defines = map[string]string{
	"blackbox": "size",
	"block":    "align masters reset",
	"bus":      "align masters reset width",
	"config":   "atomic init-value range read-value reset-value width",
	"group":    "virtual",
	"irq":      "add-enable clear enable-init-value enable-reset-value in-trigger out-trigger",
	"mask":     "atomic init-value read-value reset-value width",
	"param":    "range width",
	"proc":     "delay",
	"return":   "width",
	"static":   "init-value read-value reset-value width",
	"status":   "atomic read-value width",
	"stream":   "delay",
}

func has(kind, prop string) bool {
	for _, p := range strings.Fields(defines[kind]) {
		if p == prop {
			return true
		}
	}
	return false
}

// legal returns verdict for a value of the property, regardless of other properties.
func legal(prop string, v value) bool {
	one := func(ss ...string) bool {
		for _, s := range ss {
			if v.k == vStr && v.s == s {
				return true
			}
		}
		return false
	}
	switch prop {
	case "add-enable", "atomic", "virtual":
		return v.k == vBool
	case "align":
		return v.k == vInt && v.i > 0 && v.i&(v.i-1) == 0
	case "masters", "size":
		return v.k == vInt && v.i > 0
	case "width":
		return v.k == vInt && v.i >= 0
	case "clear":
		return one("Explicit", "On Read")
	case "in-trigger", "out-trigger":
		return one("Edge", "Level")
	case "reset":
		return one("Sync", "Async")
	case "delay":
		return v.k == vTime
	case "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value":
		return v.k == vInt || v.k == vBits
	case "range":
		switch v.k {
		case vInt:
			return v.i >= 0
		case vRange:
			return v.i >= 0 && v.j >= v.i
		case vList:
			for _, e := range v.l {
				if e.k != vRange || !legal("range", e) {
					return false
				}
			}
			return len(v.l) > 0
		}
	}
	return false
}

// fits reports if the value can be represented with the width.
func fits(v value, w int64) bool {
	if v.k == vBits {
		return v.bitWidth() <= w
	}
	if v.i >= 0 {
		return w >= 63 || v.i < 1<<uint(w)
	}
	return w >= 64 || w > 0 && v.i >= -(1<<uint(w-1))
}

// rangeWidth returns width implied by the range.
func rangeWidth(v value) int64 {
	m := v.i
	switch v.k {
	case vRange:
		m = v.j
	case vList:
		m = 0
		for _, e := range v.l {
			if e.j > m {
				m = e.j
			}
		}
	}
	w := int64(0)
	for m > 0 {
		w++
		m >>= 1
	}
	return w
}

type prop struct {
	name string
	v    value
	at   int // 0 is the instantiation, 1 its type, 2 the type of the type.
}

const (
	oneLine  = iota
	body     // Properties in bodies.
	imported // Types in a package.
	viaConst // Value is a constant.
	viaParam // Value is passed as the type parameter.
	viaDflt  // Value is the default value of the type parameter.
	nested   // Types within the parent.
	places
)

type model struct {
	kind  string
	bus   int64
	props []prop
	levs  int // Number of types.
	place int
	array bool
}

func (m *model) String() string {
	s := fmt.Sprintf("%s, bus width %d, %d types, place %d:", m.kind, m.bus, m.levs, m.place)
	for _, p := range m.props {
		s += fmt.Sprintf(" %s = %s at level %d;", p.name, p.v.src, p.at)
	}
	return s
}

func (m *model) get(name string) (value, bool) {
	for _, p := range m.props {
		if p.name == name {
			return p.v, true
		}
	}
	return value{}, false
}

// reject returns the reason for rejecting the description or an empty string.
func (m *model) reject() string {
	seen := map[string]bool{}
	for _, p := range m.props {
		if !has(m.kind, p.name) {
			return "no property " + p.name
		}
		if !legal(p.name, p.v) {
			return "illegal value of " + p.name
		}
		if seen[p.name] {
			return p.name + " set twice"
		}
		seen[p.name] = true
	}
	if seen["width"] && seen["range"] {
		return "width and range"
	}
	w := m.bus
	if v, ok := m.get("width"); ok {
		w = v.i
		if m.kind == "bus" && w == 0 {
			return "width of the bus is 0"
		}
	}
	if v, ok := m.get("range"); ok {
		w = rangeWidth(v)
	}
	for _, n := range []string{"init-value", "read-value", "reset-value"} {
		if v, ok := m.get(n); ok && !fits(v, w) {
			return n + " does not fit"
		}
	}
	for _, n := range []string{"enable-init-value", "enable-reset-value"} {
		if v, ok := m.get(n); ok {
			if e, ok := m.get("add-enable"); !ok || e.i != 0 {
				return n + " without add-enable"
			}
			if !fits(v, 1) {
				return n + " does not fit"
			}
		}
	}
	if m.kind == "static" && !seen["init-value"] {
		return "no init-value"
	}
	if m.kind == "blackbox" && !seen["size"] {
		return "no size"
	}
	return ""
}

func (m *model) mk() *lib.Case {
	c := &lib.Case{Meta: m, Edges: 1 + len(m.props)}
	defs := []*lib.Def{}
	for l := 0; l <= m.levs; l++ {
		d := &lib.Def{IsType: l > 0, Name: fmt.Sprintf("T%d", l), Typ: m.kind, Body: m.place == body}
		if l == 0 {
			d.Name = "x"
			if m.kind == "bus" {
				d.Name = "main"
			}
		}
		if l < m.levs {
			d.Typ = fmt.Sprintf("T%d", l+1)
			if m.place == imported && l == 0 {
				d.Typ = "lib." + d.Typ
			}
		}
		defs = append(defs, d)
	}
	last := defs[len(defs)-1]
	switch m.kind {
	case "group":
		last.Subs = append(last.Subs, &lib.Def{Name: "i", Typ: "status", Props: []lib.PV{{Name: "width", Val: "1"}}})
	case "stream":
		last.Subs = append(last.Subs, &lib.Def{Name: "i", Typ: "param", Props: []lib.PV{{Name: "width", Val: "1"}}})
	}
	consts := ""
	for i, p := range m.props {
		val := p.v.src
		d := defs[p.at]
		switch m.place {
		case viaConst:
			consts += fmt.Sprintf("const A%d = %s\n", i, val)
			val = fmt.Sprintf("A%d", i)
		case viaParam:
			if p.at > 0 {
				d.Params = append(d.Params, fmt.Sprintf("A%d", i))
				defs[p.at-1].Args = append(defs[p.at-1].Args, val)
				val = fmt.Sprintf("A%d", i)
			}
		case viaDflt:
			if p.at > 0 {
				d.Params = append(d.Params, fmt.Sprintf("A%d = %s", i, val))
				val = fmt.Sprintf("A%d", i)
			}
		}
		d.Props = append(d.Props, lib.PV{Name: p.name, Val: val})
	}
	types := defs[1:]
	var main *lib.Def
	if m.kind == "bus" {
		main = defs[0]
	} else {
		main = &lib.Def{Name: "main", Typ: "bus", Props: []lib.PV{{Name: "width", Val: fmt.Sprint(m.bus)}}}
		subs := []*lib.Def{defs[0]}
		if m.place == nested {
			subs = append(append([]*lib.Def{}, types...), subs...)
			types = nil
		}
		if m.kind == "param" || m.kind == "return" {
			subs = []*lib.Def{{Name: "p", Typ: "proc", Subs: subs}}
		}
		main.Subs = subs
	}
	if m.place == imported {
		c.Src = "import \"lib\"\n" + lib.Render(main)
		c.Files = map[string]string{"fbd-lib/a.fbd": lib.Render(types...)}
		return c
	}
	c.Src = consts + lib.Render(append(append([]*lib.Def{}, types...), main)...)
	return c
}

// huge reports if the value is legal, but absurdly big. How the compiler copes with such values is not the matter of this property.
func huge(p string, v value) bool {
	return v.k == vInt && v.i > 1<<16 && (p == "width" || p == "align" || p == "size") && legal(p, v)
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	why := m.reject()
	if why != "" && o.Kind == lib.OK {
		return []lib.Viol{{Sig: "accepted:" + m.kind, Msg: fmt.Sprintf("%v: accepted, expected rejection (%s)", m, why)}}
	}
	if why != "" {
		if o.Kind != lib.Reject || strings.TrimSpace(o.Msg) == "" {
			return []lib.Viol{{Sig: "no diagnostic:" + m.kind, Msg: fmt.Sprintf("%v: %s %s", m, o.Kind, o.Msg)}}
		}
		return nil
	}
	if o.Kind != lib.OK {
		return []lib.Viol{{Sig: "rejected:" + m.kind, Msg: fmt.Sprintf("%v: legal, but %s: %s", m, o.Kind, o.Msg)}}
	}
	return nil
}

// required returns properties which are necessary for the base type to be legal.
func required(kind string, but string, at int) []prop {
	switch {
	case kind == "static" && but != "init-value":
		return []prop{{"init-value", in(0), at}}
	case kind == "blackbox" && but != "size":
		return []prop{{"size", in(4), at}}
	case kind == "irq" && strings.HasPrefix(but, "enable-"):
		return []prop{{"add-enable", value{src: "true", k: vBool}, at}}
	}
	return nil
}

// example returns a few representative values of the property, legal and illegal ones.
func example(p string) []value {
	switch p {
	case "add-enable", "atomic", "virtual":
		return []value{{src: "true", k: vBool}, {src: "false", k: vBool, i: 1}, in(1)}
	case "align":
		return []value{in(8), in(6), st("8")}
	case "masters", "size":
		return []value{in(2), in(0), in(-1), {src: "1.0", k: vFloat}}
	case "width":
		return []value{in(4), in(8), in(-1), bs(`b"1"`)}
	case "clear":
		return []value{st("Explicit"), st("On Read"), st("Level"), in(1)}
	case "in-trigger", "out-trigger":
		return []value{st("Edge"), st("Level"), st("level"), {src: "true", k: vBool}}
	case "reset":
		return []value{st("Sync"), st("Async"), st("None"), {src: "true", k: vBool}}
	case "delay":
		return []value{{src: "5 ns", k: vTime}, in(5), st("5 ns")}
	case "enable-init-value", "enable-reset-value":
		return []value{in(1), in(-1), in(2), bs(`b"1"`), bs(`b"01"`), {src: "true", k: vBool}}
	case "init-value", "read-value", "reset-value":
		return []value{in(15), in(16), in(-8), in(-9), in(255), in(256), bs(`x"f"`), bs(`b"00000"`), bs(`o"000"`), st("1")}
	case "range":
		return []value{in(15), in(16), rn(0, 15), rn(5, 4), ls(rn(0, 3), rn(8, 15)), ls(rn(8, 16), rn(0, 3)), ls(in(1)), in(-1)}
	}
	return []value{in(1)}
}

func gen(g *lib.Gen) {
	buses := []int64{32, 8}
	if g.Thorough {
		buses = []int64{32, 8, 1, 7, 16, 33, 64}
	}
	// Single property.
	for _, bus := range buses {
		for _, k := range kinds {
			if k == "bus" && bus != 32 {
				continue
			}
			for _, p := range properties {
				vs := values
				if !has(k, p) && !g.Thorough {
					vs = append(example(p), in(1), in(-1), value{src: "true", k: vBool}, value{src: "1.5", k: vFloat}, st("Sync"), bs(`x"f"`), value{src: "5 ns", k: vTime}, rn(0, 7), ls(rn(0, 7)))
				}
				for _, v := range vs {
					if huge(p, v) {
						continue
					}
					for levs := 0; levs <= 2; levs++ {
						for at := 0; at <= levs; at++ {
							for place := 0; place < places; place++ {
								switch {
								case place == viaConst && (v.k == vRange || v.k == vTime || v.k == vBits || v.k == vList || v.k == vFloat):
									// Constants of these types are rejected on their own.
									continue
								case place == viaConst && levs > 1, place == imported && (levs == 0 || levs > 1 && !g.Thorough), (place == viaParam || place == viaDflt) && at == 0, place == nested && (levs == 0 || k == "bus"):
									continue
								case place > oneLine && bus != 32 && !g.Thorough && !has(k, p):
									continue
								}
								g.Emit(func() *lib.Case {
									m := &model{kind: k, bus: bus, levs: levs, place: place, props: required(k, p, (at+1)%(levs+1))}
									m.props = append(m.props, prop{p, v, at})
									return m.mk()
								})
							}
						}
					}
				}
			}
		}
	}
	// Pairs of properties over levels.
	for _, bus := range []int64{8, 32} {
		for _, k := range kinds {
			ps := strings.Fields(defines[k])
			ps = append(ps, "access")
			if !has(k, "width") {
				ps = append(ps, "width")
			}
			for _, p := range ps {
				for _, q := range ps {
					if p == q {
						continue
					}
					for _, v := range example(p) {
						for _, w := range example(q) {
							for levs := 0; levs <= 2; levs++ {
								for a := 0; a <= levs; a++ {
									for b := 0; b <= levs; b++ {
										for _, place := range []int{oneLine, body, viaParam} {
											if place == body && !g.Thorough && (a != b) {
												continue
											}
											if place == viaParam && (a == 0 && b == 0 || a == b) {
												continue
											}
											g.Emit(func() *lib.Case {
												m := &model{kind: k, bus: bus, levs: levs, place: place}
												for _, r := range required(k, p, levs) {
													if r.name != q {
														m.props = append(m.props, r)
													}
												}
												if strings.HasPrefix(q, "enable-") && p != "add-enable" && !strings.HasPrefix(p, "enable-") {
													m.props = append(m.props, required(k, q, levs)...)
												}
												m.props = append(m.props, prop{p, v, a}, prop{q, w, b})
												return m.mk()
											})
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// Triples of properties of configs, masks and statics.
	for _, k := range []string{"config", "mask", "static", "status", "irq"} {
		ps := strings.Fields(defines[k])
		for i, p := range ps {
			for j, q := range ps {
				for h, r := range ps {
					if i == j || j == h || i == h {
						continue
					}
					for _, v := range example(p)[:g.Pick(3, 100)%(len(example(p))+1)] {
						for _, w := range example(q)[:g.Pick(3, 100)%(len(example(q))+1)] {
							for _, x := range example(r) {
								g.Emit(func() *lib.Case {
									m := &model{kind: k, bus: 8, levs: 2, place: oneLine}
									m.props = append(m.props, prop{p, v, 2}, prop{q, w, 1}, prop{r, x, 0})
									return m.mk()
								})
							}
						}
					}
				}
			}
		}
	}
	// Widths and values.
	for _, k := range []string{"config", "mask", "static", "status"} {
		for _, p := range []string{"init-value", "read-value", "reset-value"} {
			if !has(k, p) {
				continue
			}
			for w := int64(0); w <= int64(g.Pick(72, 130)); w++ {
				vs := []value{}
				for _, b := range []int64{0, w - 2, w - 1, w, w + 1} {
					for d := int64(-1); d <= 1; d++ {
						if b >= 0 && b < 63 {
							vs = append(vs, in(1<<uint(b)+d), in(-(1<<uint(b) + d)))
						}
					}
				}
				vs = append(vs, in(math.MaxInt64), in(-math.MaxInt64))
				for d := int64(-1); d <= 1; d++ {
					if w+d > 0 {
						vs = append(vs, bs(`b"`+strings.Repeat("0", int(w+d))+`"`), bs(`b"`+strings.Repeat("1", int(w+d))+`"`))
					}
					if w/3+d > 0 {
						vs = append(vs, bs(`o"`+strings.Repeat("7", int(w/3+d))+`"`))
					}
					if w/4+d > 0 {
						vs = append(vs, bs(`x"`+strings.Repeat("a", int(w/4+d))+`"`))
					}
				}
				for _, v := range vs {
					for at := 0; at < 4; at++ {
						g.Emit(func() *lib.Case {
							m := &model{kind: k, bus: 64, levs: 1, place: oneLine, props: required(k, p, 1)}
							m.props = append(m.props, prop{"width", in(w), at & 1}, prop{p, v, at >> 1})
							if k == "mask" || k == "static" {
								m.bus = 160 // Wider ones are not implemented.
							}
							return m.mk()
						})
					}
					if k == "config" && w < 63 {
						g.Emit(func() *lib.Case {
							m := &model{kind: k, bus: 64, levs: 1, place: oneLine}
							m.props = append(m.props, prop{"range", in(1<<uint(w) - 1), 0}, prop{p, v, 1})
							return m.mk()
						})
					}
				}
			}
		}
	}
	// All small values of integer properties.
	for _, kp := range [][2]string{{"block", "align"}, {"bus", "align"}, {"bus", "masters"}, {"blackbox", "size"}, {"bus", "width"}, {"param", "width"}, {"return", "width"}, {"param", "range"}} {
		for i := int64(-8); i <= int64(g.Pick(2100, 70000)); i++ {
			g.Emit(func() *lib.Case {
				m := &model{kind: kp[0], bus: 32, levs: 0, place: oneLine}
				m.props = append(m.props, prop{kp[1], in(i), 0})
				return m.mk()
			})
		}
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C11",
		Rule: "all triples of base type, property known to the language and one of about 190 values of all kinds with boundary ones, placed in one of up to 3 levels of the type chain, in 7 ways " +
			"(one line, body, imported type, constant, type parameter, its default value, nested type); all pairs of properties of a base type with legal and illegal values over all pairs of levels; " +
			"triples for configs, masks, statics, statuses and irqs; all widths up to the bound with all values around the limits; all small integers for integer properties; one case is one compilation",
		Assume:   []string{"legal values of width, align and size above 2^16 are not examined"},
		CLIEvery: 199,
		Gen:      gen,
		Eval:     eval,
	})
}
