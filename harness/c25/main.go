// C25: the output is a complete and exact document.
package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// prop is a property set in the description.
type prop struct {
	name, src string
	key       string // Of the object in the output.
	want      any
}

// bits is an expected value of a bit string.
type bits uint64

// list of expected ranges.
type ranges [][2]string

// num is the exact text of a number.
type num string

// float is a number equal to the one given.
type float float64

// delay is an expected pair of seconds and nanoseconds.
type delay [2]string

type cnst struct {
	name, src string
	kind      string // Of the list of constants in the output.
	want      any
}

// node is a functionality of the description.
type node struct {
	kind, name, doc string
	count           int // -1 if it is not an array.
	props           []prop
	consts          []cnst
	sub             []*node
}

func (x *node) render(b *strings.Builder, ind string) {
	if x.doc != "" {
		for _, l := range strings.Split(x.doc, "\n") {
			b.WriteString(strings.TrimRight(ind+"# "+l, " ") + "\n")
		}
	}
	arr := ""
	if x.count >= 0 {
		arr = fmt.Sprintf("[%d]", x.count)
	}
	fmt.Fprintf(b, "%s%s %s%s\n", ind, x.name, arr, x.kind)
	for _, p := range x.props {
		fmt.Fprintf(b, "%s  %s = %s\n", ind, p.name, p.src)
	}
	for _, c := range x.consts {
		fmt.Fprintf(b, "%s  const %s = %s\n", ind, c.name, c.src)
	}
	for _, s := range x.sub {
		s.render(b, ind+"  ")
	}
}

type model struct {
	main   *node
	consts []cnst // Of the package.
}

func (m *model) src() string {
	b := &strings.Builder{}
	for _, c := range m.consts {
		fmt.Fprintf(b, "const %s = %s\n", c.name, c.src)
	}
	m.main.render(b, "")
	return b.String()
}

func (m *model) mk() *lib.Case { return &lib.Case{Src: m.src(), Consts: true, Meta: m} }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if o.Kind == lib.Reject {
		return nil // Whether it is legal is decided by other checks.
	}
	if o.Kind != lib.OK {
		return lib.NotOK(o)
	}
	m := c.Meta.(*model)
	j := &judge{}
	if v, err := parse(o.JSON); err != nil {
		j.bad("json", "bus: %v", err)
	} else {
		j.block("main", v, m.main, true)
	}
	if v, err := parse(o.CJSON); err != nil {
		j.bad("json", "constants: %v", err)
	} else {
		j.fields("constants", v, map[string]byte{"main": 'p'})
		if p := field(field(v, "main"), "Consts"); p != nil {
			j.consts("package main", p, m.consts)
		}
	}
	return j.viols
}

func n(kind, name string, sub ...*node) *node {
	return &node{kind: kind, name: name, count: -1, sub: sub}
}

// alternatives of properties of each kind.
var alternatives = map[string][][]prop{
	"blackbox": {{{"size", "1", "Size", num("1")}, {"size", "12", "Size", num("12")}, {"size", "4294967297", "Size", num("4294967297")}}},
	"block": {
		{{"align", "2", "Align", num("2")}, {"align", "64", "Align", num("64")}},
		{{"reset", `"Async"`, "Reset", "Async"}, {"reset", `"Sync"`, "Reset", "Sync"}},
	},
	"bus": {
		{{"align", "2", "Align", num("2")}, {"align", "64", "Align", num("64")}},
		{{"masters", "1", "Masters", num("1")}, {"masters", "7", "Masters", num("7")}},
		{{"reset", `"Async"`, "Reset", "Async"}, {"reset", `"Sync"`, "Reset", "Sync"}},
		{{"width", "8", "Width", num("8")}, {"width", "65", "Width", num("65")}},
	},
	"config": {
		{{"atomic", "true", "Atomic", true}, {"atomic", "false", "Atomic", false}},
		{{"init-value", "0", "InitValue", bits(0)}, {"init-value", `o"5"`, "InitValue", bits(5)}},
		{{"range", "6", "Range", ranges{{"0", "6"}}}, {"range", "2:6", "Range", ranges{{"2", "6"}}}, {"range", "[0:1, 4:6]", "Range", ranges{{"0", "1"}, {"4", "6"}}}, {"width", "3", "Width", num("3")}, {"width", "40", "Width", num("40")}},
		{{"read-value", "6", "ReadValue", bits(6)}, {"read-value", `b"001"`, "ReadValue", bits(1)}},
		{{"reset-value", "0", "ResetValue", bits(0)}, {"reset-value", "7", "ResetValue", bits(7)}},
	},
	"group": {{{"virtual", "true", "Virtual", true}, {"virtual", "false", "Virtual", false}}},
	"irq": {
		{{"add-enable", "true", "AddEnable", true}, {"add-enable", "false", "AddEnable", false}},
		{{"clear", `"Explicit"`, "Clear", "Explicit"}, {"clear", `"On Read"`, "Clear", "On Read"}},
		{{"enable-init-value", "1", "EnableInitValue", bits(1)}, {"enable-init-value", `b"0"`, "EnableInitValue", bits(0)}},
		{{"enable-reset-value", "1", "EnableResetValue", bits(1)}, {"enable-reset-value", `b"0"`, "EnableResetValue", bits(0)}},
		{{"in-trigger", `"Edge"`, "InTrigger", "Edge"}, {"in-trigger", `"Level"`, "InTrigger", "Level"}},
		{{"out-trigger", `"Edge"`, "OutTrigger", "Edge"}, {"out-trigger", `"Level"`, "OutTrigger", "Level"}},
	},
	"mask": {
		{{"atomic", "true", "Atomic", true}, {"atomic", "false", "Atomic", false}},
		{{"init-value", "0", "InitValue", bits(0)}, {"init-value", `b"101"`, "InitValue", bits(5)}},
		{{"read-value", "6", "ReadValue", bits(6)}, {"read-value", `x"1"`, "ReadValue", bits(1)}},
		{{"reset-value", "0", "ResetValue", bits(0)}, {"reset-value", "7", "ResetValue", bits(7)}},
		{{"width", "4", "Width", num("4")}, {"width", "40", "Width", num("40")}},
	},
	"param":  {{{"range", "6", "Range", ranges{{"0", "6"}}}, {"range", "2:6", "Range", ranges{{"2", "6"}}}, {"range", "[0:1, 4:6]", "Range", ranges{{"0", "1"}, {"4", "6"}}}, {"width", "3", "Width", num("3")}, {"width", "40", "Width", num("40")}}},
	"proc":   {{{"delay", "0 s", "Delay", delay{"0", "0"}}, {"delay", "3 ms", "Delay", delay{"0", "3000000"}}, {"delay", "70 s", "Delay", delay{"70", "0"}}}},
	"return": {{{"width", "3", "Width", num("3")}, {"width", "40", "Width", num("40")}}},
	"static": {
		{{"init-value", "0", "InitValue", bits(0)}, {"init-value", `b"101"`, "InitValue", bits(5)}},
		{{"read-value", "6", "ReadValue", bits(6)}, {"read-value", `x"1"`, "ReadValue", bits(1)}},
		{{"reset-value", "0", "ResetValue", bits(0)}, {"reset-value", "7", "ResetValue", bits(7)}},
		{{"width", "4", "Width", num("4")}, {"width", "40", "Width", num("40")}},
	},
	"status": {
		{{"atomic", "true", "Atomic", true}, {"atomic", "false", "Atomic", false}},
		{{"read-value", "6", "ReadValue", bits(6)}, {"read-value", `x"1"`, "ReadValue", bits(1)}},
		{{"width", "4", "Width", num("4")}, {"width", "40", "Width", num("40")}},
	},
	"stream": {{{"delay", "0 s", "Delay", delay{"0", "0"}}, {"delay", "3 us", "Delay", delay{"0", "3000"}}}},
}

// assignments calls fn for all sets of properties of the kind.
func assignments(kind string, fn func(ps []prop)) {
	al := alternatives[kind]
	var rec func(i int, ps []prop)
	rec = func(i int, ps []prop) {
		if i == len(al) {
			fn(append([]prop{}, ps...))
			return
		}
		rec(i+1, ps)
		for _, p := range al[i] {
			rec(i+1, append(ps, p))
		}
	}
	rec(0, nil)
}

// parents are the places of a functionality.
var parents = []func(x *node) *node{
	func(x *node) *node { return n("bus", "main", x) },
	func(x *node) *node { return n("bus", "main", n("block", "b", x)) },
	func(x *node) *node {
		return n("bus", "main", n("config", "x0"), n("block", "b", n("block", "d", x, n("irq", "x1"))))
	},
	func(x *node) *node { return n("bus", "main", n("group", "g", x, n(x.kind, "y"))) },
	func(x *node) *node { return n("bus", "main", n("proc", "p", x)) },
	func(x *node) *node { return n("bus", "main", n("stream", "p", x)) },
	func(x *node) *node { return n("bus", "main", n("proc", "p", x, n("return", "r"))) },
}

func legal(parent int, kind string) bool {
	pr := kind == "param" || kind == "return"
	switch parent {
	case 3:
		return strings.Contains("config mask static status irq param return", kind)
	case 4, 5, 6:
		return pr
	}
	return !pr
}

func gen(g *lib.Gen) {
	kinds := []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}
	docs := []string{"", "One line.", "Two lines.\n\nwith \"quotes\" <&> and \\."}
	for _, k := range kinds {
		assignments(k, func(ps []prop) {
			for pi, parent := range parents {
				for ci, count := range []int{-1, 1, 3} {
					for di, doc := range docs {
						if di != (len(ps)+ci)%3 && len(ps) > 2 && !g.Thorough {
							continue
						}
						if k == "bus" {
							if pi == 0 && count < 0 {
								g.Emit((&model{main: &node{kind: k, name: "main", doc: doc, count: -1, props: ps}}).mk)
							}
							continue
						}
						if !legal(pi, k) {
							continue
						}
						x := &node{kind: k, name: "x", doc: doc, count: count, props: ps}
						if k == "group" {
							x.sub = []*node{n("config", "c"), n("status", "s")}
						}
						g.Emit(func() *lib.Case { return (&model{main: parent(x)}).mk() })
					}
				}
			}
		})
	}
	// Several functionalities.
	for _, a := range kinds {
		for _, b := range kinds {
			for _, pi := range []int{0, 1, 2} {
				if a == "bus" || b == "bus" || !legal(pi, a) || !legal(pi, b) {
					continue
				}
				sub := func(kind, name string) *node {
					x := n(kind, name)
					switch kind {
					case "static":
						x.props = []prop{alternatives[kind][0][1]}
					case "blackbox":
						x.props = []prop{alternatives[kind][0][1]}
					case "group":
						x.sub = []*node{n("config", "c"), n("status", "s"), n("mask", "m")}
					case "proc":
						x.sub = []*node{n("param", "a"), n("return", "s"), n("param", "c")}
					case "stream":
						x.sub = []*node{n("return", "a"), n("return", "s")}
					case "block":
						x.sub = []*node{n("config", "a"), n("status", "s"), n("stream", "t", n("param", "p"))}
					}
					return x
				}
				g.Emit(func() *lib.Case {
					m := &model{main: parents[pi](sub(a, "x"))}
					p := m.main
					for len(p.sub) > 0 && p.sub[0].name != "x" {
						p = p.sub[len(p.sub)-1-(len(p.sub)-1)%2*0]
						if p.name == "x1" {
							break
						}
					}
					p.sub = append(p.sub, sub(b, "z"), sub(a, "w"))
					return m.mk()
				})
			}
		}
	}
	// Documentation and names.
	texts := []string{}
	for r := rune(0x20); r < 0x180; r++ {
		if r != 0x7f {
			texts = append(texts, "x"+string(r)+"x", string(r)+"x")
		}
	}
	for _, r := range []rune{0x2028, 0x2029, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xffee, 0x10000, 0x1f600, 0x10fffd} {
		texts = append(texts, "x"+string(r)+"x", strings.Repeat(string(r), 20)+"x")
	}
	for _, n := range lib.Lengths(70, 5000) {
		texts = append(texts, strings.Repeat("w", n), strings.Repeat(`"`, n)+"x", strings.Repeat("<\\", n)+"x")
	}
	for _, t := range texts {
		g.Emit(func() *lib.Case {
			c := n("config", "c")
			c.doc = strings.TrimLeft(t, " ")
			b := n("block", "b", c)
			b.doc = c.doc + "\n" + c.doc
			return (&model{main: n("bus", "main", b)}).mk()
		})
	}
	for i := 0x20; i < 0x7f; i++ {
		if i == '"' || i == '\\' {
			continue
		}
		s := "a" + string(rune(i)) + "b"
		g.Emit(func() *lib.Case {
			cs := []cnst{{"S", `"` + s + `"`, "Strings", s}}
			return (&model{main: &node{kind: "bus", name: "main", count: -1, consts: cs}, consts: cs}).mk()
		})
	}
	// Constants.
	cs := []cnst{
		{"B1", "true", "Bools", true}, {"B2", "false", "Bools", false},
		{"L1", "[true]", "BoolLists", []any{true}}, {"L2", "[false, true, false]", "BoolLists", []any{false, true, false}},
		{"F1", "1.5", "Floats", float(1.5)}, {"F2", "0.0000001", "Floats", float(0.0000001)}, {"F3", "123456789012345678.5", "Floats", float(123456789012345678.5)}, {"F4", "0.1", "Floats", float(0.1)},
		{"I1", "0", "Ints", num("0")}, {"I2", "-1", "Ints", num("-1")}, {"I3", "9007199254740993", "Ints", num("9007199254740993")}, {"I4", "9223372036854775807", "Ints", num("9223372036854775807")},
		{"I5", "-9223372036854775807", "Ints", num("-9223372036854775807")}, {"I6", "1000000000000000000", "Ints", num("1000000000000000000")}, {"i1", "7", "Ints", num("7")},
		{"J1", "[1]", "IntLists", []any{num("1")}}, {"J2", "[-3, 9007199254740993, 0]", "IntLists", []any{num("-3"), num("9007199254740993"), num("0")}},
		{"S1", `""`, "Strings", ""}, {"S2", `"text <&> ' ; # 1"`, "Strings", "text <&> ' ; # 1"}, {"s1", `"A"`, "Strings", "A"},
	}
	put := func(l []cnst) {
		for place := 0; place < 5; place++ {
			g.Emit(func() *lib.Case {
				m := &model{main: n("bus", "main", n("status", "s"))}
				switch place {
				case 0:
					m.consts = l
				case 1:
					m.main.consts = l
				case 2:
					m.main.sub = append(m.main.sub, &node{kind: "block", name: "b", count: -1, consts: l})
				case 3:
					m.main.sub = append(m.main.sub, &node{kind: "group", name: "g", count: -1, consts: l, sub: []*node{n("config", "a"), n("config", "b")}})
				case 4:
					m.consts, m.main.consts = l, l
					m.main.sub = append(m.main.sub, &node{kind: "block", name: "b", count: 2, sub: []*node{{kind: "block", name: "d", count: -1, consts: l}}})
				}
				return m.mk()
			})
		}
	}
	put(nil)
	for i, a := range cs {
		put([]cnst{a})
		for j, b := range cs[i+1:] {
			put([]cnst{a, b})
			for _, c := range cs[i+j+2:] {
				put([]cnst{a, b, c})
			}
		}
	}
	put(cs)
	// Large numbers.
	big := []string{}
	for _, p := range []uint{0, 1, 8, 24, 31, 32, 52, 53, 54, 61, 62} {
		for d := int64(-1); d <= 1; d++ {
			if v := int64(1)<<p + d; v > 0 {
				big = append(big, fmt.Sprint(v))
			}
		}
	}
	big = append(big, "9223372036854775807", "9223372036854775806")
	for i, a := range big {
		for k := 0; k < 2; k++ {
			kind, name := []string{"config", "param"}[k], []string{"c", "a"}[k]
			one := func(p prop) {
				g.Emit(func() *lib.Case {
					x := n(kind, name)
					x.props = []prop{p}
					if k == 1 {
						return (&model{main: n("bus", "main", n("proc", "p", x))}).mk()
					}
					return (&model{main: n("bus", "main", x)}).mk()
				})
			}
			one(prop{"range", a, "Range", ranges{{"0", a}}})
			for _, b := range big[i:] {
				one(prop{"range", a + ":" + b, "Range", ranges{{a, b}}})
				one(prop{"range", "[0:0, " + a + ":" + b + "]", "Range", ranges{{"0", "0"}, {a, b}}})
			}
		}
		for _, k := range []string{"proc", "stream"} {
			g.Emit(func() *lib.Case {
				x := n(k, "p")
				x.props = []prop{{"delay", a + " s", "Delay", delay{a, "0"}}}
				return (&model{main: n("bus", "main", x)}).mk()
			})
		}
		g.Emit(func() *lib.Case {
			x := n("blackbox", "x")
			x.props = []prop{{"size", a, "Size", num(a)}}
			return (&model{main: n("bus", "main", x)}).mk()
		})
		g.Emit(func() *lib.Case {
			x := n("bus", "main")
			x.props = []prop{{"masters", a, "Masters", num(a)}}
			return (&model{main: x}).mk()
		})
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C25",
		Rule: "all sets of properties with several values of each of 13 base types in all parents, arrays or not, with documentation or not; all pairs of base types in three parents; all characters of documentation to U+017F and others, texts of all lengths to a limit; " +
			"all sets of up to 3 of 20 constants of 6 kinds in 5 places; all pairs of bounds around powers of two up to 2^63; one case is one compilation",
		CLIEvery: 40,
		Gen:      gen,
		Eval:     eval,
	})
}
