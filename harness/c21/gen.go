package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

var bodies = []string{
	"  c config\n",
	"",
	"  c config; width = 1\n  s [3]status; width = 1\n  st static; width = 1; init-value = 1\n",
	"  b block\n    c config; width = 1\n    b [2]block\n      s status; width = 1\n",
	"  p proc\n    a param; width = 1\n    b return; width = 1\n  s stream\n    a return; width = 1\n  i irq\n",
	"  i irq; add-enable = true\n  g group\n    a config; width = 1\n    b config; width = 1\n",
	"  c config; width = 70\n  s [2]status; width = 35\n  d config; width = 1\n  bb blackbox; size = 7\n",
	"  align = 8\n  const A = 5\n  b block\n    const B = [1, 2]\n  c config; width = A\n",
}

func widths(g *lib.Gen) {
	ws := []int64{}
	for w := int64(1); w <= int64(g.Pick(80, 200)); w++ {
		ws = append(ws, w)
	}
	ws = append(ws, 96, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024)
	for _, w := range ws {
		for bi, b := range bodies {
			for _, ts := range []bool{false, true} {
				if !g.Emit(func() *lib.Case {
					return &lib.Case{Src: fmt.Sprintf("main bus\n  width = %d\n%s", w, b), TS: ts, Meta: &model{what: fmt.Sprintf("width: %d, timestamp %v, body %d", w, ts, bi), width: w}}
				}) {
					return
				}
			}
		}
	}
	// The width of the main bus comes from a type, there is another bus in the file.
	for _, w := range []int64{1, 8, 31, 32, 33, 35, 36, 37, 64} {
		for _, ts := range []bool{false, true} {
			for i, src := range []string{
				"type T bus\n  width = %d\n  c config; width = 1\nmain T\n",
				"type T(W) bus\n  width = W\nmain T(%d)\n  c config; width = 1\n",
				"const W = %d\nmain bus\n  width = W\n  s status; width = 1\nother bus\n  width = 16\n  c config\n",
				"other bus\n  width = 64\n  c config\nmain bus\n  width = %d\n  ID_ config; width = 1\n",
			} {
				if !g.Emit(func() *lib.Case {
					return &lib.Case{Src: fmt.Sprintf(src, w), TS: ts, Meta: &model{what: fmt.Sprintf("width: %d, timestamp %v, form %d", w, ts, i), width: w}}
				}) {
					return
				}
			}
		}
	}
}

// Instantiations of all types.
var kinds = []string{"blackbox; size = 1", "block\n@  c config", "config", "irq", "mask", "proc", "static; init-value = 1", "status", "stream", "group\n@  c config"}

func names(g *lib.Gen) {
	ind := func(s, in string) string { return strings.ReplaceAll(s, "@", in) }
	for _, n := range []string{"ID", "TIMESTAMP", "Id", "id", "TIMESTAMP_", "IDs", "Timestamp"} {
		for _, ts := range []bool{false, true} {
			reserved := n == "ID" || n == "TIMESTAMP" && ts
			emit := func(what, src string, illegal bool) bool {
				return g.Emit(func() *lib.Case {
					return &lib.Case{Src: src, TS: ts, Meta: &model{what: fmt.Sprintf("name: %s %s, timestamp %v", n, what, ts), width: 32, illegal: illegal}}
				})
			}
			for _, k := range kinds {
				b, _, _ := strings.Cut(k, "\n")
				if !emit(b+" in the bus", "main bus\n  "+n+" "+ind(k, "  ")+"\n", reserved) ||
					!emit(b+" in the bus with others", "main bus\n  a config\n  b status\n  "+n+" "+ind(k, "  ")+"\n  z block\n    c config\n", reserved) ||
					!emit(b+" in the type of the bus", "type T bus\n  "+n+" "+ind(k, "  ")+"\nmain T\n", reserved) ||
					!emit(b+" in a type of a type of the bus", "type U bus\n  "+n+" "+ind(k, "  ")+"\ntype T U\nmain T\n  x config\n", reserved) ||
					!emit(b+" in a block", "main bus\n  b block\n    "+n+" "+ind(k, "    ")+"\n", false) ||
					!emit(b+" in a block of a block", "main bus\n  b [2]block\n    b block\n      "+n+" "+ind(k, "      ")+"\n", false) ||
					!emit(b+" in a type of a block", "type T block\n  "+n+" "+ind(k, "  ")+"\nmain bus\n  b T\n", false) {
					return
				}
				if !strings.HasPrefix(k, "group") && !strings.HasPrefix(k, "bl") && k != "proc" && k != "stream" {
					if !emit(b+" of a type", "type T "+k+"\nmain bus\n  "+n+" T\n", reserved) {
						return
					}
				}
				// Another bus is not the main one.
				if !emit(b+" in another bus", "main bus\n  c config\nother bus\n  "+n+" "+ind(k, "  ")+"\n", false) {
					return
				}
			}
			for _, k := range []string{"config", "[2]config", "[3]status", "[2]status; width = 40"} {
				if !emit(k+" in the bus", "main bus\n  "+n+" "+k+"\n", reserved) || !emit(k+" in a block", "main bus\n  b block\n    "+n+" "+k+"\n", false) {
					return
				}
			}
			if !emit("param", "main bus\n  p proc\n    "+n+" param\n", false) ||
				!emit("return", "main bus\n  p proc\n    "+n+" return\n", false) ||
				!emit("return of a stream", "main bus\n  p stream\n    "+n+" return\n", false) ||
				!emit("constant of the bus", "main bus\n  const "+n+" = 3\n  c config; width = "+n+"\n", false) ||
				!emit("constant of the package", "const "+n+" = 3\nmain bus\n  c config; width = "+n+"\n", false) ||
				!emit("type", "type "+n+" config; width = 3\nmain bus\n  c "+n+"\n", false) ||
				!emit("parameter", "type T("+n+" = 3) config; width = "+n+"\nmain bus\n  c T(5)\n", false) {
				return
			}
		}
	}
}

// stable are groups of descriptions of the same bus.
func stable(g *lib.Gen) {
	same := [][]string{
		{
			"main bus\n  c config; width = 3\n  s [2]status; width = 4\n",
			"# Comment.\n\nmain bus\n  c config; width = 3\n  s [2]status; width = 4\n",
			"main bus\n\n  c config\n    width = 3\n\n  s [2]status\n    width = 4\n",
			"main bus\n  c config; width = 3 # Comment.\n  s [2]status; width = 4 # Comment.\n# Comment.\n",
			"type T config; width = 3\nmain bus\n  c T\n  s [2]status; width = 4\n",
			"type U config; width = 3\nmain bus\n  c U\n  s [2]status; width = 4\n",
			"type U(W) config; width = W\nmain bus\n  c U(3)\n  s [2]status; width = 4\n",
			"type U(N, W) [N]status; width = W\nmain bus\n  c config; width = 3\n  s U(2, W = 4)\n",
			"const A = 3\nconst B = A + 1\nmain bus\n  c config; width = A\n  s [A - 1]status; width = B\n",
			"const Z = 1\nmain bus\n  c config; width = Z + 2\n  s [2]status; width = 4\nconst Y = 7\n",
			"type T bus\n  c config; width = 3\n  s [2]status; width = 4\nmain T\n",
			"type T bus\n  c config; width = 3\nmain T\n  s [2]status; width = 4\n",
			"main bus\n  width = 32\n  masters = 1\n  c config; width = 3\n  s [2]status; width = 4\n",
			"main bus\n  c config; width = 0b11; atomic = true\n  s [1 + 1]status; width = 2 ** 2\n",
			"other bus\n  d config\nmain bus\n  c config; width = 3\n  s [2]status; width = 4\n",
			"main bus\n  c config; range = 7; atomic = true\n  s [2]status; width = 4\n",
			"main bus\n  c config; range = [0:5, 6:7]; read-value = 7\n  s [2]status; width = 4; read-value = 2\n",
		},
		{
			"main bus\n  const A = 1\n  const B = 2\n  b [2]block\n    # Doc.\n    c config; width = 3; init-value = 5\n",
			"main bus\n  const A = 1\n  const B = A + 1\n  b [B]block\n    # Doc.\n    c config; init-value = 5; width = A + B\n",
			"main bus\n  const\n    A = 1\n    B = 2\n  type T block\n    # Doc.\n    c config; width = 3; init-value = 5\n  b [2]T\n",
			"type T block\n  # Doc.\n  c config; width = 3; init-value = 5\nmain bus\n  # Detached.\n\n  const A = 1\n  # Comment.\n  const B = 2\n  b [2]T\n",
			"# Other.\ntype T [2]block\n  # Doc.\n  c config\n    width = 3\n    init-value = 5\nmain bus\n  const A = 1\n  const B = 2\n  b T\n",
			"main bus\n  const B = 2\n  const A = 1\n  b [2]block\n    #Doc.\n    c config; width = 3; init-value = 7 - 2\n",
		},
		{
			"main bus\n  p proc\n    a param; width = 4\n    b [2]return; width = 5\n  i irq; add-enable = true\n  t static; width = 9; init-value = 0x1F\n  m mask; width = 2\n  x blackbox; size = 3\n",
			"type P proc\n  a param; width = 4\n  b [2]return; width = 5\ntype I irq\n  add-enable = true\nmain bus\n  p P\n  i I\n  t static; init-value = 31; width = 9\n  m mask; width = 2\n  x blackbox; size = 1 + 2\n",
			"main bus\n  p proc\n    a param; range = 15\n    b [2]return; width = 5\n  i irq; add-enable = true\n  t static; width = 9; init-value = 31\n  m mask\n    width = 2\n  x blackbox\n    size = 3\n",
		},
	}
	for gi, ss := range same {
		for i, a := range ss {
			for j, b := range ss {
				if i >= j {
					continue
				}
				for _, ts := range []bool{false, true} {
					if !g.Emit(func() *lib.Case {
						return &lib.Case{Src: a, TS: ts, Meta: &model{what: fmt.Sprintf("stable: group %d, forms %d and %d, timestamp %v", gi, i, j, ts), width: 32, other: []*lib.Case{{Src: b, TS: ts}}, rel: sameID}}
					}) {
						return
					}
				}
			}
		}
	}
}

// buses: only the chosen bus matters.
func buses(g *lib.Gen) {
	for i, a := range bodies {
		for j, b := range bodies {
			for _, ts := range []bool{false, true} {
				for _, bus := range []string{"main", "other"} {
					if !g.Emit(func() *lib.Case {
						x, y := "main bus\n"+a, "other bus\n"+b
						alone := x
						if bus == "other" {
							alone = y
						}
						return &lib.Case{Src: x + y, TS: ts, Bus: bus, Meta: &model{what: fmt.Sprintf("stable: bodies %d and %d, bus %s, timestamp %v", i, j, bus, ts), width: 32, other: []*lib.Case{{Src: alone, TS: ts, Bus: bus}}, rel: sameID}}
					}) {
						return
					}
				}
			}
		}
	}
}

// field is a set of forms of a functionality which differ only in a single thing.
type field struct {
	kind  string
	name  string
	forms []string
}

func vals(kind, name, f string, vs ...any) field {
	r := field{kind: kind, name: name}
	for _, v := range vs {
		r.forms = append(r.forms, strings.ReplaceAll(f, "$", fmt.Sprint(v)))
	}
	return r
}

func nums(a, b int) []any {
	r := []any{}
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return r
}

func fields(g *lib.Gen) []field {
	names := []any{"x", "y", "X", "xx", "x1", "yx", "xy", "a_b", "ab_"}
	docs := []any{"", "# a\n", "# b\n", "# A\n", "# ab\n", "# ba\n", "# a\n# b\n", "#\n# a\n", "# Longer documentation of the functionality.\n", "# Longer documentation of the functionality\n"}
	counts := []any{"", "[1]", "[2]", "[3]", "[4]", "[7]", "[33]"}
	bools := []any{"true", "false"}
	n := g.Pick(40, 72)
	fs := []field{}
	f := func(kind, name, form string, vs ...any) { fs = append(fs, vals(kind, name, form, vs...)) }
	for _, k := range []string{"config", "mask", "status", "static; init-value = 0", "irq", "proc", "stream", "blackbox; size = 3", "block\n  c config"} {
		kind, _, _ := strings.Cut(k, "\n")
		kind, _, _ = strings.Cut(kind, ";")
		f(kind, "name", "$ "+k, names...)
		f(kind, "doc", "$x "+k, docs...)
	}
	for _, k := range []string{"config", "status", "block\n  c config", "static; init-value = 0; width = 5", "status; width = 50", "config; width = 9", "blackbox; size = 3"} {
		kind, _, _ := strings.Cut(k, "\n")
		kind, _, _ = strings.Cut(kind, ";")
		f(kind, "count", "x $"+k, counts...)
	}
	for _, k := range []string{"config", "mask", "status", "static"} {
		iv := ""
		if k == "static" {
			iv = "; init-value = 0"
		}
		f(k, "width", "x "+k+"; width = $"+iv, nums(1, n)...)
		if k != "mask" && k != "config" {
			f(k, "width of an array", "x [3]"+k+"; width = $"+iv, nums(1, 32)...)
		} else if k == "config" {
			f(k, "width of an array", "x [3]"+k+"; width = $"+iv, nums(1, 32)...)
		}
		if k != "static" {
			f(k, "atomic", "x "+k+"; width = 40; atomic = $", bools...)
		}
		if k != "status" {
			f(k, "init", "x "+k+"; width = 8; init-value = $", nums(0, 64)...)
			f(k, "wide init", "x "+k+"; width = 33; init-value = $", 0, 1, 2, 255, 256, 1<<31, 1<<32, 1<<33-1)
		}
	}
	f("config", "init presence", "x config; width = 8$", "", "; init-value = 0", "; init-value = 1")
	f("irq", "enable", "x irq; add-enable = $", bools...)
	f("irq", "clear", "x irq; clear = $", `"Explicit"`, `"On Read"`)
	f("irq", "in", "x irq; in-trigger = $", `"Edge"`, `"Level"`)
	f("irq", "out", "x irq; out-trigger = $", `"Edge"`, `"Level"`)
	f("irq", "enable init", "x irq; add-enable = true; enable-init-value = $", 0, 1)
	f("irq", "enable reset", "x irq; add-enable = true; enable-reset-value = $", 0, 1)
	for _, k := range []string{"proc", "stream"} {
		for _, i := range []string{"param", "return"} {
			f(k, i+" name", "x "+k+"\n  $ "+i, names...)
			f(k, i+" width", "x "+k+"\n  a "+i+"; width = $", nums(1, n)...)
			f(k, i+" count", "x "+k+"\n  a $"+i, counts...)
			f(k, i+" number", "x "+k+"$", "", "\n  a "+i, "\n  a "+i+"\n  b "+i, "\n  a "+i+"\n  b "+i+"\n  c "+i)
			f(k, i+" order", "x "+k+"$", "\n  a "+i+"; width = 3\n  b "+i+"; width = 3", "\n  b "+i+"; width = 3\n  a "+i+"; width = 3", "\n  a "+i+"; width = 3\n  b "+i+"; width = 4", "\n  a "+i+"; width = 4\n  b "+i+"; width = 3")
		}
	}
	f("blackbox", "size", "x blackbox; size = $", nums(1, n)...)
	f("block", "masters", "x block\n  masters = $\n  c config", 1, 2, 3, 10)
	f("block", "const int", "x block\n  const A = $\n  c config", append(nums(-9, 9), 1000, 1<<40)...)
	f("block", "const bool", "x block\n  const A = $\n  c config", bools...)
	f("block", "const float", "x block\n  const A = $\n  c config", 0.5, 1.5, 2.25, 3.0)
	f("block", "const string", "x block\n  const A = $\n  c config", `"a"`, `"b"`, `""`, `"ab"`, `"ba"`)
	f("block", "const list", "x block\n  const A = $\n  c config", "[1]", "[2]", "[1, 2]", "[2, 1]", "[1, 2, 3]", "[0, 1]")
	f("block", "const bool list", "x block\n  const A = $\n  c config", "[true]", "[false]", "[true, false]", "[false, true]")
	f("block", "const presence", "x block$\n  c config", "", "\n  const A = 1", "\n  const A = 1\n  const B = 1", "\n  const A = 1\n  const B = 2")
	f("block", "number", "x block$", "\n  c config; width = 8", "\n  c config; width = 8\n  d config; width = 8", "\n  c config; width = 8\n  d config; width = 8\n  e config; width = 8", "")
	f("place", "depth", "$", "x config", "b block\n  x config", "b block\n  b block\n    x config", "b block\n  y config\n  b block\n    x config", "b block\n  x config\n  b block\n    y config")
	f("order", "order", "$", "x config; width = 8\ny config; width = 8", "y config; width = 8\nx config; width = 8", "x config; width = 8\ny config; width = 9", "x config; width = 9\ny config; width = 8", "y config; width = 9\nx config; width = 8")
	f("blocks", "order", "$", "x block\n  c config\ny block\n  c config", "x block\n  c config\n  d config\ny block\n  c config", "x block\n  c config\ny block\n  c config\n  d config", "x [2]block\n  c config\ny block\n  c config", "x block\n  c config\ny [2]block\n  c config")
	return fs
}

// indent indents all lines but the documentation ones which have no element.
func indent(s string, n int) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l != "" {
			ls[i] = strings.Repeat(" ", n) + l
		}
	}
	return strings.Join(ls, "\n")
}

// places of the functionality.
var places = []struct {
	name string
	bus  int64
	pre  string
	ind  int
	post string
}{
	{"bus", 32, "main bus\n", 2, ""},
	{"bus with others", 32, "main bus\n  k config; width = 7\n  l [3]status; width = 11\n", 2, "\n  m irq\n"},
	{"block", 32, "main bus\n  bl block\n", 4, ""},
	{"nested blocks", 32, "main bus\n  k config\n  b1 [2]block\n    b2 [3]block\n      l status\n", 6, "\n  z block\n    c config\n"},
	{"wide bus", 64, "main bus\n  width = 64\n  masters = 2\n", 2, "\n  n mask\n"},
	{"extended type", 32, "type T bus\n  k config\nmain T\n", 2, ""},
}

func edits(g *lib.Gen) {
	// Parameters of the bus itself.
	type pair struct{ what, a, b string }
	buses := []field{
		vals("bus", "masters", "main bus\n  masters = $\n  c config", nums(1, 9)...),
		vals("bus", "width", "main bus\n  width = $\n  c config; width = 5", nums(32, 70)...),
		vals("bus", "doc", "$main bus\n  c config", "", "# a\n", "# b\n", "# a\n# b\n"),
		vals("bus", "const", "main bus\n  const A = $\n  c config", nums(0, 20)...),
		vals("bus", "align", "main bus\n  align = $\n  b block\n    c config", 4, 8, 16, 32, 64),
		vals("bus", "number", "main bus$", "", "\n  a config; width = 8", "\n  a config; width = 8\n  b config; width = 8", "\n  a config; width = 8\n  b config; width = 8\n  c config; width = 8"),
	}
	pairs := func(what string, fo []string, width func(i int) int64) bool {
		for i := range fo {
			for j := range i {
				if !g.Emit(func() *lib.Case {
					return &lib.Case{Key: strings.NewReplacer(" ", "-", ":", "").Replace(fmt.Sprintf("%s %d %d", what, i+1, j+1)), Src: fo[i], Meta: &model{what: fmt.Sprintf("%s, forms %d and %d", what, i+1, j+1), width: width(i), other: []*lib.Case{{Src: fo[j]}}, rel: differ}}
				}) {
					return false
				}
			}
		}
		return true
	}
	for _, f := range buses {
		fo := []string{}
		for _, x := range f.forms {
			fo = append(fo, x+"\n")
		}
		w := func(i int) int64 {
			if f.name == "width" {
				return int64(32 + i)
			}
			return 32
		}
		if !pairs("edit "+f.kind+" "+f.name+": main bus", fo, w) {
			return
		}
	}
	for _, p := range places {
		for _, f := range fields(g) {
			if p.name == "bus" && f.name == "name" {
				// Names must not collide with anything else.
			}
			fo := []string{}
			for _, x := range f.forms {
				fo = append(fo, p.pre+indent(x, p.ind)+"\n"+strings.TrimPrefix(p.post, "\n"))
			}
			if !pairs("edit "+f.kind+" "+f.name+": in "+p.name, fo, func(int) int64 { return p.bus }) {
				return
			}
		}
	}
	// Narrow buses: IDs are short, not all of them are the same.
	for _, w := range []int64{8, 9, 12, 16, 24, 31} {
		for _, f := range fields(g) {
			if len(f.forms) < 5 || f.name == "count" || strings.Contains(f.name, "init") || f.name == "width of an array" {
				continue
			}
			if !g.Emit(func() *lib.Case {
				mk := func(i int) *lib.Case {
					return &lib.Case{Src: fmt.Sprintf("main bus\n  width = %d\n%s\n", w, indent(f.forms[i], 2))}
				}
				c := mk(0)
				m := &model{what: fmt.Sprintf("narrow %s %s: width %d", f.kind, f.name, w), width: w, rel: notAllTheSame}
				for i := 1; i < len(f.forms); i++ {
					m.other = append(m.other, mk(i))
				}
				c.Meta = m
				return c
			}) {
				return
			}
		}
	}
}

// timestamps: the timestamp does not move anything.
func timestamps(g *lib.Gen) {
	lib.Multisets(g, lib.Alphabet8(), g.Pick(3, 4), func(els []lib.E) *lib.Case {
		l := lib.NewLayout(8, lib.Named(els)...)
		c := l.Case()
		c.TS = true
		d := *c
		d.TS, d.Meta = false, nil
		c.Meta = &model{what: "timestamp: it does not move others", width: 8, other: []*lib.Case{&d}, rel: sameOwn}
		return c
	})
	for _, bw := range []int64{32, 36, 40} {
		lib.Multisets(g, lib.PairAlphabet(bw, true), 2, func(els []lib.E) *lib.Case {
			l := lib.NewLayout(bw, lib.Named(els)...)
			c := l.Case()
			c.TS = true
			d := *c
			d.TS, d.Meta = false, nil
			c.Meta = &model{what: "timestamp: it does not move others", width: bw, other: []*lib.Case{&d}, rel: sameOwn}
			return c
		})
	}
}
