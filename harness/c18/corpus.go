package main

import "github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"

// desc is a description to be rewritten.
type desc struct {
	name  string
	tree  []*node
	files map[string]string
	small bool // Pairs of rewritings.
}

func scoped(n *node) *node { n.scoped = true; return n }

var lib1 = map[string]string{"fbd-lib/a.fbd": "const A = 3\ntype C(W = 4) config; width = W; atomic = false\n", "fbd-lib/b.fbd": "type B block\n  x C(A)\n  y [A]status\n"}

func corpus() []desc {
	return []desc{
		{"tiny", []*node{
			f("main", "bus", "width = 8", f("a", "config", "width = 5; reset-value = 3"), f("b", "[3]status")),
		}, nil, true},
		{"props", []*node{
			f("main", "bus",
				f("a", "config", `width = 4; init-value = 3; read-value = x"4"; reset-value = 5`),
				f("i", "irq", `add-enable = true; in-trigger = "Level"; clear = "On Read"`),
				f("s", "[2]static", `init-value = b"101"; width = 3`)),
		}, nil, true},
		{"consts", []*node{
			konst("A", "B + 2"), konst("B", "3"),
			tdef("T", "(W, V = 2)", "", "config", "config", "width = W + V; init-value = 1"),
			f("main", "bus", konst("C", "A * 2"), scoped(inst("x", "[A]", "T(C, V = B)", "config", "atomic = true")), inst("y", "", "T(1)", "config")),
		}, nil, true},
		{"imports", []*node{
			imp("", "lib"), imp("l", "lib"),
			konst("N", "lib.A"),
			f("main", "bus", inst("c", "", "lib.C(N)", "config"), inst("b", "[2]", "l.B", "block"), f("s", "status", "width = l.A")),
		}, lib1, true},
		{"calls", []*node{
			f("main", "bus",
				f("p", "proc", "delay = 10 us", f("a", "param", "width = 10"), f("b", "[2]param"), f("r", "return", "width = 40")),
				f("s", "stream", f("c", "param", "range = 30"), f("d", "param", "range = [1:3, 10:200]"))),
		}, nil, true},
		{"nested", []*node{
			tdef("B", "", "", "block", "block", f("c", "config"), f("m", "mask", "width = 40; atomic = false")),
			f("main", "bus",
				inst("b1", "", "B", "block", f("d", "config"), f("bb", "block", "align = 4", f("s", "status"))),
				inst("b0", "[3]", "B", "block"), f("x", "blackbox", "size = 5")),
		}, nil, true},
		{"scopes", []*node{
			f("main", "bus",
				f("b", "block", konst("A", "3"), konst("B", "A"), scoped(f("s", "status", "width = B")),
					scoped(f("bb", "block", konst("C", "2"), scoped(f("e", "config", "width = C + A"))))),
				f("d", "config", "width = 5")),
		}, nil, true},
		{"group", []*node{
			f("main", "bus",
				f("g", "group", f("a", "config", "width = 7"), f("b", "config", "width = 3"), f("s", "status", "width = 3"), f("t", "status")),
				f("z", "config", "width = 30"), f("y", "[5]config", "width = 9")),
		}, nil, true},
		{"big", []*node{
			imp("l", "lib"),
			block("constblk", konst("X", "-2 ** 2 + 10"), konst("Y", "[1, X, ceil(2.5)]"), konst("Z", `"At Least Once"`)),
			tdef("G", "(N = 2, M = X)", "", "block", "block", konst("L", "N * M"), scoped(f("c", "[N]config", "width = L")),
				tdef("I", "(K)", "[2]", "status", "status", "width = K; atomic = false"), scoped(inst("i", "", "I(K = N)", "status"))),
			tdef("H", "(P = 1)", "", "G(P, M = 3)", "block", f("e", "mask"), "align = 8"),
			f("main", "bus", "masters = 2; width = 16",
				konst("W", "X + 1"),
				scoped(f("a", "config", "width = W; init-value = 1; atomic = true")),
				f("b", "config", "range = [0:3, 5:9]"),
				f("m", "[X]config", "width = 2"), f("mm", "mask", "width = 2"),
				f("n", "status", "width = 100; read-value = 7"),
				inst("g", "", "G", "block"),
				inst("h", "[2]", "H(3)", "block", f("q", "irq", `add-enable = true; enable-init-value = 1`)),
				f("irq", "irq", `clear = "Explicit"`),
				f("st", "static", "init-value = 0xF0; width = 9"),
				f("pr", "proc", "delay = 3 ms", f("u", "param", "range = 5"), f("v", "[3]return", "width = 6")),
				f("sr", "stream", "delay = 1 s", f("u", "return", "width = 6")),
				f("gr", "group", f("k", "config"), f("o", "mask", "width = 3; init-value = 5")),
				inst("lb", "", "l.B", "block"),
				f("bb", "blackbox", "size = 4 * X")),
		}, lib1, false},
	}
}

func (d *desc) ref() *lib.Case {
	return &lib.Case{Src: render(d.tree), Files: d.files, Consts: true}
}
