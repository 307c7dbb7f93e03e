package main

import "github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"

// desc is a compilation.
type desc struct {
	name string
	c    lib.Case
	size int // 0: all bounds, 1: one less, 2: two less.
}

func src(name, s string) desc { return desc{name: name, c: lib.Case{Src: s}} }

func with(name, s string, files map[string]string) desc {
	return desc{name: name, c: lib.Case{Src: s, Files: files}}
}

type fs = map[string]string

// packaged are descriptions with packages, which are parsed concurrently.
var packaged = []desc{
	with("one package", "import \"lib\"\nconst M = lib.A\nmain bus\n  t lib.T(M)\n  c config; width = lib.B\n",
		fs{"fbd-lib/a.fbd": "const A = B + 1\ntype T(W = 3) config; width = W\n", "fbd-lib/b.fbd": "const B = 4\n"}),
	with("two packages", "import \"one\"\nimport x \"two\"\nmain bus\n  a one.T\n  b [2]x.T(3)\n",
		fs{"fbd-one/a.fbd": "const A = 3\ntype T config; width = A\n", "fbd-two/a.fbd": "import \"one\"\nconst A = one.A + 1\ntype T(N) block\n  s status; width = A\n  c [N]config\n"}),
	{name: "three packages", size: 1, c: lib.Case{Src: "import \"one\"\nimport \"two\"\nimport \"tri\"\nconst Z = tri.C\nmain bus\n  a one.T\n  b two.T\n",
		Files: fs{"fbd-one/a.fbd": "const A = 3\ntype T config; width = A\n", "fbd-two/a.fbd": "import \"one\"\nconst B = one.A\n", "fbd-two/b.fbd": "type T status; width = B\n", "fbd-tri/a.fbd": "import \"one\"\nimport \"two\"\nconst C = one.A + two.B\n"}}},
	{name: "four packages", size: 2, c: lib.Case{Src: "import \"p1\"\nimport \"p2\"\nimport \"p3\"\nimport \"p4\"\nmain bus\n  a p1.T\n  b p2.T\n  c p3.T\n  d p4.T\n",
		Files: fs{"fbd-p1/a.fbd": "type T config; width = 1\n", "sub/fbd-p2/a.fbd": "type T config; width = 2\n", "fbd-p3/a.fbd": "type T config; width = 3\n", "sub/sub/fbd-p4/a.fbd": "type T config; width = 4\n"}}},
	with("circular imports", "import \"one\"\nimport \"two\"\nmain bus\n  a one.T\n  b two.T\n",
		fs{"fbd-one/a.fbd": "import \"two\"\nconst A = 3\nconst B = two.B\ntype T config; width = B\n", "fbd-two/a.fbd": "import \"one\"\nconst A = one.A\nconst B = A\ntype T one.T; init-value = 1\n"}),
	with("circular constants", "import \"one\"\nimport \"two\"\nmain bus\n  c config; width = one.A\n",
		fs{"fbd-one/a.fbd": "import \"two\"\nconst A = two.A\n", "fbd-two/a.fbd": "import \"one\"\nconst A = one.A\n"}),
	with("error in a package", "main bus\n  c config\n", fs{"fbd-one/a.fbd": "const A = 3\nconst A = 4\n", "fbd-two/a.fbd": "const B = 3\n"}),
	with("errors in two packages", "main bus\n  c config\n", fs{"fbd-one/a.fbd": "const A = \n", "fbd-two/a.fbd": "type T foo; width = 3\nconst B =\n"}),
	with("error in an unused constant", "import \"one\"\nmain bus\n  c config; width = one.A\n", fs{"fbd-one/a.fbd": "const A = 3\n", "fbd-two/a.fbd": "const B = 1 / 0\n"}),
	with("redefinition in files", "main bus\n  c config\n", fs{"fbd-one/a.fbd": "const A = 3\n", "fbd-one/b.fbd": "const A = 3\n", "fbd-two/a.fbd": "const A = 3\n"}),
	with("same type in files", "main bus\n  c config\n", fs{"fbd-one/a.fbd": "type A config\n", "fbd-one/b.fbd": "type A status\n"}),
	with("same names in packages", "import \"one\"\nimport \"two\"\nconst A = one.A + two.A\ntype T two.T(A); init-value = 1\nmain bus\n  a T\n  b one.T\n",
		fs{"fbd-one/a.fbd": "const A = 1\ntype T block\n  type T status; width = A\n  a T\n", "fbd-two/a.fbd": "const A = 2\ntype T(A) config; width = A\n"}),
	with("packages with the same name", "import \"x/fbd-one\"\nmain bus\n  c config\n", fs{"x/fbd-one/a.fbd": "const A = 1\n", "y/fbd-one/a.fbd": "const A = 2\n"}),
	with("ambiguous import", "import \"one\"\nmain bus\n  c config; width = one.A\n", fs{"fbd-one/a.fbd": "const A = 1\n", "fbd-otherone/a.fbd": "const A = 2\n"}),
	with("ambiguous import of similar names", "import \"one\"\nmain bus\n  c config; width = one.A\n", fs{"fbd-one/a.fbd": "const A = 1\n", "fbd-other-one/a.fbd": "const A = 2\n"}),
	with("ambiguous import of deeper directories", "import p \"s/fbd-one\"\nmain bus\n  c config; width = p.A\n", fs{"s/fbd-one/a.fbd": "const A = 1\n", "t/s/fbd-one/a.fbd": "const A = 2\n"}),
	with("missing import", "import \"tree\"\nmain bus\n  c config\n", fs{"fbd-one/a.fbd": "const A = 1\n", "fbd-two/a.fbd": "import \"four\"\n"}),
	with("bus in a package", "main bus\n  c config\n", fs{"fbd-one/a.fbd": "main bus\n  d config\n"}),
	with("instantiation in a package", "main bus\n  c config\n", fs{"fbd-one/a.fbd": "type T bus\n  s status\n", "fbd-two/a.fbd": "import \"one\"\nmain one.T\n"}),
	with("package main", "main bus\n  c config; width = A\nconst A = 5\n", fs{"fbd-main/a.fbd": "const A = 1\n", "fbd-two/a.fbd": "const A = 2\n"}),
	with("constants of packages", "import \"one\"\nconst A = [1, one.A]\nconst B = \"b\"\nmain bus\n  const C = 1.5\n  const D = true\n  c config; width = one.B\n",
		fs{"fbd-one/a.fbd": "const A = 2\nconst B = 3\nconst L = [A, B]\nconst S = \"x\"\nconst F = 2.5\nconst T = false\n", "fbd-two/a.fbd": "const Z = 1\nconst Y = Z\n"}),
	with("repeated import", "import \"one\"\nimport one \"two\"\nmain bus\n  c config\n", fs{"fbd-one/a.fbd": "const A = 1\n", "fbd-two/a.fbd": "const A = 2\n"}),
	{name: "links", size: 1, c: lib.Case{Src: "import \"one\"\nimport \"two\"\nmain bus\n  a one.T\n  b two.T\n", Files: fs{"real/fbd-one/a.fbd": "type T config; width = 3\n", "lib/fbd-two/a.fbd": "import \"one\"\ntype T one.T; init-value = 1\n"},
		Links: map[string]string{"link": "real", "real/loop": "..", "fbd-none": "nowhere"}}},
	{name: "path", size: 1, c: lib.Case{Sub: "work", Main: "bus.fbd", Src: "import \"one\"\nmain bus\n  a one.T\n", Files: fs{"libs/fbd-one/a.fbd": "type T config; width = 3\n", "libs/fbd-two/a.fbd": "const A = 1\n"}, FBDPATH: "$S/libs:$S/none:$S/work"}},
}

// single are descriptions in one file.
var single = []desc{
	src("minimal", "main bus\n  c config\n"),
	src("narrow", "main bus; width = 8\n"),
	src("narrow with wide", "main bus\n  width = 8\n  c config; width = 20\n  s [3]status; width = 5\n  m mask; width = 9\n"),
	src("wide", "main bus\n  width = 64\n  c config; width = 40\n  s [3]status; width = 25\n  i irq; clear = \"Explicit\"\n"),
	src("aligned", "main bus\n  align = 16\n  b block\n    c config\n  d [2]block\n    s [5]status\n"),
	src("blocks", "main bus\n  z [3]block\n    c config\n    y block\n      s status\n  x block\n    w [2]config; width = 30\n  b blackbox; size = 5\n"),
	src("masters", "main bus\n  masters = 3\n  reset = \"Async\"\n  b block\n    masters = 2\n    c config\n"),
	src("proc", "main bus\n  p proc\n    a param; width = 40\n    b [3]param; width = 7\n    r return; width = 9\n  q proc; delay = 1 us\n  s stream\n    x param; range = [1:100, 5:3000]\n"),
	src("irqs", "main bus\n  i irq; add-enable = true\n  g group\n    j irq\n    k irq\n  l [2]irq; clear = \"On Read\"\n"),
	src("parameters", "type T(A, B = 2) config; width = A + B\ntype U(N = 3) block\n  t [N]T(N)\n  u T(B = N, A = 1)\nmain bus\n  a U\n  b U(1)\n  c [2]U(N = 2)\n"),
	src("parameter of array size", "type T(N) [N]config; width = N\nmain bus\n  a T(1)\n  b T(5)\n  c T(2)\n"),
	src("constants", "const A = B * 2\nconst B = 3\nconst C = [A, B]\nconst D = \"d\"\nconst E = 1 / 4\nconst F = bool(1)\nmain bus\n  const G = A\n  const H = [G, 7]\n  const I = \"i\"\n  const K = 0.5\n  const L = true\n  const M = [true, false]\n  const A1 = 1\n  const A2 = 2\n  const A3 = 3\n  c config; width = G\n  b block\n    const X = A2\n    const Y = X\n    const Z = Y\n    d config; width = Z\n"),
	src("group", "main bus\n  g group\n    const A = 1\n    const B = 2\n    a config; width = 7\n    b status\n    c [3]mask; width = 4\n"),
	src("values", "main bus\n  c config; width = 9; init-value = 5; read-value = x\"1f\"; reset-value = -1\n  s static; width = 7; init-value = b\"1010\"\n  i irq; add-enable = true; enable-init-value = 1; enable-reset-value = 0\n"),
	src("documentation", "# Main\nmain bus\n  # c\n  c config\n"),
	src("deep types", "type A config\ntype B A; width = 3\ntype C B; init-value = 1\ntype D [2]C\nmain bus\n  d D\n  c C; atomic = true\n  b B; width = 3\n"),
	src("two buses", "main bus\n  c config\nother bus; width = 8\n"),
	src("recursive types", "type T block\n  u U\ntype U block\n  t T\nmain bus\n  t T\n"),
	src("derived from itself", "type T U\ntype U T\nmain bus\n  t T\n"),
	src("invalid property", "main bus\n  c config; align = 3\n"),
	src("syntax", "main bus\n  c config;\n"),
	src("no bus", "const A = 1\n"),
	src("many constants", "const A = B\nconst B = C\nconst C = D\nconst D = E\nconst E = F\nconst F = 1\nconst A1 = 1.5\nconst A2 = 2.5\nconst A3 = 3.5\nconst S1 = \"a\"\nconst S2 = \"b\"\nconst S3 = \"c\"\nconst T1 = true\nconst T2 = false\nconst L1 = [1]\nconst L2 = [2]\nconst L3 = [3]\nmain bus\n  const A = B\n  const B = C\n  const C = D\n  const D = 2\n  const F1 = 1.5\n  const F2 = 2.5\n  const F3 = 3.5\n  const S1 = \"a\"\n  const S2 = \"b\"\n  const S3 = \"c\"\n  const T1 = true\n  const T2 = false\n  const T3 = false\n  const L1 = [1]\n  const L2 = [2]\n  const L3 = [3]\n  const BL1 = [true]\n  const BL2 = [false, true]\n  c config; width = A\n"),
	src("everything", "const X = 3\ntype G(N = 2, M = X) block\n  const L = N * M\n  c [N]config; width = L\n  type I(K) [2]status; width = K; atomic = false\n  i I(K = N)\ntype H(P = 1) G(P, M = 3)\n  e mask\n  align = 8\nmain bus\n  masters = 2; width = 16\n  const W = X + 1\n  a config; width = W; init-value = 1; atomic = true\n  b config; range = [0:3, 5:9]\n  m [X]config; width = 2\n  n status; width = 100; read-value = 7\n  g G\n  h [2]H(3)\n    q irq; add-enable = true; enable-init-value = 1\n  irq irq; clear = \"Explicit\"\n  st static; init-value = 0xF0; width = 9\n  pr proc\n    delay = 3 ms\n    u param; range = 5\n    v [3]return; width = 6\n  sr stream\n    u return; width = 6\n  gr group\n    k config\n    o mask; width = 3; init-value = 5\n  bb blackbox; size = 4 * X\n"),
}
