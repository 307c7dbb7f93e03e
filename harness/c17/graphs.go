package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// graphs enumerates graphs of types.
func graphs(g *lib.Gen) {
	heads := []string{"", "(W = 1)", "(W)", "(W = A)"}
	bases := func(n int) []string {
		b := []string{"config", "block", "group"}
		for i := 0; i < n; i++ {
			b = append(b, fmt.Sprintf("T%d", i), fmt.Sprintf("T%d(W)", i))
		}
		return append(b, "[2]block", "Missing")
	}
	inner := func(n int) []string {
		b := []string{"", "\n  c config", "\n  const A = W", "\n  type T0 config", "\n  type T0 T0\n  d T0"}
		for i := 0; i < n; i++ {
			b = append(b, fmt.Sprintf("\n  x T%d", i), fmt.Sprintf("\n  x [2]T%d(A)", i), fmt.Sprintf("\n  x block\n    y T%d", i))
		}
		return b
	}
	mains := []string{"main bus\n  m T0\n", "main T0\n", "const A = 2\nmain bus\n  m T0(A)\n  n [A]T0(3)\n", "main bus\n"}
	// Two types.
	for _, m := range mains {
		for _, h0 := range heads {
			for _, b0 := range bases(2) {
				for _, i0 := range inner(2) {
					for hi, h1 := range heads {
						for bi, b1 := range bases(2) {
							for ii, i1 := range inner(2) {
								if !g.Thorough && (hi*7+bi*3+ii)%5 != 0 {
									continue
								}
								src := "type T0" + h0 + " " + b0 + i0 + "\ntype T1" + h1 + " " + b1 + i1 + "\n" + m
								if !em(g, "graph of 2 types", src) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
	// Three types.
	var opts []string
	for i := 0; i < 3; i++ {
		opts = append(opts, fmt.Sprintf("T%d", i), fmt.Sprintf("block\n  x T%d", i), fmt.Sprintf("T%d\n  y T%d", i, (i+1)%3), fmt.Sprintf("group\n  x T%d", i), fmt.Sprintf("block\n  type L T%d\n  x L", i), fmt.Sprintf("block\n  x block\n    x T%d", i))
	}
	opts = append(opts, "config", "block", "proc\n  p param", "bus")
	for _, m := range mains[:2] {
		for _, a := range opts {
			for _, b := range opts {
				for _, c := range opts {
					if !em(g, "graph of 3 types", "type T0 "+a+"\ntype T1 "+b+"\ntype T2 "+c+"\n"+m) {
						return
					}
				}
			}
		}
	}
	// Nested types visible in different scopes, all combinations of references.
	refs := []string{"config", "block", "T", "U", "V", "main", "p.T"}
	for _, a := range refs {
		for _, b := range refs {
			for _, c := range refs {
				for _, d := range refs {
					src := "type T " + a + "\nmain bus\n  type U " + b + "\n  b block\n    type V " + c + "\n    type T V\n    x " + d + "\n  y U\n"
					if !em(g, "nested types", src) {
						return
					}
				}
			}
		}
	}
	// Instances with names of types and instances as types.
	names := []string{"T", "x", "main", "A", "config"}
	for _, a := range names {
		for _, b := range names {
			for _, c := range names {
				for _, d := range names {
					src := fmt.Sprintf("const A = 1\ntype %s %s\nmain bus\n  x config\n  %s %s\n", a, b, c, d)
					if !em(g, "names", src) {
						return
					}
				}
			}
		}
	}
}

// constGraphs enumerates graphs of constants.
func constGraphs(g *lib.Gen) {
	exprs := []string{"1", "A", "B", "C", "A + B", "-C", "[A, 1]", "log2(B)", "p.A", "D", "(A)", "2 ** C", "A:B", "B ns", "A.A"}
	place := []string{
		"const A = %s\nconst B = %s\nconst C = %s\nmain bus\n",
		"main bus\n  const A = %s\n  const B = %s\n  const C = %s\n  x config; width = A\n",
		"const A = %s\nmain bus\n  const B = %s\n  b block\n    const C = %s\n    const A = B\n    x [C]config; width = A\n",
		"type T(A = %s, B = %s) config; width = A\nconst C = %s\nconst B = 2\nmain bus\n  x T\n  y T(C)\n",
		"type T(A = %s) block\n  const B = %s\n  x config; width = B\n\nconst C = %s\nmain bus\n  x T\n",
		"const A = %s\ntype T(B = %s) [B]config\nconst C = %s\nmain bus\n  x T(C)\n",
		"const A = %s\nconst B = %s\nmain bus\n  width = B\n  const C = %s\n",
		"const A = %s\nmain bus\n  x [%s]config\n  const B = %s\n",
	}
	for _, p := range place {
		for _, a := range exprs {
			for _, b := range exprs {
				for _, c := range exprs {
					if !em(g, "graph of constants", fmt.Sprintf(p, a, b, c)) {
						return
					}
				}
			}
		}
	}
}

// packages enumerates graphs of packages and their defects.
func packages(g *lib.Gen) {
	emit := func(what string, src string, files map[string]string, mod ...func(c *lib.Case)) bool {
		return g.Emit(func() *lib.Case {
			c := &lib.Case{Src: src, Files: files, Consts: true, Meta: &model{what: what}}
			for _, f := range mod {
				f(c)
			}
			return c
		})
	}
	// Imports between 3 packages and main, chained constants and types.
	uses := []string{"1", "p.A", "q.A", "r.A", "main.A"}
	for imp := 0; imp < 512; imp++ {
		for _, up := range uses {
			for _, uq := range uses {
				if !g.Thorough && (imp%3 != 0 || imp >= 256) {
					continue
				}
				text := func(n string, bits int, use string) string {
					s := ""
					for i, o := range []string{"p", "q", "r"} {
						if bits>>i&1 == 1 {
							s += "import \"" + o + "\"\n"
						}
					}
					return s + "const A = " + use + "\ntype T " + map[string]string{"1": "config", "p.A": "p.T", "q.A": "q.T", "r.A": "r.T", "main.A": "block"}[use] + "\n"
				}
				f := map[string]string{"fbd-p/a.fbd": text("p", imp&7, up), "fbd-q/a.fbd": text("q", imp>>3&7, uq), "fbd-r/a.fbd": text("r", imp>>6&7, "p.A")}
				if !emit("graph of packages", "import \"p\"\nconst A = p.A\nmain bus\n  x p.T\n", f) {
					return
				}
			}
		}
	}
	contents := []string{"", "\n", "const A = 3\n", "const A = 4\n", "const A =", "type T config\n", "type T block\n  x T\n", "x bus\n", "main bus\n", "x T\n", "\"", "\x00", "import \"p\"\n", "import \"q\"\nconst B = q.A\n", "# c", " ", "const p = 3\n"}
	mains := []string{
		"main bus\n", "import \"p\"\nmain bus\n", "import \"p\"\nmain bus\n  x p.T; width = p.A\n", "import p \"q\"\nmain bus\n", "import \"\"\nmain bus\n", "import \"/\"\nmain bus\n",
		"import \"bus.fbd\"\nmain bus\n", "import \"main\"\nmain bus\n", "import p \"fbd-p\"\nmain bus\n", "import p \"fbd-p\"\nimport q \"fbd-p\"\nmain bus\n  x q.T\n", "import \"p\"\nimport \"p\"\nmain bus\n", "import p \".\"\nmain bus\n", "main p.T\n", "",
		"import x \"bus.fbd\"\nconst A = x.A\nmain bus\n", "import x \"bus.fbd\"\ntype T x.T\nmain bus\n  y T\n", "import x \"bus.fbd\"\nmain bus\n  y x.main\n", "import \"fbd-p\"\nmain bus\n", "import \"x/p\"\nmain bus\n", "import a.b \"p\"\nmain bus\n",
	}
	for _, m := range mains {
		for _, a := range contents {
			for _, b := range contents {
				if !emit("two files of a package", m, map[string]string{"fbd-p/a.fbd": a, "fbd-p/b.fbd": b}) {
					return
				}
				if !emit("two packages", m, map[string]string{"fbd-p/a.fbd": a, "fbd-q/b.fbd": b}) {
					return
				}
				if !emit("packages with the same name", m, map[string]string{"fbd-p/a.fbd": a, "x/fbd-p/b.fbd": b}) {
					return
				}
				if !emit("nested packages", m, map[string]string{"fbd-p/a.fbd": a, "fbd-p/fbd-q/b.fbd": b}) {
					return
				}
			}
			if !emit("package named main", m, map[string]string{"fbd-main/a.fbd": a}) || !emit("package without a name", m, map[string]string{"fbd-/a.fbd": a}) ||
				!emit("working directory is a package", m, nil, func(c *lib.Case) { c.Sub = "fbd-p"; c.Files = map[string]string{"fbd-p/a.fbd": a} }) ||
				!emit("main in a package", m, nil, func(c *lib.Case) { c.Main = "fbd-p/m.fbd"; c.Files = map[string]string{"fbd-p/a.fbd": a} }) ||
				!emit("no extension", m, nil, func(c *lib.Case) { c.Files = map[string]string{"fbd-p/a": a, "fbd-q/.fbd": a} }) ||
				!emit("directory named as a file", m, nil, func(c *lib.Case) {
					c.Dirs = []string{"fbd-p/a.fbd", "fbd-q/a.fbd"}
					c.Files = map[string]string{"fbd-q/b.fbd": a}
				}) {
				return
			}
			for _, l := range []map[string]string{
				{"fbd-p/a.fbd": "../bus.fbd"}, {"fbd-p/a.fbd": "missing"}, {"fbd-p/a.fbd": "a.fbd"}, {"fbd-p": "."}, {"fbd-p": ".."}, {"fbd-p": "fbd-q"}, {"fbd-q/fbd-p": ".."}, {"fbd-p": "fbd-p"}, {"fbd-p": "/nonexistent"}, {"fbd-p/a.fbd": "/dev/null"}, {"fbd-p/a.fbd": "../fbd-q"}, {"fbd-p/a.fbd": "."},
			} {
				if !emit(fmt.Sprintf("links %v", l), m, map[string]string{"fbd-q/a.fbd": a}, func(c *lib.Case) { c.Links = l }) {
					return
				}
			}
		}
		for _, p := range []string{"$S/x", "$S", "", ":", "/nonexistent", "$S/bus.fbd", "$S/x:$S/x:$S", "$S/x/fbd-p", "::", "$S/x/fbd-p/a.fbd", ".", "..", "x"} {
			if !emit("FBDPATH "+p, m, map[string]string{"x/fbd-p/a.fbd": "const A = 3\ntype T config\n"}, func(c *lib.Case) { c.FBDPATH = p; c.Sub = "w" }) {
				return
			}
		}
	}
	// Ways of calling the program.
	for _, a := range [][]string{
		{}, {"missing.fbd"}, {"d"}, {"bus.fbd", "bus.fbd"}, {"-main", "x", "bus.fbd"}, {"-main", "", "bus.fbd"}, {""}, {"-"}, {"--"}, {"-main"}, {"-c"}, {"-c", "d", "bus.fbd"}, {"-c", "", "bus.fbd"}, {"-c", "missing/x", "bus.fbd"}, {"-c", "bus.fbd"}, {"-r", "bus.fbd"},
		{"-x", "bus.fbd"}, {"-debug", "bus.fbd"}, {"-help"}, {"-version"}, {"d/bus.fbd"}, {"./bus.fbd"}, {"../bus.fbd"}, {"$S/bus.fbd"}, {"/dev/null"}, {"-debug", "-debug"}, {"-main", "main"}, {"-c", "-r", "-debug", "bus.fbd"}, {"bus.fbd", "-debug"},
		{strings.Repeat("a", 5000)}, {"-main", strings.Repeat("a", 5000), "bus.fbd"}, {"fbd-p"}, {"fbd-p/a.fbd"}, {"-add-timestamp", "bus.fbd"}, {"-main", "A", "bus.fbd"}, {"-main", "T", "bus.fbd"}, {"-main", "b", "bus.fbd"}, {"-main", "p.b", "bus.fbd"}, {"-main", "B", "bus.fbd"},
	} {
		for _, s := range []string{"main bus\n", "const A = 3\ntype T bus\nb T\nB block\nmain bus\n", "type T bus; width = 2\nb T\nmain bus; width = 65\n"} {
			if !g.Emit(func() *lib.Case {
				return &lib.Case{Src: s, Dirs: []string{"d"}, Files: map[string]string{"fbd-p/a.fbd": "const A = 3\n"}, Args: a, Meta: &model{what: fmt.Sprintf("arguments %q", a)}}
			}) {
				return
			}
		}
	}
}

// deep enumerates long, deep and exponential descriptions.
func deep(g *lib.Gen) {
	named := func(key, src string, ok bool) bool {
		return g.Emit(func() *lib.Case {
			return &lib.Case{Src: src, Meta: &model{what: key, must: lib.OK, set: ok}}
		})
	}
	chain := func(n int, first, f string) string {
		var b strings.Builder
		b.WriteString(first)
		for i := 1; i < n; i++ {
			r := strings.NewReplacer("$I", fmt.Sprint(i), "$P", fmt.Sprint(i-1))
			b.WriteString(r.Replace(f))
		}
		return b.String()
	}
	rep := strings.Repeat
	for _, n := range []int{2, 3, 10, 40, 200, 2000} {
		l := fmt.Sprint(n - 1)
		for _, e := range []string{"$A", "$A + $A - $A", "($A + $A) / 2", "[$A, $A]", "-$A", "$A * $A ** $A", "log2($A + $A)", "[1:$A, $A:3]"} {
			e := strings.ReplaceAll(e, "$A", "A$P")
			if strings.Contains(e, "[") && n > 10 {
				continue // Lists of lists.
			}
			ok := !strings.Contains(e, "[") && e[0] != '-' && n <= 200
			if !named(fmt.Sprintf("%d constants %s", n, e), chain(n, "const A0 = 1\n", "const A$I = "+e+"\n")+"main bus\n", ok) ||
				!named(fmt.Sprintf("%d constants in body %s", n, e), "main bus\n  x config; width = A"+l+"\n"+chain(n, "  const A0 = 1\n", "  const A$I = "+e+"\n"), false) ||
				!named(fmt.Sprintf("%d constants in reverse %s", n, e), chain(n, "main bus\n", "const A$P = "+strings.ReplaceAll(e, "$P", "$I")+"\n")+"const A"+l+" = 1\n", ok) ||
				!named(fmt.Sprintf("%d parameters %s", n, e), chain(n, "type T0(A0) config; width = A0\n", "type T$I(A$I) T$P("+strings.ReplaceAll(e, "$P", "$I")+")\n")+"main bus\n  x T"+l+"(1)\n  y T"+l+"(1)\n", ok) ||
				!named(fmt.Sprintf("%d default values %s", n, e), "type T("+strings.TrimSuffix(chain(n, "A0 = 1, ", "A$I = "+e+", "), ", ")+") config; width = A"+l+"\nmain bus\n  x T\n", false) ||
				!named(fmt.Sprintf("%d constants of nested scopes %s", n, e), "const A0 = 1\nmain bus\n"+func() string {
					s := ""
					for i := 1; i < min(n, 60); i++ {
						s += rep("  ", i) + fmt.Sprintf("const A%d = ", i) + strings.ReplaceAll(e, "$P", fmt.Sprint(i-1)) + "\n" + rep("  ", i) + "b block\n"
					}
					return s
				}(), false) {
				return
			}
		}
		if !named(fmt.Sprintf("%d types", n), chain(n, "type T0 config\n", "type T$I T$P\n")+"main bus\n  x T"+l+"\n", true) ||
			!named(fmt.Sprintf("%d types in a cycle", n), chain(n, "type T0 T"+l+"\n", "type T$I T$P\n")+"main bus\n  x T"+l+"\n", false) ||
			!named(fmt.Sprintf("%d types with bodies", n), chain(n, "type T0 block\n  c config\n", "type T$I T$P\n  c$I config\n")+"main bus\n  x T"+l+"\n", true) ||
			!named(fmt.Sprintf("%d nested blocks of types", n), chain(min(n, 200), "type T0 block\n  c config\n", "type T$I block\n  b T$P\n")+"main bus\n  x T"+fmt.Sprint(min(n, 200)-1)+"\n", true) ||
			!named(fmt.Sprintf("%d recursive blocks of types", n), chain(n, "type T0 block\n  b T"+l+"\n", "type T$I block\n  b T$P\n")+"main bus\n  x T"+l+"\n", false) ||
			!named(fmt.Sprintf("%d nested blocks", n), "main bus\n"+func() string {
				s := ""
				for i := 1; i < min(n, 400); i++ {
					s += rep("  ", i) + "b block\n"
				}
				return s
			}(), true) ||
			!named(fmt.Sprintf("%d functionalities", n), "main bus\n"+chain(n, "", "  c$I config\n  m$I mask; width = 3\n  s$I status; width = 7\n  i$I irq\n  p$I proc\n    a param\n"), true) ||
			!named(fmt.Sprintf("%d params", n), "main bus\n  p proc\n"+chain(n, "", "    p$I param; width = 7\n    r$I [3]return; width = 5\n"), true) ||
			!named(fmt.Sprintf("%d documentation lines", n), rep("# doc\n", n)+"main bus\n"+rep("  # doc\n", n)+"  c config\n"+rep("  # end\n", n), true) ||
			!named(fmt.Sprintf("%d empty lines", n), rep("\n", n)+"main bus\n"+rep("\n", n)+"  c config\n"+rep("\n", n), true) ||
			!named(fmt.Sprintf("%d imports", n), chain(n, "", "import a$I \"x\"\n")+"main bus\n", false) {
			return
		}
	}
	for _, n := range []int{1, 100, 999, 10000, 100000, 1000000} {
		for _, p := range [][3]string{{"(", "1", ")"}, {"[", "1", "]"}, {"-", "1", ""}, {"1 + ", "1", ""}, {"2 ** ", "1", ""}, {"log2(", "1", ")"}, {"(", "", ""}, {"[", "", ""}, {"", "1", ")"}, {"1, ", "1", ""}, {"1:", "1", ""}, {"-(", "1", ")"}, {"[1, ", "1", "]"}, {"1 * (", "1", ")"}, {"bool([", "1", "])"}, {"1 ** -", "1", ""}, {"a.b + ", "1", ""}, {"1", "", ""}, {"0x", "", ""}, {"a", "", ""}, {" ", "1", ""}} {
			e := rep(p[0], n) + p[1] + rep(p[2], n)
			for ci, c := range []string{"const A = %s\nmain bus\n", "main bus\n  x [%s]config\n", "main bus\n  x config; width = %s\n", "type T(W = %s) config\nmain bus\n  x T(%s)\n"} {
				if n > 10000 && ci > 0 {
					continue
				}
				if !named(fmt.Sprintf("%d times %q", n, p), strings.ReplaceAll(c, "%s", e), false) {
					return
				}
			}
		}
		for _, s := range []string{"\"", "b\"", "#", "main", "x ", "; ", "\n", "  ", "[", "main bus; width = 1; ", "type ", "\"a\" ", "\x00", "\xff", "const A = \"", "# "} {
			if !named(fmt.Sprintf("%d times %q", n, s), rep(s, n), false) || !named(fmt.Sprintf("%d times %q in a body", n, s), "main bus\n  x"+rep(s, n), false) {
				return
			}
		}
		if !named(fmt.Sprintf("name of %d characters", n), "main bus\n  "+rep("a", n)+" config\n", true) ||
			!named(fmt.Sprintf("string of %d characters", n), "const A = \""+rep("a", n)+"\"\nmain bus\n", true) ||
			!named(fmt.Sprintf("bit string of %d characters", n), "main bus\n  c config; width = "+fmt.Sprint(n)+"; init-value = b\""+rep("1", n)+"\"\n", true) ||
			!named(fmt.Sprintf("comment of %d characters", n), "#"+rep("a", n)+"\nmain bus #"+rep("a", n)+"\n", true) ||
			!named(fmt.Sprintf("list of %d items", n), "const A = ["+rep("1, ", n)+"1]\nmain bus\n  c config; range = ["+rep("1:2, ", n)+"3:4]\n", false) {
			return
		}
	}
}
