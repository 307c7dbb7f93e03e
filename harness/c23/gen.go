package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// Everything is within the scratch directory, w is the working directory, l is outside of it.

type piece struct{ path, link, raw string } // Directory if the path ends with '/', raw is content of a file.

var pieces = []piece{
	{path: "w/fbd-a/a.fbd"},
	{path: "w/fbd-a/b.fbd"},
	{path: "w/fbd-a/c.txt", raw: "not a description\n"},
	{path: "w/fbd-a/s/d.fbd"},
	{path: "w/fbd-a/fbd-b/e.fbd"},
	{path: "w/fbd-b/f.fbd"},
	{path: "w/x/fbd-a/g.fbd"},
	{path: "w/x/y/fbd-c/h.fbd"},
	{path: "w/x/i.fbd", raw: "not a description\n"},
	{path: "w/fbd-d/"},
	{path: "w/fbd-d/j.fbdl", raw: "not a description\n"},
	{path: "l/fbd-e/k.fbd"},
	{path: "l/fbd-a/l.fbd"},
	{path: "w/fbd-main/m.fbd", raw: "const X = 1000\n"},
	{path: "w/xfbd-n/n.fbd", raw: "not a description\n"},
	{path: "w/fbd-o", raw: "not a description\n"},
	{path: "w/fbd-p/q.fbd/r.fbd", raw: "not a description\n"},
	{path: "w/fbd-q/.fbd-r/t.fbd"},
	{path: "w/.fbd-r/u.fbd", raw: "not a description\n"},
	{path: "w/fbd-a-b/v.fbd"},
	{path: "w/ln", link: "../l"},
	{path: "w/ln2", link: "../l/fbd-e"},
	{path: "w/x/up", link: ".."},
	{path: "w/fbd-a/lnk.fbd", link: "../../l/fbd-e/k.fbd"},
	{path: "w/fbd-a/broken.fbd", link: "nowhere"},
	{path: "w/fbd-t", link: "nowhere"},
	{path: "l/o.txt"},
	{path: "w/fbd-b/o.fbd", link: "../../l/o.txt"},
	{path: "w/fbd-c/o.txt", link: "../../l/fbd-e/k.fbd"},
	{path: "w/fbd-u", link: "../l/fbd-e"},
	{path: "w/fbd-v", link: "x"},
	{path: "w/self", link: "self"},
	{path: "w/fbd-b/dir.fbd", link: "../x"},
	{path: "w/z/loop", link: "../z"},
	{path: "w/fbd-a/zz", link: "../../l/fbd-e"},
	{path: "l/back", link: "../w"},
	{path: "w/fbd-a/F.FBD", raw: "not a description\n"},
	{path: "w/fbd-b/g.fbd.bak", raw: "not a description\n"},

	// Explored only together with at most one other piece.
	{path: "w/.h/fbd-h/a.fbd"},
	{path: "w/x/.fbd/fbd-i/a.fbd"},
	{path: "w/..i/fbd-i/b.fbd"},
	{path: "w/_j/fbd-j/a.fbd"},
	{path: "w/testdata/vendor/fbd-k/a.fbd"},
	{path: "w/node_modules/build/fbd-l/a.fbd"},
	{path: "w/s p/fbd-m n/a b.fbd"},
	{path: "w/fbd-1/a.fbd"},
	{path: "w/fbd-A/a.fbd"},
	{path: "w/FBD-f/a.fbd", raw: "not a description\n"},
	{path: "w/fbd-a-b-c/a.fbd"},
	{path: "w/fbd-fbd-g/a.fbd"},
	{path: "w/fbd--h/a.fbd"},
	{path: "w/fbd-i-/a.fbd"},
	{path: "w/fbd_k/a.fbd", raw: "not a description\n"},
	{path: "w/fbd/a.fbd", raw: "not a description\n"},
	{path: "w/fbd-a.fbd/a.fbd"},
	{path: "w/fbd-x.y/a.fbd"},
	{path: "w/fbd-s/.fbd"},
	{path: "w/fbd-s/.a.fbd"},
	{path: "w/fbd-s/#a.fbd"},
	{path: "w/fbd-s/a.b.fbd"},
	{path: "w/fbd-s/a.fbd~", raw: "not a description\n"},
	{path: "w/fbd-s/afbd", raw: "not a description\n"},
	{path: "w/fbd-s/fbd", raw: "not a description\n"},
	{path: "w/fbd-s/fbd-a.fbd"},
	{path: "w/fbd-s/a_test.fbd"},
	{path: "w/fbd-s/main.bus", raw: "not a description\n"},
	{path: "w/fbd-s/\u00e9.fbd"},
}

// core is the number of pieces explored in all combinations.
const core = 38

func content(i int) string { return fmt.Sprintf("const K%d = %d\n", i, i+1) }

// build returns a tree with pieces, nil if they exclude each other.
func build(is []int) *tree {
	t := newTree()
	t.mkdir("w")
	t.mkdir("l")
	for _, i := range is {
		p := pieces[i]
		if strings.HasSuffix(p.path, "/") {
			if !t.mkdir(strings.TrimSuffix(p.path, "/")) {
				return nil
			}
			continue
		}
		if t.taken(p.path) || !t.mkdir(parent(p.path)) {
			return nil
		}
		switch {
		case p.link != "":
			t.links[p.path] = p.link
		case p.raw != "":
			t.files[p.path] = p.raw
		default:
			t.files[p.path] = content(i)
		}
	}
	return t
}

// consts returns constants of the content.
func consts(s string, m map[string]int64) bool {
	for _, l := range strings.Split(s, "\n") {
		var k string
		var v int64
		if n, _ := fmt.Sscanf(l, "const %s = %d", &k, &v); n == 2 {
			if _, ok := m[k]; ok {
				return false
			}
			m[k] = v
		}
	}
	return true
}

func (t *tree) fill(c *lib.Case) {
	c.Files, c.Links = map[string]string{}, map[string]string{}
	for p, s := range t.files {
		c.Files[p] = s
	}
	for p, s := range t.links {
		c.Links[p] = s
	}
	for d := range t.dirs {
		if d != "" {
			c.Dirs = append(c.Dirs, d)
		}
	}
	c.Sub = "w"
}

type fbdpath struct {
	env   string
	roots []string // Relative to the scratch directory.
}

var fbdpaths = []fbdpath{
	{"", nil},
	{"$S/l", []string{"l"}},
	{"../l", []string{"l"}},
	{"$S/l:$S/l", []string{"l"}},
	{"$S/l/fbd-e", []string{"l/fbd-e"}},
	{"$S/w", []string{"w"}},
	{"$S/none:$S/l", []string{"l"}},
	{":$S/l:", []string{"l"}},
	{"$S/w/x:$S/l/fbd-a", []string{"w/x", "l/fbd-a"}},
	{"$S", []string{""}},
	{"$S/l/fbd-a:$S/w/x/y:$S/l/fbd-e", []string{"l/fbd-a", "w/x/y", "l/fbd-e"}},
}

// expect sets what is expected from the discovery.
func expect(t *tree, fp fbdpath, m *model, src string) []pkg {
	ps := t.discover(append([]string{"w"}, fp.roots...))
	m.consts = map[string]map[string]int64{}
	kept := []pkg{}
	for _, p := range ps {
		if p.name == "main" {
			continue
		}
		kept = append(kept, p)
		k, dup := m.consts[p.name]
		if dup {
			m.reject = true
			continue
		}
		k = map[string]int64{}
		m.consts[p.name] = k
		for _, f := range p.files {
			if !consts(t.files[f], k) {
				m.reject = true
			}
		}
	}
	m.consts["main"] = map[string]int64{}
	consts(src, m.consts["main"])
	return kept
}

func trees(g *lib.Gen) {
	n := g.Pick(3, 4)
	for d := 0; d <= n; d++ {
		pick := []int{}
		var rec func(from, left int) bool
		rec = func(from, left int) bool {
			if left == 0 {
				is := append([]int{}, pick...)
				if build(is) == nil {
					return true
				}
				for k, fp := range fbdpaths {
					if d == 4 && k > 1 && (k+is[0]+is[1])%3 > 0 {
						continue
					}
					if !g.Emit(func() *lib.Case {
						t := build(is)
						src := "const M = 7\nmain bus\n  c config\n"
						m := &model{what: fmt.Sprintf("tree: %s, FBDPATH %q", show(is), fp.env)}
						c := &lib.Case{Src: src, Main: "main.bus", Consts: true, FBDPATH: fp.env, Meta: m}
						t.fill(c)
						expect(t, fp, m, src)
						return c
					}) {
						return false
					}
				}
				return true
			}
			for i := from; i < len(pieces); i++ {
				if i >= core && d > 2 {
					break
				}
				pick = append(pick, i)
				if !rec(i+1, left-1) {
					return false
				}
				pick = pick[:len(pick)-1]
			}
			return true
		}
		if !rec(0, d) {
			return
		}
	}
}

// large explores many packages and deep directories.
func large(g *lib.Gen) {
	emit := func(what string, fp fbdpath, fill func(t *tree)) bool {
		return g.Emit(func() *lib.Case {
			t := newTree()
			t.mkdir("w")
			t.mkdir("l")
			fill(t)
			src := "const M = 7\nmain bus\n  c config\n"
			m := &model{what: fmt.Sprintf("tree: %s, FBDPATH %q", what, fp.env)}
			c := &lib.Case{Src: src, Main: "main.bus", Consts: true, FBDPATH: fp.env, Meta: m}
			t.fill(c)
			expect(t, fp, m, src)
			return c
		})
	}
	file := func(t *tree, dir string, k int) {
		t.mkdir(dir)
		t.files[fmt.Sprintf("%s/a%d.fbd", dir, k)] = content(k)
	}
	for _, fp := range fbdpaths[:2] {
		for _, n := range []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100} {
			ok := emit(fmt.Sprintf("%d packages", n), fp, func(t *tree) {
				for k := range n {
					file(t, fmt.Sprintf("w/fbd-p%d", k), k)
				}
			}) && emit(fmt.Sprintf("%d files", n), fp, func(t *tree) {
				for k := range n {
					file(t, "l/fbd-p", k)
				}
				file(t, "w/fbd-q", n)
			}) && emit(fmt.Sprintf("%d other files, the description is the last one", n), fp, func(t *tree) {
				t.mkdir("w/fbd-p")
				for k := range n {
					t.files[fmt.Sprintf("w/fbd-p/a%d.txt", k)] = "not a description\n"
				}
				t.files["w/fbd-p/z.fbd"] = content(0)
			}) && emit(fmt.Sprintf("%d links to a package", n), fp, func(t *tree) {
				file(t, "l/fbd-p", 0)
				for k := range n {
					t.links[fmt.Sprintf("w/ln%d", k)] = "../l"
				}
			})
			if !ok {
				return
			}
		}
		for n := 3; n <= 64; n++ {
			ok := emit(fmt.Sprintf("package %d levels deep", n), fp, func(t *tree) {
				file(t, "w/"+strings.Repeat("d/", n)+"fbd-p", 0)
			}) && emit(fmt.Sprintf("%d packages in each other", n), fp, func(t *tree) {
				d := "w"
				for k := range n {
					d += fmt.Sprintf("/fbd-p%d", k)
					file(t, d, k)
				}
			}) && emit(fmt.Sprintf("%d levels, package at the bottom and the top", n), fp, func(t *tree) {
				file(t, "w/x/"+strings.Repeat("fbd-d/", n)+"fbd-p", 0)
				file(t, "w/fbd-q", 1)
			}) && n <= 30 && emit(fmt.Sprintf("chain of %d links", n), fp, func(t *tree) {
				file(t, "l/m/fbd-p", 0)
				t.links["w/ln0"] = "../l/m"
				for k := range n {
					t.links[fmt.Sprintf("w/ln%d", k+1)] = fmt.Sprintf("ln%d", k)
				}
			})
			if !ok && n <= 30 {
				return
			}
		}
	}
}

func show(is []int) string {
	s := []string{}
	for _, i := range is {
		p := pieces[i]
		if p.link != "" {
			s = append(s, p.path+"->"+p.link)
		} else {
			s = append(s, p.path)
		}
	}
	return strings.Join(s, " ")
}

// Paths of package directories for imports.
var dirs = []string{"w/fbd-a", "w/fbd-b", "w/x/fbd-b", "w/x/fbd-c", "w/x/y/fbd-d", "w/fbd-a/fbd-e", "l/fbd-f", "l/x/fbd-g", "w/fbd-aa", "w/fbd-a-b"}

var importPaths = []string{
	"a", "b", "c", "d", "e", "f", "g", "aa", "a-b", "fbd-a", "fbd-b", "fbd-c", "fbd-d", "fbd-e", "fbd-f", "fbd-g", "fbd-aa", "fbd-a-b",
	"x/fbd-b", "x/fbd-c", "x/fbd-g", "y/fbd-d", "x/y/fbd-d", "fbd-a/fbd-e", "a/fbd-e", "w/fbd-a", "w/fbd-b", "w/x/fbd-b", "l/fbd-f", "l/x/fbd-g", "/fbd-a", "/fbd-b", "-b", "-e",
	"none", "fbd-none", "fbd-", "A", "fbd-A", "a/", "x", "x/a", "x/b", "fbd-a/fbd-b", "z/fbd-a", "fbd-a.fbd", "fbd-a/f0.fbd", "./fbd-a", "../fbd-a", "a ", " a", "fbd-c/", "x//fbd-c",
}

func imports(g *lib.Gen) {
	n := g.Pick(3, 4)
	for d := 1; d <= n; d++ {
		pick := []int{}
		var rec func(from, left int) bool
		rec = func(from, left int) bool {
			if left == 0 {
				is := append([]int{}, pick...)
				names := map[string]bool{}
				dup := false
				for _, i := range is {
					b := path.Base(dirs[i])
					dup = dup || names[b]
					names[b] = true
				}
				for _, p := range importPaths {
					for _, alias := range []string{"", "al"} {
						for _, through := range []string{"", "z"} {
							if d == n && d > 2 && through != "" {
								continue
							}
							if !g.Emit(func() *lib.Case { return importCase(is, p, alias, through, dup) }) {
								return false
							}
						}
					}
				}
				return true
			}
			for i := from; i < len(dirs); i++ {
				pick = append(pick, i)
				if !rec(i+1, left-1) {
					return false
				}
				pick = pick[:len(pick)-1]
			}
			return true
		}
		if !rec(0, d) {
			return
		}
	}
}

// importCase imports the path in the main package, or in another package.
func importCase(is []int, p, alias, through string, dup bool) *lib.Case {
	c := &lib.Case{Files: map[string]string{}, Sub: "w", FBDPATH: "$S/l", Main: "main.bus"}
	matching := []int{}
	used := []string{}
	for _, i := range is {
		c.Files[dirs[i]+"/f0.fbd"] = fmt.Sprintf("const P = %d\n", i+3)
		c.Files[dirs[i]+"/f1.fbd"] = "const Q = P\n"
		used = append(used, dirs[i])
		if strings.HasSuffix("/scratch/"+dirs[i], p) {
			matching = append(matching, i)
		}
	}
	m := &model{what: fmt.Sprintf("import: %q, alias %q, in %q, packages %v", p, alias, through, used)}
	c.Meta = m
	name := alias
	if alias == "" {
		if strings.Contains(p, "/") {
			// It is not specified what is the name.
			m.reject = len(matching) != 1 || dup
			if !m.reject {
				c.Src = fmt.Sprintf("import %q\nmain bus\n  c config; width = 9\n", p)
				m.width = 9
				return c
			}
		}
		name = strings.TrimPrefix(p, "fbd-")
	}
	imp := fmt.Sprintf("import %q\n", p)
	if alias != "" {
		imp = fmt.Sprintf("import %s %q\n", alias, p)
	}
	m.reject = len(matching) != 1 || dup
	if strings.ContainsAny(name, "-./ ") && !m.reject {
		// The name is not an identifier, an alias is needed to use it.
		c.Src = imp + "main bus\n  c config; width = 9\n"
		m.width = 9
		return c
	}
	use := name + ".Q"
	if strings.ContainsAny(name, "-./ ") || name == "" {
		use = "9"
	}
	if through == "" {
		c.Src = imp + "main bus\n  c config; width = " + use + "\n"
	} else {
		c.Src = "import \"fbd-z\"\nmain bus\n  c config; width = z.R\n"
		c.Files["w/fbd-z/a.fbd"] = imp + "const R = " + use + "\n"
		if strings.HasSuffix("/scratch/w/fbd-z", p) {
			m.reject = true
		}
	}
	if !m.reject {
		m.width = int64(matching[0] + 3)
	}
	return c
}

// visibility: imports and uses of symbols in files of packages.
func visibility(g *lib.Gen) {
	// Files: main file, two files of the package p, a file of the package q.
	// Bits of imp: what is imported where.
	type slot struct {
		file, name, path string
	}
	slots := []slot{
		{"main", "p", "p"}, {"main", "q", "q"}, {"p1", "q", "q"}, {"p2", "q", "q"}, {"q1", "p", "p"}, {"main", "p", "q"}, {"main", "q", "p"}, {"p1", "p", "q"}, {"p2", "p", "p"},
	}
	type usage struct {
		file, expr string
		kind       string // const or type
	}
	usages := []usage{}
	for _, f := range []string{"main", "p1", "p2", "q1"} {
		for _, e := range []string{"P1", "P2", "Q1", "p.P1", "p.P2", "p.Q1", "q.Q1", "q.P1", "p.P2q", "main.M", "M", "p.NONE", "p.none"} {
			usages = append(usages, usage{f, e, "const"})
		}
		for _, e := range []string{"T1", "T2", "U1", "p.T1", "p.T2", "p.U1", "q.U1", "q.T1", "main.MT", "MT", "p.NONE"} {
			usages = append(usages, usage{f, e, "type"})
		}
	}
	values := map[string]int64{"p.P1": 3, "p.P2": 4, "q.Q1": 5, "main.M": 6, "p.P2q": 0}
	types := map[string]int64{"p.T1": 7, "p.T2": 8, "q.U1": 9, "main.MT": 10}
	for mask := range 1 << len(slots) {
		bits := 0
		for i := range slots {
			bits += mask >> i & 1
		}
		if bits > g.Pick(3, 9) {
			continue
		}
		for _, u := range usages {
			if !g.Emit(func() *lib.Case {
				src := map[string]string{}
				bound := map[string]string{} // file.name -> package
				dup := false
				for i, s := range slots {
					if mask>>i&1 == 0 {
						continue
					}
					src[s.file] += fmt.Sprintf("import %s %q\n", s.name, "fbd-"+s.path)
					if _, ok := bound[s.file+"."+s.name]; ok {
						dup = true
					}
					bound[s.file+"."+s.name] = s.path
				}
				src["p1"] += "const P1 = 3\ntype T1 config; width = 7\n"
				src["p2"] += "const P2 = 4\ntype T2 config; width = 8\n"
				src["q1"] += "const Q1 = 5\ntype U1 config; width = 9\n"
				src["main"] += "const M = 6\ntype MT config; width = 10\n"
				// Use of the symbol.
				own := map[string]string{"main": "main", "p1": "p", "p2": "p", "q1": "q"}[u.file]
				pkgName, sym, q := strings.Cut(u.expr, ".")
				full := own + "." + u.expr
				ok := true
				if q {
					b, imported := bound[u.file+"."+pkgName]
					ok = imported
					full = b + "." + sym
				}
				tab := values
				if u.kind == "type" {
					tab = types
				}
				val := tab[full]
				ok = ok && val != 0 && !dup
				main := ""
				via := ""
				switch {
				case u.file == "main" && u.kind == "const":
					main = "main bus\n  c config; width = " + u.expr + "\n"
				case u.file == "main":
					main = "main bus\n  c " + u.expr + "\n"
				case u.kind == "const":
					src[u.file] += "const USE = " + u.expr + "\n"
					via = "USE"
				default:
					src[u.file] += "type USE " + u.expr + "; init-value = 0\n"
					via = "USE"
				}
				imports := ""
				if via != "" {
					imports = fmt.Sprintf("import w %q\n", "fbd-"+own)
					if u.kind == "const" {
						main = "main bus\n  c config; width = w.USE\n"
					} else {
						main = "main bus\n  c w.USE\n"
					}
				}
				m := &model{what: fmt.Sprintf("visibility: %s %s in %s, imports %v", u.kind, u.expr, u.file, bound), reject: !ok, width: val}
				return &lib.Case{Src: imports + src["main"] + main, Main: "main.bus", Files: map[string]string{
					"fbd-p/p1.fbd": src["p1"], "fbd-p/p2.fbd": src["p2"], "fbd-q/q1.fbd": src["q1"],
				}, Meta: m}
			}) {
				return
			}
		}
	}
}
