package main

import (
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// indent moves lines to the right, string literals are not touched.
func indent(s string, n int) string {
	p := strings.Repeat("  ", n)
	var b strings.Builder
	inStr := false
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if i > 0 {
			b.WriteByte('\n')
		}
		if !inStr && l != "" && l != "»" {
			b.WriteString(p)
		}
		b.WriteString(l)
		if strings.Count(l, "\"")%2 == 1 && !strings.Contains(l, "# ") {
			inStr = !inStr
		}
	}
	return b.String() + "\n"
}

// flat puts lines of the body in the single line, if it is possible.
func flat(body string) (string, bool) {
	body = strings.TrimSuffix(body, "\n")
	for _, l := range strings.Split(body, "\n") {
		t := strings.TrimLeft(l, "«‹¦")
		if strings.Contains(l, "¦") {
			return "", false
		}
		if t != l && !isProp(t) || !isProp(t) {
			return "", false
		}
	}
	if strings.Contains(body, "\n»") {
		return "", false
	}
	return "; " + strings.ReplaceAll(body, "\n", "; "), true
}

func isProp(l string) bool {
	for _, p := range lib.Properties {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

// noise is put before the fragment.
var topNoise = func() []string {
	return []string{
		"",
		"\n\n",
		"# comment: \"quoted\" @\n",
		"const NA = \"x\ny\n\nz\"\n",
		"const\n  NB = 1\n  # c\n  NC = [1, 2]\n",
		"type NT(W = 8) config\n  width = W\n\n# c\n",
		"type NTX block # c\n  c config\n    width = 3\n  d block\n    e status\n",
		strings.Repeat("\n", 8),
		strings.Repeat("# c\n", 97),
		"const ND = \"x\n" + strings.Repeat("\n", 994) + "\"\n",
	}
}()

var bodyNoise = []string{
	"",
	"\n",
	"# comment\n\n",
	"const NK = \"a\n b\n  c\"\n",
	"nz config; width = 5\n",
	"nb block\n  nc config\n    width = 7\n    # c\n",
	"type NT2(W) [W]status # c\n",
}

var innerNoise = []string{"\n", "# comment\n"}

var tails = []string{"", "\n", "\n\n\n", "\n# end", "\n\ntype ZZ config\n  width = 3\n"}

// put is a single way of placing a fragment.
type put struct {
	name  string
	files map[string]string
	env   string
}

func parent(k string) string {
	switch k {
	case "param", "return":
		return "proc"
	}
	return "block"
}

// places returns all the placements, with holes for noise: \x01 top, \x02 body, \x03 tail.
func places(c class) (ps []put) {
	add := func(name string, files ...string) {
		m := map[string]string{}
		for i := 0; i < len(files); i += 2 {
			m[files[i]] = files[i+1]
		}
		ps = append(ps, put{name: name, files: m})
	}
	pre := c.pre
	if pre != "" {
		pre += "\n"
	}
	frag := strings.TrimSuffix(c.frag, "\n") + "\n"
	if strings.HasSuffix(c.frag, "»\n") && !strings.HasSuffix(c.frag, "\n»\n") {
		frag = c.frag
	}
	if strings.HasSuffix(c.frag, "\n»") {
		frag = c.frag // New line is the place.
	}
	const bus = "bus.fbd"
	if c.ctx == "top" {
		use := func(q string) string {
			if c.use == "" {
				return "main bus\n  busconf config; width = 3\n"
			}
			return "main bus\n  " + strings.ReplaceAll(c.use, "@", q) + "\n"
		}
		add("before bus", bus, "\x01"+frag+use("")+"\x03")
		add("after bus", bus, "\x01"+use("")+frag+"\x03")
		if !strings.HasSuffix(c.frag, "»\n") {
			add("end", bus, "\x01"+use("")+strings.TrimSuffix(frag, "\n")+"\x03")
		}
		add("package", bus, "import p \"p\"\n"+use("p."), "fbd-p/a.fbd", "\x01"+frag+"\x03")
		add("package after import", bus, "import p \"p\"\n"+use("p."), "fbd-p/a.fbd", "import q \"q\"\n\x01"+frag+"\x03", "fbd-q/a.fbd", "const A = 3\n")
		add("second file", bus, "\n\n\nimport p \"p\"\n"+use("p."), "fbd-p/a.fbd", "const ZA = 3\n", "fbd-p/b.fbd", "\x01"+frag+"\x03")
		ps[len(ps)-1].env = "unused"
		for i := range ps {
			if strings.Contains(c.frag, "\"p2\"") {
				ps[i].files["fbd-p2/a.fbd"] = "const PPP = 3\n"
			}
		}
		return ps
	}

	k := c.ctx
	par := parent(k)
	// Body with the instance or the type.
	inst := "x " + k + "\n" + indent(frag, 1)
	if k == "group" && !strings.Contains(frag, " config") {
		inst += "  gx1 config\n  gx2 config\n"
	}
	ok := false
	one := ""
	if k != "group" {
		one, ok = flat(frag)
	}
	within := func(in string) string { // Lines of a block.
		if par == "block" {
			return in
		}
		return "p " + par + "\n" + indent(in, 1)
	}
	user := within("x @T\n")
	add("main", bus, "\x01"+pre+"main bus\n"+indent("\x02"+within(inst), 1)+"\x03")
	add("nested", bus, "\x01"+pre+"main bus\n  b block\n    c [2]block\n"+indent("\x02"+within(inst), 3)+"\x03")
	typ := "type T " + k + strings.TrimPrefix(inst, "x "+k)
	use := "main bus\n" + indent(strings.ReplaceAll(user, "@", ""), 1)
	usep := "main bus\n" + indent(strings.ReplaceAll(user, "@", "p."), 1)
	add("type before", bus, "\x01"+pre+typ+use+"\x03")
	add("type after", bus, "\x01"+pre+use+typ+"\x03")
	add("type within", bus, "\x01"+pre+"main bus\n"+indent("\x02"+typ+strings.ReplaceAll(user, "@", ""), 1)+"\x03")
	add("ancestor", bus, "\x01"+pre+strings.Replace(typ, "type T ", "type B ", 1)+"type A B\ntype T A\n"+use+"\x03")
	add("type in package", bus, "import p \"p\"\n"+usep, "fbd-p/a.fbd", "\x01"+pre+typ+"\x03")
	add("type in second file", bus, "import p \"p\"\n"+usep, "fbd-p/a.fbd", "const ZA = 3\n", "fbd-p/b.fbd", "\x01"+pre+typ+"\x03")
	add("within type in package", bus, "import p \"p\"\nmain bus\n  z p.Z\n", "fbd-p/a.fbd", "\x01"+pre+"type Z block\n"+indent("\x02"+within(inst), 1)+"\x03")
	add("in path", bus, "import p \"p\"\n"+usep, "libs/fbd-p/a.fbd", "\x01"+pre+typ+"\x03")
	ps[len(ps)-1].env = "$S/libs"
	if k == "block" {
		add("bus body", bus, "\x01"+pre+"main bus\n"+indent("\x02"+frag, 1)+"\x03")
		if strings.Contains(c.name, "width") { // It is legal for a bus.
			ps = ps[:len(ps)-1]
		}
	}
	if ok {
		one := strings.TrimSuffix(one, "\n") + "\n"
		add("one line", bus, "\x01"+pre+"main bus\n"+indent("\x02"+within("x "+k+one), 1)+"\x03")
		add("one line type", bus, "\x01"+pre+"type T "+k+one+use+"\x03")
		if k != "irq" && k != "mask" && !strings.Contains(c.name, "atomic") { // Not implemented.
			add("one line array", bus, "\x01"+pre+"main bus\n"+indent("\x02"+within("longer_name [1 + 1]"+k+one), 1)+"\x03")
		}
		add("one line type in package", bus, "import p \"p\"\n"+usep, "fbd-p/a.fbd", "\x01"+pre+"type T "+k+one+"\x03")
	}
	return ps
}

func classCases(g *lib.Gen) {
	g.Notes["classes"] = 0
	for _, c := range classes() {
		g.Notes["classes"]++
		variants := []class{c}
		if c.few {
			g.Notes["generated classes"]++
		}
		// Noise between lines of the body.
		if ls := strings.Split(c.frag, "\n"); !c.few && len(ls) > 1 && c.ctx != "top" && !strings.Contains(c.frag, "\n»") && !strings.Contains(c.frag, "multi") && !strings.Contains(c.frag, "\n ") {
			for _, n := range innerNoise {
				d := c
				d.frag = strings.Join(ls, "\n"+n)
				variants = append(variants, d)
			}
		}
		for vi, c := range variants {
			for pi, p := range places(c) {
				if c.few && !g.Thorough && pi != 0 && pi != 5 && pi != 6 {
					continue
				}
				nt, nb, nl := len(topNoise), len(bodyNoise), len(tails)
				hasBody := false
				for _, f := range p.files {
					hasBody = hasBody || strings.Contains(f, "\x02")
				}
				if !hasBody {
					nb = 1
				}
				if vi > 0 {
					nt, nb = 2, 1
				}
				if c.few && !g.Thorough {
					nt, nb, nl = 1, 1, 1
				}
				for t := 0; t < nt; t++ {
					for b := 0; b < nb; b++ {
						for e := 0; e < nl; e++ {
							if e > 0 && (t > 1 || b > 1) && !g.Thorough {
								continue
							}
							c, p, t, b, e := c, p, t, b, e
							if !g.Emit(func() *lib.Case {
								if c.few && !g.Thorough {
									t, b, e = noiseOf(c, pi)
								}
								return mkCase(c, p, topNoise[t], bodyNoise[b], tails[e])
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func mkCase(c class, p put, top, body, tail string) *lib.Case {
	m := &model{what: c.ctx + ": " + c.name + ", " + p.name, src: sources{}}
	cs := &lib.Case{Meta: m, Files: map[string]string{}}
	for name, f := range p.files {
		if i := strings.IndexByte(f, '\x02'); i >= 0 {
			n := i - strings.LastIndexByte(f[:i], '\n') - 1
			b := ""
			if body != "" {
				b = strings.TrimPrefix(indent(body, n/2), strings.Repeat(" ", n))
				if body[0] == '\n' {
					// The blank line is not indented.
					f = f[:i-n] + "\n" + f[i-n:]
					f = strings.Replace(f, "\x02", "", 1)
				} else {
					f = strings.Replace(f, "\x02", b+strings.Repeat(" ", n), 1)
				}
			} else {
				f = strings.Replace(f, "\x02", "", 1)
			}
		}
		f = strings.Replace(f, "\x01", top, 1)
		if i := strings.IndexByte(f, '\x03'); i >= 0 {
			f = f[:i] + tail
			if tail == "" && strings.HasSuffix(c.frag, "»\n") {
				f += "# end"
			} else if tail == "" {
				f = strings.TrimSuffix(f, "\n")
			} else if strings.HasPrefix(tail, "\n") && strings.HasSuffix(f[:len(f)-len(tail)], "\n") {
				f = f[:len(f)-len(tail)] + tail[1:]
			}
		}
		src, ms := unmark(name, f)
		m.src[name] = src
		m.marks = append(m.marks, ms...)
		if name == "bus.fbd" {
			cs.Src = src
		} else {
			cs.Files[name] = src
		}
	}
	if strings.HasPrefix(p.env, "$S") {
		cs.FBDPATH = p.env
	}
	if len(m.marks) == 0 {
		m.valid = true
	}
	return cs
}

// crossCases are repeated definitions in different files of a package.
func crossCases(g *lib.Gen) {
	for _, d := range [][2]string{
		{"const «A» = 3\n", "const «A» = 4\n"},
		{"const\n  B = 1\n  «A» = 3\n", "const A2 = 1\nconst «A» = 4\n"},
		{"type «A» config\n", "type «A» status\n"},
		{"type «A»(P) block\n  x config\n", "type C config\n\ntype «A» block\n  y config\n"},
	} {
		for i := range topNoise {
			for j := range topNoise {
				for e := range tails {
					for swap := 0; swap < 2; swap++ {
						d, i, j, e, swap := d, i, j, e, swap
						if !g.Emit(func() *lib.Case {
							ren := strings.NewReplacer("NA", "NAA", "NB", "NBB", "NC", "NCC", "NT", "NTT", "ND", "NDD", "ZZ", "ZZZ")
							m := &model{what: "two files", src: sources{"bus.fbd": "import \"p\"\nmain bus\n"}}
							a, ms := unmark("fbd-p/a.fbd", topNoise[i]+d[swap]+tails[e])
							m.marks = append(m.marks, ms...)
							b, ms := unmark("fbd-p/b.fbd", ren.Replace(topNoise[j])+d[1-swap]+ren.Replace(tails[e]))
							m.marks = append(m.marks, ms...)
							m.src["fbd-p/a.fbd"], m.src["fbd-p/b.fbd"] = a, b
							return &lib.Case{Src: m.src["bus.fbd"], Files: map[string]string{"fbd-p/a.fbd": a, "fbd-p/b.fbd": b}, Meta: m}
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// noiseOf chooses noise for generated classes, so that all kinds of it are used.
func noiseOf(c class, place int) (int, int, int) {
	h := place
	for _, b := range []byte(c.frag) {
		h = (h*31 + int(b)) & 0xffffff
	}
	return h / 7 % len(topNoise), h / 91 % len(bodyNoise), h / 1001 % len(tails)
}
