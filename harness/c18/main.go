// Check C18: layout of the source does not matter.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type model struct {
	what string
	key  string
	ref  *lib.Case
	nocc bool // Dumped constants may differ.
	bad  bool // Illegal in any layout.
}

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	v := func(sig, f string, a ...any) []lib.Viol {
		d, _, _ := strings.Cut(m.key, " ")
		return []lib.Viol{{Sig: sig + ":" + d, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	r := lib.Reference(m.key, m.ref, o)
	if m.bad {
		if r.Kind == lib.OK || o.Kind == lib.OK {
			return v("accepted", "reference: %s %s, this: %s %s", r.Kind, r.Msg, o.Kind, o.Msg)
		}
		return nil
	}
	if r.Kind != lib.OK {
		return v("reference", "%s %s", r.Kind, r.Msg)
	}
	if o.Kind != lib.OK {
		return v("rejected", "%s %s", o.Kind, o.Msg)
	}
	a, b := r.JSON, o.JSON
	// Documentation is a part of the description the ID is calculated for.
	if !bytes.Equal(a, b) && !bytes.Equal(docs(a), docs(b)) {
		a, b = lib.NoDoc(noID(r)), lib.NoDoc(noID(o))
	}
	if !bytes.Equal(a, b) {
		return v("output", "output differs%s", diff(a, b))
	}
	if !m.nocc && !bytes.Equal(r.CJSON, o.CJSON) {
		return v("constants", "constants differ%s", diff(r.CJSON, o.CJSON))
	}
	return nil
}

func docs(b []byte) []byte {
	r := []byte{}
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.HasPrefix(bytes.TrimLeft(l, " "), []byte(`"Doc":`)) {
			r = append(append(r, l...), '\n')
		}
	}
	return r
}

// noID returns output without the value of the identifier.
func noID(o *lib.Outcome) []byte {
	for _, s := range o.Bus.Statics {
		if s.Name == "ID" {
			return bytes.Replace(o.JSON, []byte(fmt.Sprintf("%q", s.InitValue)), []byte("ID"), 1)
		}
	}
	return o.JSON
}

func diff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range la {
		if i >= len(lb) {
			return ", second is shorter"
		}
		if la[i] != lb[i] {
			return fmt.Sprintf(", line %d: %s instead of %s", i+1, strings.TrimSpace(lb[i]), strings.TrimSpace(la[i]))
		}
	}
	return ", second is longer"
}

func main() {
	lib.Main(&lib.Check{
		ID:       "C18",
		Rule:     "8 descriptions which together use the whole grammar, rewritten with every single change of layout (one line forms, blank lines, comments of 7 kinds in all legal indentations, trailing comments, white space between all tokens, end of file, order of properties and elements, blocks of constants and imports, bodies divided between types in all ways), all pairs of changes of structure, all pairs of a change of structure and a change of text, all pairs of changes of text of two descriptions (thorough: of all); all orders and divisions between types of all legal properties of all base types; 23 illegal descriptions rewritten with all single changes and pairs of changes of structure; all combinations of surroundings of all lines of a small description; all distributions of 6 definitions of a package over 3 files with different imports; all orders of 4 (thorough: 5) items of 13 of different kinds; all orders of up to 4 (thorough: 5) blocks of 5 kinds, rotations, reversals and swaps of up to 40 blocks; white space and comments of up to 300 (thorough: 5000) characters or lines at each place and at all places",
		Assume:   []string{"whether a change of white space preserves tokens is decided by the reference tokenizer of C15"},
		CLIEvery: 2000,
		Gen:      gen,
		Eval:     eval,
	})
}

func gen(g *lib.Gen) {
	for _, f := range []func(*lib.Gen){single, illegal, properties, files, orders, blocks, manyBlocks, grid, long, shared, structPairs, pairs} {
		if f(g); g.Stopped() {
			return
		}
	}
}

func (d *desc) emit(g *lib.Gen, what string, nocc bool, src func() string) bool {
	return g.Emit(func() *lib.Case {
		return &lib.Case{Src: src(), Files: d.files, Consts: true, Meta: &model{what: d.name + ": " + what, key: d.name, ref: d.ref(), nocc: nocc}}
	})
}

// single rewritings.
func single(g *lib.Gen) {
	for _, d := range corpus() {
		lines := renderLines(d.tree)
		if !d.emit(g, "itself", false, func() string { return render(d.tree) }) {
			return
		}
		for _, e := range textual(lines, true) {
			t := newText(lines)
			e.apply(t)
			if t.legal() && !d.emit(g, e.what, false, t.String) {
				return
			}
		}
		for _, r := range structural(d.tree, "Zx") {
			if !d.emit(g, r.what, false, func() string { return render(r.tree) }) {
				return
			}
			// With every textual one.
			if !d.small && !g.Thorough {
				continue
			}
			ls := renderLines(r.tree)
			for _, e := range textual(ls, false) {
				t := newText(ls)
				e.apply(t)
				if t.legal() && !d.emit(g, r.what+", "+e.what, false, t.String) {
					return
				}
			}
		}
		// All places at once.
		es := textual(lines, true)
		for _, sub := range []string{"blank", "comment", "trailing", "spaces", "no spaces"} {
			t := newText(lines)
			for _, e := range es {
				switch {
				case sub == "blank" && strings.Contains(e.what, `["" ""]`),
					sub == "comment" && strings.HasPrefix(e.what, "before") && strings.Contains(e.what, `# d" "" ""`),
					sub == "trailing" && strings.Contains(e.what, "trailing"),
					sub == "spaces" && strings.HasSuffix(e.what, "5 spaces"),
					sub == "no spaces" && strings.HasSuffix(e.what, ": 0 spaces"):
					e.apply(t)
				}
			}
			if t.doubled() {
				continue
			}
			if !d.emit(g, "all "+sub, false, t.String) {
				return
			}
		}
	}
}

// pairs of textual rewritings.
func pairs(g *lib.Gen) {
	for di, d := range corpus() {
		if !d.small || di > 0 && !g.Thorough && di != 3 {
			continue
		}
		lines := renderLines(d.tree)
		es := textual(lines, di == 0)
		for i := range es {
			for j := i + 1; j < len(es); j++ {
				t := newText(lines)
				es[i].apply(t)
				es[j].apply(t)
				if !t.legal() || t.doubled() {
					continue
				}
				if !d.emit(g, es[i].what+", "+es[j].what, false, t.String) {
					return
				}
			}
		}
	}
}

// structPairs executes all sequences of two changes of the structure.
func structPairs(g *lib.Gen) {
	for _, d := range corpus() {
		if !d.small && !g.Thorough {
			continue
		}
		for _, r := range structural(d.tree, "Zx") {
			for _, s := range structural(r.tree, "Zy") {
				if !d.emit(g, r.what+", then "+s.what, false, func() string { return render(s.tree) }) {
					return
				}
				if d.name != "tiny" || !g.Thorough {
					continue
				}
				for _, u := range structural(s.tree, "Zz") {
					if !d.emit(g, r.what+", then "+s.what+", then "+u.what, false, func() string { return render(u.tree) }) {
						return
					}
				}
			}
		}
	}
}

// grid: every line of a small description has independent surroundings.
func grid(g *lib.Gen) {
	one := []string{"main bus", "  b block", "    a config; width = 3", "  c status"}
	two := []string{"main bus", "  b block", "    a config", "      width = 3", "  c status"}
	d := &desc{name: "grid", tree: []*node{f("main", "bus", f("b", "block", f("a", "config", "width = 3")), f("c", "status"))}}
	around := func(lines []string, i int) [][]string {
		lo := 0
		if i < len(lines) {
			lo = indentOf(lines[i])
		}
		hi := lo
		if i > 0 && indentOf(lines[i-1]) > hi {
			hi = indentOf(lines[i-1])
		}
		l, h := strings.Repeat(" ", lo), strings.Repeat(" ", hi)
		r := [][]string{nil, {""}, {l + "# x"}, {l + "# x", ""}}
		if g.Thorough {
			r = append(r, []string{"", l + "# x"}, []string{l + "#", l + "# y"})
		}
		if hi > lo {
			r = append(r, []string{h + "# x"}, []string{h + "# x", "", l + "# y"})
		}
		return r
	}
	for _, lines := range [][]string{one, two} {
		n := len(lines)
		t := newText(lines)
		var place func(i int) bool
		place = func(i int) bool {
			if i > n {
				for tr := 0; tr < 1<<n; tr++ {
					// Comments after all lines, none, or a single one.
					if !g.Thorough && n > 4 && tr&(tr-1) != 0 && tr != 1<<n-1 {
						continue
					}
					for _, fin := range []string{"\n", ""} {
						u := newText(lines)
						for k, v := range t.before {
							u.before[k] = v
						}
						for k := range n {
							if tr>>k&1 != 0 {
								u.trail[k] = " # z"
							}
						}
						u.final = fin
						if u.legal() && !d.emit(g, "grid", false, u.String) {
							return false
						}
					}
				}
				return true
			}
			for _, a := range around(lines, i) {
				t.before[i] = a
				if !place(i + 1) {
					return false
				}
			}
			t.before[i] = nil
			return true
		}
		if !place(0) {
			return
		}
	}
}

// long stretches white space and comments at each place.
func long(g *lib.Gen) {
	for di, d := range corpus() {
		if !d.small && !g.Thorough {
			continue
		}
		lines := renderLines(d.tree)
		whole := strings.Join(lines, "\n") + "\n"
		gaps := [][2]int{}
		for _, e := range textual(lines, true) {
			t := newText(lines)
			if e.apply(t); len(t.gaps) > 0 {
				for k, sp := range t.gaps {
					if len(sp) == 5 {
						gaps = append(gaps, k)
					}
				}
			}
		}
		ns := lib.Lengths(g.Pick(20, 66), g.Pick(300, 5000))
		if di > 3 && !g.Thorough {
			ns = lib.Lengths(3, 130)
		}
		for _, n := range ns {
			rep := func(s ...string) []string {
				r := make([]string, n)
				for i := range r {
					r[i] = s[i%len(s)]
				}
				return r
			}
			put := func(what string, fn func(t *text)) bool {
				return d.emit(g, fmt.Sprintf("%s, length %d", what, n), false, func() string {
					t := newText(lines)
					fn(t)
					return t.String()
				})
			}
			all := func(ls func(sp string) []string) func(t *text) {
				return func(t *text) {
					for i, l := range lines {
						t.before[i] = ls(l[:indentOf(l)])
					}
				}
			}
			ok := put("all blank", all(func(string) []string { return rep("") })) &&
				put("all comments", all(func(sp string) []string { return rep(sp+"# c", sp+"#") })) &&
				put("all comments and blank", all(func(sp string) []string { return rep(sp+"# c", "") })) &&
				put("all long comments", all(func(sp string) []string { return []string{sp + "#" + strings.Repeat("c", n)} })) &&
				put("end", func(t *text) { t.final = strings.Repeat("\n", n) })
			for i := 0; ok && i <= len(lines); i++ {
				sp := ""
				if i < len(lines) {
					sp = lines[i][:indentOf(lines[i])]
				}
				at := fmt.Sprintf("line %d: ", i+1)
				ok = put(at+"blank", func(t *text) { t.before[i] = rep("") }) &&
					put(at+"comments", func(t *text) { t.before[i] = rep(sp+"# c", sp+"#") }) &&
					put(at+"long comment", func(t *text) { t.before[i] = []string{sp + "# " + strings.Repeat("c; ", n)} })
				if ok && i < len(lines) {
					ok = put(at+"long trailing comment", func(t *text) { t.trail[i] = " #" + strings.Repeat(" ", n) + "c" }) &&
						put(at+"far trailing comment", func(t *text) { t.trail[i] = strings.Repeat(" ", n) + "# c" })
				}
			}
			for _, k := range gaps {
				t := newText(lines)
				t.gaps[k] = strings.Repeat(" ", n)
				if ok && sameTokens(whole, t.String()) {
					ok = put(fmt.Sprintf("line %d offset %d", k[0]+1, k[1]), func(t *text) { t.gaps[k] = strings.Repeat(" ", n) })
				}
			}
			if ok {
				ok = put("all gaps", func(t *text) {
					for _, k := range gaps {
						t.gaps[k] = strings.Repeat(" ", n)
					}
				})
			}
			if !ok {
				return
			}
		}
	}
}

// files distributes definitions of a package over files.
func files(g *lib.Gen) {
	defs := []*node{
		konst("A", "B * 2"), konst("B", "3"), konst("C", "[A, B]"),
		tdef("T", "(W = A)", "", "config", "config", "width = W"),
		tdef("U", "", "[B]", "T(B)", "config", "init-value = 1"),
		tdef("V", "", "", "block", "block", inst("t", "", "T", "config"), inst("u", "", "U", "config"), f("s", "status", "width = B + x.K")),
	}
	// The only definition which uses import is the last one, in other files the same name means something else.
	imports := func(s string) string {
		if strings.Contains(s, "x.K") {
			return "import x \"two\"\n" + s
		}
		return "import x \"three\"\n" + s
	}
	other := func(fs map[string]string) map[string]string {
		for n := range fs {
			fs[n] = imports(fs[n])
		}
		fs["fbd-two/a.fbd"], fs["fbd-three/a.fbd"] = "const K = 2\n", "const K = 3\n"
		return fs
	}
	main := "import \"lib\"\nconst N = lib.A\nmain bus\n  t lib.T(7)\n  u lib.U\n  v [lib.B]lib.V\n  w status; width = N\n"
	ref := &lib.Case{Src: main, Files: other(map[string]string{"fbd-lib/all.fbd": render(defs)}), Consts: true}
	names := []string{"m.fbd", "a.fbd", "Z.fbd", "n.fbd"}
	nf := g.Pick(3, 4)
	total := 1
	for range defs {
		total *= nf
	}
	for code := range total {
		for _, rev := range []bool{false, true} {
			what := fmt.Sprintf("distribution %d over %d files, reversed %v", code, nf, rev)
			if !g.Emit(func() *lib.Case {
				fs := map[string]string{}
				c := code
				for _, d := range defs {
					n := "fbd-lib/" + names[c%nf]
					c /= nf
					if rev {
						fs[n] = render([]*node{d}) + fs[n]
					} else {
						fs[n] += render([]*node{d})
					}
				}
				return &lib.Case{Src: main, Files: other(fs), Consts: true, Meta: &model{what: what, key: "files", ref: ref}}
			}) {
				return
			}
		}
	}
}

// orders checks all orders of all sets of items of different kinds.
func orders(g *lib.Gen) {
	w := func(n *node) item { return item{n: n} }
	items := []item{
		w(f("a", "config", "width = 5")), w(f("b", "status", "width = 6; atomic = false")), w(f("c", "static", "width = 3; init-value = 2")),
		w(f("d", "mask", "width = 9")), w(f("e", "irq", "add-enable = true")), w(f("f", "proc", f("p", "param"), f("r", "return", "width = 11"))),
		w(f("g", "stream", f("p", "param", "width = 11"))), w(f("h", "group", f("k", "config"), f("l", "config", "width = 2"))),
		w(f("i", "block", f("k", "config"))), w(f("j", "blackbox", "size = 3")), w(konst("A", "3")),
		w(tdef("T", "", "", "config", "config", "width = 3")), {props: p("width = 8; masters = 2")},
	}
	k := g.Pick(4, 5)
	set := []int{}
	var perms func(left []int, cur []int, ref *lib.Case, key string) bool
	build := func(order []int) string {
		n := f("main", "bus")
		for _, i := range order {
			n.items = append(n.items, items[i])
		}
		return render([]*node{n})
	}
	perms = func(left, cur []int, ref *lib.Case, key string) bool {
		if len(left) == 0 {
			return g.Emit(func() *lib.Case {
				return &lib.Case{Src: build(cur), Consts: true, Meta: &model{what: fmt.Sprintf("order %v", cur), key: key, ref: ref}}
			})
		}
		for i := range left {
			rest := append(append([]int{}, left[:i]...), left[i+1:]...)
			if !perms(rest, append(append([]int{}, cur...), left[i]), ref, key) {
				return false
			}
		}
		return true
	}
	var sets func(from int) bool
	sets = func(from int) bool {
		if len(set) == k {
			s := append([]int{}, set...)
			return perms(s, nil, &lib.Case{Src: build(s), Consts: true}, "orders "+fmt.Sprint(s))
		}
		for i := from; i < len(items); i++ {
			set = append(set, i)
			ok := sets(i + 1)
			set = set[:len(set)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	sets(0)
}

// blocks checks all orders of blocks, which are placed according to their sizes and names.
func blocks(g *lib.Gen) {
	kind := func(name string, k int) *node {
		switch k {
		case 0:
			return f(name, "block", f("k", "config"))
		case 1:
			return f(name, "block", f("k", "config"), f("l", "status"))
		case 2:
			return f(name, "block", f("u", "block", f("k", "config")), f("s", "block", f("l", "status")))
		case 3:
			return f(name, "block", f("z", "blackbox", "size = 1"))
		}
		return inst(name, "[3]", "T", "block")
	}
	names := []string{"b", "a", "ab", "C", "b_1"}
	max := g.Pick(4, 5)
	for n := 2; n <= max; n++ {
		total := 1
		for range n {
			total *= 5
		}
		for code := range total {
			ks := make([]int, n)
			for i, c := 0, code; i < n; i, c = i+1, c/5 {
				ks[i] = c % 5
			}
			build := func(order []int) string {
				t := f("T", "block", f("m", "mask"))
				t.kind = "type"
				main, in := f("main", "bus"), f("sub", "block")
				for _, i := range order {
					main.items = append(main.items, item{n: kind(names[i], ks[i])})
					in.items = append(in.items, item{n: kind(names[i], ks[i])})
				}
				main.items = append(main.items, item{n: in})
				return render([]*node{main, t})
			}
			order := make([]int, n)
			for i := range order {
				order[i] = i
			}
			ref := &lib.Case{Src: build(order), Consts: true}
			var perm func(k int) bool
			perm = func(k int) bool {
				if k == n {
					o := append([]int{}, order...)
					return g.Emit(func() *lib.Case {
						return &lib.Case{Src: build(o), Consts: true, Meta: &model{what: fmt.Sprintf("blocks %v in order %v", ks, o), key: fmt.Sprintf("blocks %v", ks), ref: ref}}
					})
				}
				for i := k; i < n; i++ {
					order[k], order[i] = order[i], order[k]
					ok := perm(k + 1)
					order[k], order[i] = order[i], order[k]
					if !ok {
						return false
					}
				}
				return true
			}
			if !perm(0) {
				return
			}
		}
	}
}

// manyBlocks checks rotations, reversals and swaps of many blocks.
func manyBlocks(g *lib.Gen) {
	for _, n := range []int{12, 13, 20, 40} {
		for _, mod := range []int{1, 2, 3, n} {
			build := func(order []int) string {
				main := f("main", "bus")
				for _, i := range order {
					b := f(fmt.Sprintf("b%d", i), "block")
					for k := 0; k <= i%mod; k++ {
						b.items = append(b.items, item{n: f(fmt.Sprintf("c%d", k), "config")})
					}
					main.items = append(main.items, item{n: b})
				}
				return render([]*node{main})
			}
			id := make([]int, n)
			for i := range id {
				id[i] = i
			}
			ref := &lib.Case{Src: build(id)}
			for k := range n {
				for form := range 3 {
					o := make([]int, n)
					for i := range o {
						switch form {
						case 0:
							o[i] = (i + k) % n
						case 1:
							o[i] = (2*n - 1 - i - k) % n
						case 2:
							o[i] = i
						}
					}
					if form == 2 {
						o[k], o[n-1-k/2] = o[n-1-k/2], o[k]
					}
					if !g.Emit(func() *lib.Case {
						return &lib.Case{Src: build(o), Meta: &model{what: fmt.Sprintf("%d blocks in order %v", n, o), key: fmt.Sprintf("manyblocks %d %d", n, mod), ref: ref}}
					}) {
						return
					}
				}
			}
		}
	}
}

// illegal descriptions shall be illegal in any layout.
func illegal(g *lib.Gen) {
	for i, n := range [][]*node{
		{f("a", "config", "width = 3; range = 7")},
		{f("a", "config", "width = 3; atomic = false; width = 4")},
		{f("a", "config", "width = 3; init-value = 8")},
		{f("a", "config", "reset-value = x\"11\"; width = 4; init-value = 3")},
		{f("a", "irq", "enable-init-value = 1; clear = \"On Read\"")},
		{f("a", "irq", "enable-reset-value = 1; add-enable = false")},
		{f("a", "irq", "enable-init-value = 2; add-enable = true")},
		{f("a", "mask", "range = [1:2, 3:4]; width = 3")},
		{f("a", "mask", "add-enable = true; width = 3")},
		{f("a", "static", "width = 3; read-value = 1")},
		{f("a", "config"), f("a", "status")},
		{f("a", "config"), f("b", "block", f("c", "status"), f("c", "config"))},
		{f("p", "proc", f("q", "param", "width = 3"), f("q", "return"))},
		{f("p", "proc", f("q", "config", "width = 3"), f("r", "return"))},
		{f("p", "stream", f("q", "param", "width = 3"), f("r", "return"))},
		{f("p", "group", f("q", "config", "width = 3"), f("r", "proc"))},
		{f("p", "block", f("q", "bus", "width = 3"), f("r", "mask"))},
		{konst("A", "B + 1"), konst("B", "A"), f("a", "config", "width = A")},
		{konst("A", "1"), f("a", "config", "width = B")},
		{tdef("T", "(A)", "", "config", "config", "width = A"), inst("a", "", "T", "config"), inst("b", "", "T(3)", "status")},
		{tdef("T", "(A)", "", "config", "config", "width = A"), inst("a", "", "T(2)", "config", "width = 2")},
		{tdef("T", "", "", "block", "block", f("x", "config")), inst("a", "", "T", "block", f("x", "status"))},
		{f("x", "blackbox"), f("y", "block", "align = 4")},
	} {
		bus := f("main", "bus")
		for _, x := range n {
			bus.items = append(bus.items, item{n: x})
		}
		d := &desc{name: fmt.Sprintf("illegal %d", i), tree: []*node{bus}}
		emit := func(what string, src func() string) bool {
			return g.Emit(func() *lib.Case {
				return &lib.Case{Src: src(), Meta: &model{what: d.name + ": " + what, key: d.name, ref: d.ref(), bad: true}}
			})
		}
		lines := renderLines(d.tree)
		for _, e := range textual(lines, true) {
			t := newText(lines)
			e.apply(t)
			if t.legal() && !emit(e.what, t.String) {
				return
			}
		}
		for _, r := range structural(d.tree, "Zx") {
			if !emit(r.what, func() string { return render(r.tree) }) {
				return
			}
			for _, s := range structural(r.tree, "Zy") {
				if !emit(r.what+", then "+s.what, func() string { return render(s.tree) }) {
					return
				}
			}
		}
	}
}

// properties checks all orders and divisions of all properties.
func properties(g *lib.Gen) {
	for _, x := range []struct {
		base, props string
		bad         bool
	}{
		{"config", `width = 4; atomic = false; init-value = 3; read-value = x"f"; reset-value = 5`, false},
		{"config", `range = [1:3, 5:40]; atomic = true; init-value = 3; read-value = x"f"; reset-value = 5`, false},
		{"mask", `width = 40; atomic = false; init-value = -1; read-value = x"f"; reset-value = 5`, false},
		{"static", `width = 7; init-value = b"01X"; read-value = x"f"; reset-value = 5`, false},
		{"status", `width = 40; atomic = false; read-value = x"f"`, false},
		{"irq", `add-enable = true; clear = "On Read"; enable-init-value = 1; enable-reset-value = 0; in-trigger = "Edge"; out-trigger = "Level"`, false},
		{"irq", `add-enable = true; enable-reset-value = 0; enable-init-value = b"1"; clear = "Explicit"; in-trigger = "Level"`, false},
		{"block", `align = 8; masters = 3; reset = "Sync"`, false},
		{"bus", `align = 8; masters = 3; reset = "Async"; width = 16`, false},
		{"config", `width = 4; atomic = false; range = 3; init-value = 3; reset-value = 5`, true},
		{"config", `width = 4; atomic = false; init-value = 3; read-value = x"ff"; reset-value = 5`, true},
		{"mask", `width = 4; atomic = false; init-value = 3; read-value = 3; reset-value = 16`, true},
		{"static", `width = 7; read-value = x"f"; reset-value = 5`, true},
		{"irq", `add-enable = false; clear = "On Read"; enable-init-value = 1; in-trigger = "Edge"; out-trigger = "Level"`, true},
		{"irq", `clear = "On Read"; enable-reset-value = 1; in-trigger = "Edge"; out-trigger = "Level"`, true},
	} {
		ps := p(x.props)
		n := len(ps)
		build := func(parts [][]prop, one bool) string {
			l := []*node{}
			typ := x.base
			for i, part := range parts {
				k := &node{kind: "type", name: fmt.Sprintf("T%d", i), typ: typ, base: x.base, one: one}
				for _, q := range part {
					k.items = append(k.items, item{props: []prop{q}})
				}
				typ = k.name
				if i < len(parts)-1 {
					l = append(l, k)
					continue
				}
				k.kind, k.name = "inst", "a"
				switch x.base {
				case "bus":
					k.name = "main"
					k.items = append(k.items, item{n: f("c", "config", "width = 3")})
					l = append(l, k)
					continue
				case "block":
					k.items = append(k.items, item{n: f("c", "config", "width = 3")})
				}
				l = append(l, &node{kind: "inst", name: "main", typ: "bus", base: "bus", items: []item{{n: k}, {n: f("z", "config", "width = 9")}}})
			}
			return render(l)
		}
		ref := &lib.Case{Src: build([][]prop{ps}, false)}
		key := "properties " + x.base + " " + x.props
		emit := func(parts [][]prop, one bool) bool {
			return g.Emit(func() *lib.Case {
				return &lib.Case{Src: build(parts, one), Meta: &model{what: fmt.Sprintf("%s with %v, one line %v", x.base, parts, one), key: key, ref: ref, bad: x.bad}}
			})
		}
		var perm func(k int) bool
		perm = func(k int) bool {
			if k == n {
				c := append([]prop{}, ps...)
				for i := 0; i <= n; i++ {
					for _, one := range []bool{false, true} {
						if i > 0 && one && !g.Thorough {
							continue
						}
						if i == n {
							continue
						}
						parts := [][]prop{c}
						if i > 0 {
							parts = [][]prop{c[:i], c[i:]}
						}
						if !emit(parts, one) {
							return false
						}
						for j := i + 1; j < n && g.Thorough && i > 0; j++ {
							if !emit([][]prop{c[:i], c[i:j], c[j:]}, one) {
								return false
							}
						}
					}
				}
				return true
			}
			for i := k; i < n; i++ {
				ps[k], ps[i] = ps[i], ps[k]
				ok := perm(k + 1)
				ps[k], ps[i] = ps[i], ps[k]
				if !ok {
					return false
				}
			}
			return true
		}
		if !perm(0) {
			return
		}
	}
}
