// Check C19: documentation comments are attached to the right functionality.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// A source is a list of lines. Line with an instantiation has the name after '@'.
// The path of the instantiation follows from the indentation.

type model struct {
	what string
	want map[string]string // Path -> documentation.
	gone []string          // Documentation which shall not be found anywhere.
}

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	sig, _, _ := strings.Cut(m.what, ":")
	v := func(s, f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: sig + ":" + s, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	if o.Kind != lib.OK {
		return v("rejected", "%s %s", o.Kind, o.Msg)
	}
	got := map[string]string{}
	walk(reflect.ValueOf(o.Bus).Elem(), "", got)
	delete(got, "main/ID")
	keys := []string{}
	for k := range m.want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := m.want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, ok := got[k]
		w, exp := m.want[k]
		switch {
		case !exp:
			return v("unexpected", "%s is reported", k)
		case !ok:
			return v("missing", "%s is not reported", k)
		case g != w:
			return v("doc", "documentation of %s is %q, expected %q", k, g, w)
		}
	}
	return nil
}

// walk collects documentation of all functionalities.
func walk(v reflect.Value, path string, got map[string]string) {
	p := path + v.FieldByName("Name").String()
	got[p] = v.FieldByName("Doc").String()
	for i := range v.NumField() {
		f := v.Field(i)
		if f.Kind() != reflect.Slice {
			continue
		}
		for j := range f.Len() {
			e := f.Index(j)
			if e.Kind() == reflect.Pointer {
				e = e.Elem()
			}
			if e.Kind() == reflect.Struct && e.FieldByName("Doc").IsValid() {
				walk(e, p+"/", got)
			}
		}
	}
}

func isComment(l string) bool { return strings.HasPrefix(strings.TrimLeft(l, " "), "#") }
func indent(l string) int     { return len(l) - len(strings.TrimLeft(l, " ")) }

// docOf returns documentation of the element in line i.
func docOf(lines []string, i int) string {
	j := i
	for j > 0 && isComment(lines[j-1]) && indent(lines[j-1]) == indent(lines[i]) {
		j--
	}
	r := []string{}
	for _, l := range lines[j:i] {
		r = append(r, strings.TrimPrefix(strings.TrimLeft(l, " ")[1:], " "))
	}
	return strings.Join(r, "\n")
}

// body returns documentation of instantiations of lines from a definition.
// Element marked with '@' is an instantiation, '!' starts a definition which is not reported.
func scan(lines []string, want map[string]string, prefix string, base int) []string {
	clean := make([]string, len(lines))
	mark := make([]byte, len(lines))
	for i, l := range lines {
		t := strings.TrimLeft(l, " ")
		clean[i] = l
		if t != "" && (t[0] == '@' || t[0] == '!') {
			mark[i] = t[0]
			clean[i] = l[:len(l)-len(t)] + t[1:]
		}
	}
	type open struct {
		ind  int
		name string
		skip bool
	}
	st := []open{}
	for i, l := range clean {
		if mark[i] == 0 {
			continue
		}
		ind := indent(l)
		for len(st) > 0 && st[len(st)-1].ind >= ind {
			st = st[:len(st)-1]
		}
		o := open{ind: ind, skip: mark[i] == '!' || len(st) > 0 && st[len(st)-1].skip}
		o.name, _, _ = strings.Cut(strings.TrimLeft(l, " "), " ")
		st = append(st, o)
		if o.skip || want == nil {
			continue
		}
		names := []string{}
		for _, s := range st {
			names = append(names, s.name)
		}
		want[prefix+strings.Join(names, "/")] = docOf(clean, i)
	}
	return clean
}

func mk(what string, lines []string, final bool) *lib.Case {
	m := &model{what: what, want: map[string]string{}}
	clean := scan(lines, m.want, "", 0)
	s := strings.Join(clean, "\n")
	if final {
		s += "\n"
	}
	return &lib.Case{Src: s, Meta: m}
}

func main() {
	lib.Main(&lib.Check{
		ID:       "C19",
		Rule:     "all sequences of lines of comments, blank lines and elements of 14 kinds up to a length in 4 contexts; all texts of comments up to a length; all kinds of functionalities in all parents with documentation in all forms; documentation in types, packages and files; many, deep and far elements with one documented otherwise than the others",
		Assume:   []string{"comments have the indentation of an adjacent line"},
		CLIEvery: 2000,
		Gen: func(g *lib.Gen) {
			for _, f := range []func(*lib.Gen){kinds, types, texts, large, top, body} {
				if f(g); g.Stopped() {
					return
				}
			}
		},
		Eval: eval,
	})
}

// unit returns lines of an element number n.
type unit func(n int) []string

func fixed(l ...string) unit { return func(int) []string { return l } }
func num(l ...string) unit {
	return func(n int) []string {
		r := make([]string, len(l))
		for i, s := range l {
			r[i] = strings.ReplaceAll(s, "%", fmt.Sprint(n))
		}
		return r
	}
}

// inner are elements legal in bodies of blocks.
var inner = []unit{
	fixed("#"), fixed("# x"), fixed("#y z"), fixed(""),
	num("@a% config"),
	num("@b% [2]status # trailing"),
	num("@c% block", "  @d config"),
	num("@e% block", "  # in %", "  @f mask; width = 3", "  # deep"),
	num("@m% irq", "  # about the property", `  clear = "On Read"`, "  # deep"),
	num("const C% = 1"),
	num("const", "  # first", "  C% = 1", "  # second", "  D% = 2 # trailing"),
	num("!T% config"),
	num("!U% block", "  # q", "  @m config", "  # deep"),
}

// outer are elements legal at the top level.
var outer = []unit{
	fixed("#"), fixed("# x"), fixed("#y z"), fixed(""),
	num("const C% = 1"),
	num("const", "  # first", "  C% = 1", "", "  # second", "  D% = 2 # trailing", "  # deep"),
	num("!T% config"),
	num("!U% block # trailing", "  # q", "  @m config", "  # deep"),
	num(`import l% "lib"`),
	num("import", "  # first", `  l% "lib"`, "  # second", `  k% "lib"`, "  # deep"),
}

func typed(l []string) []string {
	r := append([]string{}, l...)
	for i, s := range r {
		r[i] = strings.Replace(s, "!", "!type ", 1)
	}
	return r
}

func shift(by int, l []string) []string {
	r := make([]string, len(l))
	for i, s := range l {
		if s != "" {
			s = strings.Repeat("  ", by) + s
		}
		r[i] = s
	}
	return r
}

// sequences calls fn for all sequences of units of length from 0 to n.
func sequences(units []unit, n int, fn func(lines []string) bool) bool {
	var rec func(k int, cur []string) bool
	rec = func(k int, cur []string) bool {
		if !fn(cur) {
			return false
		}
		if k == n {
			return true
		}
		for _, u := range units {
			if !rec(k+1, append(cur[:len(cur):len(cur)], typed(u(k))...)) {
				return false
			}
		}
		return true
	}
	return rec(0, nil)
}

// body enumerates elements of bodies.
func body(g *lib.Gen) {
	n := g.Pick(5, 6)
	for ci, ctx := range [][2][]string{
		{{"@main bus"}, nil},
		{{"@main bus", "  @blk block"}, {"  @last config"}},
		{{"@main bus", "  @first config", "  # own", "  @blk [2]block", "    masters = 2"}, {"", "  @last config", "  # end"}},
	} {
		d := n
		if ci > 0 {
			d--
		}
		by := indent(ctx[0][len(ctx[0])-1]) / 2
		if !strings.Contains(ctx[0][len(ctx[0])-1], "masters") {
			by++
		}
		if !sequences(inner, d, func(lines []string) bool {
			return g.Emit(func() *lib.Case {
				l := append(append(append([]string{}, ctx[0]...), shift(by, lines)...), ctx[1]...)
				return mk(fmt.Sprintf("body %d: sequence", ci), l, true)
			})
		}) {
			return
		}
	}
}

// top enumerates elements of files with the main bus in the middle.
func top(g *lib.Gen) {
	n := g.Pick(4, 5)
	files := map[string]string{"fbd-lib/a.fbd": "# none\nconst A = 1\n"}
	mains := [][]string{{"@main bus # trailing"}, {"@main bus", "  # in", "  @c config", "  # deep"}, {"@main bus; width = 8"}}
	sequences(outer, n, func(pre []string) bool {
		for mi, m := range mains {
			for pi, post := range [][]string{nil, {"# after"}, {"", "# after", "const Z = 1"}} {
				for _, final := range []bool{true, false} {
					if !final && mi > 0 && !g.Thorough {
						continue
					}
					if !g.Emit(func() *lib.Case {
						l := append(append(append([]string{}, pre...), m...), post...)
						c := mk(fmt.Sprintf("top %d %d: sequence", mi, pi), l, final)
						c.Files = files
						return c
					}) {
						return false
					}
				}
			}
		}
		return true
	})
}

// texts enumerates texts of comments.
func texts(g *lib.Gen) {
	chars := []string{"#", " ", "x", `"`, `\`, ";", "\t", "é", "<", "'", "=", "\\n", "[", "€"}
	var all []string
	level := []string{""}
	for range g.Pick(3, 4) {
		next := []string{}
		for _, s := range level {
			for _, c := range chars {
				next = append(next, s+c)
			}
		}
		all = append(all, level...)
		level = next
	}
	pairs := len(all)
	all = append(all, level...)
	for i := 1; i <= 200; i++ {
		all = append(all, strings.Repeat(" ", i), strings.Repeat("x", i), strings.Repeat("#", i), strings.Repeat("é", i))
	}
	all = append(all, strings.Repeat("long line ", 20000))
	for _, s := range []string{"main", "const A = 1", "a config", "type T config", "import \"x\"", "; width = 3", "true", "0x", "\x7f", "0b", "\"a", "TODO: x", "\x01"} {
		all = append(all, s, " "+s, "  "+s)
	}
	for _, t := range all {
		if !g.Emit(func() *lib.Case {
			return mk("text: single", []string{"#" + t, "@main bus", "  #" + t, "  @c config", "  @d config #" + t, "  @e config", "  # x", "  #" + t, "  # y", "  @f block", "    @g config"}, true)
		}) {
			return
		}
	}
	// Two lines.
	small := all[:min(pairs, 1+14+14*14)]
	for _, a := range small {
		for _, b := range small {
			if !g.Emit(func() *lib.Case {
				return mk("text: pair", []string{"#" + a, "#" + b, "@main bus", "  @d config", "  #" + a, "", "  #" + b, "  @e config", "  #" + a, "  #" + b, "  @f config; width = 3"}, true)
			}) {
				return
			}
		}
	}
	// Many lines.
	for n := 1; n <= 300; n++ {
		if !g.Emit(func() *lib.Case {
			l := []string{"@main bus", "  @c config"}
			for i := range n {
				l = append(l, fmt.Sprintf("  # line %d", i))
			}
			return mk("text: many", append(l, "  @d config"), true)
		}) {
			return
		}
	}
}

// large descriptions: many, deep or far elements, one of them documented otherwise than the others.
func large(g *lib.Gen) {
	ks := []string{"config", "status; width = 3", "irq", "mask", "block", "static; init-value = 1", "proc", "stream", "group", "blackbox; size = 2"}
	for _, n := range lib.Lengths(g.Pick(24, 40), g.Pick(300, 1100)) {
		at := []int{0, 1, n / 2, n - 2, n - 1}
		if n <= 24 {
			at = at[:0]
			for i := range n {
				at = append(at, i)
			}
		}
		for _, pos := range at {
			if pos < 0 || pos >= n {
				continue
			}
			for fi, f := range forms {
				for _, rest := range []int{0, 1, 2} {
					if n > 24 && (fi+rest)%3 != 0 {
						continue
					}
					form := func(i int) []string {
						if i == pos {
							return f
						}
						return [][]string{nil, {fmt.Sprintf("# number %d", i)}, {fmt.Sprintf("# number %d", i), "#", "# more"}}[rest]
					}
					if !g.Emit(func() *lib.Case { // Siblings.
						l := []string{"@main bus"}
						for i := range n {
							k := ks[(i+fi)%len(ks)]
							l = append(l, shift(1, form(i))...)
							l = append(l, fmt.Sprintf("  @f%d %s", i, k))
							if k == "group" {
								l = append(l, "    # inner", "    @x config", "    @y config")
							}
						}
						return mk("large: siblings", l, true)
					}) {
						return
					}
					if n <= 40 && !g.Emit(func() *lib.Case { // Nested blocks, with functionalities before and after the inner block.
						l := []string{"@main bus"}
						for i := range n {
							l = append(l, shift(i+1, []string{"@a config"})...)
							l = append(l, shift(i+1, form(i))...)
							l = append(l, shift(i+1, []string{"@b block"})...)
						}
						for i := n; i > 0; i-- {
							if i < n {
								l = append(l, shift(i+1, form(n-1-i))...)
							}
							l = append(l, shift(i+1, []string{"@c status # trailing"})...)
						}
						return mk("large: nested", l, true)
					}) {
						return
					}
				}
				// Far from the beginning of the file, and after long lines.
				for _, far := range [][]string{{""}, {"# c"}, {"const ", "# c"}, {"# " + strings.Repeat("long ", 30)}, {"type "}} {
					if pos != n-1 {
						break
					}
					if !g.Emit(func() *lib.Case {
						l := []string{}
						for i := range n {
							x := far[i%len(far)]
							if x == "const " {
								x = fmt.Sprintf("const C%d = %d", i, i)
							}
							if x == "type " {
								x = fmt.Sprintf("!type T%d config", i)
							}
							l = append(l, x)
						}
						l = append(l, f...)
						l = append(l, "@main bus")
						l = append(l, shift(1, f)...)
						l = append(l, "  @c config")
						return mk("large: far", append(l, "", "  # last", "  @d config"), true)
					}) {
						return
					}
				}
			}
		}
	}
}

// forms of what precedes an element, at its indentation.
var forms = [][]string{
	nil, {"# one"}, {"# one", "# two", "#three"}, {"# lost", ""}, {"# lost", "", "# kept"}, {"", "# kept"}, {"#", "# after empty", "#"}, {""}, {"# lost", "# lost too", "", "", "# kept", "#kept too"},
}

// kinds enumerates all functionalities in all parents.
func kinds(g *lib.Gen) {
	inBlock := []string{"blackbox; size = 2", "block", "config", "group", "irq", "mask", "proc", "static; init-value = 1", "status", "stream"}
	parents := map[string][]string{
		"bus": inBlock, "block": inBlock,
		"proc": {"param", "return"}, "stream": {"param"}, "stream ": {"return"}, "group": {"config", "status", "mask", "static; init-value = 1"}, "group ": {"irq"},
	}
	names := []string{}
	for n := range parents {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, p := range names {
		var pre []string
		by := 2
		switch p {
		case "bus":
			pre, by = []string{"# of main", "@main bus"}, 1
		default:
			pre = []string{"@main bus", "  # of p", "  @p " + strings.TrimRight(p, " ")}
		}
		for _, k1 := range parents[p] {
			for _, k2 := range parents[p] {
				for _, f1 := range forms {
					for _, f2 := range forms {
						for tail := range 3 {
							if !g.Emit(func() *lib.Case {
								el := func(name, kind string, form []string) []string {
									l := append([]string{}, form...)
									if kind == "group" {
										return append(l, "@"+name+" group", "  # inner", "  @x config", "  @y config")
									}
									return append(l, "@"+name+" "+kind)
								}
								l := append([]string{}, pre...)
								l = append(l, shift(by, el("a", k1, f1))...)
								l = append(l, shift(by, el("b", k2, f2))...)
								switch {
								case tail == 1:
									l = append(l, shift(by, []string{"# the last"})...)
								case tail == 2:
									l = append(l, shift(by, []string{"# the last"})...)
									if p != "bus" {
										l = append(l, "  @z config")
									}
								}
								return mk("kinds: "+p+" with "+k1+" and "+k2, l, tail != 1)
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// types: documentation comes from instantiations, wherever they are.
func types(g *lib.Gen) {
	for ti, tf := range forms { // Before the type.
		for mi, mf := range forms { // Before the instantiation within the type.
			for ii, inf := range forms { // Before the instantiation of the type.
				for place := range 6 {
					for args := range 2 {
						if !g.Emit(func() *lib.Case {
							what := fmt.Sprintf("types: forms %d %d %d, place %d, args %d", ti, mi, ii, place, args)
							par, arg, w := "", "", ""
							if args == 1 {
								par, arg, w = "(W = 4)", "(3)", "; width = W"
							}
							def := append([]string{}, tf...)
							def = append(def, "type T"+par+" block # trailing")
							inn := shift(1, append(append([]string{}, mf...), "@x config"+w, "# of y", "@y mask"))
							def = append(def, inn...)
							// Documentation of inner ones.
							in := map[string]string{}
							scan(shift(1, append([]string{"@T block"}, inn...)), in, "", 0)
							user := shift(1, append(append([]string{}, inf...), "@a T"+arg, "# of b", "@b [3]T"+arg, "@c T"))
							m := &model{what: what, want: map[string]string{}}
							l := []string{}
							var fs map[string]string
							join := func(l []string) string { return strings.Join(scan(l, nil, "", 0), "\n") + "\n" }
							inner := def
							switch place {
							case 0:
								l = append(append(l, def...), "@main bus")
								l = append(l, user...)
							case 1:
								l = append(append(append(l, "@main bus"), user...), def...)
							case 2:
								l = append(append(append(l, "@main bus"), shift(1, def)...), user...)
							case 3, 4, 5:
								lib := join(inner)
								switch place {
								case 3:
									fs = map[string]string{"fbd-lib/x.fbd": lib}
								case 4:
									fs = map[string]string{"fbd-lib/x.fbd": lib, "fbd-lib/y.fbd": "# another file\n# with some text\n" + strings.Repeat("const Q = 1\n", 1), "fbd-lib/a.fbd": "const R = 2\n"}
								case 5:
									fs = map[string]string{"fbd-lib/x.fbd": "# front\n# another\n\nconst Q = 1 # trailing\n\n" + lib, "fbd-oth/x.fbd": lib}
								}
								l = append(l, "import \"lib\"", "@main bus")
								for _, s := range user {
									l = append(l, strings.Replace(s, "T", "lib.T", 1))
								}
								if place == 5 {
									l = append([]string{"import \"oth\""}, l...)
									l = append(l, "  # of o", "  @o oth.T"+arg)
								}
							}
							clean := scan(l, m.want, "", 0)
							if place < 3 {
								// Instantiations within the type are not reported at their own path.
								for k := range m.want {
									if k == "x" || k == "y" || k == "main/x" || k == "main/y" || strings.HasSuffix(k, "/x") || strings.HasSuffix(k, "/y") {
										delete(m.want, k)
									}
								}
							}
							for _, n := range []string{"a", "b", "c", "o"} {
								if n == "o" && place != 5 {
									continue
								}
								m.want["main/"+n+"/x"] = in["T/x"]
								m.want["main/"+n+"/y"] = in["T/y"]
							}
							return &lib.Case{Src: strings.Join(clean, "\n") + "\n", Files: fs, Meta: m}
						}) {
							return
						}
					}
				}
			}
		}
	}
}
