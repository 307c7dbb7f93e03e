// Check C15: tokens are recognized exactly, independently of their neighbours.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// model of a whole description.
type model struct {
	what   string
	reject bool
	ints   map[string]int64
	floats map[string]float64
	strs   map[string]string
	lists  map[string][]int64
	check  func(o *lib.Outcome) string // Nil if the message is empty.
}

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m, ok := c.Meta.(*model)
	if !ok {
		if o.Kind != lib.OK {
			return []lib.Viol{{Sig: "api", Msg: fmt.Sprintf("%v: %s: %s", c.Meta, o.Kind, o.Msg)}}
		}
		if s, _ := o.Obs.(string); s != "" {
			return []lib.Viol{{Sig: "api", Msg: s}}
		}
		return nil
	}
	v := func(sig, f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: sig, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	if m.reject {
		if o.Kind == lib.Reject && o.Msg != "" {
			return nil
		}
		return v("accepted", "%s %s", o.Kind, o.Msg)
	}
	if o.Kind != lib.OK {
		return v("rejected", "%s: %s", o.Kind, o.Msg)
	}
	if c.Consts {
		p := o.Pkgs["main"]
		if p == nil {
			return v("missing", "no constants of package main")
		}
		for n, i := range m.ints {
			if g, ok := p.Consts.Ints[n]; !ok || g != i {
				return v("int", "%s is %d (%v), expected %d", n, g, ok, i)
			}
		}
		for n, i := range m.floats {
			if g, ok := p.Consts.Floats[n]; !ok || g != i {
				return v("float", "%s is %v (%v), expected %v", n, g, ok, i)
			}
		}
		for n, i := range m.strs {
			if g, ok := p.Consts.Strings[n]; !ok || g != i {
				return v("string", "%s is %q (%v), expected %q", n, g, ok, i)
			}
		}
		for n, i := range m.lists {
			if g, ok := p.Consts.IntLists[n]; !ok || fmt.Sprint(g) != fmt.Sprint(i) {
				return v("list", "%s is %v (%v), expected %v", n, g, ok, i)
			}
		}
	}
	if m.check != nil {
		if s := m.check(o); s != "" {
			return v("value", "%s", s)
		}
	}
	return nil
}

// Expressions.

// glue tells whether two lexemes can not be placed next to each other without white space.
func glue(a, b string) bool {
	w := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	return w(a[len(a)-1]) && (w(b[0]) || b[0] == '"') || a == "*" && b[0] == '*' || a == "<" && b[0] == '<' || a == ">" && b[0] == '>'
}

// spaced calls f for all combinations of white space between lexemes.
func spaced(l []string, wide bool, f func(s string)) {
	seps := []string{"", " "}
	if wide {
		seps = append(seps, "    ")
	}
	var rec func(i int, s string)
	rec = func(i int, s string) {
		s += l[i]
		if i == len(l)-1 {
			f(s)
			return
		}
		for _, p := range seps {
			if p == "" && glue(l[i], l[i+1]) {
				continue
			}
			rec(i+1, s+p)
		}
	}
	rec(0, "")
}

type operand struct {
	src string
	val int64
}

var operands = []operand{
	{"7", 7}, {"0", 0}, {"0x1F", 31}, {"0b11", 3}, {"0o17", 15}, {"0Xa", 10}, {"K", 2}, {"b", 5}, {"x1", 6}, {"e3", 4}, {"ns", 8}, {"init", 9}, {"p.Q", 11}, {"widths", 12},
}

const head = "import p \"p\"\nconst K = 2\nconst b = 5\nconst x1 = 6\nconst e3 = 4\nconst ns = 8\nconst init = 9\nconst widths = 12\n"

var pkgP = map[string]string{"fbd-p/a.fbd": "const Q = 11\n"}

func apply(op string, a, b int64) (int64, bool) {
	switch op {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "*":
		return a * b, true
	case "%":
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case "**":
		r := int64(1)
		for ; b > 0; b-- {
			if a != 0 && (r > math.MaxInt32 || r < -math.MaxInt32) {
				return 0, false
			}
			r *= a
		}
		return r, true
	case "<<":
		return a << uint(b), b >= 0 && b < 32 && a >= 0
	case ">>":
		return a >> uint(b), b >= 0 && a >= 0
	}
	panic(op)
}

func exprs(g *lib.Gen) {
	emit := func(lx []string, val int64, ends []string) {
		spaced(lx, len(lx) <= 3, func(s string) {
			for _, e := range ends {
				g.Emit(func() *lib.Case {
					return &lib.Case{
						Src: head + "const R = " + s + e, Files: pkgP, Consts: true, Edges: len(lx),
						Meta: &model{what: fmt.Sprintf("%q", s+e), ints: map[string]int64{"R": val}},
					}
				})
			}
		})
	}
	main := "\nmain bus\n"
	ends := []string{main, "# c" + main, " # c" + main, "\n" + main, "\n# c" + main}
	for _, a := range operands {
		emit([]string{a.src}, a.val, ends)
		emit([]string{"-", a.src}, -a.val, ends)
		emit([]string{"+", a.src}, a.val, ends)
		emit([]string{"(", a.src, ")"}, a.val, ends)
		emit([]string{"-", "(", "-", a.src, ")"}, a.val, ends[:2])
		for _, op := range []string{"+", "-", "*", "%", "**", "<<", ">>"} {
			for _, b := range operands {
				r, ok := apply(op, a.val, b.val)
				if !ok {
					continue
				}
				emit([]string{a.src, op, b.src}, r, ends[:2])
				if op == "-" || op == "+" || op == "*" {
					n, _ := apply(op, a.val, -b.val)
					emit([]string{a.src, op, "-", b.src}, n, ends[:1])
				}
				emit([]string{"(", a.src, op, b.src, ")"}, r, ends[:1])
				if !g.Thorough && b.val%2 == 0 {
					continue
				}
				for _, c := range operands {
					if r2, ok := apply("-", r, c.val); ok {
						emit([]string{a.src, op, b.src, "-", c.src}, r2, ends[:1])
					}
				}
			}
		}
	}
	// Lists.
	for _, a := range operands {
		for _, b := range operands {
			spaced([]string{"[", a.src, ",", b.src, "]"}, true, func(s string) {
				g.Emit(func() *lib.Case {
					return &lib.Case{
						Src: head + "const R = " + s + main, Files: pkgP, Consts: true, Edges: 5,
						Meta: &model{what: s, lists: map[string][]int64{"R": {a.val, b.val}}},
					}
				})
			})
		}
	}
}

// Literals.

func literals(g *lib.Gen) {
	one := func(src string, m *model) {
		m.what = fmt.Sprintf("%q", src)
		g.Emit(func() *lib.Case {
			return &lib.Case{Src: "const R = " + src + "\nmain bus\n", Consts: true, Meta: m}
		})
	}
	var rec func(chars, s string, n int, f func(string))
	rec = func(chars, s string, n int, f func(string)) {
		if s != "" {
			f(s)
		}
		if n == 0 {
			return
		}
		for i := 0; i < len(chars); i++ {
			rec(chars, s+chars[i:i+1], n-1, f)
		}
	}
	num := func(s string, base int) {
		v, err := strconv.ParseInt(s, base, 64)
		if err != nil {
			panic(err)
		}
		p := map[int][]string{2: {"0b", "0B"}, 8: {"0o", "0O"}, 10: {""}, 16: {"0x", "0X"}}
		for _, x := range p[base] {
			one(x+s, &model{ints: map[string]int64{"R": v}})
		}
	}
	rec("01", "", g.Pick(8, 12), func(s string) { num(s, 2) })
	rec("01234567", "", g.Pick(3, 4), func(s string) { num(s, 8) })
	rec("0123456789", "", g.Pick(3, 5), func(s string) {
		if s[0] != '0' || s == "0" {
			num(s, 10)
		}
	})
	rec("0123456789abcdefABCDEF", "", g.Pick(2, 3), func(s string) { num(s, 16) })
	for _, base := range []int{2, 8, 10, 16} {
		for k := 1; k <= 63; k++ {
			for d := int64(-1); d <= 1; d++ {
				v := int64(1)<<uint(k) + d
				if k == 63 {
					v = math.MaxInt64 + min(d, 0)
				}
				num(strconv.FormatInt(v, base), base)
			}
		}
	}
	for _, s := range []string{
		"9223372036854775808", "0x8000000000000000", "0b", "0o", "0x", "0X", "08", "0b2", "0b102", "0o8", "0o18", "0xg", "0x1g", "1a", "1_0", "0_1", "1.2.3", "1e2e3", "1e2.", "1e", "1e400",
		"a.1", "a._b", "a.", ".5", "1..2", "'a'", "`", "@", "$a", "a$", "?", "\\", "~1", "{1}", "1^2", "\x00", "é", "a\u00a0", "1\r", "\"a", "b\"2\"", "o\"8\"", "x\"g\"", "b\"1", "x\"1 2\"",
	} {
		one(s, &model{reject: true})
	}
	// Floats.
	for _, i := range []string{"0", "1", "12", "007", "999999999999999999999"} {
		for _, f := range []string{"", ".", ".0", ".5", ".25", ".000001", ".123456789012345678"} {
			for _, e := range []string{"", "e0", "E1", "e10", "e100", "E007"} {
				if f+e == "" {
					continue
				}
				v, err := strconv.ParseFloat(i+f+e, 64)
				if err != nil {
					panic(err)
				}
				one(i+f+e, &model{floats: map[string]float64{"R": v}})
			}
		}
	}
	// Strings.
	rec("a0 #;,=\n-\\'.(x", "", g.Pick(3, 4), func(s string) {
		one(`"`+s+`"`, &model{strs: map[string]string{"R": s}})
	})
	for c := 0x20; c < 0x180; c++ {
		if c == '"' {
			continue
		}
		s := "a" + string(rune(c)) + "b"
		one(`"`+s+`"`, &model{strs: map[string]string{"R": s}})
	}
	// Long literals.
	for _, n := range lib.Lengths(g.Pick(150, 300), g.Pick(1100, 70000)) {
		for _, p := range []string{"0x", "0b", "0o"} {
			one(p+strings.Repeat("0", n)+"1", &model{ints: map[string]int64{"R": 1}})
			one(p+"1"+strings.Repeat("0", n+64), &model{reject: true})
		}
		one("9"+strings.Repeat("0", n+18), &model{reject: true})
		s := strings.Repeat("abcdefghij", n/10+1)[:n]
		one(`"`+s+`"`, &model{strs: map[string]string{"R": s}})
		for _, f := range []string{"1." + strings.Repeat("2", n), "1." + strings.Repeat("0", n) + "3", strings.Repeat("0", n) + "7.5"} {
			v, err := strconv.ParseFloat(f, 64)
			if err != nil {
				panic(err)
			}
			one(f, &model{floats: map[string]float64{"R": v}})
		}
	}
	// Definitions after strings with line breaks.
	for _, s := range []string{"", "a", "\n", "\n\n", "a\nb", "\n  ", "\n#", "\n  const R = 7"} {
		g.Emit(func() *lib.Case {
			return &lib.Case{
				Src: "const S = \"" + s + "\"\nconst R = 1\nmain bus\n  const T = \"" + s + "\"\n  c config; width = 2\n", Consts: true,
				Meta: &model{what: fmt.Sprintf("string %q before", s), ints: map[string]int64{"R": 1}, strs: map[string]string{"S": s}, check: func(o *lib.Outcome) string {
					if o.Bus.Consts.Strings["T"] != s || len(o.Bus.Configs) != 1 || o.Bus.Configs[0].Width != 2 {
						return "wrong bus"
					}
					return ""
				}},
			}
		})
	}
	// Time literals.
	for _, u := range []struct {
		name string
		ns   int64
	}{{"ns", 1}, {"us", 1e3}, {"ms", 1e6}, {"s", 1e9}} {
		for _, n := range []operand{
			{"0", 0}, {"1", 1}, {"999", 999}, {"1000", 1000}, {"1001", 1001}, {"999999", 999999}, {"1000000", 1e6}, {"999999999", 999999999}, {"1000000000", 1e9}, {"1000000001", 1e9 + 1},
			{"9223372036854775807", math.MaxInt64}, {"9223372036855", 9223372036855}, {"9223372036854776", 9223372036854776},
			{"0x10", 16}, {"0b11", 3}, {"0o17", 15}, {"0XfF", 255},
		} {
			for _, sep := range []string{" ", "  ", "      "} {
				for _, end := range []string{"\n", " # c\n", "# c\n", ""} {
					g.Emit(func() *lib.Case {
						per := int64(1e9) / u.ns // Units in a second.
						s, ns := n.val/per, n.val%per*u.ns
						return &lib.Case{
							Src: "main bus\n  p proc; delay = " + n.src + sep + u.name + end,
							Meta: &model{what: n.src + sep + u.name + end, check: func(o *lib.Outcome) string {
								d := o.Bus.Procs[0].Delay
								if d == nil || d.S != s || d.Ns != ns {
									return fmt.Sprintf("delay is %+v, expected %d s, %d ns", d, s, ns)
								}
								return ""
							}},
						}
					})
				}
			}
		}
		for _, bad := range []string{"1" + u.name, "1.5 " + u.name, u.name, "1 " + u.name + u.name, "1 " + u.name + "1", "1 " + strings.ToUpper(u.name), "0x1" + u.name} {
			g.Emit(func() *lib.Case {
				return &lib.Case{Src: "main bus\n  p proc; delay = " + bad + "\n", Meta: &model{what: bad, reject: true}}
			})
		}
	}
}

// Names and keywords.

func names(g *lib.Gen) {
	ns := []string{"b", "B", "o", "O", "x", "X", "e", "E", "s", "ns", "us", "ms", "_", "_1", "a", "A9_", "x1", "b0", "e10", "truex", "falsey", "isfalse", "abs", "bool", "ceil"}
	for _, k := range append(append([]string{}, lib.Keywords...), lib.Functionalities...) {
		ns = append(ns, k+"1", k+"s", "_"+k, k+"_", strings.ToUpper(k[:1])+k[1:], "a"+k, k[:len(k)-1])
	}
	for _, p := range lib.Properties {
		p = strings.ReplaceAll(p, "-", "_")
		ns = append(ns, p+"1", p+"_", "_"+p, strings.ToUpper(p[:1])+p[1:], "a"+p)
		ns = append(ns, strings.Split(p, "_")...)
	}
	for _, n := range lib.Lengths(g.Pick(70, 140), g.Pick(1100, 70000)) {
		ns = append(ns, "L"+strings.Repeat("o", n)+"ng")
	}
	seen := map[string]bool{"A": true, "T": true, "main": true}
	uniq := []string{}
	for _, n := range ns {
		if seen[n] || lib.IsIn(lib.Keywords, n) || lib.IsIn(lib.Functionalities, n) || lib.IsIn(lib.Properties, n) || n == "true" || n == "false" {
			continue
		}
		seen[n] = true
		uniq = append(uniq, n)
	}
	find := func(o *lib.Outcome, name string, w int64) string {
		for _, c := range o.Bus.Configs {
			if c.Name == name {
				if c.Width != w {
					return fmt.Sprintf("width of %s is %d, expected %d", name, c.Width, w)
				}
				return ""
			}
		}
		return "no config " + name
	}
	for _, n := range uniq {
		forms := []struct {
			src []string
			chk func(o *lib.Outcome) string
		}{
			{[]string{"const ", n, "=", "5", "\nmain bus\n  c config", ";", "width", "=", n, "-", "1", "\n"}, func(o *lib.Outcome) string { return find(o, "c", 4) }},
			{[]string{"const ", n, "=", "5", "\nmain bus\n  c config", ";", "width", "=", "9", "-", n, "\n"}, func(o *lib.Outcome) string { return find(o, "c", 4) }},
			{[]string{"const A = 5\nmain bus\n  ", n, " config", ";", "width", "=", "A", "\n"}, func(o *lib.Outcome) string { return find(o, n, 5) }},
			{[]string{"type ", n, "(", "A", "=", "1", ")", " config", ";", "width", "=", "A", "\nmain bus\n  c ", n, "(", "3", ")\n"}, func(o *lib.Outcome) string { return find(o, "c", 3) }},
			{[]string{"type ", n, " config", ";", "width", "=", "6", "\nmain bus\n  c ", n, "\n"}, func(o *lib.Outcome) string { return find(o, "c", 6) }},
			{[]string{"type T(", n, "=", "3", ")", " config", ";", "width", "=", n, "\nmain bus\n  c T", "(", n, "=", "8", ")", "\n"}, func(o *lib.Outcome) string { return find(o, "c", 8) }},
			{[]string{"const ", n, "=", "2\nmain bus\n  c ", "[", n, "]", "config", ";", "width", "=", n, "*", n, "**", n, "\n"}, func(o *lib.Outcome) string { return find(o, "c", 8) }},
			{[]string{n, " bus\n  c config", ";", "width", "=", "7\n"}, func(o *lib.Outcome) string { return find(o, "c", 7) }},
			{[]string{"import ", n, " \"p\"\nmain bus\n  c config", ";", "width", "=", n + ".Q", "-", "1\n"}, func(o *lib.Outcome) string { return find(o, "c", 10) }},
			{[]string{"import p \"p\"\nmain bus\n  c config", ";", "width", "=", "p." + n, "-", "1\n"}, func(o *lib.Outcome) string { return find(o, "c", 12) }},
		}
		for fi, f := range forms {
			if strings.HasPrefix(n, "_") && fi == 9 {
				continue // Symbols of packages start with letters.
			}
			if (n == "bool" || n == "ceil" || n == "abs") && fi == 3 {
				continue
			}
			for _, sep := range []string{"", " ", "   "} {
				s := strings.Join(f.src, sep)
				// White space is not legal at the end of a line nor as an additional indentation.
				for strings.Contains(s, " \n") {
					s = strings.ReplaceAll(s, " \n", "\n")
				}
				s = strings.ReplaceAll(s, "\n"+sep+"main", "\nmain")
				for _, x := range []string{"\n" + "  " + sep + n} {
					s = strings.ReplaceAll(s, x, "\n  "+n)
				}
				bus := ""
				if fi == 7 {
					bus = n
					s = strings.TrimLeft(s, " ")
				}
				files := map[string]string(nil)
				if fi == 8 {
					files = pkgP
				}
				if fi == 9 {
					files = map[string]string{"fbd-p/a.fbd": "const " + n + " = 13\n"}
				}
				g.Emit(func() *lib.Case {
					return &lib.Case{Src: s, Files: files, Bus: bus, Edges: len(f.src), Meta: &model{what: fmt.Sprintf("name %s, form %d, separator %q", n, fi, sep), check: f.chk}}
				})
			}
		}
	}
	// Keywords of functionalities are legal names.
	for _, k := range lib.Functionalities {
		for _, end := range []string{"\n", "; width = 3\n", "\n    width = 3\n", "  # c\n", "# c\n", ""} {
			for _, before := range []string{"", "  s status\n", "  const A = 1\n", "  # c\n", "  b block\n    s status\n"} {
				g.Emit(func() *lib.Case {
					w := int64(32)
					if strings.Contains(end, "3") {
						w = 3
					}
					return &lib.Case{Src: "main bus\n" + before + "  " + k + " config" + end, Meta: &model{what: "name " + k, check: func(o *lib.Outcome) string { return find(o, k, w) }}}
				})
			}
		}
	}
}

// Properties next to everything.

func props(g *lib.Gen) {
	type pr struct {
		kind, name, val string
		field           string
		want            string
	}
	ps := []pr{
		{"config", "width", "5", "Width", "5"}, {"config", "init-value", "3", "InitValue", `"x\"00000003\""`}, {"config", "atomic", "false", "Atomic", "false"},
		{"config", "reset-value", "0x4", "ResetValue", `"x\"00000004\""`}, {"config", "read-value", "b\"1\"", "ReadValue", `"b\"1\""`}, {"config", "range", "0b111", "Range", `{"Start":0,"End":7}`},
		{"config", "range", "[1:2, 4:9]", "Range", `[{"Start":1,"End":2},{"Start":4,"End":9}]`},
		{"status", "read-value", "x\"F\"", "ReadValue", `"x\"F\""`}, {"mask", "init-value", "1", "InitValue", `"x\"00000001\""`},
		{"irq", "add-enable", "true", "AddEnable", "true"}, {"irq", "clear", "\"On Read\"", "Clear", `"On Read"`}, {"irq", "in-trigger", "\"Edge\"", "InTrigger", `"Edge"`}, {"irq", "out-trigger", "\"Edge\"", "OutTrigger", `"Edge"`},
		{"block", "masters", "2", "Masters", "2"}, {"block", "reset", "\"Sync\"", "Reset", `"Sync"`}, {"block", "align", "8", "Align", "8"},
		{"proc", "delay", "3 us", "Delay", `{"S":0,"Ns":3000}`}, {"blackbox", "size", "4", "Size", "4"}, {"group", "virtual", "true", "Virtual", "true"},
	}
	chk := func(p pr) func(o *lib.Outcome) string {
		return func(o *lib.Outcome) string {
			x, ok := lib.Find(o.Bus, p.kind, "c")
			if !ok {
				return "functionality is missing"
			}
			b, err := json.Marshal(x.FieldByName(p.field).Interface())
			if err != nil {
				return err.Error()
			}
			if p.name == "range" {
				b, _ = json.Marshal(x.FieldByName("Range").Interface())
			}
			if string(b) != p.want {
				return fmt.Sprintf("%s is %s, expected %s", p.field, b, p.want)
			}
			return ""
		}
	}
	sep := []string{"", " ", "   "}
	for _, p := range ps {
		inner := "    s status\n"
		if p.kind != "block" && p.kind != "group" {
			inner = ""
		}
		for _, a := range sep {
			for _, b := range sep {
				for _, c := range sep {
					for _, end := range []string{"\n", "# c\n", " # c\n", "\n\n", "\n# c\n", ""} {
						what := fmt.Sprintf("%s of %s, separators %q %q %q, end %q", p.name, p.kind, a, b, c, end)
						if inner == "" {
							g.Emit(func() *lib.Case {
								return &lib.Case{Src: "main bus\n  c " + p.kind + a + ";" + b + p.name + c + "=" + a + p.val + end, Edges: 4, Meta: &model{what: what, check: chk(p)}}
							})
						}
						if a != "" {
							continue
						}
						g.Emit(func() *lib.Case {
							e := end
							if e == "" && inner != "" {
								e = "\n"
							}
							e = strings.ReplaceAll(e, "\n#", "\n    #")
							return &lib.Case{Src: "main bus\n  c " + p.kind + "\n    " + p.name + b + "=" + c + p.val + e + inner, Edges: 4, Meta: &model{what: "body: " + what, check: chk(p)}}
						})
					}
				}
			}
		}
		for _, q := range ps {
			if p.kind != q.kind || p.name == q.name || inner != "" || p.kind == "blackbox" {
				continue
			}
			if (p.name == "range" && q.name == "width") || (q.name == "range" && p.name == "width") || strings.Contains(p.want+q.want, "x\\\"0000") {
				continue
			}
			for _, a := range sep {
				for _, b := range sep {
					for _, c := range sep {
						g.Emit(func() *lib.Case {
							return &lib.Case{
								Src: "main bus\n  c " + p.kind + "; " + p.name + a + "=" + b + p.val + c + ";" + a + q.name + b + "=" + c + q.val + "\n", Edges: 8,
								Meta: &model{what: fmt.Sprintf("%s, %s of %s, separators %q %q %q", p.name, q.name, p.kind, a, b, c), check: func(o *lib.Outcome) string {
									if s := chk(p)(o); s != "" {
										return s
									}
									return chk(q)(o)
								}},
							}
						})
					}
				}
			}
		}
	}
}

func gen(g *lib.Gen) {
	exprs(g)
	literals(g)
	names(g)
	props(g)
	apiCases(g)
}

func main() {
	lib.Main(&lib.Check{
		ID: "C15",
		Rule: "All strings up to 4 characters (5 in thorough) over 33 characters significant for the tokenizer, all bytes between all pairs of 85 lexemes, all sequences of 3 lexemes (4 in thorough) with all " +
			"amounts of white space, all layouts of up to 4 lines over indentations 0-7: kind, extent, line and column of every token, or place of the error, compared with a reference tokenizer. " +
			"Whole descriptions: all expressions of up to 3 operands with all white space combinations, all literals up to a length and around powers of two, strings, time literals, names similar to " +
			"keywords, properties and literals in 10 places, all properties with all neighbours.",
		Assume:   []string{"Names of tokens are those used in diagnostics.", "Decimal integers with leading zeros and hyphens directly after keywords have no defined meaning."},
		CLIEvery: 97,
		Gen:      gen,
		Eval:     eval,
	})
}
