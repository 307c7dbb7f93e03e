// Check C13: values are encoded exactly and bit strings mean the same everywhere.
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// value is either an integer or a bit string.
type value struct {
	bits string
	i    int64
	src  string
}

func in(i int64) value { return value{i: i, src: fmt.Sprint(i)} }
func bs(s string) value {
	return value{bits: s, src: s}
}

// digits is the number of bits of a single character.
func digits(s string) int64 {
	switch s[0] {
	case 'b', 'B':
		return 1
	case 'o', 'O':
		return 3
	}
	return 4
}

func (v value) fits(w int64) bool {
	if v.bits != "" {
		return int64(len(v.bits)-3)*digits(v.bits) <= w
	}
	b := big.NewInt(v.i)
	if v.i >= 0 {
		return int64(b.BitLen()) <= w
	}
	// Two's complement of width w starts from -2**(w-1).
	b.Add(b, big.NewInt(1)).Neg(b)
	return int64(b.BitLen()) <= w-1
}

// check compares the reported bit string with the value.
func (v value) check(got string, w int64) string {
	if v.bits != "" {
		want := strings.ToLower(v.bits[:1]) + v.bits[1:]
		if got != want {
			return fmt.Sprintf("%s reported, expected %s", got, want)
		}
		return ""
	}
	u, gw, err := lib.BitStrVal(got)
	if err != nil {
		return err.Error()
	}
	if w > 0 && int64(gw) != w {
		return fmt.Sprintf("%s reported, it has %d bits, expected %d", got, gw, w)
	}
	want := big.NewInt(v.i)
	if v.i < 0 {
		want.Add(want, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	if u.Cmp(want) != 0 {
		return fmt.Sprintf("%s reported for %d on %d bits, expected value %x", got, v.i, w, want)
	}
	return ""
}

type prop struct {
	name, field string
	v           value
}

var fields = map[string][][2]string{
	"config": {{"init-value", "InitValue"}, {"read-value", "ReadValue"}, {"reset-value", "ResetValue"}},
	"mask":   {{"init-value", "InitValue"}, {"read-value", "ReadValue"}, {"reset-value", "ResetValue"}},
	"static": {{"init-value", "InitValue"}, {"read-value", "ReadValue"}, {"reset-value", "ResetValue"}},
	"status": {{"read-value", "ReadValue"}},
	"irq":    {{"enable-init-value", "EnableInitValue"}, {"enable-reset-value", "EnableResetValue"}},
}

// Where width is set and how the values are given.
const (
	inst = iota
	typWidth
	typValue
	byRange
	dflt // Width of the bus.
	viaParam
	viaConst
	forms
)

type model struct {
	kind  string
	w     int64
	props []prop
	form  int
}

func (m *model) String() string {
	s := fmt.Sprintf("%s, width %d, form %d:", m.kind, m.w, m.form)
	for _, p := range m.props {
		s += fmt.Sprintf(" %s = %s;", p.name, p.v.src)
	}
	return s
}

func (m *model) mk() *lib.Case {
	c := &lib.Case{Meta: m, Edges: 1 + len(m.props)}
	x := &lib.Def{Name: "x", Typ: m.kind}
	t := &lib.Def{IsType: true, Name: "T", Typ: m.kind}
	main := &lib.Def{Name: "main", Typ: "bus", Subs: []*lib.Def{x}}
	bw := int64(32)
	if m.kind == "mask" || m.kind == "static" {
		bw = 160 // Wider ones are not implemented.
	}
	if m.form == dflt {
		bw = m.w
	}
	main.Props = []lib.PV{{Name: "width", Val: fmt.Sprint(bw)}}
	width := []lib.PV{{Name: "width", Val: fmt.Sprint(m.w)}}
	if m.form == byRange {
		width = []lib.PV{{Name: "range", Val: fmt.Sprint(int64(1)<<uint(m.w) - 1)}}
	}
	if m.form == dflt {
		width = nil
	}
	if m.kind == "irq" {
		width = []lib.PV{{Name: "add-enable", Val: "true"}}
	}
	vals := []lib.PV{}
	head := ""
	for i, p := range m.props {
		s := p.v.src
		switch m.form {
		case viaParam:
			t.Params = append(t.Params, fmt.Sprintf("V%d", i))
			x.Args = append(x.Args, s)
			s = fmt.Sprintf("V%d", i)
		case viaConst:
			head += fmt.Sprintf("const V%d = %s\n", i, s)
			s = fmt.Sprintf("V%d", i)
		}
		vals = append(vals, lib.PV{Name: p.name, Val: s})
	}
	switch m.form {
	case typWidth, byRange:
		x.Typ = "T"
		t.Props, x.Props = width, vals
	case typValue, viaParam:
		x.Typ = "T"
		t.Props, x.Props = vals, width
	default:
		x.Props = append(width, vals...)
	}
	if x.Typ == "T" {
		c.Src = head + lib.Render(t, main)
	} else {
		c.Src = head + lib.Render(main)
	}
	return c
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m, ok := c.Meta.(*model)
	if !ok {
		if o.Kind != lib.OK {
			return []lib.Viol{{Sig: "api", Msg: fmt.Sprintf("%v: %s: %s", c.Meta, o.Kind, o.Msg)}}
		}
		if s, _ := o.Obs.(string); s != "" {
			return []lib.Viol{{Sig: "api", Msg: s}}
		}
		return nil
	}
	why := ""
	for _, p := range m.props {
		if !p.v.fits(m.w) {
			why = p.name + " does not fit"
		}
	}
	if why != "" {
		if o.Kind == lib.Reject && o.Msg != "" {
			return nil
		}
		return []lib.Viol{{Sig: "accepted:" + m.kind, Msg: fmt.Sprintf("%v: %s, but %s %s", m, why, o.Kind, o.Msg)}}
	}
	if o.Kind != lib.OK {
		return []lib.Viol{{Sig: "rejected:" + m.kind, Msg: fmt.Sprintf("%v: %s: %s", m, o.Kind, o.Msg)}}
	}
	x, ok := lib.Find(o.Bus, m.kind, "x")
	if !ok {
		return []lib.Viol{{Sig: "missing:" + m.kind, Msg: fmt.Sprintf("%v: functionality is missing", m)}}
	}
	vs := []lib.Viol{}
	for _, f := range fields[m.kind] {
		got := x.FieldByName(f[1]).String()
		set := false
		for _, p := range m.props {
			if p.name == f[0] {
				set = true
				if s := p.v.check(got, m.w); s != "" {
					vs = append(vs, lib.Viol{Sig: "value:" + m.kind, Msg: fmt.Sprintf("%v: %s: %s", m, p.name, s)})
				}
			}
		}
		if !set && got != "" {
			vs = append(vs, lib.Viol{Sig: "unset:" + m.kind, Msg: fmt.Sprintf("%v: %s is not set, but %s is reported", m, f[0], got)})
		}
	}
	_ = reflect.Value{}
	return vs
}

// ints returns integers around limits of the width.
func ints(w int64, dense bool) []value {
	m := map[int64]bool{}
	r := []value{}
	add := func(i int64) {
		if !m[i] {
			m[i] = true
			r = append(r, in(i))
		}
	}
	if dense {
		for i := -(int64(1)<<uint(w) + 2); i <= int64(1)<<uint(w)+2; i++ {
			add(i)
		}
		return r
	}
	for _, b := range []int64{0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 62, w - 3, w - 2, w - 1, w, w + 1} {
		if b < 0 || b > 62 {
			continue
		}
		for d := int64(-2); d <= 2; d++ {
			if b == 62 && d > 0 && b != w {
				continue
			}
			add(int64(1)<<uint(b) + d)
			add(-(int64(1) << uint(b)) + d)
		}
	}
	add(math.MaxInt64)
	add(math.MaxInt64 - 1)
	add(-math.MaxInt64)
	add(0x123456789abcdef)
	add(-0x123456789abcdef)
	return r
}

var alphabets = []struct{ prefixes, chars string }{
	{"bB", "01-uUwWxXzZ"},
	{"oO", "01234567-uUwWxXzZ"},
	{"xX", "0123456789abcdefABCDEF-uUwWxXzZ"},
}

// strs enumerates all strings over the alphabet up to the length.
func strs(chars string, from, max int, f func(s string)) {
	var rec func(s string)
	rec = func(s string) {
		if len(s) >= from {
			f(s)
		}
		if len(s) == max {
			return
		}
		for _, c := range chars {
			rec(s + string(c))
		}
	}
	rec("")
}

func gen(g *lib.Gen) {
	kinds := []string{"config", "mask", "static", "status", "irq"}
	emit := func(kind string, w int64, form int, vs ...value) {
		if kind == "irq" && (form == byRange || form == dflt) || kind != "config" && form == byRange || form == byRange && (w > 62 || w == 0) || form == dflt && w == 0 {
			return
		}
		g.Emit(func() *lib.Case {
			m := &model{kind: kind, w: w, form: form}
			for i, f := range fields[kind] {
				if i < len(vs) {
					m.props = append(m.props, prop{f[0], f[1], vs[i]})
				}
			}
			if kind == "irq" {
				m.w = 1
			}
			return m.mk()
		})
	}
	max := int64(g.Pick(100, 160))
	for _, k := range kinds {
		for w := int64(0); w <= max; w++ {
			if k == "irq" && w != 1 {
				continue
			}
			vs := ints(w, false)
			if w <= int64(g.Pick(8, 12)) {
				vs = append(vs, ints(w, true)...)
			}
			for form := 0; form < forms; form++ {
				for i, v := range vs {
					// Three values at once, each is different.
					emit(k, w, form, v)
					if k != "status" && form < 3 {
						n := len(vs)
						emit(k, w, form, v, vs[(i+1)%n])
						if k != "irq" {
							emit(k, w, form, v, vs[(i+5)%n], vs[(i+2)%n])
						}
					}
				}
			}
		}
	}
	// Bit strings.
	for _, a := range alphabets {
		lens := g.Pick(3, 4)
		if a.prefixes == "xX" {
			lens = g.Pick(2, 3)
		}
		strs(a.chars, 1, lens, func(s string) {
			for pi, p := range a.prefixes {
				if pi > 0 && len(s) > 2 {
					continue
				}
				b := string(p) + `"` + s + `"`
				n := digits(b) * int64(len(s))
				for _, k := range kinds {
					if len(s) > 2 && (k == "mask" || k == "irq") {
						continue
					}
					for _, w := range []int64{n - 1, n, n + 1, n + 3} {
						if len(s) > 2 && w > n {
							continue
						}
						emit(k, w, inst, bs(b))
						if w == n {
							emit(k, w, typValue, bs(b), in(0), bs(b))
							emit(k, w, typWidth, in(1), bs(b), in(0))
							emit(k, w, viaParam, bs(b))
							emit(k, w, dflt, bs(b))
						}
					}
				}
			}
		})
		// Long ones, with a single distinguished digit.
		ch := a.chars
		for n := 1; n <= g.Pick(34, 70); n++ {
			for pos := 0; pos < n; pos++ {
				for _, x := range []byte{'1', ch[len(ch)-1], '7', 'F'} {
					if strings.IndexByte(ch, x) < 0 {
						continue
					}
					s := strings.Repeat("0", pos) + string(x) + strings.Repeat("0", n-1-pos)
					b := ch[0:0] + a.prefixes[:1] + `"` + s + `"`
					w := digits(b) * int64(n)
					if w > 150 {
						continue
					}
					for _, k := range []string{"config", "static", "status"} {
						emit(k, w, inst, bs(b))
						emit(k, w-1, inst, bs(b))
						emit(k, w+1, typWidth, bs(b))
					}
				}
			}
		}
	}
	// Very wide ones.
	for _, n := range lib.Lengths(0, g.Pick(4200, 70000)) {
		w := int64(n)
		if w <= max {
			continue
		}
		for _, k := range kinds {
			if k == "irq" {
				continue
			}
			vs := ints(w, false)
			for i, v := range vs {
				emit(k, w, inst, v, vs[(i+1)%len(vs)], vs[(i+5)%len(vs)])
				emit(k, w, typWidth, v)
				emit(k, w+int64(i%3), viaParam, v)
			}
		}
	}
	for _, n := range lib.Lengths(g.Pick(160, 300), g.Pick(4200, 70000)) {
		if n <= 34 {
			continue
		}
		for _, a := range alphabets {
			ch := a.chars
			for _, pos := range []int{0, 1, n / 2, n - 2, n - 1} {
				for _, fill := range []string{"0", ch[1:2], ch[len(ch)-1:]} {
					for _, x := range []string{"1", "0", "-", ch[len(ch)-3 : len(ch)-2]} {
						b := a.prefixes[:1] + `"` + strings.Repeat(fill, pos) + x + strings.Repeat(fill, n-1-pos) + `"`
						w := digits(b) * int64(n)
						for _, k := range []string{"config", "static", "status"} {
							emit(k, w, inst, bs(b))
							emit(k, w-1, inst, bs(b))
							emit(k, w+2, typWidth, bs(b))
						}
					}
				}
			}
		}
	}
	apiCases(g)
}

func main() {
	lib.Main(&lib.Check{
		ID: "C13",
		Rule: "all kinds of functionalities with values, all widths up to the bound, integers around all limits (all integers for small widths), one, two or three different values at once, width and value set in 7 ways; " +
			"all bit strings of each base up to the length over all legal characters with widths around their own; all calls of bit string methods over all bit strings up to a length; one case is one compilation or one group of method calls",
		CLIEvery: 199,
		Gen:      gen,
		Eval:     eval,
	})
}
