// Check C14: width implied by range is the minimal one.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type pair struct{ l, r int64 }

// rng is a value of the range property: upper bound, single pair or list of pairs.
type rng struct {
	up    int64
	pairs []pair
	list  bool
}

func (r rng) max() int64 {
	m := r.up
	for _, p := range r.pairs {
		m = max(m, p.r)
	}
	return m
}

func (r rng) width() int64 { return int64(bits.Len64(uint64(r.max()))) }

func (r rng) legal() bool {
	if r.up < 0 || (r.list && len(r.pairs) == 0) {
		return false
	}
	for _, p := range r.pairs {
		if p.l < 0 || p.r < p.l {
			return false
		}
	}
	return true
}

func (r rng) src(pre string, num func(int64) string) string {
	if r.pairs == nil && !r.list {
		return num(r.up)
	}
	s := []string{}
	for _, p := range r.pairs {
		s = append(s, num(p.l)+pre+num(p.r))
	}
	if r.list {
		return "[" + strings.Join(s, ", ") + "]"
	}
	return s[0]
}

func (r rng) json() any {
	one := func(p pair) any { return map[string]any{"Start": num(p.l), "End": num(p.r)} }
	if r.list {
		l := []any{}
		for _, p := range r.pairs {
			l = append(l, one(p))
		}
		return l
	}
	if r.pairs != nil {
		return one(r.pairs[0])
	}
	return one(pair{0, r.up})
}

func num(i int64) json.Number { return json.Number(fmt.Sprint(i)) }

const (
	plain = iota
	body
	inType
	inNestedType
	viaParam
	viaConst
	viaBoundParams
	viaExpr
	array
	hex
	group
	forms
)

type model struct {
	kind string // config, param in a proc or in a stream.
	r    rng
	form int
}

func (m *model) String() string {
	return fmt.Sprintf("%s, range %s, form %d", m.kind, m.r.src(":", func(i int64) string { return fmt.Sprint(i) }), m.form)
}

func (m *model) mk() *lib.Case {
	c := &lib.Case{Meta: m, Edges: 1 + len(m.r.pairs)}
	base := strings.TrimSuffix(strings.TrimSuffix(m.kind, "@proc"), "@stream")
	x := &lib.Def{Name: "x", Typ: base}
	dec := func(i int64) string { return fmt.Sprint(i) }
	src := m.r.src(":", dec)
	pv := func(s string) []lib.PV { return []lib.PV{{Name: "range", Val: s}} }
	defs := []*lib.Def{}
	head := ""
	switch m.form {
	case plain:
		x.Props = pv(src)
	case body:
		x.Props, x.Body = pv(src), true
	case inType:
		x.Typ = "T"
		defs = append(defs, &lib.Def{IsType: true, Name: "T", Typ: base, Props: pv(src)})
	case inNestedType:
		x.Typ = "T"
		defs = append(defs, &lib.Def{IsType: true, Name: "T", Typ: "S"}, &lib.Def{IsType: true, Name: "S", Typ: base, Props: pv(src)})
	case viaParam:
		// Only integers may be arguments.
		x.Typ, x.Args = "T", []string{src}
		defs = append(defs, &lib.Def{IsType: true, Name: "T", Typ: base, Params: []string{"R"}, Props: pv("R")})
	case viaConst:
		head = "const R = " + src + "\n"
		x.Props = pv("R")
	case viaBoundParams:
		x.Typ = "T"
		t := &lib.Def{IsType: true, Name: "T", Typ: base}
		s := m.r.src(":", func(i int64) string {
			n := fmt.Sprintf("P%d", len(t.Params))
			t.Params = append(t.Params, n)
			x.Args = append(x.Args, dec(i))
			return n
		})
		t.Props = pv(s)
		defs = append(defs, t)
	case viaExpr:
		x.Props = pv(m.r.src(" : ", func(i int64) string {
			if i == math.MinInt64 {
				return dec(i)
			}
			return fmt.Sprintf("%d + %d", i-i/2, i/2)
		}))
	case array:
		x.Count = "3"
		x.Props = pv(src)
		if base == "config" && m.r.width() > 32 {
			x.Count = ""
		}
	case hex:
		x.Props = pv(m.r.src(":", func(i int64) string {
			if i < 0 {
				return dec(i)
			}
			return fmt.Sprintf("0x%x", i)
		}))
	case group:
		x.Props = pv(src)
	}
	main := &lib.Def{Name: "main", Typ: "bus"}
	var parent *lib.Def
	switch {
	case strings.HasSuffix(m.kind, "@proc"):
		parent = &lib.Def{Name: "p", Typ: "proc"}
	case strings.HasSuffix(m.kind, "@stream"):
		parent = &lib.Def{Name: "p", Typ: "stream"}
	case m.form == group:
		parent = &lib.Def{Name: "g", Typ: "group"}
		parent.Subs = []*lib.Def{{Name: "y", Typ: "config"}}
	}
	if parent != nil {
		parent.Subs = append(parent.Subs, x)
		main.Subs = []*lib.Def{parent}
	} else {
		main.Subs = []*lib.Def{x}
	}
	c.Src = head + lib.Render(append(defs, main)...)
	return c
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m, ok := c.Meta.(*model)
	if !ok {
		if o.Kind != lib.OK {
			return []lib.Viol{{Sig: "api", Msg: fmt.Sprintf("%v: %s: %s", c.Meta, o.Kind, o.Msg)}}
		}
		if s, _ := o.Obs.(string); s != "" {
			return []lib.Viol{{Sig: "api", Msg: s}}
		}
		return nil
	}
	v := func(sig, f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: sig + ":" + m.kind, Msg: m.String() + ": " + fmt.Sprintf(f, a...)}}
	}
	if !m.r.legal() {
		if o.Kind == lib.Reject && o.Msg != "" {
			return nil
		}
		return v("illegal", "illegal range, but %s %s", o.Kind, o.Msg)
	}
	if o.Kind != lib.OK {
		return v("rejected", "%s: %s", o.Kind, o.Msg)
	}
	kind, parent := "config", any(o.Bus)
	if m.kind != "config" {
		kind = "param"
		p, ok := lib.Find(o.Bus, m.kind[len("param@"):], "p")
		if !ok {
			return v("missing", "parent is missing")
		}
		parent = p
	}
	if m.form == group && m.kind == "config" {
		g, ok := lib.Find(o.Bus, "group", "g")
		if !ok {
			return v("missing", "group is missing")
		}
		parent = g
	}
	x, ok := lib.Find(parent, kind, "x")
	if !ok {
		return v("missing", "functionality is missing")
	}
	if w := x.FieldByName("Width").Int(); w != m.r.width() {
		return v("width", "width is %d, expected %d", w, m.r.width())
	}
	raw := x.FieldByName("Range").Interface().(json.RawMessage)
	var got any
	d := json.NewDecoder(strings.NewReader(string(raw)))
	d.UseNumber()
	if err := d.Decode(&got); err != nil {
		return v("range", "range cannot be decoded: %v", err)
	}
	if fmt.Sprint(got) != fmt.Sprint(m.r.json()) {
		return v("range", "range is %v, expected %v", got, m.r.json())
	}
	return nil
}

// bounds around powers of two.
func bounds(dense int64) []int64 {
	b := []int64{}
	for i := int64(0); i <= dense; i++ {
		b = append(b, i)
	}
	for k := 1; k <= 62; k++ {
		for d := int64(-2); d <= 1; d++ {
			if i := int64(1)<<k + d; i > dense {
				b = append(b, i)
			}
		}
	}
	return append(b, math.MaxInt64-1, math.MaxInt64)
}

var small = []int64{0, 1, 2, 3, 4, 7, 8, 255, 256, 1<<31 - 1, 1 << 31, 1 << 53, math.MaxInt64}

func pairsOf(b []int64, wrong bool) []pair {
	ps := []pair{}
	for _, l := range b {
		for _, r := range b {
			if l <= r || wrong {
				ps = append(ps, pair{l, r})
			}
		}
	}
	return ps
}

func gen(g *lib.Gen) {
	kinds := []string{"config", "param@proc", "param@stream"}
	emit := func(kind string, r rng, form int) {
		g.Emit(func() *lib.Case { return (&model{kind, r, form}).mk() })
	}
	var ups []int64
	ups = append(ups, bounds(int64(g.Pick(4200, 70000)))...)
	for _, k := range kinds {
		for _, u := range ups {
			emit(k, rng{up: u}, plain)
		}
		for _, u := range append(bounds(40), -1, -2, -255, -256, math.MinInt64+1) {
			for f := 0; f < forms; f++ {
				emit(k, rng{up: u}, f)
			}
		}
		b := bounds(int64(g.Pick(12, 40)))
		for _, p := range pairsOf(b, true) {
			emit(k, rng{pairs: []pair{p}}, plain)
			emit(k, rng{pairs: []pair{p}, list: true}, plain)
		}
		sp := pairsOf(append([]int64{-1}, small...), true)
		for f := 0; f < forms; f++ {
			if f == viaParam || f == viaConst {
				continue // Constants and arguments can not be ranges.
			}
			emit(k, rng{list: true}, f)
			for _, p := range sp {
				emit(k, rng{pairs: []pair{p}}, f)
				emit(k, rng{pairs: []pair{p}, list: true}, f)
			}
			bound := []int64{-1, 0, 3, 4, 256}
			lp := pairsOf(bound, true)
			for _, p := range lp {
				for _, q := range lp {
					emit(k, rng{pairs: []pair{p, q}, list: true}, f)
				}
			}
		}
		// Lists, legal and illegal.
		for _, p := range sp {
			for _, q := range sp {
				emit(k, rng{pairs: []pair{p, q}, list: true}, plain)
			}
		}
		tb := []int64{0, 1, 2, 7, 8, 1 << 32}
		if g.Thorough {
			tb = small
		}
		tp := pairsOf(tb, false)
		for _, p := range tp {
			for _, q := range tp {
				for _, s := range tp {
					emit(k, rng{pairs: []pair{p, q, s}, list: true}, plain)
				}
			}
		}
		qp := pairsOf([]int64{0, 1, 7, 256}, g.Thorough)
		for _, p := range qp {
			for _, q := range qp {
				for _, s := range qp {
					for _, u := range qp {
						emit(k, rng{pairs: []pair{p, q, s, u}, list: true}, plain)
					}
				}
			}
		}
		// Long lists, the maximum on every position, at most one pair is illegal.
		for n := 5; n <= g.Pick(17, 40); n++ {
			for at := 0; at < n; at++ {
				for _, top := range []int64{255, 256, 1<<32 - 1, 1 << 32, math.MaxInt64} {
					for v := 0; v < 4; v++ {
						r := rng{list: true}
						for i := 0; i < n; i++ {
							lo := int64(3 * i)
							if v%2 == 1 {
								lo = int64(3 * (n - 1 - i))
							}
							p := pair{lo, lo + 1 + int64(i%2)}
							if i == at {
								p = pair{lo, top}
								if v == 2 {
									p = pair{top - 1, top}
								}
								if v == 3 {
									p = pair{lo + 1, lo}
								}
							}
							r.pairs = append(r.pairs, p)
						}
						emit(k, r, plain)
						if n < 8 {
							emit(k, r, inType)
							emit(k, r, group)
						}
					}
				}
			}
		}
	}
	apiCases(g)
}

func main() {
	lib.Main(&lib.Check{
		ID: "C14",
		Rule: "All upper bounds up to 4200 (70000 in thorough) and around all powers of two up to the greatest integer, all pairs of bounds around powers of two, legal and illegal, " +
			"all lists of two pairs over 14 bounds and of three and four pairs over less bounds, for configs and params of procs and streams, set in the instantiation, body, types, through " +
			"parameters, constants and expressions. All bit width queries of range types over the same bounds.",
		Assume:   []string{"Width of an empty list is not defined.", "Ranges with negative bounds or with the left bound greater than the right one are illegal."},
		CLIEvery: 397,
		Gen:      gen,
		Eval:     eval,
	})
}
