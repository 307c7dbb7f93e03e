// C07: properties of functionalities come from the whole type chain.
package main

import (
	"fmt"
	"math/bits"
	"reflect"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// prop is a property with the value used in the descriptions.
type prop struct {
	name  string
	val   string // Source form of the value.
	field string
	set   any // Value expected in the field when property is set, nil is default.
	unset any // Value expected when property is not set.
}

type bitstr int64  // Bit string with given value.
type rng [2]int64  // Single range.
type busW struct{} // Bus width, or the width following from range.
type delay [2]int64

var props = map[string][]prop{
	"config": {
		{"atomic", "false", "Atomic", false, true},
		{"width", "9", "Width", int64(9), busW{}},
		{"range", "100", "Range", rng{0, 100}, nil},
		{"init-value", "5", "InitValue", bitstr(5), ""},
		{"read-value", "6", "ReadValue", bitstr(6), ""},
		{"reset-value", "3", "ResetValue", bitstr(3), ""},
		{"[]", "3", "Count", int64(3), int64(1)},
	},
	"mask": {
		{"atomic", "false", "Atomic", false, true},
		{"width", "9", "Width", int64(9), busW{}},
		{"init-value", "5", "InitValue", bitstr(5), ""},
		{"read-value", "6", "ReadValue", bitstr(6), ""},
		{"reset-value", "3", "ResetValue", bitstr(3), ""},
	},
	"static": {
		{"width", "9", "Width", int64(9), busW{}},
		{"read-value", "6", "ReadValue", bitstr(6), ""},
		{"reset-value", "3", "ResetValue", bitstr(3), ""},
		{"init-value", "5", "InitValue", bitstr(5), ""},
		{"[]", "3", "Count", int64(3), int64(1)},
	},
	"status": {
		{"atomic", "false", "Atomic", false, true},
		{"width", "9", "Width", int64(9), busW{}},
		{"read-value", "6", "ReadValue", bitstr(6), ""},
		{"[]", "3", "Count", int64(3), int64(1)},
	},
	"irq": {
		{"add-enable", "true", "AddEnable", true, false},
		{"clear", `"On Read"`, "Clear", "On Read", "Explicit"},
		{"in-trigger", `"Edge"`, "InTrigger", "Edge", "Level"},
		{"out-trigger", `"Edge"`, "OutTrigger", "Edge", "Level"},
		{"enable-init-value", "1", "EnableInitValue", bitstr(1), ""},
		{"enable-reset-value", "1", "EnableResetValue", bitstr(1), ""},
	},
	"param": {
		{"width", "9", "Width", int64(9), busW{}},
		{"range", "100", "Range", rng{0, 100}, nil},
		{"[]", "3", "Count", int64(3), int64(1)},
	},
	"return":   {{"width", "9", "Width", int64(9), busW{}}, {"[]", "3", "Count", int64(3), int64(1)}},
	"proc":     {{"delay", "7 us", "Delay", delay{0, 7000}, nil}, {"[]", "3", "Count", int64(3), int64(1)}},
	"stream":   {{"delay", "1500 ms", "Delay", delay{1, 500000000}, nil}, {"[]", "3", "Count", int64(3), int64(1)}},
	"blackbox": {{"size", "12", "Size", int64(12), nil}, {"[]", "3", "Count", int64(3), int64(1)}},
	"group":    {{"virtual", "true", "Virtual", true, false}, {"[]", "3", "Count", int64(3), int64(1)}},
	"block": {
		{"align", "4", "Align", int64(4), int64(0)},
		{"masters", "3", "Masters", int64(3), int64(1)},
		{"reset", `"Async"`, "Reset", "Async", ""},
		{"[]", "3", "Count", int64(3), int64(1)},
	},
	"bus": {
		{"align", "4", "Align", int64(4), int64(0)},
		{"masters", "3", "Masters", int64(3), int64(1)},
		{"reset", `"Sync"`, "Reset", "Sync", ""},
		{"width", "24", "Width", int64(24), int64(32)},
	},
}

var kinds = []string{"config", "mask", "static", "status", "irq", "param", "return", "proc", "stream", "blackbox", "group", "block", "bus"}

// Placement of the types.
const (
	global  = iota // Types defined in the main file, after the use.
	before         // Types defined in the main file, before the use.
	nested         // Types defined in the body with the instantiation.
	pkg            // Types defined in the imported package.
	mixed          // The first type in the package, the others in the body.
	params         // Values provided by parameters of types passed through the whole chain.
	pparams        // The same, types in the imported package.
	multi          // Types in different files of the imported package.
	forms
)

type model struct {
	kind  string
	levs  int     // Number of types.
	at    [][]int // Levels the property is set on, 0 is the instantiation, 1 its type and so on.
	form  int
	inner bool // Each level adds inner functionality and constant.
	bus   int  // Bus width.
	rev   bool // Properties in the reversed order.
}

func typName(i int) string { return fmt.Sprintf("T%d", i) }

func (m *model) String() string {
	return fmt.Sprintf("kind %s, types %d, form %d, properties on levels %v", m.kind, m.levs, m.form, m.at)
}

// innerKinds of functionalities added by the levels.
func innerKind(kind string) string {
	switch kind {
	case "proc":
		return "param"
	case "stream":
		return "return"
	case "group", "block", "bus":
		return "status"
	}
	return ""
}

func (m *model) mk() *lib.Case {
	ps := props[m.kind]
	param := m.form == params || m.form == pparams
	// Level 0 is the instantiation.
	defs := make([]*lib.Def, m.levs+1)
	for l := range defs {
		d := &lib.Def{IsType: l > 0, Name: "x", Typ: m.kind}
		if l > 0 {
			d.Name = typName(l)
		}
		if m.kind == "bus" && l == 0 {
			d.Name = "main"
		}
		if l < m.levs {
			d.Typ = typName(l + 1)
			if m.form == pkg || m.form == pparams || m.form == multi {
				if l == 0 {
					d.Typ = "p." + d.Typ
				}
			}
			if m.form == mixed && l == m.levs-1 {
				d.Typ = "p." + d.Typ
			}
		}
		defs[l] = d
	}
	for i, p := range ps {
		for _, l := range m.at[i] {
			v := p.val
			if param && l > 0 {
				// The value comes from the instantiation through all the types.
				n := fmt.Sprintf("V%d", i)
				for k := 0; k <= l; k++ {
					has := false
					for _, x := range defs[k].Params {
						has = has || x == n
					}
					if k > 0 && !has {
						defs[k].Params = append(defs[k].Params, n)
					}
					if k < l {
						a := n + " = " + n
						if k == 0 {
							a = n + " = " + p.val
						}
						hasA := false
						for _, x := range defs[k].Args {
							hasA = hasA || strings.HasPrefix(x, n+" = ")
						}
						if !hasA {
							defs[k].Args = append(defs[k].Args, a)
						}
					}
				}
				v = n
			}
			if p.name == "[]" {
				defs[l].Count = v
				continue
			}
			pv := lib.PV{Name: p.name, Val: v}
			if m.rev {
				defs[l].Props = append([]lib.PV{pv}, defs[l].Props...)
			} else {
				defs[l].Props = append(defs[l].Props, pv)
			}
		}
	}
	if ik := innerKind(m.kind); ik != "" && m.inner {
		for l := range defs {
			defs[l].Subs = append(defs[l].Subs, &lib.Def{Name: fmt.Sprintf("i%d", l), Typ: ik, Props: []lib.PV{{Name: "width", Val: fmt.Sprint(l + 1)}}})
			if m.kind == "block" || m.kind == "bus" || m.kind == "group" {
				defs[l].Consts = append(defs[l].Consts, lib.PV{Name: fmt.Sprintf("C%d", l), Val: fmt.Sprint(l + 40)})
			}
		}
	} else if m.kind == "group" {
		defs[m.levs].Subs = []*lib.Def{{Name: "a", Typ: "status"}}
	}
	c := &lib.Case{Meta: m, Edges: 1}
	usesPkg := m.form == pkg || m.form == pparams || m.form == mixed || m.form == multi
	head := ""
	if usesPkg {
		head = "import p \"lib\"\n"
	}
	types := defs[1:]
	inBody, inFile, inPkg := []*lib.Def{}, []*lib.Def{}, []*lib.Def{}
	switch m.form {
	case global, before, params:
		inFile = types
	case nested:
		inBody = types
	case pkg, pparams, multi:
		inPkg = types
	case mixed:
		if len(types) > 0 {
			inBody, inPkg = types[:len(types)-1], types[len(types)-1:]
		}
	}
	var main []*lib.Def
	if m.kind == "bus" {
		inFile = append(append([]*lib.Def{}, inBody...), inFile...)
		main = []*lib.Def{defs[0]}
	} else {
		b := &lib.Def{Name: "main", Typ: "bus", Props: []lib.PV{{Name: "width", Val: fmt.Sprint(m.bus)}}}
		subs := append([]*lib.Def{}, inBody...)
		subs = append(subs, defs[0])
		switch m.kind {
		case "param", "return":
			b.Subs = []*lib.Def{{Name: "pp", Typ: "proc", Subs: subs}}
			subs = nil
		case "static":
		}
		// Functionality of the base type, it must not be influenced.
		if m.kind != "static" && m.kind != "blackbox" && m.kind != "group" && m.kind != "param" && m.kind != "return" {
			subs = append(subs, &lib.Def{Name: "y", Typ: m.kind})
		}
		if subs != nil {
			b.Subs = subs
		}
		main = []*lib.Def{b}
	}
	if m.form == before {
		main = append(append([]*lib.Def{}, inFile...), main...)
	} else {
		main = append(main, inFile...)
	}
	c.Src = head + lib.Render(main...)
	if usesPkg {
		c.Files = map[string]string{}
		if m.form == multi {
			for i, d := range inPkg {
				c.Files[fmt.Sprintf("fbd-lib/f%d.fbd", i)] = lib.Render(d)
			}
		}
		if m.form != multi || len(inPkg) == 0 {
			c.Files["fbd-lib/a.fbd"] = "const UNUSED = 1\n" + lib.Render(inPkg...)
		}
	}
	return c
}

// array reports if array size is set.
func (m *model) array() bool {
	for i, p := range props[m.kind] {
		if p.name == "[]" && len(m.at[i]) > 0 {
			return true
		}
	}
	return false
}

// reject returns the reason for rejecting the description.
func (m *model) reject() string {
	ps := props[m.kind]
	w, r := false, false
	for i, p := range ps {
		if len(m.at[i]) > 1 {
			return p.name + " set more than once"
		}
		if len(m.at[i]) == 0 {
			continue
		}
		w = w || p.name == "width"
		r = r || p.name == "range"
	}
	if w && r {
		return "width and range set"
	}
	switch m.kind {
	case "static":
		if len(m.at[3]) == 0 {
			return "static without init-value"
		}
	case "irq":
		if len(m.at[0]) == 0 && (len(m.at[4]) > 0 || len(m.at[5]) > 0) {
			return "enable value without add-enable"
		}
	case "blackbox":
		if len(m.at[0]) == 0 {
			return "blackbox without size"
		}
	}
	return ""
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	why := m.reject()
	if why != "" {
		if o.Kind == lib.Reject {
			return nil
		}
		return []lib.Viol{{Sig: "accepted:" + m.kind, Msg: fmt.Sprintf("%v: expected rejection (%s), got %s %s", m, why, o.Kind, o.Msg)}}
	}
	if v := lib.NotOK(o); v != nil {
		v[0].Msg = m.String() + ": " + v[0].Msg
		v[0].Sig += ":" + m.kind
		return v
	}
	var vs []lib.Viol
	bad := func(f string, a ...any) {
		vs = append(vs, lib.Viol{Sig: "property:" + m.kind, Msg: m.String() + ": " + fmt.Sprintf(f, a...)})
	}
	var parent any = o.Bus
	if m.kind == "param" || m.kind == "return" {
		if len(o.Bus.Procs) != 1 {
			bad("proc is missing")
			return vs
		}
		parent = o.Bus.Procs[0]
	}
	var x reflect.Value
	if m.kind == "bus" {
		x = reflect.ValueOf(o.Bus).Elem()
	} else {
		v, ok := lib.Find(parent, m.kind, "x")
		if !ok {
			bad("functionality x is missing")
			return vs
		}
		x = v
		if y, ok := lib.Find(parent, m.kind, "y"); ok {
			compare(m.bus, y, m.kind, make([][]int, len(props[m.kind])), func(f string, a ...any) { bad("other functionality y: "+f, a...) })
		}
	}
	compare(m.bus, x, m.kind, m.at, bad)
	if a := m.array(); x.FieldByName("IsArray").Bool() != a {
		bad("array: %v, expected %v", !a, a)
	}
	ik := innerKind(m.kind)
	if ik == "" || !m.inner {
		return vs
	}
	names := []string{}
	for _, v := range lib.List(x, ik) {
		names = append(names, fmt.Sprintf("%s:%d", v.FieldByName("Name"), v.FieldByName("Width").Int()))
	}
	want := []string{}
	for l := m.levs; l >= 0; l-- {
		want = append(want, fmt.Sprintf("i%d:%d", l, l+1))
	}
	if fmt.Sprint(names) != fmt.Sprint(want) {
		bad("inner functionalities %v, expected %v", names, want)
	}
	if f := x.FieldByName("Consts"); f.IsValid() {
		got := f.Interface().(lib.Consts).Ints
		for l := 0; l <= m.levs; l++ {
			if got[fmt.Sprintf("C%d", l)] != int64(l+40) {
				bad("constants %v", got)
			}
		}
		if len(got) != m.levs+1 {
			bad("constants %v", got)
		}
	}
	return vs
}

func compare(bus int, x reflect.Value, kind string, at [][]int, bad func(string, ...any)) {
	bw := int64(bus)
	rngW := int64(-1)
	ps := props[kind]
	for i, p := range ps {
		if p.name == "range" && len(at[i]) > 0 {
			rngW = int64(bits.Len64(uint64(p.set.(rng)[1])))
		}
	}
	for i, p := range ps {
		want := p.unset
		if len(at[i]) > 0 {
			want = p.set
		}
		f := x.FieldByName(p.field)
		switch w := want.(type) {
		case busW:
			e := bw
			if rngW >= 0 {
				e = rngW
			}
			if f.Int() != e {
				bad("%s is %v, expected %d", p.field, f.Interface(), e)
			}
		case bitstr:
			v, _, err := lib.BitStrVal(f.String())
			if err != nil || v.Int64() != int64(w) {
				bad("%s is %v, expected %d", p.field, f.Interface(), w)
			}
		case rng:
			s := strings.Join(strings.Fields(string(f.Bytes())), "")
			if s != fmt.Sprintf(`{"Start":%d,"End":%d}`, w[0], w[1]) {
				bad("Range is %s, expected %v", s, w)
			}
		case delay:
			t, _ := f.Interface().(*lib.Time)
			if t == nil || t.S != w[0] || t.Ns != w[1] {
				bad("delay is %v, expected %v", t, w)
			}
		case nil:
			switch p.field {
			case "Range":
				if s := string(f.Bytes()); s != "null" && s != "" {
					bad("range is %s, but the property is not set", s)
				}
			case "Delay":
				if !f.IsNil() {
					bad("delay is %v, but the property is not set", f.Interface())
				}
			}
		default:
			if !reflect.DeepEqual(f.Interface(), want) {
				bad("%s is %v, expected %v", p.field, f.Interface(), want)
			}
		}
	}
}

func gen(g *lib.Gen) {
	max := g.Pick(3, 4)
	for _, k := range kinds {
		n := len(props[k])
		for levs := 0; levs <= max; levs++ {
			// Each property is set on one level at most.
			at := make([]int, n) // -1 is not set.
			var rec func(i int)
			emit := func(m *model) {
				for form := 0; form < forms; form++ {
					// Forms with packages are more expensive.
					if levs == 0 && form != global {
						continue
					}
					if form >= pkg && form != params && n > g.Pick(4, 5) && levs > g.Pick(2, 3) {
						continue
					}
					for v := 0; v < 2; v++ {
						if v == 1 && (n == 1 && innerKind(k) == "" || form >= pkg && form != params) {
							continue
						}
						c := *m
						c.form = form
						c.rev = v == 1
						c.bus = 16 - 8*v
						if form == nested {
							c.bus = 8 + 8*v
						}
						if c.array() {
							if k == "config" && len(c.at[0]) > 0 {
								// Arrays of non atomic configs are not implemented, see C17.
								continue
							}
							c.bus = 16
						}
						c.inner = v == 1 || k == "stream" || k == "block"
						g.Emit(c.mk)
					}
				}
			}
			rec = func(i int) {
				if i == n {
					l := make([][]int, n)
					for j, a := range at {
						if a >= 0 {
							l[j] = []int{a}
						}
					}
					emit(&model{kind: k, levs: levs, at: l})
					return
				}
				for a := -1; a <= levs; a++ {
					if n > 5 && levs == max && levs > 2 && a >= 0 && a != 0 && a != 2 && a != levs {
						continue
					}
					at[i] = a
					rec(i + 1)
				}
			}
			rec(0)
			// One property is set twice.
			for i := 0; i < n; i++ {
				for a := 0; a <= levs; a++ {
					for b := a; b <= levs; b++ {
						if a == b && props[k][i].name == "[]" {
							continue
						}
						for j := -1; j < n; j++ {
							for la := 0; la <= levs; la++ {
								if j < 0 && la > 0 || j == i {
									continue
								}
								l := make([][]int, n)
								l[i] = []int{a, b}
								if j >= 0 {
									l[j] = []int{la}
								}
								emit(&model{kind: k, levs: levs, at: l})
							}
						}
					}
				}
			}
		}
		// Long chains, single properties, pairs and repetitions far apart.
		longs := []int{5, 8}
		if g.Thorough {
			longs = []int{5, 6, 7, 8, 12, 20}
		}
		for _, levs := range longs {
			emit := func(l [][]int) {
				for form := 0; form < forms; form++ {
					m := &model{kind: k, levs: levs, at: l, form: form, bus: 16, inner: true, rev: form%2 == 1}
					if k == "config" && m.array() && len(l[0]) > 0 {
						continue
					}
					g.Emit(m.mk)
				}
			}
			for i := 0; i < n; i++ {
				for a := 0; a <= levs; a++ {
					l := make([][]int, n)
					l[i] = []int{a}
					emit(l)
					for j := 0; j < n; j++ {
						if j == i {
							continue
						}
						l := make([][]int, n)
						l[i], l[j] = []int{a}, []int{levs - a}
						if k == "static" && j != 3 && i != 3 {
							l[3] = []int{levs}
						}
						emit(l)
					}
					for _, b := range []int{0, levs / 2, levs} {
						if b < a || a == b && props[k][i].name == "[]" {
							continue
						}
						l := make([][]int, n)
						l[i] = []int{a, b}
						if k == "static" && i != 3 {
							l[3] = []int{levs}
						}
						emit(l)
					}
				}
			}
		}
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C07",
		Rule: "for every base type, every length of the type chain up to the bound, every assignment of its properties to levels of the chain (or not set), " +
			"and every single property set twice; chains of 5 and 8 types (up to 20 in thorough) with every property and pair of properties on every level; all in 8 forms (types before or after use, nested, imported, in several files, with values passed through type parameters); " +
			"one case is one compilation",
		CLIEvery: 199,
		Gen:      gen,
		Eval:     eval,
	})
}
