// Check C21: generated functionalities ID and TIMESTAMP.
package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type model struct {
	what  string
	width int64 // Width of the bus.
	// Name of the functionality which makes the description illegal.
	illegal bool
	other   []*lib.Case // Cases with which the result is compared.
	rel     int         // Relation of the results.
}

const (
	none          = iota
	sameID        // The bus and the ID are the same.
	differ        // IDs differ.
	sameOwn       // Functionalities of the main bus have the same accesses, there is no timestamp in the other one.
	notAllTheSame // IDs are not all the same.
)

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	sig, _, _ := strings.Cut(m.what, ":")
	sig = strings.ReplaceAll(sig, " ", "-")
	v := func(s, f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: sig + ":" + s, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	if m.illegal {
		if o.Kind != lib.Reject {
			return v("accepted", "the result is %s, the name is reserved", o.Kind)
		}
		return nil
	}
	if o.Kind != lib.OK {
		return v("rejected", "%s %s", o.Kind, o.Msg)
	}
	b := o.Bus
	id, s := generated(b, "ID")
	if s != "" {
		return v("id", "%s", s)
	}
	w := min(32, m.width)
	if s := geometry(id, w, 0, m.width); s != "" {
		return v("id", "%s", s)
	}
	if c.TS {
		ts, s := generated(b, "TIMESTAMP")
		if s != "" {
			return v("timestamp", "%s", s)
		}
		w := min(36, m.width)
		if s := geometry(ts, w, ts.Access.StartAddr, m.width); s != "" {
			return v("timestamp", "%s", s)
		}
		if s := moment(ts, w); s != "" {
			return v("time", "%s", s)
		}
		if l := lastAddr(b); ts.Access.StartAddr <= l {
			return v("timestamp", "it is in the register %d, the last register of the other functionalities of the bus is %d", ts.Access.StartAddr, l)
		}
		if b.Sizes.Own != ts.Access.StartAddr+1 {
			return v("timestamp", "it is in the register %d, there are %d registers", ts.Access.StartAddr, b.Sizes.Own)
		}
	} else if has(b, "TIMESTAMP") && !strings.Contains(c.Src, "TIMESTAMP") {
		return v("timestamp", "there is a timestamp, but it is not requested")
	}
	if !strings.Contains(c.Src, "ID") && !strings.Contains(c.Src, "TIMESTAMP") {
		for _, sb := range b.Subblocks {
			if s := inner(sb); s != "" {
				return v("subblock", "%s", s)
			}
		}
	}
	all := true
	for i, oc := range m.other {
		r := lib.Reference(oc.Src+fmt.Sprint(oc.Files, oc.TS, oc.Bus), oc, o)
		if r.Kind != lib.OK {
			return v("rejected", "description number %d: %s %s\n%s", i+2, r.Kind, r.Msg, oc.Src)
		}
		rid, s := generated(r.Bus, "ID")
		if s != "" {
			return v("id", "%s\n%s", s, oc.Src)
		}
		same := rid.InitValue == id.InitValue
		all = all && same
		switch m.rel {
		case sameID:
			if !same {
				return v("changed", "ID is %s, it is %s for\n%s", id.InitValue, rid.InitValue, oc.Src)
			}
		case differ:
			if same {
				return v("same", "ID is %s, it is the same for\n%s", id.InitValue, oc.Src)
			}
		case sameOwn:
			if s := own(r.Bus, b); s != "" {
				return v("moved", "%s", s)
			}
		}
	}
	if m.rel == notAllTheSame && all {
		return v("same", "ID is %s, it is the same for %d other descriptions, the last one\n%s", id.InitValue, len(m.other), m.other[len(m.other)-1].Src)
	}
	return nil
}

// generated returns the only functionality of the name of the bus.
func generated(b *lib.Block, name string) (*lib.Static, string) {
	var r *lib.Static
	for _, s := range b.Statics {
		if s.Name == name {
			if r != nil {
				return nil, "there are two statics " + name
			}
			r = s
		}
	}
	if r == nil {
		return nil, "there is no static " + name
	}
	if n := count(reflect.ValueOf(b).Elem(), name); n != 1 {
		return nil, fmt.Sprintf("there are %d functionalities named %s", n, name)
	}
	return r, ""
}

func has(b *lib.Block, name string) bool { return count(reflect.ValueOf(b).Elem(), name) > 0 }

// count counts own functionalities with the name.
func count(v reflect.Value, name string) int {
	n := 0
	for i := range v.NumField() {
		f := v.Field(i)
		if f.Kind() != reflect.Slice {
			continue
		}
		for j := range f.Len() {
			e := f.Index(j)
			if e.Kind() == reflect.Pointer && e.Elem().Kind() == reflect.Struct && e.Elem().FieldByName("Name").IsValid() {
				if e.Elem().FieldByName("Name").String() == name {
					n++
				}
			}
		}
	}
	return n
}

func inner(b *lib.Block) string {
	for _, n := range []string{"ID", "TIMESTAMP"} {
		if has(b, n) {
			return "there is " + n + " in the block " + b.Name
		}
	}
	for _, s := range b.Subblocks {
		if r := inner(s); r != "" {
			return r
		}
	}
	return ""
}

func geometry(s *lib.Static, w, addr, bus int64) string {
	a := s.Access
	switch {
	case s.Width != w:
		return fmt.Sprintf("width is %d, not %d", s.Width, w)
	case s.IsArray || s.Count != 1:
		return "it is an array"
	case a.StartAddr != addr || a.EndAddr != addr || a.RegCount != 1:
		return fmt.Sprintf("registers %d-%d, not %d", a.StartAddr, a.EndAddr, addr)
	case a.StartBit != 0 || a.EndBit != w-1:
		return fmt.Sprintf("bits %d-%d, not 0-%d", a.StartBit, a.EndBit, w-1)
	case a.RegWidth != bus && a.RegWidth != w || a.StartRegWidth != w || a.EndRegWidth != w:
		return fmt.Sprintf("widths of registers %d %d %d, width of the bus %d", a.RegWidth, a.StartRegWidth, a.EndRegWidth, bus)
	case a.ItemCount != 1 || a.ItemWidth != w || a.Type != "SingleOneReg":
		return fmt.Sprintf("access %+v", a)
	}
	v, n, err := lib.BitStrVal(s.InitValue)
	if err != nil {
		return err.Error()
	}
	if int64(n) < w || int64(n) > w+3 || int64(v.BitLen()) > w {
		return fmt.Sprintf("value %s, width %d", s.InitValue, w)
	}
	return ""
}

// moment checks that the value is the time of compilation.
func moment(s *lib.Static, w int64) string {
	v, _, _ := lib.BitStrVal(s.InitValue)
	now := time.Now().Unix()
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	for t := now + 2; t > now-200; t-- {
		if new(big.Int).And(big.NewInt(t), mask).Cmp(v) == 0 {
			return ""
		}
	}
	return fmt.Sprintf("value %s of width %d is not the time of compilation %x", s.InitValue, w, now)
}

// lastAddr returns the last address of own functionalities of the bus except the timestamp.
func lastAddr(b *lib.Block) int64 {
	l := int64(0)
	for _, u := range lib.Uses(b, b.Width) {
		if u.Name != "TIMESTAMP" {
			l = max(l, u.Acs.EndAddr)
		}
	}
	for _, x := range b.Irqs {
		if x.ClearAddr != nil {
			l = max(l, *x.ClearAddr)
		}
	}
	for _, x := range b.Procs {
		if x.CallAddr != nil {
			l = max(l, *x.CallAddr)
		}
		if x.ExitAddr != nil {
			l = max(l, *x.ExitAddr)
		}
	}
	for _, x := range b.Streams {
		l = max(l, x.StbAddr)
	}
	return l
}

// own compares own functionalities of two buses, b has a timestamp.
func own(a, b *lib.Block) string {
	x, y := *a, *b
	y.Statics = nil
	for _, s := range b.Statics {
		if s.Name != "TIMESTAMP" && s.Name != "ID" {
			y.Statics = append(y.Statics, s)
		}
	}
	x.Statics = nil
	for _, s := range a.Statics {
		if s.Name != "ID" {
			x.Statics = append(x.Statics, s)
		}
	}
	for _, z := range []*lib.Block{&x, &y} {
		z.Subblocks, z.Blackboxes, z.Sizes, z.AddrSpace = nil, nil, lib.Sizes{}, lib.AddrSpace{}
	}
	vx, vy := reflect.ValueOf(x), reflect.ValueOf(y)
	for i := range vx.NumField() {
		if !reflect.DeepEqual(vx.Field(i).Interface(), vy.Field(i).Interface()) {
			return fmt.Sprintf("%s of the bus differ from the ones of the bus without the timestamp", vx.Type().Field(i).Name)
		}
	}
	return ""
}

func main() {
	lib.Main(&lib.Check{
		ID: "C21",
		Rule: "all bus widths up to a limit with descriptions using the whole grammar, with and without the timestamp; names ID and TIMESTAMP in all places; " +
			"all sequences of functionalities up to a depth with and without the timestamp; all single edits of all fields of functionalities of all types in all places, pairwise",
		Assume: []string{
			"the time of compilation is judged with the accuracy of 200 s",
			"IDs of different descriptions are compared only for buses with ID of 32 bits, they are different for the enumerated descriptions",
		},
		CLIEvery: 200,
		Gen: func(g *lib.Gen) {
			for _, f := range []func(*lib.Gen){widths, names, stable, buses, edits, timestamps} {
				if f(g); g.Stopped() {
					return
				}
			}
		},
		Eval: eval,
	})
}
