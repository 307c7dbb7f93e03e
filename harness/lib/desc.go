package lib

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

// PV is a named value: property or constant.
type PV struct{ Name, Val string }

// Def is a definition of a type or an instantiation.
type Def struct {
	IsType bool
	Name   string
	Typ    string // Base type or type name, possibly qualified.
	Count  string // Array size, empty for single functionality.
	Params []string
	Args   []string
	Props  []PV
	Consts []PV
	Subs   []*Def
	Raw    []string // Additional lines of the body.
	Tail   []string // Lines at the end of the body.
	Body   bool     // Properties are placed in the body even if a one line form is possible.
}

func (d *Def) header() string {
	var b strings.Builder
	if d.IsType {
		b.WriteString("type ")
	}
	b.WriteString(d.Name)
	if len(d.Params) > 0 {
		b.WriteString("(" + strings.Join(d.Params, ", ") + ")")
	}
	b.WriteByte(' ')
	if d.Count != "" {
		b.WriteString("[" + d.Count + "]")
	}
	b.WriteString(d.Typ)
	if len(d.Args) > 0 {
		b.WriteString("(" + strings.Join(d.Args, ", ") + ")")
	}
	return b.String()
}

// Write renders the definition.
func (d *Def) Write(b *strings.Builder, indent int) {
	ind := strings.Repeat("  ", indent)
	b.WriteString(ind + d.header())
	if len(d.Subs) == 0 && len(d.Consts) == 0 && len(d.Raw) == 0 && len(d.Tail) == 0 && !d.Body {
		for _, p := range d.Props {
			b.WriteString("; " + p.Name + " = " + p.Val)
		}
		b.WriteByte('\n')
		return
	}
	b.WriteByte('\n')
	for _, p := range d.Props {
		b.WriteString(ind + "  " + p.Name + " = " + p.Val + "\n")
	}
	for _, c := range d.Consts {
		b.WriteString(ind + "  const " + c.Name + " = " + c.Val + "\n")
	}
	for _, r := range d.Raw {
		b.WriteString(ind + "  " + r + "\n")
	}
	for _, s := range d.Subs {
		s.Write(b, indent+1)
	}
	for _, r := range d.Tail {
		b.WriteString(ind + "  " + r + "\n")
	}
}

// Render renders the list of definitions.
func Render(defs ...*Def) string {
	var b strings.Builder
	for _, d := range defs {
		d.Write(&b, 0)
	}
	return b.String()
}

// kindFields maps base types to fields of the block.
var kindFields = map[string]string{
	"blackbox": "Blackboxes", "block": "Subblocks", "config": "Configs", "group": "Groups", "irq": "Irqs", "mask": "Masks",
	"param": "Params", "proc": "Procs", "return": "Returns", "static": "Statics", "status": "Statuses", "stream": "Streams",
}

// Kinds is the list of base types in a fixed order.
var Kinds = []string{"blackbox", "block", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

// List returns functionalities of given kind, parent is a pointer to the block, group, proc or stream.
// Generated ID and TIMESTAMP are included.
func List(parent any, kind string) []reflect.Value {
	v := reflect.ValueOf(parent)
	if rv, ok := parent.(reflect.Value); ok {
		v = rv
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	f := v.FieldByName(kindFields[kind])
	if !f.IsValid() {
		return nil
	}
	r := []reflect.Value{}
	for i := 0; i < f.Len(); i++ {
		r = append(r, f.Index(i).Elem())
	}
	return r
}

// Find returns functionality with given kind and name.
func Find(parent any, kind, name string) (reflect.Value, bool) {
	for _, v := range List(parent, kind) {
		if v.FieldByName("Name").String() == name {
			return v, true
		}
	}
	return reflect.Value{}, false
}

// BitStrVal returns value of the bit string without meta values.
// Negative is the value interpreted as two's complement of given width.
func BitStrVal(s string) (*big.Int, int, error) {
	if len(s) < 3 || s[1] != '"' || s[len(s)-1] != '"' {
		return nil, 0, fmt.Errorf("invalid bit string %s", s)
	}
	base, bits := 0, 0
	switch s[0] {
	case 'b', 'B':
		base, bits = 2, 1
	case 'o', 'O':
		base, bits = 8, 3
	case 'x', 'X':
		base, bits = 16, 4
	default:
		return nil, 0, fmt.Errorf("invalid bit string %s", s)
	}
	d := s[2 : len(s)-1]
	if d == "" {
		return new(big.Int), 0, nil
	}
	v, ok := new(big.Int).SetString(d, base)
	if !ok || d[0] == '-' || d[0] == '+' {
		return nil, 0, fmt.Errorf("invalid bit string %s", s)
	}
	return v, len(d) * bits, nil
}
