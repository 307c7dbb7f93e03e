package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// object is an object of JSON with keys in the order of appearance.
type object struct {
	keys []string
	vals map[string]any
}

// parse is a strict reader: valid UTF-8, no repeated keys, a single value.
func parse(b []byte) (any, error) {
	if !utf8.Valid(b) {
		return nil, fmt.Errorf("not valid UTF-8")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := value(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func value(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		o := &object{vals: map[string]any{}}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			s := k.(string)
			if _, ok := o.vals[s]; ok {
				return nil, fmt.Errorf("repeated key %q", s)
			}
			v, err := value(d)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, s)
			o.vals[s] = v
		}
		_, err := d.Token()
		return o, err
	case json.Delim('['):
		l := []any{}
		for d.More() {
			v, err := value(d)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err := d.Token()
		return l, err
	}
	return t, nil
}

func field(v any, k string) any {
	if o, ok := v.(*object); ok {
		return o.vals[k]
	}
	return nil
}

// Kinds of fields: s - string, i - integer, b - boolean, o - object, l - list or null, r - range or null, t - time or null, n - integer or null, v - bit string or empty string, c - constants, a - access, z - sizes, d - address space, p - package.
func spec(s string) map[string]byte {
	m := map[string]byte{}
	for _, f := range strings.Fields("Name:s Doc:s IsArray:b Count:i " + s) {
		k, t, _ := strings.Cut(f, ":")
		m[k] = t[0]
	}
	return m
}

var specs = map[string]map[string]byte{
	"blackbox": spec("Size:i Sizes:z AddrSpace:d"),
	"block":    spec("Align:i Masters:i Reset:s Width:i Sizes:z AddrSpace:d Consts:c Blackboxes:l Configs:l Groups:l Irqs:l Masks:l Procs:l Statics:l Statuses:l Streams:l Subblocks:l"),
	"config":   spec("Atomic:b InitValue:v Range:r ReadValue:v ResetValue:v Width:i Access:a"),
	"group":    spec("Virtual:b Consts:c Configs:l Irqs:l Masks:l Params:l Returns:l Statics:l Statuses:l"),
	"irq":      spec("AddEnable:b Clear:s EnableInitValue:v EnableResetValue:v InTrigger:s OutTrigger:s Access:a EnableAccess:a ClearAddr:n"),
	"mask":     spec("Atomic:b InitValue:v ReadValue:v ResetValue:v Width:i Access:a"),
	"param":    spec("Range:r Width:i Access:a"),
	"proc":     spec("Delay:t Params:l Returns:l CallAddr:n ExitAddr:n"),
	"return":   spec("Width:i Access:a"),
	"static":   spec("InitValue:v ReadValue:v ResetValue:v Width:i Access:a"),
	"status":   spec("Atomic:b ReadValue:v Width:i Access:a"),
	"stream":   spec("Delay:t Params:l Returns:l StbAddr:i"),
}

var lists = map[string]string{
	"Blackboxes": "blackbox", "Configs": "config", "Groups": "group", "Irqs": "irq", "Masks": "mask", "Params": "param", "Procs": "proc", "Returns": "return", "Statics": "static", "Statuses": "status", "Streams": "stream", "Subblocks": "block",
}

var (
	sizes  = map[string]byte{"Own": 'i', "Cumulated": 'i', "Aligned": 'i'}
	bounds = map[string]byte{"Start": 'i', "End": 'i'}
	times  = map[string]byte{"S": 'i', "Ns": 'i'}
	access = map[string]byte{"Type": 's', "RegCount": 'i', "RegWidth": 'i', "ItemCount": 'i', "ItemWidth": 'i', "StartAddr": 'i', "EndAddr": 'i', "StartBit": 'i', "EndBit": 'i', "StartRegWidth": 'i', "EndRegWidth": 'i'}
	consts = map[string]byte{"Bools": 'm', "BoolLists": 'm', "Floats": 'm', "Ints": 'm', "IntLists": 'm', "Strings": 'm'}
)

type judge struct{ viols []lib.Viol }

func (j *judge) bad(sig, f string, a ...any) {
	j.viols = append(j.viols, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)})
}

func integer(v any) bool {
	s, ok := v.(json.Number)
	if !ok {
		return false
	}
	_, err := strconv.ParseInt(s.String(), 10, 64)
	return err == nil
}

// bitStr returns value of the bit string.
func bitStr(v any) (*big.Int, bool) {
	s, _ := v.(string)
	if len(s) < 4 || s[1] != '"' || s[len(s)-1] != '"' {
		return nil, false
	}
	base := map[byte]int{'b': 2, 'o': 8, 'x': 16, 'B': 2, 'O': 8, 'X': 16}[s[0]]
	if base == 0 {
		return nil, false
	}
	return new(big.Int).SetString(s[2:len(s)-1], base)
}

// fields tells if the value is an object with the given fields.
func (j *judge) fields(path string, v any, m map[string]byte) bool {
	o, ok := v.(*object)
	if !ok {
		j.bad("type", "%s is %v, expected an object", path, v)
		return false
	}
	names := []string{}
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	ok = true
	for _, k := range names {
		p := path + "." + k
		x, have := o.vals[k]
		if !have {
			j.bad("missing:"+k, "%s is missing", p)
			ok = false
			continue
		}
		good := true
		switch m[k] {
		case 's':
			_, good = x.(string)
		case 'b':
			_, good = x.(bool)
		case 'i':
			good = integer(x)
		case 'n':
			good = x == nil || integer(x)
		case 'v':
			if x != "" {
				_, good = bitStr(x)
			}
		case 'l':
			if x != nil {
				_, good = x.([]any)
			}
		case 'm':
			if x != nil {
				_, good = x.(*object)
			}
		case 'z':
			good = j.fields(p, x, sizes)
		case 'd':
			good = j.fields(p, x, bounds)
		case 'a':
			good = j.fields(p, x, access)
		case 'c':
			good = j.fields(p, x, consts)
		case 'p':
			good = j.fields(p, x, map[string]byte{"Consts": 'c'})
		case 't':
			good = x == nil || j.fields(p, x, times)
		case 'r':
			if l, ok := x.([]any); ok {
				for _, r := range l {
					good = j.fields(p, r, bounds) && good
				}
			} else {
				good = x == nil || j.fields(p, x, bounds)
			}
		}
		if !good {
			j.bad("type:"+k, "%s has wrong value %v", p, x)
			ok = false
		}
	}
	return ok
}

func show(v any) string {
	switch x := v.(type) {
	case *object:
		s := []string{}
		for _, k := range x.keys {
			s = append(s, k+": "+show(x.vals[k]))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case []any:
		s := []string{}
		for _, e := range x {
			s = append(s, show(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return fmt.Sprintf("%#v", v)
}

func equal(have, want any) bool {
	switch w := want.(type) {
	case nil:
		return have == nil
	case bool, string:
		return have == want
	case num:
		n, ok := have.(json.Number)
		return ok && n.String() == string(w)
	case float:
		n, ok := have.(json.Number)
		f, err := strconv.ParseFloat(n.String(), 64)
		return ok && err == nil && f == float64(w)
	case bits:
		v, ok := bitStr(have)
		return ok && v.IsUint64() && v.Uint64() == uint64(w)
	case delay:
		return equal(field(have, "S"), num(w[0])) && equal(field(have, "Ns"), num(w[1]))
	case ranges:
		l, ok := have.([]any)
		if !ok {
			l = []any{have}
		}
		if len(l) != len(w) {
			return false
		}
		for i, r := range w {
			if !equal(field(l[i], "Start"), num(r[0])) || !equal(field(l[i], "End"), num(r[1])) {
				return false
			}
		}
		return true
	case []any:
		l, ok := have.([]any)
		if !ok || len(l) != len(w) {
			return false
		}
		for i := range w {
			if !equal(l[i], w[i]) {
				return false
			}
		}
		return true
	}
	panic("unknown kind of value")
}

func (j *judge) consts(path string, v any, cs []cnst) {
	for k := range consts {
		have, _ := field(v, k).(*object)
		if have == nil {
			have = &object{vals: map[string]any{}}
		}
		n := 0
		for _, c := range cs {
			if c.kind != k {
				continue
			}
			n++
			x, ok := have.vals[c.name]
			if !ok {
				j.bad("const", "%s: constant %s is not in %s", path, c.name, k)
			} else if !equal(x, c.want) {
				j.bad("const", "%s: constant %s is %s, expected %v", path, c.name, show(x), c.want)
			}
		}
		if n != len(have.keys) {
			j.bad("const", "%s: there are %d %s, expected %d: %s", path, len(have.keys), k, n, show(have))
		}
	}
}

func (j *judge) block(path string, v any, x *node, top bool) {
	kind := x.kind
	if kind == "bus" {
		kind = "block"
	}
	path += ": " + x.name
	if !j.fields(path, v, specs[kind]) {
		return
	}
	j.head(path, v, x.name, x.doc, x.count)
	// Values of properties which are not set are absent.
	unset := map[string]bool{"Range": true, "Delay": true, "InitValue": true, "ReadValue": true, "ResetValue": true, "EnableInitValue": true, "EnableResetValue": true}
	for _, p := range x.props {
		delete(unset, p.key)
		if h := field(v, p.key); !equal(h, p.want) {
			j.bad("value:"+p.key, "%s: %s = %s is %s in the output", path, p.name, p.src, show(h))
		}
	}
	for k := range unset {
		if _, ok := specs[kind][k]; !ok {
			continue
		}
		if h := field(v, k); h != nil && h != "" {
			j.bad("value:"+k, "%s: %s is %s, it is not set", path, k, show(h))
		}
	}
	if _, ok := specs[kind]["Consts"]; ok {
		j.consts(path, field(v, "Consts"), x.consts)
	}
	names := []string{}
	for k, t := range specs[kind] {
		if t == 'l' {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		l, _ := field(v, k).([]any)
		i := 0
		for _, s := range x.sub {
			if s.kind != lists[k] {
				continue
			}
			i++
			found := false
			for _, e := range l {
				if !found && equal(field(e, "Name"), s.name) { // The order is decided by other checks.
					j.block(path+"."+k, e, s, false)
					found = true
				}
			}
			if !found {
				j.bad("list", "%s: %s has no %s", path, k, s.name)
			}
		}
		if top && k == "Statics" {
			if i == len(l)-1 && equal(field(l[i], "Name"), "ID") {
				j.fields(path+".ID", l[i], specs["static"])
				continue
			}
			j.bad("list", "%s: there is no ID", path)
			continue
		}
		if i < len(l) {
			j.bad("list", "%s: %s has %d elements, expected %d", path, k, len(l), i)
		}
	}
}

func (j *judge) head(path string, v any, name, doc string, count int) {
	if !equal(field(v, "Name"), name) {
		j.bad("name", "%s: name is %s", path, show(field(v, "Name")))
	}
	if !equal(field(v, "Doc"), doc) {
		j.bad("doc", "%s: documentation is %s, expected %q", path, show(field(v, "Doc")), doc)
	}
	n := 1
	if count >= 0 {
		n = count
	}
	if !equal(field(v, "IsArray"), count >= 0) || !equal(field(v, "Count"), num(fmt.Sprint(n))) {
		j.bad("count", "%s: array %v, count %s, expected %d", path, field(v, "IsArray"), show(field(v, "Count")), count)
	}
}
