package lib

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// This file is the reference model of names: lexical scopes, type parameters, type chains, packages.
// It elaborates a model of the description by substitution, without any shared mutable state.

// X is an expression of the model.
type X struct {
	Ref  string // Identifier, possibly qualified.
	Lit  int64
	L, R *X     // Sum.
	Raw  string // Verbatim source, value is Val.
	Val  any
}

func Lit(v int64) *X         { return &X{Lit: v} }
func Ref(s string) *X        { return &X{Ref: s} }
func Add(l, r *X) *X         { return &X{L: l, R: r} }
func Raw(s string, v any) *X { return &X{Raw: s, Val: v} }

func (x *X) String() string {
	switch {
	case x.Raw != "":
		return x.Raw
	case x.Ref != "":
		return x.Ref
	case x.L != nil:
		return x.L.String() + " + " + x.R.String()
	}
	return fmt.Sprint(x.Lit)
}

// NX is a named expression, a const, property, parameter (X nil means no default) or argument (Name empty means positional).
type NX struct {
	Name string
	X    *X
}

func (n NX) String() string {
	if n.Name == "" {
		return n.X.String()
	}
	if n.X == nil {
		return n.Name
	}
	return n.Name + " = " + n.X.String()
}

// D is a definition of a type or an instantiation.
type D struct {
	IsType bool
	Name   string
	Typ    string
	Count  *X
	Params []NX
	Args   []NX
	Props  []NX
	Consts []NX
	Subs   []*D
	late   bool // Constants placed at the end of the body.
}

// Late places constants at the end of the body.
func (d *D) Late() *D { d.late = true; return d }

func nxs(l []NX) []string {
	r := []string{}
	for _, n := range l {
		r = append(r, n.String())
	}
	return r
}

func (d *D) def() *Def {
	f := &Def{IsType: d.IsType, Name: d.Name, Typ: d.Typ, Params: nxs(d.Params), Args: nxs(d.Args)}
	if d.Count != nil {
		f.Count = d.Count.String()
	}
	for _, p := range d.Props {
		f.Props = append(f.Props, PV{p.Name, p.X.String()})
	}
	for _, c := range d.Consts {
		if d.late {
			f.Tail = append(f.Tail, "const "+c.String())
		} else {
			f.Consts = append(f.Consts, PV{c.Name, c.X.String()})
		}
	}
	for _, s := range d.Subs {
		f.Subs = append(f.Subs, s.def())
	}
	return f
}

// FileM is a model of a source file.
type FileM struct {
	Imports [][2]string // Alias (may be empty), path.
	Consts  []NX
	Defs    []*D
	Late    bool // Constants at the end of the file.
}

// Source renders the file.
func (f *FileM) Source() string {
	var b strings.Builder
	for _, i := range f.Imports {
		if i[0] != "" {
			b.WriteString("import " + i[0] + " \"" + i[1] + "\"\n")
		} else {
			b.WriteString("import \"" + i[1] + "\"\n")
		}
	}
	cs := ""
	for _, c := range f.Consts {
		cs += "const " + c.String() + "\n"
	}
	if !f.Late {
		b.WriteString(cs)
	}
	for _, d := range f.Defs {
		d.def().Write(&b, 0)
	}
	if f.Late {
		b.WriteString(cs)
	}
	return b.String()
}

// PkgM is a model of a package.
type PkgM struct {
	Name  string // Import name without prefix.
	Files []*FileM
}

// Prog is a model of the whole description.
type Prog struct {
	Main *FileM
	Pkgs []*PkgM
}

// Case renders the model.
func (p *Prog) Case() *Case {
	c := &Case{Src: p.Main.Source(), Meta: p}
	for _, k := range p.Pkgs {
		if c.Files == nil {
			c.Files = map[string]string{}
		}
		for i, f := range k.Files {
			c.Files[fmt.Sprintf("fbd-%s/f%d.fbd", k.Name, i)] = f.Source()
		}
	}
	return c
}

// Node is an elaborated functionality.
type Node struct {
	Kind   string
	Name   string
	Array  bool
	Count  int64
	Props  map[string]any
	Consts map[string]any
	Kids   []*Node
}

// ErrNo is any reason for rejecting the description.
type ErrNo struct{ S string }

func (e ErrNo) Error() string { return e.S }

func no(f string, a ...any) error { return ErrNo{fmt.Sprintf(f, a...)} }

// frame is an instance of a scope.
type frame struct {
	up     *frame
	d      *D
	bind   map[string]bound
	file   *FileM
	pkg    *PkgM
	prog   *Prog
	search []*FileM // For package level frame.
}

type bound struct {
	x *X
	f *frame
}

func (f *frame) root() *frame {
	for f.up != nil {
		f = f.up
	}
	return f
}

func (p *Prog) fileFrame(pkg *PkgM, file *FileM) *frame {
	fs := []*FileM{file}
	if pkg != nil {
		fs = pkg.Files
	}
	return &frame{file: file, pkg: pkg, prog: p, search: fs}
}

// imported returns frames of the package imported under the name.
func (f *frame) imported(name string) (*PkgM, error) {
	r := f.root()
	for _, i := range r.file.Imports {
		var pk *PkgM
		for _, k := range r.prog.Pkgs {
			if k.Name == i[1] {
				pk = k
			}
		}
		n := i[0]
		if n == "" {
			n = i[1]
		}
		if n == name {
			if pk == nil {
				return nil, no("no package %s", i[1])
			}
			return pk, nil
		}
	}
	return nil, no("package %s not imported", name)
}

func (f *frame) constant(name string) (bound, error) {
	if a, b, ok := strings.Cut(name, "."); ok {
		pk, err := f.imported(a)
		if err != nil {
			return bound{}, err
		}
		for _, fl := range pk.Files {
			for _, c := range fl.Consts {
				if c.Name == b {
					return bound{c.X, f.root().prog.fileFrame(pk, fl)}, nil
				}
			}
		}
		return bound{}, no("no constant %s", name)
	}
	for ; f != nil; f = f.up {
		if f.d == nil {
			for _, fl := range f.search {
				for _, c := range fl.Consts {
					if c.Name == name {
						return bound{c.X, f.prog.fileFrame(f.pkg, fl)}, nil
					}
				}
			}
			break
		}
		for _, c := range f.d.Consts {
			if c.Name == name {
				return bound{c.X, f}, nil
			}
		}
		if b, ok := f.bind[name]; ok {
			return b, nil
		}
	}
	return bound{}, no("no constant %s", name)
}

func (f *frame) typ(name string) (*D, *frame, error) {
	if a, b, ok := strings.Cut(name, "."); ok {
		pk, err := f.imported(a)
		if err != nil {
			return nil, nil, err
		}
		for _, fl := range pk.Files {
			for _, d := range fl.Defs {
				if d.IsType && d.Name == b {
					return d, f.root().prog.fileFrame(pk, fl), nil
				}
			}
		}
		return nil, nil, no("no type %s", name)
	}
	for ; f != nil; f = f.up {
		if f.d == nil {
			for _, fl := range f.search {
				for _, d := range fl.Defs {
					if d.IsType && d.Name == name {
						return d, f.prog.fileFrame(f.pkg, fl), nil
					}
				}
			}
			break
		}
		for _, d := range f.d.Subs {
			if d.IsType && d.Name == name {
				return d, f, nil
			}
		}
	}
	return nil, nil, no("no type %s", name)
}

func (x *X) eval(f *frame, depth int) (any, error) {
	if depth > 1000 {
		return nil, no("cycle")
	}
	switch {
	case x.Raw != "":
		return x.Val, nil
	case x.Ref != "":
		b, err := f.constant(x.Ref)
		if err != nil {
			return nil, err
		}
		return b.x.eval(b.f, depth+1)
	case x.L != nil:
		l, err := x.L.eval(f, depth+1)
		if err != nil {
			return nil, err
		}
		r, err := x.R.eval(f, depth+1)
		if err != nil {
			return nil, err
		}
		a, ok := l.(int64)
		b, ok2 := r.(int64)
		if !ok || !ok2 {
			return nil, no("sum of %T and %T", l, r)
		}
		return a + b, nil
	}
	return x.Lit, nil
}

// bindArgs returns bindings of type parameters.
func bindArgs(t *D, tf *frame, args []NX, user *frame) (map[string]bound, error) {
	m := map[string]bound{}
	if len(args) > len(t.Params) {
		return nil, no("too many arguments")
	}
	named := false
	for i, a := range args {
		n := a.Name
		if n == "" {
			if named {
				return nil, no("positional argument after named one")
			}
			n = t.Params[i].Name
		} else {
			named = true
			known := false
			for _, p := range t.Params {
				known = known || p.Name == n
			}
			if !known {
				return nil, no("no parameter %s", n)
			}
		}
		if _, ok := m[n]; ok {
			return nil, no("repeated argument %s", n)
		}
		m[n] = bound{a.X, user}
	}
	for _, p := range t.Params {
		if _, ok := m[p.Name]; !ok {
			if p.X == nil {
				return nil, no("missing argument %s", p.Name)
			}
			m[p.Name] = bound{p.X, tf}
		}
	}
	return m, nil
}

func isBase(s string) bool { return s == "bus" || kindFields[s] != "" }

// Elab elaborates the main bus.
func (p *Prog) Elab() (*Node, error) {
	f := p.fileFrame(nil, p.Main)
	// All argument lists have to match, even these of unused types.
	var visit func(fr *frame, ds []*D) error
	visit = func(fr *frame, ds []*D) error {
		for _, d := range ds {
			df := &frame{up: fr, d: d}
			if !isBase(d.Typ) {
				t, tf, err := df.typ(d.Typ)
				if err != nil {
					return err
				}
				if _, err := bindArgs(t, tf, d.Args, df); err != nil {
					return err
				}
			} else if len(d.Args) > 0 {
				return no("arguments for base type")
			}
			dflt := false
			for _, p := range d.Params {
				if dflt && p.X == nil {
					return no("parameter without default after one with default")
				}
				dflt = dflt || p.X != nil
			}
			if err := visit(df, d.Subs); err != nil {
				return err
			}
		}
		return nil
	}
	if err := visit(f, p.Main.Defs); err != nil {
		return nil, err
	}
	for _, k := range p.Pkgs {
		for _, fl := range k.Files {
			if err := visit(p.fileFrame(k, fl), fl.Defs); err != nil {
				return nil, err
			}
		}
	}
	if _, err := p.Consts(); err != nil {
		return nil, err
	}
	for _, d := range p.Main.Defs {
		if !d.IsType && d.Name == "main" {
			return elab(d, f, 0)
		}
	}
	return nil, no("no main bus")
}

// Consts returns constants of all packages.
func (p *Prog) Consts() (map[string]map[string]any, error) {
	r := map[string]map[string]any{}
	get := func(name string, pk *PkgM, files []*FileM) error {
		m := map[string]any{}
		for _, fl := range files {
			for _, c := range fl.Consts {
				if _, ok := m[c.Name]; ok {
					return no("constant %s repeated", c.Name)
				}
				v, err := c.X.eval(p.fileFrame(pk, fl), 0)
				if err != nil {
					return err
				}
				m[c.Name] = v
			}
		}
		r[name] = m
		return nil
	}
	if err := get("main", nil, []*FileM{p.Main}); err != nil {
		return nil, err
	}
	for _, k := range p.Pkgs {
		if err := get(k.Name, k, k.Files); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func elab(d *D, up *frame, depth int) (*Node, error) {
	if depth > 100 {
		return nil, no("cycle")
	}
	n := &Node{Name: d.Name, Count: 1, Props: map[string]any{}, Consts: map[string]any{}}
	chain := []*frame{}
	f := &frame{up: up, d: d}
	for {
		chain = append(chain, f)
		if len(chain) > 30 {
			return nil, no("cycle")
		}
		if isBase(f.d.Typ) {
			n.Kind = f.d.Typ
			break
		}
		t, tf, err := f.typ(f.d.Typ)
		if err != nil {
			return nil, err
		}
		nf := &frame{up: tf, d: t}
		m, err := bindArgs(t, nf, f.d.Args, f)
		if err != nil {
			return nil, err
		}
		nf.bind = m
		f = nf
	}
	for i := len(chain) - 1; i >= 0; i-- {
		f := chain[i]
		if f.d.Count != nil {
			if n.Array {
				return nil, no("array size set twice")
			}
			n.Array = true
			v, err := f.d.Count.eval(f, 0)
			if err != nil {
				return nil, err
			}
			c, ok := v.(int64)
			if !ok {
				return nil, no("array size is %T", v)
			}
			n.Count = c
		}
		for _, p := range f.d.Props {
			if _, ok := n.Props[p.Name]; ok {
				return nil, no("property set twice")
			}
			v, err := p.X.eval(f, 0)
			if err != nil {
				return nil, err
			}
			n.Props[p.Name] = v
		}
		for _, c := range f.d.Consts {
			v, err := c.X.eval(f, 0)
			if err != nil {
				return nil, err
			}
			if _, ok := n.Consts[c.Name]; ok {
				return nil, no("constant %s defined twice", c.Name)
			}
			n.Consts[c.Name] = v
		}
		for _, s := range f.d.Subs {
			if s.IsType {
				continue
			}
			k, err := elab(s, f, depth+1)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
		}
	}
	return n, nil
}

// ConstsOf flattens reported constants.
func ConstsOf(c Consts) map[string]any {
	m := map[string]any{}
	put := func(k string, v any) {
		if _, ok := m[k]; ok {
			m[k] = "reported more than once"
			return
		}
		m[k] = v
	}
	for k, v := range c.Bools {
		put(k, v)
	}
	for k, v := range c.BoolLists {
		put(k, v)
	}
	for k, v := range c.Floats {
		put(k, v)
	}
	for k, v := range c.Ints {
		put(k, v)
	}
	for k, v := range c.IntLists {
		put(k, v)
	}
	for k, v := range c.Strings {
		put(k, v)
	}
	return m
}

// showMap prints the map in a stable order.
func ShowMap(m map[string]any) string {
	ks := sortedKeys(m)
	r := []string{}
	for _, k := range ks {
		r = append(r, fmt.Sprintf("%s: %v (%T)", k, m[k], m[k]))
	}
	return "{" + strings.Join(r, ", ") + "}"
}

// CompareNode compares the elaborated model with the output. Only properties width and size are compared.
func CompareNode(n *Node, got any, path string, bad func(string, ...any)) {
	v, ok := got.(reflect.Value)
	if !ok {
		v = reflect.ValueOf(got)
	}
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	path += "/" + n.Name
	if a, c := v.FieldByName("IsArray").Bool(), v.FieldByName("Count").Int(); a != n.Array || c != n.Count {
		bad("%s: array %v with %d items, expected array %v with %d items", path, a, c, n.Array, n.Count)
	}
	if w, ok := n.Props["width"]; ok {
		if f := v.FieldByName("Width"); f.Int() != w {
			bad("%s: width %d, expected %v", path, f.Int(), w)
		}
	}
	if f := v.FieldByName("Consts"); f.IsValid() {
		m := ConstsOf(f.Interface().(Consts))
		if !reflect.DeepEqual(m, n.Consts) {
			bad("%s: constants %s, expected %s", path, ShowMap(m), ShowMap(n.Consts))
		}
	}
	for _, k := range Kinds {
		want := []string{}
		kids := []*Node{}
		for _, c := range n.Kids {
			if c.Kind == k {
				kids = append(kids, c)
				want = append(want, c.Name)
			}
		}
		have := []string{}
		l := []reflect.Value{}
		for _, x := range List(v, k) {
			nm := x.FieldByName("Name").String()
			if k == "static" && nm == "ID" && n.Kind == "bus" {
				continue
			}
			l = append(l, x)
			have = append(have, nm)
		}
		// The order of functionalities is not the subject of this comparison.
		hs := append([]string{}, have...)
		ws := append([]string{}, want...)
		sort.Strings(hs)
		sort.Strings(ws)
		if fmt.Sprint(hs) != fmt.Sprint(ws) {
			bad("%s: functionalities of kind %s %v, expected %v", path, k, have, want)
			continue
		}
		for _, c := range kids {
			x, _ := Find(v, k, c.Name)
			CompareNode(c, x, path, bad)
		}
	}
}

// JudgeElab is the oracle for descriptions with the model.
func JudgeElab(p *Prog, o *Outcome) []Viol {
	n, err := p.Elab()
	if err != nil {
		if o.Kind == Reject {
			return nil
		}
		return []Viol{{Sig: "accepted", Msg: fmt.Sprintf("expected rejection (%v), got %s %s", err, o.Kind, o.Msg)}}
	}
	if v := NotOK(o); v != nil {
		return v
	}
	var vs []Viol
	CompareNode(n, o.Bus, "", func(f string, a ...any) {
		vs = append(vs, Viol{"value", fmt.Sprintf(f, a...)})
	})
	if o.Pkgs != nil {
		cs, _ := p.Consts()
		if len(cs) != len(o.Pkgs) {
			vs = append(vs, Viol{"packages", fmt.Sprintf("dump of constants has %d packages, expected %d", len(o.Pkgs), len(cs))})
		}
		for _, k := range sortedKeys(cs) {
			pk, ok := o.Pkgs[k]
			if !ok || pk == nil {
				vs = append(vs, Viol{"packages", "dump of constants lacks package " + k})
				continue
			}
			if m := ConstsOf(pk.Consts); !reflect.DeepEqual(m, cs[k]) {
				vs = append(vs, Viol{"dump", fmt.Sprintf("constants of package %s %s, expected %s", k, ShowMap(m), ShowMap(cs[k]))})
			}
		}
	}
	return vs
}
