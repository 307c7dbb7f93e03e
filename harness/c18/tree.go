package main

import "strings"

// node is an element of a description.
type node struct {
	kind   string // import, importblk, const, constblk, type, inst
	head   string // Everything but the name, the base type or the assigned value.
	name   string
	params string // "(W = 8)"
	count  string // "[4]"
	typ    string // Base type or name of the type with arguments, value, path.
	base   string // Base type of instantiation or type definition.
	one    bool   // One line form.
	items  []item
	scoped bool // Refers to symbols which are not visible at the top level.

	extracted *node // Type to be placed at the top level.
	bottom    bool
}

// item is a line with properties or an inner element.
type item struct {
	props []prop
	n     *node
}

type prop struct{ name, val string }

// p parses "width = 3; atomic = false" into a list of properties.
func p(s string) []prop {
	r := []prop{}
	for _, x := range strings.Split(s, "; ") {
		k, v, _ := strings.Cut(x, " = ")
		r = append(r, prop{k, v})
	}
	return r
}

func inst(name, count, typ, base string, items ...any) *node {
	n := &node{kind: "inst", name: name, count: count, typ: typ, base: base}
	for _, i := range items {
		switch i := i.(type) {
		case string: // Every property in own line.
			for _, q := range p(i) {
				n.items = append(n.items, item{props: []prop{q}})
			}
		case *node:
			n.items = append(n.items, item{n: i})
		}
	}
	return n
}

// f is an instantiation of a base type.
func f(name, typ string, items ...any) *node {
	count := ""
	if i := strings.Index(typ, "]"); i >= 0 {
		count, typ = typ[:i+1], typ[i+1:]
	}
	return inst(name, count, typ, typ, items...)
}

func tdef(name, params, count, typ, base string, items ...any) *node {
	n := inst(name, count, typ, base, items...)
	n.kind, n.params = "type", params
	return n
}

func konst(name, val string) *node { return &node{kind: "const", name: name, typ: val} }

func block(kind string, ns ...*node) *node {
	n := &node{kind: kind}
	for _, x := range ns {
		n.items = append(n.items, item{n: x})
	}
	return n
}

func imp(name, path string) *node { return &node{kind: "import", name: name, typ: `"` + path + `"`} }

func (n *node) clone() *node {
	c := *n
	c.items = make([]item, len(n.items))
	for i, it := range n.items {
		c.items[i] = item{props: append([]prop{}, it.props...)}
		if it.n != nil {
			c.items[i].n = it.n.clone()
		}
	}
	return &c
}

func cloneAll(l []*node) []*node {
	r := make([]*node, len(l))
	for i, n := range l {
		r[i] = n.clone()
	}
	return r
}

func propLine(ps []prop) string {
	l := []string{}
	for _, q := range ps {
		l = append(l, q.name+" = "+q.val)
	}
	return strings.Join(l, "; ")
}

func (n *node) onlyProps() bool {
	for _, it := range n.items {
		if it.n != nil {
			return false
		}
	}
	return len(n.items) > 0
}

// lines renders the element.
func (n *node) lines(ind int, out *[]string) {
	in := strings.Repeat("  ", ind)
	switch n.kind {
	case "import":
		s := in + "import "
		if n.name != "" {
			s += n.name + " "
		}
		*out = append(*out, s+n.typ)
		return
	case "const":
		*out = append(*out, in+"const "+n.name+" = "+n.typ)
		return
	case "constblk", "importblk":
		*out = append(*out, in+strings.TrimSuffix(n.kind, "blk"))
		for _, it := range n.items {
			s := it.n.name
			if s != "" {
				s += " "
			}
			if n.kind == "constblk" {
				s += "= "
			}
			*out = append(*out, in+"  "+s+it.n.typ)
		}
		return
	}
	s := in
	if n.kind == "type" {
		s += "type "
	}
	s += n.name + n.params + " " + n.count + n.typ
	if n.one && n.onlyProps() {
		for _, it := range n.items {
			s += "; " + propLine(it.props)
		}
		*out = append(*out, s)
		return
	}
	*out = append(*out, s)
	for _, it := range n.items {
		if it.n != nil {
			it.n.lines(ind+1, out)
		} else {
			*out = append(*out, in+"  "+propLine(it.props))
		}
	}
}

func renderLines(l []*node) []string {
	out := []string{}
	for _, n := range l {
		n.lines(0, &out)
	}
	return out
}

func render(l []*node) string { return strings.Join(renderLines(l), "\n") + "\n" }

// movable tells whether the order of two adjacent items does not matter.
func movable(a, b item) bool {
	if a.n == nil || b.n == nil {
		return true
	}
	return a.n.kind != "inst" || b.n.kind != "inst" || a.n.base != b.n.base
}

// rewriting is a single change of the structure.
type rewriting struct {
	what string
	tree []*node
}

// holder gives access to all lists of items.
func holders(top *node, fn func(h *node, path []int)) {
	var walk func(n *node, path []int)
	walk = func(n *node, path []int) {
		fn(n, path)
		for i, it := range n.items {
			if it.n != nil {
				walk(it.n, append(append([]int{}, path...), i))
			}
		}
	}
	walk(top, nil)
}

func at(n *node, path []int) *node {
	for _, i := range path {
		n = n.items[i].n
	}
	return n
}

// wrap puts top level elements under an artificial root.
func wrap(l []*node) *node {
	r := &node{kind: "root"}
	for _, n := range l {
		r.items = append(r.items, item{n: n})
	}
	return r
}

func unwrap(r *node) []*node {
	l := []*node{}
	for _, it := range r.items {
		l = append(l, it.n)
	}
	return l
}

// structural returns all single changes of the structure which shall not change the output.
func structural(l []*node, fresh string) []rewriting {
	root := wrap(l)
	res := []rewriting{}
	edit := func(what string, path []int, fn func(h, parent *node, idx int)) {
		r := root.clone()
		h := at(r, path)
		var parent *node
		idx := -1
		if len(path) > 0 {
			parent = at(r, path[:len(path)-1])
			idx = path[len(path)-1]
		}
		fn(h, parent, idx)
		res = append(res, rewriting{what, unwrap(r)})
	}
	holders(root, func(h *node, path []int) {
		nm := h.kind + " " + h.name
		if h.kind == "inst" || h.kind == "type" {
			if h.onlyProps() {
				edit(nm+": one line form toggled", path, func(h, _ *node, _ int) { h.one = !h.one })
			}
			// Lines of properties.
			for i, it := range h.items {
				if len(it.props) > 1 {
					for k := 1; k < len(it.props); k++ {
						edit(nm+": line of properties split", path, func(h, _ *node, _ int) {
							a, b := it.props[:k:k], it.props[k:]
							h.items = append(append(append([]item{}, h.items[:i]...), item{props: a}, item{props: b}), h.items[i+1:]...)
						})
						edit(nm+": properties swapped", path, func(h, _ *node, _ int) {
							ps := h.items[i].props
							ps[k-1], ps[k] = ps[k], ps[k-1]
						})
					}
				}
				if i > 0 && len(it.props) > 0 && len(h.items[i-1].props) > 0 {
					edit(nm+": lines of properties joined", path, func(h, _ *node, _ int) {
						ps := append(append([]prop{}, h.items[i-1].props...), it.props...)
						h.items = append(append(append([]item{}, h.items[:i-1]...), item{props: ps}), h.items[i+1:]...)
					})
				}
			}
		}
		// Order.
		for i := 1; i < len(h.items); i++ {
			if movable(h.items[i-1], h.items[i]) {
				edit(nm+": items swapped", path, func(h, _ *node, _ int) {
					h.items[i-1], h.items[i] = h.items[i], h.items[i-1]
				})
			}
			if i > 1 {
				ok := true
				for _, x := range h.items[:i] {
					ok = ok && movable(x, h.items[i])
				}
				if ok {
					edit(nm+": item moved to the front", path, func(h, _ *node, _ int) {
						x := h.items[i]
						copy(h.items[1:i+1], h.items[:i])
						h.items[0] = x
					})
				}
			}
		}
		for i := 0; i+2 < len(h.items); i++ {
			ok := true
			for _, x := range h.items[i+1:] {
				ok = ok && movable(x, h.items[i])
			}
			if ok {
				edit(nm+": item moved to the end", path, func(h, _ *node, _ int) {
					x := h.items[i]
					copy(h.items[i:], h.items[i+1:])
					h.items[len(h.items)-1] = x
				})
			}
		}
		// Blocks of constants and imports.
		if h.kind == "constblk" || h.kind == "importblk" {
			edit(nm+": dissolved", path, func(h, parent *node, idx int) {
				its := append([]item{}, parent.items[:idx]...)
				its = append(its, h.items...)
				parent.items = append(its, parent.items[idx+1:]...)
			})
			return
		}
		for i, it := range h.items {
			if it.n == nil || it.n.kind != "const" && it.n.kind != "import" {
				continue
			}
			edit(nm+": const or import put into block", path, func(h, _ *node, _ int) {
				h.items[i] = item{n: block(it.n.kind+"blk", it.n)}
			})
			for _, d := range []int{-1, 1} {
				if i+d < 0 || i+d >= len(h.items) {
					continue
				}
				if nb := h.items[i+d].n; nb != nil && (nb.kind == it.n.kind || nb.kind == it.n.kind+"blk") {
					edit(nm+": const or import merged with the adjacent", path, func(h, _ *node, _ int) {
						nb := h.items[i+d].n
						bl := nb
						if nb.kind == it.n.kind {
							bl = block(it.n.kind+"blk", nb)
						}
						if d < 0 {
							bl.items = append(bl.items, item{n: it.n})
						} else {
							bl.items = append([]item{{n: it.n}}, bl.items...)
						}
						h.items[i+d] = item{n: bl}
						h.items = append(h.items[:i:i], h.items[i+1:]...)
					})
				}
			}
		}
		// Body divided between two types.
		if (h.kind == "inst" || h.kind == "type") && len(path) > 0 && h.base != "" {
			for _, sp := range splits(h) {
				for _, where := range []string{"before", "after", "top", "bottom"} {
					if (where == "top" || where == "bottom") && len(path) == 1 || (where == "bottom" || where == "after") && sp.rare {
						continue
					}
					if (where == "top" || where == "bottom") && h.scoped {
						continue
					}
					edit(nm+": type extracted "+where+", "+sp.what, path, func(h, parent *node, idx int) {
						t := &node{kind: "type", name: fresh, typ: h.typ, base: h.base, items: sp.low}
						if h.kind == "type" {
							// Parameters are visible only in the type.
							if h.params != "" {
								t.params = h.params
							}
						}
						typ := fresh
						if t.params != "" {
							typ += argsOf(t.params)
						}
						h.typ, h.items = typ, sp.high
						if where == "before" || where == "after" {
							t.scoped = h.scoped
							h.scoped = h.scoped || parent.kind != "root"
						}
						switch where {
						case "before":
							parent.items = append(append(append([]item{}, parent.items[:idx]...), item{n: t}), parent.items[idx:]...)
						case "after":
							parent.items = append(append(append([]item{}, parent.items[:idx+1]...), item{n: t}), parent.items[idx+1:]...)
						case "top", "bottom":
							// Done by the caller, needs the root.
							h.extracted, h.bottom = t, where == "bottom"
						}
					})
				}
			}
		}
	})
	// Extracted types for the top level.
	for i := range res {
		r := wrap(res[i].tree)
		var t *node
		bottom := false
		holders(r, func(h *node, _ []int) {
			if h.extracted != nil {
				t, bottom = h.extracted, h.bottom
				h.extracted = nil
			}
		})
		if t != nil {
			if bottom {
				res[i].tree = append(res[i].tree, t)
			} else {
				res[i].tree = append([]*node{t}, res[i].tree...)
			}
		}
	}
	return res
}

// argsOf turns parameters "(A, B = 2)" into arguments "(A, B)".
func argsOf(params string) string {
	l := []string{}
	for _, x := range strings.Split(strings.Trim(params, "()"), ", ") {
		n, _, _ := strings.Cut(x, " = ")
		l = append(l, n)
	}
	return "(" + strings.Join(l, ", ") + ")"
}

type split struct {
	what      string
	low, high []item
	rare      bool
}

// splits returns divisions of the body between the extracted type (low) and the rest (high).
// Order of functionalities is preserved. Constants and types stay with everything else
// because they are visible only in the body they are defined in.
func splits(h *node) []split {
	props := []prop{}
	kids := []item{}
	defs := []item{}
	for _, it := range h.items {
		switch {
		case it.n == nil:
			props = append(props, it.props...)
		case it.n.kind == "inst":
			kids = append(kids, it)
		default:
			defs = append(defs, it)
		}
	}
	res := []split{}
	masks := []int{}
	for m := 0; m < 1<<len(props); m++ {
		if len(props) <= 3 || m == 0 || m == 1<<len(props)-1 || m&(m-1) == 0 {
			masks = append(masks, m)
		}
	}
	for _, m := range masks {
		for cut := 0; cut <= len(kids); cut++ {
			s := split{rare: cut != len(kids)/2 && m != 0}
			if len(defs) > 0 && cut != 0 && cut != len(kids) {
				continue
			}
			for i, q := range props {
				if m>>i&1 != 0 {
					s.low = append(s.low, item{props: []prop{q}})
				} else {
					s.high = append(s.high, item{props: []prop{q}})
				}
			}
			if len(defs) > 0 {
				// Properties may use constants, so all have to stay together.
				if m != 0 && m != 1<<len(props)-1 || (m == 0) != (cut == 0) && len(props) > 0 {
					continue
				}
				if cut == 0 {
					s.high = append(append([]item{}, defs...), s.high...)
				} else {
					s.low = append(append([]item{}, defs...), s.low...)
				}
			}
			s.low = append(s.low, kids[:cut]...)
			s.high = append(s.high, kids[cut:]...)
			s.what = "properties " + propLine(flat(s.low)) + " and the first " + string(rune('0'+cut)) + " inner ones moved"
			res = append(res, s)
		}
	}
	return res
}

func flat(l []item) []prop {
	r := []prop{}
	for _, it := range l {
		r = append(r, it.props...)
	}
	return r
}
