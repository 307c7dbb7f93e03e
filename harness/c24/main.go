// C24: queries of the exported types agree with the description.
package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// node is a functionality of the description.
type node struct {
	kind  string
	name  string
	count int64 // -1 if it is not an array.
	props []string
	sub   []*node
	chain bool // Inner functionalities and properties are put into a type.

	readOnly bool // It has nothing writable.
	delay    int  // 0 - there is no delay, 1 - zero delay, 2 - non zero delay
}

func n(kind, name string, sub ...*node) *node {
	return &node{kind: kind, name: name, count: -1, sub: sub, readOnly: kind != "config" && kind != "mask" && kind != "param"}
}

func (x *node) with(props ...string) *node {
	c := *x
	c.props = append(append([]string{}, x.props...), props...)
	return &c
}

func (x *node) body(b *strings.Builder, ind string) {
	for _, p := range x.props {
		b.WriteString(ind + p + "\n")
	}
	switch x.kind {
	case "static":
		b.WriteString(ind + "init-value = 0\n")
	case "blackbox":
		b.WriteString(ind + "size = 4\n")
	}
	for _, s := range x.sub {
		s.render(b, ind)
	}
}

func (x *node) render(b *strings.Builder, ind string) {
	arr := ""
	if x.count >= 0 {
		arr = fmt.Sprintf("[%d]", x.count)
	}
	if x.chain {
		fmt.Fprintf(b, "%stype T%s %s\n", ind, x.name, x.kind)
		x.body(b, ind+"  ")
		fmt.Fprintf(b, "%s%s %sT%s\n", ind, x.name, arr, x.name)
		return
	}
	fmt.Fprintf(b, "%s%s %s%s\n", ind, x.name, arr, x.kind)
	x.body(b, ind+"  ")
}

func (x *node) src() string {
	b := &strings.Builder{}
	x.render(b, "")
	return b.String()
}

type model struct{ main *node }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	if c.Run != nil {
		if s, _ := o.Obs.(string); s != "" || o.Kind != lib.OK {
			return []lib.Viol{{Sig: "empty", Msg: s + o.Msg}}
		}
		return nil
	}
	if o.Kind != lib.OK {
		return lib.NotOK(o)
	}
	var vs []lib.Viol
	bad := func(sig, f string, a ...any) { vs = append(vs, lib.Viol{Sig: sig, Msg: fmt.Sprintf(f, a...)}) }
	queries(o.Obs, c.Meta.(*model).main, bad)
	return vs
}

func emit(g *lib.Gen, f func() *node) bool {
	return g.Emit(func() *lib.Case {
		m := f()
		return &lib.Case{Src: m.src(), API: true, Meta: &model{m}}
	})
}

func irqs() []*node {
	r := []*node{}
	for _, c := range []string{"", `clear = "Explicit"`, `clear = "On Read"`} {
		for _, e := range []string{"", "add-enable = false", "add-enable = true"} {
			x := n("irq", "")
			x.readOnly = c == `clear = "On Read"` && e != "add-enable = true"
			for _, p := range []string{c, e} {
				if p != "" {
					x = x.with(p)
				}
			}
			r = append(r, x)
		}
	}
	return r
}

// lists calls f with all lists of up to depth elements.
func lists(els []*node, depth int, f func([]*node) bool) bool {
	var rec func(l []*node) bool
	rec = func(l []*node) bool {
		if len(l) > 0 && !f(l) {
			return false
		}
		if len(l) == depth {
			return true
		}
		for _, e := range els {
			c := *e
			c.name = fmt.Sprintf("x%d", len(l))
			if !rec(append(append([]*node{}, l...), &c)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

func groups(g *lib.Gen) {
	mixed := []*node{n("config", ""), n("mask", ""), n("static", ""), n("status", "")}
	alphabets := []struct {
		els   []*node
		depth int
		virt  bool
	}{
		{mixed, g.Pick(5, 7), true},
		{irqs(), g.Pick(4, 5), false},
		{[]*node{n("param", "")}, 5, false},
		{[]*node{n("return", "")}, 5, false},
	}
	for _, a := range alphabets {
		lists(a.els, a.depth, func(l []*node) bool {
			for virt := range 3 {
				if virt > 0 && !a.virt {
					continue
				}
				for place := range 4 {
					if !emit(g, func() *node {
						x := n("group", "g", l...)
						switch virt {
						case 1:
							x = x.with("virtual = false")
						case 2:
							x = x.with("virtual = true")
						}
						switch place {
						case 0:
							return n("bus", "main", x)
						case 1:
							x.count = 3
							return n("bus", "main", n("config", "c"), n("block", "b", x, n("group", "h", n("status", "s"))))
						case 2:
							x.chain = true
							return n("bus", "main", n("group", "h", n("config", "c")), x)
						}
						rev := []*node{}
						for i := range l {
							rev = append(rev, l[len(l)-1-i])
						}
						y := n("group", "h", rev...)
						y.chain = true
						return n("bus", "main", y, x)
					}) {
						return false
					}
				}
			}
			return true
		})
	}
}

// largeGroups puts one functionality different from the others at each position.
func largeGroups(g *lib.Gen) {
	ro, rw := []*node{n("static", ""), n("status", "")}, []*node{n("config", ""), n("mask", "")}
	for _, i := range irqs() {
		if i.readOnly {
			ro = append(ro, i)
		} else {
			rw = append(rw, i)
		}
	}
	for _, size := range []int{6, 9, 17, 33, g.Pick(40, 70)} {
		for _, c := range ro {
			for _, d := range append(append([]*node{}, rw...), ro...) {
				if (c.kind == "irq") != (d.kind == "irq") {
					continue // Irqs have own groups.
				}
				for at := range size {
					if !emit(g, func() *node {
						x := n("group", "g")
						for i := range size {
							e := *c
							if i == at {
								e = *d
							}
							e.name = fmt.Sprintf("x%d", i)
							x.sub = append(x.sub, &e)
						}
						return n("bus", "main", x)
					}) {
						return
					}
				}
			}
		}
	}
}

func delays(g *lib.Gen) {
	for _, k := range []string{"proc", "stream"} {
		for _, v := range []string{"0", "1", "2", "9", "10", "999", "1000", "1001", "999999", "1000000", "999999999", "1000000000", "1000000001", "2000000000", "4000000000", "4294967296", "5000000000", "18446744073"} {
			for _, u := range []string{"ns", "us", "ms", "s"} {
				for sub := range 3 {
					for _, chain := range []bool{false, true} {
						if !emit(g, func() *node {
							d := n(k, "p").with("delay = " + v + " " + u)
							d.delay = 2
							if v == "0" {
								d.delay = 1
							}
							d.chain = chain
							switch sub {
							case 1:
								d.sub = []*node{n("param", "a")}
							case 2:
								d.sub = []*node{n("return", "a")}
							}
							e := n(k, "q")
							return n("bus", "main", d, e, n("block", "b", e, d))
						}) {
							return
						}
					}
				}
			}
		}
	}
}

var kinds = []string{"blackbox", "config", "group", "irq", "mask", "proc", "static", "status", "stream", "block"}

// full adds inner functionalities of kinds which need them.
func full(k, name string) *node {
	x := n(k, name)
	switch k {
	case "group":
		x.sub = []*node{n("status", "s"), n("config", "k"), n("mask", name)}
	case "proc":
		x.sub = []*node{n("param", "p"), n("return", "r"), n("param", name)}
	case "stream":
		x.sub = []*node{n("return", "r"), n("return", name)}
	}
	return x
}

func names(g *lib.Gen) {
	for _, k := range kinds {
		for _, l := range kinds {
			for _, nm := range [][2]string{{"a", "b"}, {"b", "a"}, {"config", "bus"}, {"A", "a"}, {"x1", "x10"}} {
				for form := range 4 {
					if !emit(g, func() *node {
						x, y := full(k, nm[0]), full(l, nm[1])
						x.chain = form == 1
						y.chain = form == 2
						z := full(k, nm[0])
						z.chain = form == 1
						return n("bus", "main", x, y, n("block", "z", y, z, n("block", "y", x)))
					}) {
						return
					}
				}
			}
		}
	}
}

func arrays(g *lib.Gen) {
	for _, k := range kinds {
		if k == "irq" || k == "mask" {
			continue
		}
		for _, c := range []int64{0, 1, 2, 3, 7, 32, 33, 100} {
			for _, d := range []int64{-1, 0, 1, 4} {
				for _, chain := range []bool{false, true} {
					if k == "block" && (c == 0 || d == 0) {
						continue
					}
					if !emit(g, func() *node {
						x, y := full(k, "x"), full(k, "y")
						x.count, y.count, x.chain = c, d, chain
						return n("bus", "main", y, x)
					}) {
						return
					}
				}
			}
		}
	}
}

// trees checks start addresses of blocks.
func trees(g *lib.Gen) {
	regs := func(name string, own int) *node {
		x := n("block", name)
		for i := range own {
			x.sub = append(x.sub, n("config", fmt.Sprintf("c%d", i)))
		}
		return x
	}
	for a := range 5 {
		for b := range 5 {
			for c := range 4 {
				for _, ca := range []int64{-1, 1, 2, 3} {
					for _, cb := range []int64{-1, 2} {
						if !emit(g, func() *node {
							x, y, z := regs("x", a), regs("y", b), regs("z", c)
							x.count, y.count = ca, cb
							y.sub = append(y.sub, z)
							return n("bus", "main", x, n("config", "c"), y)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C24",
		Rule: "all groups of up to the bounded number of functionalities (all variants of irqs) in 4 places, all delays, all pairs of kinds with names, array sizes and small trees of blocks; " +
			"each query of the exported types is called on each functionality of the bus returned by Compile",
		Gen: func(g *lib.Gen) {
			for _, f := range []func(*lib.Gen){groups, largeGroups, delays, names, arrays, trees, apiCases} {
				if f(g); g.Stopped() {
					return
				}
			}
		},
		Eval: eval,
	})
}
