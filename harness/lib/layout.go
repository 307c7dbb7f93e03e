package lib

import (
	"fmt"
	"strings"
)

// E is a description of a single functionality.
type E struct {
	K     string // Base type.
	Name  string
	W     int64
	N     int64 // Array size, -1 for single functionality.
	NA    bool  // Non atomic.
	AE    bool  // irq: add-enable
	OnRd  bool  // irq: clear on read
	Delay bool
	Align int64
	Sub   []E // Inner functionalities.
	Of    *E  // Type of the functionality, its properties and inner functionalities are the first ones of the instance.
}

func S(k string, w int64) E    { return E{K: k, W: w, N: -1} }
func A(k string, n, w int64) E { return E{K: k, W: w, N: n} }
func Sna(k string, w int64) E  { return E{K: k, W: w, N: -1, NA: true} }
func Ana(k string, n, w int64) E {
	return E{K: k, W: w, N: n, NA: true}
}
func Blk(sub ...E) E { return E{K: "block", N: -1, Sub: sub} }
func Grp(sub ...E) E { return E{K: "group", N: -1, Sub: sub} }

var hasWidth = map[string]bool{"config": true, "mask": true, "static": true, "status": true, "param": true, "return": true}

// props returns properties of the functionality, negative width is a width that is not set.
func (e E) props() []string {
	props := []string{}
	if hasWidth[e.K] && e.W >= 0 {
		props = append(props, fmt.Sprintf("width = %d", e.W))
	}
	if e.K == "static" {
		props = append(props, "init-value = 0")
	}
	if e.NA {
		props = append(props, "atomic = false")
	}
	if e.AE {
		props = append(props, "add-enable = true")
	}
	if e.OnRd {
		props = append(props, `clear = "On Read"`)
	}
	if e.Delay {
		props = append(props, `delay = 5 ns`)
	}
	if e.Align > 0 {
		props = append(props, fmt.Sprintf("align = %d", e.Align))
	}
	return props
}

// Decl renders the declaration, indent is the number of indentation levels.
func (e E) Decl(b *strings.Builder, indent int) {
	ind := strings.Repeat("  ", indent)
	b.WriteString(ind)
	b.WriteString(e.Name)
	b.WriteByte(' ')
	if e.N >= 0 {
		fmt.Fprintf(b, "[%d]", e.N)
	}
	props, sub := e.props(), e.Sub
	if e.Of == nil {
		b.WriteString(e.K)
	} else {
		b.WriteString(e.Of.Name)
		inherited := e.Of.props()
		own := []string{}
		for _, p := range props {
			if !IsIn(inherited, p) {
				own = append(own, p)
			}
		}
		props, sub = own, sub[len(e.Of.Sub):]
	}
	if len(sub) == 0 {
		if len(props) > 0 {
			b.WriteString("; " + strings.Join(props, "; "))
		}
		b.WriteByte('\n')
		return
	}
	b.WriteByte('\n')
	for _, p := range props {
		b.WriteString(ind + "  " + p + "\n")
	}
	for _, s := range sub {
		s.Decl(b, indent+1)
	}
}

// types appends types used by functionalities to the list.
func types(es []E, l []*E) []*E {
	for _, e := range es {
		if e.Of != nil {
			known := false
			for _, t := range l {
				known = known || t.Name == e.Of.Name
			}
			if !known {
				l = append(l, e.Of)
				l = types([]E{*e.Of}, l)
			}
		}
		l = types(e.Sub, l)
	}
	return l
}

// Named returns copy of list with unique names assigned.
func Named(es []E) []E {
	r := make([]E, len(es))
	for i, e := range es {
		if e.Name == "" {
			e.Name = fmt.Sprintf("%c%c%d", e.K[0], e.K[len(e.K)-1], i)
		}
		e.Sub = Named(e.Sub)
		r[i] = e
	}
	return r
}

// Layout is a model of the layout case.
type Layout struct {
	Bus   int64
	Align int64
	TS    bool
	Els   []E
}

// Source renders description.
func (l *Layout) Source() string {
	var b strings.Builder
	fmt.Fprintf(&b, "main bus\n  width = %d\n", l.Bus)
	if l.Align > 0 {
		fmt.Fprintf(&b, "  align = %d\n", l.Align)
	}
	for _, e := range l.Els {
		e.Decl(&b, 1)
	}
	for _, t := range types(l.Els, nil) {
		d := *t
		d.N = -1
		d.Sub = Named(d.Sub)
		b.WriteString("type ")
		d.Decl(&b, 0)
	}
	return b.String()
}

func NewLayout(bus int64, els ...E) *Layout {
	return &Layout{Bus: bus, Els: Named(els)}
}

func (l *Layout) Case() *Case {
	return &Case{Src: l.Source(), Meta: l, TS: l.TS}
}

// Pos is a position of a bit.
type Pos struct{ Addr, Bit int64 }

// BitsOf returns location of every bit of every item, basing on the documented
// meaning of the access types. Error is returned when the descriptor makes no sense.
func BitsOf(a Access, bw int64) ([][]Pos, error) {
	items := [][]Pos{}
	lin := func(addr, bit, n int64) []Pos {
		r := make([]Pos, 0, n)
		for i := int64(0); i < n; i++ {
			o := bit + i
			r = append(r, Pos{addr + o/bw, o % bw})
		}
		return r
	}
	if a.ItemCount < 0 || a.ItemWidth < 0 || a.ItemCount > 1<<20 || a.ItemWidth > 1<<20 {
		return nil, fmt.Errorf("item count %d, item width %d", a.ItemCount, a.ItemWidth)
	}
	w, n := a.ItemWidth, a.ItemCount
	switch a.Type {
	case "SingleOneReg", "SingleNRegs":
		if n != 1 {
			return nil, fmt.Errorf("%s with %d items", a.Type, n)
		}
		items = append(items, lin(a.StartAddr, a.StartBit, w))
	case "ArrayOneReg", "ArrayNRegs":
		for i := int64(0); i < n; i++ {
			items = append(items, lin(a.StartAddr, a.StartBit+i*w, w))
		}
	case "ArrayOneInReg":
		for i := int64(0); i < n; i++ {
			items = append(items, lin(a.StartAddr+i, a.StartBit, w))
		}
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		if w == 0 {
			return nil, fmt.Errorf("%s with items of zero width", a.Type)
		}
		per := bw / w
		if per == 0 {
			return nil, fmt.Errorf("%s with items wider than register", a.Type)
		}
		for i := int64(0); i < n; i++ {
			items = append(items, lin(a.StartAddr+i/per, a.StartBit+(i%per)*w, w))
		}
	case "ArrayOneInNRegs":
		per := (w + bw - 1) / bw
		for i := int64(0); i < n; i++ {
			items = append(items, lin(a.StartAddr+i*per, a.StartBit, w))
		}
	default:
		return nil, fmt.Errorf("unknown access type %q", a.Type)
	}
	return items, nil
}

// Use is a use of registers by single functionality.
type Use struct {
	Name    string // Path within the block.
	Kind    string // Base type, irq enable is "enable".
	Owner   string // Functionality instantiated directly in the block.
	Acs     Access
	Width   int64
	IsArray bool
	Count   int64
	Bits    [][]Pos
	Err     error
}

// Uses returns all uses of registers of the block, subblocks are not included.
func Uses(b *Block, bw int64) []*Use {
	us := []*Use{}
	add := func(kind, owner string, f Func, width int64, a Access) {
		u := &Use{Name: owner, Kind: kind, Owner: owner, Acs: a, Width: width, IsArray: f.IsArray, Count: f.Count}
		if owner != f.Name {
			u.Name = owner + "." + f.Name
		}
		u.Bits, u.Err = BitsOf(a, bw)
		us = append(us, u)
	}
	for _, f := range b.Configs {
		add("config", f.Name, f.Func, f.Width, f.Access)
	}
	for _, f := range b.Masks {
		add("mask", f.Name, f.Func, f.Width, f.Access)
	}
	for _, f := range b.Statics {
		add("static", f.Name, f.Func, f.Width, f.Access)
	}
	for _, f := range b.Statuses {
		add("status", f.Name, f.Func, f.Width, f.Access)
	}
	for _, f := range b.Irqs {
		add("irq", f.Name, f.Func, 1, f.Access)
		if f.AddEnable {
			add("enable", f.Name, f.Func, 1, f.EnableAccess)
		}
	}
	for _, p := range b.Procs {
		for _, f := range p.Params {
			add("param", p.Name, f.Func, f.Width, f.Access)
		}
		for _, f := range p.Returns {
			add("return", p.Name, f.Func, f.Width, f.Access)
		}
	}
	for _, p := range b.Streams {
		for _, f := range p.Params {
			add("param", p.Name, f.Func, f.Width, f.Access)
		}
		for _, f := range p.Returns {
			add("return", p.Name, f.Func, f.Width, f.Access)
		}
	}
	return us
}

// Blocks calls f for the main bus and all subblocks.
func Blocks(b *Block, path string, f func(path string, b *Block, main bool)) {
	f(path, b, path == "")
	for _, s := range b.Subblocks {
		Blocks(s, path+"/"+s.Name, f)
	}
}

// NotOK is the common handling of executions which shall end with success.
// The reason why compilation failed does not matter, a legal description must compile.
func NotOK(o *Outcome) []Viol {
	switch o.Kind {
	case OK:
		if o.Bus == nil {
			return []Viol{{"no-bus", "there is no bus in the output"}}
		}
		return nil
	case Reject:
		return []Viol{{"rejected", "legal description is rejected: " + o.Msg}}
	default:
		return []Viol{{o.Kind.String(), "legal description is not compiled: " + o.Msg}}
	}
}

// Alphabet8 returns functionalities used for building descriptions for narrow buses.
func Alphabet8() []E {
	irqe, irqr, irqer := S("irq", 1), S("irq", 1), S("irq", 1)
	irqe.AE = true
	irqr.OnRd = true
	irqer.AE, irqer.OnRd = true, true
	pd := E{K: "proc", N: -1, Delay: true, Sub: []E{S("return", 9)}}
	return []E{
		S("config", 3), S("status", 3), S("irq", 1), S("static", 3), S("mask", 3),
		S("config", 5), S("config", 8), S("config", 11), Sna("config", 11), Sna("config", 6),
		A("config", 2, 3), A("config", 3, 3), A("config", 4, 4), A("config", 3, 5),
		S("mask", 8), S("mask", 13),
		S("static", 6), S("static", 8), S("static", 11), A("static", 2, 3), A("static", 3, 3), A("static", 2, 5),
		S("status", 1), S("status", 2), S("status", 5), S("status", 8), S("status", 11), S("status", 17),
		Sna("status", 2), Sna("status", 11), A("status", 2, 3), A("status", 3, 3), A("status", 2, 5),
		A("status", 2, 11), Ana("status", 5, 3), Ana("status", 2, 4), Ana("status", 2, 12),
		irqe, irqr, irqer,
		{K: "proc", N: -1}, {K: "proc", N: -1, Sub: []E{S("param", 3)}},
		{K: "proc", N: -1, Sub: []E{S("param", 5), S("return", 4)}}, pd,
		{K: "stream", N: -1}, {K: "stream", N: -1, Sub: []E{S("param", 9)}}, {K: "stream", N: -1, Sub: []E{S("return", 3)}},
	}
}

// Multisets emits all multisets of letters up to given size.
func Multisets(g *Gen, alpha []E, depth int, mk func(els []E) *Case) {
	pick := make([]int, 0, depth)
	var rec func(from int)
	emit := func() bool {
		p := append([]int{}, pick...)
		return g.Emit(func() *Case {
			els := make([]E, len(p))
			for i, j := range p {
				els[i] = alpha[j]
			}
			return mk(els)
		})
	}
	// Breadth first: the shortest counterexamples come first.
	for d := 0; d <= depth; d++ {
		var go_ func(from, left int)
		go_ = func(from, left int) {
			if g.Stopped() {
				return
			}
			if left == 0 {
				emit()
				return
			}
			for i := from; i < len(alpha); i++ {
				pick = append(pick, i)
				go_(i, left-1)
				pick = pick[:len(pick)-1]
			}
		}
		go_(0, d)
	}
	_ = rec
}

// Sequences emits all sequences of letters of size from..depth.
func Sequences(g *Gen, alpha []E, from, depth int, mk func(els []E) *Case) {
	pick := make([]int, 0, depth)
	for d := from; d <= depth; d++ {
		var rec func(left int)
		rec = func(left int) {
			if g.Stopped() {
				return
			}
			if left == 0 {
				p := append([]int{}, pick...)
				g.Emit(func() *Case {
					els := make([]E, len(p))
					for i, j := range p {
						els[i] = alpha[j]
					}
					return mk(els)
				})
				return
			}
			for i := range alpha {
				pick = append(pick, i)
				rec(left - 1)
				pick = pick[:len(pick)-1]
			}
		}
		rec(d)
	}
}

// WidthsFor returns interesting widths for given bus width.
func WidthsFor(bw int64) []int64 {
	seen := map[int64]bool{}
	ws := []int64{}
	for _, w := range []int64{0, 1, 2, bw/2 - 1, bw / 2, bw/2 + 1, bw - 1, bw, bw + 1, 2*bw - 1, 2 * bw, 2*bw + 1, 3*bw - 1, 3 * bw} {
		if w >= 0 && !seen[w] {
			seen[w] = true
			ws = append(ws, w)
		}
	}
	return ws
}

// Supported reports whether the compiler implements registerification of the functionality.
func Supported(e E, bw int64) bool {
	if e.N < 0 {
		return true
	}
	fits := e.W <= bw || e.N*e.W <= bw
	switch e.K {
	case "irq", "mask":
		return false
	case "config":
		return !e.NA && fits
	case "static":
		return fits
	}
	return true
}

// Singles emits every description with exactly one functionality, for all bus
// widths up to maxBus, all widths up to 3 registers and all array sizes up to maxN.
func Singles(g *Gen, buses []int64, maxN int64, kinds []string) {
	for _, bw := range buses {
		for _, k := range kinds {
			for w := int64(0); w <= 3*bw+1; w++ {
				for n := int64(-1); n <= maxN; n++ {
					for _, na := range []bool{false, true} {
						e := E{K: k, W: w, N: n, NA: na}
						if !Supported(e, bw) || (na && k != "config" && k != "status" && k != "mask") {
							continue
						}
						wrap := e
						if k == "param" || k == "return" {
							wrap = E{K: "proc", N: -1, Sub: []E{e}}
						}
						if !g.Emit(func() *Case { return NewLayout(bw, wrap).Case() }) {
							return
						}
					}
				}
			}
		}
	}
}

// Irqs returns all variants of irqs.
func Irqs() []E {
	r := []E{}
	for i := 0; i < 4; i++ {
		r = append(r, E{K: "irq", N: -1, AE: i&1 > 0, OnRd: i&2 > 0})
	}
	return r
}

// PairAlphabet returns functionalities depending on the bus width.
func PairAlphabet(bw int64, small bool) []E {
	r := Irqs()
	ws := WidthsFor(bw)
	if small {
		ws = []int64{1, bw / 2, bw - 1, bw + 1}
	}
	counts := []int64{-1, 0, 2, 3}
	if small {
		counts = []int64{-1, 3}
	}
	for _, k := range []string{"config", "mask", "static", "status"} {
		for _, w := range ws {
			for _, n := range counts {
				for _, na := range []bool{false, true} {
					e := E{K: k, W: w, N: n, NA: na}
					if Supported(e, bw) && (!na || k == "config" || k == "status") {
						r = append(r, e)
					}
				}
			}
		}
	}
	r = append(r, E{K: "proc", N: -1}, E{K: "proc", N: -1, Sub: []E{S("param", bw-1)}}, E{K: "stream", N: -1, Sub: []E{S("return", bw+1)}})
	return r
}
