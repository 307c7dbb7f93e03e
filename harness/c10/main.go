// C10: expressions evaluate according to precedence and arithmetic rules.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// val is a value of the reference evaluator, nil means that expression shall be rejected.
type val interface{} // *big.Int, float64, bool

// tk is an item of a flat expression.
type tk struct {
	op  string // Operator, for unary ones "u-" or "u+".
	src string // Operand.
	v   val
}

var prec = map[string]int{"+": 4, "-": 4, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "**": 6}

var ops = []string{"+", "-", "*", "/", "%", "<<", ">>", "**"}

func fits(b *big.Int) val {
	if b.IsInt64() {
		return b
	}
	return nil
}

// binary evaluates an operator.
func binary(x val, op string, y val) val {
	a, ok := x.(*big.Int)
	b, ok2 := y.(*big.Int)
	if !ok || !ok2 {
		return nil
	}
	r := new(big.Int)
	switch op {
	case "+":
		return fits(r.Add(a, b))
	case "-":
		return fits(r.Sub(a, b))
	case "*":
		return fits(r.Mul(a, b))
	case "/":
		if b.Sign() == 0 {
			return nil
		}
		m := new(big.Int)
		r.QuoRem(a, b, m)
		if m.Sign() == 0 {
			return fits(r)
		}
		f, _ := new(big.Rat).SetFrac(a, b).Float64()
		return f
	case "%":
		if b.Sign() == 0 {
			return nil
		}
		return fits(r.Rem(a, b))
	case "<<":
		if b.Sign() < 0 {
			return nil
		}
		if a.Sign() == 0 {
			return a
		}
		if b.Cmp(big.NewInt(64)) > 0 {
			return nil
		}
		return fits(r.Lsh(a, uint(b.Int64())))
	case ">>":
		if b.Sign() < 0 {
			return nil
		}
		if b.Cmp(big.NewInt(100)) > 0 {
			b = big.NewInt(100)
		}
		return r.Rsh(a, uint(b.Int64()))
	case "**":
		one := a.CmpAbs(big.NewInt(1)) == 0
		if b.Sign() < 0 {
			if a.Sign() == 0 {
				return nil
			}
			if one {
				return binary(a, op, new(big.Int).Neg(b))
			}
			f, _ := new(big.Float).SetInt(a).Float64()
			e, _ := new(big.Float).SetInt(b).Float64()
			return math.Pow(f, e)
		}
		if a.Sign() == 0 && b.Sign() > 0 {
			return a
		}
		if one {
			if b.Bit(0) == 0 {
				return big.NewInt(1)
			}
			return a
		}
		if b.Cmp(big.NewInt(64)) > 0 {
			return nil
		}
		return fits(r.Exp(a, b, nil))
	}
	panic(op)
}

func neg(x val) val {
	if b, ok := x.(*big.Int); ok {
		return fits(new(big.Int).Neg(b))
	}
	return nil
}

// eval evaluates a flat list: operands, binary operators and unary ones. The last operator of the lowest precedence is applied last.
func eval(l []tk) val {
	if len(l) == 1 {
		return l[0].v
	}
	// Binary operators follow operands.
	best, at := 100, -1
	for i := 1; i < len(l); i++ {
		if l[i].op != "" && l[i].op[0] != 'u' && l[i-1].op == "" {
			p := prec[l[i].op]
			if p == 6 {
				// Exponentiation within operand of an unary operator is applied before it.
				j := i - 1
				for j > 0 && l[j].op != "u-" && (l[j].op == "" || l[j].op == "**") {
					j--
				}
				if l[j].op == "u-" && j > 0 {
					continue
				}
				if l[j].op == "u-" {
					continue
				}
			}
			if p <= best {
				best, at = p, i
			}
		}
	}
	if at < 0 {
		if l[0].op == "u-" {
			v := eval(l[1:])
			if v == nil {
				return nil
			}
			return neg(v)
		}
		panic(fmt.Sprint(l))
	}
	x := eval(l[:at])
	if x == nil {
		return nil
	}
	y := eval(l[at+1:])
	if y == nil {
		return nil
	}
	return binary(x, l[at].op, y)
}

// Forms of rendering.
const (
	spaced = iota
	dense
	idents
	forms
)

func src(l []tk, form int) string {
	var b strings.Builder
	for i, t := range l {
		s := t.src
		if t.op != "" {
			s = strings.TrimPrefix(t.op, "u")
		} else if form == idents && len(s) == 1 {
			s = "K" + s
		}
		if i > 0 && form != dense && l[i-1].op != "u-" {
			b.WriteByte(' ')
		}
		b.WriteString(s)
	}
	return b.String()
}

func num(s string) tk {
	b, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return tk{src: s, v: fits(b)}
}

// item is an expression with the expected value.
type item struct {
	src  string
	want val
	any  bool // Rejection is also legal.
}

type model struct{ items []item }

func (m model) String() string {
	if len(m.items) == 1 {
		return fmt.Sprintf("%s, expected %v", m.items[0].src, m.items[0].want)
	}
	return fmt.Sprintf("%d expressions", len(m.items))
}

// batcher groups legal expressions together, illegal ones have to be checked one by one.
type batcher struct {
	g     *lib.Gen
	items []item
}

const batch = 16

func (b *batcher) add(i item) {
	if i.want == nil || i.any {
		b.emit([]item{i})
		return
	}
	b.items = append(b.items, i)
	if len(b.items) == batch {
		b.flush()
	}
}

func (b *batcher) flush() {
	if len(b.items) > 0 {
		b.emit(b.items)
		b.items = nil
	}
}

func (b *batcher) emit(items []item) {
	b.g.Emit(func() *lib.Case {
		var s strings.Builder
		for i, it := range items {
			fmt.Fprintf(&s, "const E%d = %s\n", i, it.src)
		}
		for i := 0; i < 10; i++ {
			fmt.Fprintf(&s, "const K%d = %d\n", i, i)
		}
		s.WriteString("main bus\n")
		return &lib.Case{Src: s.String(), Consts: true, Meta: model{items}, Edges: len(items)}
	})
}

func judge(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(model)
	if len(m.items) == 1 && m.items[0].want == nil {
		if o.Kind == lib.Reject {
			return nil
		}
		got := ""
		if o.Pkgs["main"] != nil {
			got = fmt.Sprint(lib.ConstsOf(o.Pkgs["main"].Consts)["E0"])
		}
		return []lib.Viol{{Sig: "accepted", Msg: fmt.Sprintf("%s: expected rejection, got %s %s %s", m.items[0].src, o.Kind, got, o.Msg)}}
	}
	if m.items[0].any && o.Kind == lib.Reject {
		return nil
	}
	if v := lib.NotOK(o); v != nil {
		return v
	}
	if o.Pkgs["main"] == nil {
		return []lib.Viol{{Sig: "no-dump", Msg: "constants are not dumped"}}
	}
	cs := lib.ConstsOf(o.Pkgs["main"].Consts)
	var vs []lib.Viol
	for i, it := range m.items {
		got := cs[fmt.Sprintf("E%d", i)]
		ok := false
		switch w := it.want.(type) {
		case *big.Int:
			g, is := got.(int64)
			ok = is && w.IsInt64() && w.Int64() == g
		case float64:
			g, is := got.(float64)
			ok = is && math.Abs(g-w) <= 1e-12*math.Abs(w)
		case bool:
			ok = got == w
		}
		if !ok {
			vs = append(vs, lib.Viol{Sig: "value", Msg: fmt.Sprintf("%s is %v (%T), expected %v (%T)", it.src, got, got, it.want, it.want)})
		}
	}
	return vs
}

// skip tells that meaning of the expression is not defined clearly (exponentiation to unary minus followed by exponentiation).
func skip(l []tk) bool {
	for i := 0; i+3 < len(l); i++ {
		if l[i].op == "**" && l[i+1].op == "u-" && l[i+3].op == "**" {
			return true
		}
	}
	return false
}

func flat(b *batcher, k int, operands []string, maxNeg, form int) {
	var rec func(l []tk, n, negs int)
	rec = func(l []tk, n, negs int) {
		if n == k {
			if !skip(l) {
				b.add(item{src: src(l, form), want: eval(l)})
			}
			return
		}
		for _, s := range operands {
			t := num(s)
			if n == 0 {
				rec(append(l[:len(l):len(l)], t), 1, negs)
				if negs < maxNeg {
					rec(append(l[:len(l):len(l)], tk{op: "u-"}, t), 1, negs+1)
				}
				continue
			}
			for _, op := range ops {
				rec(append(l[:len(l):len(l)], tk{op: op}, t), n+1, negs)
				if negs < maxNeg {
					rec(append(l[:len(l):len(l)], tk{op: op}, tk{op: "u-"}, t), n+1, negs+1)
				}
			}
		}
	}
	rec(nil, 0, 0)
}

// tree is a parenthesized expression.
type tree struct {
	src string
	v   val
}

// trees calls f with all trees with k operators.
func trees(k int, operands []string, f func(tree)) {
	if k == 0 {
		for _, s := range operands {
			f(tree{s, num(s).v})
		}
		return
	}
	paren := func(t tree) string {
		if strings.ContainsAny(t.src, "+-*/%<>") {
			return "(" + t.src + ")"
		}
		return t.src
	}
	for i := 0; i < k; i++ {
		trees(i, operands, func(x tree) {
			trees(k-1-i, operands, func(y tree) {
				for _, op := range ops {
					var v val
					if x.v != nil && y.v != nil {
						v = binary(x.v, op, y.v)
					}
					f(tree{paren(x) + " " + op + " " + paren(y), v})
				}
			})
		})
	}
}

func gen(g *lib.Gen) {
	b := &batcher{g: g}
	big10 := func(s string) *big.Int { r, _ := new(big.Int).SetString(s, 10); return r }
	for form := 0; form < forms; form++ {
		flat(b, 1, []string{"0", "1", "2", "3", "7", "10"}, 1, form)
		flat(b, 2, []string{"0", "1", "2", "3", "7"}, 2, form)
		flat(b, 3, []string{"0", "2", "3", "7"}, 3, form)
		flat(b, 4, []string{"2", "3"}, g.Pick(1, 4), form)
	}
	flat(b, 4, []string{"2", "3", "7"}, g.Pick(1, 4), spaced)
	flat(b, 4, []string{"12", "4", "2"}, g.Pick(1, 4), idents)
	if g.Thorough {
		flat(b, 5, []string{"2", "3"}, 1, dense)
		flat(b, 6, []string{"2"}, 1, spaced)
	} else {
		flat(b, 5, []string{"2"}, 2, dense)
		flat(b, 5, []string{"2", "4"}, 0, spaced)
	}
	trees(2, []string{"1", "2", "3", "5"}, func(t tree) { b.add(item{src: t.src, want: t.v}) })
	trees(3, []string{"2", "3"}, func(t tree) { b.add(item{src: t.src, want: t.v}) })
	if g.Thorough {
		trees(4, []string{"2"}, func(t tree) { b.add(item{src: t.src, want: t.v}) })
	}
	// Long expressions of periodic operators.
	for _, n := range []int{6, 7, 12, 24, 48} {
		for _, vals := range [][]string{{"1"}, {"3", "2"}, {"1", "2", "3"}, {"7", "3", "0", "2"}} {
			for p := 0; p < len(ops)*len(ops)*len(ops); p++ {
				ps := []string{ops[p%len(ops)], ops[p/len(ops)%len(ops)], ops[p/len(ops)/len(ops)]}
				for form := 0; form < forms; form++ {
					if n > 7 && form != p%forms {
						continue
					}
					for neg := 0; neg < 3; neg++ {
						if neg > 0 && n > 12 {
							continue
						}
						var l []tk
						for i := 0; i < n; i++ {
							if i > 0 {
								l = append(l, tk{op: ps[i%3]})
							}
							if neg > 0 && i%(neg+1) == neg-1 {
								l = append(l, tk{op: "u-"})
							}
							l = append(l, num(vals[i%len(vals)]))
						}
						if !skip(l) {
							b.add(item{src: src(l, form), want: eval(l)})
						}
					}
				}
			}
		}
	}
	// Deep parentheses, calls and chains of unary operators.
	for _, n := range []int{1, 2, 3, 5, 8, 16, 40, 100} {
		for _, op := range ops {
			for _, y := range []string{"1", "2", "3"} {
				v := num(y).v
				b.add(item{src: strings.Repeat("(", n) + "3 " + op + " " + y + strings.Repeat(")", n), want: binary(num("3").v, op, v)})
				left, right, lv, rv := "5", "5", num("5").v, num("5").v
				for i := 0; i < n; i++ {
					left, right = "("+left+") "+op+" "+y, y+" "+op+" ("+right+")"
					if lv != nil {
						lv = binary(lv, op, v)
					}
					if rv != nil {
						rv = binary(v, op, rv)
					}
				}
				b.add(item{src: left, want: lv})
				b.add(item{src: right, want: rv})
			}
		}
		sign := big.NewInt(7)
		if n%2 == 1 {
			sign = big.NewInt(-7)
		}
		b.add(item{src: strings.Repeat("-(", n) + "7" + strings.Repeat(")", n), want: sign})
		b.add(item{src: strings.Repeat("ceil(", n) + "7/2" + strings.Repeat(")", n), want: big.NewInt(4)})
		b.add(item{src: strings.Repeat("floor(", n) + "7/2" + strings.Repeat(")", n), want: big.NewInt(3)})
		b.add(item{src: strings.Repeat("1 + (2 * (", n) + "3" + strings.Repeat("))", n), want: func() val {
			r := big.NewInt(3)
			for i := 0; i < n; i++ {
				r.Add(r.Lsh(r, 1), big.NewInt(1))
			}
			return fits(r)
		}()})
		b.add(item{src: strings.Repeat("(", n) + "1" + strings.Repeat(")", n-1)})
		b.add(item{src: strings.Repeat("(", n) + "1" + strings.Repeat(")", n+1)})
	}
	// Boundary values.
	bounds := []string{"0", "1", "2", "3", "10", "62", "63", "64", "65", "2147483647", "2147483648", "3037000499", "3037000500", "4294967296",
		"4611686018427387903", "4611686018427387904", "4611686018427387905", "9223372036854775806", "9223372036854775807"}
	type operand struct {
		src string
		v   *big.Int
	}
	var bs []operand
	for _, s := range bounds {
		v := big10(s)
		bs = append(bs, operand{s, v}, operand{"(-" + s + ")", new(big.Int).Neg(v)})
	}
	bs = append(bs, operand{"(-9223372036854775807 - 1)", big.NewInt(math.MinInt64)})
	for _, x := range bs {
		b.add(item{src: "-" + x.src, want: neg(x.v)})
		b.add(item{src: "+" + x.src, want: x.v})
		for _, y := range bs {
			for _, op := range ops {
				b.add(item{src: x.src + " " + op + " " + y.src, want: binary(x.v, op, y.v)})
			}
		}
	}
	// Small exponents and shifts.
	for x := int64(-12); x <= 12; x++ {
		for y := int64(-3); y <= 66; y++ {
			for _, op := range []string{"**", "<<", ">>"} {
				b.add(item{src: fmt.Sprintf("(%d) %s (%d)", x, op, y), want: binary(big.NewInt(x), op, big.NewInt(y))})
			}
		}
	}
	for x := int64(-int64(g.Pick(30, 120))); x <= 30; x++ {
		for y := int64(-20); y <= 20; y++ {
			for _, op := range []string{"/", "%"} {
				b.add(item{src: fmt.Sprintf("(%d) %s (%d)", x, op, y), want: binary(big.NewInt(x), op, big.NewInt(y))})
			}
			if y > 0 {
				r := big.NewRat(x, y)
				fl, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
				ce := new(big.Int).Set(fl)
				if m.Sign() != 0 {
					ce.Add(ce, big.NewInt(1))
				}
				e := fmt.Sprintf("(%d) / %d", x, y)
				b.add(item{src: "floor(" + e + ")", want: fl})
				b.add(item{src: "ceil(" + e + ")", want: ce})
				b.add(item{src: "2 * ceil( " + e + " ) - floor(" + e + ")", want: new(big.Int).Sub(new(big.Int).Mul(big.NewInt(2), ce), fl)})
				var bv val
				if r.IsInt() {
					bv = r.Sign() != 0
				}
				b.add(item{src: "bool(" + e + ")", want: bv})
			}
		}
	}
	// Notations of literals.
	lit := func(v uint64) {
		var w val
		if v <= math.MaxInt64 {
			w = new(big.Int).SetUint64(v)
		}
		for _, f := range []string{"%d", "0x%x", "0X%X", "0x%X", "0b%b", "0B%b", "0o%o", "0O%o"} {
			b.add(item{src: fmt.Sprintf(f, v), want: w})
			b.add(item{src: fmt.Sprintf("1-"+f, v), want: func() val {
				if w == nil {
					return nil
				}
				return binary(big.NewInt(1), "-", w)
			}()})
		}
	}
	for v := uint64(0); v < 300; v++ {
		lit(v)
	}
	for k := 9; k < 64; k++ {
		for d := -1; d <= 1; d++ {
			lit(uint64(1)<<k + uint64(d))
		}
	}
	lit(math.MaxUint64)
	// Logarithms.
	log := func(f string, base float64, v int64) {
		w := val(math.Log(float64(v)) / math.Log(base))
		p := int64(1)
		for e := int64(0); p <= v && p > 0; e++ {
			if p == v {
				w = big.NewInt(e)
			}
			p *= int64(base)
		}
		b.add(item{src: fmt.Sprintf("%s(%d)", f, v), want: w})
		// Number of digits.
		d := int64(0)
		for p := int64(1); p < v; p *= int64(base) {
			d++
		}
		b.add(item{src: fmt.Sprintf("ceil(%s(%d))", f, v), want: big.NewInt(d)})
		if _, ok := w.(*big.Int); !ok {
			d--
		}
		b.add(item{src: fmt.Sprintf("floor(%s(%d)) + 1", f, v), want: big.NewInt(d + 1)})
	}
	for v := int64(1); v <= int64(g.Pick(1100, 5000)); v++ {
		log("log2", 2, v)
		log("log10", 10, v)
	}
	for k := 11; k < 45; k++ {
		for d := int64(-1); d <= 1; d++ {
			log("log2", 2, int64(1)<<k+d)
		}
	}
	for k, p := 3, int64(1000); k <= 12; k, p = k+1, p*10 {
		for d := int64(-1); d <= 1; d++ {
			log("log10", 10, p+d)
		}
	}
	for _, s := range []string{"log2(0)", "log2(-1)", "log10(0)", "log10(-100)", "log2(-1/2)", "log10(0.0)"} {
		b.add(item{src: s})
	}
	b.add(item{src: "log2(1/4)", want: big.NewInt(-2)})
	b.add(item{src: "log2(3/2)", want: math.Log2(1.5)})
	b.add(item{src: "log2(0.125)", want: big.NewInt(-3)})
	b.add(item{src: "log10(2.5)", want: math.Log10(2.5)})
	b.add(item{src: "ceil(9223372036854775807)", want: big10("9223372036854775807")})
	b.add(item{src: "ceil(1.0e18)", want: big10("1000000000000000000")})
	b.add(item{src: "floor(0.5) - ceil(0.5)", want: big.NewInt(-1)})
	for _, s := range []string{"ceil(1.0e19)", "floor(1.0e300)", "ceil()", "ceil(1, 2)", "bool()", "bool(1, 1)", "log2(2, 2)", "sin(1)", "ceil", "bool(true)", "bool(1.5)", "bool(\"a\")",
		"ceil(true)", "floor(\"a\")", "ceil([1])", "log2(true)", "log10(\"a\")", "log2([1])", "ceil(x\"1\")", "floor(5 ns)", "(1", "1)", "()", "1 +", "* 1", "1 1", "1 + * 2", "(1 + 2", "1 +) 2("} {
		b.add(item{src: s})
	}
	b.flush()
	// Operands of all kinds, all operators.
	kinds := []string{"1", "6", "1.5", "true", "false", `"a"`, `x"f"`, "5 ns", "[1]", "1:2", "(-3)"}
	iv := map[string]*big.Int{"1": big.NewInt(1), "6": big.NewInt(6), "(-3)": big.NewInt(-3)}
	all := append(append([]string{}, ops...), "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^")
	for _, x := range kinds {
		for _, u := range []string{"-", "+", "!"} {
			it := item{src: u + x}
			if v, ok := iv[x]; ok && u != "!" {
				it.want = v
				if u == "-" {
					it.want = neg(v)
				}
			} else if u != "!" && x == "1.5" {
				it.any = true
				it.want = 1.5
				if u == "-" {
					it.want = -1.5
				}
			} else if u == "!" && (x == "true" || x == "false") {
				it.any, it.want = true, x == "false"
			}
			b.add(it)
		}
		for _, y := range kinds {
			for _, op := range all {
				it := item{src: x + " " + op + " " + y}
				a, ok := iv[x]
				c, ok2 := iv[y]
				if ok && ok2 {
					if _, std := prec[op]; std {
						it.want = binary(a, op, c)
					} else {
						// These are not implemented, but the right value would be fine.
						it.any, it.want = true, other(a, op, c)
					}
				} else if x == "1:2" || y == "1:2" {
					// The colon has the lowest precedence, so one of bounds is meant.
					it.want = nil
				} else {
					it.any, it.want = true, loose(x, op, y)
					if it.want == nil {
						it.any = false
					}
				}
				b.add(it)
			}
		}
	}
	b.flush()
}

func other(a *big.Int, op string, b *big.Int) val {
	c := a.Cmp(b)
	switch op {
	case "==":
		return c == 0
	case "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	case "&":
		return new(big.Int).And(a, b)
	case "|":
		return new(big.Int).Or(a, b)
	case "^":
		return new(big.Int).Xor(a, b)
	}
	return nil
}

// loose is the value of an unimplemented operation, if there is an obvious one.
func loose(x, op, y string) val {
	fv := map[string]float64{"1": 1, "6": 6, "(-3)": -3, "1.5": 1.5}
	bv := map[string]bool{"true": true, "false": false}
	if a, ok := fv[x]; ok {
		if b, ok := fv[y]; ok {
			switch op {
			case "+":
				return a + b
			case "-":
				return a - b
			case "*":
				return a * b
			case "/":
				return a / b
			case "**":
				if a > 0 {
					return math.Pow(a, b)
				}
			case "==":
				return a == b
			case "!=":
				return a != b
			case "<":
				return a < b
			case "<=":
				return a <= b
			case ">":
				return a > b
			case ">=":
				return a >= b
			}
		}
	}
	if a, ok := bv[x]; ok {
		if b, ok := bv[y]; ok {
			switch op {
			case "==":
				return a == b
			case "!=", "^":
				return a != b
			case "&&", "&":
				return a && b
			case "||", "|":
				return a || b
			}
		}
	}
	return nil
}

func main() {
	lib.Main(&lib.Check{
		ID: "C10",
		Rule: "all flat expressions with up to 5 operands (6 in thorough), 8 operators, unary minus and small literals or identifiers, all parenthesized trees with up to 3 operators, " +
			"all operators on all pairs of boundary values, all shifts and powers of small numbers, all quotients with ceil, floor and bool, all notations of numbers around powers of two, logarithms, " +
			"all operators on all pairs of kinds of operands; legal expressions are compiled 16 in a description, illegal ones one by one",
		CLIEvery: 97,
		Gen:      gen,
		Eval:     judge,
	})
}
