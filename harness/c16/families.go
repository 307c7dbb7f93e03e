package main

import (
	"fmt"
	"strings"
)

// families returns systematically generated classes.
func families() (cs []class) {
	add := func(ctx, name, pre, frag, use string) {
		cs = append(cs, class{ctx: ctx, name: name, pre: pre, frag: frag, use: use, few: true})
	}
	names := []string{"A", "Bb", "Ccc", "D"}
	// lists calls f for all sequences of choices.
	var lists func(n, k int, f func(l []int))
	lists = func(n, k int, f func(l []int)) {
		if n == 0 {
			f(nil)
			return
		}
		lists(n-1, k, func(l []int) {
			for i := 0; i < k; i++ {
				f(append(l[:len(l):len(l)], i))
			}
		})
	}
	all := func(n, k int, f func(l []int)) {
		for i := 1; i <= n; i++ {
			lists(i, k, f)
		}
	}

	// Order of parameters and arguments.
	all(4, 2, func(l []int) {
		ps, as := []string{}, []string{}
		named, bad := false, false
		for i, x := range l {
			p, a := names[i], fmt.Sprint(i, " + 1")
			if x == 1 {
				p, a = p+" = 1 + 2", names[i]+" = "+a
				named = true
			} else if named && !bad {
				bad = true
				p, a = "«"+p+"»", fmt.Sprintf("«%d» + 1", i)
			}
			ps, as = append(ps, p), append(as, a)
		}
		add("top", "order of parameters", "", "type T("+strings.Join(ps, ", ")+") config; width = A", "x @T(1, 2, 3, 4)"[:len("x @T(1, 2, 3, 4)")-3*(4-len(l))-1]+")")
		ds := strings.Join(names[:len(l)], " = 1, ") + " = 1"
		add("block", "order of arguments", "type NP("+ds+") config; width = A", "x NP("+strings.Join(as, ", ")+")", "")
		add("top", "order of arguments of type", "", "type NP("+ds+") config; width = A\ntype T NP("+strings.Join(as, ", ")+")", "x @T")
	})
	// Repeated names.
	all(4, 4, func(l []int) {
		ps, as, cst, bcst, is, tp := []string{}, []string{}, []string{}, "const\n", []string{}, []string{}
		bad := false
		first := map[int]int{}
		for i, x := range l {
			m := "«" + names[x] + "»"
			if _, ok := first[x]; ok && !bad {
				bad = true
				cst[first[x]] = strings.Replace(cst[first[x]], "const "+names[x], "const "+m, 1)
				is[first[x]] = strings.Replace(is[first[x]], names[x], m, 1)
				tp[first[x]] = strings.Replace(tp[first[x]], "type "+names[x], "type "+m, 1)
			} else {
				m = names[x]
				if !ok {
					first[x] = i
				}
			}
			ps, as = append(ps, m+" = 1"), append(as, m+" = 2")
			cst = append(cst, "const "+m+" = "+fmt.Sprint(i))
			is = append(is, m+" config; width = "+fmt.Sprint(i+1))
			tp = append(tp, "type "+m+"(P) config; width = P")
		}
		for _, c := range cst {
			bcst += "  " + strings.TrimPrefix(c, "const ") + "\n"
		}
		add("top", "names of parameters", "", "type T("+strings.Join(ps, ", ")+") config", "x @T")
		add("block", "names of arguments", "type NP("+strings.Join(names, " = 1, ")+" = 1) config; width = A", "x NP("+strings.Join(as, ", ")+")", "")
		add("top", "names of constants", "", strings.Join(cst, "\n"), "")
		add("block", "names of constants", "", strings.Join(cst, "\n"), "")
		add("top", "names of block constants", "", bcst, "")
		add("block", "names of block constants", "", strings.TrimSuffix(bcst, "\n"), "")
		add("block", "names of instances", "", strings.Join(is, "\n"), "")
		add("top", "names of types", "", strings.Join(tp, "\n"), "")
		add("block", "names of types", "", strings.Join(tp, "\n"), "")
	})
	// Repeated properties, an illegal property or an illegal value at each place.
	props := []string{"atomic = true", "init-value = 1", "read-value = 2", "width = 8"}
	all(4, 4, func(l []int) {
		ls := []string{}
		bad := false
		seen := map[int]bool{}
		for _, x := range l {
			p := props[x]
			if seen[x] && !bad {
				bad = true
				i := strings.Index(p, " ")
				p = "«" + p[:i] + "»" + p[i:]
			}
			seen[x] = true
			ls = append(ls, p)
		}
		add("config", "repeated property", "", strings.Join(ls, "\n"), "")
		add("config", "repeated property of one line", "", strings.Join(ls, "; "), "")
		if bad {
			return
		}
		for i := 0; i <= len(ls); i++ {
			for _, b := range []string{"«size» = 3", "‹reset-value› = «true»", "‹reset-value› = 1 / «0»", "reset-value «8»", "«12»", "reset-value =«\t»1"} {
				x := append(append(append([]string{}, ls[:i]...), b), ls[i:]...)
				add("config", "illegal property", "", strings.Join(x, "\n"), "")
				add("config", "illegal property within one line", "", strings.Join(x, "; "), "")
			}
		}
	})
	// An illegal operand or operator at each place of an expression.
	ops := []string{"+", "*", "-", "/", "%", "<<", "**"}
	operands := []string{"1", "(2)", "ceil(3)", "-4", "A", "(1 + 2)", "0x5"}
	bads := []string{"(1 / «0»)", "(1 % «0»)", "foo(1)", "(1 «+» true)", "ceil(7 / «(1 - 1)»)", "-(1 << «-1»)", "9223372036854775808", "(9223372036854775807 «+» 1)", "12a", "«@»", "[1,«,» 2]", "«*»"}
	for i, b := range bads {
		b = strings.Replace(b, "foo", "«foo»", 1)
		if b == "9223372036854775808" {
			b = "«" + b + "»"
		}
		bads[i] = strings.Replace(b, "12a", "12«a»", 1)
	}
	all(4, 2, func(l []int) {
		for bi, b := range bads {
			for i := range l {
				e := ""
				for j, x := range l {
					if j > 0 {
						e += " " + ops[(j+x+bi)%3] + " "
					}
					if j == i {
						e += b
					} else {
						e += operands[(2*j+3*x+bi)%len(operands)]
					}
				}
				add("config", "expression", "const A = 3", "‹width› = "+e, "")
				add("block", "array", "const A = 3", "x ["+e+"]config", "")
				add("top", "list", "", "const A = 7\nconst ‹L› = ["+e+", "+strings.ReplaceAll(e, b, "1")+"]", "")
				add("block", "argument", "const A = 3\ntype NP(P, Q = 1) config\n  ‹width› = P + Q", "x NP(1, Q = "+e+")", "")
			}
		}
	})
	// An illegal element at each place of a body.
	els := []string{"a1 config", "b1 [2]config; width = 3", "c1 block\n  d config\n    width = 7", "const E1 = [1, 2]", "type F1(A, B = 2) status\n  width = A"}
	all(3, 5, func(l []int) {
		ls := []string{}
		for i, x := range l {
			ls = append(ls, strings.ReplaceAll(els[x], "1", fmt.Sprint(i+1)))
		}
		for i := 0; i <= len(ls); i++ {
			for _, b := range []string{"x config; «size» = 3", "x config\n  ‹width› = «-3»", "«x» foo", "x config «]»", "const «=»", "type X config config"[:14] + "«config»", "x block\n  y config\n  y2 status\n    ‹width› = «true»", "«x» static", "x NP«()»", "«x» NP(1, 2)"} {
				x := append(append(append([]string{}, ls[:i]...), b), ls[i:]...)
				add("block", "element", "type NP(P = 1) config", strings.Join(x, "\n"), "")
			}
		}
	})
	return cs
}
