//go:build !cliengine

package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

// expand returns bits of the bit string.
func expand(s string) string {
	n := int(digits(s))
	var b strings.Builder
	for _, c := range s[2 : len(s)-1] {
		d := strings.IndexRune("0123456789abcdef", c)
		if d < 0 {
			d = strings.IndexRune("0123456789ABCDEF", c)
		}
		if d < 0 {
			b.WriteString(strings.Repeat(string(c), n))
			continue
		}
		fmt.Fprintf(&b, "%0*b", n, d)
	}
	return b.String()
}

// methods compares results of all methods with the definition.
func methods(s string) string {
	b := types.BitStr(s)
	bits := expand(s)
	w := int64(len(bits))
	if b.BitWidth() != w || b.CharWidth() != int64(len(s)-3) {
		return fmt.Sprintf("%s: widths %d and %d", s, b.BitWidth(), b.CharWidth())
	}
	if b.IsBin() != (s[0] == 'b') || b.IsOctal() != (s[0] == 'o') || b.IsHex() != (s[0] == 'x') {
		return fmt.Sprintf("%s: wrong base", s)
	}
	if b.ValueLiteral() != s[2:len(s)-1] {
		return fmt.Sprintf("%s: value literal %s", s, b.ValueLiteral())
	}
	if t := string(b.ToBin()); t != `b"`+bits+`"` {
		return fmt.Sprintf("%s: to binary %s", s, t)
	}
	if r := extensions(s, bits, 0, 13); r != "" {
		return r
	}
	if strings.Trim(bits, "01") == "" && w > 0 {
		v, _ := new(big.Int).SetString(bits, 2)
		if v.IsUint64() && b.Uint64() != v.Uint64() {
			return fmt.Sprintf("%s: %d as uint64", s, b.Uint64())
		}
	}
	return ""
}

func extensions(s, bits string, from, to int64) string {
	b, w := types.BitStr(s), int64(len(bits))
	for d := from; d <= to; d++ {
		e := string(b.Extend(w + d))
		if len(e) < 3 || strings.IndexByte("box", e[0]) < 0 || e[1] != '"' || e[len(e)-1] != '"' || expand(e) != strings.Repeat("0", int(d))+bits {
			return fmt.Sprintf("%s: extended to %d is %s", s, w+d, e)
		}
	}
	return ""
}

func apiCases(g *lib.Gen) {
	group := func(name string, edges int, f func() string) {
		g.Emit(func() *lib.Case {
			return &lib.Case{Meta: name, Edges: edges, Run: func() (o *lib.Outcome) {
				o = &lib.Outcome{}
				defer func() {
					if r := recover(); r != nil {
						o.Kind = lib.Crash
						o.Msg = fmt.Sprint(r)
					}
				}()
				o.Obs = f()
				return o
			}}
		})
	}
	group("long extensions", 100000, func() string {
		for _, s := range []string{`b"1"`, `b"01-"`, `b"110010100011"`, `o"7"`, `o"50"`, `o"-12345670"`, `x"f"`, `x"0a"`, `x"-123456789abcdef0"`, `x"fedcba9876543210fedcba98"`} {
			for _, n := range lib.Lengths(g.Pick(300, 1100), g.Pick(5000, 70000)) {
				if r := extensions(s, expand(s), int64(n), int64(n)); r != "" {
					return r
				}
			}
		}
		return ""
	})
	for _, a := range alphabets {
		p := a.prefixes[:1]
		n := 4
		if p == "x" {
			n = g.Pick(3, 4)
		}
		for _, first := range a.chars {
			group(fmt.Sprintf("bit strings %s\"%c...\"", p, first), 10000, func() (r string) {
				strs(a.chars, 0, n-1, func(s string) {
					if r == "" {
						r = methods(p + `"` + string(first) + s + `"`)
					}
				})
				return r
			})
		}
		for _, l := range lib.Lengths(0, g.Pick(1100, 9000)) {
			if l <= g.Pick(72, 140) {
				continue
			}
			group(fmt.Sprintf("bit strings %s of length %d", p, l), 15*len(a.chars), func() string {
				for _, pos := range []int{0, 1, l / 2, l - 2, l - 1} {
					for _, c := range a.chars {
						for _, fill := range []string{"0", "1", a.chars[len(a.chars)-1:]} {
							if r := methods(p + `"` + strings.Repeat(fill, pos) + string(c) + strings.Repeat(fill, l-1-pos) + `"`); r != "" {
								return r
							}
						}
					}
				}
				return ""
			})
		}
		dg := strings.Trim(a.chars, "-uUwWxXzZ")
		for l := 1; l <= g.Pick(72, 140); l++ {
			group(fmt.Sprintf("bit strings %s of length %d", p, l), l*len(dg), func() string {
				for pos := 0; pos < l; pos++ {
					for _, c := range dg {
						for _, fill := range []string{"0", "1", "5", "f"} {
							if !strings.Contains(dg, fill) {
								continue
							}
							if r := methods(p + `"` + strings.Repeat(fill, pos) + string(c) + strings.Repeat(fill, l-1-pos) + `"`); r != "" {
								return r
							}
						}
					}
				}
				return ""
			})
		}
	}
}
