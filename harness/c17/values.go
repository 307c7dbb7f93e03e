package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

var baseTypes = []string{"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}

// needed are properties without which the functionality is illegal.
var needed = map[string]string{"static": "init-value = 0", "blackbox": "size = 1"}

// place puts the functionality where it is legal.
func place(t, head, body string) string {
	switch t {
	case "bus":
		return head + "main bus\n" + strings.ReplaceAll("  "+body, "\n", "\n  ") + "\n  x config\n"
	case "param", "return":
		return head + "main bus\n  p proc\n    " + body + "\n    q " + t + "\n  s stream\n    " + body + "\n"
	}
	return head + "main bus\n  " + body + "\n  y config; width = 3\n  z block\n    " + body + "\n"
}

func inst(t, count string, props ...string) string {
	s := "x " + count + t
	if t == "bus" {
		return strings.Join(props, "\n")
	}
	for _, p := range props {
		if p != "" {
			s += "; " + p
		}
	}
	return s
}

var huge = []string{"0", "1", "-1", "2", "3", "31", "32", "33", "63", "64", "65", "128", "1 << 16", "1 << 20", "(1 << 24) + 1", "1 << 31", "(1 << 32) + 1", "1 << 40", "1 << 53", "(1 << 53) + 1", "1 << 61", "1 << 62", "9223372036854775807", "-9223372036854775807 - 1"}

// extreme combines huge counts, widths and bus widths.
func extreme(g *lib.Gen) {
	buses := []string{"", "1", "2", "7", "8", "33", "64", "65", "1 << 20", "1 << 31", "1 << 40", "1 << 62", "9223372036854775807"}
	for bi, bw := range buses {
		for _, t := range baseTypes {
			if t == "bus" {
				continue
			}
			for ci, c := range append([]string{""}, huge...) {
				for wi, w := range append([]string{""}, huge...) {
					if !g.Thorough && bi > 1 && ci > 2 && wi > 2 && (bi+ci+wi)%4 != 0 {
						continue
					}
					props := []string{needed[t]}
					if w != "" {
						switch t {
						case "blackbox":
							props = []string{"size = " + w}
						case "block":
							props = append(props, "align = "+w)
						case "proc", "stream":
							props = append(props, "delay = 1 ns")
						case "irq", "group":
						default:
							props = append(props, "width = "+w)
						}
					}
					cnt := ""
					if c != "" {
						cnt = "[" + c + "]"
					}
					b := ""
					if bw != "" {
						b = "  width = " + bw + "\n"
					}
					body := inst(t, cnt, props...)
					if t == "group" || t == "block" || t == "proc" || t == "stream" {
						in := map[string]string{"group": "config", "block": "config", "proc": "param", "stream": "return"}[t]
						body += "\n    y " + in
						if w != "" {
							body += "; width = " + w
						}
						if t == "block" || t == "group" {
							body = strings.Replace(body, "; align", "\n    align", 1)
						}
						body = strings.Replace(body, "; delay", "\n    delay", 1)
					}
					src := "main bus\n" + b + "  " + body + "\n  z status; width = 5\n"
					if t == "param" || t == "return" {
						src = "main bus\n" + b + "  p proc\n    " + body + "\n    z " + t + "\n"
					}
					if !em(g, fmt.Sprintf("bus width %q, count %q, width %q", bw, c, w), src) {
						return
					}
				}
			}
		}
	}
	for _, a := range huge {
		for _, b := range huge {
			for _, s := range []string{
				"main bus\n  align = $A\n  masters = $B\n  c config\n", "main bus\n  align = $A\n  b [$B]block\n    c config\n", "main bus\n  b [$A]block\n    align = $B\n    c [$A]block\n      c config\n", "main bus\n  c config; range = $A:$B\n", "main bus\n  c config; range = [$A:$B]\n",
				"main bus\n  p proc\n    c param; range = [0:$A, 1:$B]\n", "const A = ($A) + ($B)\nconst B = ($A) * ($B)\nmain bus\n", "const A = ($A) ** ($B)\nconst B = ($A) << ($B)\nmain bus\n", "const A = ($A) / ($B)\nconst B = ($A) % ($B)\nconst C = ($A) >> ($B)\nmain bus\n",
				"main bus\n  s static; width = $A; init-value = $B\n", "main bus\n  s config; width = $A; read-value = $B\n", "main bus\n  s mask; width = $A; init-value = $B\n", "main bus\n  p proc\n    a [$A]param; width = $B\n    r [$A]return; width = $B\n", "main bus\n  p stream\n    a [$A]param; width = $B\n    b param; width = $B\n",
				"main bus\n  i irq; add-enable = true; enable-init-value = $A; enable-reset-value = $B\n", "main bus\n  a status; width = $A\n  b status; width = $B\n  c [2]status; width = $A\n  i irq\n", "main bus\n  a config; width = $A; atomic = false\n  b config; width = $B\n", "main bus\n  g group\n    c [$A]config; width = $B\n", "main bus\n  x blackbox; size = $A\n  y [3]blackbox; size = $B\n",
				"type T(W = $A) [$B]config; width = W\nmain bus\n  x T\n  y T($B)\n", "main bus\n  width = $A\n  c status; width = $B\n  i irq; add-enable = true\n",
			} {
				if !em(g, "extreme values", strings.NewReplacer("$A", a, "$B", b).Replace(s)) {
					return
				}
			}
		}
	}
	for _, v := range append([]string{"18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1e308", "1e309", "1e400", "1e-400", "0x", "0x" + strings.Repeat("f", 16), "0x7" + strings.Repeat("f", 15), "0b" + strings.Repeat("1", 64), "0o7777777777777777777777"}, huge...) {
		for _, s := range []string{"const A = $A\nmain bus\n", "const A = -$A\nmain bus\n", "main bus\n  p proc\n    delay = $A ns\n", "main bus\n  p proc\n    delay = $A us\n", "main bus\n  p proc\n    delay = $A ms\n", "main bus\n  p proc\n    delay = $A s\n", "const A = log2($A)\nconst B = log10($A)\nconst C = ceil($A)\nconst D = floor($A)\nconst E = bool($A)\nmain bus\n", "main bus\n  c [$A]config\n"} {
			if !em(g, "extreme literal", strings.ReplaceAll(s, "$A", v)) {
				return
			}
		}
	}
}

var values = []string{
	"0", "1", "-1", "33", "9223372036854775807", "-9223372036854775807 - 1", "1 << 40", "true", "2.5", "1 / 3", "\"\"", "\"Sync\"", "\"Edge\"", "b\"1\"", "b\"\"", "x\"\"", "x\"ffffffffffffffffffff\"", "b\"-\"", "3 ns", "[]", "[1]", "[1, [2]]", "[1:2, 3:4]", "[4:3]", "1:2", "2:1", "-1:2", "0:9223372036854775807",
	"[true, 1]", "[[]]", "[1:2, 3]", "missing", "A", "p.A", "log2(0)", "log2(-1)", "1 / 0", "1 % 0", "0 ** -1", "1 << 100", "!true", "1 < 2", "1 && 2", "\"a\" + \"b\"", "bool()", "bool(1, 2)", "missing(1)", "1:2:3", "[1:\"a\"]", "1 ns + 1 ns", "-\"a\"", "-b\"1\"", "-(1:2)", "ceil(\"a\")", "[0:1, 5:2]",
}

// propPairs enumerates all properties with all kinds of values, and their pairs.
func propPairs(g *lib.Gen) {
	for _, t := range baseTypes {
		for _, p := range lib.Properties {
			for _, v := range values {
				for _, cnt := range []string{"", "[2]", "[0]"} {
					if t == "bus" && cnt != "" {
						continue
					}
					need := needed[t]
					if strings.HasPrefix(need, p+" ") {
						need = ""
					}
					if !em(g, "property", place(t, "const A = 4\n", inst(t, cnt, p+" = "+v, need))) {
						return
					}
					if cnt == "" && !em(g, "property of a type", place(t, "const A = 4\n"+"type T "+t+"\n  "+p+" = "+v+"\n\n", "y T")) {
						return
					}
				}
			}
		}
	}
	small := []string{"0", "1", "40", "-1", "1 << 40", "x\"ff\"", "true", "\"Sync\"", "[1:5]", "2 ns", "2.5", "\"Explicit\""}
	for _, t := range baseTypes {
		for i, p := range lib.Properties {
			for j, q := range lib.Properties {
				if i == j && !g.Thorough {
					continue
				}
				for vi, v := range small {
					for wi, w := range small {
						if !g.Thorough && (vi*5+wi*3+i+j)%7 != 0 {
							continue
						}
						need := needed[t]
						if strings.HasPrefix(need, p+" ") || strings.HasPrefix(need, q+" ") {
							need = ""
						}
						if !em(g, "two properties", place(t, "", inst(t, "", p+" = "+v, q+" = "+w, need))) {
							return
						}
					}
				}
			}
		}
	}
}

// features enumerates all functionalities within all functionalities.
func features(g *lib.Gen) {
	counts := []string{"", "[0]", "[1]", "[3]", "[40]"}
	widths := []string{"", "width = 1", "width = 17", "width = 40"}
	item := func(t, c, w string) string {
		s := t
		if needed[t] != "" {
			s += "; " + needed[t]
		}
		if w != "" && (t == "config" || t == "mask" || t == "static" || t == "status" || t == "param" || t == "return") {
			s += "; " + w
		}
		return c + s
	}
	for _, out := range baseTypes {
		for _, oc := range counts {
			for _, in := range baseTypes {
				for _, ic := range counts {
					for _, w := range widths {
						for _, in2 := range append([]string{""}, baseTypes...) {
							if !g.Thorough && in2 != "" && in2 != "config" && in2 != "status" && in2 != "param" && in2 != "return" && w != "" {
								continue
							}
							second := ""
							if in2 != "" {
								second = "\n    b " + item(in2, "", "")
							}
							src := "main bus\n  x " + oc + out + "\n    a " + item(in, ic, w) + second + "\n"
							if out == "bus" {
								if oc != "" {
									continue
								}
								src = "main bus\n  a " + item(in, ic, w) + strings.ReplaceAll(second, "    ", "  ") + "\n"
							}
							if !em(g, "features", src) {
								return
							}
							// Through types.
							if in2 == "" && !em(g, "features of types", "type I "+item(in, ic, w)+"\ntype O "+oc+out+"\n  a I\n\nmain bus\n  x O\n  y [2]O\n") {
								return
							}
						}
					}
				}
			}
		}
	}
	for _, bw := range []string{"1", "8", "65"} {
		for _, in := range baseTypes {
			for _, ic := range counts {
				for _, w := range append(widths, "atomic = false", "width = 40; atomic = false", "width = 3; atomic = true") {
					for _, ts := range []bool{false, true} {
						src := "main bus\n  width = " + bw + "\n  a " + ic + in
						if needed[in] != "" {
							src += "; " + needed[in]
						}
						if w != "" {
							src += "; " + w
						}
						if !g.Emit(func() *lib.Case {
							return &lib.Case{Src: src + "\n", TS: ts, Consts: true, Meta: &model{what: "features with timestamp"}}
						}) {
							return
						}
					}
				}
			}
		}
	}
}
