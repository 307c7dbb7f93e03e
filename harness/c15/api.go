//go:build !cliengine

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// compare runs the tokenizer and compares its result with the reference one.
func compare(src string) (msg string, kind int) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%q: panic: %v", src, r)
		}
	}()
	v := lib.Lex(src)
	ts, err := tok.Parse([]byte(src), "f")
	if v.Dontcare {
		return "", 2
	}
	if v.Bad {
		if err == nil {
			return fmt.Sprintf("%q: accepted, expected error at bytes %d-%d", src, v.Lo, v.Hi), 1
		}
		var te tok.Error
		if errors.As(err, &te) {
			for _, t := range te.Toks {
				if t.Start() > v.Hi || t.End() < v.Lo {
					return fmt.Sprintf("%q: error at bytes %d-%d, expected at %d-%d: %v", src, t.Start(), t.End(), v.Lo, v.Hi, err), 1
				}
			}
		}
		return "", 1
	}
	if err != nil {
		return fmt.Sprintf("%q: rejected: %v", src, err), 0
	}
	got := []lib.Lexeme{}
	for _, t := range ts {
		got = append(got, lib.Lexeme{Name: t.Name(), Start: t.Start(), End: t.End(), Line: t.Line(), Col: t.Column()})
	}
	want := v.Toks
	if len(got) != len(want) {
		return fmt.Sprintf("%q: tokens %v, expected %v", src, got, want), 0
	}
	for i := range got {
		g, w := got[i], want[i]
		if w.Name == "newline" || w.Name == "end of file" || strings.HasPrefix(w.Name, "indent") {
			g.Start, g.End, w.Start, w.End = 0, 0, 0, 0
			if w.Name != "newline" {
				g.Line, g.Col, w.Line, w.Col = 0, 0, 0, 0
			}
		}
		if g != w {
			return fmt.Sprintf("%q: tokens %v, expected %v", src, got, want), 0
		}
	}
	return "", 0
}

// alphabet of arbitrary strings: all characters significant for the tokenizer.
const alphabet = "ab_x0129eo.-+*=!<&|\":;,([)# \n\ts'"

// lexemes for token sequences.
var lexs = []string{
	"a", "b", "B", "o", "x", "X", "_", "s", "ns", "e1", "A1_b", "a.B", "_x.c1", "config", "block", "bus", "const", "type", "import", "configs", "true", "false", "truex",
	"width", "init-value", "byte-write-enable", "width-1", "a-b", "a-b.c", "in-trigger2",
	"0", "12", "0b101", "0B1", "0o17", "0x1F", "0Xe", "1.5", "1.", "2e3", "1.5e2",
	`"s"`, `""`, "\"a\nb\"", `"#;"`, `b"01zW-"`, `x"aF"`, `o"7"`, `b""`,
	"+", "-", "*", "**", "/", "%", "=", "==", "!", "!=", "<", "<=", "<<", ">", ">=", ">>", "&", "&&", "|", "||", ":", ",", ";", "(", ")", "[", "]",
	"\n", "\n\n", "\n  ", "\n    ", "# c", "#;\n", "#\n  ",
}

func apiCases(g *lib.Gen) {
	group := func(name string, f func(rep func(string))) {
		c := &lib.Case{Meta: name}
		c.Run = func() (o *lib.Outcome) {
			o = &lib.Outcome{}
			kinds := map[int]int{}
			n := 0
			f(func(s string) {
				n++
				m, k := compare(s)
				kinds[k]++
				if m != "" && o.Obs == nil {
					o.Obs = m
				}
			})
			c.Edges = n
			if o.Obs == nil {
				ks := []string{}
				for k, n := range kinds {
					ks = append(ks, fmt.Sprintf("%d:%d", k, n))
				}
				sort.Strings(ks)
				o.JSON = []byte(fmt.Sprint(name, ks))
			}
			return o
		}
		g.Emit(func() *lib.Case { return c })
	}
	// All strings.
	var strs func(p string, n int, rep func(string))
	strs = func(p string, n int, rep func(string)) {
		rep(p)
		if n == 0 {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			strs(p+alphabet[i:i+1], n-1, rep)
		}
	}
	for i := 0; i < len(alphabet); i++ {
		for j := 0; j < len(alphabet); j++ {
			p := alphabet[i:i+1] + alphabet[j:j+1]
			group(fmt.Sprintf("strings starting with %q", p), func(rep func(string)) { strs(p, g.Pick(2, 3), rep) })
		}
	}
	// All bytes next to each kind of lexeme.
	group("all bytes", func(rep func(string)) {
		for b := 0; b < 256; b++ {
			if b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' {
				continue
			}
			c := string([]byte{byte(b)})
			for _, l := range lexs {
				for _, r := range lexs {
					rep(l + c + r)
				}
			}
		}
	})
	// Sequences of lexemes.
	seps := []string{"", " ", "   "}
	for _, a := range lexs {
		group(fmt.Sprintf("lexemes starting with %q", a), func(rep func(string)) {
			rep(a)
			for _, s := range seps {
				for _, b := range lexs {
					rep(a + s + b)
					for _, t := range seps {
						if s == "   " && t == "   " {
							continue
						}
						for _, c := range lexs {
							rep(a + s + b + t + c)
						}
					}
				}
			}
		})
		if !g.Thorough {
			continue
		}
		for _, b := range lexs {
			group(fmt.Sprintf("lexemes starting with %q, %q", a, b), func(rep func(string)) {
				for _, m := range []int{0, 2, 5, 7} {
					s := seps[:2]
					p := a + s[m&1] + b + s[m>>1&1]
					for _, c := range lexs {
						for _, d := range lexs {
							rep(p + c + s[m>>2&1] + d)
						}
					}
				}
			})
		}
	}
	// Long lexemes, many lexemes, long lines and sources of many lines.
	long := []func(n int) string{
		func(n int) string { return strings.Repeat("a", n) },
		func(n int) string { return strings.Repeat("_1", n)[:n] },
		func(n int) string { return "z." + strings.Repeat("b", n) },
		func(n int) string { return strings.Repeat("c", n) + ".z" },
		func(n int) string { return "1" + strings.Repeat("0", n-1) },
		func(n int) string { return "0x" + strings.Repeat("e", n) },
		func(n int) string { return "0b" + strings.Repeat("01", n)[:n] },
		func(n int) string { return "0o" + strings.Repeat("7", n) },
		func(n int) string { return "1." + strings.Repeat("5", n) },
		func(n int) string { return strings.Repeat("3", n) + ".5e1" },
		func(n int) string { return `"` + strings.Repeat("x#", n)[:n] + `"` },
		func(n int) string { return `"` + strings.Repeat("\n", n) + `"` },
		func(n int) string { return `b"` + strings.Repeat("01z", n)[:n] + `"` },
		func(n int) string { return `x"` + strings.Repeat("0f", n)[:n] + `"` },
		func(n int) string { return `o"` + strings.Repeat("07", n)[:n] + `"` },
		func(n int) string { return "#" + strings.Repeat("c", n) + "\n" },
		func(n int) string { return strings.Repeat("# c\n", n) },
		func(n int) string { return strings.Repeat("\n", n) },
		func(n int) string { return strings.Repeat(" ", n) },
		func(n int) string { return strings.Repeat("1 ", n) },
		func(n int) string { return strings.Repeat("(", n) },
		func(n int) string { return strings.Repeat("a+", n) },
		func(n int) string { return strings.Repeat("a = 1; ", n) },
		func(n int) string { return strings.Repeat("a\n", n) },
		func(n int) string { return strings.Repeat("a\n  b\n", n) },
		func(n int) string { return strings.Repeat("width", n) },
		func(n int) string { return "width" + strings.Repeat("s", n) },
	}
	for i, f := range long {
		group(fmt.Sprintf("long %d", i), func(rep func(string)) {
			for _, n := range lib.Lengths(g.Pick(300, 1000), g.Pick(10000, 100000)) {
				s := f(n)
				rep(s)
				if n > 1000 {
					rep("a" + s + "+ width")
					rep("a = " + s + " b @")
					continue
				}
				for _, p := range []string{"a", "a ", "= ", "1 ", "\n", "\n  "} {
					for _, q := range []string{"", "b", " b", "\"", "; width", " ns", "@", "\n    c"} {
						rep(p + s + q)
					}
				}
			}
		})
	}
	group("deep indentation", func(rep func(string)) {
		for _, n := range lib.Lengths(g.Pick(60, 150), 257) {
			s := ""
			for i := range n {
				s += strings.Repeat("  ", i) + "a block\n"
				for _, back := range []int{1, 2, 3, i, i + 1} {
					if i == n-1 && back <= i+1 {
						for d := -1; d <= 1; d++ {
							rep(s + strings.Repeat(" ", max(0, 2*(i+1-back)+d)) + "b config\n")
						}
					}
				}
			}
		}
	})
	// Layout: lines with all indentations.
	group("layout", func(rep func(string)) {
		heads := []string{"a", "width", "config", "# c", "const", ""}
		var lines func(p string, n int)
		lines = func(p string, n int) {
			rep(p)
			rep(p + "\n")
			if n == 0 {
				return
			}
			for _, h := range heads {
				for ind := 0; ind <= 7; ind++ {
					if h == "" && ind > 1 {
						continue
					}
					lines(p+"\n"+strings.Repeat(" ", ind)+h, n-1)
				}
			}
		}
		for _, h := range heads {
			lines(h, g.Pick(3, 4))
		}
	})
}
