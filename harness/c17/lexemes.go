package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

var toks = []string{
	"a", "A", "T", "main", "a.B", "config", "block", "bus", "param", "const", "type", "import", "width", "range", "init-value", "atomic",
	"0", "1", "0x1F", "99999999999999999999", "2.5", "1e3", "\"s\"", "\"a\nb\"", "b\"1\"", "x\"\"", "3 ns", "true", "log2", "bool",
	"+", "-", "*", "/", "%", "**", "<<", "==", "&&", "!", "|", ",", ";", ":", "=", "(", ")", "[", "]", ".",
	"\n", "\n\n", "\n  ", "\n    ", "# c", "# c\n", "\"", "b\"", "0x", "'", "@", "\t", "\r", "\x00", "\xff", "é",
}

// context is a place in a description, the sequence is put between both texts.
var contexts = []struct{ name, pre, post string }{
	{"top", "", "\nmain bus\n"},
	{"end", "main bus\n", ""},
	{"body", "const A = 3\ntype T(W = 1) config; width = W\nmain bus\n  x T\n  ", "\n  y T\n"},
	{"properties", "main bus\n  x config; ", "\n  y config\n"},
	{"value", "const A = 3\nmain bus\n  x config; width = ", "\n"},
	{"constant", "const B = 1\nconst A = ", "\nmain bus\n"},
	{"list", "const B = 1\nconst A = [1, ", "]\nmain bus\n"},
	{"parameters", "type T(", ") config; width = W\nmain bus\n  x T(1)\n"},
	{"arguments", "type T(W = 1, V = 2) config; width = W + V\nmain bus\n  x T(", ")\n"},
	{"count", "const A = 3\nmain bus\n  x [", "]status\n"},
	{"type", "type T", "\nmain bus\n  x T\n"},
	{"instance", "type T(W = 1) config; width = W\nmain bus\n  x", "\n  y config\n"},
	{"import", "import ", "\nmain bus\n"},
	{"imports", "import\n  ", "\nmain bus\n"},
	{"constants", "const\n  ", "\nmain bus\n"},
	{"deep body", "main bus\n  b block\n    p proc\n      ", "\n    c config\n"},
	{"bus", "main bus; ", "\n"},
	{"call", "const A = log2(", ")\nmain bus\n"},
	{"unterminated", "main bus\n  x [A", ""},
}

func seq(g *lib.Gen, ctx, n, sep int) bool {
	c := contexts[ctx]
	idx := make([]int, n)
	for {
		w := make([]string, n)
		for i, k := range idx {
			w[i] = toks[k]
		}
		s := strings.Join(w, []string{" ", ""}[sep])
		if !em(g, c.name+": "+fmt.Sprintf("%q", s), c.pre+s+c.post) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(toks) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

func lexemes(g *lib.Gen) {
	for n := 0; n <= 2; n++ {
		for ctx := range contexts {
			for sep := 0; sep < 2; sep++ {
				if !seq(g, ctx, n, sep) {
					return
				}
			}
		}
	}
	for ctx := range contexts {
		if !g.Thorough && ctx != 2 && ctx != 6 && ctx != 8 {
			continue
		}
		if !seq(g, ctx, 3, 0) {
			return
		}
	}
}

// short enumerates short strings.
func short(g *lib.Gen) {
	chars := []string{"a", "b", "x", "e", "_", "0", "1", "9", ".", "\"", "#", "\n", " ", "(", ")", "[", "]", "=", ";", ",", ":", "-", "*", "<", "!", "&", "\x00", "\x80", "\xff", "\r", "\t", "'", "\\", "/", "%", "|"}
	for n := 1; n <= 3; n++ {
		for ci, c := range contexts {
			if n == 3 && !g.Thorough && ci != 0 && ci != 4 {
				continue
			}
			idx := make([]int, n)
			for {
				s := ""
				for _, k := range idx {
					s += chars[k]
				}
				if !em(g, c.name+": "+fmt.Sprintf("%q", s), c.pre+s+c.post) {
					return
				}
				i := n - 1
				for ; i >= 0; i-- {
					if idx[i]++; idx[i] < len(chars) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

var edited = []string{
	`# Doc of A.
const A = 3
const
  # Doc.
  B = [1, 2 * A, -3]
  C = "multi
line" # c
  D = true
  F = 1.5e3

type T(W, V = 0x1F) [A - 1]config; width = W; init-value = b"1" # c
type U(K) T(K, V = 2); read-value = 1
type V block
  const W = 4
  type L(J = W) status
    width = J
  l L
  m L(J = 2)

# Doc of main.
main bus
  masters = 2; width = A + 29; reset = "Sync"

  const E = bool(A)
  x T(8, V = 2)
  y U(7)
  v [2]V
  b [2]block
    reset = "Async"; align = 4
    # Doc.
    s static; init-value = x"a"; width = 4; reset-value = o"7"
    i irq
      add-enable = true; in-trigger = "Level"; clear = "On Read"
    bb blackbox; size = 4 * A
  p proc
    delay = 10 us
    a param; range = [0:1, 3:A + 1]
    r [A]return; width = 5
  st stream
    delay = 3 ns
    q [3]param; width = log2(1024)
  g group
    virtual = false
    c1 config
    m1 mask; width = 3; init-value = 0b101
  z status; width = (3 - 1) ** 2 + 7 / -1 % 3 * -8 << 1; read-value = 3
`,
	`main bus
  width = 8
  a config; width = 4; init-value = 3; read-value = 4; reset-value = b"1010"
  e config; range = 3:700
  b [3]status; width = 3; atomic = true
  c mask
    width = 9; init-value = x"f"
  d irq; add-enable = true; enable-init-value = 1; enable-reset-value = 0; out-trigger = "Edge"
`,
}

func edits(g *lib.Gen) {
	bytes := []string{"\x00", "\x80", "\xff", "\n", " ", "  ", "\t", "\r", "\"", "#", "(", ")", "[", "]", "=", ";", ",", ":", ".", "-", "a", "Z", "_", "0", "9", "b\"", "e", "*", "<", "!", "'", "\\", "\n\n", "\n  ", "\n    "}
	for si, s := range edited {
		n := fmt.Sprintf("description %d: ", si)
		if !g.Emit(func() *lib.Case {
			return &lib.Case{Src: s, Consts: true, Meta: &model{what: n, must: lib.OK, set: true}}
		}) {
			return
		}
		for i := 0; i <= len(s); i++ {
			if !em(g, n+fmt.Sprintf("truncated at %d", i), s[:i]) || !em(g, n+fmt.Sprintf("first %d bytes removed", i), s[i:]) {
				return
			}
			if i < len(s) && !em(g, n+fmt.Sprintf("byte %d removed", i), s[:i]+s[i+1:]) {
				return
			}
			if i < len(s) && s[i] == ' ' && i+1 < len(s) && s[i+1] == ' ' && !em(g, n+fmt.Sprintf("bytes %d-%d removed", i, i+1), s[:i]+s[i+2:]) {
				return
			}
			for _, b := range bytes {
				if !em(g, n+fmt.Sprintf("%q inserted at %d", b, i), s[:i]+b+s[i:]) {
					return
				}
				if i < len(s) && !em(g, n+fmt.Sprintf("byte %d replaced with %q", i, b), s[:i]+b+s[i+1:]) {
					return
				}
			}
		}
		v := lib.Lex(s)
		if v.Bad {
			panic("seed")
		}
		// Single tokens and pairs of adjacent ones.
		for i, t := range v.Toks {
			if t.Start >= len(s) {
				continue
			}
			for _, x := range toks {
				if !em(g, n+fmt.Sprintf("token %d replaced with %q", i, x), s[:t.Start]+x+s[t.End+1:]) ||
					!em(g, n+fmt.Sprintf("token %d preceded with %q", i, x), s[:t.Start]+x+" "+s[t.Start:]) {
					return
				}
			}
			// Runs of tokens removed, moved and doubled.
			for j := i; j < len(v.Toks) && j < i+g.Pick(6, 20); j++ {
				u := v.Toks[j]
				if u.End >= len(s) {
					break
				}
				run, rest := s[t.Start:u.End+1], s[u.End+1:]
				if !em(g, n+fmt.Sprintf("tokens %d-%d removed", i, j), s[:t.Start]+rest) ||
					!em(g, n+fmt.Sprintf("tokens %d-%d doubled", i, j), s[:t.Start]+run+" "+run+rest) {
					return
				}
			}
			// Any other token of the description in its place.
			for j, u := range v.Toks {
				if j == i || u.Start >= len(s) {
					continue
				}
				if !g.Thorough && (i+j)%4 != 0 {
					continue
				}
				if !em(g, n+fmt.Sprintf("token %d replaced with token %d", i, j), s[:t.Start]+s[u.Start:u.End+1]+s[t.End+1:]) {
					return
				}
			}
		}
		// Lines.
		lines := strings.SplitAfter(s, "\n")
		join := func(ls ...[]string) string {
			r := ""
			for _, l := range ls {
				r += strings.Join(l, "")
			}
			return r
		}
		for i := range lines {
			for j := i; j <= len(lines); j++ {
				if !em(g, n+fmt.Sprintf("lines %d-%d removed", i, j), join(lines[:i], lines[j:])) ||
					!em(g, n+fmt.Sprintf("lines %d-%d only", i, j), join(lines[i:j])) ||
					!em(g, n+fmt.Sprintf("lines %d-%d doubled", i, j), join(lines[:j], lines[i:])) {
					return
				}
				for _, d := range []int{-4, -2, -1, 1, 2, 4, 60} {
					sh := []string{}
					for _, l := range lines[i:j] {
						if d > 0 {
							l = strings.Repeat(" ", d) + l
						} else {
							for k := 0; k < -d; k++ {
								l = strings.TrimPrefix(l, " ")
							}
						}
						sh = append(sh, l)
					}
					if !em(g, n+fmt.Sprintf("lines %d-%d shifted by %d", i, j, d), join(lines[:i], sh, lines[j:])) {
						return
					}
				}
				if j < len(lines) {
					sw := append([]string{}, lines...)
					sw[i], sw[j] = sw[j], sw[i]
					if !em(g, n+fmt.Sprintf("lines %d and %d swapped", i, j), join(sw)) {
						return
					}
				}
			}
			if !em(g, n+"no new lines", strings.ReplaceAll(s, "\n", " ")) || !em(g, n+"CRLF", strings.ReplaceAll(s, "\n", "\r\n")) {
				return
			}
		}
	}
}
