package main

import (
	"fmt"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// seeds are valid descriptions which together use the whole grammar.
var seeds = []string{
	`const A = 3
const
  # Doc.
  B = [1, 2 * A, -3]
  C = "multi
line" # c

type T(W, V = 0x1F) [A - 1]config; width = W; init-value = b"1" # c

# Doc of main.
main bus
  masters = 2; width = A + 29

  const D = bool(A)
  x T(8, V = 2)
  y T(W = 7)
  b [2]block
    reset = "Sync"
    # Doc.
    s static; init-value = x"a"; width = 4
    i irq
      add-enable = true; in-trigger = "Level"
    type L status
      width = (1 + A) * 2
    l L
  p proc
    delay = 10 us
    a param; range = [0:1, 3:A + 1]
    r return
  st stream
    delay = 3 ns
    q [3]param; width = log2(1024)
  g group
    virtual = false
    c1 config
    m1 mask; width = 3

`,
	`import "p"
import
  q "p"
main bus
  x p.T(p.A)
  y q.T(W = q.A + 1 % 2)
  z status; width = (3 - 1) ** 2 + 7 / -1 % 3 * -8 >> 1
const A = 1.5e3
`,
}

var pkgFiles = map[string]string{"fbd-p/a.fbd": "const A = 3\ntype T(W) config; width = W\n"}

// insertion is put at some places of seeds.
type insertion struct {
	name string
	text string
}

func within(v lib.Verdict, pos int, f func(t lib.Lexeme) bool) bool {
	for _, t := range v.Toks {
		if pos > t.Start && pos <= t.End && f(t) {
			return true
		}
	}
	return false
}

// inComment tells whether the byte at pos is placed in a comment.
func inComment(src string, v lib.Verdict, pos int) bool {
	ls := strings.LastIndexByte(src[:pos], '\n') + 1
	for i := ls; i < pos; i++ {
		if src[i] == '#' && !within(v, i, func(t lib.Lexeme) bool { return t.Name == "string" }) {
			return true
		}
	}
	return false
}

func editCases(g *lib.Gen) {
	emit := func(what, src string, marks ...mark) bool {
		return g.Emit(func() *lib.Case {
			m := &model{what: what, src: sources{"bus.fbd": src}, marks: marks, any: marks == nil}
			c := &lib.Case{Src: src, Meta: m}
			if strings.Contains(src, "import") {
				c.Files = pkgFiles
				for n, s := range pkgFiles {
					m.src[n] = s
				}
			}
			return c
		})
	}
	req := func(src string, start, end int) mark {
		m := at("bus.fbd", src+"\n", start, end)
		m.required = true
		return m
	}
	for si, s := range seeds {
		for ti, head := range topNoise {
			src := head + s
			v := lib.Lex(src)
			if v.Bad {
				panic("seed: " + src)
			}
			if !g.Emit(func() *lib.Case {
				c := &lib.Case{Src: src, Meta: &model{what: "seed", valid: true}}
				if strings.Contains(src, "import") {
					c.Files = pkgFiles
				}
				return c
			}) {
				return
			}
			n := fmt.Sprintf("seed %d with prefix %d: ", si, ti)
			// Bytes legal nowhere.
			for pos := len(head); pos <= len(src); pos++ {
				for _, b := range []string{"@", "\t", "\x01", "?"} {
					if within(v, pos, func(t lib.Lexeme) bool { return t.Name == "string" }) || inComment(src, v, pos) {
						continue
					}
					e := src[:pos] + b + src[pos:]
					if r := lib.Lex(e); r.Dontcare || !r.Bad || r.Lo > pos || r.Hi < pos {
						continue
					} else if r.Lo != r.Hi && !within(v, pos, func(t lib.Lexeme) bool { return t.Name == "bit string" || t.Name == "integer" }) && r.Lo != pos {
						continue
					}
					if !emit(n+fmt.Sprintf("%q inserted at %d", b, pos), e, req(e, pos, pos)) {
						return
					}
				}
			}
			// White space at ends of lines.
			for pos := len(head); pos < len(src); pos++ {
				if src[pos] != '\n' || within(v, pos, func(t lib.Lexeme) bool { return t.Name == "string" }) || inComment(src, v, pos) {
					continue
				}
				for k := 1; k <= 4; k++ {
					e := src[:pos] + strings.Repeat(" ", k) + src[pos:]
					if !emit(n+fmt.Sprintf("%d spaces inserted at %d", k, pos), e, req(e, pos, pos+k-1)) {
						return
					}
				}
			}
			// Indentation.
			line := 0
			for pos := len(head); pos < len(src); pos++ {
				if pos > 0 && src[pos-1] != '\n' || src[pos] == '\n' || within(v, pos, func(t lib.Lexeme) bool { return t.Name == "string" || t.Name == "newline" }) {
					continue
				}
				line++
				if pos == 0 {
					continue
				}
				have := len(src[pos:]) - len(strings.TrimLeft(src[pos:], " "))
				for _, k := range []int{1, 3, 5, 20} {
					if k%2 == 0 && have+k <= 8 {
						continue
					}
					e := src[:pos] + strings.Repeat(" ", k) + src[pos:]
					if !emit(n+fmt.Sprintf("indent of %d spaces inserted at %d", k, pos), e, req(e, pos, pos+have+k-1)) {
						return
					}
				}
			}
			// Tokens legal nowhere but at the beginning of a line, or within brackets.
			paren, brack := 0, 0
			for i, t := range v.Toks {
				prev := ""
				if i > 0 {
					prev = v.Toks[i-1].Name
				}
				first := prev == "" || prev == "newline" || strings.HasPrefix(prev, "indent") || prev == "comment"
				if t.Start >= len(head) && !strings.HasPrefix(t.Name, "indent") && t.Name != "comment" {
					for _, x := range []string{"]", ")", "const", "type", "import", "=", ";;", ",,"} {
						if x == "]" && brack > 0 || x == ")" && paren > 0 {
							continue
						}
						if first && (x[0] == 'c' || x[0] == 't' || x[0] == 'i' || t.Name == "newline") {
							continue
						}
						pos := t.Start
						ls := src[strings.LastIndexByte(src[:pos], '\n')+1 : pos]
						if l := strings.TrimSpace(ls); x[0] > 'a' && x[0] < 'z' && (strings.HasPrefix(l, "const ") || strings.HasPrefix(l, "import ")) {
							continue // New line is not required after constants and imports.
						}
						if t.Name == "newline" && inComment(src, v, pos) {
							continue
						}
						pad := ""
						if x[0] > 'a' && x[0] < 'z' && pos > 0 && src[pos-1] != ' ' && src[pos-1] != '\n' {
							pad = " "
						}
						e := src[:pos] + pad + x + " " + src[pos:]
						if t.Name == "newline" {
							e = src[:pos] + " " + x + src[pos:]
							pad = " "
						}
						pos += len(pad)
						k := req(e, pos, pos+len(x)-1)
						switch {
						case x == "=" && (strings.HasPrefix(t.Name, "'=") || prev == "'='" || prev == "identifier" || prev == "'!'" || prev == "!" || prev == "'<'" || prev == "'>'"):
							continue
						case x == "=" && strings.HasPrefix(prev, "'") && lib.IsIn(lib.Properties, strings.Trim(prev, "'")):
							continue
						case x == ";;" || x == ",,":
							if prev == "'"+x[:1]+"'" {
								k = req(e, pos, pos)
							} else {
								k = req(e, pos+1, pos+1)
							}
						}
						if !emit(n+fmt.Sprintf("%q inserted at %d", x, pos), e, k) {
							return
						}
					}
				}
				switch t.Name {
				case "'('":
					paren++
				case "')'":
					paren--
				case "'['":
					brack++
				case "']'":
					brack--
				}
			}
			// Any single edit of tokens: diagnostics have to be consistent with the source.
			if ti > 3 && !g.Thorough {
				continue
			}
			subst := []string{"a", "config", "bus", "const", "type", "import", "width", "1", "2.5", "\"s\"", "b\"1\"", "3 ns", "true", "a.B", "+", "*", "=", "!", ":", ",", ";", "(", ")", "[", "]", "\n", "\n\n", "\n  ", "\n    ", "# c\n", "\"a\nb\""}
			for i, t := range v.Toks {
				if t.Start < len(head) || strings.HasPrefix(t.Name, "indent") || t.Start >= len(src) {
					continue
				}
				what := n + fmt.Sprintf("token %d %s: ", i, t.Name)
				if !emit(what+"removed", src[:t.Start]+src[t.End+1:]) || !emit(what+"truncated", src[:t.Start]) || !emit(what+"truncated after", src[:t.End+1]) ||
					!emit(what+"doubled", src[:t.End+1]+" "+src[t.Start:]) {
					return
				}
				for _, x := range subst {
					if !emit(what+fmt.Sprintf("replaced with %q", x), src[:t.Start]+x+src[t.End+1:]) ||
						!emit(what+fmt.Sprintf("preceded with %q", x), src[:t.Start]+x+" "+src[t.Start:]) {
						return
					}
				}
			}
		}
	}
}
