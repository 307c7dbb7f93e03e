package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// text is a rendered description with changes of white space and comments.
type text struct {
	lines  []string
	before map[int][]string  // Lines inserted before the line, len(lines) is the end of file.
	gaps   map[[2]int]string // White space before given offset of given line.
	trail  map[int]string    // Trailing comments.
	final  string            // End of the last line.
	old    map[[2]int]int    // Number of original spaces before the offset.
}

func newText(lines []string) *text {
	return &text{lines: lines, before: map[int][]string{}, gaps: map[[2]int]string{}, trail: map[int]string{}, final: "\n"}
}

func (t *text) String() string {
	var b strings.Builder
	ins := func(i int) {
		for _, l := range t.before[i] {
			b.WriteString(l + "\n")
		}
	}
	keys := map[int][]int{}
	for k := range t.gaps {
		keys[k[0]] = append(keys[k[0]], k[1])
	}
	for i, l := range t.lines {
		ins(i)
		ks := keys[i]
		sort.Ints(ks)
		prev := 0
		for _, o := range ks {
			b.WriteString(strings.TrimRight(l[prev:o], " "))
			b.WriteString(t.gaps[[2]int{i, o}])
			prev = o
		}
		b.WriteString(l[prev:])
		b.WriteString(t.trail[i])
		if i < len(t.lines)-1 {
			b.WriteString("\n")
		}
	}
	b.WriteString(t.final)
	ins(len(t.lines))
	return b.String()
}

// edit is a single change of the text.
type edit struct {
	what  string
	apply func(t *text)
}

func indentOf(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

func sameTokens(a, b string) bool {
	va, vb := lib.Lex(a), lib.Lex(b)
	if va.Bad || vb.Bad || va.Dontcare || vb.Dontcare || len(va.Toks) != len(vb.Toks) {
		return false
	}
	for i, x := range va.Toks {
		y := vb.Toks[i]
		if x.Name != y.Name {
			return false
		}
		if x.Name == "newline" || x.Name == "end of file" || strings.HasPrefix(x.Name, "indent") {
			continue
		}
		if x.Name == "time" {
			if strings.ReplaceAll(a[x.Start:x.End+1], " ", "") != strings.ReplaceAll(b[y.Start:y.End+1], " ", "") {
				return false
			}
			continue
		}
		if a[x.Start:x.End+1] != b[y.Start:y.End+1] {
			return false
		}
	}
	return true
}

var comments = []string{"# c", "#", "#c; d = 3", "# \"x", "#\tmain bus", "##  ", "# zażółć"}

// textual returns all single changes of the text which shall not change the output.
func textual(lines []string, rich bool) []edit {
	res := []edit{}
	add := func(what string, fn func(t *text)) { res = append(res, edit{what, fn}) }
	put := func(i int, ls ...string) {
		add(fmt.Sprintf("before line %d: %q", i+1, ls), func(t *text) { t.before[i] = append(append([]string{}, t.before[i]...), ls...) })
	}
	cs := comments
	if !rich {
		cs = comments[:2]
	}
	for i := 0; i <= len(lines); i++ {
		put(i, "")
		if rich {
			put(i, "", "")
		}
		// Legal indentations of a comment: the one of the next line and, if it decreases, all up to the one of the previous.
		lo, hi := 0, 0
		if i < len(lines) {
			lo = indentOf(lines[i])
		}
		hi = lo
		if i > 0 && indentOf(lines[i-1]) > hi {
			hi = indentOf(lines[i-1])
		}
		for ind := lo; ind <= hi; ind += 2 {
			sp := strings.Repeat(" ", ind)
			for _, c := range cs {
				put(i, sp+c)
				if rich || ind == lo {
					put(i, sp+c, "")
				}
				if rich {
					put(i, "", sp+c)
					put(i, sp+c, sp+"# d")
					put(i, sp+c, "", sp+"# d", "", "")
				}
			}
			// Comments at decreasing indentations.
			if ind > lo && rich {
				put(i, sp+"# c", sp[2:]+"# d")
				put(i, sp+"# c", "", sp[2:]+"# d", "")
			}
		}
	}
	for i := range lines {
		for _, c := range cs {
			add(fmt.Sprintf("line %d with trailing %q", i+1, c), func(t *text) { t.trail[i] = " " + c })
			if rich {
				add(fmt.Sprintf("line %d with trailing %q", i+1, "   "+c), func(t *text) { t.trail[i] = "   " + c })
				add(fmt.Sprintf("line %d with trailing %q without space", i+1, c), func(t *text) { t.trail[i] = c })
			}
		}
	}
	// White space between tokens.
	whole := strings.Join(lines, "\n") + "\n"
	v := lib.Lex(whole)
	if v.Bad || v.Dontcare {
		panic("seed description is not legal: " + whole)
	}
	start := 0
	for i, l := range lines {
		end := start + len(l)
		prev := -1
		offs := []int{}
		for _, t := range v.Toks {
			if t.Start < start || t.Start >= end || strings.HasPrefix(t.Name, "indent") || t.Name == "newline" {
				continue
			}
			if t.Name == "time" { // Number and unit.
				if sp := strings.LastIndexByte(whole[t.Start:t.End+1], ' '); sp >= 0 {
					offs = append(offs, t.Start+sp+1-start)
				}
			}
			if prev >= 0 {
				offs = append(offs, t.Start-start)
			}
			prev = t.End
		}
		sps := []string{"", " ", "  "}
		if rich {
			sps = append(sps, "     ")
		}
		for _, o := range offs {
			old := l[len(strings.TrimRight(l[:o], " ")):o]
			for _, sp := range sps {
				if sp == old {
					continue
				}
				k := [2]int{i, o}
				t := newText(lines)
				t.gaps[k] = sp
				if !sameTokens(whole, t.String()) {
					continue
				}
				add(fmt.Sprintf("line %d offset %d: %d spaces", i+1, o, len(sp)), func(t *text) { t.gaps[k] = sp })
			}
		}
		start = end + 1
	}
	for _, f := range []string{"", "\n\n", "\n\n\n\n"} {
		add(fmt.Sprintf("final %q", f), func(t *text) { t.final = f })
	}
	return res
}

// legal tells if a combination of edits makes sense: comment or blank line after the end needs the final new line.
func (t *text) legal() bool {
	return t.final != "" || len(t.before[len(t.lines)]) == 0
}

// clashes reports two edits of the same place which are not independent.
func (t *text) doubled() bool {
	for i, ls := range t.before {
		// Comments of different indentation have to keep decreasing.
		prev := 1 << 30
		for _, l := range ls {
			if l == "" {
				continue
			}
			if d := indentOf(l); d > prev {
				return true
			} else {
				prev = d
			}
		}
		_ = i
	}
	return false
}
