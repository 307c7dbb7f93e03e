package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// mark is a place in a source.
type mark struct {
	file       string
	start, end int // End is inclusive.
	line, col  int
	length     int // Within the first line.
	required   bool
}

func (m mark) String() string { return fmt.Sprintf("%s:%d:%d(%d)", m.file, m.line, m.col, m.length) }

// at returns mark for given bytes.
func at(file, src string, start, end int) mark {
	m := mark{file: file, start: start, end: end}
	m.line = strings.Count(src[:start], "\n") + 1
	m.col = start - strings.LastIndexByte(src[:start], '\n')
	m.length = end - start + 1
	if i := strings.IndexByte(src[start:end+1], '\n'); i > 0 {
		m.length = i
	}
	return m
}

// unmark removes marks from the source. Required places are put within «», optional ones within ‹›.
func unmark(file, marked string) (string, []mark) {
	var b strings.Builder
	type span struct {
		start, end int
		req        bool
	}
	var sp []span
	open := 0
	for _, r := range marked {
		switch r {
		case '«', '‹':
			open = b.Len()
		case '¦': // From the beginning of the line.
			open = strings.LastIndexByte(b.String(), '\n') + 1
		case '»', '›':
			sp = append(sp, span{open, b.Len() - 1, r == '»'})
		default:
			b.WriteRune(r)
		}
	}
	src := b.String()
	var ms []mark
	for _, s := range sp {
		m := at(file, src+"\n", s.start, s.end)
		m.required = s.req
		ms = append(ms, m)
	}
	return src, ms
}

// location is a location found in a diagnostic.
type location struct {
	form      string // block, colon, words, line
	file      string // Empty if unknown.
	line, col int
	quoted    string
	under     int // Column of the first '^'.
	length    int // Number of '^'.
}

func (l location) String() string {
	return fmt.Sprintf("%s %s:%d:%d %q under %d length %d", l.form, l.file, l.line, l.col, l.quoted, l.under, l.length)
}

var (
	reHead  = regexp.MustCompile(`^(\S+) \+(-?\d+):(-?\d+)$`)
	reBar   = regexp.MustCompile(`^( +)\|$`)
	reQuote = regexp.MustCompile(`^ (-?\d+) \| (.*)$`)
	reUnder = regexp.MustCompile(`^( +)\| ( *)(\^*)$`)
	reColon = regexp.MustCompile(`([^\s:'"]*\.fbd):(-?\d+):(-?\d+)`)
	reWords = regexp.MustCompile(`line (-?\d+) column (-?\d+)`)
	reLine  = regexp.MustCompile(`([^\s:'"]*\.fbd): line (-?\d+)`)
)

func num(s string) int { n, _ := strconv.Atoi(s); return n }

// locations returns all locations from the diagnostic and the description of the malformed one, if there is any.
func locations(msg string) (ls []location, bad string) {
	lines := strings.Split(msg, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if m := reHead.FindStringSubmatch(l); m != nil {
			loc := location{form: "block", file: m[1], line: num(m[2]), col: num(m[3])}
			if i+3 >= len(lines) {
				return ls, "block without quoted source"
			}
			bar, quote, under := reBar.FindStringSubmatch(lines[i+1]), reQuote.FindStringSubmatch(lines[i+2]), reUnder.FindStringSubmatch(lines[i+3])
			if bar == nil || quote == nil || under == nil {
				return ls, fmt.Sprintf("malformed block %q", lines[i:i+4])
			}
			w := len(quote[1]) + 2
			if quote[1] != m[2] || len(bar[1]) != w || len(under[1]) != w {
				return ls, fmt.Sprintf("misaligned block %q", lines[i:i+4])
			}
			loc.quoted, loc.under, loc.length = quote[2], len(under[2])+1, len(under[3])
			if loc.under != loc.col {
				return ls, fmt.Sprintf("underline not at the column %q", lines[i:i+4])
			}
			ls = append(ls, loc)
			i += 3
			continue
		}
		for _, m := range reColon.FindAllStringSubmatch(l, -1) {
			ls = append(ls, location{form: "colon", file: m[1], line: num(m[2]), col: num(m[3])})
		}
		for _, m := range reLine.FindAllStringSubmatch(l, -1) {
			ls = append(ls, location{form: "line", file: m[1], line: num(m[2])})
		}
		for _, m := range reWords.FindAllStringSubmatch(l, -1) {
			ls = append(ls, location{form: "words", line: num(m[1]), col: num(m[2])})
		}
	}
	return ls, ""
}

// sources are contents of all files.
type sources map[string]string

// sane returns description of a location which is not a place in sources.
func (s sources) sane(l location) string {
	if l.form == "words" {
		return ""
	}
	name, src, ok := s.find(l.file)
	if !ok {
		return fmt.Sprintf("%v: no such file", l)
	}
	lines := strings.Split(src, "\n")
	if l.line < 1 || l.line > len(lines) {
		return fmt.Sprintf("%v: %s has no such line", l, name)
	}
	t := lines[l.line-1]
	if l.form == "line" {
		return ""
	}
	if l.col < 1 || l.col > len(t)+1 {
		return fmt.Sprintf("%v: no such column in %q", l, t)
	}
	if l.form == "block" {
		if l.quoted != t {
			return fmt.Sprintf("%v: the line is %q", l, t)
		}
		if l.length < 1 || l.col+l.length-1 > len(t)+1 {
			// New line token spans all following empty lines.
			if l.col == len(t)+1 {
				return ""
			}
			return fmt.Sprintf("%v: underline does not match %q", l, t)
		}
	}
	return ""
}

func (s sources) find(path string) (string, string, bool) {
	for n, src := range s {
		if path == n || strings.HasSuffix(path, "/"+n) {
			return n, src, true
		}
	}
	return "", "", false
}

// is tells whether location points at the mark.
func (m mark) is(l location) bool {
	if l.form != "words" && l.file != m.file && !strings.HasSuffix(l.file, "/"+m.file) {
		return false
	}
	if l.line != m.line {
		return false
	}
	if l.form == "line" {
		return true
	}
	if l.col != m.col {
		return false
	}
	return l.form != "block" || l.length == m.length
}
