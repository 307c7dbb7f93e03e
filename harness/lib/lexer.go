package lib

import (
	"regexp"
	"strings"
)

// Lexeme is a token expected by the reference tokenizer.
type Lexeme struct {
	Name       string
	Start, End int // End is inclusive.
	Line, Col  int
}

// Verdict of the reference tokenizer.
type Verdict struct {
	Toks     []Lexeme
	Bad      bool // Source has to be rejected.
	Lo, Hi   int  // Bytes any location of the error has to overlap.
	Dontcare bool // The rest of the source has no defined meaning.
}

var (
	reSpaces = regexp.MustCompile(`^ +`)
	reWord   = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*`)
	reHyphen = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*(-[A-Za-z0-9_.]*)*`)
	reInt    = regexp.MustCompile(`^(0[bB][01]*|0[oO][0-7]*|0[xX][0-9a-fA-F]*|[0-9]+)`)
	reFloat  = regexp.MustCompile(`^([0-9]+\.[0-9]*([eE][0-9]*)?|[0-9]+[eE][0-9]*)`)
	reBits   = regexp.MustCompile(`^([bB]"[01uUwWxXzZ-]*"|[oO]"[0-7uUwWxXzZ-]*"|[xX]"[0-9a-fA-FuUwWxXzZ-]*")`)
	reStr    = regexp.MustCompile(`^"[^"]*"`)
	reOps    = regexp.MustCompile(`^(==|!=|<=|>=|<<|>>|\*\*|&&|\|\||[-+*/%=!<>()\[\]&|:,;])`)
	reBased  = regexp.MustCompile(`^0[bBoOxX]`)
)

var Keywords = strings.Fields("const import type")
var Functionalities = strings.Fields("block bus config group irq mask memory param proc return static status stream")
var Properties = strings.Fields("access add-enable align atomic byte-write-enable clear delay enable-init-value enable-reset-value init-value in-trigger masters out-trigger range read-latency read-value reset reset-value size virtual width")
var Units = strings.Fields("ns us ms s")

func IsIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// lex is the reference tokenizer. It always takes the longest Lexeme, then classifies it.
func Lex(src string) (v Verdict) {
	pos, line, bol, indent := 0, 1, 0, 0
	lineStart := true // No token yet in the current line.
	var prev string   // Name of the previous token, also across lines.
	add := func(name string, start, end int) {
		v.Toks = append(v.Toks, Lexeme{name, start, end, line, start - bol + 1})
		prev = name
	}
	fail := func(lo, hi int) Verdict { v.Bad, v.Lo, v.Hi = true, lo, hi; return v }
	undefined := func() Verdict { v.Dontcare = true; return v }
	for pos < len(src) {
		s := src[pos:]
		// White space and new lines.
		if m := reSpaces.FindString(s); m != "" {
			n := len(m)
			if n < len(s) && s[n] == '\n' {
				return fail(pos, pos+n-1)
			}
			if prev == "newline" {
				if n == len(s) {
					return undefined()
				}
				if n%2 != 0 || n/2 > indent+1 {
					return fail(pos, pos+n-1)
				}
				if n/2 == indent+1 {
					add("indent increment", pos, pos+n-1)
				}
				for ; n/2 < indent; indent-- {
					add("indent decrement", pos, pos+n-1)
				}
				indent = n / 2
				prev = "indent"
			}
			pos += n
			continue
		}
		if s[0] == '\n' {
			if prev == "';'" {
				return fail(v.Toks[len(v.Toks)-1].Start, pos)
			}
			n := len(s) - len(strings.TrimLeft(s, "\n"))
			add("newline", pos, pos+n-1)
			pos += n
			line += n
			bol = pos
			lineStart = true
			if pos < len(src) && src[pos] != ' ' {
				for ; indent > 0; indent-- {
					add("indent decrement", pos, pos)
				}
				prev = "newline"
				if src[pos] != '#' {
					prev = "indent"
				}
			}
			continue
		}
		if s[0] == '#' {
			n := strings.IndexByte(s, '\n')
			if n < 0 {
				n = len(s)
			}
			if lineStart {
				add("comment", pos, pos+n-1)
			}
			pos += n
			lineStart = false
			continue
		}
		start := lineStart
		lineStart = false
		if m := reStr.FindString(s); m != "" {
			add("string", pos, pos+len(m)-1)
			pos += len(m)
			if n := strings.Count(m, "\n"); n > 0 {
				line += n
				bol = pos - len(m) + strings.LastIndexByte(m, '\n') + 1
			}
			continue
		}
		if s[0] == '"' {
			return fail(pos, len(src)-1)
		}
		if len(s) > 1 && s[1] == '"' && strings.IndexByte("bBoOxX", s[0]) >= 0 {
			m := reBits.FindString(s)
			if m == "" {
				return fail(pos, len(src)-1)
			}
			add("bit string", pos, pos+len(m)-1)
			pos += len(m)
			continue
		}
		if s[0] >= '0' && s[0] <= '9' {
			name := "integer"
			m := reInt.FindString(s)
			if f := reFloat.FindString(s); !reBased.MatchString(s) && f != "" {
				name, m = "float", f
			}
			if len(m) < len(s) {
				switch c := s[len(m)]; {
				case c == '"' || c == '[':
					return undefined() // Legal in no description.
				case c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
					return fail(pos, pos+len(m))
				}
			}
			add(name, pos, pos+len(m)-1)
			pos += len(m)
			continue
		}
		if h := reHyphen.FindString(s); h != "" {
			first := start || prev == "';'"
			m := reWord.FindString(s)
			// Qualified identifier.
			if r := s[len(m):]; strings.HasPrefix(r, ".") {
				q := reWord.FindString(r[1:])
				if q == "" || q[0] == '_' {
					if len(r) > 1 && r[1] == '.' {
						return undefined()
					}
					return fail(pos, pos+len(m)+1)
				}
				m += "." + q
				if strings.HasPrefix(s[len(m):], ".") {
					return undefined()
				}
				add("qualified identifier", pos, pos+len(m)-1)
				pos += len(m)
				continue
			}
			if first && IsIn(Properties, h) && !strings.HasPrefix(s[len(h):], ".") {
				add("'"+h+"'", pos, pos+len(h)-1)
				pos += len(h)
				continue
			}
			name := "identifier"
			// Hyphen is a subtraction.
			whole := len(h) == len(m)
			switch {
			case !whole:
			case m == "true" || m == "false":
				name = "bool"
			case IsIn(Keywords, m):
				name = "'" + m + "'"
			case IsIn(Functionalities, m) && !start:
				name = "'" + m + "'"
			}
			if !whole && (IsIn(Keywords, m) || IsIn(Functionalities, m) || m == "true" || m == "false") {
				return undefined() // Keyword directly followed by subtraction.
			}
			if name == "identifier" && prev == "integer" && IsIn(Units, m) {
				l := &v.Toks[len(v.Toks)-1]
				l.Name, l.End = "time", pos+len(m)-1
				prev = "time"
			} else {
				add(name, pos, pos+len(m)-1)
			}
			pos += len(m)
			continue
		}
		if m := reOps.FindString(s); m != "" {
			name := "'" + m + "'"
			if (m == "," || m == ";") && prev == name {
				return fail(pos, pos)
			}
			if m == "!" {
				name = "!" // Does not depend on neighbours, quoted differently in diagnostics.
			}
			add(name, pos, pos+len(m)-1)
			pos += len(m)
			continue
		}
		return fail(pos, pos)
	}
	v.Toks = append(v.Toks, Lexeme{"end of file", pos, pos, line, pos - bol + 1})
	return v
}
