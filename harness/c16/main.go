// Check C16: locations in diagnostics.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// model of a case.
type model struct {
	what  string
	valid bool // Control case, without any error.
	any   bool // Any place is legal, diagnostic might have no location.
	src   sources
	marks []mark
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	v := func(sig, f string, a ...any) []lib.Viol {
		if os.Getenv("VX_FINE") != "" {
			sig += " " + strings.Split(m.what, ",")[0]
		}
		return []lib.Viol{{Sig: sig, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	if m.valid {
		if o.Kind != lib.OK {
			return v("control", "valid description: %s %s", o.Kind, o.Msg)
		}
		return nil
	}
	if o.Kind == lib.OK && m.any {
		return nil
	}
	if o.Kind == lib.Crash && m.any {
		return nil // Judged by C17.
	}
	if o.Kind != lib.Reject {
		return v("accepted", "%s %s", o.Kind, o.Msg)
	}
	ls, bad := locations(o.Msg)
	if bad != "" {
		return v("malformed", "%s\n%s", bad, o.Msg)
	}
	for _, l := range ls {
		if s := m.src.sane(l); s != "" {
			return v("insane", "%s\n%s", s, o.Msg)
		}
	}
	if m.any {
		return unexpectedName(m, o, ls)
	}
	for _, l := range ls {
		found := false
		for _, k := range m.marks {
			found = found || k.is(l)
		}
		if !found {
			return v("place", "%v is not the place of the error %v\n%s", l, m.marks, o.Msg)
		}
	}
	if len(ls) == 0 {
		return v("missing", "no location, expected %v\n%s", m.marks, o.Msg)
	}
	for _, k := range m.marks {
		if !k.required {
			continue
		}
		found := false
		for _, l := range ls {
			found = found || k.is(l)
		}
		if !found {
			return v("missing", "place %v is missing\n%s", k, o.Msg)
		}
	}
	return nil
}

// unexpectedName checks that syntax errors point at the token they name.
func unexpectedName(m *model, o *lib.Outcome, ls []location) []lib.Viol {
	s := strings.TrimPrefix(o.Msg, "error: ")
	if s == o.Msg || !strings.HasPrefix(s, "unexpected ") || len(ls) == 0 {
		return nil
	}
	l := ls[0]
	_, src, _ := m.src.find(l.file)
	v := lib.Lex(src)
	if v.Bad || v.Dontcare {
		return nil
	}
	for _, t := range v.Toks {
		k := at("", src+"\n", t.Start, t.End)
		if k.line != l.line || k.col != l.col {
			continue
		}
		if strings.HasPrefix(s, "unexpected "+t.Name+",") {
			if t.Name == "newline" || strings.HasPrefix(t.Name, "indent") || k.length == l.length {
				return nil
			}
		}
	}
	if strings.HasPrefix(s, "unexpected indent") {
		return nil
	}
	return []lib.Viol{{Sig: "token", Msg: m.what + ": the token is not at the place: " + o.Msg}}
}

func main() {
	lib.Main(&lib.Check{
		ID: "C16",
		Rule: "Over 500 classes of errors (tokens, syntax, properties, values, expressions, redefinitions, parameters, arguments, types, constants, imports), each placed in up to 15 ways (main bus, nested blocks, types before and after their use, " +
			"nested types, ancestor types, one line bodies, arrays, packages, second files, packages from $FBDPATH), preceded by 10 kinds of lines of the file (blank lines, comments, multi line strings, bodies, up to 1000 lines) and 7 kinds of lines of the body, " +
			"with lines within the body and with 5 kinds of ends of the file. Bytes legal nowhere at all positions, spaces at ends of all lines, wrong indentation of all lines, tokens legal nowhere at all places of 2 descriptions using the whole grammar with 10 prefixes. " +
			"All single edits of tokens (removal, truncation, doubling, replacement or insertion of 31 lexemes) of these descriptions for consistency of the quoted line, the underline and the named token",
		Assume:   []string{"Sources are ASCII", "Positions expected for classes are written by hand within marks in the templates"},
		CLIEvery: 97,
		Gen: func(g *lib.Gen) {
			classCases(g)
			crossCases(g)
			scaleCases(g)
			editCases(g)
		},
		Eval: eval,
	})
}
