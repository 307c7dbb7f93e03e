package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

const good = "import \"lib\"\nconst A = lib.B + 1\nmain bus\n  c config; width = A\nbus2 bus\n  width = 16\n  s [2]status; width = 3\n  b block\n    c config\n"

var files = map[string]string{
	"bad.fbd":         "main bus\n  c config; widht = 3\n",
	"fbd-lib/lib.fbd": "const B = 3\nconst L = [1, 2]\nconst S = \"a\"\n",
	"other.txt":       "bus2 bus\n  width = 8\n  c config; width = 20\nmain bus\n  m mask; width = 3\n",
}

// command makes a case of a command.
func command(what string, args []string, srcs map[string]string, sub string) *lib.Case {
	a := parse(args)
	c := &lib.Case{Args: args, CLIOnly: true, Files: map[string]string{}, Sub: sub, Src: srcs["bus.fbd"]}
	for p, s := range srcs {
		if p != "bus.fbd" {
			c.Files[p] = s
		}
	}
	m := &model{what: what, act: a}
	if a.kind == compile {
		r := *c
		r.Args, r.CLIOnly = nil, false
		r.Main, r.Bus, r.TS = a.file, a.bus, a.ts
		// Main is written to the file: it has to be the one from the set.
		p := filepath.Join(sub, a.file)
		if filepath.IsAbs(a.file) || strings.HasPrefix(a.file, "$S") {
			p = ""
		}
		if s, ok := srcs[p]; ok && p != "" {
			r.Src = s
			delete2(&r, p)
			if p != "bus.fbd" {
				r.Files["bus.fbd"] = srcs["bus.fbd"]
			}
		} else {
			m.act.kind = failure
			m.act.said = a.file
			m.ref = nil
			c.Meta = m
			return c
		}
		m.ref = &r
	}
	c.Meta = m
	return c
}

func delete2(c *lib.Case, p string) {
	n := map[string]string{}
	for k, v := range c.Files {
		if k != p {
			n[k] = v
		}
	}
	c.Files = n
}

func srcs() map[string]string {
	m := map[string]string{"bus.fbd": good}
	for p, s := range files {
		m[p] = s
	}
	return m
}

func sequences(g *lib.Gen) {
	toks := []string{"-help", "-version", "-debug", "-add-timestamp", "-main", "-c", "-r", "bus2", "none", "out.json", "bus.fbd", "bad.fbd", "-bad", "--debug", "other.txt"}
	all := srcs()
	n := g.Pick(4, 5)
	for d := 0; d <= n; d++ {
		ts := toks
		if d == 4 {
			ts = []string{"-help", "-debug", "-add-timestamp", "-main", "-c", "-r", "bus2", "out.json", "bus.fbd", "-bad"}
		}
		if d == 5 {
			ts = []string{"-version", "-debug", "-add-timestamp", "-main", "-c", "bus2", "out.json", "bus.fbd"}
		}
		var rec func(a []string) bool
		rec = func(a []string) bool {
			if len(a) == d {
				args := append([]string{}, a...)
				return g.Emit(func() *lib.Case {
					return command("arguments:", args, all, "")
				})
			}
			for _, t := range ts {
				if !rec(append(a[:len(a):len(a)], t)) {
					return false
				}
			}
			return true
		}
		if !rec([]string{}) {
			return
		}
	}
	// Longer ones, with the main file at the end.
	items := [][]string{{"-debug"}, {"-add-timestamp"}, {"-main", "bus2"}, {"-c"}, {"-c", "out.json"}, {"-r"}, {"-r", "reg.json"}, {"-main", "main"}, {"-main", "-c"}, {"-help"}, {"-version"}, {"-main", "-debug"}}
	n = g.Pick(4, 5)
	for d := 1; d <= n; d++ {
		var rec func(a []string, k int) bool
		rec = func(a []string, k int) bool {
			if k == 0 {
				args := append(a[:len(a):len(a)], "bus.fbd")
				return g.Emit(func() *lib.Case { return command("items:", args, all, "") })
			}
			for i, t := range items {
				if d >= 4 && i >= g.Pick(7, 9) {
					break
				}
				if !rec(append(a[:len(a):len(a)], t...), k-1) {
					return false
				}
			}
			return true
		}
		if !rec([]string{}, d) {
			return
		}
	}
}

var options = [][]string{{}, {"-debug"}, {"-add-timestamp"}, {"-c"}, {"-c", "out.json"}, {"-debug", "-c"}, {"-add-timestamp", "-c", "out.json"}, {"-r"}, {"-debug", "-add-timestamp"}, {"-main", "main", "-c"}, {"-main", "other"}, {"-main", "other", "-c", "-debug"}}

var described = []string{
	"main bus\n",
	"main bus\n  c config\n",
	"main bus\n  width = 8\n  c config; width = 100\n  s [7]status; width = 3\n",
	"const A = 1\nconst B = \"b\"\nconst C = [1, 2]\nconst D = 1.5\nconst E = true\nmain bus\n  const F = A\n",
	"other bus\n  c config\nmain bus\n  i irq; add-enable = true\n",
	"main bus\n  # Doc <&> \"quoted\" \\ %d %s 100%\n  c config\n",
	"const A = \"%d <&> %s\"\nmain bus\n  b block\n    p proc\n      a param\n      b return\n",
	// Illegal ones.
	"", "\n", "# Comment.\n", "main bu\n", "main bus\n  c confi\n", "main bus\n c config\n", "main bus\n\tc config\n", "main bus\n  c config; width = -1\n",
	"main bus\n  c config; width = A\n", "main bus\n  c config\n  c config\n", "import \"none\"\nmain bus\n", "other bus\n", "main config\n", "main bus\n  ID config\n",
	"main bus\n  TIMESTAMP config\n", "const A = 1 / 0\nmain bus\n  c config\n", "const A = A\nmain bus\n", "type T T\nmain T\n", "main bus\n  c config; init-value = 5; width = 2\n",
	"main bus\n  b blackbox\n", "main bus\n  s static\n", "const A = \"%d\nmain bus\n", "main bus\n  %d config\n", "main bus\n  p proc\n    c config\n", "main bus; width = \"%s%n\"\n",
}

func descriptions(g *lib.Gen) {
	for _, d := range described {
		for _, o := range options {
			if !g.Emit(func() *lib.Case {
				return command("description:", append(o[:len(o):len(o)], "bus.fbd"), map[string]string{"bus.fbd": d}, "")
			}) {
				return
			}
		}
	}
}

// paths: forms of the path to the main file and to the file with constants.
func paths(g *lib.Gen) {
	type form struct{ file, sub, path string }
	src := "const A = 3\nmain bus\n  c config; width = A\n"
	for _, f := range []form{
		{"bus.fbd", "", "bus.fbd"}, {"bus.fbd", "", "./bus.fbd"}, {"bus.fbd", "", "$S/bus.fbd"}, {"d/bus.fbd", "", "d/bus.fbd"}, {"d/bus.fbd", "", "./d/../d/bus.fbd"},
		{"bus.fbd", "d", "../bus.fbd"}, {"d/e/bus.fbd", "d/f", "../e/bus.fbd"}, {"bus", "", "bus"}, {"bus.txt", "", "bus.txt"}, {"b u s.fbd", "", "b u s.fbd"},
		{"fbd-x.fbd", "", "fbd-x.fbd"}, {"main.fbd", "", "main.fbd"}, {"main", "", "main"}, {"bus2", "", "bus2"}, {"żółw.fbd", "", "żółw.fbd"}, {"bus.fbd", "", "$S//bus.fbd"}, {"d/fbd-main/bus.fbd", "", "d/fbd-main/bus.fbd"},
		{"fbd-main/bus.fbd", "", "fbd-main/bus.fbd"}, {"=.fbd", "", "=.fbd"}, {"%d.fbd", "", "%d.fbd"},
	} {
		for _, dump := range []string{"", "-", "out.json", "./out.json", "d/out.json", "../out.json", "$S/abs.json", "old.json", "const.json", "a b.json", "%s.json", "bus.fbd.json"} {
			for _, ts := range []bool{false, true} {
				if !g.Emit(func() *lib.Case {
					args := []string{}
					switch dump {
					case "":
					case "-":
						args = append(args, "-c")
					default:
						args = append(args, "-c", dump)
					}
					if ts {
						args = append(args, "-add-timestamp")
					}
					args = append(args, f.path)
					fs := map[string]string{f.file: src, filepath.Join(f.sub, "old.json"): strings.Repeat("old\n", 2000)}
					c := &lib.Case{Args: args, CLIOnly: true, Files: fs, Sub: f.sub, Dirs: []string{filepath.Join(f.sub, "d")}}
					m := &model{what: "path:", act: parse(args)}
					if dump == "../out.json" && f.sub == "" {
						// It would be outside of the scratch directory.
						c.Sub, m.act = "", action{}
						args[1] = "d/../out.json"
						m.act = parse(args)
					}
					r := lib.Case{Src: src, TS: ts}
					if strings.Contains(f.file, "fbd-main") {
						r.Src = src
					}
					m.ref = &r
					c.Meta = m
					return c
				}) {
					return
				}
			}
		}
	}
	// Long names.
	for _, n := range lib.Lengths(g.Pick(20, 130), 250) {
		x := strings.Repeat("n", n)
		for k, args := range [][]string{{x}, {"-main", x, "bus.fbd"}, {"-c", x, "bus.fbd"}, {"-r", x, "bus.fbd"}, {"-" + x, "bus.fbd"}, {"-main", x + "x", "bus.fbd"}, {"-debug", "-c", x + "/" + x, "-main", x, x + "/../bus.fbd"}, {x + "/bus.fbd"}} {
			if n > 240 && k == 6 {
				continue
			}
			fs := map[string]string{"bus.fbd": "const A = 3\n" + x + " bus\n  c config; width = A\nmain bus\n  d config\n"}
			switch k {
			case 0:
				fs[x] = "main bus\n  e config\n"
			case 6:
				fs[x+"/x"] = ""
			case 7:
				fs[x+"/bus.fbd"] = "main bus\n  f config\n"
			}
			if !g.Emit(func() *lib.Case { return command("long name:", args, fs, "") }) {
				return
			}
		}
	}
	// Paths which cannot be read or written.
	for _, args := range [][]string{
		{"none.fbd"}, {"."}, {"d"}, {"d/none.fbd"}, {""}, {"bus.fbd/x"}, {"-main", "main", "none.fbd"}, {"-c", "none.fbd"}, {"-c", "out.json", "none.fbd"}, {"-debug", "none.fbd"},
		{"-c", "d", "bus.fbd"}, {"-c", "none/out.json", "bus.fbd"}, {"-c", "bus.fbd/x", "bus.fbd"}, {"-c", "/dev/full", "bus.fbd"}, {"-c", ".", "bus.fbd"}, {"-main", "", "-main", "none", "bus.fbd"},
		{"-main", "A", "bus.fbd"}, {"-main", "Main", "bus.fbd"}, {"-main", "main.c", "bus.fbd"}, {"-main", "main ", "bus.fbd"},
		{"-debug=true", "bus.fbd"}, {"-d", "bus.fbd"}, {"debug", "bus.fbd"}, {"-main=main", "bus.fbd"}, {"-", "bus.fbd"}, {"--", "bus.fbd"}, {"bus.fbd", "bus.fbd"}, {"-h", "bus.fbd"}, {"-HELP", "bus.fbd"}, {"-C", "bus.fbd"},
		{"-debug", "-debug", "-x", "bus.fbd"}, {"-c", "a", "b", "bus.fbd"}, {"-main", "main", "x", "bus.fbd"}, {"-r", "a", "b", "bus.fbd"}, {"-add-timestamp", "x", "bus.fbd"},
	} {
		if !g.Emit(func() *lib.Case {
			return &lib.Case{Args: args, CLIOnly: true, Src: src, Dirs: []string{"d"}, Meta: &model{what: "failure:", act: action{kind: failure}}}
		}) {
			return
		}
	}
}

// writing: stdout is a file, or a device which is full or closed.
func writing(g *lib.Gen) {
	src := "const A = 3\nmain bus\n  c config; width = A\n"
	for n, body := range []string{src, src + strings.Repeat("  s@ status\n", 40), src + strings.Repeat("  s@ status\n", 2000)} {
		parts := strings.Split(body, "@")
		body = parts[0]
		for i, p := range parts[1:] {
			body += fmt.Sprint(i) + p
		}
		for _, opts := range [][]string{{}, {"-add-timestamp"}, {"-debug"}, {"-c", "out.json"}} {
			for _, where := range []string{"full", "closed", "file", "existing file", "pipe closed"} {
				if !g.Emit(func() *lib.Case {
					c := &lib.Case{Src: body, Meta: &model{what: fmt.Sprintf("writing: stdout %s, options %v, size %d", where, opts, n)}}
					base := *c
					c.Run = func() *lib.Outcome {
						wd, _ := os.Getwd()
						dir, err := os.MkdirTemp(wd, "w")
						if err != nil {
							panic(err)
						}
						defer os.RemoveAll(dir)
						if err := base.Materialize(dir); err != nil {
							panic(err)
						}
						var f *os.File
						switch where {
						case "full":
							f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
						case "closed":
							// The descriptor cannot be written.
							f, err = os.Open("/dev/null")
						case "file":
							f, err = os.Create(filepath.Join(dir, "stdout"))
						case "existing file":
							_ = os.WriteFile(filepath.Join(dir, "stdout"), []byte("before\n"), 0o644)
							f, err = os.OpenFile(filepath.Join(dir, "stdout"), os.O_WRONLY|os.O_APPEND, 0)
						case "pipe closed":
							var r *os.File
							r, f, err = os.Pipe()
							r.Close()
						}
						if err != nil {
							panic(err)
						}
						code, se := run(&base, append(opts[:len(opts):len(opts)], "bus.fbd"), f, dir)
						f.Close()
						o := &lib.Outcome{CLI: true}
						bad := where == "full" || where == "closed" || where == "pipe closed"
						if bad {
							if code == 0 {
								o.Obs = "the result is not written, but the status is 0"
							} else if where != "pipe closed" && strings.TrimSpace(se) == "" {
								o.Obs = "the result is not written, there is no diagnostic"
							}
							return o
						}
						b, _ := os.ReadFile(filepath.Join(dir, "stdout"))
						s := string(b)
						if where == "existing file" {
							if !strings.HasPrefix(s, "before\n") {
								o.Obs = "the file is truncated"
								return o
							}
							s = strings.TrimPrefix(s, "before\n")
						}
						ts := len(opts) > 0 && opts[0] == "-add-timestamp"
						r := base
						r.TS = ts
						ref := reference(&r)
						if code != 0 {
							o.Obs = fmt.Sprintf("status %d: %s", code, se)
							return o
						}
						x, err := noTS([]byte(s), ts)
						if err != nil {
							o.Obs = err.Error()
							return o
						}
						y, _ := noTS([]byte(ref.Stdout), ts)
						if string(x) != string(y) {
							o.Obs = "stdout differs" + diff(string(y), string(x))
						}
						return o
					}
					return c
				}) {
					return
				}
			}
		}
	}
}
