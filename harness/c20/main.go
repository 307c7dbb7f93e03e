// Check C20: results are deterministic.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// model describes a case.
type model struct {
	what string
	fam  string
}

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	v := func(f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: m.fam, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	if c.Run != nil {
		if s, _ := o.Obs.(string); s != "" {
			sig, _, _ := strings.Cut(s, ",")
			sig, _, _ = strings.Cut(sig, ":")
			return []lib.Viol{{Sig: m.fam + ":" + sig, Msg: m.what + ": " + s}}
		}
		if o.Kind == lib.Crash || o.Kind == lib.Hang {
			return v("%s %s", o.Kind, o.Msg)
		}
		return nil
	}
	return nil
}

// fresh executes in a new process.
func fresh(kind string, args any) string {
	b, _ := json.Marshal(args)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "C20_FRESH="+kind, "C20_ARGS="+string(b))
	var so bytes.Buffer
	cmd.Stdout = &so
	if err := cmd.Run(); err != nil {
		return "process: " + err.Error()
	}
	return so.String()
}

type bothArgs struct {
	Desc int
	TS   bool
	Bus  string
}

// freshMain is executed in the new process.
func freshMain(kind string) {
	args := []byte(os.Getenv("C20_ARGS"))
	lib.InitAPI()
	switch kind {
	case "history":
		var is []int
		_ = json.Unmarshal(args, &is)
		all := allSteps()
		h := []step{}
		for _, i := range is {
			h = append(h, all[i])
		}
		fmt.Print(history(h).Obs)
	case "both":
		var a bothArgs
		_ = json.Unmarshal(args, &a)
		fmt.Print(compare(a).Obs)
	}
}

func main() {
	if k := os.Getenv("C20_FRESH"); k != "" {
		freshMain(k)
		return
	}
	lib.Main(&lib.Check{
		ID: "C20",
		Rule: "controlled scheduler: all interleavings at synchronization operations and all orders of iterations over maps with at most " +
			"given number of deviations, for descriptions with up to 5 packages; all sequences of compilations in one process up to a length; " +
			"all descriptions compiled by the program and by the Compile function",
		Assume: []string{
			"code between synchronization operations is executed atomically, what is justified by the absence of data races, checked by the race detector in explored schedules",
			"orders of iterations over maps with more than 4 keys: rotations, reversals and swaps of two adjacent keys",
			"log messages do not synchronize goroutines in a way the compiler relies on",
		},
		Gen: func(g *lib.Gen) {
			for _, f := range []func(*lib.Gen){schedules, orders, histories, both} {
				if f(g); g.Stopped() {
					return
				}
			}
		},
		Eval: eval,
	})
}

type job struct {
	Dir, Main, Bus string
	FBDPATH        string
	OK             bool
	JSON, CJSON    string
	Bound          int
	Part, Parts    int
	Max            int
	Seconds        int
}

type report struct {
	Executions int
	Points     int
	Choices    int
	MaxChoices int
	MaxThreads int
	Complete   bool
	Race       bool
	Viol       string
	Prefix     []int
}

func variant() string {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("VX_SCRATCH"), "variant"))
	return strings.TrimSpace(string(b))
}

var references = map[string]*lib.Outcome{}

// program returns what the real program does.
func program(d *desc) *lib.Outcome {
	if o, ok := references[d.name]; ok {
		return o
	}
	c := d.c
	c.Consts = true
	o := lib.RunCLI(os.Getenv("VX_CLI"), &c)
	references[d.name] = o
	return o
}

// explore executes all schedules of the compilation.
func explore(d *desc, race bool, bound, part, parts, seconds int) *lib.Outcome {
	ref := program(d)
	if ref.Kind != lib.OK && ref.Kind != lib.Reject {
		return &lib.Outcome{Kind: ref.Kind, Msg: ref.Msg}
	}
	cwd, _ := os.Getwd()
	dir, err := os.MkdirTemp(cwd, "s")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := d.c.Materialize(dir); err != nil {
		panic(err)
	}
	j := job{
		Dir: filepath.Join(dir, d.c.Sub), Main: "bus.fbd", Bus: "main", FBDPATH: strings.ReplaceAll(d.c.FBDPATH, "$S", dir),
		OK: ref.Kind == lib.OK, JSON: string(ref.JSON), CJSON: string(ref.CJSON), Bound: bound, Part: part, Parts: parts, Seconds: seconds,
	}
	b, _ := json.Marshal(j)
	bin := filepath.Join(os.Getenv("VX_SCRATCH"), "bin", "explore")
	if race {
		bin += "-race"
	}
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 halt_on_error=0 history_size=2", "GOMAXPROCS=2")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var r report
	if e := json.Unmarshal(so.Bytes(), &r); e != nil {
		return &lib.Outcome{Kind: lib.Crash, Msg: fmt.Sprintf("%v: %s", err, cut(se.String(), 3000))}
	}
	o := &lib.Outcome{Edges: int64(r.Points), Schedules: int64(r.Executions), Obs: ""}
	if r.Viol != "" {
		o.Obs = r.Viol + fmt.Sprintf(", choices %v\n", r.Prefix) + cut(se.String(), 3000)
	} else if !r.Complete {
		o.Incomplete = true
	}
	return o
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// schedules: interleavings of descriptions with packages.
func schedules(g *lib.Gen) {
	v := variant()
	if v == "none" || v == "" {
		g.Notes["schedules are not controlled"] = 1
		return
	}
	for _, race := range []bool{true, false} {
		if race && v != "race" {
			g.Notes["data races are not checked"] = 1
			continue
		}
		for di := range packaged {
			d := &packaged[di]
			bound := g.Pick(2-d.size, 3-(d.size+1)/2)
			if race {
				bound = g.Pick(1, 2) - (d.size+1)/2
			}
			if bound < 0 {
				bound = 0
			}
			parts := 8 + 16*min(d.size, 1)
			for p := range parts {
				if !g.Emit(func() *lib.Case {
					c := d.c
					c.Meta = &model{what: fmt.Sprintf("schedules of %q, race detector %v, at most %d deviations, part %d of %d", d.name, race, bound, p+1, parts), fam: "schedule"}
					c.Run = func() *lib.Outcome { return explore(d, race, bound, p, parts, g.Pick(40, 75)) }
					return &c
				}) {
					return
				}
			}
		}
	}
}

// orders: orders of iterations over maps of descriptions in one file.
func orders(g *lib.Gen) {
	if v := variant(); v == "none" || v == "" {
		return
	}
	for di := range single {
		d := &single[di]
		if !g.Emit(func() *lib.Case {
			c := d.c
			bound := g.Pick(2, 3)
			c.Meta = &model{what: fmt.Sprintf("orders of %q, at most %d deviations", d.name, bound), fam: "order"}
			c.Run = func() *lib.Outcome { return explore(d, false, bound, 0, 1, g.Pick(40, 80)) }
			return &c
		}) {
			return
		}
	}
}

// both: the program and the function give the same results.
func both(g *lib.Gen) {
	if !lib.HasAPI {
		return
	}
	all := allDescs()
	for di := range all {
		d := &all[di]
		for _, ts := range []bool{false, true} {
			for _, bus := range []string{"main", "other", "none", "c"} {
				if !g.Emit(func() *lib.Case {
					c := d.c
					c.TS, c.Bus, c.Consts = ts, bus, true
					c.Meta = &model{what: fmt.Sprintf("%q, timestamp %v, bus %q, the function and the program", d.name, ts, bus), fam: "both"}
					args := bothArgs{di, ts, bus}
					c.Run = func() *lib.Outcome {
						o := compare(args)
						if o.Obs != "" {
							o.Obs = fresh("both", args)
						}
						return o
					}
					return &c
				}) {
					return
				}
			}
		}
	}
}

func allDescs() []desc { return append(append([]desc{}, packaged...), single...) }

func compare(args bothArgs) *lib.Outcome {
	c := allDescs()[args.Desc].c
	c.TS, c.Bus, c.Consts = args.TS, args.Bus, true
	dir, _ := os.Getwd()
	a := lib.RunAPI(&c, dir)
	for range 3 {
		b := lib.RunCLI(os.Getenv("VX_CLI"), &c)
		if s := same(b, a); s != "" {
			return &lib.Outcome{Obs: s}
		}
	}
	return &lib.Outcome{Kind: a.Kind, Msg: a.Msg, Obs: "", CLI: true}
}

// same compares two outcomes of the same description.
func same(want, got *lib.Outcome) string {
	if want.Kind != got.Kind {
		return fmt.Sprintf("result %s instead of %s: %s %s", got.Kind, want.Kind, got.Msg, want.Msg)
	}
	if want.Kind != lib.OK {
		return ""
	}
	a, b := noTS(want), noTS(got)
	if !bytes.Equal(a, b) {
		return "output differs" + diff(a, b)
	}
	if !bytes.Equal(want.CJSON, got.CJSON) {
		return "constants differ" + diff(want.CJSON, got.CJSON)
	}
	return ""
}

// noTS returns the output without the value of the timestamp.
func noTS(o *lib.Outcome) []byte {
	if o.Bus != nil {
		for _, s := range o.Bus.Statics {
			if s.Name == "TIMESTAMP" {
				return bytes.Replace(o.JSON, []byte(fmt.Sprintf("%q", s.InitValue)), []byte("TS"), 1)
			}
		}
	}
	return o.JSON
}

func diff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range la {
		if i >= len(lb) {
			return ", second is shorter"
		}
		if la[i] != lb[i] {
			return fmt.Sprintf(", line %d: %s instead of %s", i+1, strings.TrimSpace(lb[i]), strings.TrimSpace(la[i]))
		}
	}
	return ", second is longer"
}

// step is a compilation within a history.
type step struct {
	d   *desc
	ts  bool
	bus string
}

func (s step) String() string {
	return fmt.Sprintf("%s (timestamp %v, bus %s)", s.d.name, s.ts, s.bus)
}

// allSteps returns steps of histories.
func allSteps() []step {
	// Only these steps which do not end the process.
	steps := []step{}
	rejected := map[string]bool{
		"circular constants": true, "error in a package": true, "errors in two packages": true, "error in an unused constant": true, "redefinition in files": true, "same type in files": true,
		"packages with the same name": true, "ambiguous import": true, "ambiguous import of similar names": true, "ambiguous import of deeper directories": true, "missing import": true, "bus in a package": true, "instantiation in a package": true, "repeated import": true,
		"recursive types": true, "derived from itself": true, "invalid property": true, "syntax": true, "no bus": true,
	}
	for _, l := range [][]desc{single, packaged} {
		for i := range l {
			d := &l[i]
			if rejected[d.name] {
				continue
			}
			steps = append(steps, step{d, false, "main"})
		}
	}
	for i := range single {
		switch d := &single[i]; d.name {
		case "narrow", "wide", "everything":
			steps = append(steps, step{d, true, "main"})
		case "minimal", "no bus":
			steps = append(steps, step{d, false, "none"})
		case "two buses":
			steps = append(steps, step{d, false, "other"})
		}
	}
	return steps
}

// histories: compilations done by one process, one after another.
func histories(g *lib.Gen) {
	if !lib.HasAPI {
		return
	}
	steps := allSteps()
	g.Notes["kinds of steps of histories"] = int64(len(steps))
	n := g.Pick(3, 4)
	var rec func(h []int) bool
	rec = func(h []int) bool {
		if len(h) > 1 {
			is := append([]int{}, h...)
			hist := []step{}
			for _, i := range is {
				hist = append(hist, steps[i])
			}
			if !g.Emit(func() *lib.Case {
				c := &lib.Case{Edges: 1, Meta: &model{what: fmt.Sprintf("history %v", hist), fam: "history"}}
				c.Run = func() *lib.Outcome {
					o := history(hist)
					if o.Obs != "" {
						// Compilations of previous cases might be the reason.
						o.Obs = fresh("history", is)
					}
					return o
				}
				return c
			}) {
				return false
			}
		}
		if len(h) == n {
			return true
		}
		for i := range steps {
			if len(h) == 3 && i%3 != 0 {
				continue
			}
			if !rec(append(h[:len(h):len(h)], i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

var stepRefs = map[string]*lib.Outcome{}

func history(h []step) *lib.Outcome {
	dir, _ := os.Getwd()
	var outs []*lib.Outcome
	for i, s := range h {
		c := s.d.c
		c.TS, c.Bus, c.Consts = s.ts, s.bus, true
		ref, ok := stepRefs[s.String()]
		if !ok {
			ref = lib.RunCLI(os.Getenv("VX_CLI"), &c)
			stepRefs[s.String()] = ref
		}
		o := lib.RunAPI(&c, dir)
		outs = append(outs, o)
		if d := same(ref, o); d != "" {
			return &lib.Outcome{Obs: fmt.Sprintf("%s, compilation number %d", d, i+1)}
		}
	}
	// Results of previous compilations do not change.
	for i, o := range outs {
		if o.Kind != lib.OK {
			continue
		}
		b, err := json.MarshalIndent(o.Obs, "", "  ")
		if err != nil || !bytes.Equal(b, o.JSON) {
			return &lib.Outcome{Obs: fmt.Sprintf("result changed%s, compilation number %d", diff(o.JSON, b), i+1)}
		}
	}
	return &lib.Outcome{Obs: "", Edges: int64(len(h))}
}
