// Check C22: the command line contract.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type kind int

const (
	compile kind = iota
	help
	version
	failure
)

// action is what the program is expected to do.
type action struct {
	kind  kind
	bus   string
	ts    bool
	debug bool
	dump  string // File with constants, empty if they are not requested.
	file  string
	said  string // Text which has to be in the diagnostic.
}

type model struct {
	what string
	act  action
	base *lib.Case // Files.
	ref  *lib.Case // The same compilation called in the simplest way.
}

func (m *model) String() string { return m.what }

// parse is the reference parser of arguments.
func parse(args []string) action {
	a := action{bus: "main"}
	flag := func(s string) bool { return s == "-help" || s == "-version" || s == "-debug" || s == "-add-timestamp" }
	param := func(s string) bool { return s == "-main" || s == "-c" || s == "-r" }
	if len(args) == 0 {
		return action{kind: failure, said: "missing path to main file"}
	}
	n := len(args) - 1
	for i := 0; i < n; i++ {
		switch s := args[i]; {
		case s == "-help":
			return action{kind: help}
		case s == "-version":
			return action{kind: version}
		case s == "-debug":
			a.debug = true
		case s == "-add-timestamp":
			a.ts = true
		case s == "-main":
			if i+1 == n {
				if args[n] == "-help" {
					return action{kind: help}
				}
				if args[n] == "-version" {
					return action{kind: version}
				}
				return action{kind: failure, said: "missing path to main file"}
			}
			i++
			a.bus = args[i]
		case s == "-c", s == "-r":
			v := ""
			if i+1 < n && !flag(args[i+1]) && !param(args[i+1]) {
				i++
				v = args[i]
			}
			if s == "-c" {
				if v == "" {
					v = "const.json"
				}
				a.dump = v
			}
		default:
			return action{kind: failure, said: s}
		}
	}
	switch args[n] {
	case "-help":
		return action{kind: help}
	case "-version":
		return action{kind: version}
	}
	a.file = args[n]
	return a
}

var flags = []string{"-help", "-version", "-debug", "-add-timestamp", "-main", "-c"}

// judge compares an execution with the expected action, args are only for messages.
func judge(m *model, c *lib.Case, o *lib.Outcome, ref *lib.Outcome) string {
	a := m.act
	left := []string{}
	for f := range o.Left {
		left = append(left, f)
	}
	sort.Strings(left)
	if o.Kind == lib.Hang {
		return "no answer"
	}
	if o.Kind == lib.Crash {
		return fmt.Sprintf("status %d: %s", o.Code, o.Msg)
	}
	want := lib.Reject
	switch {
	case a.kind == help, a.kind == version:
		want = lib.OK
	case a.kind == compile:
		want = ref.Kind
	}
	if want == lib.Reject {
		switch {
		case o.Code == 0:
			return "status 0, failure is expected"
		case o.Stdout != "":
			return fmt.Sprintf("failure, but stdout is %q", o.Stdout)
		case strings.TrimSpace(o.Stderr) == "":
			return "failure without a diagnostic"
		case len(left) > 0:
			return fmt.Sprintf("failure, but files %v are left", left)
		}
		if a.kind == failure {
			if a.said != "" && !strings.Contains(o.Stderr, a.said) {
				return fmt.Sprintf("diagnostic %q does not contain %q", o.Stderr, a.said)
			}
			return ""
		}
		if !a.debug && o.Stderr != ref.Stderr {
			return fmt.Sprintf("diagnostic is %q, not %q", o.Stderr, ref.Stderr)
		}
		if a.debug && !strings.HasSuffix(o.Stderr, ref.Stderr) {
			return fmt.Sprintf("the end of the diagnostic is not %q: %q", ref.Stderr, o.Stderr)
		}
		return ""
	}
	if o.Code != 0 {
		return fmt.Sprintf("status %d: %s", o.Code, o.Msg)
	}
	switch a.kind {
	case help:
		for _, f := range flags {
			if !strings.Contains(o.Stdout, f) {
				return f + " is not in the help message"
			}
		}
	case version:
		if s := strings.TrimSpace(o.Stdout); s == "" || strings.ContainsAny(s, "\n ") {
			return fmt.Sprintf("version is %q", o.Stdout)
		}
	}
	if a.kind != compile {
		if o.Stderr != "" || len(left) > 0 {
			return fmt.Sprintf("stderr %q, files %v", o.Stderr, left)
		}
		return ""
	}
	if !a.debug && o.Stderr != "" {
		return fmt.Sprintf("success, but stderr is %q", o.Stderr)
	}
	if a.debug && !strings.Contains(o.Stderr, "debug") {
		return "there are no debug messages"
	}
	x, err1 := noTS([]byte(o.Stdout), a.ts)
	y, err2 := noTS([]byte(ref.Stdout), a.ts)
	if err1 != nil {
		return "stdout: " + err1.Error()
	}
	if err2 != nil {
		return "reference: " + err2.Error()
	}
	if !bytes.Equal(x, y) {
		return "stdout differs from the one of the simplest command" + diff(string(y), string(x))
	}
	if a.dump == "" {
		if len(left) > 0 {
			return fmt.Sprintf("files %v are written", left)
		}
		return ""
	}
	d := filepath.Clean(filepath.Join(c.Sub, strings.TrimPrefix(a.dump, "$S/")))
	if strings.HasPrefix(a.dump, "$S/") {
		d = filepath.Clean(strings.TrimPrefix(a.dump, "$S/"))
	}
	if len(left) != 1 || left[0] != d {
		return fmt.Sprintf("files %v are written, not %s", left, d)
	}
	if o.Left[d] != string(ref.CJSON) {
		return "constants differ" + diff(string(ref.CJSON), o.Left[d])
	}
	return ""
}

// noTS checks that there is a single document and drops the value of the timestamp.
func noTS(b []byte, ts bool) ([]byte, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	var bus lib.Block
	if err := d.Decode(&bus); err != nil {
		return nil, err
	}
	if s := strings.TrimSpace(string(b[d.InputOffset():])); s != "" {
		return nil, fmt.Errorf("there is %q after the document", s)
	}
	found := false
	for _, s := range bus.Statics {
		if s.Name == "TIMESTAMP" {
			b = bytes.Replace(b, []byte(fmt.Sprintf("%q", "x\""+s.InitValue)), []byte("TS"), 1)
			v, _ := json.Marshal(s.InitValue)
			b = bytes.Replace(b, v, []byte("TS"), 1)
			found = true
		}
	}
	if found != ts {
		return nil, fmt.Errorf("timestamp: %v, expected: %v", found, ts)
	}
	return b, nil
}

func diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return ", it is shorter"
		}
		if la[i] != lb[i] {
			return fmt.Sprintf(", line %d: %s instead of %s", i+1, strings.TrimSpace(lb[i]), strings.TrimSpace(la[i]))
		}
	}
	return ", it is longer"
}

var refs = map[string]*lib.Outcome{}

// reference calls the compiler in the simplest way, constants are dumped by a separate call.
func reference(c *lib.Case) *lib.Outcome {
	key := fmt.Sprint(c.Src, c.Files, c.Main, c.Sub, c.Bus, c.TS, c.FBDPATH)
	if r, ok := refs[key]; ok {
		return r
	}
	x, y := *c, *c
	x.Consts, y.Consts = false, true
	r := lib.RunCLI(os.Getenv("VX_CLI"), &x)
	r2 := lib.RunCLI(os.Getenv("VX_CLI"), &y)
	r.CJSON = r2.CJSON
	if lib.HasAPI && r.Kind == lib.OK && os.Getenv("VX_MODE") == "worker" {
		// The simplest command and the function give the same results.
		y.Consts = true
		dir, _ := os.Getwd()
		a := lib.RunAPI(&y, dir)
		if a.Kind == lib.OK {
			r.Stdout, r.CJSON = string(a.JSON), a.CJSON
		}
	}
	if len(refs) > 5000 {
		refs = map[string]*lib.Outcome{}
	}
	refs[key] = r
	return r
}

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	fam, _, _ := strings.Cut(m.what, ":")
	s := ""
	if c.Run != nil {
		s, _ = o.Obs.(string)
		if o.Kind != lib.OK {
			s = o.Kind.String() + " " + o.Msg
		}
	} else {
		var ref *lib.Outcome
		if m.ref != nil {
			ref = reference(m.ref)
		}
		s = judge(m, c, o, ref)
	}
	if s == "" {
		return nil
	}
	sig, _, _ := strings.Cut(s, ":")
	if len(sig) > 40 {
		sig = sig[:40]
	}
	return []lib.Viol{{Sig: fam + ":" + sig, Msg: fmt.Sprintf("%s: fbdl %q: %s", m.what, c.Args, s)}}
}

// run executes the program with given stdout.
func run(c *lib.Case, args []string, stdout *os.File, dir string) (int, string) {
	cmd := exec.Command(os.Getenv("VX_CLI"), args...)
	cmd.Dir = filepath.Join(dir, c.Sub)
	cmd.Stdout = stdout
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	_ = cmd.Run()
	return cmd.ProcessState.ExitCode(), se.String()
}

func main() {
	lib.Main(&lib.Check{
		ID: "C22",
		Rule: "all sequences of command line arguments up to a length over all flags, parameters, values and files; legal and illegal descriptions with all sets of flags; " +
			"forms of the path to the main file and the constants file with existing files, failures of writing; long names",
		Assume: []string{"the reference is the result of the Compile function, or of the simplest command if the former is not available"},
		Gen: func(g *lib.Gen) {
			for _, f := range []func(*lib.Gen){descriptions, paths, writing, sequences} {
				if f(g); g.Stopped() {
					return
				}
			}
		},
		Eval: eval,
	})
}
