package lib

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// CLITimeout is generous on purpose: it only exists to detect executions which never end.
const CLITimeout = 60 * time.Second

func (c *Case) main() string {
	if c.Main == "" {
		return "bus.fbd"
	}
	return c.Main
}

func (c *Case) bus() string {
	if c.Bus == "" {
		return "main"
	}
	return c.Bus
}

// Extra reports if the case needs anything more than a single file.
func (c *Case) extra() bool {
	return len(c.Files) > 0 || len(c.Dirs) > 0 || len(c.Links) > 0 || c.Sub != "" || c.Main != ""
}

// Materialize writes files of the case to the directory dir.
func (c *Case) Materialize(dir string) error {
	for _, d := range c.Dirs {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			return err
		}
	}
	write := func(p, s string) error {
		p = filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		return os.WriteFile(p, []byte(s), 0o644)
	}
	for p, s := range c.Files {
		if err := write(p, s); err != nil {
			return err
		}
	}
	if c.Sub != "" {
		if err := os.MkdirAll(filepath.Join(dir, c.Sub), 0o755); err != nil {
			return err
		}
	}
	if c.Src != "" || len(c.Files) == 0 {
		if err := write(filepath.Join(c.Sub, c.main()), c.Src); err != nil {
			return err
		}
	}
	for p, t := range c.Links {
		p = filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.Symlink(strings.ReplaceAll(t, "$S", dir), p); err != nil {
			return err
		}
	}
	return nil
}

// CLIArgs returns command line arguments for the case.
func (c *Case) CLIArgs() []string {
	if c.Args != nil {
		return c.Args
	}
	a := []string{}
	if c.TS {
		a = append(a, "-add-timestamp")
	}
	if c.Bus != "" {
		a = append(a, "-main", c.Bus)
	}
	if c.Consts {
		a = append(a, "-c", "const.json")
	}
	return append(a, c.main())
}

func cliEnv(c *Case, dir string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "FBDPATH=") && !strings.HasPrefix(e, "VX_") {
			env = append(env, e)
		}
	}
	if c.FBDPATH != "" {
		env = append(env, "FBDPATH="+strings.ReplaceAll(c.FBDPATH, "$S", dir))
	}
	return append(env, "GOTRACEBACK=single")
}

func trunc(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n]) + "..."
	}
	return string(b)
}

type capBuf struct {
	b   bytes.Buffer
	cap int
}

func (c *capBuf) Write(p []byte) (int, error) {
	if r := c.cap - c.b.Len(); r > 0 {
		if len(p) > r {
			c.b.Write(p[:r])
		} else {
			c.b.Write(p)
		}
	}
	return len(p), nil
}

func listFiles(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// RunCLI executes the case with the real program in a fresh directory.
func RunCLI(bin string, c *Case) *Outcome {
	dir, err := os.MkdirTemp(scratchRoot(), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := c.Materialize(dir); err != nil {
		panic(err)
	}
	before := listFiles(dir)
	ctx, cancel := context.WithTimeout(context.Background(), CLITimeout)
	defer cancel()
	args := []string{}
	for _, a := range c.CLIArgs() {
		args = append(args, strings.ReplaceAll(a, "$S", dir))
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = filepath.Join(dir, c.Sub)
	cmd.Env = cliEnv(c, dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	so, se := &capBuf{cap: 1 << 24}, &capBuf{cap: 1 << 16}
	cmd.Stdout, cmd.Stderr = so, se
	err = cmd.Run()
	o := &Outcome{CLI: true, Stdout: so.b.String(), Stderr: se.b.String(), Left: map[string]string{}}
	if ctx.Err() != nil {
		o.Kind = Hang
		o.Msg = "no answer"
		return o
	}
	if cmd.ProcessState == nil {
		panic(fmt.Sprintf("cannot run %s: %v", bin, err))
	}
	o.Code = cmd.ProcessState.ExitCode()
	for p, s := range listFiles(dir) {
		if b, ok := before[p]; !ok || b != s {
			o.Left[p] = s
		}
	}
	switch o.Code {
	case 0:
		o.Kind = OK
		o.JSON = so.b.Bytes()
		if c.Args == nil {
			if cj, ok := o.Left[filepath.Join(c.Sub, "const.json")]; ok {
				o.CJSON = []byte(cj)
			}
			o.parse()
		}
	case 1:
		o.Kind = Reject
		o.Msg = strings.TrimSuffix(o.Stderr, "\n")
	default:
		o.Kind = Crash
		o.Msg = trunc(se.b.Bytes(), 2000)
	}
	return o
}

func (o *Outcome) parse() {
	if len(o.JSON) > 0 && o.Bus == nil {
		b := &Block{}
		if err := json.Unmarshal(o.JSON, b); err != nil {
			o.Kind = Crash
			o.Msg = "output is not a valid JSON document: " + err.Error()
			return
		}
		o.Bus = b
	}
	if len(o.CJSON) > 0 && o.Pkgs == nil {
		if err := json.Unmarshal(o.CJSON, &o.Pkgs); err != nil {
			o.Kind = Crash
			o.Msg = "dumped constants are not a valid JSON document: " + err.Error()
		}
	}
}

func scratchRoot() string {
	if s := os.Getenv("VX_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}
