//go:build !cliengine

package lib

import (
	"encoding/json"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
)

// HasAPI tells that cases are executed in process.
const HasAPI = true

var apiMu sync.Mutex
var apiFatal string
var apiHasFatal bool

// fatalWriter turns the exit of the process done by log.Fatal into the end of the goroutine.
type fatalWriter struct{}

func (fatalWriter) Write(p []byte) (int, error) {
	if len(p) > 4 && string(p)[:5] == "debug" {
		return len(p), nil
	}
	// Only the logger called by Fatal functions ends the process, there are no other messages.
	if !calledFromFatal() {
		return len(p), nil
	}
	apiMu.Lock()
	if !apiHasFatal {
		apiHasFatal = true
		apiFatal = strings.TrimSuffix(string(p), "\n")
	}
	apiMu.Unlock()
	runtime.Goexit()
	return len(p), nil
}

func calledFromFatal() bool {
	pcs := make([]uintptr, 16)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			return true
		}
		if !more {
			return false
		}
	}
}

func initAPI() {
	log.SetFlags(0)
	log.SetOutput(fatalWriter{})
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
}

// RunAPI executes the case in process, dir is the scratch directory.
func RunAPI(c *Case, dir string) *Outcome {
	if c.Run != nil {
		return c.Run()
	}
	cwd := dir
	if c.extra() {
		d, err := os.MkdirTemp(dir, "x")
		if err != nil {
			panic(err)
		}
		defer func() { _ = os.Chdir(dir); _ = os.RemoveAll(d) }()
		if err := c.Materialize(d); err != nil {
			panic(err)
		}
		cwd = filepath.Join(d, c.Sub)
		if c.FBDPATH != "" {
			os.Setenv("FBDPATH", strings.ReplaceAll(c.FBDPATH, "$S", d))
			defer os.Unsetenv("FBDPATH")
		}
	} else {
		if err := os.WriteFile(filepath.Join(dir, "bus.fbd"), []byte(c.Src), 0o644); err != nil {
			panic(err)
		}
		if c.FBDPATH != "" {
			os.Setenv("FBDPATH", strings.ReplaceAll(c.FBDPATH, "$S", dir))
			defer os.Unsetenv("FBDPATH")
		}
	}
	if err := os.Chdir(cwd); err != nil {
		panic(err)
	}

	o := &Outcome{}
	apiMu.Lock()
	apiHasFatal, apiFatal = false, ""
	apiMu.Unlock()
	done := make(chan struct{})
	finished := false
	go func() {
		defer close(done)
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			o.Kind = Crash
			o.Msg = fmt.Sprintf("panic: %v\n%s", r, trunc(debug.Stack(), 6000))
		}()
		bus, pkgs, err := fbdl.Compile(c.main(), c.bus(), c.TS)
		finished = true
		if err != nil {
			o.Kind = Reject
			o.Msg = strings.TrimSuffix(err.Error(), "\n")
			return
		}
		o.JSON, err = json.MarshalIndent(bus, "", "  ")
		if err != nil {
			o.Kind = Crash
			o.Msg = "marshal: " + err.Error()
			return
		}
		o.Obs = bus
		if c.Consts {
			o.CJSON, err = json.MarshalIndent(pkgs, "", "  ")
			if err != nil {
				o.Kind = Crash
				o.Msg = "marshal: " + err.Error()
				return
			}
		}
	}()
	<-done
	apiMu.Lock()
	f, msg := apiHasFatal, apiFatal
	apiMu.Unlock()
	if f {
		return &Outcome{Kind: Reject, Msg: msg}
	}
	if o.Kind == OK && !finished {
		o.Kind = Crash
		o.Msg = "compilation ended without result"
	}
	if o.Kind == OK {
		o.parse()
	}
	return o
}

// InitAPI prepares the process for execution of cases with RunAPI, it is needed only outside of Main.
func InitAPI() { initAPI() }
