// Explore executes all schedules and orders of iterations over maps of a single compilation
// with at most given number of deviations from the default ones.
package main

import (
	"encoding/json"
	"fmt"
	"log"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/vsync"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
)

// Job is read from stdin.
type Job struct {
	Dir, Main, Bus string
	FBDPATH        string
	OK             bool
	JSON, CJSON    string
	Bound          int
	Part, Parts    int
	Max            int
	Seconds        int
	Prefix         []int // Only this execution.
}

// Report is written to stdout.
type Report struct {
	Executions int
	Points     int
	Choices    int
	MaxChoices int
	MaxThreads int
	Complete   bool
	Race       bool
	Viol       string
	Prefix     []int
}

type writer struct{}

func (writer) Write(p []byte) (int, error) {
	if len(p) > 4 && string(p)[:5] == "debug" || !calledFromFatal() {
		return len(p), nil
	}
	vsync.Fatal(strings.TrimSuffix(string(p), "\n"))
	return len(p), nil
}

func calledFromFatal() bool {
	pcs := make([]uintptr, 16)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			return true
		}
		if !more {
			return false
		}
	}
}

func main() {
	var j Job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	if err := os.Chdir(j.Dir); err != nil {
		panic(err)
	}
	if j.FBDPATH != "" {
		os.Setenv("FBDPATH", j.FBDPATH)
	}
	log.SetFlags(0)
	log.SetOutput(writer{})
	start := time.Now()
	rep := Report{Race: vsync.HasRace}
	prefix := append([]int{}, j.Prefix...)
	single := j.Prefix != nil
	for {
		var out, cout string
		var cerr error
		finished := false
		r := vsync.Run(prefix, func() {
			bus, pkgs, err := fbdl.Compile(j.Main, j.Bus, false)
			cerr = err
			if err == nil {
				b, err := json.MarshalIndent(bus, "", "  ")
				if err != nil {
					cerr = err
				}
				out = string(b)
				b, err = json.MarshalIndent(pkgs, "", "  ")
				if err != nil {
					cerr = err
				}
				cout = string(b)
			}
			finished = true
		})
		rep.Executions++
		rep.Points += r.Points
		rep.Choices += len(r.Choices)
		rep.MaxChoices = max(rep.MaxChoices, len(r.Choices))
		rep.MaxThreads = max(rep.MaxThreads, r.Threads)
		ok := finished && cerr == nil && !r.HasFatal
		viol := ""
		switch {
		case r.Overflow:
			viol = "" // Too many decisions, nothing is known.
			rep.Complete = false
		case r.Races > 0:
			viol = "data race"
		case r.Deadlock:
			viol = "deadlock"
		case ok && !j.OK:
			viol = "compilation succeeds, the program rejects the description"
		case !ok && j.OK:
			viol = "compilation fails, the program accepts the description: " + r.Fatal + fmt.Sprint(cerr)
		case ok && out != j.JSON:
			viol = "output differs from the output of the program" + diff(j.JSON, out)
		case ok && cout != j.CJSON:
			viol = "constants differ from the constants written by the program" + diff(j.CJSON, cout)
		}
		if viol != "" {
			rep.Viol = viol
			rep.Prefix = picks(r.Choices)
			break
		}
		if single {
			break
		}
		prefix = next(r.Choices, &j)
		if prefix == nil {
			rep.Complete = !r.Overflow
			break
		}
		if rep.Executions >= j.Max && j.Max > 0 || time.Since(start) > time.Duration(j.Seconds)*time.Second {
			break
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(rep)
}

func picks(cs []vsync.Choice) []int {
	r := []int{}
	n := 0
	for i, c := range cs {
		r = append(r, c.Pick)
		if c.Pick > 0 {
			n = i + 1
		}
	}
	return r[:n]
}

// next returns choices of the next execution in the depth first order.
func next(cs []vsync.Choice, j *Job) []int {
	cost := make([]int, len(cs)+1)
	first := -1
	firsts := make([]int, len(cs))
	for i, c := range cs {
		cost[i+1] = cost[i]
		firsts[i] = first
		if c.Pick > 0 {
			cost[i+1] += c.Cost
			if first < 0 {
				first = i
			}
		}
	}
	for i := len(cs) - 1; i >= 0; i-- {
		c := cs[i]
		if c.Pick+1 >= c.N || cost[i]+c.Cost > j.Bound {
			continue
		}
		f := firsts[i]
		if f < 0 {
			f = i
		}
		if f%j.Parts != j.Part {
			continue
		}
		r := make([]int, i+1)
		for k := range i {
			r[k] = cs[k].Pick
		}
		r[i] = c.Pick + 1
		return r
	}
	return nil
}

func diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return ", it is shorter"
		}
		if la[i] != lb[i] {
			return fmt.Sprintf(", line %d: %s instead of %s", i+1, strings.TrimSpace(lb[i]), strings.TrimSpace(la[i]))
		}
	}
	return ", it is longer"
}
