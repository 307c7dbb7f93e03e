// Check C17: every input ends with complete output or with a diagnostic.
package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

type model struct {
	what string
	must lib.Kind // OK or Reject, used only if set is true.
	set  bool
}

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	v := func(sig, f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: sig, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	switch o.Kind {
	case lib.Crash:
		return v("crash", "%s", o.Msg)
	case lib.Hang:
		return v("hang", "no answer")
	case lib.Reject:
		if strings.TrimSpace(o.Msg) == "" {
			return v("silent", "rejected without a diagnostic")
		}
		// A diagnostic shall not be a dump of the runtime.
		for _, s := range []string{"goroutine ", "panic:", "runtime error", "%!"} {
			if strings.Contains(o.Msg, s) && !strings.Contains(c.Src, s) {
				return v("dump", "diagnostic %q", o.Msg)
			}
		}
		if o.CLI && o.Stdout != "" {
			return v("partial", "rejected with output %.100q", o.Stdout)
		}
		if m.set && m.must == lib.OK {
			return v("rejected", "%s", o.Msg)
		}
	case lib.OK:
		if o.CLI && c.Args != nil {
			return nil
		}
		name := c.Bus
		if name == "" {
			name = "main"
		}
		if o.Bus == nil || o.Bus.Name != name {
			return v("incomplete", "output without the bus: %.200s", o.JSON)
		}
		if c.Consts && o.Pkgs["main"] == nil {
			return v("incomplete", "dumped constants without the main package: %.200s", o.CJSON)
		}
		if strings.Contains(string(o.JSON), "%!") && !strings.Contains(c.Src, "%!") {
			return v("garbage", "output has formatting error")
		}
		if m.set && m.must == lib.Reject {
			return v("accepted", "accepted")
		}
	}
	return nil
}

func main() {
	// Runaway allocations shall end the compiler, not the machine.
	lim := uint64(5 << 30)
	_ = syscall.Setrlimit(2 /* RLIMIT_DATA */, &syscall.Rlimit{Cur: lim, Max: lim})
	_ = os.Setenv("GOTRACEBACK", "single")
	lib.Main(&lib.Check{
		ID:       "C17",
		Rule:     "All sequences of up to 3 lexemes (of 60, including unterminated and illegal ones) in 17 syntactic contexts, all strings up to 3 bytes in the contexts, all truncations and single byte and single token and single line edits of descriptions which together use the whole grammar, all small graphs of types (deriving, containing, sizing, parametrizing each other), of constants and of packages, all pairs of properties with extreme values, all functionalities with extreme counts and widths within all functionalities on extreme buses, exponential, deep and long descriptions",
		Assume:   []string{"no answer within a minute is a hang", "inputs up to several megabytes"},
		CLIEvery: 2000,
		Gen:      gen,
		Eval:     eval,
	})
}

func gen(g *lib.Gen) {
	for _, f := range []func(*lib.Gen){extreme, deep, packages, graphs, constGraphs, features, propPairs, edits, lexemes, short} {
		if f(g); g.Stopped() {
			return
		}
	}
}

func em(g *lib.Gen, what string, src string) bool {
	return g.Emit(func() *lib.Case {
		return &lib.Case{Src: src, Consts: true, Meta: &model{what: what}}
	})
}
