package lib

// Case is a single execution: a set of files and the way the compiler is called.
type Case struct {
	Key     string            // Stable name, only for hand named cases.
	Src     string            // Content of Main.
	Main    string            // Path of the main file, default bus.fbd.
	Files   map[string]string // Additional files.
	Dirs    []string          // Additional empty directories.
	Links   map[string]string // Symbolic links: path -> target.
	Sub     string            // Working directory relative to the scratch directory.
	Bus     string            // Name of the main bus, default main.
	TS      bool              // Add timestamp.
	Consts  bool              // Dump constants.
	FBDPATH string            // $S is replaced with the path of the scratch directory.
	Args    []string          // If not nil, exact CLI arguments, such case runs only in the CLI.
	CLIOnly bool              // Such case runs only in the CLI.
	Edges   int               // Transitions this case stands for, 0 means 1.
	Meta    any               // Check private model of the case.
	API     bool              // Runs only in process, the Obs of the outcome is the bus (*fn.Block).
	Run     func() *Outcome   // If set, it replaces compilation (API level cases).
}

type Kind int

const (
	OK Kind = iota
	Reject
	Crash
	Hang
)

func (k Kind) String() string { return [...]string{"ok", "reject", "crash", "hang"}[k] }

// Outcome is what a single execution did.
type Outcome struct {
	Kind   Kind
	Msg    string // Diagnostic, panic message.
	JSON   []byte // Bus, verbatim.
	CJSON  []byte // Constants, verbatim.
	Bus    *Block
	Pkgs   map[string]*Pkg
	Code   int               // CLI only: exit code
	Stdout string            // CLI only
	Stderr string            // CLI only
	Left   map[string]string // CLI only: files present after the run which were not there before.
	CLI    bool
	Obs    any // API level cases.

	Incomplete       bool  // API level cases: the time ended before all schedules were explored.
	Edges, Schedules int64 // API level cases: number of executed transitions and schedules.
}

// Viol is a single violation of the property.
type Viol struct {
	Sig string
	Msg string
}

// Check describes a single check.
type Check struct {
	ID       string
	Rule     string // What is enumerated.
	Assume   []string
	CLIEvery int // One of how many cases is replayed in the CLI.
	Gen      func(g *Gen)
	Eval     func(c *Case, o *Outcome) []Viol
}

// Gen is handed to the case generator.
type Gen struct {
	Thorough bool
	idx      int64
	own      func(idx int64) bool
	run      func(idx int64, c *Case)
	stop     func() bool
	stopped  bool
	Notes    map[string]int64
}

// Emit adds a case. Function mk is called only when the case is to be executed
// by this process. False is returned when enumeration shall be ended.
func (g *Gen) Emit(mk func() *Case) bool {
	if g.stopped {
		return false
	}
	idx := g.idx
	g.idx++
	if g.own(idx) {
		if g.stop() {
			g.stopped = true
			return false
		}
		g.run(idx, mk())
	}
	return true
}

// Stopped returns true if enumeration has been interrupted.
func (g *Gen) Stopped() bool { return g.stopped }

// Pick returns q for quick tier and t for thorough tier.
func (g *Gen) Pick(q, t int) int {
	if g.Thorough {
		return t
	}
	return q
}
