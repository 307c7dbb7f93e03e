package lib

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violRec struct {
	Idx int64
	Sig string
	Msg string
	Key string
}

type stats struct {
	Evals    int64
	Edges    int64
	Kinds    [4]int64
	Traces   int64 // Cases replayed with the real program with the same result.
	Diverged int64
	Total    int64 // Number of enumerated cases.
	Stopped  bool
	Notes    map[string]int64

	Schedules  int64
	Incomplete int64
	Hashes     string // File with hashes of distinct outcomes.
	Rejects    map[string]int64
}

type line struct {
	V *violRec `json:",omitempty"`
	S *stats   `json:",omitempty"`
}

const maxPerSig = 3

// Quick and thorough time budgets of the exploration itself.
const (
	quickBudget    = 330 * time.Second
	thoroughBudget = 3000 * time.Second
	deathsLimit    = 150 * time.Second
	confirmLimit   = 540 * time.Second // Further violations are not confirmed afterwards.
)

func cliBin() string { return os.Getenv("VX_CLI") }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

// Main is the entry point of every check.
func Main(ck *Check) {
	switch os.Getenv("VX_MODE") {
	case "worker":
		worker(ck)
	default:
		parent(ck)
	}
}

// firstFile is a file whose existence ends the exploration after the first violation (development aid).
func firstFile() string {
	if os.Getenv("VX_FIRST") == "" {
		return ""
	}
	return filepath.Join(os.Getenv("VX_SCRATCH"), "first")
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// execute runs the case in the cheapest faithful way.
func execute(c *Case, dir string) *Outcome {
	if c.Run != nil {
		return c.Run()
	}
	if c.API && !HasAPI {
		return &Outcome{}
	}
	if !HasAPI || c.CLIOnly || c.Args != nil {
		return RunCLI(cliBin(), c)
	}
	return RunAPI(c, dir)
}

func outcomeHash(o *Outcome) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte{byte(o.Kind)})
	switch {
	case o.Kind == OK && o.Obs != nil && o.Bus == nil:
		fmt.Fprintf(h, "%v", o.Obs)
	case o.Kind == OK:
		_, _ = h.Write(o.JSON)
		_, _ = h.Write(o.CJSON)
		for _, k := range sortedKeys(o.Left) {
			_, _ = io.WriteString(h, k+"\x00"+o.Left[k]+"\x00")
		}
	default:
		_, _ = io.WriteString(h, o.Msg)
	}
	return h.Sum64()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func worker(ck *Check) {
	runtime.GOMAXPROCS(2)
	shard, _ := strconv.ParseInt(os.Getenv("VX_SHARD"), 10, 64)
	shards, _ := strconv.ParseInt(os.Getenv("VX_SHARDS"), 10, 64)
	start, _ := strconv.ParseInt(os.Getenv("VX_START"), 10, 64)
	only := int64(-1)
	if s := os.Getenv("VX_ONLY"); s != "" {
		only, _ = strconv.ParseInt(s, 10, 64)
	}
	deadline, _ := strconv.ParseInt(os.Getenv("VX_DEADLINE"), 10, 64)
	dir := os.Getenv("VX_DIR")
	prog, err := os.OpenFile(filepath.Join(dir, "progress"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	work := filepath.Join(dir, "w")
	_ = os.RemoveAll(work)
	if err := os.MkdirAll(work, 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.Chdir(work); err != nil {
		fatal("%v", err)
	}
	initAPI()
	_ = os.Unsetenv("FBDPATH")

	out := bufio.NewWriter(os.Stdout)
	emit := func(l line) {
		b, err := json.Marshal(l)
		if err != nil {
			fatal("%v", err)
		}
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
	st := &stats{Notes: map[string]int64{}, Rejects: map[string]int64{}}
	seen := map[uint64]struct{}{}
	perSig := map[string]int{}
	var buf [8]byte
	n := int64(0)
	g := &Gen{Thorough: thorough(), Notes: st.Notes}
	// Sparse exploration (development aid, never used by the registered commands).
	every, _ := strconv.ParseUint(os.Getenv("VX_EVERY"), 10, 64)
	g.own = func(idx int64) bool {
		if only >= 0 {
			return idx == only
		}
		if every > 1 && (uint64(idx)*0x9e3779b97f4a7c15>>33)%every != 0 {
			return false
		}
		return idx%shards == shard && idx >= start
	}
	first := firstFile()
	calls := 0
	g.stop = func() bool {
		if only >= 0 {
			return false
		}
		if first != "" {
			if calls++; calls%64 == 0 {
				if _, err := os.Stat(first); err == nil {
					return true
				}
			}
		}
		return time.Now().UnixNano() > deadline
	}
	record := func(idx int64, c *Case, o *Outcome) {
		for _, v := range evaluate(ck, c, o) {
			sig := v.Sig
			if c.Key != "" {
				sig = c.Key + ":" + sig
			}
			perSig[sig]++
			if perSig[sig] > maxPerSig {
				continue
			}
			emit(line{V: &violRec{Idx: idx, Sig: sig, Msg: v.Msg, Key: c.Key}})
			if first != "" && c.Key == "" {
				_ = os.WriteFile(first, nil, 0o644)
			}
		}
	}
	g.run = func(idx int64, c *Case) {
		binary.LittleEndian.PutUint64(buf[:], uint64(idx)+1)
		_, _ = prog.WriteAt(buf[:], 0)
		o := execute(c, work)
		st.Evals++
		st.Schedules += o.Schedules
		if o.Incomplete {
			st.Incomplete++
		}
		if o.Edges > 0 {
			st.Edges += o.Edges
		} else if c.Edges == 0 {
			st.Edges++
		} else {
			st.Edges += int64(c.Edges)
		}
		st.Kinds[o.Kind]++
		if o.Kind == Reject && len(st.Rejects) < 400 {
			st.Rejects[normMsg(o.Msg)]++
		}
		if len(seen) < 4_000_000 {
			seen[outcomeHash(o)] = struct{}{}
		}
		record(idx, c, o)
		if only < 0 && c.Run == nil && !c.API && ck.CLIEvery > 0 && n%int64(ck.CLIEvery) == 0 && HasAPI && !o.CLI {
			oc := RunCLI(cliBin(), c)
			if sameOutcome(c, o, oc) {
				st.Traces++
			} else {
				st.Diverged++
			}
			record(idx, c, oc)
		} else if o.CLI {
			st.Traces++
		}
		n++
	}
	ck.Gen(g)
	st.Total = g.idx
	st.Stopped = g.stopped
	if only < 0 {
		f := filepath.Join(dir, fmt.Sprintf("hashes.%d", start))
		var bb bytes.Buffer
		for h := range seen {
			binary.LittleEndian.PutUint64(buf[:], h)
			bb.Write(buf[:])
		}
		if err := os.WriteFile(f, bb.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
		st.Hashes = f
	}
	emit(line{S: st})
}

func sameOutcome(c *Case, a, b *Outcome) bool {
	if a.Kind != b.Kind {
		return false
	}
	if a.Kind == OK {
		if c.TS {
			return true
		}
		return bytes.Equal(a.JSON, b.JSON) && bytes.Equal(a.CJSON, b.CJSON)
	}
	if a.Kind == Reject {
		return a.Msg == b.Msg
	}
	return true
}

// SameOutcome reports whether two executions of the case are indistinguishable.
func SameOutcome(c *Case, a, b *Outcome) bool { return sameOutcome(c, a, b) }

// normMsg drops everything specific from the diagnostic.
func normMsg(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	var b strings.Builder
	digit := false
	quote := false
	for _, r := range s {
		if r == '\'' || r == '"' {
			quote = !quote
			b.WriteRune('\'')
			continue
		}
		if quote {
			continue
		}
		if r >= '0' && r <= '9' {
			if !digit {
				b.WriteByte('N')
			}
			digit = true
			continue
		}
		digit = false
		b.WriteRune(r)
	}
	return b.String()
}

type shardRes struct {
	viols  []violRec
	st     stats
	deaths int64
	err    error
}

// caseAt regenerates the case with given index.
func caseAt(ck *Check, want int64) *Case {
	var res *Case
	g := &Gen{Thorough: thorough(), Notes: map[string]int64{}}
	g.own = func(idx int64) bool { return idx == want }
	g.stop = func() bool { return false }
	g.run = func(_ int64, c *Case) { res = c; g.stopped = true }
	ck.Gen(g)
	return res
}

func runShard(ck *Check, scratch string, shard, shards int, deadline time.Time) shardRes {
	res := shardRes{}
	res.st.Notes = map[string]int64{}
	res.st.Rejects = map[string]int64{}
	dir := filepath.Join(scratch, fmt.Sprintf("s%d", shard))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		res.err = err
		return res
	}
	start := int64(0)
	for {
		_ = os.Remove(filepath.Join(dir, "progress"))
		lines, stderr, died, hung, err := runWorker(dir, shard, shards, start, -1, deadline)
		if err != nil {
			res.err = err
			return res
		}
		for _, l := range lines {
			if l.V != nil {
				res.viols = append(res.viols, *l.V)
			}
			if l.S != nil {
				addStats(&res.st, l.S)
			}
		}
		if !died && !hung {
			return res
		}
		b, err := os.ReadFile(filepath.Join(dir, "progress"))
		if err != nil || len(b) < 8 {
			res.err = fmt.Errorf("worker died before the first case: %s", stderr)
			return res
		}
		idx := int64(binary.LittleEndian.Uint64(b)) - 1
		c := caseAt(ck, idx)
		if c == nil {
			res.err = fmt.Errorf("cannot regenerate case %d", idx)
			return res
		}
		o := &Outcome{Kind: Crash, Msg: stderr}
		if hung {
			o = &Outcome{Kind: Hang, Msg: "no answer"}
		}
		res.deaths++
		res.st.Evals++
		res.st.Edges++
		res.st.Kinds[o.Kind]++
		for _, v := range evaluate(ck, c, o) {
			sig := v.Sig
			if c.Key != "" {
				sig = c.Key + ":" + sig
			}
			res.viols = append(res.viols, violRec{idx, sig, v.Msg, c.Key})
			if f := firstFile(); f != "" {
				_ = os.WriteFile(f, nil, 0o644)
				return res
			}
		}
		start = idx + 1
		// Violations which kill the process are slow, some of them are enough.
		if res.deaths > 2000 || !thorough() && len(res.viols) > 0 && time.Until(deadline) < quickBudget-deathsLimit {
			res.st.Stopped = true
			return res
		}
	}
}

func addStats(a, b *stats) {
	a.Evals += b.Evals
	a.Edges += b.Edges
	a.Schedules += b.Schedules
	a.Incomplete += b.Incomplete
	for i := range a.Kinds {
		a.Kinds[i] += b.Kinds[i]
	}
	a.Traces += b.Traces
	a.Diverged += b.Diverged
	if b.Total > a.Total {
		a.Total = b.Total
	}
	a.Stopped = a.Stopped || b.Stopped
	for k, v := range b.Notes {
		if v > a.Notes[k] {
			a.Notes[k] = v
		}
	}
	for k, v := range b.Rejects {
		a.Rejects[k] += v
	}
	if b.Hashes != "" {
		a.Hashes += b.Hashes + "\n"
	}
}

const hangLimit = 90 * time.Second

// runWorker runs a single worker process and waits for its end.
func runWorker(dir string, shard, shards int, start, only int64, deadline time.Time) (ls []line, stderr string, died, hung bool, err error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, "", false, false, err
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(),
		"VX_MODE=worker", "VX_DIR="+dir,
		fmt.Sprintf("VX_SHARD=%d", shard), fmt.Sprintf("VX_SHARDS=%d", shards),
		fmt.Sprintf("VX_START=%d", start), fmt.Sprintf("VX_DEADLINE=%d", deadline.UnixNano()),
		"GOTRACEBACK=single", "TZ=UTC",
	)
	if only >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VX_ONLY=%d", only))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	se := &capBuf{cap: 1 << 15}
	cmd.Stderr = se
	so, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", false, false, err
	}
	// Parent death signal is bound to the thread.
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return nil, "", false, false, err
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		last, since := []byte{}, time.Now()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			b, _ := os.ReadFile(filepath.Join(dir, "progress"))
			if !bytes.Equal(b, last) {
				last, since = b, time.Now()
				continue
			}
			// There is no progress file when cases are still being skipped.
			if len(b) > 0 && time.Since(since) > hangLimit {
				hung = true
				_ = cmd.Process.Kill()
				return
			}
		}
	}()
	gotStats := false
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		s, e := rd.ReadBytes('\n')
		if len(s) > 0 {
			l := line{}
			if json.Unmarshal(s, &l) == nil {
				ls = append(ls, l)
				if l.S != nil {
					gotStats = true
				}
			}
		}
		if e != nil {
			break
		}
	}
	_ = cmd.Wait()
	close(stop)
	wg.Wait()
	return ls, se.b.String(), !gotStats && !hung, hung && !gotStats, nil
}

// confirm re-executes the case in fresh processes, the violation has to come up every time.
func confirm(ck *Check, scratch string, v violRec) (*Case, *Outcome, bool) {
	c := caseAt(ck, v.Idx)
	if c == nil {
		return nil, nil, false
	}
	var last *Outcome
	for i := 0; i < 5; i++ {
		if c.Run != nil || c.API {
			dir, err := os.MkdirTemp(scratch, "only")
			if err != nil {
				return c, nil, false
			}
			ls, stderr, died, hung, err := runWorker(dir, 0, 1, 0, v.Idx, time.Now().Add(time.Hour))
			_ = os.RemoveAll(dir)
			if err != nil {
				return c, nil, false
			}
			ok := false
			for _, l := range ls {
				if l.V != nil && l.V.Sig == v.Sig {
					ok = true
				}
			}
			if died || hung {
				o := &Outcome{Kind: Crash, Msg: stderr}
				if hung {
					o = &Outcome{Kind: Hang}
				}
				ok = hasSig(ck, c, o, v.Sig)
			}
			if !ok {
				return c, nil, false
			}
			if hung && i > 0 {
				break
			}
			continue
		}
		last = RunCLI(cliBin(), c)
		if !hasSig(ck, c, last, v.Sig) {
			return c, last, false
		}
		if last.Kind == Hang && i > 0 {
			break // No answer in the generous time, twice.
		}
	}
	return c, last, true
}

func hasSig(ck *Check, c *Case, o *Outcome, sig string) bool {
	for _, v := range evaluate(ck, c, o) {
		s := v.Sig
		if c.Key != "" {
			s = c.Key + ":" + s
		}
		if s == sig {
			return true
		}
	}
	return false
}

func parent(ck *Check) {
	t0 := time.Now()
	if len(os.Args) > 2 && os.Args[1] == "case" {
		idx, _ := strconv.ParseInt(os.Args[2], 10, 64)
		showCase(ck, idx)
		return
	}
	verif := os.Getenv("VX_VERIF")
	scratch := os.Getenv("VX_SCRATCH")
	if verif == "" || scratch == "" || cliBin() == "" {
		fatal("environment is not complete, use run.sh")
	}
	budget := quickBudget
	if thorough() {
		budget = thoroughBudget
	}
	if s := os.Getenv("VX_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := t0.Add(budget)
	shards := runtime.NumCPU()
	if shards > 16 {
		shards = 16
	}
	ress := make([]shardRes, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ress[i] = runShard(ck, scratch, i, shards, deadline)
		}()
	}
	wg.Wait()

	all := stats{Notes: map[string]int64{}, Rejects: map[string]int64{}}
	viols := []violRec{}
	deaths := int64(0)
	for _, r := range ress {
		if r.err != nil {
			fatal("%v", r.err)
		}
		addStats(&all, &r.st)
		viols = append(viols, r.viols...)
		deaths += r.deaths
	}
	hashes := map[uint64]struct{}{}
	for _, f := range strings.Fields(all.Hashes) {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		for i := 0; i+8 <= len(b); i += 8 {
			hashes[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}

	known := readKnown(filepath.Join(verif, "known-findings.txt"), ck.ID)
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Idx != viols[j].Idx {
			return viols[i].Idx < viols[j].Idx
		}
		return viols[i].Sig < viols[j].Sig
	})
	if os.Getenv("VX_LIST") != "" { // Development aid.
		for _, v := range viols {
			fmt.Printf("LIST %d %s: %s\n", v.Idx, v.Sig, firstLines(v.Msg, 12))
		}
	}
	bad, unconfirmed := 0, 0
	knownSeen := map[string]bool{}
	tried := map[string]int{}
	done := map[string]bool{}
	replays := filepath.Join(verif, "evidence", "replay")
	for _, v := range viols {
		if k, ok := known[v.Sig]; ok {
			if !knownSeen[v.Sig] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k)
			}
			knownSeen[v.Sig] = true
			continue
		}
		if done[v.Sig] || tried[v.Sig] >= 4 || bad >= 10 || bad > 0 && !thorough() && time.Since(t0) > confirmLimit {
			continue
		}
		tried[v.Sig]++
		c, o, ok := confirm(ck, scratch, v)
		if !ok {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "not confirmed: case %d: %s: %s\n", v.Idx, v.Sig, v.Msg)
			continue
		}
		done[v.Sig] = true
		bad++
		p := writeReplay(replays, ck, v, c, o)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		fmt.Printf("  %s: %s\n", v.Sig, firstLines(v.Msg, 12))
	}
	exhaustive := !all.Stopped
	samples := []any{}
	for _, i := range []int64{0, all.Total / 3, all.Total / 2, all.Total - 1} {
		if i < 0 || i >= all.Total || (all.Stopped && i > all.Evals/2) {
			continue
		}
		if c := caseAt(ck, i); c != nil {
			samples = append(samples, sample(i, c))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{
		"states":                        len(hashes),
		"transitions":                   all.Edges,
		"traces_validated_against_impl": all.Traces,
		"evaluations":                   all.Evals,
		"rule":                          ck.Rule,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"enumerated":                    all.Total,
		"outcomes":                      map[string]int64{"ok": all.Kinds[OK], "reject": all.Kinds[Reject], "crash": all.Kinds[Crash], "hang": all.Kinds[Hang]},
		"diverged_from_cli":             all.Diverged,
		"worker_restarts":               deaths,
		"in_process":                    HasAPI,
		"explanation": "states: distinct observed results (outputs or diagnostics) of the implementation; transitions: model steps " +
			"(elements, tokens or properties added to an already explored description) executed on the implementation; every case is executed " +
			"on the implementation itself, traces_validated_against_impl counts these additionally replayed, or executed in the first place, with the real command line program and giving the identical result",
	}
	if all.Schedules > 0 {
		cov["schedules"] = all.Schedules
		cov["explorations_cut_by_time"] = all.Incomplete
	}
	if len(all.Notes) > 0 {
		cov["notes"] = all.Notes
	}
	if len(all.Rejects) > 0 {
		cov["distinct_diagnostics"] = len(all.Rejects)
	}
	tier := "quick"
	if thorough() {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append([]string{}, ck.Assume...),
		"wall_s": time.Since(t0).Seconds(), "violations": bad,
		"known_findings": len(knownSeen), "unconfirmed": unconfirmed,
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fatal("%v", err)
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %d cases executed (%d enumerated), %d distinct results, %d replayed with the program, outcomes %v, %.1f s, exhaustive %v\n",
		ck.ID, all.Evals, all.Total, len(hashes), all.Traces, all.Kinds, time.Since(t0).Seconds(), exhaustive)
	if os.Getenv("VX_REJECTS") != "" {
		for _, k := range sortedKeys(all.Rejects) {
			fmt.Printf("  %8d %s\n", all.Rejects[k], k)
		}
	}
	if all.Evals == 0 {
		fatal("nothing has been explored")
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func sample(i int64, c *Case) map[string]any {
	m := map[string]any{"case": i}
	if c.Src != "" {
		m["source"] = c.Src
	}
	if len(c.Files) > 0 {
		m["files"] = c.Files
	}
	if c.Args != nil {
		m["args"] = c.Args
	}
	if c.Key != "" {
		m["key"] = c.Key
	}
	if c.Src == "" && c.Meta != nil {
		m["model"] = fmt.Sprintf("%+v", c.Meta)
	}
	return m
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func readKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return m
}

func writeReplay(root string, ck *Check, v violRec, c *Case, o *Outcome) string {
	name := fmt.Sprintf("%s-%d", ck.ID, v.Idx)
	dir := filepath.Join(root, name)
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	_ = c.Materialize(filepath.Join(dir, "files"))
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\ncase %d\nsignature %s\n%s\n", ck.ID, v.Idx, v.Sig, v.Msg)
	if c.Run != nil {
		fmt.Fprintf(&b, "API level case: %+v\n", c.Meta)
	} else {
		fmt.Fprintf(&b, "command (in directory files/%s): FBDPATH=%q fbdl %s\n", c.Sub, c.FBDPATH, strings.Join(c.CLIArgs(), " "))
	}
	if o != nil {
		fmt.Fprintf(&b, "outcome %s\n%s\n", o.Kind, o.Msg)
		_ = os.WriteFile(filepath.Join(dir, "stdout"), []byte(o.Stdout), 0o644)
		_ = os.WriteFile(filepath.Join(dir, "stderr"), []byte(o.Stderr), 0o644)
	}
	_ = os.WriteFile(filepath.Join(dir, "violation.txt"), []byte(b.String()), 0o644)
	return filepath.Join(dir, "violation.txt")
}

func showCase(ck *Check, idx int64) {
	c := caseAt(ck, idx)
	if c == nil {
		fatal("no such case")
	}
	fmt.Printf("--- source\n%s\n", c.Src)
	for _, k := range sortedKeys(c.Files) {
		fmt.Printf("--- %s\n%s\n", k, c.Files[k])
	}
	fmt.Printf("--- model %+v\n", c.Meta)
	var o *Outcome
	if c.API {
		initAPI()
		d, _ := os.MkdirTemp(scratchRoot(), "show")
		o = RunAPI(c, d)
	} else if c.Run != nil {
		o = c.Run()
	} else {
		o = RunCLI(cliBin(), c)
	}
	fmt.Printf("--- outcome %s\n%s\n%s\n%v\n", o.Kind, o.Msg, o.Stdout, o.Obs)
	for _, v := range evaluate(ck, c, o) {
		fmt.Printf("--- %s: %s\n", v.Sig, v.Msg)
	}
}

// evaluate protects from malformed outcomes.
func evaluate(ck *Check, c *Case, o *Outcome) (vs []Viol) {
	defer func() {
		if r := recover(); r != nil {
			vs = append(vs, Viol{"malformed", fmt.Sprintf("result cannot be interpreted: %v\n%s", r, trunc(debug.Stack(), 3000))})
		}
	}()
	return ck.Eval(c, o)
}
