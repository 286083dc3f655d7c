package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine/vm"
)

// Spec is one property's check.
type Spec struct {
	Property    string
	Harnesses   []HSpec
	Bounds      string
	Outside     string
	Assumptions []string
}

// HSpec is one harness of a property.
type HSpec struct {
	Name     string
	Quick    map[string]int
	Thorough map[string]int
	QuickS   int // seconds
	ThorS    int
	Mem      bool // stores to shared fields are scheduling points too
	Reach    []string
	Known    map[string]string // label -> known-finding id
	Samples  int
	NoNative bool // engine-only harness (cannot be replayed)
	Steps    int64
	Workers  int
	Race     bool // unordered conflicting accesses are violations
}

// Finding is an entry of known-findings.json.
type Finding struct {
	ID       string `json:"id"`
	Status   string `json:"status"` // "open" or "fixed"
	Property string `json:"property"`
	Commit   string `json:"commit,omitempty"`
	Harness  string `json:"harness,omitempty"`
	Label    string `json:"label,omitempty"`
	Contains string `json:"contains,omitempty"`
	What     string `json:"what"`
	Line     string `json:"line,omitempty"`
}

// ReplayFile is what a VIOLATION line points to.
type ReplayFile struct {
	Property string
	Harness  string
	Kind     string
	Label    string
	Detail   string
	Stack    string
	Model    map[string]uint64
	Delays   []vm.Delay
	Params   map[string]int
	Unit     int
	Jitter   int64
	Limit    int
	Procs    int
	Native   string
}

type nativeResult struct {
	outcome string // done, violation, panic, hang, assume, error
	detail  string
	obs     []vm.Obs
	out     string
}

// RunNative replays on the real code.
func RunNative(bin string, rf *ReplayFile, dir string, seq int) nativeResult {
	b, _ := json.Marshal(rf)
	mf := filepath.Join(dir, fmt.Sprintf("model_%s_%d.json", rf.Harness, seq))
	os.WriteFile(mf, b, 0o644)
	defer os.Remove(mf)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rf.Limit+15)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, rf.Harness)
	cmd.Env = append(os.Environ(), "VSYM_MODEL="+mf, "GOTRACEBACK=all", "GORACE=exitcode=0 atexit_sleep_ms=0")
	if rf.Procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", rf.Procs))
	}
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	err := cmd.Run()
	out := sb.String()
	r := nativeResult{out: out}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VSYM-OBS ") {
			kv := strings.SplitN(l[9:], "=", 2)
			if len(kv) == 2 {
				r.obs = append(r.obs, vm.Obs{Label: kv[0], Val: kv[1]})
			}
		}
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	first := func(pre string) string {
		i := strings.Index(out, pre)
		if i < 0 {
			return ""
		}
		s := out[i:]
		if j := strings.IndexByte(s, '\n'); j >= 0 {
			s = s[:j]
		}
		return s
	}
	switch {
	case code == 0 && strings.Contains(out, "VSYM-DONE"):
		r.outcome = "done"
	case code == 10:
		r.outcome, r.detail = "violation", strings.TrimPrefix(first("VSYM-VIOLATION "), "VSYM-VIOLATION ")
	case code == 11:
		r.outcome, r.detail = "hang", first("VSYM-HANG")
	case code == 12:
		r.outcome = "assume"
	case code == 2 && strings.Contains(out, "harness setup"):
		r.outcome, r.detail = "error", first("panic: ")
	case code == 2 && (strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ")):
		r.outcome, r.detail = "panic", first("panic: ")+first("fatal error: ")
	default:
		r.outcome, r.detail = "error", fmt.Sprintf("exit %d", code)
	}
	return r
}

// HarnessResult is what one harness explored.
type HarnessResult struct {
	Spec      HSpec
	Ex        *vm.Explorer
	Params    map[string]int
	Confirmed []*ReplayFile
	Unconf    []*vm.Violation
	Validated int
	Mismatch  []string
	Missing   []string // reach labels not hit
}

// Check runs one property.
type Check struct {
	Paths    *Paths
	Verif    string
	Spec     Spec
	Tier     string
	Seed     int64
	Solver   []string
	Findings []Finding
	Verbose  bool
	Only     string
	NoNative bool

	t0        time.Time
	prog      *vm.Program
	native    string
	nativeErr error
	nativeWG  sync.WaitGroup

	raceOnce sync.Once
	raceBin  string
	raceErr  error
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Run performs the check and returns the exit status.
func (c *Check) Run() int {
	t0 := time.Now()
	c.t0 = t0
	prog, err := c.Paths.Load()
	if err != nil {
		fmt.Println("ERROR: cannot load the code under test:", err)
		return 2
	}
	c.prog = prog
	var names []string
	for _, h := range c.Spec.Harnesses {
		if Harness(prog, h.Name) == nil {
			fmt.Println("ERROR: no harness", h.Name)
			return 2
		}
		names = append(names, h.Name)
	}
	c.nativeWG.Add(1)
	go func() {
		defer c.nativeWG.Done()
		if c.NoNative {
			return
		}
		c.native, c.nativeErr = c.Paths.BuildNative(names)
	}()
	var results []*HarnessResult
	for _, h := range c.Spec.Harnesses {
		if c.Only != "" && h.Name != c.Only {
			continue
		}
		results = append(results, c.explore(h))
	}
	c.nativeWG.Wait()
	if c.nativeErr != nil {
		fmt.Println("ERROR:", c.nativeErr)
		return 2
	}
	code := 0
	var known []string
	for _, r := range results {
		c.confirm(r)
		for _, rf := range r.Confirmed {
			if f := c.matchFinding(rf); f != nil {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.Spec.Property, f.What)
				dup := false
				for _, k := range known {
					dup = dup || k == line
				}
				if !dup {
					known = append(known, line)
				}
				continue
			}
			dir := filepath.Join(c.Verif, "evidence", "replays")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s_%s_%s.json", c.Spec.Property, rf.Harness, sanitize(rf.Label)))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("  counterexample in %s: %s %q: %s\n", rf.Harness, rf.Kind, rf.Label, clip(rf.Detail, 400))
			if len(rf.Delays) > 0 {
				fmt.Printf("  schedule: %v\n", rf.Delays)
			}
			fmt.Printf("  native replay: %s\n", clip(rf.Native, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Spec.Property, path)
			code = 1
		}
	}
	for _, k := range known {
		fmt.Println(k)
	}
	if code == 0 && !c.NoNative {
		c.validate(results)
	}
	c.evidence(results, code, time.Since(t0))
	for _, r := range results {
		fmt.Printf("%s %s: %s\n", c.Spec.Property, r.Spec.Name, r.Ex.Summary())
		if len(r.Missing) > 0 {
			fmt.Printf("  WARNING: never reached: %v (vacuity guard)\n", r.Missing)
		}
		for _, u := range r.Unconf {
			fmt.Printf("  unconfirmed (not reported): %s %q %s delays=%v\n", u.Kind, u.Label, clip(u.Detail, 300), u.Delays)
			if c.Verbose {
				fmt.Println(u.Stack)
			}
		}
		for _, m := range r.Mismatch {
			fmt.Println("  native trace differs:", clip(m, 600))
		}
		if c.Verbose {
			fmt.Println("   reached", r.Ex.Reached, "notes", r.Ex.Notes, "labels", r.Ex.Labels)
		}
	}
	if code == 0 {
		for _, r := range results {
			judged := r.Ex.Complete
			for _, v := range r.Ex.Violations {
				if v.Kind != "stopped" && v.Kind != "steps" {
					judged++
				}
			}
			if judged == 0 {
				fmt.Printf("ERROR: %s decided nothing: %s\n", r.Spec.Name, r.Ex.Summary())
				code = 2
			}
		}
	}
	fmt.Printf("%s tier=%s exit=%d wall=%.1fs\n", c.Spec.Property, c.Tier, code, time.Since(t0).Seconds())
	return code
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return clip(sb.String(), 60)
}

func (c *Check) explore(h HSpec) *HarnessResult {
	params := map[string]int{}
	for k, v := range h.Quick {
		params[k] = v
	}
	secs := h.QuickS
	if secs == 0 {
		secs = 40
	}
	if c.Tier == "thorough" {
		for k, v := range h.Thorough {
			params[k] = v
		}
		secs = h.ThorS
		if secs == 0 {
			secs = 300
		}
	}
	// A quick check ends in time on a slower machine, too.
	if c.Tier != "thorough" {
		if left := int((9*time.Minute - time.Since(c.t0)).Seconds()); secs > left {
			secs = left
			if secs < 10 {
				secs = 10
			}
		}
	}
	cfg := vm.Config{Workers: 8, MaxTime: time.Duration(secs) * time.Second, Solver: c.Solver, MemPoints: h.Mem, Race: h.Race, Params: params, Seed: c.Seed, MaxSteps: h.Steps}
	if h.Workers > 0 {
		cfg.Workers = h.Workers
	}
	ex := vm.NewExplorer(c.prog, Harness(c.prog, h.Name), cfg)
	if err := ex.Run(); err != nil {
		ex.Incomplete["engine: "+err.Error()]++
	}
	r := &HarnessResult{Spec: h, Ex: ex, Params: params}
	reach := h.Reach
	if len(reach) == 0 {
		reach = []string{"end"}
	}
	for _, l := range reach {
		if ex.Reached[l] == 0 {
			r.Missing = append(r.Missing, l)
		}
	}
	return r
}

// confirm replays the engine's counterexamples on the real code.
func (c *Check) confirm(r *HarnessResult) {
	groups := map[string][]*vm.Violation{}
	var order []string
	for _, v := range r.Ex.Violations {
		k := v.Kind + ":" + v.Label
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], v)
	}
	sort.Strings(order)
	for gi, k := range order {
		if gi >= 6 {
			break
		}
		vs := groups[k]
		sort.SliceStable(vs, func(i, j int) bool { return len(vs[i].Delays) < len(vs[j].Delays) })
		ok := false
		for i, v := range vs {
			if i >= 4 {
				break
			}
			replay := c.replay
			if v.Kind == "race" {
				replay = c.replayRace
			}
			if rf := replay(r, v); rf != nil {
				r.Confirmed = append(r.Confirmed, rf)
				ok = true
				break
			}
		}
		if !ok {
			r.Unconf = append(r.Unconf, vs[0])
		}
	}
}

func (c *Check) replay(r *HarnessResult, v *vm.Violation) *ReplayFile {
	if c.native == "" {
		return nil
	}
	base := ReplayFile{Property: c.Spec.Property, Harness: r.Spec.Name, Kind: v.Kind, Label: v.Label, Detail: v.Detail, Stack: v.Stack,
		Model: v.Model, Delays: v.Delays, Params: r.Params, Limit: 10, Unit: 120}
	type att struct {
		unit, procs int
		jitter      int64
	}
	rounds := [][]att{{{120, 0, 0}, {120, 1, 0}, {250, 0, 0}}}
	if len(v.Delays) > 0 {
		rounds = append(rounds, []att{{60, 2, 0}, {400, 0, 0}, {120, 4, 0}, {250, 1, 0}})
	}
	var js []att
	for i := int64(1); i <= 8; i++ {
		js = append(js, att{120, 0, i*7919 + c.Seed})
	}
	rounds = append(rounds, js)
	seq := 0
	for _, atts := range rounds {
		res := make([]nativeResult, len(atts))
		rfs := make([]ReplayFile, len(atts))
		var wg sync.WaitGroup
		for i, a := range atts {
			rf := base
			rf.Unit, rf.Procs, rf.Jitter = a.unit, a.procs, a.jitter
			if a.jitter != 0 {
				rf.Delays = nil
			}
			rfs[i] = rf
			seq++
			wg.Add(1)
			go func(i, seq int) {
				defer wg.Done()
				res[i] = RunNative(c.native, &rfs[i], c.Paths.Work, seq)
			}(i, seq)
		}
		wg.Wait()
		// What the engine could not follow to its end is only believed to fail
		// if it does so every time, on the unperturbed schedule.
		weak := v.Kind == "steps" || v.Kind == "stopped"
		all := true
		for i := range atts {
			all = all && (res[i].outcome == "violation" || res[i].outcome == "panic" || res[i].outcome == "hang" && v.Kind == "steps")
		}
		for i := range atts {
			ok := false
			switch res[i].outcome {
			case "violation", "panic":
				ok = true
			case "hang":
				ok = v.Kind == "deadlock" || v.Kind == "steps"
			}
			ok = ok && (all || !weak)
			if ok {
				rfs[i].Native = res[i].outcome + ": " + res[i].detail
				return &rfs[i]
			}
		}
		if weak {
			return nil
		}
		if c.Verbose {
			for i := range atts {
				fmt.Printf("  attempt %+v of %s %q: %s %s\n", atts[i], v.Kind, v.Label, res[i].outcome, res[i].detail)
			}
		}
	}
	return nil
}

// raceBinary builds the replay program with the race detector (once, and only
// when there is a race to confirm).
func (c *Check) raceBinary() (string, error) {
	c.raceOnce.Do(func() {
		var names []string
		for _, h := range c.Spec.Harnesses {
			names = append(names, h.Name)
		}
		p := *c.Paths
		p.Work = filepath.Join(c.Paths.Work, "race")
		c.raceBin, c.raceErr = p.BuildNative(names, "-race", "-gcflags="+Module+"/...=-l") // not inlined, each access is its function's
	})
	return c.raceBin, c.raceErr
}

// replayRace runs the harness on the real code under the race detector: the
// accesses the engine found unordered have to be so there too.
func (c *Check) replayRace(r *HarnessResult, v *vm.Violation) *ReplayFile {
	if c.NoNative {
		return nil
	}
	bin, err := c.raceBinary()
	if err != nil {
		fmt.Println("ERROR: race build:", err)
		return nil
	}
	base := ReplayFile{Property: c.Spec.Property, Harness: r.Spec.Name, Kind: v.Kind, Label: v.Label, Detail: v.Detail, Stack: v.Stack,
		Model: v.Model, Delays: v.Delays, Params: r.Params, Limit: 20, Unit: 200}
	type att struct {
		unit, procs int
		jitter      int64
	}
	rounds := [][]att{{{200, 0, 0}, {200, 1, 0}, {400, 2, 0}}}
	var js []att
	for i := int64(1); i <= 6; i++ {
		js = append(js, att{200, 0, i*7919 + c.Seed})
	}
	rounds = append(rounds, js)
	seq := 5000
	for _, atts := range rounds {
		rfs := make([]ReplayFile, len(atts))
		got := make([]string, len(atts))
		var wg sync.WaitGroup
		for i, a := range atts {
			rfs[i] = base
			rfs[i].Unit, rfs[i].Procs, rfs[i].Jitter = a.unit, a.procs, a.jitter
			if a.jitter != 0 {
				rfs[i].Delays = nil
			}
			seq++
			wg.Add(1)
			go func(i, seq int) {
				defer wg.Done()
				res := RunNative(bin, &rfs[i], c.Paths.Work, seq)
				got[i] = dataRace(res.out, v.Label)
			}(i, seq)
		}
		wg.Wait()
		for i := range atts {
			if got[i] != "" {
				rfs[i].Native = got[i]
				return &rfs[i]
			}
		}
	}
	return nil
}

var racePos = regexp.MustCompile(`([\w.-]+\.go):(\d+)`)

// sameRace tells whether a report of the race detector is about the two places
// the engine named: it attributes an access to a line of the same statement.
func sameRace(report, label string) bool {
	a, b := racePos.FindAllStringSubmatch(report, -1), racePos.FindAllStringSubmatch(label, -1)
	if len(a) != 2 || len(b) != 2 {
		return false
	}
	near := func(x, y []string) bool {
		m, _ := strconv.Atoi(x[2])
		n, _ := strconv.Atoi(y[2])
		return x[1] == y[1] && m-n <= 3 && n-m <= 3
	}
	return near(a[0], b[0]) && near(a[1], b[1]) || near(a[0], b[1]) && near(a[1], b[0])
}

// dataRace finds a report of the race detector whose two accesses belong to the
// code under test: the first frame of each that is not the library's is its, and
// is where the engine found the race that label names.
func dataRace(out, label string) string {
	for _, rep := range strings.Split(out, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var sides []string
		for _, sec := range strings.Split(rep, "\n\n") {
			var head string
			ls := strings.Split(sec, "\n")
			for i, l := range ls {
				t := strings.TrimSpace(l)
				if strings.Contains(t, " at 0x") && strings.Contains(t, " by ") {
					head = strings.Fields(t)[0]
					if head == "Previous" {
						head += " " + strings.Fields(t)[1]
					}
					continue
				}
				if head == "" || !strings.Contains(t, Module) || i+1 >= len(ls) {
					continue
				}
				if strings.Contains(t, Models) {
					break
				}
				loc := strings.Fields(strings.TrimSpace(ls[i+1]))
				if len(loc) > 0 {
					sides = append(sides, head+" at "+filepath.Base(loc[0]))
				}
				break
			}
		}
		if len(sides) == 2 {
			if r := "data race: " + strings.Join(sides, ", "); sameRace(r, label) {
				return r
			}
		}
	}
	return ""
}

// matchFinding finds the open known finding a counterexample belongs to.
func (c *Check) matchFinding(rf *ReplayFile) *Finding {
	for i := range c.Findings {
		f := &c.Findings[i]
		if f.Status != "open" || f.Property != c.Spec.Property || f.Harness != rf.Harness || f.Label != rf.Label {
			continue
		}
		if f.Contains != "" && !strings.Contains(rf.Detail, f.Contains) {
			continue
		}
		return f
	}
	return nil
}

// validate replays completed paths and compares what was observed.
func (c *Check) validate(results []*HarnessResult) {
	type job struct {
		r *HarnessResult
		s *vm.Sample
	}
	var jobs []job
	for _, r := range results {
		if r.Spec.NoNative {
			continue
		}
		n := r.Spec.Samples
		if n == 0 {
			n = 4
		}
		ss := r.Ex.Samples
		if len(ss) == 0 {
			continue
		}
		if n > len(ss) {
			n = len(ss)
		}
		off := int(c.Seed) % len(ss)
		if off < 0 {
			off = 0
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{r, ss[(off+i*len(ss)/n)%len(ss)]})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			rf := &ReplayFile{Property: c.Spec.Property, Harness: j.r.Spec.Name, Model: j.s.Model, Delays: j.s.Delays, Params: j.r.Params, Unit: 100, Limit: 20}
			why := ""
			for a := 0; a < 3; a++ {
				why = ""
				res := RunNative(c.native, rf, c.Paths.Work, 1000+i)
				if res.outcome != "done" {
					why = fmt.Sprintf("%s: native %s %s", j.r.Spec.Name, res.outcome, res.detail)
				} else {
					why = compareObs(j.s.Observe, res.obs)
				}
				if why == "" {
					break
				}
			}
			mu.Lock()
			if why == "" {
				j.r.Validated++
			} else {
				j.r.Mismatch = append(j.r.Mismatch, why+fmt.Sprintf(" model=%v delays=%v", j.s.Model, j.s.Delays))
			}
			mu.Unlock()
		}(i, j)
	}
	wg.Wait()
}

func compareObs(a, b []vm.Obs) string {
	norm := func(o []vm.Obs) []string {
		var s []string
		for _, x := range o {
			s = append(s, strings.ReplaceAll(x.Label, " ", "_")+"="+x.Val)
		}
		sort.Strings(s)
		return s
	}
	x, y := norm(a), norm(b)
	if len(x) != len(y) {
		return fmt.Sprintf("observed %v, native %v", x, y)
	}
	for i := range x {
		if x[i] != y[i] && !strings.HasSuffix(x[i], "=opaque") {
			return fmt.Sprintf("observed %s, native %s", x[i], y[i])
		}
	}
	return ""
}

func (c *Check) evidence(results []*HarnessResult, code int, wall time.Duration) {
	var states, trans, queries, sat, unsat, unk, validated, asserts, discharged, points int
	var solver time.Duration
	var samples []any
	var hs []any
	fns := map[string]bool{}
	exhaustive := true
	for _, r := range results {
		ex := r.Ex
		states += ex.Paths
		trans += int(ex.Decisions)
		queries += ex.Queries
		sat += ex.NSat
		unsat += ex.NUnsat
		unk += ex.NUnk
		asserts += int(ex.Asserts)
		discharged += int(ex.Discharged)
		points += int(ex.Points)
		solver += ex.SolverTime
		validated += r.Validated
		done := ex.HitLimit == "" && len(ex.Incomplete) == 0
		unsupp := 0
		for k, n := range ex.Aborted {
			if k != "violation" {
				unsupp += n
			}
		}
		if !done || unsupp > 0 {
			exhaustive = false
		}
		for f := range ex.Functions {
			if strings.Contains(f, Module) && !strings.Contains(f, Models) {
				fns[f] = true
			}
		}
		for i, s := range ex.Samples {
			if i < 3 {
				m := map[string]uint64{}
				for k, v := range s.Model {
					if v != 0 && !strings.HasPrefix(k, "sched_") {
						m[k] = v
					}
				}
				samples = append(samples, map[string]any{"harness": r.Spec.Name, "nonzero_model_values": m, "delays": s.Delays, "observed": s.Observe, "steps": s.Steps, "decisions": s.Depth})
			}
		}
		h := map[string]any{
			"harness": r.Spec.Name, "params": r.Params, "paths": ex.Paths, "completed_paths": ex.Complete, "infeasible": ex.Infeasible,
			"aborted_paths": ex.Aborted, "forks": ex.Forks, "interpreted_instructions": ex.Steps, "context_switches": ex.Switches, "scheduling_points": ex.Points,
			"delays_taken": ex.Delayed, "assertions_evaluated": ex.Asserts, "assertion_labels": ex.Labels, "assertion_queries_unsat": ex.Discharged,
			"symbolic_branches": ex.Branches, "max_decisions_on_a_path": ex.MaxDepth,
			"solver_queries": ex.Queries, "solver_sat": ex.NSat, "solver_unsat": ex.NUnsat, "solver_unknown": ex.NUnk, "solver_s": ex.SolverTime.Seconds(), "longest_query_s": ex.MaxQuery.Seconds(),
			"wall_s": ex.Wall.Seconds(), "reached": ex.Reached, "never_reached": r.Missing, "bound_cut_short_by": ex.HitLimit, "incomplete": ex.Incomplete,
			"explored_completely_within_bounds": done && unsupp == 0, "native_traces_matching": r.Validated, "native_traces_differing": r.Mismatch,
			"unconfirmed_counterexamples": len(r.Unconf),
		}
		hs = append(hs, h)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, Module, "noise"))
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": c.Spec.Property, "tier": c.Tier, "seed": c.Seed, "level": "model_checking", "wall_s": wall.Seconds(),
		"violations":  code,
		"assumptions": c.Spec.Assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive,
			"rule":   "states: symbolic paths explored (each covers every value of its symbolic variables that satisfies its path condition); transitions: decisions (branch outcomes, enumerated values, schedule choices) taken on them",
			"bounds": c.Spec.Bounds, "outside_the_claim": c.Spec.Outside,
			"functions_encoded": fl, "functions_encoded_count": len(fl), "assertions_evaluated": asserts, "assertion_queries_unsat": discharged, "scheduling_points": points,
			"solver": strings.Join(c.Solver, " "), "queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk, "solver_s": solver.Seconds(),
			"harnesses": hs,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if c.Only == "" {
		os.WriteFile(filepath.Join(dir, c.Spec.Property+".json"), append(b, '\n'), 0o644)
	}
}

// Describe runs a replay file natively and prints the outcome.
func Describe(bin string, rf *ReplayFile, dir string) string {
	r := RunNative(bin, rf, dir, 1)
	return fmt.Sprintf("%s %s\n%s", r.outcome, r.detail, clip(r.out, 6000))
}
