package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/engine/smt"
)

// Program is the loaded program, shared by the workers.
type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	Module   string // module path of the code under test
	Models   string // prefix of the model packages (not scheduling-visible)
	LoadErrs []string
	LoadTime time.Duration

	mu        sync.Mutex
	redirects map[string]*ssa.Function
	visPos    sync.Map // token.Pos -> string
}

// Load type-checks and builds the packages matching patterns in dir.
func Load(dir string, env []string, overlay map[string][]byte, tags string, module, models string, patterns ...string) (*Program, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		Env:        append(os.Environ(), env...),
		Overlay:    overlay,
		BuildFlags: []string{"-tags=" + tags},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, Module: module, Models: models, redirects: map[string]*ssa.Function{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if strings.HasPrefix(pk.PkgPath, module) {
			for _, e := range pk.Errors {
				p.LoadErrs = append(p.LoadErrs, e.Error())
			}
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.LoadTime = time.Since(t0)
	return p, nil
}

func (p *Program) Package(path string) *ssa.Package { return p.pkgs[path] }

// Func finds a function by package path and name.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Redirect makes calls of the function with the given full name run target.
func (p *Program) Redirect(full string, target *ssa.Function) {
	p.redirects[full] = target
}

func (p *Program) external(pkg *ssa.Package) bool {
	return pkg == nil || !strings.HasPrefix(pkg.Pkg.Path(), p.Module)
}

// VM is one worker's executor.
type VM struct {
	*Program
	ctx    *smt.Ctx
	solver *smt.Solver
	ex     *Explorer

	entries map[*ssa.Function]*fnEntry
	methods map[methKey]*fnEntry
	impl    map[implKey]bool
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	modGlob []*ssa.Global
	rtErr   types.Type

	maxSteps  int64
	concLimit int
	maxAlloc  int64
	memPoints bool
	race      bool
	initTh    *thread
}

func newVM(p *Program, ex *Explorer) (*VM, error) {
	vm := &VM{Program: p, ex: ex, entries: map[*ssa.Function]*fnEntry{}, methods: map[methKey]*fnEntry{}, impl: map[implKey]bool{},
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		maxSteps: ex.Cfg.MaxSteps, concLimit: ex.Cfg.ConcLimit, maxAlloc: 1 << 23}
	if vm.maxSteps == 0 {
		vm.maxSteps = 30_000_000
	}
	if vm.concLimit == 0 {
		vm.concLimit = 300
	}
	return vm, vm.newSolver()
}

func (vm *VM) newSolver() error {
	if vm.solver != nil {
		vm.ex.addSolver(vm.solver)
		vm.solver.Close()
	}
	vm.ctx = smt.NewCtx()
	s, err := smt.NewSolver(vm.ctx, vm.ex.Cfg.Solver[0], vm.ex.Cfg.Solver[1:]...)
	if err != nil {
		return err
	}
	vm.solver = s
	return nil
}

func (vm *VM) rtErrType() types.Type {
	if vm.rtErr == nil {
		if sp := vm.pkgs[vm.Models+"/vsym"]; sp != nil {
			if t := sp.Type("RuntimeError"); t != nil {
				vm.rtErr = canon(t.Type())
			}
		}
		if vm.rtErr == nil {
			vm.rtErr = canon(types.Typ[types.String])
		}
	}
	return vm.rtErr
}

func (vm *VM) isVisible(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	pkg := f.Package()
	if pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			pp := f.Object().Pkg().Path()
			return strings.HasPrefix(pp, vm.Module) && !strings.HasPrefix(pp, vm.Models)
		}
		return false
	}
	pp := pkg.Pkg.Path()
	return strings.HasPrefix(pp, vm.Module) && !strings.HasPrefix(pp, vm.Models)
}

func (vm *VM) isExternalInit(fn *ssa.Function) bool {
	return fn.Synthetic == "package initializer" && vm.external(fn.Package())
}

// isSharedStore: a store to a field of a heap object of the code under test.
func (vm *VM) isSharedStore(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), vm.Module) {
		return false
	}
	switch fa.X.(type) {
	case *ssa.Alloc:
		return false
	}
	return true
}

func (vm *VM) posKey(pos token.Pos) string {
	if s, ok := vm.visPos.Load(pos); ok {
		return s.(string)
	}
	p := vm.prog.Fset.Position(pos)
	s := fmt.Sprintf("%s:%d", p.Filename, p.Line)
	vm.visPos.Store(pos, s)
	return s
}

// entry returns the worker's record for fn.
func (vm *VM) entry(fn *ssa.Function) *fnEntry {
	if e, ok := vm.entries[fn]; ok {
		return e
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	e := &fnEntry{fn: fn, name: name}
	vm.entries[fn] = e
	if t, ok := vm.redirects[name]; ok && t != fn {
		e.redirect = vm.entry(t)
	}
	pkgPath := ""
	if fn.Package() != nil {
		pkgPath = fn.Package().Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkgPath = fn.Object().Pkg().Path()
	} else if o := fn.Origin(); o != nil && o.Package() != nil {
		pkgPath = o.Package().Pkg.Path()
	}
	if syncPkgs[pkgPath] {
		m := fn.Name()
		e.visSync = m != "Unlock" && m != "RUnlock" && m != "New" && m != "Add" && m != "Done" && m != "NewCond" && m != "Signal" && m != "Broadcast"
		if pkgPath != "sync" {
			e.visSync = m != "New" && m != "NewBool"
		}
	}
	if f, ok := intrinsics[name]; ok {
		e.intr = f
	} else if f := bigIntrinsic(e, name); f != nil {
		e.intr = f
	} else if fn.Synthetic == "" || fn.Object() != nil {
		e.intr = prefixIntrinsic(vm, pkgPath, name, fn)
	}
	if e.intr == nil && fn.Synthetic == "package initializer" && vm.external(fn.Package()) {
		e.intr = func(th *thread, args []value) value { return nil }
		// the lazily run initialiser uses its own entry (see ensureInit)
	}
	return e
}

func (vm *VM) globalCell(g *ssa.Global) *value {
	if c, ok := vm.globals[g]; ok {
		return c
	}
	c := new(value)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	vm.globals[g] = c
	if vm.external(g.Pkg) {
		vm.ensureInit(g.Pkg)
	} else {
		vm.modGlob = append(vm.modGlob, g)
	}
	return c
}

var noInit = map[string]bool{"syscall": true, "runtime": true, "testing": true, "log": true, "internal/cpu": true, "internal/godebug": true, "net/http": true}

// ensureInit runs the initialiser of a library package, ignoring what it
// cannot execute.
func (vm *VM) ensureInit(pkg *ssa.Package) {
	if vm.inited[pkg] {
		return
	}
	vm.inited[pkg] = true
	if noInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "go.uber.org/zap") {
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				if c, ok := vm.globals[g]; ok {
					*c = poison{"global of uninitialised package " + pkg.Pkg.Path()}
				} else {
					c := new(value)
					*c = poison{"global of uninitialised package " + pkg.Pkg.Path()}
					vm.globals[g] = c
				}
			}
		}
		return
	}
	pkg.Build()
	init := pkg.Func("init")
	if init == nil {
		return
	}
	if vm.initTh == nil {
		p := newPath(vm, workItem{})
		vm.initTh = &thread{p: p, vm: vm, init: true, name: "init", occ: map[string]int{}}
		p.sched = newSched(p)
	}
	th := vm.initTh
	saveTop, saveDepth, saveSteps := th.top, th.depth, th.p.steps
	th.p.steps = 0
	defer func() {
		th.top, th.depth, th.p.steps = saveTop, saveDepth, saveSteps
		if r := recover(); r != nil {
			if _, ok := r.(killed); ok {
				panic(r)
			}
			vm.ex.noteInit(fmt.Sprintf("%s: %v", pkg.Pkg.Path(), r))
		}
	}()
	ent := &fnEntry{fn: init, name: init.String()}
	th.callCode(ent, nil, nil)
}

// ---------------------------------------------------------------- explorer

// Config bounds an exploration.
type Config struct {
	Workers   int
	MaxPaths  int
	MaxTime   time.Duration
	MaxSteps  int64
	ConcLimit int
	Solver    []string
	MaxViol   int
	MemPoints bool
	Race      bool // look for unordered conflicting accesses
	Params    map[string]int
	Seed      int64
}

// Explorer explores every path of one harness.
type Explorer struct {
	Cfg   Config
	Prog  *Program
	Entry *ssa.Function

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []workItem
	active   int
	stop     bool
	t0       time.Time
	deadline time.Time

	Paths       int
	Complete    int
	Infeasible  int
	Aborted     map[string]int // reason -> count
	Steps       int64
	Switches    int64
	Points      int64
	Branches    int64
	Decisions   int64
	Forks       int64
	Asserts     int64
	Discharged  int64
	Queries     int
	NSat        int
	NUnsat      int
	NUnk        int
	SolverTime  time.Duration
	MaxQuery    time.Duration
	Incomplete  map[string]int
	Notes       map[string]int
	InitNotes   map[string]int
	Reached     map[string]int
	Labels      map[string]int
	Violations  []*Violation
	ViolCount   map[string]int
	Samples     []*Sample
	Functions   map[string]int64
	HitLimit    string
	MaxDepth    int
	Wall        time.Duration
	Delayed     int64
	sampleEvery int
}

// Sample is a completed path with the model that follows it.
type Sample struct {
	Model   map[string]uint64
	Order   []string
	Observe []Obs
	Delays  []Delay
	Steps   int64
	Depth   int
}

func NewExplorer(prog *Program, entry *ssa.Function, cfg Config) *Explorer {
	ex := &Explorer{Cfg: cfg, Prog: prog, Entry: entry, Aborted: map[string]int{}, Incomplete: map[string]int{}, Notes: map[string]int{},
		InitNotes: map[string]int{}, Reached: map[string]int{}, Labels: map[string]int{}, ViolCount: map[string]int{}, Functions: map[string]int64{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.Forks++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) incomplete(why string) {
	ex.mu.Lock()
	ex.Incomplete[why]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteInit(s string) {
	ex.mu.Lock()
	ex.InitNotes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) addAssert(label string) {
	ex.mu.Lock()
	ex.Labels[label]++
	ex.Asserts++
	ex.mu.Unlock()
}

func (ex *Explorer) addSolver(s *smt.Solver) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Queries += s.Queries
	ex.NSat += s.NSat
	ex.NUnsat += s.NUnsat
	ex.NUnk += s.NUnk
	ex.SolverTime += s.Time
	if s.MaxTime > ex.MaxQuery {
		ex.MaxQuery = s.MaxTime
	}
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if ex.Cfg.MaxTime > 0 && time.Since(ex.t0) > ex.Cfg.MaxTime && (len(ex.stack) > 0) {
			ex.HitLimit = "time"
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		if ex.Cfg.MaxPaths > 0 && ex.Paths >= ex.Cfg.MaxPaths && len(ex.stack) > 0 {
			ex.HitLimit = "paths"
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(ex.stack); n > 0 {
			it := ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			ex.Paths++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

// Run explores until done or out of budget.
func (ex *Explorer) Run() error {
	ex.t0 = time.Now()
	if d := ex.Cfg.MaxTime; d > 0 { // paths under way may go on for a while
		ex.deadline = ex.t0.Add(d + d/4 + 5*time.Second)
	}
	ex.stack = []workItem{{}}
	n := ex.Cfg.Workers
	if n <= 0 {
		n = 8
	}
	var wg sync.WaitGroup
	var errMu sync.Mutex
	var firstErr error
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var vm *VM
			for {
				it, ok := ex.pop()
				if !ok {
					break
				}
				if vm == nil {
					var err error
					vm, err = newVM(ex.Prog, ex)
					if err != nil {
						errMu.Lock()
						firstErr = err
						errMu.Unlock()
						ex.mu.Lock()
						ex.active--
						ex.stop = true
						ex.mu.Unlock()
						ex.cond.Broadcast()
						return
					}
					vm.memPoints = ex.Cfg.MemPoints
					vm.race = ex.Cfg.Race
				}
				vm.solver.Deadline = ex.deadline
				vm.runPath(it, ex.Entry)
				if vm.ctx.Count > 3_000_000 {
					vm.newSolver()
				}
			}
			if vm != nil {
				ex.addSolver(vm.solver)
				vm.solver.Close()
				ex.mu.Lock()
				for _, e := range vm.entries {
					if e.calls > 0 {
						ex.Functions[e.name] += e.calls
					}
				}
				ex.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	ex.Wall = time.Since(ex.t0)
	return firstErr
}

// runPath executes one path from the start.
func (vm *VM) runPath(it workItem, entry *ssa.Function) {
	p := newPath(vm, it)
	if vm.race {
		p.race = newRaceState()
	}
	s := newSched(p)
	for _, g := range vm.modGlob {
		*vm.globals[g] = zero(g.Type().Underlying().(*types.Pointer).Elem())
	}
	th := s.spawn(nil, func(th *thread) {
		pkg := entry.Package()
		pkg.Build()
		if ini := pkg.Func("init"); ini != nil {
			th.callFn(ini, nil, nil)
		}
		th.callFn(entry, nil, nil)
	})
	th.state = thRunning
	s.cur = th
	th.wake <- struct{}{}
	<-s.done

	// A path that does not end within the step limit may be one that never
	// ends, and one the engine cannot follow to its end may fail beyond that:
	// both are candidates that the replay on the real code has to decide.
	switch r := s.end.reason; {
	case r == "steps":
		p.report("steps", "steps", fmt.Sprintf("does not end within %d steps", vm.maxSteps), p.model, nil)
	case strings.HasPrefix(r, "unsupported: ") && !strings.Contains(r, "solver:"):
		p.report("stopped", strings.TrimPrefix(r, "unsupported: "), "cannot be followed symbolically from here", p.model, nil)
	}
	ex := vm.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.active--
	ex.Steps += p.steps
	ex.Switches += int64(s.Switches)
	ex.Points += int64(p.nPoints)
	ex.Branches += int64(p.nBranches)
	ex.Decisions += int64(len(p.log))
	ex.Delayed += int64(len(s.delays))
	if len(p.log) > ex.MaxDepth {
		ex.MaxDepth = len(p.log)
	}
	for n := range p.notes {
		ex.Notes[n]++
	}
	for r := range p.reach {
		ex.Reached[r]++
	}
	for _, v := range p.violations {
		k := v.Kind + ":" + v.Label
		ex.ViolCount[k]++
		mv := ex.Cfg.MaxViol
		if mv == 0 {
			mv = 6
		}
		if ex.ViolCount[k] <= mv {
			ex.Violations = append(ex.Violations, v)
		}
		if ex.ViolCount[k] >= 40 && v.Kind != "stopped" && v.Kind != "race" {
			ex.stop = true
			ex.HitLimit = "violations"
		}
	}
	switch {
	case s.end.reason == "":
		ex.Complete++
		if len(p.violations) == 0 {
			sm := &Sample{Model: map[string]uint64{}, Order: append([]string(nil), p.order...), Observe: p.observed(p.model), Delays: s.delayTrace(), Steps: p.steps, Depth: len(p.log)}
			for _, n := range p.order {
				sm.Model[n] = p.model[n]
			}
			ex.addSample(sm)
		}
	case s.end.reason == "infeasible":
		ex.Infeasible++
	case s.end.reason == "violation":
		ex.Aborted["violation"]++
	default:
		ex.Aborted[s.end.reason]++
	}
	if ex.active == 0 && len(ex.stack) == 0 || ex.stop {
		ex.cond.Broadcast()
	}
}

// addSample keeps a spread of completed paths.
func (ex *Explorer) addSample(s *Sample) {
	const max = 24
	if ex.sampleEvery == 0 {
		ex.sampleEvery = 1
	}
	if ex.Complete%ex.sampleEvery != 0 {
		return
	}
	ex.Samples = append(ex.Samples, s)
	if len(ex.Samples) > max {
		var half []*Sample
		for i := 0; i < len(ex.Samples); i += 2 {
			half = append(half, ex.Samples[i])
		}
		ex.Samples = half
		ex.sampleEvery *= 2
	}
}

// Summary is a one-line report.
func (ex *Explorer) Summary() string {
	return fmt.Sprintf("paths=%d complete=%d infeasible=%d aborted=%v forks=%d steps=%d points=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs incomplete=%v limit=%q",
		ex.Paths, ex.Complete, ex.Infeasible, ex.Aborted, ex.Forks, ex.Steps, ex.Points, ex.Asserts, ex.Queries, ex.SolverTime.Seconds(), ex.Wall.Seconds(), ex.Incomplete, ex.HitLimit)
}

// FunctionsUnder lists executed functions of packages with the given prefix.
func (ex *Explorer) FunctionsUnder(substr, not string) []string {
	var out []string
	for f := range ex.Functions {
		if strings.Contains(f, substr) && (not == "" || !strings.Contains(f, not)) {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}
