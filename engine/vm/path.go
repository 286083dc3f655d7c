package vm

import (
	"fmt"
	"sort"

	"verif/engine/smt"
)

// A decision fixes one nondeterministic step of a path.
type decision struct {
	kind byte // 'b' branch, 'v' take value, 'x' exclude value
	val  uint64
}

// workItem is a path prefix still to be explored.
type workItem struct {
	prefix []decision
	model  smt.Model
}

// Violation is a failed assertion together with the values that fail it.
type Violation struct {
	Harness string
	Label   string
	Kind    string // assert, panic, deadlock, steps
	Detail  string
	Model   map[string]uint64
	Order   []string // names in creation order
	Delays  []Delay
	Observe []Obs
	Stack   string
}

// Delay says: hold thread Thread at its Occ-th execution of visible point At.
type Delay struct {
	Thread string
	At     string
	Occ    int
	Resume int // resume rank (order in which delayed threads continue)
}

type Obs struct {
	Label string
	Val   string
}

// path is the state of one execution.
type path struct {
	vm     *VM
	prefix []decision
	pos    int
	log    []decision

	pc    []*smt.T
	model smt.Model
	memo  map[*smt.T]uint64

	names  map[string]int
	order  []string
	vars   map[string]*smt.T
	steps  int64
	obs    []obsEntry
	reach  map[string]bool
	notes  map[string]bool
	sched  *sched
	budget int

	violations []*Violation
	nAsserts   int
	nBranches  int
	nPoints    int

	state any // models' per-path host state
	host  map[string]any
	race  *raceState
}

type obsEntry struct {
	label string
	v     value
}

// endPath terminates the current path.
type endPath struct {
	reason string // "", "infeasible", "unsupported: ..", "violation"
}

func newPath(vm *VM, it workItem) *path {
	p := &path{vm: vm, prefix: it.prefix, model: it.model,
		names: map[string]int{}, vars: map[string]*smt.T{}, reach: map[string]bool{}, notes: map[string]bool{}, host: map[string]any{}}
	if p.model == nil {
		p.model = smt.Model{}
	}
	p.memo = map[*smt.T]uint64{}
	return p
}

func (p *path) eval(t *smt.T) uint64 { return smt.Eval(t, p.model, p.memo) }

func (p *path) setModel(m smt.Model) {
	p.model = m
	p.memo = map[*smt.T]uint64{}
}

func (p *path) addPC(t *smt.T) {
	if t.True() {
		return
	}
	p.pc = append(p.pc, t)
}

func (p *path) next() (decision, bool) {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		return d, true
	}
	return decision{}, false
}

func (p *path) record(d decision) {
	p.log = append(p.log, d)
	p.pos++
	p.prefix = nil
	p.prefix = p.log
	p.pos = len(p.log)
}

func (p *path) note(format string, a ...any) { p.notes[fmt.Sprintf(format, a...)] = true }

func (p *path) fork(d decision, m smt.Model) {
	pre := make([]decision, len(p.log)+1)
	copy(pre, p.log)
	pre[len(p.log)] = d
	p.vm.ex.push(workItem{pre, m})
}

func (p *path) check(extra *smt.T, wantModel bool) (smt.Result, smt.Model) {
	r, m, err := p.vm.solver.Check(p.pc, extra, wantModel)
	if err == smt.ErrDeadline {
		ex := p.vm.ex
		ex.mu.Lock()
		ex.HitLimit, ex.stop = "time", true
		ex.mu.Unlock()
		panic(endPath{"time"})
	}
	if err != nil {
		panic(unsupported{"solver: " + err.Error()})
	}
	return r, m
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (p *path) branch(c *smt.T) bool {
	if c.IsConst() {
		return c.C == 1
	}
	ctx := p.vm.ctx
	p.nBranches++
	if d, ok := p.next(); ok {
		if d.kind != 'b' {
			panic(fmt.Sprintf("engine: replay divergence: want branch, have %c at %d", d.kind, p.pos))
		}
		if d.val == 1 {
			p.addPC(c)
			return true
		}
		p.addPC(ctx.Not(c))
		return false
	}
	dir := p.eval(c) == 1
	taken, other := c, ctx.Not(c)
	if !dir {
		taken, other = other, c
	}
	r, m := p.check(other, true)
	switch r {
	case smt.Sat:
		p.fork(decision{'b', b2u(!dir)}, m)
	case smt.Unknown:
		p.note("solver unknown on a branch: one side not explored")
		p.vm.ex.incomplete("solver unknown on a branch")
	}
	p.record(decision{'b', b2u(dir)})
	p.addPC(taken)
	return dir
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// truth decides a bool value.
func (p *path) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *smt.T:
		return p.branch(v)
	}
	panic(unsupported{fmt.Sprintf("condition of host type %T", v)})
}

// assume restricts the path.
func (p *path) assume(c *smt.T) {
	if c.True() {
		return
	}
	if c.False() {
		panic(endPath{"infeasible"})
	}
	if p.pos < len(p.prefix) {
		// replaying a prefix whose model satisfies everything up to its end
		p.addPC(c)
		return
	}
	if p.eval(c) == 1 {
		p.addPC(c)
		return
	}
	r, m := p.check(c, true)
	switch r {
	case smt.Sat:
		p.setModel(m)
		p.addPC(c)
	case smt.Unsat:
		panic(endPath{"infeasible"})
	default:
		p.vm.ex.incomplete("solver unknown on an assumption")
		panic(endPath{"unknown"})
	}
}

// concretize forks over the feasible values of t.
func (p *path) concretize(t *smt.T, limit int, what string) uint64 {
	if t.IsConst() {
		return t.C
	}
	ctx := p.vm.ctx
	for n := 0; ; n++ {
		if d, ok := p.next(); ok {
			eq := ctx.Eq(t, ctx.Const(d.val, t.W))
			if d.kind == 'v' {
				p.addPC(eq)
				return d.val
			}
			if d.kind != 'x' {
				panic(fmt.Sprintf("engine: replay divergence: want value, have %c (%s)", d.kind, what))
			}
			p.addPC(ctx.Not(eq))
			continue
		}
		v := p.eval(t)
		eq := ctx.Eq(t, ctx.Const(v, t.W))
		if n >= limit {
			p.vm.ex.incomplete(fmt.Sprintf("more than %d values for %s", limit, what))
		} else {
			r, m := p.check(ctx.Not(eq), true)
			if r == smt.Sat {
				p.fork(decision{'x', v}, m)
			} else if r == smt.Unknown {
				p.vm.ex.incomplete("solver unknown on value enumeration")
			}
		}
		p.record(decision{'v', v})
		p.addPC(eq)
		return v
	}
}

// fresh returns a new symbolic variable with a path-deterministic name.
func (p *path) fresh(name string, w int) *smt.T {
	k := p.names[name]
	p.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	v := p.vm.ctx.Var(full, w)
	p.vars[full] = v
	p.order = append(p.order, full)
	return v
}

// choose returns a value in [0,n), as a solver variable enumerated by forking.
func (p *path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	w := 8
	if n > 250 {
		w = 32
	}
	v := p.fresh(name, w)
	p.assume(p.vm.ctx.Cmp(smt.OpUlt, v, p.vm.ctx.Const(uint64(n), w)))
	return int(p.concretize(v, n+1, "choice "+name))
}

// assert checks c on every value of the path.
func (p *path) assert(c value, label string, th *thread) {
	p.nAsserts++
	p.vm.ex.addAssert(label)
	switch c := c.(type) {
	case bool:
		if !c {
			p.report("assert", label, "assertion is false on this path", p.model, th)
			panic(endPath{"violation"})
		}
	case *smt.T:
		if c.True() {
			return
		}
		if p.pos < len(p.prefix) {
			// already checked by the run that forked this prefix
			p.addPC(c)
			return
		}
		nc := p.vm.ctx.Not(c)
		r, m := p.check(nc, true)
		switch r {
		case smt.Sat:
			p.report("assert", label, "assertion fails for a value of this path", m, th)
		case smt.Unknown:
			p.vm.ex.incomplete("solver unknown on assertion " + label)
		default:
			p.vm.ex.mu.Lock()
			p.vm.ex.Discharged++
			p.vm.ex.mu.Unlock()
		}
		p.assume(c)
	default:
		panic(unsupported{fmt.Sprintf("assert on host type %T", c)})
	}
}

func (p *path) report(kind, label, detail string, m smt.Model, th *thread) {
	v := &Violation{Kind: kind, Label: label, Detail: detail, Model: map[string]uint64{}, Order: append([]string(nil), p.order...)}
	for _, n := range p.order {
		v.Model[n] = m[n]
	}
	v.Delays = p.sched.delayTrace()
	v.Observe = p.observed(m)
	if th != nil {
		v.Stack = th.stack()
	}
	p.violations = append(p.violations, v)
}

func (p *path) observed(m smt.Model) []Obs {
	memo := map[*smt.T]uint64{}
	var out []Obs
	for _, o := range p.obs {
		out = append(out, Obs{o.label, renderConcrete(o.v, m, memo)})
	}
	return out
}

// renderConcrete prints an observed value under a model, in the same form as
// the native vsym.Observe.
func renderConcrete(v value, m smt.Model, memo map[*smt.T]uint64) string {
	switch v := v.(type) {
	case *smt.T:
		x := smt.Eval(v, m, memo)
		if v.W == 0 {
			return fmt.Sprintf("%v", x == 1)
		}
		return fmt.Sprintf("%d", x)
	case uint64:
		return fmt.Sprintf("%d", v)
	case bool:
		return fmt.Sprintf("%v", v)
	case string:
		return fmt.Sprintf("%q", v)
	case *rope:
		if v.hasOpaque() {
			return "opaque"
		}
		b := make([]byte, len(v.parts))
		for i, x := range v.parts {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *smt.T:
				b[i] = byte(smt.Eval(x, m, memo))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case []value:
		b := make([]byte, len(v))
		for i, x := range v {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *smt.T:
				b[i] = byte(smt.Eval(x, m, memo))
			}
		}
		return fmt.Sprintf("%x", b)
	}
	return render(v)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
