package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opd struct {
	reg int // -1: constant
	c   value
}

type phiMove struct {
	dst int
	src opd
}

type edge struct {
	to    int
	moves []phiMove
}

type code struct {
	fn       *ssa.Function
	name     string
	nregs    int
	np       int
	nfv      int
	blocks   []cblock
	recover  int
	visible  bool
	model    bool // of the harnesses and models
	noSync   bool // its synchronisation orders nothing
	hasDefer bool
}

type cblock struct {
	ins  []func(fr *frame)
	term func(fr *frame) *edge // nil edge: returned
}

type deferred struct {
	call func(th *thread)
	next *deferred
}

type frame struct {
	th        *thread
	vm        *VM
	caller    *frame
	code      *code
	regs      []value
	defers    *deferred
	result    value
	panicking bool
	panic     *goPanic
	recovered bool
	rethrow   any // a non-Go panic (killed, endPath ..)
	pos       token.Pos
	isDefer   bool // called by a deferred call of caller (for recover)
	deferOf   *frame
}

func (fr *frame) get(o *opd) value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

func (th *thread) stack() string {
	var sb strings.Builder
	for fr, n := th.top, 0; fr != nil && n < 40; fr, n = fr.caller, n+1 {
		fmt.Fprintf(&sb, "%s (%s)\n", fr.code.name, th.vm.prog.Fset.Position(fr.pos))
	}
	return sb.String()
}

func (th *thread) stackTop() string {
	for fr := th.top; fr != nil; fr = fr.caller {
		if fr.code.visible {
			p := th.vm.prog.Fset.Position(fr.pos)
			return fmt.Sprintf("%s (%s:%d)", fr.code.name, shortFile(p.Filename), p.Line)
		}
	}
	return ""
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

// callAny calls a function value.
func (th *thread) callAny(f value, args []value) value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			th.gopanic("invalid memory address or nil pointer dereference")
		}
		return th.callFn(f, args, nil)
	case *closure:
		return th.callFn(f.fn, args, f.env)
	case *hostFn:
		return f.f(th, args)
	case *ssa.Builtin:
		return th.callBuiltin(f.Name(), nil, args)
	case poison:
		panic(unsupported{"call of " + f.why})
	case nil:
		th.gopanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("call of host type %T", f)})
}

func (th *thread) callFn(fn *ssa.Function, args []value, env []value) value {
	ent := th.vm.entry(fn)
	if ent.redirect != nil {
		ent = ent.redirect
	}
	if ent.intr != nil {
		ent.calls++
		return ent.intr(th, args)
	}
	return th.callCode(ent, args, env)
}

// callCode runs the compiled body of a function.
func (th *thread) callCode(ent *fnEntry, args []value, env []value) value {
	c := ent.code
	if c == nil {
		c = th.vm.compile(ent)
	}
	ent.calls++
	th.depth++
	if th.depth > 1500 {
		panic(unsupported{"call depth limit in " + c.name})
	}
	fr := &frame{th: th, vm: th.vm, caller: th.top, code: c, regs: make([]value, c.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[c.np:], env)
	th.top = fr
	if Trace && c.visible {
		fmt.Printf("%*s%s> %s %s\n", th.depth, "", th.name, c.name, clip(renderAll(args)))
	}
	if c.hasDefer {
		th.runDeferring(fr)
	} else {
		fr.run(0)
	}
	if Trace && c.visible {
		fmt.Printf("%*s%s< %s = %s\n", th.depth, "", th.name, c.name, clip(render(fr.result)))
	}
	th.top = fr.caller
	th.depth--
	return fr.result
}

// Trace prints the calls of the code under test (development).
var Trace bool

func renderAll(vs []value) string {
	var sb strings.Builder
	for _, v := range vs {
		sb.WriteString(render(v) + ", ")
	}
	return sb.String()
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func (fr *frame) run(b int) {
	th := fr.th
	p := th.p
	for {
		blk := &fr.code.blocks[b]
		p.steps += int64(len(blk.ins)) + 1
		if p.steps > th.vm.maxSteps {
			panic(endPath{"steps"})
		}
		for _, in := range blk.ins {
			in(fr)
		}
		e := blk.term(fr)
		if e == nil {
			return
		}
		if len(e.moves) > 0 {
			if len(e.moves) == 1 {
				m := &e.moves[0]
				fr.regs[m.dst] = fr.get(&m.src)
			} else {
				var tmp [8]value
				t := tmp[:0]
				for i := range e.moves {
					t = append(t, fr.get(&e.moves[i].src))
				}
				for i := range e.moves {
					fr.regs[e.moves[i].dst] = t[i]
				}
			}
		}
		b = e.to
	}
}

// runDeferring runs a function that has defer statements.
func (th *thread) runDeferring(fr *frame) {
	depth := th.depth
	block := 0
	ok := fr.protect(func() { fr.run(block) })
	if ok {
		return
	}
	// panicking: run deferred calls
	th.top = fr
	th.depth = depth
	fr.runDefers()
	if fr.panicking {
		panic(*fr.panic)
	}
	// recovered
	if fr.code.recover >= 0 {
		fr.run(fr.code.recover)
	} else {
		fr.result = zeroResult(fr.code.fn.Signature)
	}
}

func zeroResult(sig *types.Signature) value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

// protect runs f; a Go panic makes it return false with the panic recorded.
func (fr *frame) protect(f func()) (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		if gp, is := r.(goPanic); is {
			fr.panicking = true
			fr.panic = &gp
			return
		}
		panic(r)
	}()
	f()
	return true
}

// runDefers executes the deferred calls in LIFO order.
func (fr *frame) runDefers() {
	th := fr.th
	depth := th.depth
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		if !fr.protect(func() { d.call(th) }) {
			th.top = fr
			th.depth = depth
		}
	}
}

// errorValue builds a runtime error interface value.
func (vm *VM) runtimeError(msg string) value {
	return iface{t: vm.rtErrType(), v: msg}
}

func (th *thread) gopanic(msg string) {
	panic(goPanic{th.vm.runtimeError("runtime error: " + msg), th.stack()})
}

func (th *thread) fatal(msg string) {
	panic(goPanic{th.vm.runtimeError("fatal error: " + msg), th.stack()})
}

func (vm *VM) panicString(th *thread, v value) (s string) {
	i, ok := v.(iface)
	if !ok {
		return render(v)
	}
	if i.t == nil {
		return "nil"
	}
	if str, ok := i.v.(string); ok {
		return str
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(killed); is {
				panic(r)
			}
			s = render(v)
		}
	}()
	return vm.formatIface(th, i, 'v')
}
