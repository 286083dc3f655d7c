package vm

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type fnEntry struct {
	fn       *ssa.Function
	code     *code
	intr     func(th *thread, args []value) value
	redirect *fnEntry
	calls    int64
	noBody   bool
	name     string
	visSync  bool // a synchronisation operation (scheduling point when called from visible code)
}

type compiler struct {
	vm   *VM
	fn   *ssa.Function
	c    *code
	regs map[ssa.Value]int
}

func (vm *VM) compile(ent *fnEntry) *code {
	fn := ent.fn
	if pkg := fn.Package(); pkg != nil { // once; waits for another worker building it
		pkg.Build()
	}
	if fn.Blocks == nil {
		panic(unsupported{"no body for " + ent.name})
	}
	c := &compiler{vm: vm, fn: fn, regs: map[ssa.Value]int{}}
	cd := &code{fn: fn, name: ent.name, np: len(fn.Params), nfv: len(fn.FreeVars), recover: -1}
	cd.visible = vm.isVisible(fn)
	pp := vm.pkgPathOf(fn)
	cd.model = strings.HasPrefix(pp, vm.Models)
	cd.noSync = isNet(pp)
	traced := vm.racy(fn)
	c.c = cd
	n := 0
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				cd.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		cd.recover = fn.Recover.Index
		cd.hasDefer = true
	}
	cd.nregs = n
	cd.blocks = make([]cblock, len(fn.Blocks))
	tolerant := vm.isExternalInit(fn)
	for i, b := range fn.Blocks {
		cb := &cd.blocks[i]
		if Cover != nil && fn.Pkg != nil {
			cb.ins = append(cb.ins, coverPoint(fn, b))
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if t := c.term(b, in); t != nil {
				cb.term = t
				break
			}
			f := c.instr(in)
			if f == nil {
				continue
			}
			if traced {
				f = c.traceAccess(in, f)
			}
			if tolerant {
				f = c.tolerate(in, f)
			}
			cb.ins = append(cb.ins, f)
		}
		if cb.term == nil {
			panic(unsupported{"block without terminator in " + ent.name})
		}
	}
	ent.code = cd
	return cd
}

// tolerate turns a failure of one instruction of a library package initialiser
// into a poisoned value.
func (c *compiler) tolerate(in ssa.Instruction, f func(fr *frame)) func(fr *frame) {
	reg := -1
	if v, ok := in.(ssa.Value); ok {
		reg = c.regs[v]
	}
	return func(fr *frame) {
		th := fr.th
		top, depth := th.top, th.depth
		defer func() {
			if r := recover(); r != nil {
				var why string
				switch r := r.(type) {
				case unsupported:
					why = r.why
				case goPanic:
					why = "panic " + render(r.v)
				case killed, endPath:
					panic(r)
				default:
					why = fmt.Sprint(r)
				}
				th.top, th.depth = top, depth
				if reg >= 0 {
					fr.regs[reg] = poison{"init: " + why}
				}
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						*c.vm.globalCell(g) = poison{"init: " + why}
					}
				}
			}
		}()
		f(fr)
	}
}

func (c *compiler) edge(from *ssa.BasicBlock, to *ssa.BasicBlock, nth int) *edge {
	e := &edge{to: to.Index}
	// predecessor index: nth occurrence of from
	k := -1
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 || k < 0 {
				k = i
				if nth == 0 {
					break
				}
			}
			nth--
			if nth < 0 {
				k = i
				break
			}
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, phiMove{c.regs[phi], c.opd(phi.Edges[k])})
	}
	return e
}

func (c *compiler) term(b *ssa.BasicBlock, in ssa.Instruction) func(fr *frame) *edge {
	switch in := in.(type) {
	case *ssa.Jump:
		e := c.edge(b, b.Succs[0], 0)
		return func(fr *frame) *edge { return e }
	case *ssa.If:
		n2 := 0
		if b.Succs[0] == b.Succs[1] {
			n2 = 1
		}
		e0, e1 := c.edge(b, b.Succs[0], 0), c.edge(b, b.Succs[1], n2)
		x := c.opd(in.Cond)
		pos := in.Cond.Pos()
		return func(fr *frame) *edge {
			v := fr.get(&x)
			cond, ok := v.(bool)
			if !ok {
				fr.pos = pos
				cond = fr.th.p.truth(v)
			}
			if cond {
				return e0
			}
			return e1
		}
	case *ssa.Return:
		rs := make([]opd, len(in.Results))
		for i, r := range in.Results {
			rs[i] = c.opd(r)
		}
		switch len(rs) {
		case 0:
			return func(fr *frame) *edge { return nil }
		case 1:
			r := rs[0]
			return func(fr *frame) *edge { fr.result = fr.get(&r); return nil }
		}
		return func(fr *frame) *edge {
			t := make(tuple, len(rs))
			for i := range rs {
				t[i] = fr.get(&rs[i])
			}
			fr.result = t
			return nil
		}
	case *ssa.Panic:
		x := c.opd(in.X)
		pos := in.Pos()
		return func(fr *frame) *edge {
			fr.pos = pos
			panic(goPanic{fr.get(&x), fr.th.stack()})
		}
	}
	return nil
}

func (c *compiler) opd(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{-1, c.vm.constVal(v)}
	case *ssa.Function:
		return opd{-1, v}
	case *ssa.Global:
		return opd{-1, c.vm.globalCell(v)}
	case *ssa.Builtin:
		return opd{-1, v}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(unsupported{fmt.Sprintf("operand %T %s in %s", v, v, c.fn)})
	}
	return opd{r, nil}
}

func (vm *VM) constVal(k *ssa.Const) value {
	if k.Value == nil {
		return zero(k.Type())
	}
	t := k.Type()
	if _, ok := t.Underlying().(*types.TypeParam); ok {
		panic(unsupported{"constant of type parameter"})
	}
	if ik, ok := intOf(t); ok {
		cv := constant.ToInt(k.Value)
		if cv.Kind() != constant.Int {
			f, _ := constant.Float64Val(k.Value)
			return smt.Mask(uint64(int64(f)), ik.w)
		}
		if i, ok := constant.Int64Val(cv); ok {
			return smt.Mask(uint64(i), ik.w)
		}
		u, _ := constant.Uint64Val(cv)
		return smt.Mask(u, ik.w)
	}
	switch {
	case isBool(t):
		return constant.BoolVal(k.Value)
	case isString(t):
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case isFloat(t):
		f, _ := constant.Float64Val(k.Value)
		return f
	}
	return poison{"constant of type " + t.String()}
}

// term of an integer or bool value.
func (vm *VM) term(v value, w int) *smt.T {
	switch v := v.(type) {
	case uint64:
		return vm.ctx.Const(v, w)
	case bool:
		return vm.ctx.Bool(v)
	case *smt.T:
		return v
	case poison:
		panic(unsupported{"use of " + v.why})
	}
	panic(unsupported{fmt.Sprintf("term of host type %T", v)})
}

// lower turns constant terms back into concrete values.
func lower(t *smt.T) value {
	if t.IsConst() {
		if t.W == 0 {
			return t.C == 1
		}
		return t.C
	}
	return t
}

func asU64(v value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case poison:
		panic(unsupported{"use of " + v.why})
	}
	panic(unsupported{fmt.Sprintf("want concrete integer, have %T", v)})
}

// concInt makes an integer value concrete, forking over its feasible values.
func (th *thread) concInt(v value, what string) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *smt.T:
		return th.p.concretize(v, th.vm.concLimit, what)
	case dataPtr, unsafePtr:
		panic(unsupported{"pointer as integer"})
	case poison:
		panic(unsupported{"use of " + v.why})
	}
	panic(unsupported{fmt.Sprintf("want integer, have %T", v)})
}

var opMap = map[token.Token][2]smt.Op{ // unsigned, signed
	token.ADD: {smt.OpAdd, smt.OpAdd},
	token.SUB: {smt.OpSub, smt.OpSub},
	token.MUL: {smt.OpMul, smt.OpMul},
	token.QUO: {smt.OpUDiv, smt.OpSDiv},
	token.REM: {smt.OpURem, smt.OpSRem},
	token.AND: {smt.OpBAnd, smt.OpBAnd},
	token.OR:  {smt.OpBOr, smt.OpBOr},
	token.XOR: {smt.OpBXor, smt.OpBXor},
}

func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	vm := c.vm
	pos := in.Pos()
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		zf := zeroFn(in.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) {
			p := new(value)
			*p = zf()
			fr.regs[dst] = p
		}
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.Call:
		call := c.call(&in.Call, pos)
		if after := c.afterKey(&in.Call, pos); after != "" {
			return func(fr *frame) {
				fr.pos = pos
				fr.regs[dst] = call(fr)
				fr.th.point(after)
			}
		}
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = call(fr)
		}
	case *ssa.Go:
		prep := c.prepCall(&in.Call, pos)
		vis := c.c.visible
		return func(fr *frame) {
			fr.pos = pos
			run := prep(fr)
			if fr.th.init {
				panic(unsupported{"go statement in package initialisation"})
			}
			s := fr.th.p.sched
			t := s.spawnNamed(fr.th, vis, func(th *thread) { run(th) })
			s.ready(t, true)
		}
	case *ssa.Defer:
		prep := c.prepCall(&in.Call, pos)
		if in.DeferStack != nil {
			return unsup("defer in range-over-func")
		}
		return func(fr *frame) {
			fr.pos = pos
			run := prep(fr)
			fr.defers = &deferred{call: run, next: fr.defers}
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			if fr.defers != nil {
				fr.runDefers()
				if fr.panicking {
					panic(*fr.panic)
				}
			}
		}
	case *ssa.Store:
		a, v := c.opd(in.Addr), c.opd(in.Val)
		pointAt := ""
		if c.c.visible && vm.isSharedStore(in.Addr) {
			pointAt = vm.posKey(pos) + ":m"
		}
		return func(fr *frame) {
			fr.pos = pos
			if pointAt != "" && fr.th.vm.memPoints {
				fr.th.point(pointAt)
			}
			fr.th.storePtr(fr.get(&a), fr.get(&v))
		}
	case *ssa.FieldAddr:
		x := c.opd(in.X)
		f := in.Field
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			v := fr.get(&x)
			if p, ok := v.(*value); ok && p != nil {
				if s, ok := (*p).(structure); ok {
					fr.regs[dst] = &s[f]
					return
				}
			}
			fr.pos = pos
			fr.regs[dst] = fr.th.fieldAddr(v, f, st)
		}
	case *ssa.Field:
		x := c.opd(in.X)
		f := in.Field
		return func(fr *frame) {
			switch s := fr.get(&x).(type) {
			case structure:
				fr.regs[dst] = copyVal(s[f])
			case poison:
				panic(unsupported{"field of " + s.why})
			default:
				panic(unsupported{fmt.Sprintf("field of host type %T in %s", s, c.fn)})
			}
		}
	case *ssa.IndexAddr:
		x, i := c.opd(in.X), c.opd(in.Index)
		ik, _ := intOf(in.Index.Type())
		return func(fr *frame) {
			var arr []value
			switch xv := fr.get(&x).(type) {
			case []value:
				arr = xv
			case *value:
				fr.pos = pos
				if xv == nil {
					fr.th.gopanic("invalid memory address or nil pointer dereference")
				}
				a, ok := (*xv).(array)
				if !ok {
					panic(unsupported{fmt.Sprintf("index of pointer to host type %T", *xv)})
				}
				arr = a
			case *castPtr:
				fr.pos = pos
				a, ok := fr.th.loadPtr(xv, true).(array)
				if !ok {
					panic(unsupported{"index through cast pointer"})
				}
				arr = a
			case poison:
				panic(unsupported{"index of " + xv.why})
			default:
				panic(unsupported{fmt.Sprintf("index of host type %T", xv)})
			}
			iv := fr.get(&i)
			if k, ok := iv.(uint64); ok {
				n := smt.SExt64(k, ik.w)
				if !ik.signed {
					n = int64(k)
				}
				if n < 0 || n >= int64(len(arr)) {
					fr.pos = pos
					fr.th.gopanic(fmt.Sprintf("index out of range [%d] with length %d", n, len(arr)))
				}
				fr.regs[dst] = &arr[n]
				return
			}
			fr.pos = pos
			fr.regs[dst] = fr.th.symIndexAddr(arr, iv, ik)
		}
	case *ssa.Index:
		x, i := c.opd(in.X), c.opd(in.Index)
		ik, _ := intOf(in.Index.Type())
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = fr.th.index(fr.get(&x), fr.get(&i), ik)
		}
	case *ssa.Lookup:
		x, i := c.opd(in.X), c.opd(in.Index)
		ik, _ := intOf(in.Index.Type())
		ok2 := in.CommaOk
		var elem types.Type
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			elem = m.Elem()
		}
		return func(fr *frame) {
			fr.pos = pos
			xv := fr.get(&x)
			if elem == nil {
				fr.regs[dst] = fr.th.index(xv, fr.get(&i), ik)
				return
			}
			m, isM := xv.(*hmap)
			if !isM {
				panic(unsupported{"lookup in " + render(xv)})
			}
			v, found := m.lookup(fr.th, fr.get(&i))
			if !found {
				v = zero(elem)
			} else {
				v = copyVal(v)
			}
			if ok2 {
				fr.regs[dst] = tuple{v, found}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.opd(in.Map), c.opd(in.Key), c.opd(in.Value)
		return func(fr *frame) {
			fr.pos = pos
			hm, ok := fr.get(&m).(*hmap)
			if !ok {
				panic(unsupported{"update of " + render(fr.get(&m))})
			}
			if hm == nil {
				fr.th.gopanic("assignment to entry in nil map")
			}
			hm.set(fr.th, copyVal(fr.get(&k)), copyVal(fr.get(&v)))
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[dst] = newHmap() }
	case *ssa.MakeChan:
		sz := c.opd(in.Size)
		et := in.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			fr.pos = pos
			n := int64(fr.th.concInt(fr.get(&sz), "channel size"))
			if n < 0 {
				fr.th.gopanic("makechan: size out of range")
			}
			fr.regs[dst] = &vchan{cap: int(n), zero: zero(et)}
		}
	case *ssa.MakeSlice:
		l, cp := c.opd(in.Len), c.opd(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lk, _ := intOf(in.Len.Type())
		return func(fr *frame) {
			fr.pos = pos
			n := toInt(fr.th.concInt(fr.get(&l), "slice length"), lk)
			m := n
			if cp != l {
				m = toInt(fr.th.concInt(fr.get(&cp), "slice capacity"), lk)
			}
			if n < 0 || n > m {
				fr.th.gopanic("makeslice: len out of range")
			}
			if m > fr.vm.maxAlloc {
				fr.th.p.note("allocation of %d elements beyond the engine's limit", m)
				panic(unsupported{"allocation too large"})
			}
			s := make([]value, m)
			fillZero(s, et)
			fr.regs[dst] = s[:n]
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.SliceToArrayPointer:
		x := c.opd(in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			fr.pos = pos
			s, ok := fr.get(&x).([]value)
			if !ok {
				panic(unsupported{"slice to array pointer of " + render(fr.get(&x))})
			}
			if int64(len(s)) < n {
				fr.th.gopanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if s == nil {
				fr.regs[dst] = (*value)(nil)
				return
			}
			p := new(value)
			*p = array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.MakeInterface:
		x := c.opd(in.X)
		t := canon(in.X.Type())
		if _, ok := in.X.Type().Underlying().(*types.TypeParam); ok {
			return unsup("MakeInterface of type parameter")
		}
		return func(fr *frame) {
			v := fr.get(&x)
			if p, ok := v.(poison); ok {
				panic(unsupported{"use of " + p.why})
			}
			fr.regs[dst] = iface{t, copyVal(v)}
		}
	case *ssa.ChangeInterface:
		x := c.opd(in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.ChangeType:
		x := c.opd(in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.Convert:
		conv := c.convert(in.X.Type(), in.Type())
		x := c.opd(in.X)
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = conv(fr.th, fr.get(&x))
		}
	case *ssa.MultiConvert:
		conv := c.convert(in.X.Type(), in.Type())
		x := c.opd(in.X)
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = conv(fr.th, fr.get(&x))
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		bs := make([]opd, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = c.opd(b)
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = &closure{fn, env}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Extract:
		x := c.opd(in.Tuple)
		idx := in.Index
		return func(fr *frame) {
			t, ok := fr.get(&x).(tuple)
			if !ok {
				if p, is := fr.get(&x).(poison); is {
					panic(unsupported{"use of " + p.why})
				}
				panic(unsupported{fmt.Sprintf("extract from host type %T in %s", fr.get(&x), c.fn)})
			}
			fr.regs[dst] = t[idx]
		}
	case *ssa.Range:
		x := c.opd(in.X)
		return func(fr *frame) {
			fr.pos = pos
			switch v := fr.get(&x).(type) {
			case *hmap:
				fr.regs[dst] = &iter{m: v}
			case string, *rope:
				b, ok := strBytes(v)
				if !ok {
					panic(unsupported{"range over opaque string"})
				}
				fr.regs[dst] = &iter{s: b, str: true}
			default:
				panic(unsupported{fmt.Sprintf("range over host type %T", v)})
			}
		}
	case *ssa.Next:
		x := c.opd(in.Iter)
		tt := in.Type().(*types.Tuple)
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = fr.get(&x).(*iter).next(fr.th, tt)
		}
	case *ssa.Send:
		ch, v := c.opd(in.Chan), c.opd(in.X)
		at := c.pointKey(pos)
		return func(fr *frame) {
			fr.pos = pos
			if at != "" {
				fr.th.point(at)
			}
			fr.th.chanSend(asChan(fr.get(&ch)), copyVal(fr.get(&v)))
		}
	case *ssa.Select:
		return c.selectInstr(in, dst)
	}
	return unsup(fmt.Sprintf("instruction %T", in))
}

func asChan(v value) *vchan {
	switch v := v.(type) {
	case *vchan:
		return v
	case poison:
		panic(unsupported{"channel from " + v.why})
	}
	panic(unsupported{fmt.Sprintf("channel of host type %T", v)})
}

func (c *compiler) pointKey(pos token.Pos) string {
	if !c.c.visible {
		return ""
	}
	return c.vm.posKey(pos)
}

// afterKey names the scheduling point behind the release of a lock: what follows
// may use data it no longer protects before the next visible operation.
func (c *compiler) afterKey(call *ssa.CallCommon, pos token.Pos) string {
	if !c.c.visible {
		return ""
	}
	name, pkg := "", ""
	if call.IsInvoke() {
		name = call.Method.Name()
		if n, ok := call.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	} else if fn, ok := call.Value.(*ssa.Function); ok && fn.Signature.Recv() != nil {
		name = fn.Name()
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = fn.Object().Pkg().Path()
		}
	}
	if pkg != "sync" || name != "Unlock" && name != "RUnlock" {
		return ""
	}
	return c.pointKey(pos) + ":u"
}

func toInt(u uint64, k intKind) int64 {
	if k.w == 0 {
		return int64(u)
	}
	if k.signed {
		return smt.SExt64(u, k.w)
	}
	if u > math.MaxInt64 {
		return -1
	}
	return int64(u)
}

func unsup(why string) func(fr *frame) {
	return func(fr *frame) { panic(unsupported{why + " in " + fr.code.name}) }
}

func zeroFn(t types.Type) func() value {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		_ = u
		return func() value { return zero(t) }
	}
	z := zero(t)
	return func() value { return z }
}

// ---------------------------------------------------------------- calls

var syncPkgs = map[string]bool{"sync": true, "sync/atomic": true, "go.uber.org/atomic": true, "github.com/VictoriaMetrics/fastcache": true}

// prepCall evaluates callee and arguments now and returns the call to make.
func (c *compiler) prepCall(call *ssa.CallCommon, pos token.Pos) func(fr *frame) func(th *thread) {
	args := make([]opd, len(call.Args))
	for i, a := range call.Args {
		args[i] = c.opd(a)
	}
	if call.IsInvoke() {
		recv := c.opd(call.Value)
		m := call.Method
		return func(fr *frame) func(th *thread) {
			r := fr.get(&recv)
			av := make([]value, 0, len(args)+1)
			i := asIface(r)
			if i.t == nil {
				fr.th.gopanic("invalid memory address or nil pointer dereference")
			}
			av = append(av, i.v)
			for k := range args {
				av = append(av, copyVal(fr.get(&args[k])))
			}
			return func(th *thread) { th.invoke(i.t, m, av) }
		}
	}
	fnOpd := c.opd(call.Value)
	sig := call.Signature()
	argTypes := make([]types.Type, len(call.Args))
	for i, a := range call.Args {
		argTypes[i] = a.Type()
	}
	_ = sig
	return func(fr *frame) func(th *thread) {
		f := fr.get(&fnOpd)
		av := make([]value, len(args))
		for k := range args {
			av[k] = copyVal(fr.get(&args[k]))
		}
		if b, ok := f.(*ssa.Builtin); ok {
			return func(th *thread) { th.callBuiltin(b.Name(), argTypes, av) }
		}
		return func(th *thread) { th.callAny(f, av) }
	}
}

func asIface(v value) iface {
	switch v := v.(type) {
	case iface:
		return v
	case poison:
		panic(unsupported{"interface from " + v.why})
	}
	panic(unsupported{fmt.Sprintf("interface of host type %T", v)})
}

func (c *compiler) call(call *ssa.CallCommon, pos token.Pos) func(fr *frame) value {
	vm := c.vm
	args := make([]opd, len(call.Args))
	for i, a := range call.Args {
		args[i] = c.opd(a)
	}
	getArgs := func(fr *frame) []value {
		av := make([]value, len(args))
		for k := range args {
			v := fr.get(&args[k])
			switch v.(type) {
			case structure, array:
				v = copyVal(v)
			}
			av[k] = v
		}
		return av
	}
	if call.IsInvoke() {
		recv := c.opd(call.Value)
		m := call.Method
		at := ""
		if n, ok := call.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			pp := n.Obj().Pkg().Path()
			if pp == "sync" || pp == "net" && n.Obj().Name() == "Conn" && m.Name() == "Close" {
				at = c.pointKey(pos)
			}
		}
		return func(fr *frame) value {
			i := asIface(fr.get(&recv))
			if i.t == nil {
				fr.th.gopanic("invalid memory address or nil pointer dereference")
			}
			if at != "" {
				fr.th.point(at)
			}
			av := make([]value, len(args)+1)
			av[0] = i.v
			for k := range args {
				av[k+1] = copyVal(fr.get(&args[k]))
			}
			return fr.th.invoke(i.t, m, av)
		}
	}
	switch callee := call.Value.(type) {
	case *ssa.Builtin:
		name := callee.Name()
		types_ := make([]types.Type, len(call.Args))
		for i, a := range call.Args {
			types_[i] = a.Type()
		}
		at := ""
		if name == "close" {
			at = c.pointKey(pos)
		}
		if name == "append" && len(args) == 2 {
			return c.appendCall(types_, args)
		}
		return func(fr *frame) value {
			if at != "" {
				fr.th.point(at)
			}
			return fr.th.callBuiltin(name, types_, getArgs(fr))
		}
	case *ssa.Function:
		ent := vm.entry(callee)
		at := ""
		if ent.visSync {
			at = c.pointKey(pos)
		}
		if ent.redirect != nil {
			ent = ent.redirect
		}
		if c.vm.isExternalInit(c.fn) && callee.Name() == "init" && callee.Synthetic != "" {
			return func(fr *frame) value { return nil } // dependencies are initialised on demand
		}
		if ent.intr != nil {
			return func(fr *frame) value {
				if at != "" {
					fr.th.point(at)
				}
				ent.calls++
				return ent.intr(fr.th, getArgs(fr))
			}
		}
		return func(fr *frame) value {
			if at != "" {
				fr.th.point(at)
			}
			return fr.th.callCode(ent, getArgs(fr), nil)
		}
	}
	fnOpd := c.opd(call.Value)
	return func(fr *frame) value {
		return fr.th.callAny(fr.get(&fnOpd), getArgs(fr))
	}
}

// invoke calls method m on a value of dynamic type t; av[0] is the receiver.
func (th *thread) invoke(t types.Type, m *types.Func, av []value) value {
	vm := th.vm
	ent := vm.methodEntry(t, m)
	if ent.redirect != nil {
		ent = ent.redirect
	}
	if ent.intr != nil {
		ent.calls++
		return ent.intr(th, av)
	}
	return th.callCode(ent, av, nil)
}

type methKey struct {
	t types.Type
	m string
}

func (vm *VM) methodEntry(t types.Type, m *types.Func) *fnEntry {
	k := methKey{t, m.Name()}
	if !m.Exported() && m.Pkg() != nil {
		k.m = m.Pkg().Path() + "." + k.m
	}
	if e, ok := vm.methods[k]; ok {
		return e
	}
	fn := vm.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{fmt.Sprintf("method %s of %s not found", m.Name(), t)})
	}
	e := vm.entry(fn)
	vm.methods[k] = e
	return e
}

// ---------------------------------------------------------------- select

func (c *compiler) selectInstr(in *ssa.Select, dst int) func(fr *frame) {
	type st struct {
		ch, val opd
		send    bool
		elem    types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{ch: c.opd(s.Chan), send: s.Dir == types.SendOnly, elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.val = c.opd(s.Send)
		}
		sts = append(sts, x)
	}
	pos := in.Pos()
	at := c.pointKey(pos)
	blocking := in.Blocking
	return func(fr *frame) {
		fr.pos = pos
		if at != "" {
			fr.th.point(at)
		}
		cs := make([]selCase, len(sts))
		for i, s := range sts {
			cs[i].ch = asChan(fr.get(&s.ch))
			cs[i].send = s.send
			if s.send {
				cs[i].val = copyVal(fr.get(&s.val))
			}
		}
		k, v, ok := fr.th.selectOp(cs, blocking)
		r := tuple{uint64(int64(k)), ok}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == k {
				r = append(r, v)
			} else {
				r = append(r, zero(s.elem))
			}
		}
		fr.regs[dst] = r
	}
}

// ---------------------------------------------------------------- type assert

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) func(fr *frame) {
	x := c.opd(in.X)
	at := in.AssertedType
	commaOk := in.CommaOk
	pos := in.Pos()
	it, isIface := at.Underlying().(*types.Interface)
	ct := canon(at)
	vm := c.vm
	return func(fr *frame) {
		fr.pos = pos
		i := asIface(fr.get(&x))
		ok := false
		if i.t != nil {
			if isIface {
				ok = vm.implements(i.t, it)
			} else {
				ok = i.t == ct
			}
		}
		var v value
		if ok {
			if isIface {
				v = i
			} else {
				v = copyVal(i.v)
			}
		}
		if !ok {
			if !commaOk {
				what := "nil"
				if i.t != nil {
					what = i.t.String()
				}
				fr.th.panicTypeAssert(fmt.Sprintf("interface conversion: interface is %s, not %s", what, at))
			}
			v = zero(at)
		}
		if commaOk {
			fr.regs[dst] = tuple{v, ok}
		} else {
			fr.regs[dst] = v
		}
	}
}

func (th *thread) panicTypeAssert(msg string) {
	panic(goPanic{th.vm.runtimeError(msg), th.stack()})
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (vm *VM) implements(t types.Type, it *types.Interface) bool {
	if _, ok := t.(*rtypeMarker); ok {
		return true
	}
	k := implKey{t, it}
	if r, ok := vm.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	vm.impl[k] = r
	return r
}

type rtypeMarker struct{ types.Type }

// ---------------------------------------------------------------- convert

func (c *compiler) convert(from, to types.Type) func(th *thread, v value) value {
	vm := c.vm
	fu, tu := from.Underlying(), to.Underlying()
	fi, fInt := intOf(from)
	ti, tInt := intOf(to)
	switch {
	case fInt && tInt:
		isUptr := false
		if b := basicOf(from); b != nil && b.Kind() == types.Uintptr {
			isUptr = true
		}
		_ = isUptr
		return func(th *thread, v value) value {
			switch v := v.(type) {
			case uint64:
				return convInt(v, fi, ti)
			case *smt.T:
				return lower(convTerm(vm.ctx, v, fi, ti))
			case dataPtr, unsafePtr:
				return v
			case poison:
				panic(unsupported{"use of " + v.why})
			}
			panic(unsupported{fmt.Sprintf("convert %s from host type %T", to, v)})
		}
	case fInt && isFloat(to):
		return func(th *thread, v value) value {
			u := th.concInt(v, "int to float")
			var f float64
			if fi.signed {
				f = float64(smt.SExt64(u, fi.w))
			} else {
				f = float64(u)
			}
			if basicOf(to).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	case isFloat(from) && tInt:
		return func(th *thread, v value) value {
			f, ok := v.(float64)
			if !ok {
				panic(unsupported{"symbolic float"})
			}
			if ti.signed {
				return smt.Mask(uint64(int64(f)), ti.w)
			}
			return smt.Mask(uint64(f), ti.w)
		}
	case isFloat(from) && isFloat(to):
		return func(th *thread, v value) value {
			f, ok := v.(float64)
			if !ok {
				panic(unsupported{"float"})
			}
			if basicOf(to).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
	case isString(from) && isString(to):
		return func(th *thread, v value) value { return v }
	case fInt && isString(to):
		return func(th *thread, v value) value {
			return string(rune(smt.SExt64(th.concInt(v, "rune"), fi.w)))
		}
	case isString(to):
		if s, ok := fu.(*types.Slice); ok {
			if k, _ := intOf(s.Elem()); k.w == 8 {
				return func(th *thread, v value) value {
					sv, ok := v.([]value)
					if !ok {
						panic(unsupported{"string of " + render(v)})
					}
					return mkString(sv)
				}
			}
			return func(th *thread, v value) value {
				var b strings.Builder
				for _, x := range v.([]value) {
					b.WriteRune(rune(smt.SExt64(th.concInt(x, "rune"), 32)))
				}
				return b.String()
			}
		}
	case isString(from):
		if s, ok := tu.(*types.Slice); ok {
			if k, _ := intOf(s.Elem()); k.w == 8 {
				return func(th *thread, v value) value {
					b, ok := strBytes(v)
					if !ok {
						panic(unsupported{"bytes of opaque string"})
					}
					n := len(b)
					cp := roundUp(uint64(n), 1)
					out := make([]value, cp)
					copy(out, b)
					for i := n; i < int(cp); i++ {
						out[i] = uint64(0)
					}
					return out[:n]
				}
			}
			return func(th *thread, v value) value {
				s, ok := v.(string)
				if !ok {
					panic(unsupported{"runes of symbolic string"})
				}
				var out []value
				for _, r := range s {
					out = append(out, uint64(uint32(r)))
				}
				return out
			}
		}
	}
	fb, tb := basicOf(from), basicOf(to)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return func(th *thread, v value) value {
			switch v := v.(type) {
			case unsafePtr:
				return v
			case dataPtr:
				return unsafePtr{v}
			case uint64:
				if v == 0 {
					return unsafePtr{}
				}
				panic(unsupported{"integer to unsafe.Pointer"})
			case *value:
				if v == nil {
					return unsafePtr{}
				}
			}
			return unsafePtr{v}
		}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if tb != nil && tb.Kind() == types.Uintptr {
			return func(th *thread, v value) value {
				if u, ok := v.(unsafePtr); ok && u.v == nil {
					return uint64(0)
				}
				return v
			}
		}
		elem := tu.(*types.Pointer).Elem()
		return func(th *thread, v value) value {
			u, ok := v.(unsafePtr)
			if !ok {
				panic(unsupported{fmt.Sprintf("unsafe pointer of host type %T", v)})
			}
			switch p := u.v.(type) {
			case nil:
				return (*value)(nil)
			case dataPtr:
				return &castPtr{p, elem}
			case *value:
				return th.castTo(p, elem)
			case *castPtr:
				return &castPtr{p.p, elem}
			}
			panic(unsupported{fmt.Sprintf("unsafe cast from %T", u.v)})
		}
	}
	if types.Identical(fu, tu) {
		return func(th *thread, v value) value { return v }
	}
	if fi, ok := fu.(*types.Slice); ok {
		if ta, ok := tu.(*types.Array); ok {
			_ = fi
			n := ta.Len()
			return func(th *thread, v value) value {
				s := v.([]value)
				if int64(len(s)) < n {
					th.gopanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
				}
				return copyVal(array(s[:n]))
			}
		}
	}
	return func(th *thread, v value) value {
		panic(unsupported{fmt.Sprintf("conversion %s -> %s", from, to)})
	}
}

// castTo reinterprets the cell p as a value of type elem.
func (th *thread) castTo(p *value, elem types.Type) value {
	// same representation?
	switch elem.Underlying().(type) {
	case *types.Struct:
		if s, ok := (*p).(structure); ok && len(s) == elem.Underlying().(*types.Struct).NumFields() {
			return p
		}
	case *types.Slice:
		if _, ok := (*p).([]value); ok {
			return p
		}
	case *types.Basic:
		switch (*p).(type) {
		case uint64, bool, float64:
			if basicOf(elem).Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 {
				return p
			}
		case string, *rope:
			if isString(elem) {
				return p
			}
		}
	case *types.Pointer:
		switch (*p).(type) {
		case *value, unsafePtr:
			return p
		}
	case *types.Array:
		if a, ok := (*p).(array); ok && int64(len(a)) == elem.Underlying().(*types.Array).Len() {
			return p
		}
	}
	return &castPtr{p, elem}
}

func convInt(v uint64, f, t intKind) uint64 {
	if f.signed && t.w > f.w {
		return smt.Mask(uint64(smt.SExt64(v, f.w)), t.w)
	}
	return smt.Mask(v, t.w)
}

func convTerm(ctx *smt.Ctx, v *smt.T, f, t intKind) *smt.T {
	switch {
	case t.w == f.w:
		return v
	case t.w < f.w:
		return ctx.Extract(v, t.w-1, 0)
	case f.signed:
		return ctx.SExt(v, t.w)
	}
	return ctx.ZExt(v, t.w)
}

var _ = big.NewInt
