package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// ---------------------------------------------------------------- memory

func (th *thread) nilDeref() {
	th.gopanic("invalid memory address or nil pointer dereference")
}

func (th *thread) loadPtr(v value, agg bool) value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			th.nilDeref()
		}
		if !agg {
			return *p
		}
		return copyVal(*p)
	case *symPtr:
		return th.symLoad(p)
	case *castPtr:
		return th.castLoad(p)
	case poison:
		panic(unsupported{"load through " + p.why})
	case nil:
		th.nilDeref()
	}
	panic(unsupported{fmt.Sprintf("load through host type %T", v)})
}

func (th *thread) storePtr(pv, v value) {
	switch p := pv.(type) {
	case *value:
		if p == nil {
			th.nilDeref()
		}
		storeInto(p, v)
		return
	case *symPtr:
		ctx := th.vm.ctx
		if len(p.arr) == 0 {
			return
		}
		for i := range p.arr {
			cond := ctx.Eq(p.idx, ctx.Const(uint64(i), 64))
			p.arr[i] = th.iteVal(cond, v, p.arr[i])
		}
		return
	case *castPtr:
		if c, ok := p.p.(dataPtr); ok {
			if a, ok := v.(array); ok && len(c.s) >= len(a) {
				copy(c.s, a)
				return
			}
			if _, ok := v.(structure); !ok && len(c.s) > 0 {
				c.s[0] = v
				return
			}
		}
	case poison:
		panic(unsupported{"store through " + p.why})
	}
	panic(unsupported{fmt.Sprintf("store through host type %T", pv)})
}

func (th *thread) castLoad(p *castPtr) value {
	switch c := p.p.(type) {
	case dataPtr:
		switch u := p.to.Underlying().(type) {
		case *types.Array:
			n := int(u.Len())
			if n > cap(c.s) {
				panic(goPanic{th.vm.runtimeError("runtime error: unsafe read beyond a slice"), th.stack()})
			}
			return copyVal(array(c.s[:n]))
		case *types.Basic:
			if len(c.s) > 0 {
				return c.s[0]
			}
		}
	case *value:
		if c == nil {
			th.nilDeref()
		}
		if s, ok := (*c).([]value); ok {
			if isString(p.to) { // *(*string)(unsafe.Pointer(&bytes))
				return mkString(s)
			}
		}
		switch (*c).(type) {
		case string, *rope:
			if sl, ok := p.to.Underlying().(*types.Slice); ok {
				_ = sl
				if b, ok := strBytes(*c); ok {
					return append([]value(nil), b...)
				}
			}
		}
		if canon(p.to) == nil {
			return *c
		}
	}
	panic(unsupported{fmt.Sprintf("unsafe load of %s from %T", p.to, p.p)})
}

func (th *thread) fieldAddr(v value, f int, st types.Type) value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			th.nilDeref()
		}
		switch s := (*p).(type) {
		case structure:
			return &s[f]
		case poison:
			panic(unsupported{"field of " + s.why})
		}
		panic(unsupported{fmt.Sprintf("field address in host type %T (%s)", *p, st)})
	case *symPtr:
		i := th.p.concretize(p.idx, th.vm.concLimit, "index of aggregate")
		return th.fieldAddr(&p.arr[i], f, st)
	case *castPtr:
		// reflect.SliceHeader / StringHeader views
		if c, ok := p.p.(*value); ok && c != nil {
			nm := p.to.String()
			if nm == "reflect.SliceHeader" || nm == "reflect.StringHeader" {
				var s []value
				switch x := (*c).(type) {
				case []value:
					s = x
				default:
					b, ok := strBytes(x)
					if !ok {
						panic(unsupported{"header of opaque string"})
					}
					s = b
				}
				cell := new(value)
				switch f {
				case 0:
					*cell = dataPtr{s}
				case 1:
					*cell = uint64(len(s))
				case 2:
					*cell = uint64(cap(s))
				}
				return cell
			}
		}
	case poison:
		panic(unsupported{"field of " + p.why})
	case nil:
		th.nilDeref()
	}
	panic(unsupported{fmt.Sprintf("field address through host type %T (%s)", v, st)})
}

// rangeCheck decides 0 <= idx < n for a symbolic index and returns it as a
// 64-bit term.
func (th *thread) rangeCheck(iv value, ik intKind, n int) *smt.T {
	ctx := th.vm.ctx
	t := th.vm.term(iv, ik.w)
	w := t
	if ik.w < 64 {
		if ik.signed {
			w = ctx.SExt(t, 64)
		} else {
			w = ctx.ZExt(t, 64)
		}
	}
	ok := ctx.Cmp(smt.OpUlt, w, ctx.Const(uint64(n), 64))
	if !th.p.truth(lower(ok)) {
		th.gopanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return w
}

func (th *thread) symIndexAddr(arr []value, iv value, ik intKind) value {
	if p, ok := iv.(poison); ok {
		panic(unsupported{"use of " + p.why})
	}
	idx := th.rangeCheck(iv, ik, len(arr))
	if idx.IsConst() {
		return &arr[idx.C]
	}
	if len(arr) == 1 {
		return &arr[0]
	}
	return &symPtr{arr, idx}
}

func mergeable(v value) bool {
	switch v.(type) {
	case uint64, bool, *smt.T:
		return true
	}
	return false
}

func (th *thread) symLoad(p *symPtr) value {
	return th.symSelect(p.arr, p.idx)
}

// symSelect is arr[idx] for an in-range symbolic idx.
func (th *thread) symSelect(arr []value, idx *smt.T) value {
	ctx := th.vm.ctx
	ok := true
	for _, x := range arr {
		if !mergeable(x) {
			ok = false
			break
		}
	}
	if !ok || len(arr) > 4096 {
		i := th.p.concretize(idx, th.vm.concLimit, "index")
		return copyVal(arr[i])
	}
	// width
	w := -1
	for _, x := range arr {
		switch x := x.(type) {
		case *smt.T:
			w = x.W
		case bool:
			w = 0
		}
		if w >= 0 {
			break
		}
	}
	if w < 0 {
		w = 64
	}
	// group equal values to keep the chain short
	var r *smt.T
	for i := len(arr) - 1; i >= 0; i-- {
		x := th.vm.term(arr[i], w)
		if r == nil {
			r = x
			continue
		}
		if r == x {
			continue
		}
		r = ctx.Ite(ctx.Eq(idx, ctx.Const(uint64(i), 64)), x, r)
	}
	return lower(r)
}

func (th *thread) iteVal(c *smt.T, a, b value) value {
	if c.IsConst() {
		if c.C == 1 {
			return a
		}
		return b
	}
	if mergeable(a) && mergeable(b) {
		w := -1
		for _, x := range []value{a, b} {
			switch x := x.(type) {
			case *smt.T:
				w = x.W
			case bool:
				w = 0
			}
		}
		if w < 0 {
			if a == b {
				return a
			}
			w = 64
		}
		return lower(th.vm.ctx.Ite(c, th.vm.term(a, w), th.vm.term(b, w)))
	}
	if th.p.branch(c) {
		return a
	}
	return b
}

func (th *thread) index(x, iv value, ik intKind) value {
	switch s := x.(type) {
	case string, *rope:
		if c, ok := s.(string); ok {
			if k, ok := iv.(uint64); ok {
				n := toInt(k, ik)
				if n < 0 || n >= int64(len(c)) {
					th.gopanic(fmt.Sprintf("index out of range [%d] with length %d", n, len(c)))
				}
				return uint64(c[n])
			}
		}
		b, ok := strBytes(s)
		if !ok {
			panic(unsupported{"index of opaque string"})
		}
		v := th.index(array(b), iv, ik)
		if t, ok := v.(*smt.T); ok && t.W > 8 {
			return lower(th.vm.ctx.Extract(t, 7, 0))
		}
		return v
	case array:
		if k, ok := iv.(uint64); ok {
			n := toInt(k, ik)
			if n < 0 || n >= int64(len(s)) {
				th.gopanic(fmt.Sprintf("index out of range [%d] with length %d", n, len(s)))
			}
			return s[n]
		}
		idx := th.rangeCheck(iv, ik, len(s))
		if idx.IsConst() {
			return s[idx.C]
		}
		return th.symSelect(s, idx)
	case poison:
		panic(unsupported{"index of " + s.why})
	}
	panic(unsupported{fmt.Sprintf("index of host type %T", x)})
}

// ---------------------------------------------------------------- unop

func (c *compiler) unop(in *ssa.UnOp, dst int) func(fr *frame) {
	x := c.opd(in.X)
	pos := in.Pos()
	vm := c.vm
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			cell := vm.globalCell(g)
			return func(fr *frame) {
				v := *cell
				switch v.(type) {
				case structure, array:
					v = copyVal(v)
				case poison:
					panic(unsupported{"global " + g.String() + ": " + v.(poison).why})
				}
				fr.regs[dst] = v
			}
		}
		resT := in.Type()
		ik, isInt := intOf(resT)
		return func(fr *frame) {
			pv := fr.get(&x)
			if p, ok := pv.(*value); ok && p != nil {
				v := *p
				switch v.(type) {
				case structure, array:
					v = copyVal(v)
				}
				fr.regs[dst] = v
				return
			}
			fr.pos = pos
			v := fr.th.loadPtr(pv, true)
			if isInt {
				if t, ok := v.(*smt.T); ok && t.W > ik.w {
					v = lower(vm.ctx.Extract(t, ik.w-1, 0))
				}
			}
			fr.regs[dst] = v
		}
	case token.ARROW:
		commaOk := in.CommaOk
		at := c.pointKey(pos)
		return func(fr *frame) {
			fr.pos = pos
			if at != "" {
				fr.th.point(at)
			}
			v, ok := fr.th.chanRecv(asChan(fr.get(&x)))
			if commaOk {
				fr.regs[dst] = tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case bool:
				fr.regs[dst] = !v
			case *smt.T:
				fr.regs[dst] = lower(vm.ctx.Not(v))
			default:
				panic(unsupported{"not of " + render(v)})
			}
		}
	case token.SUB:
		if isFloat(in.Type()) {
			return func(fr *frame) { fr.regs[dst] = -fr.get(&x).(float64) }
		}
		ik, _ := intOf(in.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case uint64:
				fr.regs[dst] = smt.Mask(-v, ik.w)
			case *smt.T:
				fr.regs[dst] = lower(vm.ctx.Neg(v))
			default:
				panic(unsupported{"neg of " + render(v)})
			}
		}
	case token.XOR:
		ik, _ := intOf(in.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case uint64:
				fr.regs[dst] = smt.Mask(^v, ik.w)
			case *smt.T:
				fr.regs[dst] = lower(vm.ctx.BNot(v))
			default:
				panic(unsupported{"complement of " + render(v)})
			}
		}
	}
	return unsup("unop " + in.Op.String())
}

// ---------------------------------------------------------------- binop

func (c *compiler) binop(in *ssa.BinOp, dst int) func(fr *frame) {
	x, y := c.opd(in.X), c.opd(in.Y)
	t := in.X.Type()
	pos := in.Pos()
	vm := c.vm
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		if _, ok := intOf(t); ok {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if ac, ok := a.(uint64); ok {
					if bc, ok := b.(uint64); ok {
						fr.regs[dst] = (ac == bc) != neg
						return
					}
				}
				fr.regs[dst] = negVal(vm, fr.th.equal(a, b, t), neg)
			}
		}
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[dst] = negVal(vm, fr.th.equal(fr.get(&x), fr.get(&y), t), neg)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := in.Op
		if ik, ok := intOf(t); ok {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				ac, ok1 := a.(uint64)
				bc, ok2 := b.(uint64)
				if ok1 && ok2 {
					var lt, eq bool
					eq = ac == bc
					if ik.signed {
						lt = smt.SExt64(ac, ik.w) < smt.SExt64(bc, ik.w)
					} else {
						lt = ac < bc
					}
					switch op {
					case token.LSS:
						fr.regs[dst] = lt
					case token.LEQ:
						fr.regs[dst] = lt || eq
					case token.GTR:
						fr.regs[dst] = !lt && !eq
					default:
						fr.regs[dst] = !lt
					}
					return
				}
				at, bt := vm.term(a, ik.w), vm.term(b, ik.w)
				lo, le := smt.OpUlt, smt.OpUle
				if ik.signed {
					lo, le = smt.OpSlt, smt.OpSle
				}
				var r *smt.T
				switch op {
				case token.LSS:
					r = vm.ctx.Cmp(lo, at, bt)
				case token.LEQ:
					r = vm.ctx.Cmp(le, at, bt)
				case token.GTR:
					r = vm.ctx.Cmp(lo, bt, at)
				default:
					r = vm.ctx.Cmp(le, bt, at)
				}
				fr.regs[dst] = lower(r)
			}
		}
		if isFloat(t) {
			return func(fr *frame) {
				a, b := fr.get(&x).(float64), fr.get(&y).(float64)
				switch op {
				case token.LSS:
					fr.regs[dst] = a < b
				case token.LEQ:
					fr.regs[dst] = a <= b
				case token.GTR:
					fr.regs[dst] = a > b
				default:
					fr.regs[dst] = a >= b
				}
			}
		}
		if isString(t) {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				pa, ok1 := strBytes(a)
				pb, ok2 := strBytes(b)
				if !ok1 || !ok2 {
					panic(unsupported{"ordering of opaque strings"})
				}
				cmp := fr.th.compareBytes(pa, pb) // 64-bit -1/0/1
				z := uint64(0)
				m1 := uint64(math.MaxUint64)
				var r value
				switch op {
				case token.LSS:
					r = fr.th.eqInt(cmp, m1, 64)
				case token.GTR:
					r = fr.th.eqInt(cmp, 1, 64)
				case token.LEQ:
					r = negVal(vm, fr.th.eqInt(cmp, 1, 64), true)
				default:
					r = negVal(vm, fr.th.eqInt(cmp, m1, 64), true)
				}
				_ = z
				fr.regs[dst] = r
			}
		}
	case token.SHL, token.SHR:
		return c.shift(in, dst)
	case token.AND_NOT:
		ik, _ := intOf(t)
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			ac, ok1 := a.(uint64)
			bc, ok2 := b.(uint64)
			if ok1 && ok2 {
				fr.regs[dst] = ac &^ bc
				return
			}
			fr.regs[dst] = lower(vm.ctx.Bin(smt.OpBAnd, vm.term(a, ik.w), vm.ctx.BNot(vm.term(b, ik.w))))
		}
	}
	if in.Op == token.ADD && isString(t) {
		return func(fr *frame) { fr.regs[dst] = concatStr(fr.get(&x), fr.get(&y)) }
	}
	if isFloat(t) {
		f32 := basicOf(t).Kind() == types.Float32
		op := in.Op
		return func(fr *frame) {
			a, ok1 := fr.get(&x).(float64)
			b, ok2 := fr.get(&y).(float64)
			if !ok1 || !ok2 {
				panic(unsupported{"float arithmetic"})
			}
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = r
		}
	}
	ik, ok := intOf(t)
	if !ok {
		return unsup("binop on " + t.String())
	}
	ops, ok := opMap[in.Op]
	if !ok {
		return unsup("binop " + in.Op.String())
	}
	op := ops[0]
	if ik.signed {
		op = ops[1]
	}
	isDiv := in.Op == token.QUO || in.Op == token.REM
	w := ik.w
	switch in.Op {
	case token.ADD:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if ac, ok := a.(uint64); ok {
				if bc, ok := b.(uint64); ok {
					fr.regs[dst] = smt.Mask(ac+bc, w)
					return
				}
			}
			fr.regs[dst] = lower(vm.ctx.Bin(op, vm.term(a, w), vm.term(b, w)))
		}
	}
	return func(fr *frame) {
		a, b := fr.get(&x), fr.get(&y)
		ac, ok1 := a.(uint64)
		bc, ok2 := b.(uint64)
		if isDiv {
			fr.pos = pos
			if ok2 {
				if bc == 0 {
					fr.th.gopanic("integer divide by zero")
				}
			} else if fr.th.p.truth(fr.th.eqInt(b, 0, w)) {
				fr.th.gopanic("integer divide by zero")
			}
		}
		if ok1 && ok2 {
			fr.regs[dst] = smt.Fold(op, ac, bc, w)
			return
		}
		fr.regs[dst] = lower(vm.ctx.Bin(op, vm.term(a, w), vm.term(b, w)))
	}
}

func negVal(vm *VM, v value, neg bool) value {
	if !neg {
		return v
	}
	switch v := v.(type) {
	case bool:
		return !v
	case *smt.T:
		return lower(vm.ctx.Not(v))
	}
	panic(unsupported{"negate"})
}

func (th *thread) eqInt(a value, k uint64, w int) value {
	switch a := a.(type) {
	case uint64:
		return a == k
	case *smt.T:
		return lower(th.vm.ctx.Eq(a, th.vm.ctx.Const(k, w)))
	}
	panic(unsupported{"eqInt"})
}

func (c *compiler) shift(in *ssa.BinOp, dst int) func(fr *frame) {
	x, y := c.opd(in.X), c.opd(in.Y)
	ik, _ := intOf(in.X.Type())
	yk, _ := intOf(in.Y.Type())
	vm := c.vm
	pos := in.Pos()
	left := in.Op == token.SHL
	return func(fr *frame) {
		a, b := fr.get(&x), fr.get(&y)
		ac, ok1 := a.(uint64)
		bc, ok2 := b.(uint64)
		if ok2 {
			if yk.signed && smt.SExt64(bc, yk.w) < 0 {
				fr.pos = pos
				fr.th.gopanic("negative shift amount")
			}
		} else if yk.signed {
			fr.pos = pos
			if fr.th.p.truth(lower(vm.ctx.Cmp(smt.OpSlt, vm.term(b, yk.w), vm.ctx.Const(0, yk.w)))) {
				fr.th.gopanic("negative shift amount")
			}
		}
		if ok1 && ok2 {
			var r uint64
			switch {
			case left:
				if bc < 64 {
					r = ac << bc
				}
			case ik.signed:
				s := bc
				if s > 63 {
					s = 63
				}
				r = uint64(smt.SExt64(ac, ik.w) >> s)
			default:
				if bc < 64 {
					r = ac >> bc
				}
			}
			fr.regs[dst] = smt.Mask(r, ik.w)
			return
		}
		ctx := vm.ctx
		at := vm.term(a, ik.w)
		bt := vm.term(b, yk.w)
		// bring the shift amount to the width of a, saturating
		var amt *smt.T
		big := ctx.Bool(false)
		if yk.w > ik.w {
			big = ctx.Not(ctx.Cmp(smt.OpUlt, bt, ctx.Const(uint64(ik.w), yk.w)))
			amt = ctx.Extract(bt, ik.w-1, 0)
		} else {
			amt = ctx.ZExt(bt, ik.w)
		}
		var r, sat *smt.T
		switch {
		case left:
			r, sat = ctx.Bin(smt.OpShl, at, amt), ctx.Const(0, ik.w)
		case ik.signed:
			r = ctx.Bin(smt.OpAShr, at, amt)
			sat = ctx.Bin(smt.OpAShr, at, ctx.Const(uint64(ik.w-1), ik.w))
		default:
			r, sat = ctx.Bin(smt.OpLShr, at, amt), ctx.Const(0, ik.w)
		}
		fr.regs[dst] = lower(ctx.Ite(big, sat, r))
	}
}

// ---------------------------------------------------------------- equality

// equal returns a bool or a symbolic bool.
func (th *thread) equal(a, b value, t types.Type) value {
	vm := th.vm
	if pa, ok := a.(poison); ok {
		panic(unsupported{"compare " + pa.why})
	}
	if pb, ok := b.(poison); ok {
		panic(unsupported{"compare " + pb.why})
	}
	switch a := a.(type) {
	case uint64:
		switch b := b.(type) {
		case uint64:
			return a == b
		case *smt.T:
			return lower(vm.ctx.Eq(vm.ctx.Const(a, b.W), b))
		case dataPtr:
			return false
		}
	case bool:
		switch b := b.(type) {
		case bool:
			return a == b
		case *smt.T:
			return lower(vm.ctx.Eq(vm.ctx.Bool(a), b))
		}
	case *smt.T:
		return lower(vm.ctx.Eq(a, vm.term(b, a.W)))
	case float64:
		if bf, ok := b.(float64); ok {
			return a == bf
		}
	case string, *rope:
		return th.equalStr(a, b)
	case *value:
		switch b := b.(type) {
		case *value:
			return a == b
		case *symPtr, *castPtr:
			return false
		}
	case *symPtr:
		switch b := b.(type) {
		case *value:
			if b == nil {
				return false
			}
		case *symPtr:
			if len(a.arr) > 0 && len(b.arr) > 0 && &a.arr[0] == &b.arr[0] {
				return lower(vm.ctx.Eq(a.idx, b.idx))
			}
			return false
		}
	case *castPtr:
		if b, ok := b.(*value); ok && b == nil {
			return false
		}
		if b, ok := b.(*castPtr); ok {
			return a == b
		}
	case unsafePtr:
		if b, ok := b.(unsafePtr); ok {
			return samePtr(a.v, b.v)
		}
	case structure:
		bs, ok := b.(structure)
		if !ok {
			break
		}
		st := t.Underlying().(*types.Struct)
		acc := vm.ctx.Bool(true)
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			switch r := th.equal(a[i], bs[i], st.Field(i).Type()).(type) {
			case bool:
				if !r {
					return false
				}
			case *smt.T:
				acc = vm.ctx.And(acc, r)
			}
		}
		return lower(acc)
	case array:
		ba, ok := b.(array)
		if !ok {
			break
		}
		return th.equalSeq(a, ba, t.Underlying().(*types.Array).Elem())
	case iface:
		bi, ok := b.(iface)
		if !ok {
			// comparison of interface with concrete value is normalised by ssa
			break
		}
		if a.t == nil || bi.t == nil {
			return a.t == bi.t
		}
		if a.t != bi.t {
			return false
		}
		if !types.Comparable(a.t) {
			th.gopanic("comparing uncomparable type " + a.t.String())
		}
		return th.equal(a.v, bi.v, a.t)
	case *vchan:
		if bc, ok := b.(*vchan); ok {
			return a == bc
		}
	case *hmap:
		if bm, ok := b.(*hmap); ok {
			return a == bm
		}
	case []value:
		if bs, ok := b.([]value); ok {
			if bs == nil {
				return a == nil
			}
			if a == nil {
				return bs == nil
			}
		}
	case *ssa.Function:
		switch b := b.(type) {
		case *ssa.Function:
			return a == b
		default:
			return false
		}
	case *closure:
		if b, ok := b.(*closure); ok {
			return a == b
		}
		return false
	case *hostFn:
		if b, ok := b.(*hostFn); ok {
			return a == b
		}
		return false
	case rtypeVal:
		if br, ok := b.(rtypeVal); ok {
			return canon(a.t) == canon(br.t)
		}
	case native:
		if bn, ok := b.(native); ok {
			return a.v == bn.v
		}
	case nil:
		return b == nil
	}
	panic(unsupported{fmt.Sprintf("comparison of %T with %T", a, b)})
}

func samePtr(a, b value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case *value:
		bv, ok := b.(*value)
		return ok && a == bv
	case *castPtr:
		bv, ok := b.(*castPtr)
		return ok && a == bv
	}
	return false
}

func (th *thread) equalSeq(a, b []value, elem types.Type) value {
	vm := th.vm
	if len(a) != len(b) {
		return false
	}
	// concrete differences first
	for i := range a {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 && x != y {
			return false
		}
	}
	acc := vm.ctx.Bool(true)
	for i := range a {
		switch r := th.equal(a[i], b[i], elem).(type) {
		case bool:
			if !r {
				return false
			}
		case *smt.T:
			acc = vm.ctx.And(acc, r)
		}
	}
	return lower(acc)
}

var byteType = types.Typ[types.Uint8]

func (th *thread) equalStr(a, b value) value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as == bs
	}
	pa, pb := strParts(a), strParts(b)
	return th.equalParts(pa, pb)
}

// equalParts compares two strings that may contain opaque renderings.
func (th *thread) equalParts(pa, pb []value) value {
	opaque := false
	for _, l := range [][]value{pa, pb} {
		for _, x := range l {
			if _, ok := x.(*opaquePart); ok {
				opaque = true
			}
		}
	}
	if !opaque {
		return th.equalSeq(pa, pb, byteType)
	}
	return th.equalOpaque(pa, pb)
}

// compareBytes returns -1, 0 or 1 as a 64-bit value.
func (th *thread) compareBytes(a, b []value) value {
	ctx := th.vm.ctx
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	m1, z, p1 := ctx.Const(math.MaxUint64, 64), ctx.Const(0, 64), ctx.Const(1, 64)
	r := z
	if len(a) < len(b) {
		r = m1
	} else if len(a) > len(b) {
		r = p1
	}
	// leading concrete decisions
	i := 0
	for ; i < n; i++ {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if x == y {
				continue
			}
			if x < y {
				return lower(m1)
			}
			return lower(p1)
		}
		if a[i] == b[i] {
			continue
		}
		break
	}
	if i == n {
		return lower(r)
	}
	lt, eq := ctx.Bool(false), ctx.Bool(true)
	if len(a) < len(b) {
		lt = ctx.Bool(true)
	}
	if len(a) != len(b) {
		eq = ctx.Bool(false)
	}
	for k := n - 1; k >= i; k-- {
		x, y := th.vm.term(a[k], 8), th.vm.term(b[k], 8)
		e := ctx.Eq(x, y)
		l := ctx.Cmp(smt.OpUlt, x, y)
		lt = ctx.Or(l, ctx.And(e, lt))
		eq = ctx.And(e, eq)
	}
	return lower(ctx.Ite(lt, m1, ctx.Ite(eq, z, p1)))
}

// ---------------------------------------------------------------- slices

func (c *compiler) slice(in *ssa.Slice, dst int) func(fr *frame) {
	x := c.opd(in.X)
	pos := in.Pos()
	get := func(v ssa.Value) (func(fr *frame) (value, intKind), bool) {
		if v == nil {
			return nil, false
		}
		o := c.opd(v)
		k, _ := intOf(v.Type())
		return func(fr *frame) (value, intKind) { return fr.get(&o), k }, true
	}
	lo, hasLo := get(in.Low)
	hi, hasHi := get(in.High)
	mx, hasMax := get(in.Max)
	vm := c.vm
	return func(fr *frame) {
		fr.pos = pos
		xv := fr.get(&x)
		var s []value
		isStr := false
		isArr := false
		switch v := xv.(type) {
		case []value:
			s = v
		case *value:
			if v == nil {
				fr.th.nilDeref()
			}
			a, ok := (*v).(array)
			if !ok {
				panic(unsupported{fmt.Sprintf("slice of pointer to %T", *v)})
			}
			s = a
			isArr = true
		case *symPtr:
			i := fr.th.p.concretize(v.idx, vm.concLimit, "index of aggregate")
			s = v.arr[i].(array)
			isArr = true
		case *castPtr:
			if d, ok := v.p.(dataPtr); ok {
				n := int(v.to.Underlying().(*types.Array).Len())
				s = d.s[:n]
				isArr = true
			} else {
				panic(unsupported{"slice of cast pointer"})
			}
		case string, *rope:
			isStr = true
			if str, ok := v.(string); ok {
				l, h := int64(0), int64(len(str))
				if hasHi {
					hv, k := hi(fr)
					h = fr.th.bound(hv, k, 0, len(str))
				}
				if hasLo {
					lv, k := lo(fr)
					l = fr.th.bound(lv, k, 0, int(h))
				}
				fr.regs[dst] = str[l:h]
				return
			}
			b, ok := strBytes(v)
			if !ok {
				panic(unsupported{"slice of opaque string"})
			}
			s = b
		case poison:
			panic(unsupported{"slice of " + v.why})
		default:
			panic(unsupported{fmt.Sprintf("slice of host type %T", v)})
		}
		capv := cap(s)
		if isStr {
			capv = len(s)
		}
		m := capv
		if hasMax {
			mv, k := mx(fr)
			m = int(fr.th.bound(mv, k, 0, capv))
		}
		h := int64(len(s))
		if hasHi {
			hv, k := hi(fr)
			h = fr.th.bound(hv, k, 0, m)
		} else if int(h) > m {
			fr.th.gopanic("slice bounds out of range")
		}
		l := int64(0)
		if hasLo {
			lv, k := lo(fr)
			l = fr.th.bound(lv, k, 0, int(h))
		}
		if isStr {
			fr.regs[dst] = mkString(s[l:h])
			return
		}
		_ = isArr
		if s == nil {
			fr.regs[dst] = []value(nil)
			return
		}
		fr.regs[dst] = s[l:h:m]
	}
}

// bound checks 0 <= v <= max and returns v, forking over symbolic values.
func (th *thread) bound(v value, k intKind, min, max int) int64 {
	switch v := v.(type) {
	case uint64:
		n := toInt(v, k)
		if n < int64(min) || n > int64(max) {
			th.gopanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", n, max))
		}
		return n
	case *smt.T:
		ctx := th.vm.ctx
		w := v
		if k.w < 64 {
			if k.signed {
				w = ctx.SExt(v, 64)
			} else {
				w = ctx.ZExt(v, 64)
			}
		}
		if !th.p.truth(lower(ctx.Cmp(smt.OpUle, w, ctx.Const(uint64(max), 64)))) {
			th.gopanic(fmt.Sprintf("slice bounds out of range with capacity %d", max))
		}
		return int64(th.p.concretize(w, th.vm.concLimit, "slice bound"))
	case poison:
		panic(unsupported{"bound " + v.why})
	}
	panic(unsupported{fmt.Sprintf("bound of host type %T", v)})
}

// size classes of the Go allocator
var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUp(n, elem uint64) uint64 {
	if elem == 0 {
		return n
	}
	b := n * elem
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				return c / elem
			}
		}
	}
	b = (b + 8191) &^ 8191
	return b / elem
}

func growCap(oldCap, newLen int, elem uint64) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if elem == 0 {
		return newLen
	}
	return int(roundUp(uint64(nc), elem))
}

var sizes64 = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) uint64 {
	return uint64(sizes64.Sizeof(t))
}

func (th *thread) appendVals(s []value, add []value, elem types.Type, esz uint64) []value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if int64(n) > th.vm.maxAlloc {
		panic(unsupported{"append too large"})
	}
	agg := false
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		agg = true
	}
	var out []value
	if n <= cap(s) {
		out = s[:n]
	} else {
		c := growCap(cap(s), n, esz)
		out = make([]value, c)
		copy(out, s)
		if n < c {
			fillZero(out[n:], elem)
		}
		out = out[:n]
	}
	if agg {
		tmp := make([]value, len(add))
		for i, x := range add {
			tmp[i] = copyVal(x)
		}
		for i, x := range tmp {
			out[len(s)+i] = x
		}
	} else {
		copy(out[len(s):], add)
	}
	return out
}

func (c *compiler) appendCall(ts []types.Type, args []opd) func(fr *frame) value {
	a, b := args[0], args[1]
	elem := ts[0].Underlying().(*types.Slice).Elem()
	if _, ok := elem.Underlying().(*types.TypeParam); ok {
		return func(fr *frame) value { panic(unsupported{"append of type parameter"}) }
	}
	esz := sizeOf(elem)
	return func(fr *frame) value {
		s, ok := fr.get(&a).([]value)
		if !ok {
			panic(unsupported{"append to " + render(fr.get(&a))})
		}
		switch v := fr.get(&b).(type) {
		case []value:
			return fr.th.appendVals(s, v, elem, esz)
		case string, *rope:
			bs, ok := strBytes(v)
			if !ok {
				panic(unsupported{"append of opaque string"})
			}
			return fr.th.appendVals(s, bs, elem, esz)
		case poison:
			panic(unsupported{"append " + v.why})
		default:
			panic(unsupported{fmt.Sprintf("append of host type %T", v)})
		}
	}
}

func (th *thread) callBuiltin(name string, ts []types.Type, args []value) value {
	switch name {
	case "append":
		elem := ts[0].Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return args[0]
		}
		add, ok := args[1].([]value)
		if !ok {
			add, _ = strBytes(args[1])
		}
		return th.appendVals(args[0].([]value), add, elem, sizeOf(elem))
	case "copy":
		d, ok := args[0].([]value)
		if !ok {
			panic(unsupported{"copy to " + render(args[0])})
		}
		var s []value
		switch v := args[1].(type) {
		case []value:
			s = v
		case string, *rope:
			b, ok := strBytes(v)
			if !ok {
				panic(unsupported{"copy of opaque string"})
			}
			s = b
		default:
			panic(unsupported{"copy from " + render(args[1])})
		}
		n := len(s)
		if len(d) < n {
			n = len(d)
		}
		if n > 0 {
			switch s[0].(type) {
			case structure, array:
				tmp := make([]value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(s[i])
				}
				for i := 0; i < n; i++ {
					storeInto(&d[i], tmp[i])
				}
			default:
				copy(d, s[:n])
			}
		}
		return uint64(n)
	case "len":
		switch v := args[0].(type) {
		case string:
			return uint64(len(v))
		case *rope:
			if v.hasOpaque() {
				panic(unsupported{"length of opaque string"})
			}
			return uint64(len(v.parts))
		case []value:
			return uint64(len(v))
		case array:
			return uint64(len(v))
		case *value:
			if ts != nil {
				return uint64(ts[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
		case *hmap:
			return uint64(v.len())
		case *vchan:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.buf))
		}
		panic(unsupported{"len of " + render(args[0])})
	case "cap":
		switch v := args[0].(type) {
		case []value:
			return uint64(cap(v))
		case array:
			return uint64(len(v))
		case *value:
			return uint64(ts[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *vchan:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.cap)
		}
		panic(unsupported{"cap of " + render(args[0])})
	case "close":
		th.chanClose(asChan(args[0]))
		return nil
	case "delete":
		m := args[0].(*hmap)
		if m != nil {
			m.delete(th, args[1])
		}
		return nil
	case "panic":
		panic(goPanic{args[0], th.stack()})
	case "recover":
		fr := th.top
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.panic.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		k, ok := intOf(ts[0])
		if !ok {
			panic(unsupported{"min/max"})
		}
		r := args[0]
		for _, x := range args[1:] {
			op := smt.OpUlt
			if k.signed {
				op = smt.OpSlt
			}
			rt, xt := th.vm.term(r, k.w), th.vm.term(x, k.w)
			c := th.vm.ctx.Cmp(op, xt, rt)
			if name == "max" {
				c = th.vm.ctx.Cmp(op, rt, xt)
			}
			r = lower(th.vm.ctx.Ite(c, xt, rt))
		}
		return r
	case "clear":
		switch v := args[0].(type) {
		case *hmap:
			if v != nil {
				v.clear()
			}
		case []value:
			fillZero(v, ts[0].Underlying().(*types.Slice).Elem())
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			th.gopanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "SliceData", "StringData":
		s, ok := args[0].([]value)
		if !ok {
			s, _ = strBytes(args[0])
		}
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &castPtr{dataPtr{s[:cap(s)]}, byteType}
	case "String", "Slice":
		n := int(int64(asU64(args[1])))
		var s []value
		switch p := args[0].(type) {
		case *castPtr:
			d, ok := p.p.(dataPtr)
			if !ok {
				panic(unsupported{"unsafe." + name})
			}
			s = d.s
		case *value:
			if p == nil || n == 0 {
				if name == "String" {
					return ""
				}
				return []value(nil)
			}
			if n < 0 || n > 1<<20 {
				panic(unsupported{"unsafe." + name + " of element pointer"})
			}
			s = unsafe.Slice(p, n) // the elements that follow, as in the interpreted program
		default:
			panic(unsupported{fmt.Sprintf("unsafe.%s of %T", name, args[0])})
		}
		if n < 0 || n > len(s) {
			panic(unsupported{"unsafe." + name + " out of range"})
		}
		if name == "String" {
			return mkString(s[:n])
		}
		return s[:n]
	}
	panic(unsupported{"builtin " + name})
}

// ---------------------------------------------------------------- maps

type hentry struct {
	k, v    value
	deleted bool
	enc     string
	conc    bool
}

type hmap struct {
	ents []*hentry
	idx  map[string]*hentry
	n    int
	nsym int
}

func newHmap() *hmap { return &hmap{idx: map[string]*hentry{}} }

func (m *hmap) len() int {
	if m == nil {
		return 0
	}
	return m.n
}

func (m *hmap) clear() {
	for _, e := range m.ents {
		e.deleted = true
	}
	m.ents = nil
	m.idx = map[string]*hentry{}
	m.n, m.nsym = 0, 0
}

// keyEnc encodes a fully concrete key.
func keyEnc(b []byte, v value) ([]byte, bool) {
	switch v := v.(type) {
	case uint64:
		return append(b, fmt.Sprintf("u%x;", v)...), true
	case string:
		b = append(b, fmt.Sprintf("s%d:", len(v))...)
		return append(b, v...), true
	case bool:
		return append(b, fmt.Sprintf("b%v;", v)...), true
	case float64:
		return append(b, fmt.Sprintf("f%x;", math.Float64bits(v))...), true
	case *value, *vchan, *castPtr, *hmap:
		return append(b, fmt.Sprintf("p%p;", v)...), true
	case rtypeVal:
		return append(b, fmt.Sprintf("t%d;", canonEnt(v.t).id)...), true
	case iface:
		if v.t == nil {
			return append(b, "n;"...), true
		}
		b = append(b, fmt.Sprintf("i%d:", canonEnt(v.t).id)...)
		return keyEnc(b, v.v)
	case structure:
		b = append(b, '{')
		for _, x := range v {
			var ok bool
			if b, ok = keyEnc(b, x); !ok {
				return b, false
			}
		}
		return append(b, '}'), true
	case array:
		b = append(b, '[')
		for _, x := range v {
			var ok bool
			if b, ok = keyEnc(b, x); !ok {
				return b, false
			}
		}
		return append(b, ']'), true
	}
	return b, false
}

func (m *hmap) find(th *thread, k value) *hentry {
	if m == nil || m.n == 0 {
		return nil
	}
	eb, conc := keyEnc(nil, k)
	if conc {
		if e := m.idx[string(eb)]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted || conc && e.conc {
			continue
		}
		if th.p.truth(th.equalKey(k, e.k)) {
			return e
		}
	}
	return nil
}

// equalKey compares map keys, which may be of any comparable type.
func (th *thread) equalKey(a, b value) value {
	switch a := a.(type) {
	case array:
		if bb, ok := b.(array); ok {
			acc := th.vm.ctx.Bool(true)
			if len(a) != len(bb) {
				return false
			}
			for i := range a {
				x, ok1 := a[i].(uint64)
				y, ok2 := bb[i].(uint64)
				if ok1 && ok2 && x != y {
					return false
				}
			}
			for i := range a {
				switch r := th.equalKey(a[i], bb[i]).(type) {
				case bool:
					if !r {
						return false
					}
				case *smt.T:
					acc = th.vm.ctx.And(acc, r)
				}
			}
			return lower(acc)
		}
	case structure:
		if bb, ok := b.(structure); ok {
			return th.equalKey(array(a), array(bb))
		}
	}
	return th.equal(a, b, nil)
}

func (m *hmap) lookup(th *thread, k value) (value, bool) {
	if e := m.find(th, k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *hmap) set(th *thread, k, v value) {
	if e := m.find(th, k); e != nil {
		e.v = v
		return
	}
	e := &hentry{k: k, v: v}
	eb, conc := keyEnc(nil, k)
	if conc {
		e.enc, e.conc = string(eb), true
		m.idx[e.enc] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (m *hmap) delete(th *thread, k value) {
	e := m.find(th, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if e.conc {
		delete(m.idx, e.enc)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/2 {
		var l []*hentry
		for _, x := range m.ents {
			if !x.deleted {
				l = append(l, x)
			}
		}
		m.ents = l
	}
}

type iter struct {
	m    *hmap
	ents []*hentry
	i    int
	init bool
	str  bool
	s    []value
}

func (it *iter) next(th *thread, tt *types.Tuple) value {
	if it.str {
		if it.i >= len(it.s) {
			return tuple{false, uint64(0), uint64(0)}
		}
		var buf []byte
		for k := it.i; k < len(it.s) && k < it.i+4; k++ {
			if t, ok := it.s[k].(*smt.T); ok {
				if k > it.i {
					break
				}
				// symbolic byte: ASCII or give up
				ctx := th.vm.ctx
				if th.p.truth(lower(ctx.Cmp(smt.OpUlt, t, ctx.Const(0x80, 8)))) {
					pos := it.i
					it.i++
					return tuple{true, uint64(pos), lower(ctx.ZExt(t, 32))}
				}
				panic(unsupported{"non-ASCII symbolic byte in a string range"})
			}
			buf = append(buf, byte(it.s[k].(uint64)))
		}
		r, n := utf8.DecodeRune(buf)
		pos := it.i
		it.i += n
		return tuple{true, uint64(pos), uint64(uint32(r))}
	}
	if !it.init {
		it.init = true
		if it.m != nil {
			it.ents = append([]*hentry(nil), it.m.ents...)
		}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	r := tuple{false, nil, nil}
	for i := 1; i < 3; i++ {
		if t := tt.At(i).Type(); t != nil {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			r[i] = zero(t)
		}
	}
	return r
}
