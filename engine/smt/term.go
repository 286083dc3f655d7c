// Package smt holds hash-consed bit-vector/boolean terms, a simplifier, an
// evaluator and a client for an SMT-LIB2 solver process.
package smt

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract
	OpZExt
	OpSExt
)

var opNames = [...]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
}

// T is a term. W is the bit width, 0 meaning Bool.
type T struct {
	Op   Op
	W    int
	C    uint64 // constant value; extract: hi<<16|lo
	Name string
	A    []*T
	ID   int
}

func (t *T) IsConst() bool { return t.Op == OpConst }
func (t *T) True() bool    { return t.Op == OpConst && t.W == 0 && t.C == 1 }
func (t *T) False() bool   { return t.Op == OpConst && t.W == 0 && t.C == 0 }

type key struct {
	op         Op
	w          int
	c          uint64
	name       string
	a0, a1, a2 int
	n          int
}

// Ctx owns terms; not safe for concurrent use.
type Ctx struct {
	tab   map[key]*T
	tabN  map[string]*T
	next  int
	Vars  map[string]*T
	tt    *T
	ff    *T
	Count int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*T{}, tabN: map[string]*T{}, Vars: map[string]*T{}}
	c.tt = c.mk(OpConst, 0, 1, "")
	c.ff = c.mk(OpConst, 0, 0, "")
	return c
}

func (c *Ctx) mk(op Op, w int, cv uint64, name string, a ...*T) *T {
	if len(a) > 3 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d.%d.%d.%s", op, w, cv, name)
		for _, x := range a {
			fmt.Fprintf(&sb, ",%d", x.ID)
		}
		s := sb.String()
		if t := c.tabN[s]; t != nil {
			return t
		}
		t := &T{Op: op, W: w, C: cv, Name: name, A: append([]*T(nil), a...), ID: c.next}
		c.next++
		c.tabN[s] = t
		return t
	}
	k := key{op: op, w: w, c: cv, name: name, n: len(a), a0: -1, a1: -1, a2: -1}
	if len(a) > 0 {
		k.a0 = a[0].ID
	}
	if len(a) > 1 {
		k.a1 = a[1].ID
	}
	if len(a) > 2 {
		k.a2 = a[2].ID
	}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &T{Op: op, W: w, C: cv, Name: name, ID: c.next}
	if len(a) > 0 {
		t.A = append([]*T(nil), a...)
	}
	c.next++
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

// Mask truncates v to w bits.
func Mask(v uint64, w int) uint64 { return v & mask(w) }

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

// SExt64 sign-extends the low w bits of v.
func SExt64(v uint64, w int) int64 { return sext(v, w) }

func (c *Ctx) Const(v uint64, w int) *T { return c.mk(OpConst, w, v&mask(w), "") }
func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.tt
	}
	return c.ff
}

func (c *Ctx) Var(name string, w int) *T {
	if t := c.Vars[name]; t != nil {
		if t.W != w {
			panic("smt: variable redeclared with another width: " + name)
		}
		return t
	}
	t := c.mk(OpVar, w, 0, name)
	c.Vars[name] = t
	return t
}

func (c *Ctx) Not(a *T) *T {
	if a.IsConst() {
		return c.Bool(a.C == 0)
	}
	if a.Op == OpNot {
		return a.A[0]
	}
	return c.mk(OpNot, 0, 0, "", a)
}

func (c *Ctx) nary(op Op, unit, zero *T, xs []*T) *T {
	var flat []*T
	seen := map[*T]bool{}
	var add func(x *T) bool
	add = func(x *T) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		flat = append(flat, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range flat {
		if x.Op == OpNot && seen[x.A[0]] {
			return zero
		}
	}
	switch len(flat) {
	case 0:
		return unit
	case 1:
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].ID < flat[j].ID })
	return c.mk(op, 0, 0, "", flat...)
}

func (c *Ctx) And(xs ...*T) *T { return c.nary(OpAnd, c.tt, c.ff, xs) }
func (c *Ctx) Or(xs ...*T) *T  { return c.nary(OpOr, c.ff, c.tt, xs) }

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.tt
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.C == b.C)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.True() {
			return a
		}
		if b.False() {
			return c.Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OpZExt:
			in := a.A[0]
			if b.C&^mask(in.W) != 0 {
				return c.ff
			}
			return c.Eq(in, c.Const(b.C, in.W))
		case OpIte:
			t, e := a.A[1], a.A[2]
			if t.IsConst() && e.IsConst() {
				switch {
				case t.C == b.C && e.C != b.C:
					return a.A[0]
				case t.C != b.C && e.C == b.C:
					return c.Not(a.A[0])
				case t.C != b.C && e.C != b.C:
					return c.ff
				}
			}
			if t.IsConst() {
				if t.C == b.C {
					return c.Or(a.A[0], c.Eq(e, b))
				}
				return c.And(c.Not(a.A[0]), c.Eq(e, b))
			}
			if e.IsConst() {
				if e.C == b.C {
					return c.Or(c.Not(a.A[0]), c.Eq(t, b))
				}
				return c.And(a.A[0], c.Eq(t, b))
			}
		case OpBXor:
			if a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(b.C^a.A[1].C, a.W))
			}
			if b.C == 0 {
				return c.Eq(a.A[0], a.A[1])
			}
		case OpAdd:
			if a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(b.C-a.A[1].C, a.W))
			}
		case OpBNot:
			return c.Eq(a.A[0], c.Const(^b.C, a.W))
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, "", a, b)
}

func (c *Ctx) Ite(i, t, e *T) *T {
	if i.IsConst() {
		if i.C == 1 {
			return t
		}
		return e
	}
	if t == e {
		return t
	}
	if t.W == 0 {
		if t.True() {
			return c.Or(i, e)
		}
		if t.False() {
			return c.And(c.Not(i), e)
		}
		if e.True() {
			return c.Or(c.Not(i), t)
		}
		if e.False() {
			return c.And(i, t)
		}
	}
	if i.Op == OpNot {
		return c.Ite(i.A[0], e, t)
	}
	if e.Op == OpIte && e.A[0] == i {
		e = e.A[2]
	}
	if t.Op == OpIte && t.A[0] == i {
		t = t.A[1]
	}
	if t == e {
		return t
	}
	return c.mk(OpIte, t.W, 0, "", i, t, e)
}

func fold(op Op, x, y uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1 & m, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

// Fold applies a binary bit-vector operator to constants.
func Fold(op Op, x, y uint64, w int) uint64 {
	v, ok := fold(op, x, y, w)
	if !ok {
		panic("smt: fold")
	}
	return v
}

func (c *Ctx) Bin(op Op, a, b *T) *T {
	if a.W != b.W {
		panic(fmt.Sprintf("smt: width mismatch %d %d in %s", a.W, b.W, opNames[op]))
	}
	w := a.W
	if a.IsConst() && b.IsConst() {
		v, _ := fold(op, a.C, b.C, w)
		return c.Const(v, w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
			a, b = b, a
		}
	}
	if b.IsConst() {
		switch op {
		case OpAdd:
			if b.C == 0 {
				return a
			}
			if a.Op == OpAdd && a.A[1].IsConst() {
				return c.Bin(OpAdd, a.A[0], c.Const(a.A[1].C+b.C, w))
			}
		case OpSub:
			return c.Bin(OpAdd, a, c.Const(-b.C, w))
		case OpMul:
			if b.C == 0 {
				return b
			}
			if b.C == 1 {
				return a
			}
			if bits.OnesCount64(b.C) == 1 {
				return c.Bin(OpShl, a, c.Const(uint64(bits.TrailingZeros64(b.C)), w))
			}
		case OpUDiv:
			if bits.OnesCount64(b.C) == 1 {
				return c.Bin(OpLShr, a, c.Const(uint64(bits.TrailingZeros64(b.C)), w))
			}
		case OpURem:
			if bits.OnesCount64(b.C) == 1 {
				return c.Bin(OpBAnd, a, c.Const(b.C-1, w))
			}
		case OpBAnd:
			if b.C == 0 {
				return b
			}
			if b.C == mask(w) {
				return a
			}
			if a.Op == OpZExt && b.C&mask(a.A[0].W) == mask(a.A[0].W) {
				return a
			}
			if n := bits.TrailingZeros64(^b.C); b.C == mask(n) && n > 0 && n < w {
				return c.ZExt(c.Extract(a, n-1, 0), w)
			}
		case OpBOr:
			if b.C == 0 {
				return a
			}
			if b.C == mask(w) {
				return b
			}
		case OpBXor:
			if b.C == 0 {
				return a
			}
			if a.Op == OpBXor && a.A[1].IsConst() {
				return c.Bin(OpBXor, a.A[0], c.Const(a.A[1].C^b.C, w))
			}
		case OpShl:
			if b.C == 0 {
				return a
			}
			if b.C >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Concat(c.Extract(a, w-1-int(b.C), 0), c.Const(0, int(b.C)))
		case OpLShr:
			if b.C == 0 {
				return a
			}
			if b.C >= uint64(w) {
				return c.Const(0, w)
			}
			return c.ZExt(c.Extract(a, w-1, int(b.C)), w)
		case OpAShr:
			if b.C == 0 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.Const(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if op == OpBOr {
		if r := c.orConcat(a, b); r != nil {
			return r
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

// pieces splits a term into concat pieces (msb first).
func (c *Ctx) pieces(t *T) []*T {
	switch t.Op {
	case OpConcat:
		return append(c.pieces(t.A[0]), c.pieces(t.A[1])...)
	case OpZExt:
		return append([]*T{c.Const(0, t.W-t.A[0].W)}, c.pieces(t.A[0])...)
	}
	return []*T{t}
}

// orConcat rewrites a|b into a concat when their non-zero parts are disjoint.
func (c *Ctx) orConcat(a, b *T) *T {
	if (a.Op != OpConcat && a.Op != OpZExt) || (b.Op != OpConcat && b.Op != OpZExt) {
		return nil
	}
	pa, pb := c.pieces(a), c.pieces(b)
	var out []*T
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		n := x.W
		if y.W < n {
			n = y.W
		}
		cut := func(t *T, rest []*T) (*T, []*T) {
			if t.W == n {
				return t, rest[1:]
			}
			if !t.IsConst() {
				return nil, nil
			}
			hi := c.Extract(t, t.W-1, t.W-n)
			lo := c.Extract(t, t.W-n-1, 0)
			return hi, append([]*T{lo}, rest[1:]...)
		}
		// a non-constant piece may not be cut by the other side
		if x.W != y.W {
			if x.W > y.W && !x.IsConst() {
				// gather y pieces under x: all must be zero
				rem := x.W
				i := 0
				for i < len(pb) && rem > 0 {
					p := pb[i]
					if !p.IsConst() || p.C != 0 {
						return nil
					}
					if p.W > rem {
						pb[i] = c.Const(0, p.W-rem)
						rem = 0
						break
					}
					rem -= p.W
					i++
				}
				pb = pb[i:]
				out = append(out, x)
				pa = pa[1:]
				continue
			}
			if y.W > x.W && !y.IsConst() {
				rem := y.W
				i := 0
				for i < len(pa) && rem > 0 {
					p := pa[i]
					if !p.IsConst() || p.C != 0 {
						return nil
					}
					if p.W > rem {
						pa[i] = c.Const(0, p.W-rem)
						rem = 0
						break
					}
					rem -= p.W
					i++
				}
				pa = pa[i:]
				out = append(out, y)
				pb = pb[1:]
				continue
			}
		}
		x, pa = cut(x, pa)
		y, pb = cut(y, pb)
		if x == nil || y == nil {
			return nil
		}
		switch {
		case x.IsConst() && x.C == 0:
			out = append(out, y)
		case y.IsConst() && y.C == 0:
			out = append(out, x)
		case x.IsConst() && y.IsConst():
			out = append(out, c.Const(x.C|y.C, n))
		default:
			return nil
		}
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = c.Concat(out[i], r)
	}
	return r
}

func (c *Ctx) BNot(a *T) *T {
	if a.IsConst() {
		return c.Const(^a.C, a.W)
	}
	if a.Op == OpBNot {
		return a.A[0]
	}
	return c.mk(OpBNot, a.W, 0, "", a)
}

func (c *Ctx) Neg(a *T) *T {
	if a.IsConst() {
		return c.Const(-a.C, a.W)
	}
	return c.mk(OpNeg, a.W, 0, "", a)
}

func urange(t *T) (lo, hi uint64) {
	switch t.Op {
	case OpConst:
		return t.C, t.C
	case OpZExt:
		l, h := urange(t.A[0])
		return l, h
	case OpIte:
		l1, h1 := urange(t.A[1])
		l2, h2 := urange(t.A[2])
		return min(l1, l2), max(h1, h2)
	case OpConcat:
		if t.A[0].IsConst() {
			_, h := urange(t.A[1])
			return t.A[0].C << uint(t.A[1].W), t.A[0].C<<uint(t.A[1].W) | h
		}
	case OpAdd:
		// a + const without wrap
		if t.A[1].IsConst() {
			l, h := urange(t.A[0])
			if h <= mask(t.W)-t.A[1].C {
				return l + t.A[1].C, h + t.A[1].C
			}
			// negative constant
			k := -t.A[1].C & mask(t.W)
			if l >= k {
				return l - k, h - k
			}
		}
	case OpURem:
		if t.A[1].IsConst() && t.A[1].C > 0 {
			return 0, t.A[1].C - 1
		}
	}
	return 0, mask(t.W)
}

func (c *Ctx) Cmp(op Op, a, b *T) *T {
	if a.W != b.W {
		panic(fmt.Sprintf("smt: width mismatch %d %d in cmp", a.W, b.W))
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpUlt:
			return c.Bool(a.C < b.C)
		case OpUle:
			return c.Bool(a.C <= b.C)
		case OpSlt:
			return c.Bool(sext(a.C, a.W) < sext(b.C, a.W))
		case OpSle:
			return c.Bool(sext(a.C, a.W) <= sext(b.C, a.W))
		}
	}
	al, ah := urange(a)
	bl, bh := urange(b)
	half := mask(a.W) >> 1
	signedOK := ah <= half && bh <= half
	if op == OpUlt || op == OpUle || signedOK {
		lt := op == OpUlt || op == OpSlt
		if lt {
			if ah < bl {
				return c.tt
			}
			if al >= bh {
				return c.ff
			}
		} else {
			if ah <= bl {
				return c.tt
			}
			if al > bh {
				return c.ff
			}
		}
		if signedOK {
			if op == OpSlt {
				op = OpUlt
			} else if op == OpSle {
				op = OpUle
			}
		}
	}
	if a.Op == OpZExt && b.Op == OpZExt && a.A[0].W == b.A[0].W && (op == OpUlt || op == OpUle) {
		return c.Cmp(op, a.A[0], b.A[0])
	}
	if a.Op == OpZExt && b.IsConst() && b.C <= mask(a.A[0].W) && (op == OpUlt || op == OpUle) {
		return c.Cmp(op, a.A[0], c.Const(b.C, a.A[0].W))
	}
	if b.Op == OpZExt && a.IsConst() && a.C <= mask(b.A[0].W) && (op == OpUlt || op == OpUle) {
		return c.Cmp(op, c.Const(a.C, b.A[0].W), b.A[0])
	}
	if op == OpUlt && b.IsConst() && b.C == 1 {
		return c.Eq(a, c.Const(0, a.W))
	}
	if op == OpUlt && a.IsConst() && a.C == 0 {
		return c.Not(c.Eq(b, c.Const(0, a.W)))
	}
	return c.mk(op, 0, 0, "", a, b)
}

func (c *Ctx) Concat(hi, lo *T) *T {
	w := hi.W + lo.W
	if w > 64 {
		panic("smt: concat wider than 64")
	}
	if hi.IsConst() && lo.IsConst() {
		return c.Const(hi.C<<uint(lo.W)|lo.C, w)
	}
	if hi.IsConst() && hi.C == 0 {
		return c.ZExt(lo, w)
	}
	if hi.Op == OpExtract && lo.Op == OpExtract && hi.A[0] == lo.A[0] && int(hi.C&0xffff) == int(lo.C>>16)+1 {
		return c.Extract(hi.A[0], int(hi.C>>16), int(lo.C&0xffff))
	}
	// right-assoc merge: concat(extract, concat(extract', r))
	if lo.Op == OpConcat && hi.Op == OpExtract && lo.A[0].Op == OpExtract && hi.A[0] == lo.A[0].A[0] && int(hi.C&0xffff) == int(lo.A[0].C>>16)+1 {
		return c.Concat(c.Extract(hi.A[0], int(hi.C>>16), int(lo.A[0].C&0xffff)), lo.A[1])
	}
	if hi.Op == OpConcat {
		return c.Concat(hi.A[0], c.Concat(hi.A[1], lo))
	}
	return c.mk(OpConcat, w, 0, "", hi, lo)
}

func (c *Ctx) Extract(a *T, hi, lo int) *T {
	if lo == 0 && hi == a.W-1 {
		return a
	}
	w := hi - lo + 1
	switch a.Op {
	case OpConst:
		return c.Const(a.C>>uint(lo), w)
	case OpExtract:
		l := int(a.C & 0xffff)
		return c.Extract(a.A[0], hi+l, lo+l)
	case OpConcat:
		lw := a.A[1].W
		if hi < lw {
			return c.Extract(a.A[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.A[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.A[0], hi-lw, 0), c.Extract(a.A[1], lw-1, lo))
	case OpZExt:
		iw := a.A[0].W
		if lo >= iw {
			return c.Const(0, w)
		}
		if hi < iw {
			return c.Extract(a.A[0], hi, lo)
		}
		return c.ZExt(c.Extract(a.A[0], iw-1, lo), w)
	case OpSExt:
		iw := a.A[0].W
		if hi < iw {
			return c.Extract(a.A[0], hi, lo)
		}
	case OpBAnd, OpBOr, OpBXor:
		return c.Bin(a.Op, c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
	case OpBNot:
		return c.BNot(c.Extract(a.A[0], hi, lo))
	case OpIte:
		if a.A[1].IsConst() || a.A[2].IsConst() {
			return c.Ite(a.A[0], c.Extract(a.A[1], hi, lo), c.Extract(a.A[2], hi, lo))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.Op, c.Extract(a.A[0], hi, 0), c.Extract(a.A[1], hi, 0))
		}
	}
	return c.mk(OpExtract, w, uint64(hi)<<16|uint64(lo), "", a)
}

func (c *Ctx) ZExt(a *T, w int) *T {
	if w == a.W {
		return a
	}
	if a.IsConst() {
		return c.Const(a.C, w)
	}
	if a.Op == OpZExt {
		a = a.A[0]
	}
	if a.Op == OpIte && a.A[1].IsConst() && a.A[2].IsConst() {
		return c.Ite(a.A[0], c.Const(a.A[1].C, w), c.Const(a.A[2].C, w))
	}
	return c.mk(OpZExt, w, 0, "", a)
}

func (c *Ctx) SExt(a *T, w int) *T {
	if w == a.W {
		return a
	}
	if a.IsConst() {
		return c.Const(uint64(sext(a.C, a.W)), w)
	}
	if a.Op == OpZExt { // top bit is zero
		return c.ZExt(a.A[0], w)
	}
	_, h := urange(a)
	if h <= mask(a.W)>>1 {
		return c.ZExt(a, w)
	}
	return c.mk(OpSExt, w, 0, "", a)
}

// Model maps variable names to values; absent variables are zero.
type Model map[string]uint64

// Eval evaluates t under m (memo may be shared between calls with the same model).
func Eval(t *T, m Model, memo map[*T]uint64) uint64 {
	switch t.Op {
	case OpConst:
		return t.C
	case OpVar:
		return m[t.Name] & maskB(t.W)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var v uint64
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.Op {
	case OpNot:
		v = 1 - Eval(t.A[0], m, memo)
	case OpAnd:
		v = 1
		for _, a := range t.A {
			if Eval(a, m, memo) == 0 {
				v = 0
				break
			}
		}
	case OpOr:
		for _, a := range t.A {
			if Eval(a, m, memo) == 1 {
				v = 1
				break
			}
		}
	case OpEq:
		v = b(Eval(t.A[0], m, memo) == Eval(t.A[1], m, memo))
	case OpIte:
		if Eval(t.A[0], m, memo) == 1 {
			v = Eval(t.A[1], m, memo)
		} else {
			v = Eval(t.A[2], m, memo)
		}
	case OpUlt:
		v = b(Eval(t.A[0], m, memo) < Eval(t.A[1], m, memo))
	case OpUle:
		v = b(Eval(t.A[0], m, memo) <= Eval(t.A[1], m, memo))
	case OpSlt:
		v = b(sext(Eval(t.A[0], m, memo), t.A[0].W) < sext(Eval(t.A[1], m, memo), t.A[0].W))
	case OpSle:
		v = b(sext(Eval(t.A[0], m, memo), t.A[0].W) <= sext(Eval(t.A[1], m, memo), t.A[0].W))
	case OpBNot:
		v = ^Eval(t.A[0], m, memo) & mask(t.W)
	case OpNeg:
		v = -Eval(t.A[0], m, memo) & mask(t.W)
	case OpConcat:
		v = Eval(t.A[0], m, memo)<<uint(t.A[1].W) | Eval(t.A[1], m, memo)
	case OpExtract:
		v = (Eval(t.A[0], m, memo) >> uint(t.C&0xffff)) & mask(t.W)
	case OpZExt:
		v = Eval(t.A[0], m, memo)
	case OpSExt:
		v = uint64(sext(Eval(t.A[0], m, memo), t.A[0].W)) & mask(t.W)
	default:
		v, _ = fold(t.Op, Eval(t.A[0], m, memo), Eval(t.A[1], m, memo), t.W)
	}
	memo[t] = v
	return v
}

func maskB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// CollectVars adds the variables of t to set.
func CollectVars(t *T, set map[*T]bool, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OpVar {
		set[t] = true
		return
	}
	for _, a := range t.A {
		CollectVars(a, set, seen)
	}
}
