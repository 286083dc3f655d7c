package vm

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/engine/smt"
)

// Symbolic arithmetic over *math/big.Int.  Operations on concrete numbers run
// the library's own code.  A symbolic number is a polynomial with integer
// coefficients over atoms: numbers read from symbolic bytes, residues
// ("mod"), modular inverses ("inv") and powers ("exp").  Atoms other than the
// bytes are uninterpreted but for the congruences applied when normalising, so
// equal polynomials denote equal numbers; different ones may be equal too.
type bigPoly struct {
	m map[string]*big.Int // monomial (sorted atom ids) -> nonzero coefficient
}

type bigAtom struct {
	id    int
	kind  string
	bytes []value // value as big-endian bytes, once needed (leaf: at once)
	p     *bigPoly
	mod   *big.Int
	zero  bool     // known to be zero on this path
	res   *big.Int // known residue modulo resOf on this path
	resOf *big.Int
}

type bigState struct {
	atoms []*bigAtom
	index map[string]*bigAtom
}

func (th *thread) bigs() *bigState {
	if th.p.host == nil {
		th.p.host = map[string]any{}
	}
	s, _ := th.p.host["big"].(*bigState)
	if s == nil {
		s = &bigState{index: map[string]*bigAtom{}}
		th.p.host["big"] = s
	}
	return s
}

func (s *bigState) atom(kind, key string) (*bigAtom, bool) {
	k := kind + ":" + key
	if a, ok := s.index[k]; ok {
		return a, true
	}
	a := &bigAtom{id: len(s.atoms), kind: kind}
	s.atoms = append(s.atoms, a)
	s.index[k] = a
	return a, false
}

func polyConst(c *big.Int) *bigPoly {
	p := &bigPoly{map[string]*big.Int{}}
	p.add("", c)
	return p
}

func polyAtom(a *bigAtom) *bigPoly {
	p := &bigPoly{map[string]*big.Int{}}
	p.add(fmt.Sprintf("%04d", a.id), big.NewInt(1))
	return p
}

func (p *bigPoly) add(k string, c *big.Int) {
	s := new(big.Int).Set(c)
	if o, ok := p.m[k]; ok {
		s.Add(s, o)
	}
	if s.Sign() == 0 {
		delete(p.m, k)
	} else {
		p.m[k] = s
	}
}

func (p *bigPoly) key() string {
	var ks []string
	for k, c := range p.m {
		ks = append(ks, k+"*"+c.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (p *bigPoly) isConst() (*big.Int, bool) {
	switch len(p.m) {
	case 0:
		return new(big.Int), true
	case 1:
		if c, ok := p.m[""]; ok {
			return c, true
		}
	}
	return nil, false
}

func polySum(a, b *bigPoly, sign int64) *bigPoly {
	r := &bigPoly{map[string]*big.Int{}}
	for k, c := range a.m {
		r.add(k, c)
	}
	for k, c := range b.m {
		r.add(k, new(big.Int).Mul(c, big.NewInt(sign)))
	}
	return r
}

func polyMul(a, b *bigPoly) *bigPoly {
	if len(a.m)*len(b.m) > 400 {
		panic(unsupported{"large symbolic product"})
	}
	r := &bigPoly{map[string]*big.Int{}}
	for k1, c1 := range a.m {
		for k2, c2 := range b.m {
			var ids []string
			for _, k := range []string{k1, k2} {
				if k != "" {
					ids = append(ids, strings.Split(k, ",")...)
				}
			}
			sort.Strings(ids)
			r.add(strings.Join(ids, ","), new(big.Int).Mul(c1, c2))
		}
	}
	return r
}

// single returns the atom a polynomial consists of.
func (s *bigState) single(p *bigPoly) *bigAtom {
	if len(p.m) != 1 {
		return nil
	}
	for k, c := range p.m {
		if k == "" || strings.Contains(k, ",") || c.Cmp(big.NewInt(1)) != 0 {
			return nil
		}
		var id int
		fmt.Sscanf(k, "%d", &id)
		return s.atoms[id]
	}
	return nil
}

// congruent normalises p modulo m: residues modulo m of other numbers are
// replaced by those numbers, and coefficients reduced.
func (th *thread) congruent(p *bigPoly, m *big.Int) *bigPoly {
	s := th.bigs()
	for n := 0; n < 16; n++ {
		r := &bigPoly{map[string]*big.Int{}}
		changed := false
		for k, c := range p.m {
			t := polyConst(new(big.Int).Mod(c, m))
			if k != "" {
				for _, x := range strings.Split(k, ",") {
					var id int
					fmt.Sscanf(x, "%d", &id)
					a := s.atoms[id]
					switch {
					case a.resOf != nil && a.resOf.Cmp(m) == 0:
						t = polyMul(t, polyConst(a.res))
						changed = true
					case a.kind == "mod" && a.mod.Cmp(m) == 0:
						t = polyMul(t, a.p)
						changed = true
					default:
						t = polyMul(t, polyAtom(a))
					}
				}
			}
			r = polySum(r, t, 1)
		}
		for k, c := range r.m {
			d := new(big.Int).Mod(c, m)
			if d.Sign() == 0 {
				delete(r.m, k)
			} else {
				r.m[k] = d
			}
		}
		p = r
		if !changed {
			break
		}
	}
	return p
}

func (th *thread) polyMod(p *bigPoly, m *big.Int) *bigPoly {
	p = th.congruent(p, m)
	if c, ok := p.isConst(); ok {
		return polyConst(c)
	}
	key := p.key()
	if z, ok := th.bigs().index["zero"+m.String()+":"+key]; ok && z.zero {
		return polyConst(new(big.Int))
	}
	a, ok := th.bigs().atom("mod", m.String()+"|"+key)
	if !ok {
		a.p, a.mod = p, m
	}
	return polyAtom(a)
}

// polyInv returns the inverse of p modulo the prime m, or nil on the path where
// p is a multiple of m.
func (th *thread) polyInv(p *bigPoly, m *big.Int) *bigPoly {
	p = th.congruent(p, m)
	if c, ok := p.isConst(); ok {
		if i := new(big.Int).ModInverse(c, m); i != nil {
			return polyConst(i)
		}
		return nil
	}
	if !m.ProbablyPrime(10) {
		panic(unsupported{"symbolic inverse modulo a composite"})
	}
	s := th.bigs()
	z, ok := s.atom("zero"+m.String(), p.key())
	if !ok {
		z.mod = m
		z.zero = !th.p.branch(th.p.fresh("invertible", 0))
		if z.zero && len(p.m) <= 2 {
			// p = c1*x + c0 = 0: then x is known, should x be a number read from bytes
			th.solveLinear(p, m)
		}
	}
	if z.zero {
		return nil
	}
	a, ok := s.atom("inv", m.String()+"|"+p.key())
	if !ok {
		a.p, a.mod = p, m
	}
	return polyAtom(a)
}

// solveLinear assumes that c1*x+c0 is a multiple of m.
func (th *thread) solveLinear(p *bigPoly, m *big.Int) {
	c0 := new(big.Int)
	var x *bigAtom
	var c1 *big.Int
	for k, c := range p.m {
		if k == "" {
			c0 = c
			continue
		}
		if strings.Contains(k, ",") {
			return
		}
		var id int
		fmt.Sscanf(k, "%d", &id)
		x, c1 = th.bigs().atoms[id], c
	}
	if x == nil {
		return
	}
	i := new(big.Int).ModInverse(c1, m)
	if i == nil {
		return
	}
	v := new(big.Int).Neg(c0)
	v.Mul(v, i).Mod(v, m)
	x.res, x.resOf = v, m
	if x.kind != "leaf" || len(x.bytes) > 32 {
		return
	}
	ctx := th.vm.ctx
	var alts []*smt.T
	for n := 0; n < 4 && v.BitLen() <= 8*len(x.bytes); n++ {
		b := v.FillBytes(make([]byte, len(x.bytes)))
		all := []*smt.T{}
		for j := range b {
			all = append(all, ctx.Eq(th.vm.term(x.bytes[j], 8), ctx.Const(uint64(b[j]), 8)))
		}
		alts = append(alts, ctx.And(all...))
		v = new(big.Int).Add(v, m)
	}
	th.p.assume(ctx.Or(alts...))
}

// bigBytes returns the value of p, which must be a natural below 2^256, as 32
// big-endian bytes.
func (th *thread) bigBytes(p *bigPoly) []value {
	if c, ok := p.isConst(); ok {
		if c.Sign() < 0 || c.BitLen() > 256 {
			panic(unsupported{"bytes of a wide number"})
		}
		return bytesVal(c.FillBytes(make([]byte, 32)))
	}
	a := th.bigs().single(p)
	if a == nil || a.kind != "leaf" && (a.kind != "mod" && a.kind != "inv" || a.mod.BitLen() > 256) {
		panic(unsupported{"bytes of a symbolic number that is not reduced"})
	}
	if a.bytes == nil {
		ctx := th.vm.ctx
		m := a.mod.FillBytes(make([]byte, 32))
		a.bytes = make([]value, 32)
		same, less := ctx.Bool(true), ctx.Bool(false)
		for i := range a.bytes {
			t, c := th.p.fresh("residue", 8), ctx.Const(uint64(m[i]), 8)
			a.bytes[i] = t
			less = ctx.Or(less, ctx.And(same, ctx.Cmp(smt.OpUlt, t, c)))
			same = ctx.And(same, ctx.Eq(t, c))
		}
		th.p.assume(less)
	}
	if len(a.bytes) > 32 {
		panic(unsupported{"bytes of a wide symbolic number"})
	}
	return append(make32(32-len(a.bytes)), a.bytes...)
}

func make32(n int) []value {
	z := make([]value, n)
	for i := range z {
		z[i] = uint64(0)
	}
	return z
}

// ---------------------------------------------------------------- *big.Int

func bigStruct(th *thread, v value) structure {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported{fmt.Sprintf("big.Int behind a %T", v)})
	}
	if p == nil {
		th.nilDeref()
	}
	return (*p).(structure)
}

func bigIsSym(th *thread, v value) bool {
	p, ok := v.(*value)
	if !ok || p == nil {
		return false
	}
	st, ok := (*p).(structure)
	if !ok {
		return false
	}
	abs, _ := st[1].([]value)
	if len(abs) == 1 {
		_, ok := abs[0].(*bigPoly)
		return ok
	}
	return false
}

func bigGet(th *thread, v value) *bigPoly {
	st := bigStruct(th, v)
	abs, _ := st[1].([]value)
	if len(abs) == 1 {
		if p, ok := abs[0].(*bigPoly); ok {
			return p
		}
	}
	c := new(big.Int)
	for i := len(abs) - 1; i >= 0; i-- {
		c.Lsh(c, 64)
		c.Or(c, new(big.Int).SetUint64(asU64(abs[i])))
	}
	if neg, ok := st[0].(bool); !ok {
		panic(unsupported{"symbolic sign"})
	} else if neg {
		c.Neg(c)
	}
	return polyConst(c)
}

func bigPut(th *thread, z value, p *bigPoly) value {
	st := bigStruct(th, z)
	if c, ok := p.isConst(); ok {
		var abs []value
		r := new(big.Int).Abs(c)
		w := new(big.Int)
		for r.Sign() > 0 {
			abs = append(abs, w.And(r, new(big.Int).SetUint64(^uint64(0))).Uint64())
			r.Rsh(r, 64)
		}
		st[0], st[1] = c.Sign() < 0, abs
		return z
	}
	st[0], st[1] = false, []value{p}
	return z
}

func constMod(p *bigPoly) *big.Int {
	m, ok := p.isConst()
	if !ok || m.Sign() <= 0 {
		panic(unsupported{"symbolic modulus"})
	}
	return m
}

// bigIntrinsics handle calls whose operands (the arguments after the first nz)
// are symbolic; others run the library's code.
var bigIntrinsics = map[string]struct {
	nz int
	f  intrinsic
}{}

func bigIntrinsic(ent *fnEntry, name string) intrinsic {
	b, ok := bigIntrinsics[name]
	if !ok {
		return nil
	}
	return func(th *thread, args []value) value {
		sym := false
		for _, a := range args[b.nz:] {
			switch a := a.(type) {
			case *value:
				sym = sym || bigIsSym(th, a)
			case []value:
				for _, x := range a {
					if _, ok := x.(*smt.T); ok {
						sym = true
						break
					}
				}
			}
		}
		if !sym {
			if b.nz == 1 && bigIsSym(th, args[0]) {
				bigStruct(th, args[0])[1] = []value(nil)
			}
			return th.callCode(ent, args, nil)
		}
		return b.f(th, args)
	}
}

func init() {
	B := func(name string, nz int, f intrinsic) {
		bigIntrinsics["(*math/big.Int)."+name] = struct {
			nz int
			f  intrinsic
		}{nz, f}
	}
	B("SetBytes", 1, func(th *thread, a []value) value {
		bs := append([]value(nil), a[1].([]value)...)
		var sb strings.Builder
		for _, x := range bs {
			fmt.Fprintf(&sb, "%v.%p|", render(x), x)
		}
		at, ok := th.bigs().atom("leaf", sb.String())
		if !ok {
			at.bytes = bs
		}
		return bigPut(th, a[0], polyAtom(at))
	})
	for _, n := range []string{"SetInt64", "SetUint64", "SetString", "SetBit", "Lsh", "Rsh"} {
		B(n, 1, func(th *thread, a []value) value { panic(unsupported{"symbolic big.Int operation"}) })
	}
	B("Set", 1, func(th *thread, a []value) value { return bigPut(th, a[0], bigGet(th, a[1])) })
	B("Neg", 1, func(th *thread, a []value) value {
		return bigPut(th, a[0], polySum(polyConst(new(big.Int)), bigGet(th, a[1]), -1))
	})
	B("Add", 1, func(th *thread, a []value) value {
		return bigPut(th, a[0], polySum(bigGet(th, a[1]), bigGet(th, a[2]), 1))
	})
	B("Sub", 1, func(th *thread, a []value) value {
		return bigPut(th, a[0], polySum(bigGet(th, a[1]), bigGet(th, a[2]), -1))
	})
	B("Mul", 1, func(th *thread, a []value) value {
		return bigPut(th, a[0], polyMul(bigGet(th, a[1]), bigGet(th, a[2])))
	})
	B("Mod", 1, func(th *thread, a []value) value {
		return bigPut(th, a[0], th.polyMod(bigGet(th, a[1]), constMod(bigGet(th, a[2]))))
	})
	B("ModInverse", 1, func(th *thread, a []value) value {
		r := th.polyInv(bigGet(th, a[1]), constMod(bigGet(th, a[2])))
		if r == nil {
			return (*value)(nil)
		}
		return bigPut(th, a[0], r)
	})
	B("Exp", 1, func(th *thread, a []value) value {
		m := constMod(bigGet(th, a[3]))
		e, ok := bigGet(th, a[2]).isConst()
		x := bigGet(th, a[1])
		if !ok || e.Sign() < 0 {
			panic(unsupported{"symbolic exponent"})
		}
		if new(big.Int).Add(e, big.NewInt(2)).Cmp(m) == 0 && m.ProbablyPrime(10) {
			r := th.polyInv(x, m)
			if r == nil {
				r = polyConst(new(big.Int))
			}
			return bigPut(th, a[0], r)
		}
		if e.BitLen() > 4 {
			panic(unsupported{"symbolic power"})
		}
		r := polyConst(big.NewInt(1))
		for i := int64(0); i < e.Int64(); i++ {
			r = polyMul(r, x)
		}
		return bigPut(th, a[0], th.polyMod(r, m))
	})
	B("FillBytes", 0, func(th *thread, a []value) value {
		bs := th.bigBytes(bigGet(th, a[0]))
		out := a[1].([]value)
		for len(bs) > len(out) {
			if !th.p.truth(th.eqInt(bs[0], uint64(0), 8)) {
				th.gopanic("math/big: buffer too small to fit value")
			}
			bs = bs[1:]
		}
		copy(out, append(make32(len(out)-len(bs)), bs...))
		return a[1]
	})
	B("Bytes", 0, func(th *thread, a []value) value {
		bs := th.bigBytes(bigGet(th, a[0]))
		for len(bs) > 0 && th.p.truth(th.eqInt(bs[0], uint64(0), 8)) {
			bs = bs[1:]
		}
		return append([]value{}, bs...)
	})
	B("Cmp", 0, func(th *thread, a []value) value {
		x, y := th.bigBytes(bigGet(th, a[0])), th.bigBytes(bigGet(th, a[1]))
		for i := range x {
			if th.p.branch(th.vm.ctx.Eq(th.vm.term(x[i], 8), th.vm.term(y[i], 8))) {
				continue
			}
			if th.p.branch(th.vm.ctx.Cmp(smt.OpUlt, th.vm.term(x[i], 8), th.vm.term(y[i], 8))) {
				return ^uint64(0)
			}
			return uint64(1)
		}
		return uint64(0)
	})
	B("Sign", 0, func(th *thread, a []value) value {
		for _, b := range th.bigBytes(bigGet(th, a[0])) {
			if !th.p.truth(th.eqInt(b, uint64(0), 8)) {
				return uint64(1)
			}
		}
		return uint64(0)
	})
}
