package vm

import (
	"fmt"
	"go/types"
	"hash/fnv"

	"golang.org/x/tools/go/ssa"
)

// reflect.Kind numbers
func reflectKind(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (vm *VM) rtypeT() types.Type {
	sp := vm.pkgs["reflect"]
	return canon(types.NewPointer(sp.Type("rtype").Type()))
}

func (vm *VM) mkType(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{vm.rtypeT(), rtypeVal{canon(t)}}
}

func asType(v value) types.Type {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return nil
		}
		return v.v.(rtypeVal).t
	case rtypeVal:
		return v.t
	}
	panic(unsupported{fmt.Sprintf("reflect type of host type %T", v)})
}

func asRefl(v value) reflVal {
	if r, ok := v.(reflVal); ok {
		return r
	}
	return reflVal{}
}

func initReflect(I map[string]intrinsic) {
	I["reflect.TypeOf"] = func(th *thread, a []value) value { return th.vm.mkType(a[0].(iface).t) }
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	I["reflect.ValueOf"] = func(th *thread, a []value) value {
		i := a[0].(iface)
		return reflVal{i.t, i.v}
	}
	I["reflect.FuncOf"] = func(th *thread, a []value) value {
		mk := func(v value) *types.Tuple {
			var vs []*types.Var
			for _, x := range v.([]value) {
				vs = append(vs, types.NewVar(0, nil, "", asType(x)))
			}
			return types.NewTuple(vs...)
		}
		sig := types.NewSignatureType(nil, nil, nil, mk(a[0]), mk(a[1]), th.p.truth(a[2]))
		return th.vm.mkType(sig)
	}
	for _, n := range []string{"PtrTo", "PointerTo"} {
		I["reflect."+n] = func(th *thread, a []value) value { return th.vm.mkType(types.NewPointer(asType(a[0]))) }
	}
	I["reflect.SliceOf"] = func(th *thread, a []value) value { return th.vm.mkType(types.NewSlice(asType(a[0]))) }
	I["reflect.DeepEqual"] = func(th *thread, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t != y.t {
			return false
		}
		if xs, ok := x.v.([]value); ok {
			return th.equalSeq(xs, y.v.([]value), byteType)
		}
		return th.equal(x.v, y.v, x.t)
	}
	T := func(name string, f intrinsic) { I["(*reflect.rtype)."+name] = f }
	T("Kind", func(th *thread, a []value) value { return reflectKind(asType(a[0])) })
	T("String", func(th *thread, a []value) value { return asType(a[0]).String() })
	T("Name", func(th *thread, a []value) value {
		if n, ok := asType(a[0]).(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	})
	T("Elem", func(th *thread, a []value) value {
		switch u := asType(a[0]).Underlying().(type) {
		case *types.Pointer:
			return th.vm.mkType(u.Elem())
		case *types.Slice:
			return th.vm.mkType(u.Elem())
		case *types.Array:
			return th.vm.mkType(u.Elem())
		case *types.Map:
			return th.vm.mkType(u.Elem())
		case *types.Chan:
			return th.vm.mkType(u.Elem())
		}
		th.fatal("reflect: Elem of invalid type " + asType(a[0]).String())
		return nil
	})
	T("Comparable", func(th *thread, a []value) value { return types.Comparable(asType(a[0])) })
	T("Implements", func(th *thread, a []value) value {
		it, ok := asType(a[1]).Underlying().(*types.Interface)
		return ok && types.Implements(asType(a[0]), it)
	})
	T("AssignableTo", func(th *thread, a []value) value { return types.AssignableTo(asType(a[0]), asType(a[1])) })
	T("ConvertibleTo", func(th *thread, a []value) value { return types.ConvertibleTo(asType(a[0]), asType(a[1])) })
	sigOf := func(v value) *types.Signature {
		s, ok := asType(v).Underlying().(*types.Signature)
		if !ok {
			panic(unsupported{"reflect: not a func"})
		}
		return s
	}
	T("NumIn", func(th *thread, a []value) value { return uint64(sigOf(a[0]).Params().Len()) })
	T("NumOut", func(th *thread, a []value) value { return uint64(sigOf(a[0]).Results().Len()) })
	T("In", func(th *thread, a []value) value {
		return th.vm.mkType(sigOf(a[0]).Params().At(int(asU64(a[1]))).Type())
	})
	T("Out", func(th *thread, a []value) value {
		return th.vm.mkType(sigOf(a[0]).Results().At(int(asU64(a[1]))).Type())
	})
	T("IsVariadic", func(th *thread, a []value) value { return sigOf(a[0]).Variadic() })

	V := func(name string, f intrinsic) { I["(reflect.Value)."+name] = f }
	V("Type", func(th *thread, a []value) value { return th.vm.mkType(asRefl(a[0]).t) })
	V("Kind", func(th *thread, a []value) value {
		r := asRefl(a[0])
		if r.t == nil {
			return uint64(0)
		}
		return reflectKind(r.t)
	})
	V("IsValid", func(th *thread, a []value) value { return asRefl(a[0]).t != nil })
	V("String", func(th *thread, a []value) value {
		r := asRefl(a[0])
		if r.t == nil {
			return "<invalid Value>"
		}
		if s, ok := r.v.(string); ok {
			return s
		}
		return "<" + r.t.String() + " Value>"
	})
	V("IsNil", func(th *thread, a []value) value {
		r := asRefl(a[0])
		switch v := r.v.(type) {
		case iface:
			return v.t == nil
		case *value:
			return v == nil
		case []value:
			return v == nil
		case *hmap:
			return v == nil
		case *vchan:
			return v == nil
		case nil:
			return true
		}
		return false
	})
	V("IsZero", func(th *thread, a []value) value {
		r := asRefl(a[0])
		if r.t == nil {
			th.fatal("reflect: IsZero of zero Value")
		}
		return th.isZero(r.t, r.v)
	})
	V("Pointer", func(th *thread, a []value) value {
		switch f := asRefl(a[0]).v.(type) {
		case *ssa.Function:
			return funcAddr(f)
		case *closure:
			return funcAddr(f.fn)
		case nil:
			return uint64(0)
		}
		panic(unsupported{"reflect: Pointer of " + asRefl(a[0]).t.String()})
	})
	V("Interface", func(th *thread, a []value) value {
		r := asRefl(a[0])
		if i, ok := r.v.(iface); ok && r.t != nil {
			if _, isI := r.t.Underlying().(*types.Interface); isI {
				return i
			}
		}
		if r.t == nil {
			th.fatal("reflect: Interface on zero Value")
		}
		return iface{r.t, copyVal(r.v)}
	})
	V("Elem", func(th *thread, a []value) value {
		r := asRefl(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p := r.v.(*value)
			if p == nil {
				return reflVal{}
			}
			return reflVal{canon(u.Elem()), copyVal(*p)}
		case *types.Interface:
			i := r.v.(iface)
			return reflVal{i.t, i.v}
		}
		th.fatal("reflect: Elem of " + r.t.String())
		return nil
	})
	V("Call", func(th *thread, a []value) value {
		r := asRefl(a[0])
		if r.t == nil {
			th.fatal("reflect: call of zero Value")
		}
		sig, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			th.fatal("reflect: call of non-function")
		}
		in := a[1].([]value)
		if len(in) != sig.Params().Len() {
			th.fatal("reflect: Call with wrong number of input arguments")
		}
		var args []value
		for i, x := range in {
			rv := asRefl(x)
			pt := sig.Params().At(i).Type()
			if _, isI := pt.Underlying().(*types.Interface); isI {
				if _, already := rv.t.Underlying().(*types.Interface); !already {
					args = append(args, iface{rv.t, rv.v})
					continue
				}
			} else if !types.AssignableTo(rv.t, pt) {
				th.fatal("reflect: Call using " + rv.t.String() + " as type " + pt.String())
			}
			args = append(args, rv.v)
		}
		res := th.callAny(r.v, args)
		out := []value{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, reflVal{canon(sig.Results().At(0).Type()), res})
		default:
			for i, x := range res.(tuple) {
				out = append(out, reflVal{canon(sig.Results().At(i).Type()), x})
			}
		}
		return out
	})
}

// funcAddr stands in for the address of a function's code.
func funcAddr(f *ssa.Function) value {
	h := fnv.New64a()
	h.Write([]byte(f.String()))
	return h.Sum64() | 1<<40
}

func (th *thread) isZero(t types.Type, v value) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return v == nil || v.([]value) == nil
	case *types.Map, *types.Signature, *types.Chan:
		switch v := v.(type) {
		case *hmap:
			return v == nil
		case *vchan:
			return v == nil
		}
		return v == nil
	case *types.Struct:
		for i, f := range v.(structure) {
			if !th.isZero(u.Field(i).Type(), f) {
				return false
			}
		}
		return true
	case *types.Array:
		for _, f := range v.(array) {
			if !th.isZero(u.Elem(), f) {
				return false
			}
		}
		return true
	}
	return th.p.truth(th.equal(v, zero(t), t))
}
