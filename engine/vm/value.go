// Package vm is a symbolic executor for Go SSA.  It executes the functions of
// the program under test on values whose scalar leaves may be SMT terms, forks
// on feasible branches, and schedules the program's goroutines itself.
package vm

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/smt"
)

// value is any of:
//
//	bool, uint64 (every integer type, zero-extended bit pattern), float64,
//	*smt.T (symbolic bool / bit-vector), string, *rope (symbolic string),
//	*value (pointer), *symPtr, *castPtr, unsafePtr, dataPtr,
//	structure, array, []value (slice), *hmap, iface, *vchan,
//	*ssa.Function/*closure/*ssa.Builtin (funcs), tuple,
//	rtypeVal, reflVal, *iter, poison, native (opaque host value)
type value = any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // canonical; nil for the nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// hostFn is a function value implemented by the engine.
type hostFn struct {
	name string
	f    func(th *thread, args []value) value
}

// symPtr is a pointer into arr at a symbolic (already range-checked) index.
type symPtr struct {
	arr []value
	idx *smt.T
}

// castPtr is a pointer obtained through unsafe.Pointer.
type castPtr struct {
	p  value // *value or dataPtr
	to types.Type
}

type unsafePtr struct{ v value }
type dataPtr struct{ s []value }

// poison marks the result of something that could not be evaluated during the
// lazy initialisation of a library package.
type poison struct{ why string }

// rtypeVal is the dynamic value behind a reflect.Type.
type rtypeVal struct{ t types.Type }
type reflVal struct {
	t types.Type
	v value
}

// native wraps an opaque host object.
type native struct{ v any }

// rope is a string with symbolic content.  A part is uint64 (byte), *smt.T
// (byte) or *opaquePart (an injective rendering of its arguments).
type rope struct{ parts []value }

type opaquePart struct {
	tag  string
	args []value
}

func (r *rope) hasOpaque() bool {
	for _, p := range r.parts {
		if _, ok := p.(*opaquePart); ok {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- type canon

type typeTable struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

var canonTab typeTable

type canonEntry struct {
	t  types.Type
	id int
}

func canonEnt(t types.Type) *canonEntry {
	canonTab.mu.Lock()
	defer canonTab.mu.Unlock()
	if e := canonTab.m.At(t); e != nil {
		return e.(*canonEntry)
	}
	canonTab.n++
	e := &canonEntry{types.Unalias(t), canonTab.n}
	canonTab.m.Set(t, e)
	return e
}

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return canonEnt(t).t
}

// ---------------------------------------------------------------- int kinds

type intKind struct {
	w      int
	signed bool
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// intOf returns the width and signedness of an integer type.
func intOf(t types.Type) (intKind, bool) {
	b := basicOf(t)
	if b == nil {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	}
	return intKind{}, false
}

func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return nil
		}
		if t.Info()&types.IsInteger != 0 {
			return uint64(0)
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{}
		}
		return poison{"zero of " + t.String()}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		fillZero(a, t.Elem())
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Chan:
		return (*vchan)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(unsupported{"zero value of " + t.String()})
}

func fillZero(a []value, elem types.Type) {
	z := zero(elem)
	switch z.(type) {
	case structure, array:
		for i := range a {
			a[i] = zero(elem)
		}
	default:
		for i := range a {
			a[i] = z
		}
	}
}

// copyVal copies aggregates (which have value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case array:
		c := make(array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case structure, array:
				for i, x := range v {
					c[i] = copyVal(x)
				}
			default:
				copy(c, v)
			}
		}
		return c
	}
	return v
}

// store writes v into cell *p, keeping aggregate backing arrays so that
// pointers to fields and elements stay valid.
func storeInto(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(v) {
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(v) {
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---------------------------------------------------------------- strings

// strBytes returns the bytes of a string value, or false if it has opaque parts.
func strBytes(v value) ([]value, bool) {
	switch s := v.(type) {
	case string:
		b := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b, true
	case *rope:
		if s.hasOpaque() {
			return nil, false
		}
		return s.parts, true
	}
	return nil, false
}

func strParts(v value) []value {
	switch s := v.(type) {
	case string:
		b, _ := strBytes(s)
		return b
	case *rope:
		return s.parts
	case poison:
		panic(unsupported{"string from " + s.why})
	}
	panic(unsupported{fmt.Sprintf("string of host type %T", v)})
}

// mkString builds a string from parts, concrete when possible.
func mkString(parts []value) value {
	for _, p := range parts {
		if _, ok := p.(uint64); !ok {
			return &rope{append([]value(nil), parts...)}
		}
	}
	b := make([]byte, len(parts))
	for i, p := range parts {
		b[i] = byte(p.(uint64))
	}
	return string(b)
}

func concatStr(a, b value) value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as + bs
	}
	pa, pb := strParts(a), strParts(b)
	return mkString(append(append([]value(nil), pa...), pb...))
}

// concrete bytes of a []value of uint64.
func concBytes(s []value) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, x := range s {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(u)
	}
	return b, true
}

func bytesVal(b []byte) []value {
	s := make([]value, len(b))
	for i, x := range b {
		s[i] = uint64(x)
	}
	return s
}

// ---------------------------------------------------------------- printing

func render(v value) string {
	var sb strings.Builder
	renderTo(&sb, v, 0)
	return sb.String()
}

func renderTo(sb *strings.Builder, v value, d int) {
	if d > 4 {
		sb.WriteString("...")
		return
	}
	switch v := v.(type) {
	case nil:
		sb.WriteString("nil")
	case *smt.T:
		fmt.Fprintf(sb, "<sym:%d>", v.W)
	case iface:
		if v.t == nil {
			sb.WriteString("<nil>")
			return
		}
		sb.WriteString(v.t.String() + "(")
		renderTo(sb, v.v, d+1)
		sb.WriteString(")")
	case structure:
		sb.WriteString("{")
		for i, x := range v {
			if i > 0 {
				sb.WriteString(" ")
			}
			renderTo(sb, x, d+1)
		}
		sb.WriteString("}")
	case array:
		renderTo(sb, []value(v), d)
	case []value:
		sb.WriteString("[")
		for i, x := range v {
			if i > 16 {
				fmt.Fprintf(sb, " ...%d", len(v))
				break
			}
			if i > 0 {
				sb.WriteString(" ")
			}
			renderTo(sb, x, d+1)
		}
		sb.WriteString("]")
	case *value:
		if v == nil {
			sb.WriteString("nil")
		} else {
			sb.WriteString("&")
			renderTo(sb, *v, d+2)
		}
	case string:
		fmt.Fprintf(sb, "%s", v)
	case *rope:
		sb.WriteString("<symstr>")
	case *ssa.Function:
		if v == nil {
			sb.WriteString("nil")
		} else {
			sb.WriteString(v.String())
		}
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

// ---------------------------------------------------------------- host panics

// unsupported aborts the path: the engine cannot execute something.
type unsupported struct{ why string }

// goPanic is a Go panic of the interpreted program.
type goPanic struct {
	v     value // an interface value
	stack string
}

// killed unwinds a host goroutine when its path ends.
type killed struct{}
