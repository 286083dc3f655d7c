package vm

import (
	"go/types"
	"strings"
)

var syncMap func(th *thread, at value) *hmap

// heldBy reports whether what a named type holds is counted: the module under
// test's own types and the containers it uses, but not the harness's.
func heldBy(pkg string) bool {
	if strings.Contains(pkg, "/verif/") {
		return false
	}
	return pkg == "container/list" || pkg == "github.com/perlin-network/noise" || strings.HasPrefix(pkg, "github.com/perlin-network/noise/")
}

// holds counts what is reachable from v: pointers, and the elements of slices,
// maps and channels (vsym.Held is the native counterpart).
func holds(th *thread, t types.Type, v value, at *value, seen map[any]bool) int {
	if t == nil || v == nil {
		return 0
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg := ""
		if n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
		if pkg == "sync" && n.Obj().Name() == "Map" && at != nil {
			m := syncMap(th, at)
			k := m.len()
			any := types.NewInterfaceType(nil, nil)
			for _, e := range m.ents {
				if !e.deleted {
					k += holds(th, any, e.k, nil, seen) + holds(th, any, e.v, nil, seen)
				}
			}
			return k
		}
		if pkg != "" && !heldBy(pkg) {
			return 0
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil || seen[p] {
			return 0
		}
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !heldBy(n.Obj().Pkg().Path()) && n.Obj().Pkg().Path() != "sync" {
			return 0
		}
		seen[p] = true
		return 1 + holds(th, u.Elem(), *p, p, seen)
	case *types.Struct:
		st, ok := v.(structure)
		if !ok {
			return 0
		}
		k := 0
		for i := range st {
			if i < u.NumFields() {
				k += holds(th, u.Field(i).Type(), st[i], &st[i], seen)
			}
		}
		return k
	case *types.Array:
		k := 0
		if ar, ok := v.(array); ok && !scalar(u.Elem()) {
			for i := range ar {
				k += holds(th, u.Elem(), ar[i], &ar[i], seen)
			}
		}
		return k
	case *types.Slice:
		s, ok := v.([]value)
		if !ok || len(s) == 0 || seen[&s[0]] {
			return 0
		}
		seen[&s[0]] = true
		k := len(s)
		if !scalar(u.Elem()) {
			for i := range s {
				k += holds(th, u.Elem(), s[i], &s[i], seen)
			}
		}
		return k
	case *types.Map:
		m, ok := v.(*hmap)
		if !ok || m == nil || seen[m] {
			return 0
		}
		seen[m] = true
		k := m.len()
		for _, e := range m.ents {
			if !e.deleted {
				k += holds(th, u.Key(), e.k, nil, seen) + holds(th, u.Elem(), e.v, nil, seen)
			}
		}
		return k
	case *types.Chan:
		c, ok := v.(*vchan)
		if !ok || c == nil || seen[c] {
			return 0
		}
		seen[c] = true
		return len(c.buf)
	case *types.Interface:
		i, ok := v.(iface)
		if !ok || i.t == nil {
			return 0
		}
		return holds(th, i.t, i.v, nil, seen)
	}
	return 0
}

func scalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}
