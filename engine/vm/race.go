package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking: with Config.Race, every load and store of the code
// under test (and of the library containers it uses) is checked against a
// vector clock built from the synchronisation of the interpreted program. Two
// accesses to one cell, at least one of them a write, that are not ordered are
// a data race of this path, whatever order the path happened to run them in.

type vclock []uint32

func (c vclock) get(i int) uint32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *vclock) join(o vclock) {
	for len(*c) < len(o) {
		*c = append(*c, 0)
	}
	for i, x := range o {
		if x > (*c)[i] {
			(*c)[i] = x
		}
	}
}

type epoch struct {
	tid int
	clk uint32
	at  string
	fn  string
}

type raceCell struct {
	w  epoch
	wr bool
	rs []epoch
}

type raceState struct {
	cells map[*value]*raceCell
	maps  map[*hmap]*raceCell
	sync  map[any]*vclock
	io    vclock
	seen  map[string]bool
}

func newRaceState() *raceState {
	return &raceState{cells: map[*value]*raceCell{}, maps: map[*hmap]*raceCell{}, sync: map[any]*vclock{}, seen: map[string]bool{}}
}

func (th *thread) tick() {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id]++
}

// quiet: synchronisation inside the stand-in network is not the program's.
func (th *thread) quiet() bool {
	return th.top != nil && th.top.code.noSync
}

// release makes what th did so far visible to whoever acquires c.
func (th *thread) release(c *vclock) {
	if th.p.race == nil || th.quiet() {
		return
	}
	c.join(th.vc)
	th.tick()
}

func (th *thread) acquire(c *vclock) {
	if th.p.race == nil || th.quiet() {
		return
	}
	th.vc.join(*c)
}

// syncClock is the clock of a synchronisation object without one of its own.
func (th *thread) syncClock(k any) *vclock {
	c := th.p.race.sync[k]
	if c == nil {
		c = new(vclock)
		th.p.race.sync[k] = c
	}
	return c
}

func (th *thread) acqRel(k any) {
	if th.p.race == nil || th.quiet() {
		return
	}
	c := th.syncClock(k)
	th.vc.join(*c)
	c.join(th.vc)
	th.tick()
}

func (th *thread) acq(k any) {
	if th.p.race == nil {
		return
	}
	th.acquire(th.syncClock(k))
}

func (th *thread) rel(k any) {
	if th.p.race == nil {
		return
	}
	th.release(th.syncClock(k))
}

// rendezvous orders two threads both ways (an unbuffered channel operation).
func rendezvous(a, b *thread) {
	if a.p.race == nil || a.quiet() || b.quiet() {
		return
	}
	a.vc.join(b.vc)
	b.vc.join(a.vc)
	a.tick()
	b.tick()
}

var raceLibs = map[string]bool{"container/list": true, "bufio": true, "bytes": true, "io": true, "sort": true, "container/heap": true, "slices": true, "maps": true, "strings": true}

// racy: the accesses of fn are tracked.
func (vm *VM) racy(fn *ssa.Function) bool {
	if !vm.race {
		return false
	}
	if vm.isVisible(fn) {
		return true
	}
	return raceLibs[vm.pkgPathOf(fn)]
}

func (vm *VM) pkgPathOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Package() != nil {
		return f.Package().Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// raceAt finds the place in the code under test an access belongs to.
func (th *thread) raceAt(fr *frame, pos token.Pos) (at, fn string, ok bool) {
	for f := fr; f != nil; f = f.caller {
		if f.code.visible {
			if f != fr || !pos.IsValid() {
				pos = f.pos
			}
			if !pos.IsValid() {
				pos = f.code.fn.Pos()
			}
			return th.vm.posKey(pos), f.code.name, true
		}
		if f.code.model {
			return "", "", false
		}
	}
	return "", "", false
}

func (th *thread) raceOn(c *raceCell, fr *frame, pos token.Pos, write bool) {
	me := th.vc.get(th.id)
	if write {
		if c.wr && c.w.tid == th.id && c.w.clk == me && len(c.rs) == 0 {
			return
		}
	} else {
		for i := range c.rs {
			if c.rs[i].tid == th.id && c.rs[i].clk == me {
				return
			}
		}
	}
	at, fn, ok := th.raceAt(fr, pos)
	if !ok {
		return
	}
	e := epoch{th.id, me, at, fn}
	if c.wr && c.w.tid != th.id && c.w.clk > th.vc.get(c.w.tid) {
		th.raceReport(c.w, true, e, write)
	}
	if write {
		for _, r := range c.rs {
			if r.tid != th.id && r.clk > th.vc.get(r.tid) {
				th.raceReport(r, false, e, true)
			}
		}
		c.w, c.wr, c.rs = e, true, c.rs[:0]
		return
	}
	for i := range c.rs {
		if c.rs[i].tid == th.id {
			c.rs[i] = e
			return
		}
	}
	c.rs = append(c.rs, e)
}

func (th *thread) raceReport(a epoch, aw bool, b epoch, bw bool) {
	side := func(e epoch, w bool) string {
		k := "read"
		if w {
			k = "write"
		}
		return k + " at " + shortFile(e.at)
	}
	s := []string{side(a, aw), side(b, bw)}
	sort.Strings(s)
	label := "data race: " + s[0] + " and " + s[1]
	if th.p.race.seen[label] {
		return
	}
	th.p.race.seen[label] = true
	th.p.report("race", label, fmt.Sprintf("%s (%s) by goroutine %s is not ordered with %s (%s) by goroutine %s", side(a, aw), a.fn,
		th.p.sched.threads[a.tid].name, side(b, bw), b.fn, th.name), th.p.model, th)
}

// raceVal records an access to everything the cell holds.
func (th *thread) raceVal(p *value, fr *frame, pos token.Pos, write bool) {
	switch v := (*p).(type) {
	case structure:
		for i := range v {
			th.raceVal(&v[i], fr, pos, write)
		}
		return
	case array:
		th.raceRange(v, fr, pos, write)
		return
	}
	rs := th.p.race
	c := rs.cells[p]
	if c == nil {
		c = &raceCell{}
		rs.cells[p] = c
	}
	th.raceOn(c, fr, pos, write)
}

// raceRange stands for the elements of a slice: all of a short one, the ends of
// a long one.
func (th *thread) raceRange(s []value, fr *frame, pos token.Pos, write bool) {
	if len(s) <= 4 {
		for i := range s {
			th.raceVal(&s[i], fr, pos, write)
		}
		return
	}
	th.raceVal(&s[0], fr, pos, write)
	th.raceVal(&s[len(s)-1], fr, pos, write)
}

func (th *thread) raceMap(m *hmap, fr *frame, pos token.Pos, write bool) {
	if m == nil {
		return
	}
	rs := th.p.race
	c := rs.maps[m]
	if c == nil {
		c = &raceCell{}
		rs.maps[m] = c
	}
	th.raceOn(c, fr, pos, write)
}

// localAddr: a does not leave its function.
func localAddr(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.Alloc:
		return !a.Heap
	case *ssa.FieldAddr:
		return localAddr(a.X)
	case *ssa.IndexAddr:
		return localAddr(a.X)
	}
	return false
}

// traceAccess wraps one compiled instruction with the recording of what it accesses.
func (c *compiler) traceAccess(in ssa.Instruction, f func(fr *frame)) func(fr *frame) {
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op != token.MUL || localAddr(in.X) {
			return f
		}
		if !pos.IsValid() {
			pos = in.X.Pos()
		}
		if _, ok := in.X.(*ssa.Global); ok {
			cell := c.vm.globalCell(in.X.(*ssa.Global))
			return func(fr *frame) {
				if fr.th.p.race != nil {
					fr.th.raceVal(cell, fr, pos, false)
				}
				f(fr)
			}
		}
		x := c.opd(in.X)
		return func(fr *frame) {
			if p, ok := fr.get(&x).(*value); ok && p != nil && fr.th.p.race != nil {
				fr.th.raceVal(p, fr, pos, false)
			}
			f(fr)
		}
	case *ssa.Store:
		if localAddr(in.Addr) {
			return f
		}
		if !pos.IsValid() {
			pos = in.Addr.Pos()
		}
		a := c.opd(in.Addr)
		return func(fr *frame) {
			if p, ok := fr.get(&a).(*value); ok && p != nil && fr.th.p.race != nil {
				fr.th.raceVal(p, fr, pos, true)
			}
			f(fr)
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return f
		}
		return c.traceMap(in.X, pos, false, f)
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return f
		}
		return c.traceMap(in.X, pos, false, f)
	case *ssa.Next:
		if in.IsString {
			return f
		}
		r, ok := in.Iter.(*ssa.Range)
		if !ok {
			return f
		}
		return c.traceMap(r.X, r.Pos(), false, f)
	case *ssa.MapUpdate:
		return c.traceMap(in.Map, pos, true, f)
	case *ssa.Convert:
		if _, ok := in.X.Type().Underlying().(*types.Slice); !ok {
			return f
		}
		x := c.opd(in.X)
		return func(fr *frame) {
			if s, ok := fr.get(&x).([]value); ok && fr.th.p.race != nil {
				fr.th.raceRange(s, fr, pos, false)
			}
			f(fr)
		}
	case *ssa.Call:
		b, ok := in.Call.Value.(*ssa.Builtin)
		if !ok {
			return f
		}
		switch b.Name() {
		case "delete", "clear", "len":
			if _, ok := in.Call.Args[0].Type().Underlying().(*types.Map); !ok {
				return f
			}
			return c.traceMap(in.Call.Args[0], pos, b.Name() != "len", f)
		case "copy":
			d, s := c.opd(in.Call.Args[0]), c.opd(in.Call.Args[1])
			return func(fr *frame) {
				if fr.th.p.race != nil {
					dv, _ := fr.get(&d).([]value)
					sv, isS := fr.get(&s).([]value)
					n := len(dv)
					if isS && len(sv) < n {
						n = len(sv)
					}
					if isS {
						fr.th.raceRange(sv[:n], fr, pos, false)
						fr.th.raceRange(dv[:n], fr, pos, true)
					}
				}
				f(fr)
			}
		case "append":
			if len(in.Call.Args) != 2 {
				return f
			}
			d, s := c.opd(in.Call.Args[0]), c.opd(in.Call.Args[1])
			return func(fr *frame) {
				if fr.th.p.race != nil {
					dv, _ := fr.get(&d).([]value)
					sv, _ := fr.get(&s).([]value)
					fr.th.raceRange(sv, fr, pos, false)
					if n := len(dv) + len(sv); len(sv) > 0 {
						if n <= cap(dv) {
							fr.th.raceRange(dv[len(dv):n], fr, pos, true)
						} else {
							fr.th.raceRange(dv, fr, pos, false)
						}
					}
				}
				f(fr)
			}
		}
	}
	return f
}

func (c *compiler) traceMap(m ssa.Value, pos token.Pos, write bool, f func(fr *frame)) func(fr *frame) {
	x := c.opd(m)
	return func(fr *frame) {
		if hm, ok := fr.get(&x).(*hmap); ok && fr.th.p.race != nil {
			fr.th.raceMap(hm, fr, pos, write)
		}
		f(fr)
	}
}

func isNet(path string) bool { return strings.HasSuffix(path, "/verif/vnet") }

// poolKey is what orders putting x into a pool and getting it out again.
func poolKey(pool, x value) any {
	if i, ok := x.(iface); ok {
		if p, ok := i.v.(*value); ok {
			return p
		}
	}
	return pool
}
