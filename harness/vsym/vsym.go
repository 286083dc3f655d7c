// Package vsym is the interface between the harnesses and the two ways they
// are run. The symbolic engine replaces every function of this package by an
// intrinsic; the bodies below are what a natively compiled harness runs when a
// counterexample (or a sampled path) of the engine is replayed.
package vsym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// RuntimeError is the engine's representation of a Go run-time panic.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// Delay holds a named goroutine at a named point.
type Delay struct {
	Thread string
	At     string
	Occ    int
	Resume int
}

type replay struct {
	Model  map[string]uint64
	Delays []Delay
	Unit   int // milliseconds per resume rank
	Jitter int64
	Params map[string]int
	Limit  int // seconds before the run counts as hung
}

var (
	once  sync.Once
	rep   replay
	mu    sync.Mutex
	count = map[string]int{}
	names = map[int64]string{}
	kids  = map[int64]int{}
	occ   = map[string]int{}
	held  int
	act   int64
	base  int
	jit   uint64
)

// Setup is called by the native driver before the harness.
func Setup() {
	once.Do(func() {
		rep.Model = map[string]uint64{}
		if f := os.Getenv("VSYM_MODEL"); f != "" {
			b, err := os.ReadFile(f)
			if err == nil {
				err = json.Unmarshal(b, &rep)
			}
			if err != nil {
				fmt.Println("VSYM-ERROR", err)
				os.Exit(20)
			}
		}
		if rep.Unit == 0 {
			rep.Unit = 120
		}
		if rep.Limit == 0 {
			rep.Limit = 20
		}
		jit = uint64(rep.Jitter)
		lock()
		names[gid()] = "0"
		unlock()
		limit := time.Duration(rep.Limit) * time.Second
		time.AfterFunc(limit, func() {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Printf("VSYM-HANG after %v\n%s\n", limit, buf[:n])
			os.Exit(11)
		})
		base = runtime.NumGoroutine()
	})
}

// What the replay machinery does must not order what the program does.
func lock()   { RaceOff(); mu.Lock(); RaceOn() }
func unlock() { RaceOff(); mu.Unlock(); RaceOn() }

func gid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

func next(name string) uint64 {
	lock()
	defer unlock()
	k := count[name]
	count[name] = k + 1
	return rep.Model[fmt.Sprintf("%s#%d", name, k)]
}

func Bool(name string) bool  { return next(name) != 0 }
func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }

// Int returns a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(next(name))
	if v < lo {
		v = lo
	}
	return v
}

// Choose returns a value in [0,n) that the engine enumerates by forking.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

// Conc forks over the values of x.
func Conc(x int) int { return x }

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

func Assume(c bool) {
	if !c {
		fmt.Println("VSYM-ASSUME-FAILED")
		os.Exit(12)
	}
}

func Assert(c bool, label string) {
	if !c {
		fmt.Printf("VSYM-VIOLATION %s\n", label)
		os.Exit(10)
	}
}

// Reach marks a point the exploration must get to (vacuity guard).
func Reach(label string) {}

// And, Or, Not, Implies combine conditions without branching.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

// Eq compares byte strings without branching.
func Eq(a, b []byte) bool { return bytes.Equal(a, b) }

// Explore allows up to n delays from here on; 0 stops exploring schedules.
func Explore(n int) {}

// Quiesce waits until no other goroutine can make progress.
func Quiesce() {
	last, same := int64(-1), 0
	for i := 0; i < 4000; i++ {
		runtime.Gosched()
		time.Sleep(5 * time.Millisecond)
		lock()
		h := held
		unlock()
		RaceOff()
		a := atomic.LoadInt64(&act)
		RaceOn()
		if a == last && h == 0 {
			same++
			if same >= 12 {
				return
			}
		} else {
			same = 0
		}
		last = a
	}
}

// Live counts the goroutines other than the caller that have not ended.
func Live() int {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine() - base
		if n <= 0 || i >= 20 {
			return n
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Held counts what is reachable from x through the types of the module under
// test: pointers, and the elements of slices, maps and channels.
func Held(x interface{}) int {
	RaceOff()
	defer RaceOn()
	return holds(reflect.ValueOf(x), map[uintptr]bool{})
}

func heldBy(pkg string) bool {
	if strings.Contains(pkg, "/verif/") {
		return false
	}
	return pkg == "container/list" || pkg == "github.com/perlin-network/noise" || strings.HasPrefix(pkg, "github.com/perlin-network/noise/")
}

func holds(v reflect.Value, seen map[uintptr]bool) int {
	if !v.IsValid() {
		return 0
	}
	t := v.Type()
	pkg := t.PkgPath()
	if pkg == "sync" && t.Name() == "Map" && v.CanAddr() {
		k := 0
		(*sync.Map)(unsafe.Pointer(v.UnsafeAddr())).Range(func(key, val interface{}) bool {
			k += 1 + holds(reflect.ValueOf(key), seen) + holds(reflect.ValueOf(val), seen)
			return true
		})
		return k
	}
	if pkg != "" && !heldBy(pkg) {
		return 0
	}
	scalar := func(t reflect.Type) bool {
		return t.Kind() <= reflect.Complex128 || t.Kind() == reflect.String || t.Kind() == reflect.UnsafePointer
	}
	k := 0
	switch t.Kind() {
	case reflect.Ptr:
		e := t.Elem().PkgPath()
		if v.IsNil() || e != "" && !heldBy(e) && e != "sync" {
			return 0
		}
		// The first field of a struct has the address of the struct.
		at := v.Pointer() ^ uintptr(t.Elem().Size())<<48
		if seen[at] {
			return 0
		}
		seen[at] = true
		return 1 + holds(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			k += holds(v.Field(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && !scalar(t.Elem()); i++ {
			k += holds(v.Index(i), seen)
		}
	case reflect.Slice:
		if v.Len() == 0 || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		k = v.Len()
		for i := 0; i < v.Len() && !scalar(t.Elem()); i++ {
			k += holds(v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		k = v.Len()
		for it := v.MapRange(); it.Next(); {
			k += holds(it.Key(), seen) + holds(it.Value(), seen)
		}
	case reflect.Chan:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		return v.Len()
	case reflect.Interface:
		return holds(v.Elem(), seen)
	}
	return k
}

// Stacks describes live goroutines (native only).
func Stacks() string {
	buf := make([]byte, 1<<18)
	return string(buf[:runtime.Stack(buf, true)])
}

// Engine reports whether the symbolic engine is running the harness.
func Engine() bool { return false }

func Yield() { runtime.Gosched() }

// Param is a bound the driver may change.
func Param(name string, def int) int {
	if v, ok := rep.Params[name]; ok {
		return v
	}
	return def
}

func Activity() {
	RaceOff()
	atomic.AddInt64(&act, 1)
	RaceOn()
}

// Point is a scheduling point of a model.
func Point() { Activity() }

// PointAt is a named scheduling point of a harness or of instrumented code.
func PointAt(at string) {
	Activity()
	if len(rep.Delays) == 0 && rep.Jitter == 0 {
		return
	}
	id := gid()
	lock()
	if rep.Jitter != 0 {
		jit = jit*6364136223846793005 + 1442695040888963407
		r := jit >> 33
		unlock()
		switch r % 16 {
		case 0:
			time.Sleep(time.Duration(r>>8%2000) * time.Microsecond)
		case 1, 2, 3:
			runtime.Gosched()
		}
		return
	}
	nm, ok := names[id]
	if !ok {
		unlock()
		return
	}
	key := nm + "@" + at
	k := occ[key]
	occ[key] = k + 1
	var d *Delay
	for i := range rep.Delays {
		if rep.Delays[i].Thread == nm && rep.Delays[i].At == at && rep.Delays[i].Occ == k {
			d = &rep.Delays[i]
			break
		}
	}
	if d == nil {
		unlock()
		return
	}
	held++
	rank := d.Resume
	unlock()
	if os.Getenv("VSYM_TRACE") != "" {
		fmt.Printf("VSYM-DELAY %s at %s #%d rank %d\n", nm, at, k, rank)
	}
	if rank == 0 { // never resumed in the engine's run
		rank = 20
	}
	time.Sleep(time.Duration(rank*rep.Unit) * time.Millisecond)
	lock()
	held--
	unlock()
	Activity()
}

// Go starts f under a path-independent name (instrumented go statements).
func Go(f func()) {
	id := gid()
	lock()
	nm := names[id]
	if nm == "" {
		nm = "?"
	}
	nm = fmt.Sprintf("%s.%d", nm, kids[id])
	kids[id]++
	unlock()
	go func() {
		me := gid()
		lock()
		names[me] = nm
		kids[me] = 0
		unlock()
		defer func() {
			lock()
			delete(names, me)
			delete(kids, me)
			unlock()
		}()
		f()
	}()
}

// SleepUntilIdle returns once nothing else can run.
func SleepUntilIdle() { time.Sleep(Idle()) }

// Idle is how long native replays wait for what never comes.
func Idle() time.Duration {
	return 300*time.Millisecond + time.Duration(len(rep.Delays)*(len(rep.Delays)+1)/2*rep.Unit)*time.Millisecond
}

// Observe records a value of the run; replays compare these.
func Observe(label string, v interface{}) {
	var s string
	switch x := v.(type) {
	case bool:
		s = fmt.Sprintf("%v", x)
	case string:
		s = fmt.Sprintf("%q", x)
	case []byte:
		s = fmt.Sprintf("%x", x)
	case int:
		s = fmt.Sprintf("%d", uint64(x))
	case uint64:
		s = fmt.Sprintf("%d", x)
	case uint32:
		s = fmt.Sprintf("%d", x)
	case uint16:
		s = fmt.Sprintf("%d", x)
	case uint8:
		s = fmt.Sprintf("%d", x)
	default:
		s = fmt.Sprintf("%v", x)
	}
	fmt.Printf("VSYM-OBS %s=%s\n", strings.ReplaceAll(label, " ", "_"), s)
}

func Log(s string) {}

// Host functions of the engine; natively unused.
func HostSHA512(b []byte) []byte         { panic("engine only") }
func HostSHA256(b []byte) []byte         { panic("engine only") }
func HostKeyFromSeed(b []byte) []byte    { panic("engine only") }
func HostVerify(pub, msg, sig []byte) bool { panic("engine only") }
func HostX25519(scalar, p []byte) []byte { panic("engine only") }

// Symbolic reports whether b contains a symbolic byte.
func Symbolic(b []byte) bool { return false }
