// Package vmodel holds the models of the libraries under the code under test
// that the symbolic engine runs instead of the originals. Functions in
// native.go are also used by native replays.
package vmodel

import (
	"sync"
	"time"

	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

type vtimer struct {
	t       *time.Timer
	f       func()
	c       chan time.Time
	stopped bool
	fired   bool
	gen     int
}

var (
	tmu    sync.Mutex
	timers = map[*time.Timer]*vtimer{}
)

func (v *vtimer) start(d time.Duration) {
	tmu.Lock()
	v.gen++
	g := v.gen
	v.stopped, v.fired = false, false
	tmu.Unlock()
	go func() {
		vsym.SleepUntilIdle()
		tmu.Lock()
		ok := !v.stopped && v.gen == g
		v.fired = ok
		tmu.Unlock()
		if !ok {
			return
		}
		if v.f != nil {
			v.f()
			return
		}
		select {
		case v.c <- vnet.Now():
		default:
		}
	}()
}

// AfterFunc is time.AfterFunc: it fires when nothing else can run.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	waiting(d)
	v := &vtimer{t: &time.Timer{}, f: f}
	tmu.Lock()
	timers[v.t] = v
	tmu.Unlock()
	v.start(d)
	return v.t
}

func NewTimer(d time.Duration) *time.Timer {
	waiting(d)
	c := make(chan time.Time, 1)
	v := &vtimer{t: &time.Timer{C: c}, c: c}
	tmu.Lock()
	timers[v.t] = v
	tmu.Unlock()
	v.start(d)
	return v.t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Stop(t *time.Timer) bool {
	tmu.Lock()
	defer tmu.Unlock()
	v := timers[t]
	if v == nil {
		return false
	}
	was := !v.stopped && !v.fired
	v.stopped = true
	return was
}

func Reset(t *time.Timer, d time.Duration) bool {
	was := Stop(t)
	tmu.Lock()
	v := timers[t]
	tmu.Unlock()
	v.start(d)
	return was
}

func Sleep(d time.Duration) { vsym.SleepUntilIdle() }

func Now() time.Time                  { return vnet.Now() }
func Since(t time.Time) time.Duration { return vnet.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(vnet.Now()) }
