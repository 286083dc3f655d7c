package vmodel

import (
	"context"
	"sync"
	"time"

	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

var (
	wmu   sync.Mutex
	waits []time.Duration
)

func waiting(d time.Duration) {
	wmu.Lock()
	waits = append(waits, d)
	wmu.Unlock()
}

// Waits lists how long the code under test set out to wait each time it
// started a timer or a context with a timeout.
func Waits() []time.Duration {
	wmu.Lock()
	defer wmu.Unlock()
	return append([]time.Duration(nil), waits...)
}

// WithTimeout replaces context.WithTimeout in native replays: timeouts of the
// code under test are waits for an answer that never comes, so they are cut
// short.
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	waiting(d)
	if s := vsym.Idle(); d > s {
		d = s
	}
	return context.WithTimeout(p, d)
}

func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	waiting(t.Sub(vnet.Now()))
	return context.WithTimeout(p, vsym.Idle())
}
