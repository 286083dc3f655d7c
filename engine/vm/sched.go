package vm

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

type thState int

const (
	thRunnable thState = iota
	thRunning
	thBlocked
	thDelayed
	thQuiesce
	thTimer
	thDone
)

// thread is one goroutine of the interpreted program, run on its own host
// goroutine; exactly one holds the baton at any time.
type thread struct {
	id      int
	name    string
	p       *path
	vm      *VM
	state   thState
	why     string
	wake    chan struct{}
	top     *frame
	nchild  int
	xchild  int
	occ     map[string]int
	prio    int // order among delayed threads
	depth   int
	init    bool // lazily initialising a library package
	resumed bool
	lazy    bool
	where   string
	vc      vclock
}

// sched picks threads the way the Go runtime does on one processor (a
// run-next slot and a FIFO run queue); a delayed thread continues only when
// no other thread can run; quiescing threads after that; timers last.
type sched struct {
	p        *path
	threads  []*thread
	runnext  *thread
	runq     []*thread
	delayed  []*thread
	quiesce  []*thread
	timers   []*thread
	cur      *thread
	explore  bool
	ended    bool
	end      endPath
	done     chan struct{}
	alive    int
	hostErr  any
	delays   []Delay
	resumeN  int
	Switches int
}

func newSched(p *path) *sched {
	s := &sched{p: p, done: make(chan struct{})}
	p.sched = s
	return s
}

func (s *sched) delayTrace() []Delay { return append([]Delay(nil), s.delays...) }

// spawn creates a goroutine that runs body.
func (s *sched) spawn(parent *thread, body func(th *thread)) *thread {
	return s.spawnNamed(parent, true, body)
}

// spawnNamed: goroutines started by code that native replays do not
// instrument get names of their own.
func (s *sched) spawnNamed(parent *thread, vis bool, body func(th *thread)) *thread {
	name := "0"
	if parent != nil && vis {
		name = fmt.Sprintf("%s.%d", parent.name, parent.nchild)
		parent.nchild++
	} else if parent != nil {
		name = fmt.Sprintf("%s.x%d", parent.name, parent.xchild)
		parent.xchild++
	}
	th := &thread{id: len(s.threads), name: name, p: s.p, vm: s.p.vm, wake: make(chan struct{}, 1), occ: map[string]int{}}
	if s.p.race != nil {
		if parent != nil {
			th.vc.join(parent.vc)
			parent.tick()
		}
		th.tick()
	}
	if len(s.threads) > 4000 {
		panic(unsupported{"too many goroutines"})
	}
	s.threads = append(s.threads, th)
	s.alive++
	go func() {
		<-th.wake
		defer func() {
			r := recover()
			s.finish(th, r)
		}()
		if s.ended {
			panic(killed{})
		}
		body(th)
	}()
	return th
}

// finish is called on the dying host goroutine of th, which holds the baton.
func (s *sched) finish(th *thread, r any) {
	th.state = thDone
	s.alive--
	if !s.ended {
		switch r := r.(type) {
		case nil:
			if th.id == 0 {
				s.stop(endPath{""})
			}
		case endPath:
			s.stop(r)
		case unsupported:
			s.stop(endPath{"unsupported: " + r.why + " [" + th.where + "]"})
		case goPanic:
			s.p.reportPanic(th, r)
			s.stop(endPath{"violation"})
		case killed:
		default:
			s.hostErr = fmt.Sprintf("%v [%s]", r, th.where)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
			}
			s.stop(endPath{"unsupported: engine error " + fmt.Sprint(r) + " [" + th.where + "]"})
		}
	}
	if s.ended {
		s.killNext()
		return
	}
	s.dispatch()
}

func (s *sched) stop(e endPath) {
	if !s.ended {
		s.ended = true
		s.end = e
	}
}

// killNext unwinds the remaining host goroutines one at a time.
func (s *sched) killNext() {
	for _, t := range s.threads {
		if t.state != thDone && t.state != thRunning {
			t.state = thRunning
			t.wake <- struct{}{}
			return
		}
	}
	for _, t := range s.threads {
		if t.state != thDone {
			return // somebody is still unwinding
		}
	}
	close(s.done)
}

// ready makes th runnable; next puts it in the run-next slot.
func (s *sched) ready(th *thread, next bool) {
	th.state = thRunnable
	th.why = ""
	if th.lazy {
		th.state = thTimer
		s.timers = append(s.timers, th)
		return
	}
	if next {
		if s.runnext != nil {
			s.runq = append(s.runq, s.runnext)
		}
		s.runnext = th
		return
	}
	s.runq = append(s.runq, th)
}

func (s *sched) pick() *thread {
	if th := s.runnext; th != nil {
		s.runnext = nil
		return th
	}
	if len(s.runq) > 0 {
		th := s.runq[0]
		s.runq = s.runq[1:]
		return th
	}
	if n := len(s.delayed); n > 0 {
		k := 0
		if n > 1 {
			k = s.p.choose("sched_resume", n)
		}
		th := s.delayed[k]
		s.delayed = append(s.delayed[:k:k], s.delayed[k+1:]...)
		s.resumeN++
		s.delays[th.prio].Resume = s.resumeN
		return th
	}
	if len(s.quiesce) > 0 {
		th := s.quiesce[0]
		s.quiesce = s.quiesce[1:]
		return th
	}
	if len(s.timers) > 0 {
		th := s.timers[0]
		s.timers = s.timers[1:]
		th.lazy = false
		return th
	}
	return nil
}

// dispatch hands the baton to the next thread (not returning control here).
func (s *sched) dispatch() {
	var th *thread
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case endPath:
				s.stop(r)
			case unsupported:
				s.stop(endPath{"unsupported: " + r.why})
			default:
				panic(r)
			}
		}()
		th = s.pick()
	}()
	if s.ended {
		s.killNext()
		return
	}
	if th == nil {
		s.p.reportDeadlock()
		s.stop(endPath{"violation"})
		s.killNext()
		return
	}
	s.Switches++
	th.state = thRunning
	s.cur = th
	th.wake <- struct{}{}
}

// yieldTo gives up the baton and waits until it comes back.
func (th *thread) park(st thState, why string) {
	s := th.p.sched
	th.state = st
	th.why = why
	s.dispatch()
	<-th.wake
	if s.ended {
		panic(killed{})
	}
	th.state = thRunning
	s.cur = th
}

// block parks th until somebody calls ready on it.
func (th *thread) block(why string) {
	if th.init {
		panic(unsupported{"blocking operation in package initialisation: " + why})
	}
	th.park(thBlocked, why)
}

// point is a scheduling point before a visible operation at source position at.
func (th *thread) point(at string) {
	s := th.p.sched
	if s == nil || th.init {
		return
	}
	th.p.nPoints++
	k := th.occ[at]
	th.occ[at] = k + 1
	if !s.explore {
		return
	}
	if len(s.delays) >= th.p.budget {
		return
	}
	if s.runnext == nil && len(s.runq) == 0 && len(s.delayed) == 0 {
		return // nobody else could run
	}
	if th.p.choose("sched_delay", 2) == 0 {
		return
	}
	th.prio = len(s.delays)
	s.delays = append(s.delays, Delay{Thread: th.name, At: at, Occ: k})
	s.delayed = append(s.delayed, th)
	th.park(thDelayed, "delayed")
}

func (th *thread) yield() {
	if th.init {
		return
	}
	s := th.p.sched
	s.runq = append(s.runq, th)
	th.park(thRunnable, "yield")
}

func (p *path) reportPanic(th *thread, g goPanic) {
	msg := p.vm.panicString(th, g.v)
	p.report("panic", "panic", msg, p.model, th)
	p.violations[len(p.violations)-1].Stack = g.stack
}

func (p *path) reportDeadlock() {
	var sb strings.Builder
	for _, t := range p.sched.threads {
		if t.state == thBlocked {
			fmt.Fprintf(&sb, "%s: %s at %s; ", t.name, t.why, t.stackTop())
		}
	}
	p.report("deadlock", "deadlock", sb.String(), p.model, nil)
}

// ---------------------------------------------------------------- channels

type sudog struct {
	th    *thread
	ch    *vchan
	val   value // value to send / received value
	ok    bool
	sel   *selState // non-nil when part of a select
	idx   int
	fired bool
}

type selState struct {
	done  bool
	which int
	val   value
	ok    bool
}

type vchan struct {
	cap    int
	buf    []value
	closed bool
	recvq  []*sudog
	sendq  []*sudog
	zero   value
	clk    map[int]*vclock // per slot; -1: close
	sendx  int
	recvx  int
}

func (c *vchan) slot(i int) *vclock {
	if c.clk == nil {
		c.clk = map[int]*vclock{}
	}
	if i >= 0 && c.cap > 0 {
		i %= c.cap
	}
	v := c.clk[i]
	if v == nil {
		v = new(vclock)
		c.clk[i] = v
	}
	return v
}

// through orders th with the other users of a buffer slot.
func (c *vchan) through(th *thread, i int) {
	if th.p.race == nil || th.quiet() {
		return
	}
	k := c.slot(i)
	th.vc.join(*k)
	k.join(th.vc)
	th.tick()
}

func (c *vchan) deqRecv() *sudog {
	for len(c.recvq) > 0 {
		g := c.recvq[0]
		c.recvq = c.recvq[1:]
		if g.sel != nil {
			if g.sel.done {
				continue
			}
			g.sel.done = true
			g.sel.which = g.idx
		}
		return g
	}
	return nil
}

func (c *vchan) deqSend() *sudog {
	for len(c.sendq) > 0 {
		g := c.sendq[0]
		c.sendq = c.sendq[1:]
		if g.sel != nil {
			if g.sel.done {
				continue
			}
			g.sel.done = true
			g.sel.which = g.idx
		}
		return g
	}
	return nil
}

func liveq(q []*sudog) bool {
	for _, g := range q {
		if g.sel == nil || !g.sel.done {
			return true
		}
	}
	return false
}

func (c *vchan) canSend() bool {
	return c.closed || liveq(c.recvq) || len(c.buf) < c.cap
}
func (c *vchan) canRecv() bool {
	return len(c.buf) > 0 || liveq(c.sendq) || c.closed
}

// doSend performs a send that canSend allows.
func (c *vchan) doSend(th *thread, v value) {
	if c.closed {
		th.gopanic("send on closed channel")
	}
	s := th.p.sched
	if g := c.deqRecv(); g != nil {
		if c.cap == 0 {
			rendezvous(th, g.th)
		} else {
			c.through(th, c.sendx)
			c.through(g.th, c.sendx)
			c.sendx++
			c.recvx++
		}
		g.val, g.ok, g.fired = v, true, true
		if g.sel != nil {
			g.sel.val, g.sel.ok = v, true
		}
		s.ready(g.th, true)
		return
	}
	c.through(th, c.sendx)
	c.sendx++
	c.buf = append(c.buf, v)
}

func (c *vchan) doRecv(th *thread) (value, bool) {
	s := th.p.sched
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]value(nil), c.buf[1:]...)
		c.through(th, c.recvx)
		c.recvx++
		if g := c.deqSend(); g != nil {
			c.buf = append(c.buf, g.val)
			c.through(g.th, c.sendx)
			c.sendx++
			g.fired = true
			g.ok = true
			if g.sel != nil {
				g.sel.ok = true
			}
			s.ready(g.th, true)
		}
		return v, true
	}
	if g := c.deqSend(); g != nil {
		rendezvous(th, g.th)
		g.fired = true
		g.ok = true
		if g.sel != nil {
			g.sel.ok = true
		}
		s.ready(g.th, true)
		return g.val, true
	}
	th.acquire(c.slot(-1))
	return copyVal(c.zero), false // closed
}

func (th *thread) chanSend(c *vchan, v value) {
	if c == nil {
		th.block("send on nil channel")
		panic(unsupported{"woken from nil channel"})
	}
	if c.canSend() {
		c.doSend(th, v)
		return
	}
	g := &sudog{th: th, ch: c, val: v}
	c.sendq = append(c.sendq, g)
	th.block("chan send")
	if !g.ok {
		th.gopanic("send on closed channel")
	}
}

func (th *thread) chanRecv(c *vchan) (value, bool) {
	if c == nil {
		th.block("receive from nil channel")
		panic(unsupported{"woken from nil channel"})
	}
	if c.canRecv() {
		return c.doRecv(th)
	}
	g := &sudog{th: th, ch: c}
	c.recvq = append(c.recvq, g)
	th.block("chan receive")
	return g.val, g.ok
}

func (th *thread) chanClose(c *vchan) {
	if c == nil {
		th.gopanic("close of nil channel")
	}
	if c.closed {
		th.gopanic("close of closed channel")
	}
	c.closed = true
	s := th.p.sched
	th.release(c.slot(-1))
	var wake []*thread
	for {
		g := c.deqRecv()
		if g == nil {
			break
		}
		g.th.acquire(c.slot(-1))
		g.val, g.ok, g.fired = copyVal(c.zero), false, true
		if g.sel != nil {
			g.sel.val, g.sel.ok = g.val, false
		}
		wake = append(wake, g.th)
	}
	for {
		g := c.deqSend()
		if g == nil {
			break
		}
		g.ok, g.fired = false, true
		if g.sel != nil {
			g.sel.ok = false
		}
		wake = append(wake, g.th)
	}
	for _, t := range wake {
		s.ready(t, true)
	}
}

type selCase struct {
	ch   *vchan
	send bool
	val  value
}

// selectOp returns the chosen case (or -1 for default).
func (th *thread) selectOp(cases []selCase, blocking bool) (int, value, bool) {
	var rdy []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send && c.ch.canSend() || !c.send && c.ch.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && th.p.sched.explore {
			k = th.p.choose("select", len(rdy))
		}
		i := rdy[k]
		if cases[i].send {
			cases[i].ch.doSend(th, cases[i].val)
			return i, nil, false
		}
		v, ok := cases[i].ch.doRecv(th)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{which: -1}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		g := &sudog{th: th, ch: c.ch, val: c.val, sel: st, idx: i}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, g)
		} else {
			c.ch.recvq = append(c.ch.recvq, g)
		}
	}
	th.block("select")
	if st.which < 0 {
		panic(unsupported{"select woken without a case"})
	}
	if cases[st.which].send {
		if !st.ok {
			th.gopanic("send on closed channel")
		}
		return st.which, nil, false
	}
	return st.which, st.val, st.ok
}

// ---------------------------------------------------------------- sync objects

type vmutex struct {
	locked  bool
	clk     vclock
	owner   *thread
	waiters []*thread
}

type vrw struct {
	writer  bool
	readers int
	pending int // writers waiting
	wclk    vclock
	rclk    vclock
	waiters []*thread
}

type vcond struct{ waiters []*condWaiter }
type condWaiter struct {
	th       *thread
	signaled bool
}

type vwg struct {
	n       int
	clk     vclock
	waiters []*thread
}

type vonce struct {
	done    bool
	running bool
	clk     vclock
	waiters []*thread
}

func (m *vmutex) lock(th *thread) {
	for m.locked {
		m.waiters = append(m.waiters, th)
		th.block("mutex lock")
	}
	m.locked = true
	m.owner = th
	th.acquire(&m.clk)
}

func (m *vmutex) unlock(th *thread) {
	if !m.locked {
		th.fatal("sync: unlock of unlocked mutex")
	}
	th.release(&m.clk)
	m.locked = false
	m.owner = nil
	if len(m.waiters) > 0 {
		w := m.waiters[0]
		m.waiters = m.waiters[1:]
		th.p.sched.ready(w, false)
	}
}

func (m *vrw) wakeAll(th *thread) {
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		th.p.sched.ready(w, false)
	}
}

func (m *vrw) lock(th *thread) {
	if m.writer || m.readers > 0 {
		m.pending++
		for m.writer || m.readers > 0 {
			m.waiters = append(m.waiters, th)
			th.block("rwmutex lock")
		}
		m.pending--
	}
	m.writer = true
	th.acquire(&m.wclk)
	th.acquire(&m.rclk)
}

func (m *vrw) unlock(th *thread) {
	if !m.writer {
		th.fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	th.release(&m.wclk)
	m.wakeAll(th)
}

func (m *vrw) rlock(th *thread) {
	for m.writer || m.pending > 0 {
		m.waiters = append(m.waiters, th)
		th.block("rwmutex rlock")
	}
	m.readers++
	th.acquire(&m.wclk)
}

func (m *vrw) runlock(th *thread) {
	if m.readers == 0 {
		th.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	th.release(&m.rclk)
	if m.readers == 0 {
		m.wakeAll(th)
	}
}
