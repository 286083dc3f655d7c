// Package vnet is an in-memory stand-in for TCP. The same code is interpreted
// by the symbolic engine and compiled into native replays.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/perlin-network/noise/verif/vsym"
)

// The synchronisation in here is not the program's: a real network would not
// order what its users do, except that reading follows writing.
func lock()   { vsym.RaceOff(); w.mu.Lock(); vsym.RaceOn() }
func unlock() { vsym.RaceOff(); w.mu.Unlock(); vsym.RaceOn() }
func wait()   { vsym.RaceOff(); w.cond.Wait(); vsym.RaceOn() }
func wake()   { vsym.RaceOff(); w.cond.Broadcast(); vsym.RaceOn() }

// world is the whole network.
type world struct {
	mu        sync.Mutex
	listeners map[int]*Listener
	nextPort  int
	conns     []*Conn
	dials     map[int]int // dial attempts per port
	holdDial  map[int]bool
	failDial  map[int]int
	portSeq   int
	now       int64
	sleepers  []*Conn
	cond      *sync.Cond
	frag      func(c *Conn, n int) int
}

var w = newWorld()

func newWorld() *world {
	x := &world{listeners: map[int]*Listener{}, nextPort: 9000, portSeq: 40000, dials: map[int]int{}, holdDial: map[int]bool{}, failDial: map[int]int{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

var errClosed = errors.New("use of closed network connection")
var ErrRefused = errors.New("connection refused")
var errReset = errors.New("connection reset by peer")
var errPipe = errors.New("broken pipe")

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }
func (timeoutError) Is(err error) bool {
	return err == os.ErrDeadlineExceeded
}

// ---------------------------------------------------------------- clock

const epoch = 1600000000

// Now is the virtual clock.
func Now() time.Time {
	lock()
	defer unlock()
	return time.Unix(epoch+w.now/1e9, w.now%1e9)
}

// Advance moves the virtual clock; expired deadlines take effect.
func Advance(d time.Duration) {
	vsym.Activity()
	lock()
	w.now += int64(d)
	wake()
	unlock()
}

func (x *world) expired(t time.Time) bool {
	if t.IsZero() {
		return false
	}
	n := time.Unix(epoch+x.now/1e9, x.now%1e9)
	return !n.Before(t)
}

// ---------------------------------------------------------------- listener

// Listener is an in-memory net.Listener.
type Listener struct {
	addr      *net.TCPAddr
	queue     []*Conn
	closed    bool
	FailClose bool
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func splitPort(addr string) (string, int, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return "", 0, err
	}
	n, err := strconv.Atoi(p)
	if err != nil || n < 0 || n > 65535 {
		return "", 0, errors.New("invalid port")
	}
	return h, n, nil
}

// Listen is net.Listen.
func Listen(network, address string) (net.Listener, error) {
	h, p, err := splitPort(address)
	if err != nil {
		return nil, opErr("listen", err)
	}
	vsym.Activity()
	lock()
	defer unlock()
	if p == 0 {
		w.nextPort++
		p = w.nextPort
	}
	if w.listeners[p] != nil {
		return nil, opErr("listen", errors.New("address already in use"))
	}
	ip := net.IPv6unspecified
	if h != "" {
		ip = net.ParseIP(h)
		if ip == nil {
			return nil, opErr("listen", errors.New("no such host"))
		}
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
	}
	l := &Listener{addr: &net.TCPAddr{IP: ip, Port: p}}
	w.listeners[p] = l
	return l, nil
}

// Raw opens a listener for a harness peer.
func Raw() *Listener {
	l, err := Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	return l.(*Listener)
}

func (l *Listener) Addr() net.Addr { return l.addr }
func (l *Listener) Port() int      { return l.addr.Port }
func (l *Listener) HostPort() string {
	return ":" + strconv.Itoa(l.addr.Port)
}

func (l *Listener) Accept() (net.Conn, error) {
	vsym.Point()
	lock()
	defer unlock()
	for len(l.queue) == 0 && !l.closed {
		wait()
	}
	if l.closed {
		return nil, opErr("accept", errClosed)
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	c.accepted = true
	vsym.Activity()
	return c, nil
}

// AcceptRaw is Accept for harness peers.
func (l *Listener) AcceptRaw() *Conn {
	c, err := l.Accept()
	if err != nil {
		return nil
	}
	return c.(*Conn)
}

func (l *Listener) Close() error {
	vsym.Point()
	lock()
	defer unlock()
	if l.closed {
		return opErr("close", errClosed)
	}
	l.closed = true
	for _, c := range l.queue { // never accepted: reset
		c.rd.reset = true
		c.wr.reset = true
		c.local = true
	}
	delete(w.listeners, l.addr.Port)
	wake()
	return nil
}

// ---------------------------------------------------------------- dialing

// HoldDials makes dials to the port hang until released.
func HoldDials(port int, hold bool) {
	lock()
	w.holdDial[port] = hold
	wake()
	unlock()
}

// Dials counts dial attempts to the port.
func Dials(port int) int {
	lock()
	defer unlock()
	return w.dials[port]
}

// FailDials refuses the next n dials to the port.
func FailDials(port, n int) {
	lock()
	w.failDial[port] = n
	unlock()
}

// ReusePort makes the next dialed connection use the given local port.
func ReusePort(port int) {
	lock()
	w.portSeq = port - 1
	unlock()
}

// DialContext is (*net.Dialer).DialContext.
func DialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	var cancel <-chan struct{}
	if d != nil {
		cancel = d.Cancel
	}
	c, err := dial(ctx, cancel, address)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// DialD is (*net.Dialer).Dial.
func DialD(d *net.Dialer, network, address string) (net.Conn, error) {
	return DialContext(d, context.Background(), network, address)
}

// Dial is net.Dial.
func Dial(network, address string) (net.Conn, error) {
	return DialContext(nil, context.Background(), network, address)
}

// DialTimeout is net.DialTimeout.
func DialTimeout(network, address string, t time.Duration) (net.Conn, error) {
	return DialContext(nil, context.Background(), network, address)
}

// DialRaw connects a harness peer.
func DialRaw(address string) *Conn {
	c, err := dial(context.Background(), nil, address)
	if err != nil {
		return nil
	}
	return c
}

func dial(ctx context.Context, cancel <-chan struct{}, address string) (*Conn, error) {
	vsym.Point()
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	if cancelled(cancel) {
		return nil, opErr("dial", context.Canceled)
	}
	_, p, err := splitPort(address)
	if err != nil {
		return nil, opErr("dial", err)
	}
	lock()
	w.dials[p]++
	if w.holdDial[p] {
		unlock()
		if err := holdDial(ctx, cancel, p); err != nil {
			return nil, opErr("dial", err)
		}
		lock()
	}
	defer unlock()
	if w.failDial[p] > 0 {
		w.failDial[p]--
		return nil, opErr("dial", ErrRefused)
	}
	l := w.listeners[p]
	if l == nil {
		return nil, opErr("dial", ErrRefused)
	}
	w.portSeq++
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: w.portSeq}
	a, b := &half{}, &half{}
	cl := &Conn{la: la, ra: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p}, rd: a, wr: b, dialed: true}
	sv := &Conn{la: cl.ra, ra: la, rd: b, wr: a}
	cl.peer, sv.peer = sv, cl
	w.conns = append(w.conns, cl, sv)
	l.queue = append(l.queue, sv)
	wake()
	vsym.Activity()
	return cl, nil
}

func cancelled(ch <-chan struct{}) bool {
	if ch == nil {
		return false
	}
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func holdDial(ctx context.Context, cancel <-chan struct{}, p int) error {
	stop := make(chan struct{})
	free := make(chan struct{})
	vsym.Go(func() {
		lock()
		for w.holdDial[p] && !isDone(stop) {
			wait()
		}
		unlock()
		close(free)
	})
	err := error(nil)
	select {
	case <-ctx.Done():
		err = ctx.Err()
	case <-cancel:
		err = context.Canceled
	case <-free:
		return nil
	}
	close(stop)
	lock()
	wake()
	unlock()
	return err
}

func isDone(ch chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// ---------------------------------------------------------------- connections

// half is one direction of a connection.
type half struct {
	buf     []byte
	total   int
	eof     bool // writer closed
	reset   bool
	dead    bool  // reader closed
	limit   int   // 0: unlimited buffering
	chunks  []int // sizes the next reads return at most
	tap     func(b []byte)
	log     []byte
	record  bool
	stalled bool // delivers nothing
}

// Conn is one end of an in-memory connection.
type Conn struct {
	la, ra   *net.TCPAddr
	rd, wr   *half
	peer     *Conn
	local    bool // closed locally
	closes   int
	dialed   bool
	accepted bool
	rdl, wdl time.Time
	RdlSet   int
	WdlSet   int
}

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

// Peer is the other end.
func (c *Conn) Peer() *Conn { return c.peer }

func (c *Conn) Read(p []byte) (int, error) {
	vsym.Point()
	lock()
	defer unlock()
	for {
		if c.local {
			return 0, opErr("read", errClosed)
		}
		if w.expired(c.rdl) {
			return 0, opErr("read", timeoutError{})
		}
		if len(p) == 0 {
			return 0, nil
		}
		if c.rd.reset {
			return 0, opErr("read", errReset)
		}
		if len(c.rd.buf) > 0 && !c.rd.stalled {
			n := len(p)
			if n > len(c.rd.buf) {
				n = len(c.rd.buf)
			}
			if len(c.rd.chunks) > 0 {
				if c.rd.chunks[0] < n {
					n = c.rd.chunks[0]
				}
				c.rd.chunks = c.rd.chunks[1:]
			}
			copy(p, c.rd.buf[:n])
			c.rd.buf = c.rd.buf[n:]
			if c.rd.limit > 0 {
				wake()
			}
			vsym.Activity()
			vsym.Received()
			return n, nil
		}
		if c.rd.eof && !c.rd.stalled {
			vsym.Received()
			return 0, io.EOF
		}
		wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	vsym.Point()
	vsym.Sent()
	lock()
	defer unlock()
	done := 0
	for {
		if c.local {
			return done, opErr("write", errClosed)
		}
		if w.expired(c.wdl) {
			return done, opErr("write", timeoutError{})
		}
		if c.wr.reset || c.wr.dead {
			return done, opErr("write", errPipe)
		}
		n := len(p) - done
		if c.wr.limit > 0 && len(c.wr.buf)+n > c.wr.limit {
			n = c.wr.limit - len(c.wr.buf)
		}
		if n > 0 {
			b := append([]byte(nil), p[done:done+n]...)
			c.wr.buf = append(c.wr.buf, b...)
			c.wr.total += n
			if c.wr.record {
				c.wr.log = append(c.wr.log, b...)
			}
			done += n
			wake()
			vsym.Activity()
		}
		if done == len(p) {
			return done, nil
		}
		wait()
	}
}

// Close is called through net.Conn by the code under test.
func (c *Conn) Close() error {
	vsym.Activity()
	lock()
	defer unlock()
	c.closes++
	if c.local {
		return opErr("close", errClosed)
	}
	c.local = true
	c.wr.eof = true
	c.rd.dead = true
	wake()
	return nil
}

// CloseWrite half-closes.
func (c *Conn) CloseWrite() error {
	lock()
	defer unlock()
	c.wr.eof = true
	wake()
	return nil
}

// Reset breaks the connection in both directions.
func (c *Conn) Reset() {
	vsym.Activity()
	lock()
	c.rd.reset = true
	c.wr.reset = true
	c.peer.rd.reset = true
	c.peer.wr.reset = true
	wake()
	unlock()
}

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	lock()
	defer unlock()
	if c.local {
		return opErr("set", errClosed)
	}
	c.rdl = t
	c.RdlSet++
	wake()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	lock()
	defer unlock()
	if c.local {
		return opErr("set", errClosed)
	}
	c.wdl = t
	c.WdlSet++
	wake()
	return nil
}

// SetKeepAlive and friends exist on *net.TCPConn.
func (c *Conn) SetKeepAlive(bool) error { return nil }
func (c *Conn) SetNoDelay(bool) error   { return nil }

// ---------------------------------------------------------------- harness controls

// Closed reports whether this end was closed locally.
func (c *Conn) Closed() bool {
	lock()
	defer unlock()
	return c.local
}

// PeerClosed reports whether the other end closed or reset the connection.
func (c *Conn) PeerClosed() bool {
	lock()
	defer unlock()
	return c.peer.local || c.rd.reset
}

// Chunks bounds the sizes of this end's next reads.
func (c *Conn) Chunks(sizes ...int) {
	lock()
	c.rd.chunks = sizes
	unlock()
}

// Limit bounds the bytes buffered towards the other end.
func (c *Conn) Limit(n int) {
	lock()
	c.wr.limit = n
	wake()
	unlock()
}

// Stall stops (or resumes) delivery to this end.
func (c *Conn) Stall(on bool) {
	lock()
	c.rd.stalled = on
	wake()
	unlock()
}

// Record keeps what this end writes.
func (c *Conn) Record() {
	lock()
	c.wr.record = true
	unlock()
}

// Recorded is what this end wrote since Record.
func (c *Conn) Recorded() []byte {
	lock()
	defer unlock()
	return append([]byte(nil), c.wr.log...)
}

// Buffered is what waits to be read by this end.
func (c *Conn) Buffered() int {
	lock()
	defer unlock()
	return len(c.rd.buf)
}

// Written counts the bytes this end wrote.
func (c *Conn) Written() int {
	lock()
	defer unlock()
	return c.wr.total
}

// Take returns up to n buffered bytes without blocking.
func (c *Conn) Take(n int) []byte {
	lock()
	defer unlock()
	if n > len(c.rd.buf) {
		n = len(c.rd.buf)
	}
	b := append([]byte(nil), c.rd.buf[:n]...)
	c.rd.buf = c.rd.buf[n:]
	wake()
	return b
}

// ReadFull reads exactly n bytes; nil when the connection ends first.
func (c *Conn) ReadFull(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil {
		return nil
	}
	return b
}

// Put writes everything.
func (c *Conn) Put(b []byte) bool {
	_, err := c.Write(b)
	return err == nil
}

// All lists every connection end created so far.
func All() []*Conn {
	lock()
	defer unlock()
	return append([]*Conn(nil), w.conns...)
}

// Dialed reports whether this end initiated the connection.
func (c *Conn) Dialed() bool { return c.dialed }

// LocalPort is the port of this end.
func (c *Conn) LocalPort() int { return c.la.Port }

// RemotePort is the port of the other end.
func (c *Conn) RemotePort() int { return c.ra.Port }

// Open counts the ends of a kind that are not closed.
func Open() int {
	lock()
	defer unlock()
	n := 0
	for _, c := range w.conns {
		if !c.local {
			n++
		}
	}
	return n
}
