package h

import (
	"context"
	"errors"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// rawServer accepts every connection to a harness listener and completes the
// handshake.
type rawServer struct {
	l     *vnet.Listener
	peers []*hx.Peer
}

func serve(k byte, n int) *rawServer {
	s := &rawServer{l: vnet.Raw()}
	for i := 0; i < n; i++ {
		vsym.Go(func() {
			c := s.l.AcceptRaw()
			if c == nil {
				return
			}
			p := hx.NewPeer(c, k, uint16(s.l.Port()))
			if p.Handshake() {
				s.peers = append(s.peers, p)
			}
		})
	}
	return s
}

func (s *rawServer) addr() string { return s.l.HostPort() }

// open counts the connections to s that the node has not closed.
func (s *rawServer) open() int {
	n := 0
	for _, p := range s.peers {
		if !p.C.PeerClosed() {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- C11

// InboundCap: however many peers connect, the node serves at most the
// configured number; it closes the oldest ones and goes on serving the others.
func InboundCap() {
	limit := 1 + vsym.Choose("cap", 2)
	b := watch(noise.WithNodeMaxInboundConnections(uint(limit)), noise.WithNodeNumWorkers(1))
	k := vsym.Param("peers", 4)
	var ps []*hx.Peer
	for i := 0; i < k; i++ {
		p := hx.Connect(b.n, byte(i+1), uint16(4000+i))
		vsym.Assert(p != nil, "a connecting peer is admitted")
		ps = append(ps, p)
		vsym.Quiesce()
		vsym.Assert(len(b.n.Inbound()) <= limit, "the pool is bounded")
		for j, q := range ps {
			vsym.Assert(q.C.PeerClosed() == (j <= i-limit), "the oldest connections are closed, the others stay")
		}
	}
	x := vsym.U8("x")
	for j := k - limit; j < k; j++ {
		ps[j].Send(0, []byte{byte(j), x})
	}
	vsym.Quiesce()
	vsym.Assert(len(b.data) == limit, "the remaining connections are served")
	vsym.Assert(len(b.ups) == k && len(b.downs) == k-limit, "and the others were reported as disconnected")
	vsym.Reach("end")
}

// InboundStorm: peers connecting at once, the handshakes in progress count.
func InboundStorm() {
	b := watch(noise.WithNodeMaxInboundConnections(1), noise.WithNodeNumWorkers(1))
	vsym.Explore(vsym.Param("delays", 1))
	var ds []chan struct{}
	var ps [3]*hx.Peer
	k := vsym.Param("peers", 2)
	for i := 0; i < k; i++ {
		i := i
		ds = append(ds, hx.Done(func() { ps[i] = hx.Connect(b.n, byte(i+1), uint16(4000+i)) }))
	}
	for _, d := range ds {
		<-d
	}
	vsym.Quiesce()
	in := b.n.Inbound()
	vsym.Assert(len(in) == 1, "the pool is bounded and full")
	up := 0
	for _, p := range ps {
		if p == nil {
			continue
		}
		if !p.C.PeerClosed() {
			up++
			vsym.Assert(in[0].ID().ID == p.Pub, "by the connection that is open")
		}
	}
	vsym.Assert(up == 1, "exactly the pooled connection is open")
	vsym.Assert(len(b.ups) == len(b.downs)+1, "connections that ended were reported")
	vsym.Reach("end")
}

// OutboundLRU: a full outbound pool replaces the least recently used
// connection; the pool never exceeds its bound.
func OutboundLRU() {
	limit := 1 + vsym.Choose("cap", 2)
	a := watch(noise.WithNodeMaxOutboundConnections(uint(limit)), noise.WithNodeMaxInboundConnections(uint(limit)), noise.WithNodeNumWorkers(1))
	const n = 3
	var s [n]*rawServer
	steps := vsym.Param("steps", 4)
	for i := range s {
		s[i] = serve(byte(i+1), steps)
	}
	var order []int // reference: most recently used last
	for i := 0; i < steps; i++ {
		t := vsym.Choose("to", n)
		var err error
		if vsym.Choose("how", 2) == 0 {
			_, err = a.n.Ping(hx.BG(), s[t].addr())
		} else {
			err = a.n.Send(hx.BG(), s[t].addr(), []byte{1})
		}
		vsym.Assert(err == nil, "a reachable peer can always be connected to")
		vsym.Quiesce()
		var next []int
		hit := false
		for _, o := range order {
			if o == t {
				hit = true
			} else {
				next = append(next, o)
			}
		}
		if !hit && len(next) == limit {
			next = next[1:]
		}
		order = append(next, t)
		vsym.Assert(len(a.n.Outbound()) == len(order), "the pool holds the connections in use and is bounded")
		for j := range s {
			want := 0
			for _, o := range order {
				if o == j {
					want = 1
				}
			}
			vsym.Assert(s[j].open() == want, "the least recently used connection is replaced")
		}
	}
	vsym.Reach("end")
}

// OutboundRace: filling the pool at once neither blocks nor exceeds the bound.
func OutboundRace() {
	a := watch(noise.WithNodeMaxOutboundConnections(1), noise.WithNodeMaxInboundConnections(1), noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	s, t := serve(1, 3), serve(2, 3)
	vsym.Explore(vsym.Param("delays", 1))
	var e1, e2 error
	d1 := hx.Done(func() { _, e1 = a.n.Ping(hx.BG(), s.addr()) })
	d2 := hx.Done(func() { e2 = a.n.Send(hx.BG(), t.addr(), []byte{1}) })
	<-d1
	<-d2
	vsym.Assert(e1 == nil || e2 == nil, "one of them is connected")
	vsym.Quiesce()
	out := a.n.Outbound()
	vsym.Assert(len(out) <= 1, "the pool is bounded")
	vsym.Assert(s.open()+t.open() == len(out), "exactly the pooled connection is open")
	vsym.Assert(len(a.ups)-len(a.downs) == len(out), "connections that ended were reported")
	// And it still works.
	_, err := a.n.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil, "the pool stays usable")
	vsym.Reach("end")
}

// OutboundBound: the outbound pool is bounded by its own option.
func OutboundBound() {
	in, out := 1+vsym.Choose("in", 3), 1+vsym.Choose("out", 2)
	vsym.Assume(in != out)
	a := hx.Listening(noise.WithNodeMaxOutboundConnections(uint(out)), noise.WithNodeMaxInboundConnections(uint(in)), noise.WithNodeNumWorkers(1))
	for i := 0; i < 3; i++ {
		s := serve(byte(i+1), 1)
		_, err := a.Ping(hx.BG(), s.addr())
		vsym.Assert(err == nil, "ping")
		vsym.Quiesce()
		vsym.Assert(len(a.Outbound()) <= in || len(a.Outbound()) <= out, "outbound connections are bounded at all")
		vsym.Assert(len(a.Outbound()) <= out, "outbound connections are bounded by the outbound limit")
	}
	vsym.Reach("end")
}

// EvictOrder: the least recently used connection is replaced whatever stage
// the others are in, and whichever side of the pool is concerned.
func EvictOrder() {
	const limit = 2
	a := watch(noise.WithNodeMaxOutboundConnections(limit), noise.WithNodeMaxInboundConnections(limit), noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	old, young := vsym.Choose("old", 3), vsym.Choose("young", 3)
	if vsym.Choose("side", 2) == 0 {
		join := func(k byte, stage int) *vnet.Conn {
			c := vnet.DialRaw(a.n.Addr())
			p := hx.NewPeer(c, k, uint16(4000+int(k)))
			switch stage {
			case 1:
				p.SendFrame(p.Hello())
			case 2:
				vsym.Assert(p.Handshake(), "handshake completes")
			}
			vsym.Quiesce()
			return c
		}
		c1, c2 := join(1, old), join(2, young)
		vsym.Assert(len(a.n.Inbound()) == limit && !c1.PeerClosed() && !c2.PeerClosed(), "the pool is full")
		c3 := join(3, 2)
		vsym.Assert(c1.PeerClosed(), "the least recently used connection is replaced")
		vsym.Assert(!c2.PeerClosed() && !c3.PeerClosed(), "and no other")
		vsym.Assert(len(a.n.Inbound()) == limit, "the pool is bounded")
		vsym.Reach("end")
		return
	}
	var ps []chan struct{}
	start := func(stage int) *vnet.Conn {
		l := vnet.Raw()
		ps = append(ps, hx.Done(func() { a.n.Ping(hx.BG(), l.HostPort()) }))
		c := l.AcceptRaw()
		p := hx.NewPeer(c, byte(len(ps)), uint16(l.Port()))
		switch stage {
		case 1:
			p.SendFrame(p.Hello())
		case 2:
			vsym.Assert(p.Handshake(), "handshake completes")
		}
		vsym.Quiesce()
		l.Close()
		return c
	}
	c1, c2 := start(old), start(young)
	vsym.Assert(len(a.n.Outbound()) == limit && !c1.PeerClosed() && !c2.PeerClosed(), "the pool is full")
	c3 := start(2)
	vsym.Assert(c1.PeerClosed(), "the least recently used connection is replaced")
	vsym.Assert(!c2.PeerClosed() && !c3.PeerClosed(), "and no other")
	vsym.Assert(len(a.n.Outbound()) == limit, "the pool is bounded")
	vsym.Assert(hx.Ended(ps[0]) && hx.Ended(ps[2]), "and nobody keeps waiting for what was replaced")
	vsym.Reach("end")
}

// EvictCallback: a connection may be evicted from within its own callbacks and
// handlers.
func EvictCallback() {
	a := hx.Node(noise.WithNodeMaxOutboundConnections(1), noise.WithNodeMaxInboundConnections(1), noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	s, t := hx.Node(), hx.Listening()
	s.Handle(func(ctx noise.HandlerContext) error { return ctx.Send([]byte{9}) })
	hx.Must(s.Listen())
	when := vsym.Choose("when", 5)
	first := s.ID().ID
	started, ended := false, false
	evict := func(k int) func(*noise.Client) {
		return func(c *noise.Client) {
			if id := c.ID().ID; k != when || started || id != first {
				return
			}
			started = true
			_, err := a.Ping(hx.BG(), t.Addr())
			vsym.Assert(err == nil, "there is room for the new connection")
			ended = true
		}
	}
	a.Bind(noise.Protocol{OnPeerConnected: evict(0), OnMessageSent: evict(1), OnMessageRecv: evict(2), OnPeerDisconnected: evict(3)})
	handler := evict(4)
	var up *noise.Client
	a.Handle(func(ctx noise.HandlerContext) error {
		handler(up)
		return nil
	})
	hx.Must(a.Listen())
	vsym.Explore(vsym.Param("delays", 1))
	d := hx.Done(func() {
		c, err := a.Ping(hx.BG(), s.Addr())
		up = c
		if err == nil {
			a.Send(hx.BG(), s.Addr(), []byte{1})
		}
	})
	vsym.Quiesce()
	vsym.Assert(hx.Ended(d), "its users are not kept waiting")
	if when == 3 {
		vsym.Assert(up != nil, "connected")
		up.Close()
		vsym.Quiesce()
	}
	vsym.Assert(started && ended, "the eviction is over")
	out := a.Outbound()
	vsym.Assert(len(out) == 1, "the pool is bounded")
	if when != 0 { // Otherwise the message may have been sent over a third connection.
		vsym.Assert(out[0].ID().ID == t.ID().ID, "the newest connection is there")
		vsym.Assert(len(s.Inbound()) == 0, "and the other one is closed")
	}
	_, err := a.Ping(hx.BG(), s.Addr())
	vsym.Assert(err == nil, "the node goes on")
	vsym.Quiesce()
	vsym.Assert(len(s.Inbound()) == 1 && len(t.Inbound()) == 0 && len(a.Outbound()) == 1, "and the pool is bounded")
	vsym.Reach("end")
}

// EvictRequests: requests over an evicted connection end.
func EvictRequests() {
	a := hx.Listening(noise.WithNodeMaxOutboundConnections(1), noise.WithNodeMaxInboundConnections(1), noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	s, t := serve(1, 1), serve(2, 1)
	_, err := a.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil, "ping")
	s.l.Close()
	vsym.Explore(vsym.Param("delays", 1))
	r := ask(a, hx.BG(), s.addr(), []byte{1})
	a.Ping(hx.BG(), t.addr()) // may in turn be evicted by the request
	<-r.done
	vsym.Assert(r.err != nil, "the request fails")
	vsym.Reach("end")
}

// EvictBusy: the connection that is evicted is the least recently used one
// also when a request waits on it, on another, or on all of them.
func EvictBusy() {
	a := hx.Listening(noise.WithNodeMaxOutboundConnections(2), noise.WithNodeMaxInboundConnections(2), noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	s, t, u := serve(1, 1), serve(2, 1), serve(3, 1)
	vsym.Explore(vsym.Param("delays", 0))
	busy := vsym.Choose("busy", 4)
	var rs [2]*reply
	for i, x := range []*rawServer{s, t} {
		_, err := a.Ping(hx.BG(), x.addr())
		vsym.Assert(err == nil, "ping")
		if busy&(1<<uint(i)) != 0 {
			rs[i] = ask(a, hx.BG(), x.addr(), []byte{1})
		}
		vsym.Quiesce()
	}
	vsym.Explore(vsym.Param("delays", 1))
	_, err := a.Ping(hx.BG(), u.addr())
	vsym.Assert(err == nil, "ping")
	vsym.Quiesce()
	vsym.Assert(s.open() == 0, "the least recently used connection is closed")
	vsym.Assert(t.open() == 1 && u.open() == 1 && len(a.Outbound()) == 2, "and no other")
	vsym.Assert(rs[0] == nil || hx.Ended(rs[0].done) && rs[0].err != nil, "requests on it fail")
	vsym.Assert(rs[1] == nil || !hx.Ended(rs[1].done), "others go on")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C12

// OneConnection: concurrent use of one address shares one connection.
func OneConnection() {
	a := watch(noise.WithNodeNumWorkers(1))
	b := watch(noise.WithNodeNumWorkers(1))
	vsym.Explore(vsym.Param("delays", 1))
	addr := b.n.Addr()
	var c1, c2 *noise.Client
	d1 := hx.Done(func() { c1, _ = a.n.Ping(hx.BG(), addr) })
	d2 := hx.Done(func() { c2, _ = a.n.Ping(hx.BG(), addr) })
	e3 := a.n.Send(hx.BG(), addr, []byte{1})
	<-d1
	<-d2
	vsym.Quiesce()
	vsym.Assert(c1 != nil && c1 == c2 && e3 == nil, "everyone gets the connection")
	vsym.Assert(vnet.Dials(hx.Port(addr)) == 1, "which was dialed once")
	out := a.n.Outbound()
	vsym.Assert(len(out) == 1 && out[0] == c1 && len(b.n.Inbound()) == 1, "and is the only one in the pool")
	vsym.Assert(len(a.ups) == 1 && len(b.ups) == 1, "and was reported once")
	vsym.Reach("end")
}

// Shared: one user giving up leaves the connection to the others.
func Shared() {
	a := watch(noise.WithNodeNumWorkers(1))
	s := serve(1, 2)
	vnet.HoldDials(s.l.Port(), true)
	ctx, cancel := context.WithCancel(hx.BG())
	var e1, e2 error
	first := vsym.Choose("first", 2) == 0
	ctx1, ctx2 := ctx, hx.BG()
	if !first {
		ctx1, ctx2 = ctx2, ctx1
	}
	d1 := hx.Done(func() { _, e1 = a.n.Ping(ctx1, s.addr()) })
	vsym.Quiesce()
	d2 := hx.Done(func() { _, e2 = a.n.Ping(ctx2, s.addr()) })
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	cancel()
	if vsym.Choose("when", 2) == 1 { // its context ends before there is a connection
		if first {
			<-d1
			vsym.Assert(e1 != nil && errors.Is(e1, context.Canceled), "the one whose context ended fails with its error")
		} else {
			<-d2
			vsym.Assert(e2 != nil && errors.Is(e2, context.Canceled), "the one whose context ended fails with its error")
		}
		vsym.Assert(a.pings == 1, "which is reported once")
		vsym.Reach("before")
	}
	vnet.HoldDials(s.l.Port(), false)
	<-d1
	<-d2
	vsym.Quiesce()
	if first {
		vsym.Assert(e2 == nil, "the other user gets connected")
	} else {
		vsym.Assert(e1 == nil, "the other user gets connected")
	}
	vsym.Assert(len(a.n.Outbound()) == 1 && s.open() == 1, "over one connection")
	vsym.Reach("end")
}

// Kept: a connection outlives the context it was dialed with.
func Kept() {
	a := watch(noise.WithNodeNumWorkers(1))
	s := serve(1, 1)
	vsym.Explore(vsym.Param("delays", 1))
	ctx, cancel := context.WithTimeout(hx.BG(), 5*time.Second)
	defer cancel()
	switch vsym.Choose("how", 3) {
	case 0:
		_, err := a.n.Ping(ctx, s.addr())
		vsym.Assert(err == nil, "ping")
	case 1:
		vsym.Assert(a.n.Send(ctx, s.addr(), []byte{1}) == nil, "send")
	case 2: // given up while it waits
		r := ask(a.n, ctx, s.addr(), []byte{1})
		vsym.Quiesce()
		cancel()
		<-r.done
		vsym.Assert(r.err != nil, "the request ends")
	}
	if vsym.Choose("end", 2) == 0 {
		cancel()
	} else {
		vnet.Advance(6 * time.Second)
	}
	vsym.Quiesce()
	vsym.Assert(len(a.n.Outbound()) == 1 && s.open() == 1 && len(a.downs) == 0, "the connection stays")
	vsym.Assert(a.n.Outbound()[0].Error() == nil, "and is well")
	vsym.Assert(a.n.Send(hx.BG(), s.addr(), []byte{2}) == nil && vnet.Dials(s.l.Port()) == 1, "and is used")
	vsym.Reach("end")
}

// Released: a connection that ended is released and can be replaced.
func Released() {
	a := watch(noise.WithNodeNumWorkers(1))
	s := serve(1, 4)
	c, err := a.n.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil, "ping")
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	switch vsym.Choose("how", 5) {
	case 0:
		s.peers[0].C.Close()
	case 1:
		s.peers[0].C.Reset()
	case 2:
		c.Close()
	case 3:
		s.peers[0].SendFrame(make([]byte, 50))
	case 4:
		s.peers[0].C.Put([]byte{0xff, 0, 0, 0})
	}
	c.WaitUntilClosed()
	vsym.Assert(s.peers[0].C.PeerClosed(), "the connection is closed")
	for _, o := range a.n.Outbound() {
		vsym.Assert(o != c, "a closed client is not pooled")
	}
	d, err := a.n.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil && d != c, "the peer can be connected to again")
	vsym.Quiesce()
	vsym.Assert(len(a.n.Outbound()) == 1 && a.n.Outbound()[0] == d && s.open() == 1, "and is pooled once")
	vsym.Reach("end")
}

// Redial: connecting again while the old connection is going away keeps
// exactly one live entry.
func Redial() {
	a := watch(noise.WithNodeNumWorkers(1))
	s := serve(1, 6)
	c, err := a.n.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil, "ping")
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	var d1 chan struct{}
	if vsym.Choose("how", 2) == 0 {
		d1 = hx.Done(c.Close)
	} else {
		d1 = hx.Done(func() { s.peers[0].C.Close() })
	}
	a.n.Ping(hx.BG(), s.addr())
	a.n.Ping(hx.BG(), s.addr())
	<-d1
	vsym.Quiesce()
	e, err := a.n.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil && e != c, "the peer can be connected to again")
	vsym.Quiesce()
	out := a.n.Outbound()
	vsym.Assert(len(out) == 1 && out[0] == e && e.Error() == nil, "the live connection is pooled")
	vsym.Assert(s.open() == 1, "and is the only one")
	vsym.Assert(len(a.ups) == len(a.downs)+1, "each connection that ended was reported")
	vsym.Reach("end")
}

// InboundAgain: a peer connecting again from the same address and port.
func InboundAgain() {
	b := watch(noise.WithNodeNumWorkers(1))
	vnet.ReusePort(45000)
	p := hx.Connect(b.n, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	if vsym.Choose("how", 2) == 0 {
		p.C.Close()
	} else {
		p.C.Reset()
	}
	vnet.ReusePort(45000)
	q := hx.Connect(b.n, 2, 4001) // may be turned away while the old one is there
	vsym.Quiesce()
	in := b.n.Inbound()
	open := 0
	if q != nil && !q.C.PeerClosed() {
		open = 1
	}
	vsym.Assert(len(in) == open, "the pool holds exactly the live connection")
	if open == 1 {
		vsym.Assert(in[0].ID().ID == q.Pub, "of the new peer")
		vsym.Reach("again")
	}
	vnet.ReusePort(45001)
	r := hx.Connect(b.n, 3, 4002)
	vsym.Assert(r != nil, "others are served")
	vsym.Quiesce()
	vsym.Assert(len(b.n.Inbound()) == open+1, "and pooled")
	vsym.Assert(len(b.ups)-len(b.downs) == open+1, "each connection that ended was reported")
	vsym.Reach("end")
}

var errHandler = errors.New("refused by the handler")
