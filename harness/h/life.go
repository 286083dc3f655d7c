package h

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- C13

// HandlerError: a handler's error closes the connection the message came over,
// with that error, stops the other handlers, and nothing else.
func HandlerError() {
	b := hx.Node(noise.WithNodeNumWorkers(uint(1 + vsym.Choose("workers", 2))))
	bad := vsym.U8("bad")
	first := vsym.Choose("which", 2) == 0
	kind := vsym.Choose("fails", 6)
	fails := []error{errHandler, io.EOF, context.Canceled, io.ErrClosedPipe, fmt.Errorf("handler: %w", io.ErrUnexpectedEOF),
		&net.OpError{Op: "read", Err: errors.New("use of closed network connection")}}[kind]
	var saw [2][]byte
	h := func(i int) noise.Handler {
		return func(ctx noise.HandlerContext) error {
			d := ctx.Data()
			saw[i] = append(saw[i], d[0])
			if ctx.Data()[0] == bad && (i == 0) == first {
				if ctx.IsRequest() {
					if err := ctx.Send(d); err != nil {
						return err
					}
				}
				return fails
			}
			return nil
		}
	}
	b.Handle(h(0))
	b.Handle(h(1))
	hx.Must(b.Listen())
	var p, q *hx.Peer
	if vsym.Choose("role", 2) == 1 {
		p, _, _ = dialed(b, 1)
		q, _, _ = dialed(b, 2)
	} else {
		p = hx.Connect(b, 1, 4000)
		q = hx.Connect(b, 2, 4001)
	}
	vsym.Assert(p != nil && q != nil, "handshake completes")
	vsym.Quiesce()
	var pc *noise.Client
	for _, c := range append(b.Inbound(), b.Outbound()...) {
		if c.ID().ID == p.Pub {
			pc = c
		}
	}
	vsym.Assert(pc != nil, "pooled")
	vsym.Explore(vsym.Param("delays", 1))
	x := vsym.U8("x")
	p.Send([]uint64{0, 5}[kind%2], []byte{x})
	vsym.Quiesce()
	if x == bad {
		vsym.Assert(p.C.PeerClosed(), "the connection is closed")
		vsym.Assert(errors.Is(pc.Error(), fails), "with the error of the handler")
		vsym.Assert(len(saw[1]) == b2i(!first), "later handlers do not run")
		vsym.Assert(len(b.Inbound())+len(b.Outbound()) == 1, "and released")
		vsym.Reach("error")
	} else {
		vsym.Assert(!p.C.PeerClosed() && pc.Error() == nil && len(saw[0]) == 1 && len(saw[1]) == 1, "all handlers run")
	}
	vsym.Assert(!q.C.PeerClosed(), "other connections stay open")
	n := len(saw[0])
	m := len(saw[1])
	for i := 0; i < 3; i++ { // as many as there are workers, and more
		q.Send(0, []byte{bad ^ 0xff})
	}
	vsym.Quiesce()
	vsym.Assert(len(saw[0]) == n+3 && len(saw[1]) == m+3, "and are served")
	vsym.Reach("end")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HandlerErrors: more errors than there are workers do not stop the node.
func HandlerErrors() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	ok := 0
	b.Handle(func(ctx noise.HandlerContext) error {
		if len(ctx.Data()) == 0 {
			return errHandler
		}
		ok++
		if ctx.IsRequest() {
			return ctx.Send(ctx.Data())
		}
		return nil
	})
	hx.Must(b.Listen())
	a := hx.Listening(noise.WithNodeNumWorkers(1))
	k := vsym.Param("errors", 3)
	for i := 0; i < k; i++ {
		if vsym.Choose("req", 2) == 0 {
			vsym.Assert(a.Send(hx.BG(), b.Addr(), nil) == nil, "send")
		} else {
			_, err := a.Request(hx.BG(), b.Addr(), nil)
			vsym.Assert(err != nil, "a refused request fails")
		}
		vsym.Quiesce()
		vsym.Assert(len(b.Inbound()) == 0 && len(a.Outbound()) == 0, "the connection is closed on both sides")
	}
	x := vsym.Bytes("x", 2)
	got, err := a.Request(hx.BG(), b.Addr(), x)
	vsym.Assert(err == nil && vsym.Eq(got, x) && ok == 1, "the node still serves")
	vsym.Reach("end")
}

// HandlerLate: handlers that fail when the connection their message came from
// has ended already, or is failed by another one, cost the node nothing.
func HandlerLate() {
	workers := 1 + vsym.Choose("workers", 2)
	b := hx.Node(noise.WithNodeNumWorkers(uint(workers)))
	hold := make(chan struct{})
	full := make(chan struct{})
	bad, at, good := 0, 0, 0
	b.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		if d[0] == 0xee {
			bad++
			<-hold
			return errHandler
		}
		at++
		if at == workers {
			close(full)
		}
		<-full // as many at a time as there are workers
		good++
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	q := hx.Connect(b, 2, 4001)
	vsym.Assert(p != nil && q != nil, "handshake completes")
	vsym.Quiesce()
	var pc *noise.Client
	for _, c := range b.Inbound() {
		if c.ID().ID == p.Pub {
			pc = c
		}
	}
	k := 1 + vsym.Choose("msgs", 4)
	for i := 0; i < k; i++ {
		p.Send(0, []byte{0xee, byte(i)})
	}
	vsym.Explore(vsym.Param("delays", 1))
	switch vsym.Choose("end", 5) {
	case 0: // only the handlers end it
	case 1:
		p.C.Close()
	case 2:
		p.C.Reset()
	case 3:
		p.SendFrame([]byte{1, 2, 3})
	case 4:
		vsym.Quiesce()
		vsym.Assert(pc != nil && bad > 0, "pooled")
		d := hx.Done(pc.Close)
		vsym.Quiesce()
		close(hold)
		<-d
	}
	vsym.Quiesce()
	if !hx.Ended(hold) {
		close(hold)
	}
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed() && len(b.Inbound()) == 1, "the connection is closed")
	for i := 0; i < 2*workers; i++ {
		q.Send(0, []byte{1})
	}
	vsym.Quiesce()
	vsym.Assert(!q.C.PeerClosed() && good == 2*workers, "the others are served by all workers")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C14

// CloseIdle: Close ends whatever state the node is in, twice and at once, and
// leaves nothing behind.
func CloseIdle() {
	a := hx.Node(noise.WithNodeNumWorkers(uint(1 + vsym.Choose("workers", 2))))
	n := vsym.Live()
	how := vsym.Choose("when", 4)
	vsym.Explore(vsym.Param("delays", 1))
	switch how {
	case 0: // never listened
		vsym.Assert(a.Close() == nil, "close")
		vsym.Assert(a.Close() == nil, "close again")
	case 1:
		hx.Must(a.Listen())
		vsym.Assert(a.Close() == nil, "close")
		vsym.Assert(a.Close() == nil, "close again")
	case 2:
		hx.Must(a.Listen())
		var e1, e2 error
		d1 := hx.Done(func() { e1 = a.Close() })
		d2 := hx.Done(func() { e2 = a.Close() })
		<-d1
		<-d2
		vsym.Assert(e1 == nil && e2 == nil, "close at once")
	case 3: // could not listen
		b := hx.Listening(noise.WithNodeNumWorkers(1))
		c := hx.Node(noise.WithNodeBindPort(uint16(hx.Port(b.Addr()))))
		vsym.Assert(c.Listen() != nil, "the port is taken")
		vsym.Assert(c.Close() == nil, "close")
		vsym.Assert(b.Close() == nil, "close")
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Live() == n, "nothing keeps running")
	if how != 0 && how != 3 {
		vsym.Assert(vnet.DialRaw(a.Addr()) == nil, "nobody can connect any more")
	}
	_, err := a.Ping(hx.BG(), ":9999")
	vsym.Assert(err != nil || how == 3, "a closed node does not connect")
	vsym.Reach("end")
}

// CloseBusy: Close with connections, handshakes, dials, requests and handlers
// in progress on both pools.
func CloseBusy() {
	a := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(2))
	n0 := vsym.Live()
	p := hx.Connect(a.n, 1, 4000) // inbound, established
	vsym.Assert(p != nil, "handshake completes")
	s := serve(2, 2) // outbound, established
	_, err := a.n.Ping(hx.BG(), s.addr())
	vsym.Assert(err == nil, "ping")
	var r *reply
	var silent *vnet.Conn
	held := vnet.Raw()
	var d chan struct{}
	mode := vsym.Choose("mode", 6)
	switch mode {
	case 0: // an inbound handshake in progress
		silent = vnet.DialRaw(a.n.Addr())
	case 1: // an outbound handshake in progress
		r = ask(a.n, hx.BG(), held.HostPort(), []byte{1})
	case 2: // a dial in progress
		vnet.HoldDials(held.Port(), true)
		r = ask(a.n, hx.BG(), held.HostPort(), []byte{1})
	case 3: // a request in flight
		r = ask(a.n, hx.BG(), s.addr(), []byte{1})
	case 4: // messages arriving
		d = hx.Done(func() {
			for i := 0; i < 3; i++ {
				p.Send(0, []byte{1})
			}
		})
	case 5: // a peer that does not read
		s.peers[0].C.Peer().Limit(10)
		for i := 0; i < 3; i++ {
			a.n.Send(hx.BG(), s.addr(), make([]byte, 50))
		}
	}
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	var e2 error
	d2 := hx.Done(func() { e2 = a.n.Close() })
	e1 := a.n.Close()
	<-d2
	vsym.Assert(e1 == nil && e2 == nil, "close")
	vsym.Assert(p.C.PeerClosed() && s.open() == 0, "all connections are closed once Close returned")
	if silent != nil {
		vsym.Assert(silent.PeerClosed(), "all connections are closed once Close returned")
	}
	if d != nil {
		<-d
	}
	if r != nil {
		<-r.done
		vsym.Assert(r.err != nil, "requests end")
	}
	vsym.Assert(len(a.n.Inbound()) == 0 && len(a.n.Outbound()) == 0, "the pools are empty")
	vsym.Assert(len(a.ups) == 2 && len(a.downs) == 2, "disconnections are reported before Close returns")
	vsym.Quiesce()
	for _, c := range vnet.All() {
		vsym.Assert(c.Closed() || c.PeerClosed() || !c.Dialed(), "no connection stays open")
	}
	held.Close()
	s.l.Close()
	vsym.Quiesce()
	_ = n0
	vsym.Reach("end")
}

// CloseRace: Close while peers connect and messages are sent: nothing stays
// open, nothing blocks, nothing panics.
func CloseRace() {
	b := watch(noise.WithNodeNumWorkers(1))
	a := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	mode := vsym.Choose("mode", 4)
	if mode >= 2 {
		_, err := a.n.Ping(hx.BG(), b.n.Addr())
		vsym.Assert(err == nil, "ping")
	}
	vsym.Explore(vsym.Param("delays", 1))
	var r *reply
	switch mode {
	case 0, 2:
		r = ask(a.n, hx.BG(), b.n.Addr(), []byte{1})
	case 1, 3:
		r = &reply{}
		r.done = hx.Done(func() { r.err = a.n.Send(hx.BG(), b.n.Addr(), []byte{1}) })
	}
	switch vsym.Choose("who", 2) {
	case 0:
		a.n.Close()
		vsym.Assert(len(a.n.Outbound()) == 0 && len(a.n.Inbound()) == 0, "the pools are empty")
	case 1:
		b.n.Close()
		vsym.Assert(len(b.n.Outbound()) == 0 && len(b.n.Inbound()) == 0, "the pools are empty")
	}
	vsym.Quiesce()
	if mode == 1 || mode == 3 {
		<-r.done
	} else {
		// Only handlers answer requests, and this one does not.
		<-r.done
		vsym.Assert(r.err != nil, "requests end")
	}
	vsym.Assert(vnet.Open() == 0, "no connection stays open")
	vsym.Assert(len(a.ups) == len(a.downs) && len(b.ups) == len(b.downs), "every connection that was reported is reported to end")
	vsym.Reach("end")
}

// CloseAll: after both nodes are closed nothing of them is left.
func CloseAll() {
	n := vsym.Live()
	b := watch(noise.WithNodeNumWorkers(2))
	a := watch(noise.WithNodeNumWorkers(1))
	_, err := a.n.Ping(hx.BG(), b.n.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Assert(a.n.Send(hx.BG(), b.n.Addr(), []byte{1}) == nil, "send")
	if vsym.Choose("both", 2) == 1 {
		_, err := b.n.Ping(hx.BG(), a.n.Addr())
		vsym.Assert(err == nil, "ping")
	}
	vsym.Explore(vsym.Param("delays", 1))
	d := hx.Done(func() { vsym.Assert(a.n.Close() == nil, "close") })
	vsym.Assert(b.n.Close() == nil, "close")
	<-d
	vsym.Quiesce()
	vsym.Assert(vnet.Open() == 0, "no connection stays open")
	vsym.Assert(vsym.Live() == n, "nothing keeps running")
	vsym.Reach("end")
}

// CloseHandler: Close waits for handlers that are still running, and they may
// use the node meanwhile.
func CloseHandler() {
	workers := 1 + vsym.Choose("workers", 2)
	b := hx.Node(noise.WithNodeNumWorkers(uint(workers)), noise.WithNodeMaxDialAttempts(1))
	n0 := vsym.Live()
	gate := make(chan struct{})
	running, finished := 0, 0
	var e1 error
	use := vsym.Choose("use", 4)
	s := serve(7, 1)
	b.Handle(func(ctx noise.HandlerContext) error {
		running++
		<-gate
		switch use {
		case 1:
			e1 = b.Send(hx.BG(), s.addr(), []byte{1})
		case 2:
			_, e1 = b.Request(hx.BG(), s.addr(), []byte{1})
		case 3:
			e1 = ctx.Send([]byte{1})
		}
		finished++
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	msgs := 1 + vsym.Choose("msgs", 3)
	for i := 0; i < msgs; i++ {
		p.Send(5, []byte{1})
	}
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	d := hx.Done(func() { vsym.Assert(b.Close() == nil, "close") })
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "the connection is closed")
	vsym.Assert(!hx.Ended(d) && running > finished, "closing waits for running handlers")
	d2 := hx.Done(func() { vsym.Assert(b.Close() == nil, "close") })
	vsym.Quiesce()
	vsym.Assert(!hx.Ended(d2), "whoever closes it")
	close(gate)
	<-d
	vsym.Assert(running == finished, "and no handler runs once it returned")
	<-d2
	vsym.Assert(use == 0 || e1 != nil, "a closing node sends nothing")
	r := running
	vsym.Quiesce()
	vsym.Assert(running == r && finished == r, "nor is one started later")
	s.l.Close()
	p.C.Close()
	vsym.Quiesce()
	vsym.Assert(vsym.Live() == n0 && vnet.Open() == 0, "nothing keeps running")
	vsym.Reach("end")
}

// CloseInHandler: closing the connection from a handler or callback is safe.
func CloseInHandler() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	downs := 0
	where := vsym.Choose("where", 3)
	b.Bind(noise.Protocol{
		OnPeerConnected: func(c *noise.Client) {
			if where == 0 {
				c.Close()
			}
		},
		OnPeerDisconnected: func(c *noise.Client) {
			downs++
			c.Close()
		},
		OnMessageRecv: func(c *noise.Client) {
			if where == 1 {
				c.Close()
			}
		},
	})
	b.Handle(func(ctx noise.HandlerContext) error {
		if where == 2 {
			for _, c := range b.Inbound() {
				c.Close()
				c.Close()
			}
		}
		return nil
	})
	hx.Must(b.Listen())
	vsym.Explore(vsym.Param("delays", 1))
	p := hx.Connect(b, 1, 4000)
	if p != nil {
		p.Send(0, []byte{1})
		p.Send(0, []byte{2})
	}
	vsym.Quiesce()
	vsym.Assert(len(b.Inbound()) == 0 && downs == 1 && vnet.Open() <= 1, "the connection ended and was released")
	vsym.Assert(b.Close() == nil, "close")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C15

type event struct {
	kind string
	c    *noise.Client
	addr string
}

// Callbacks: in every history of a connection each side reports it connected
// once, then messages, then disconnected once.
func Callbacks() {
	var ev [2][]event
	var n [2]*noise.Node
	mk := func(i int) {
		n[i] = hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
		add := func(k string) func(*noise.Client) {
			return func(c *noise.Client) { ev[i] = append(ev[i], event{kind: k, c: c}) }
		}
		n[i].Bind(noise.Protocol{
			OnPeerConnected:    add("up"),
			OnPeerDisconnected: add("down"),
			OnMessageSent:      add("sent"),
			OnMessageRecv:      add("recv"),
			OnPingFailed:       func(addr string, err error) { ev[i] = append(ev[i], event{kind: "ping", addr: addr}) },
		})
		n[i].Handle(func(ctx noise.HandlerContext) error {
			if ctx.IsRequest() {
				return ctx.Send([]byte{1})
			}
			if len(ctx.Data()) == 0 {
				return errHandler
			}
			return nil
		})
		hx.Must(n[i].Listen())
	}
	mk(0)
	mk(1)
	vsym.Explore(vsym.Param("delays", 1))
	c, err := n[0].Ping(hx.BG(), n[1].Addr())
	vsym.Assert(err == nil, "ping")
	msgs := vsym.Choose("msgs", 3)
	req := 0
	for i := 0; i < msgs; i++ {
		if vsym.Choose("req", 2) == 0 {
			vsym.Assert(n[0].Send(hx.BG(), n[1].Addr(), []byte{1}) == nil, "send")
		} else {
			_, err := n[0].Request(hx.BG(), n[1].Addr(), []byte{1})
			vsym.Assert(err == nil, "request")
			req++
		}
	}
	vsym.Quiesce()
	end := vsym.Choose("end", 5)
	switch end {
	case 0:
		c.Close()
	case 1:
		for _, d := range n[1].Inbound() {
			d.Close()
		}
	case 2:
		n[0].Close()
	case 3:
		n[1].Close()
	case 4: // its handler refuses
		vsym.Assert(n[0].Send(hx.BG(), n[1].Addr(), nil) == nil, "send")
	}
	vsym.Quiesce()
	for i := range ev {
		es := ev[i]
		recv, sent := 0, 0
		vsym.Assert(len(es) >= 2 && es[0].kind == "up" && es[len(es)-1].kind == "down", "connected comes first and disconnected last")
		for j, e := range es {
			vsym.Assert(e.c == es[0].c && e.c != nil, "about the same connection")
			if j > 0 && j < len(es)-1 {
				vsym.Assert(e.kind == "sent" || e.kind == "recv", "connected and disconnected are reported once")
			}
			recv += b2i(e.kind == "recv")
			sent += b2i(e.kind == "sent")
		}
		if i == 0 {
			vsym.Assert(recv == req, "each response received is reported")
			vsym.Assert(sent >= b2i(msgs > 0) && sent <= msgs+b2i(end == 4), "messages sent are reported")
			vsym.Assert(es[0].c == c, "about the connection")
		} else {
			vsym.Assert(recv >= msgs && recv <= msgs+b2i(end == 4), "each message received is reported")
			vsym.Assert(sent <= req && (req == 0 || sent > 0), "responses sent are reported")
		}
	}
	vsym.Reach("end")
}

// CallbacksMany: every protocol is told of everything, in the order in which
// they were bound, whichever callbacks the others leave out.
func CallbacksMany() {
	const k = 3
	who := vsym.Choose("lacks", k+1) // the protocol lacking a callback, or none
	what := vsym.Choose("what", 6)   // which one, or all of them
	if who == k {
		what = 0
	}
	var ev [k][]string
	log := map[string][]int{}
	w := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	for i := 0; i < k; i++ {
		i := i
		add := func(kind string) func(*noise.Client) {
			return func(*noise.Client) { ev[i], log[kind] = append(ev[i], kind), append(log[kind], i) }
		}
		pr := noise.Protocol{
			OnPeerConnected:    add("up"),
			OnPeerDisconnected: add("down"),
			OnMessageSent:      add("sent"),
			OnMessageRecv:      add("recv"),
			OnPingFailed:       func(string, error) { ev[i], log["ping"] = append(ev[i], "ping"), append(log["ping"], i) },
		}
		if i == who {
			lacks := func(n int) bool { return what == n || what == 5 }
			if lacks(0) {
				pr.OnPeerConnected = nil
			}
			if lacks(1) {
				pr.OnPeerDisconnected = nil
			}
			if lacks(2) {
				pr.OnMessageSent = nil
			}
			if lacks(3) {
				pr.OnMessageRecv = nil
			}
			if lacks(4) {
				pr.OnPingFailed = nil
			}
		}
		w.Bind(pr)
	}
	w.Handle(func(ctx noise.HandlerContext) error {
		if ctx.IsRequest() {
			return ctx.Send([]byte{1})
		}
		return nil
	})
	hx.Must(w.Listen())
	var p *hx.Peer
	if vsym.Choose("role", 2) == 1 {
		p, _, _ = dialed(w, 1)
	} else {
		p = hx.Connect(w, 1, 4000)
	}
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	p.Send(5, []byte{1})
	_, _, ok := p.Recv()
	vsym.Assert(ok, "the request is answered")
	vsym.Quiesce()
	if vsym.Choose("end", 2) == 0 {
		p.C.Close()
	} else {
		for _, c := range append(w.Inbound(), w.Outbound()...) {
			c.Close()
		}
	}
	vsym.Quiesce()
	dead := vnet.Raw()
	dead.Close()
	_, err := w.Ping(hx.BG(), dead.HostPort())
	vsym.Assert(err != nil, "nobody is there")
	vsym.Quiesce()
	names := []string{"up", "down", "sent", "recv", "ping"}
	for i := range ev {
		for n, kind := range names {
			got := 0
			for _, e := range ev[i] {
				got += b2i(e == kind)
			}
			lacking := i == who && (what == n || what == 5)
			vsym.Assert(got == b2i(!lacking), "each protocol is told once, whatever the others leave out")
		}
		vsym.Assert(i == who || ev[i][0] == "up" && ev[i][3] == "down", "in order")
	}
	for _, kind := range names {
		for i := 1; i < len(log[kind]); i++ {
			vsym.Assert(log[kind][i-1] < log[kind][i], "protocols are told in the order they were bound")
		}
	}
	vsym.Reach("end")
}

// CallbacksSent: a message is reported as sent once its bytes were handed to
// the connection, and not if they never are.
func CallbacksSent() {
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(10*time.Second))
	sent, downs := 0, 0
	var early bool
	var out *vnet.Conn
	expect := 0
	a.Bind(noise.Protocol{
		OnMessageSent: func(*noise.Client) {
			sent++
			early = early || out != nil && out.Written() < expect
		},
		OnPeerDisconnected: func(*noise.Client) { downs++ },
	})
	hx.Must(a.Listen())
	p, l, c := dialed(a, 1)
	vsym.Quiesce()
	vsym.Assert(sent == 0, "handshake messages are not reported")
	out = p.C.Peer()
	expect = out.Written()
	n := vsym.Choose("n", 3)
	frame := func(n int) int { return 4 + 12 + 8 + n + 16 }
	for i := 0; i < n; i++ {
		expect += frame(i)
		vsym.Assert(a.Send(hx.BG(), l.HostPort(), make([]byte, i)) == nil, "send")
		vsym.Quiesce()
		vsym.Assert(sent == i+1, "each message sent is reported")
		vsym.Assert(out.Written() == expect, "when it was written")
	}
	vsym.Assert(!early, "and not earlier")
	x := vsym.U8("x")
	switch vsym.Choose("how", 4) {
	case 3: // several at once, behind one that is held up
		out.Limit(10)
		vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{x}) == nil, "send")
		vsym.Quiesce()
		first := vsym.Choose("request", 3)
		for i := 0; i < 2; i++ {
			if i == first {
				ask(a, hx.BG(), l.HostPort(), []byte{x})
			} else {
				vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{x}) == nil, "send")
			}
			vsym.Quiesce()
		}
		out.Limit(0)
		for i := 0; i < n+3; i++ {
			_, _, ok := p.Recv()
			vsym.Assert(ok, "the messages arrive")
		}
		vsym.Quiesce()
		vsym.Assert(sent >= n+2 && sent <= n+3, "and are reported")
		vsym.Reach("taken")
	case 0: // held up, then taken
		out.Limit(10)
		vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{x}) == nil, "send")
		vsym.Quiesce()
		vsym.Assert(sent == n, "a message held up is not reported as sent")
		out.Limit(0)
		for i := 0; i <= n; i++ {
			_, d, ok := p.Recv()
			vsym.Assert(ok && (i < n || vsym.Eq(d, []byte{x})), "the messages arrive")
		}
		vsym.Quiesce()
		vsym.Assert(sent == n+1, "until it is taken")
		vsym.Reach("taken")
	case 1: // never taken
		out.Limit(10)
		vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{x}) == nil, "send")
		vsym.Quiesce()
		vnet.Advance(11 * time.Second)
		vsym.Quiesce()
		vsym.Assert(sent == n && downs == 1 && c.Error() != nil, "a message never taken is not reported as sent")
		vsym.Reach("never")
	case 2: // the connection ends meanwhile
		out.Limit(10)
		vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{x}) == nil, "send")
		vsym.Quiesce()
		if vsym.Choose("by", 2) == 0 {
			p.C.Close()
		} else {
			c.Close()
		}
		vsym.Quiesce()
		vsym.Assert(sent == n && downs == 1, "a message never taken is not reported as sent")
		vsym.Reach("ended")
	}
}

// CallbacksSlow: the disconnected callback waits for the callbacks that are
// still running when the connection ends.
func CallbacksSlow() {
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	slow := vsym.Choose("slow", 3)
	gate := make(chan struct{})
	running, downs := 0, 0
	block := func(kind int) func(*noise.Client) {
		return func(*noise.Client) {
			vsym.Assert(downs == 0, "disconnected is the last callback")
			if kind == slow {
				running++
				<-gate
				running--
			}
		}
	}
	a.Bind(noise.Protocol{
		OnPeerConnected: block(0), OnMessageRecv: block(1), OnMessageSent: block(2),
		OnPeerDisconnected: func(*noise.Client) {
			downs++
			vsym.Assert(running == 0, "after all the others")
		},
	})
	a.Handle(func(ctx noise.HandlerContext) error {
		if ctx.IsRequest() {
			return ctx.Send([]byte{1})
		}
		return nil
	})
	hx.Must(a.Listen())
	var p *hx.Peer
	d := make(chan struct{})
	if vsym.Choose("role", 2) == 1 {
		l := vnet.Raw()
		addr := l.HostPort()
		d = hx.Done(func() { a.Ping(hx.BG(), addr) })
		p = hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
	} else {
		close(d)
		p = hx.NewPeer(vnet.DialRaw(a.Addr()), 1, 4000)
	}
	vsym.Assert(p.Handshake(), "handshake completes")
	p.Send(5, []byte{1})
	vsym.Quiesce()
	vsym.Assert(running == 1, "the callback runs")
	cs := append(a.Inbound(), a.Outbound()...)
	vsym.Assert(len(cs) == 1, "listed")
	vsym.Explore(vsym.Param("delays", 1))
	switch vsym.Choose("end", 3) {
	case 0:
		p.C.Close()
	case 1:
		cs[0].Close()
	case 2:
		p.SendFrame(make([]byte, 50))
	}
	w := hx.Done(cs[0].WaitUntilClosed)
	vsym.Quiesce()
	vsym.Assert(downs == 0 && !hx.Ended(w), "a connection whose callbacks are running has not ended")
	close(gate)
	vsym.Quiesce()
	vsym.Assert(downs == 1 && hx.Ended(w) && hx.Ended(d), "it ends when they have")
	vsym.Reach("end")
}

// CallbacksFail: connections whose handshake fails are never reported as
// connected nor as disconnected.
func CallbacksFail() {
	w := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	outbound := vsym.Choose("role", 2) == 1
	p, d, res := w.join(outbound, 1)
	vsym.Explore(vsym.Param("delays", 1))
	switch vsym.Choose("how", 6) {
	case 0:
		p.C.Close()
	case 1:
		p.SendFrame(vsym.Bytes("x", 3))
	case 2:
		h := p.Hello()
		h[33] ^= 1
		p.SendFrame(h)
	case 3:
		p.SendFrame(p.Hello())
		p.C.Reset()
	case 4:
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		m := p.Identity()
		m[len(m)-1] ^= 4
		p.SendFrame(p.Seal(m))
	case 5:
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.C.Close()
	}
	vsym.Quiesce()
	if outbound {
		<-d
		vsym.Assert(*res != nil, "dialing fails")
		vsym.Assert(w.pings == 1, "and is reported once")
	} else {
		vsym.Assert(w.pings == 0, "nothing was dialed")
	}
	vsym.Assert(len(w.ups) == 0 && len(w.downs) == 0, "the connection is not reported")
	vsym.Assert(len(w.n.Inbound()) == 0 && len(w.n.Outbound()) == 0, "and released")
	vsym.Assert(p.C.Closed() || p.C.PeerClosed(), "and closed")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C16

// DialAttempts: dialing is tried at most the configured number of times and
// stops at the first success.
func DialAttempts() {
	max := 1 + vsym.Choose("max", 3)
	a := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(uint(max)))
	s := serve(1, 4)
	fail := vsym.Choose("fail", 5)
	vnet.FailDials(s.l.Port(), fail)
	vsym.Explore(vsym.Param("delays", 1))
	var err error
	switch vsym.Choose("kind", 3) {
	case 0:
		_, err = a.n.Ping(hx.BG(), s.addr())
	case 1:
		err = a.n.Send(hx.BG(), s.addr(), []byte{1})
	case 2: // by a node that is closed
		vsym.Assert(a.n.Close() == nil, "close")
		_, err = a.n.Request(hx.BG(), s.addr(), []byte{1})
		vsym.Quiesce()
		vsym.Assert(err != nil && vnet.Dials(s.l.Port()) == 0, "a closed node dials nobody")
		vsym.Assert(a.pings == 1 && len(a.ups) == 0, "which is reported once")
		vsym.Reach("end")
		return
	}
	vsym.Quiesce()
	if fail < max {
		vsym.Assert(err == nil, "a success within the attempts suffices")
		vsym.Assert(vnet.Dials(s.l.Port()) == fail+1, "no attempts after it")
		vsym.Assert(a.pings == 0 && len(a.ups) == 1 && s.open() == 1, "the peer is connected")
		vsym.Reach("connected")
	} else {
		vsym.Assert(err != nil, "all attempts failed")
		vsym.Assert(names(err, vnet.ErrRefused), "the error names the failure")
		vsym.Assert(vnet.Dials(s.l.Port()) == max, "after the configured number")
		vsym.Assert(a.pings == 1 && len(a.ups) == 0 && len(a.n.Outbound()) == 0, "which is reported once")
		vsym.Reach("failed")
	}
	vsym.Reach("end")
}

// DialTogether: each of those who dial a dead peer at once is told, and each
// failure is reported once.
func DialTogether() {
	a := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(uint(1+vsym.Choose("max", 2))))
	l := vnet.Raw()
	addr := l.HostPort()
	vnet.HoldDials(l.Port(), true)
	var e [2]error
	var ds []chan struct{}
	for i := range e {
		i := i
		ds = append(ds, hx.Done(func() { _, e[i] = a.n.Ping(hx.BG(), addr) }))
		vsym.Quiesce()
	}
	vsym.Assert(vnet.Dials(l.Port()) <= 1, "they share one attempt")
	vsym.Explore(vsym.Param("delays", 1))
	l.Close()
	vnet.HoldDials(l.Port(), false)
	<-ds[0]
	<-ds[1]
	vsym.Quiesce()
	vsym.Assert(e[0] != nil && e[1] != nil && names(e[0], vnet.ErrRefused) && names(e[1], vnet.ErrRefused), "both learn what failed")
	vsym.Assert(a.pings == 2, "each failed dial is reported once")
	vsym.Assert(len(a.n.Outbound()) == 0 && len(a.ups) == 0, "nothing stays behind")
	vsym.Reach("end")
}

func names(err, cause error) bool {
	return errors.Is(err, cause) || strings.Contains(err.Error(), cause.Error())
}

// DialHandshake: handshake failures count as failed attempts; success is only
// reported once the handshake completed.
func DialHandshake() {
	max := 1 + vsym.Choose("max", 2)
	a := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(uint(max)))
	l := vnet.Raw()
	fail := vsym.Choose("fail", 3)
	how := vsym.Choose("how", 3)
	var ps []*hx.Peer
	vsym.Go(func() {
		for i := 0; i < 3; i++ {
			c := l.AcceptRaw()
			if c == nil {
				return
			}
			p := hx.NewPeer(c, 1, uint16(l.Port()))
			if i >= fail {
				ps = append(ps, p)
				vsym.Assert(p.Handshake(), "handshake completes")
				return
			}
			switch how {
			case 0:
				c.Close()
			case 1:
				p.SendFrame(make([]byte, 96))
			case 2:
				p.SendFrame(p.Hello())
				c.Close()
			}
		}
	})
	vsym.Explore(vsym.Param("delays", 1))
	c, err := a.n.Ping(hx.BG(), l.HostPort())
	if err == nil {
		vsym.Assert(fail < max && c != nil && len(ps) == 1 && c.ID().ID == ps[0].Pub, "success means the handshake completed")
		vsym.Reach("connected")
	} else {
		vsym.Assert(c == nil && fail >= max, "failure means all attempts failed")
		vsym.Assert(a.pings == 1, "which is reported once")
		vsym.Reach("failed")
	}
	vsym.Quiesce()
	vsym.Assert(len(a.n.Outbound()) == b2i(err == nil), "only the live connection is pooled")
	vsym.Reach("end")
}

// DialCancel: a context that ends stops waiting and further attempts.
func DialCancel() {
	max := 1 + vsym.Choose("max", 2)
	a := watch(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(uint(max)))
	l := vnet.Raw()
	ctx, cancel := context.WithCancel(hx.BG())
	mode := vsym.Choose("mode", 3)
	switch mode {
	case 0: // the dial hangs
		vnet.HoldDials(l.Port(), true)
	case 1: // the handshake hangs
	case 2: // cancelled from the start
		cancel()
	}
	vsym.Explore(vsym.Param("delays", 1))
	var err error
	d := hx.Done(func() {
		if vsym.Choose("kind", 2) == 0 {
			_, err = a.n.Ping(ctx, l.HostPort())
		} else {
			_, err = a.n.Request(ctx, l.HostPort(), []byte{1})
		}
	})
	if vsym.Choose("settle", 2) == 0 {
		vsym.Quiesce()
	}
	cancel()
	<-d
	vsym.Assert(err != nil && errors.Is(err, context.Canceled), "the call ends with the error of its context")
	vsym.Assert(vnet.Dials(l.Port()) <= 1, "no further attempts are made")
	vsym.Assert(a.pings == 1, "which is reported once")
	vsym.Quiesce()
	vsym.Assert(len(a.n.Outbound()) == 0 && len(a.ups) == 0, "nothing stays behind")
	if mode == 1 {
		for _, c := range vnet.All() {
			vsym.Assert(c.Closed() || !c.Dialed(), "the connection is closed")
		}
	}
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C28

// Idle: a connection over which nothing arrives for the idle timeout is
// closed, one that is in use is not.
func Idle() {
	const T = 10 * time.Second
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(T))
	got := 0
	b.Handle(func(ctx noise.HandlerContext) error { got++; return nil })
	hx.Must(b.Listen())
	outbound := vsym.Choose("role", 2) == 1
	var p *hx.Peer
	var l *vnet.Listener
	if outbound {
		p, l, _ = dialed(b, 1)
	} else {
		p = hx.Connect(b, 1, 4000)
	}
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	k := vsym.Param("steps", 3)
	idle := 0
	sent := 0
	for i := 0; i < k; i++ {
		dt := []int{1, 5, 9, 11}[vsym.Choose("dt", 4)]
		vnet.Advance(time.Duration(dt) * time.Second)
		vsym.Quiesce()
		idle += dt
		if idle >= 10 {
			vsym.Assert(p.C.PeerClosed(), "an idle connection is closed")
			vsym.Assert(len(b.Inbound())+len(b.Outbound()) == 0, "and released")
			vsym.Reach("idle")
			return
		}
		vsym.Assert(!p.C.PeerClosed(), "a connection in use stays open")
		switch vsym.Choose("use", 3) {
		case 0:
			p.Send(0, []byte{1})
			sent++
			vsym.Quiesce()
			idle = 0
		case 2: // what the node sends does not count
			if outbound {
				vsym.Assert(b.Send(hx.BG(), l.HostPort(), []byte{2}) == nil, "send")
				_, _, ok := p.Recv()
				vsym.Assert(ok, "arrives")
				vsym.Quiesce()
			}
		}
		vsym.Assert(got == sent, "and is served")
	}
	vsym.Reach("end")
}

// IdlePart: a peer that stops in the middle of a frame, whatever its size and
// however much of it has come.
func IdlePart() {
	const T = 10 * time.Second
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(T), noise.WithNodeMaxRecvMessageSize(100000))
	b.Handle(func(ctx noise.HandlerContext) error { return nil })
	hx.Must(b.Listen())
	var p *hx.Peer
	if vsym.Choose("role", 2) == 1 {
		p, _, _ = dialed(b, 1)
	} else {
		p = hx.Connect(b, 1, 4000)
	}
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	size := []int{1, 100, 1500, 5000, 70000}[vsym.Choose("size", 5)]
	f := hx.Frame(make([]byte, size))
	n := []int{2, 4, len(f) / 2, len(f) - 1}[vsym.Choose("n", 4)]
	p.C.Put(f[:n])
	vsym.Quiesce()
	vnet.Advance(9 * time.Second)
	vsym.Quiesce()
	vsym.Assert(!p.C.PeerClosed(), "it is given time")
	vnet.Advance(12 * time.Second)
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed() && len(b.Inbound())+len(b.Outbound()) == 0, "but not for ever")
	vsym.Reach("end")
}

// IdleBusy: a connection on which something arrives all the time is not given
// up, however the stream is cut into segments, and one is in which a frame
// does not go on.
func IdleBusy() {
	const T = 10 * time.Second
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(T))
	got := 0
	b.Handle(func(ctx noise.HandlerContext) error { got++; return nil })
	hx.Must(b.Listen())
	var p *hx.Peer
	if vsym.Choose("role", 2) == 1 {
		p, _, _ = dialed(b, 1)
	} else {
		p = hx.Connect(b, 1, 4000)
	}
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	// Frames of equal size, cut at the same place: each segment ends one and
	// begins the next.
	k := vsym.Param("segments", 4)
	var stream []byte
	size := 0
	for i := 0; i < k; i++ {
		f := hx.Frame(p.Seal(hx.Msg(0, []byte{byte(i), vsym.U8("x")})))
		size = len(f)
		stream = append(stream, f...)
	}
	cut := []int{0, 1, 3, 4, 5, 16, 30, size - 1}[vsym.Choose("cut", 8)]
	pos := 0
	for i := 0; i < k; i++ {
		to := (i + 1) * size
		if i < k-1 {
			to -= size - cut
			if cut == 0 {
				to = (i + 1) * size
			}
		}
		if to > pos {
			p.C.Put(stream[pos:to])
			pos = to
		}
		vsym.Quiesce()
		if i == k-1 {
			break
		}
		vnet.Advance(6 * time.Second)
		vsym.Quiesce()
		vsym.Assert(!p.C.PeerClosed(), "a connection in use stays open")
	}
	vsym.Assert(got == k && !p.C.PeerClosed(), "and is served")
	vnet.Advance(11 * time.Second)
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "and is given up once nothing arrives any more")
	vsym.Reach("end")
}

// IdleHandshake: a peer that never completes the handshake is dropped.
func IdleHandshake() {
	const T = 10 * time.Second
	w := watch(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(T), noise.WithNodeMaxDialAttempts(1))
	outbound := vsym.Choose("role", 2) == 1
	p, d, res := w.join(outbound, 1)
	stage := vsym.Choose("stage", 4)
	switch stage {
	case 1: // part of the first message
		p.C.Put(hx.Frame(p.Hello())[:7])
	case 2:
		p.SendFrame(p.Hello())
		p.ReadFrame()
	case 3: // never reads
		p.C.Peer().Limit(8)
	}
	vsym.Quiesce()
	vnet.Advance(9 * time.Second)
	vsym.Quiesce()
	vsym.Assert(!p.C.PeerClosed(), "a slow handshake is given time")
	vnet.Advance(2 * time.Second)
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "a stalled handshake is dropped")
	if outbound {
		<-d
		vsym.Assert(*res != nil, "and fails the dial")
	}
	vsym.Assert(len(w.n.Inbound())+len(w.n.Outbound()) == 0 && len(w.ups) == 0, "and is released")
	vsym.Reach("end")
}

// IdleWrite: a peer that stops reading is dropped, and messages written to one
// that reads do not make the connection fail.
func IdleWrite() {
	const T = 10 * time.Second
	a := hx.Listening(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(T))
	p, l, c := dialed(a, 1)
	vsym.Quiesce()
	vnet.Advance(6 * time.Second)
	p.Send(0, []byte{1}) // keeps the connection alive
	vsym.Quiesce()
	vnet.Advance(6 * time.Second)
	vsym.Quiesce()
	// More than the timeout has passed since anything was written.
	burst := 1 + 2*vsym.Choose("burst", 2)
	if vsym.Choose("reads", 2) == 0 {
		x := vsym.U8("x")
		for i := 0; i < burst; i++ {
			vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{x}) == nil, "send")
		}
		for i := 0; i < burst; i++ {
			_, d, ok := p.Recv()
			vsym.Assert(ok && vsym.Eq(d, []byte{x}), "is delivered")
		}
		vsym.Quiesce()
		vsym.Assert(!p.C.PeerClosed() && c.Error() == nil, "and the connection stays open")
		vsym.Reach("end")
		return
	}
	p.C.Peer().Limit(10)
	for i := 0; i < burst; i++ {
		vsym.Assert(a.Send(hx.BG(), l.HostPort(), make([]byte, 40)) == nil, "send")
	}
	vsym.Quiesce()
	vsym.Assert(!p.C.PeerClosed(), "writing is given time")
	vnet.Advance(3 * time.Second)
	p.Send(0, []byte{1}) // still sends
	vsym.Quiesce()
	vnet.Advance(5 * time.Second)
	vsym.Quiesce()
	vsym.Assert(!p.C.PeerClosed(), "as much as configured")
	vnet.Advance(3 * time.Second)
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed() && len(a.Outbound()) == 0, "a peer that stops reading is dropped")
	vsym.Reach("stalled")
}

// IdleOff: without a timeout connections stay open.
func IdleOff() {
	b := hx.Listening(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(0))
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	vnet.Advance(1000 * time.Hour)
	vsym.Quiesce()
	vsym.Assert(!p.C.PeerClosed() && len(b.Inbound()) == 1, "connection stays open")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C32

// OptionZero: zero values of the options select their defaults.
func OptionZero() {
	a := watch(noise.WithNodeMaxDialAttempts(0), noise.WithNodeNumWorkers(0), noise.WithNodeMaxInboundConnections(0), noise.WithNodeMaxOutboundConnections(0), noise.WithNodeLogger(nil))
	vsym.Assert(a.n.Logger() != nil, "there is a logger")
	l := vnet.Raw()
	port := l.Port()
	vnet.FailDials(port, 9)
	_, err := a.n.Ping(hx.BG(), l.HostPort())
	vsym.Assert(err != nil && vnet.Dials(port) == 1, "no dial attempts means one")
	p, q := hx.Connect(a.n, 1, 4000), hx.Connect(a.n, 2, 4001)
	vsym.Assert(p != nil && q != nil, "several peers can connect")
	x := vsym.U8("x")
	p.Send(0, []byte{x})
	q.Send(0, []byte{x})
	vsym.Quiesce()
	vsym.Assert(len(a.data) == 2, "and are served by a worker")
	vsym.Reach("end")
}

// OptionDefaults: without options, three dial attempts are made and a key is
// generated.
func OptionDefaults() {
	a, err := noise.NewNode()
	vsym.Assert(err == nil, "default node")
	b, err := noise.NewNode()
	vsym.Assert(err == nil, "default node")
	m := []byte{vsym.U8("m")}
	hx.Must(a.Listen())
	hx.Must(b.Listen())
	vsym.Assert(a.ID().ID != b.ID().ID && a.ID().ID != noise.ZeroPublicKey, "each node has its own key")
	vsym.Assert(a.ID().ID.Verify(m, a.Sign(m)) && !b.ID().ID.Verify(m, a.Sign(m)), "which it signs with")
	vsym.Assert(a.ID().Address == a.Addr() && int(a.ID().Port) == hx.Port(a.Addr()), "and an address")
	l := vnet.Raw()
	vnet.FailDials(l.Port(), 9)
	_, err = a.Ping(hx.BG(), l.HostPort())
	vsym.Assert(err != nil && strings.Contains(err.Error(), l.HostPort()) && vnet.Dials(l.Port()) == 3, "three dial attempts")
	vsym.Assert(a.Listen() != nil, "listening twice fails")
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	over := 4<<20 + 1 + int(vsym.U8("over")%8)
	p.C.Put([]byte{0, byte(over >> 16), 0, byte(over)})
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "messages of more than 4 MB are refused")
	vsym.Reach("end")
}

// OptionPool: the default bound of connections is 128.
func OptionPool() {
	k := vsym.Param("conns", 130)
	var b *noise.Node
	if vsym.Choose("opt", 2) == 0 {
		b = hx.Listening(noise.WithNodeNumWorkers(1))
	} else {
		b = hx.Listening(noise.WithNodeNumWorkers(1), noise.WithNodeMaxInboundConnections(0))
	}
	for i := 0; i < k; i++ {
		vsym.Assert(vnet.DialRaw(b.Addr()) != nil, "connect")
		vsym.Quiesce()
		want := i + 1
		if want > 128 {
			want = 128
		}
		vsym.Assert(len(b.Inbound()) == want, "128 connections are pooled by default")
	}
	vsym.Reach("end")
}

// OptionLate: handlers and protocols registered after Listen are ignored.
func OptionLate() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	early, late := 0, 0
	b.Handle(func(noise.HandlerContext) error { early++; return nil })
	b.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) { early++ }})
	hx.Must(b.Listen())
	b.Handle(func(noise.HandlerContext) error { late++; return nil })
	b.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) { late++ }, Bind: func(*noise.Node) error { late++; return nil }})
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	p.Send(0, []byte{vsym.U8("x")})
	vsym.Quiesce()
	vsym.Assert(early == 2 && late == 0, "only what was registered before listening runs")
	vsym.Reach("end")
}

// OptionBind: protocols are bound once in order, after the identity of the
// node is known; an error stops the node from listening.
func OptionBind() {
	n := hx.Node(noise.WithNodeNumWorkers(1))
	var order []int
	fail := vsym.Choose("fail", 4)
	mk := func(i int) noise.Protocol {
		return noise.Protocol{Bind: func(m *noise.Node) error {
			vsym.Assert(m == n && m.ID().ID != noise.ZeroPublicKey && m.Addr() != "" && m.ID().Address == m.Addr(), "bound with the identity of the node")
			order = append(order, i)
			if i == fail {
				return errHandler
			}
			return nil
		}}
	}
	n.Bind(mk(1), noise.Protocol{}, mk(2))
	n.Bind(mk(3))
	err := n.Listen()
	want := []int{1, 2, 3}
	if fail > 0 {
		want = want[:fail]
		vsym.Assert(errors.Is(err, errHandler), "the error is returned")
		vsym.Assert(vnet.DialRaw(n.Addr()) == nil, "and the node does not listen")
	} else {
		vsym.Assert(err == nil, "listens")
	}
	vsym.Assert(len(order) == len(want), "each is bound once")
	for i := range want {
		vsym.Assert(order[i] == want[i], "in order")
	}
	vsym.Assert(n.Close() == nil, "close")
	vsym.Reach("end")
}

// OptionIdle: the documented default idle timeout.
func OptionIdle() {
	b := hx.Listening(noise.WithNodeNumWorkers(1))
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	vnet.Advance(4 * time.Second)
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "an idle connection is closed after three seconds by default")
	vsym.Reach("end")
}

// OptionIdleSet: an idle timeout is as long as configured.
func OptionIdleSet() {
	d := []time.Duration{20 * time.Millisecond, 700 * time.Millisecond, time.Second, 2500 * time.Millisecond, 10 * time.Second, time.Hour}[vsym.Choose("d", 6)]
	b := hx.Listening(noise.WithNodeNumWorkers(1), noise.WithNodeIdleTimeout(d))
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	vnet.Advance(d - d/8)
	vsym.Quiesce()
	vsym.Assert(!p.C.PeerClosed(), "not closed before")
	vnet.Advance(d / 4)
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "closed thereafter")
	vsym.Reach("end")
}
