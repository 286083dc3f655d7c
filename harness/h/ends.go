package h

import (
	"context"
	"errors"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- C35

// ending is how a connection comes to its end.
const (
	endPeerCloses = iota
	endPeerResets
	endHalfClose
	endTampered
	endTooLarge
	endHandler
	endApplication
	endIdle
	endStalled
	endEvicted
	endGarbage // from here on, the handshake does not complete
	endMidHandshake
	endBadIdentity
	endSilent
	endRefused
	endings
)

// Ends: in whatever way connections end, and whatever they are in the middle
// of, nothing of them is left while the node goes on.
func Ends() {
	const T = 10 * time.Second
	limit := uint(8)
	mode := vsym.Choose("mode", endings)
	if mode == endEvicted {
		limit = 1
	}
	opts := []noise.NodeOption{noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxInboundConnections(limit), noise.WithNodeMaxOutboundConnections(limit)}
	if mode == endIdle || mode == endStalled || mode == endSilent {
		opts = append(opts, noise.WithNodeIdleTimeout(T))
	}
	a := hx.Node(opts...)
	ups, downs := 0, 0
	var clients []*noise.Client
	a.Bind(noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { ups++; clients = append(clients, c) },
		OnPeerDisconnected: func(c *noise.Client) { downs++ },
	})
	hold := make(chan struct{})
	a.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		if len(d) == 1 && d[0] == 0xee {
			return errors.New("refused")
		}
		if len(d) == 1 && d[0] == 0xdd {
			<-hold
		}
		return nil
	})
	hx.Must(a.Listen())
	n0 := vsym.Live()
	outbound := vsym.Choose("role", 2) == 1
	if mode == endRefused && !outbound {
		vsym.Reach("end")
		return
	}
	load := 0
	if mode == endApplication || mode == endEvicted {
		load = vsym.Choose("load", 4)
	} else if mode < endGarbage {
		load = vsym.Choose("load", 3)
	}
	vsym.Explore(vsym.Param("delays", 0))
	k := vsym.Param("rounds", 1)
	if mode == endEvicted {
		k++
	}
	var rs []*reply
	var ps []*hx.Peer
	var ds []chan struct{}
	for i := 0; i < k; i++ {
		if mode == endRefused {
			l := vnet.Raw()
			addr := l.HostPort()
			l.Close()
			_, err := a.Ping(hx.BG(), addr)
			vsym.Assert(err != nil, "a refused dial fails")
			continue
		}
		var l *vnet.Listener
		var p *hx.Peer
		if outbound {
			l = vnet.Raw()
			addr := l.HostPort()
			ds = append(ds, hx.Done(func() { a.Ping(hx.BG(), addr) }))
			p = hx.NewPeer(l.AcceptRaw(), byte(i+1), uint16(l.Port()))
		} else {
			p = hx.NewPeer(vnet.DialRaw(a.Addr()), byte(i+1), uint16(4000+i))
		}
		ps = append(ps, p)
		switch mode {
		case endGarbage:
			p.SendFrame(vsym.Bytes("x", 3))
			continue
		case endMidHandshake:
			p.SendFrame(p.Hello())
			p.C.Close()
			continue
		case endBadIdentity:
			p.SendFrame(p.Hello())
			h, ok := p.ReadFrame()
			vsym.Assert(ok && p.Agree(h), "agree")
			p.SendFrame(p.Seal(append(p.ID.Marshal(), vsym.Bytes("sig", 64)...)))
			continue
		case endSilent:
			continue
		}
		vsym.Assert(p.Handshake(), "handshake completes")
		vsym.Quiesce()
		c := clients[len(clients)-1]
		switch load {
		case 1: // a request waits on the connection
			if outbound {
				rs = append(rs, ask(a, hx.BG(), l.HostPort(), []byte{1}))
				vsym.Quiesce()
			}
		case 2: // messages are under way in both directions
			if outbound {
				a.Send(hx.BG(), l.HostPort(), []byte{1})
			}
			p.Send(0, []byte{1})
		case 3: // handlers are busy, and no more is read
			for j := 0; j < 4; j++ {
				p.Send(0, []byte{0xdd})
			}
			vsym.Quiesce()
		}
		switch mode {
		case endPeerCloses:
			p.C.Close()
		case endPeerResets:
			p.C.Reset()
		case endHalfClose:
			p.C.CloseWrite()
		case endTampered:
			f := p.Seal(hx.Msg(0, []byte{1}))
			f[14] ^= 1
			p.SendFrame(f)
		case endTooLarge:
			p.C.Put([]byte{0xff, 0, 0, 0})
		case endHandler:
			p.Send(0, []byte{0xee})
		case endApplication:
			c.Close()
		case endStalled:
			p.C.Peer().Limit(10)
			if outbound {
				a.Send(hx.BG(), l.HostPort(), make([]byte, 40))
			}
		}
	}
	vsym.Quiesce()
	if mode == endIdle || mode == endStalled || mode == endSilent {
		vnet.Advance(T + time.Second)
		vsym.Quiesce()
	}
	if mode == endEvicted { // the last one stays
		last := len(ps) - 1
		vsym.Assert(!ps[last].C.PeerClosed() && len(a.Inbound())+len(a.Outbound()) == 1, "the newest connection stays")
		vsym.Assert(downs == last, "the others are reported to have ended")
		clients[last].Close()
		vsym.Quiesce()
	}
	for _, p := range ps {
		vsym.Assert(p.C.PeerClosed(), "the node closed its end")
	}
	for _, c := range clients {
		d := hx.Done(c.WaitUntilClosed)
		vsym.Quiesce()
		vsym.Assert(hx.Ended(d), "the client has ended")
	}
	for _, r := range rs {
		vsym.Assert(hx.Ended(r.done) && r.err != nil, "requests on it have failed")
	}
	for _, d := range ds {
		vsym.Assert(hx.Ended(d), "dials have ended")
	}
	vsym.Assert(len(a.Inbound()) == 0 && len(a.Outbound()) == 0, "the pools are empty")
	vsym.Assert(ups == downs && ups == len(clients), "every connection was reported to end")
	vsym.Assert(vsym.Live() == n0, "nothing keeps running for connections that ended")
	close(hold)
	b := hx.Connect(a, 99, 5000)
	vsym.Assert(b != nil, "the node goes on")
	vsym.Reach("end")
}

// Grows: what a node holds does not grow with the connections it had.
func Grows() {
	const limit = 2
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxInboundConnections(limit), noise.WithNodeMaxOutboundConnections(limit))
	a.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) {}, OnPeerDisconnected: func(*noise.Client) {}})
	a.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		if len(d) == 1 && d[0] == 0xee {
			return errors.New("refused")
		}
		if ctx.IsRequest() {
			return ctx.Send(d)
		}
		return nil
	})
	hx.Must(a.Listen())
	mode := vsym.Choose("mode", 8)
	outbound := vsym.Choose("role", 2) == 1
	same := !(outbound && mode == 5) && vsym.Choose("same", 2) == 1 // the same peer every time
	l := vnet.Raw()
	round := func(i int) {
		if outbound && mode == 7 { // refused
			m := vnet.Raw()
			addr := m.HostPort()
			m.Close()
			a.Ping(hx.BG(), addr)
			return
		}
		if same {
			i = 0
		}
		var p *hx.Peer
		var r *reply
		if outbound {
			if !same {
				l = vnet.Raw()
			}
			r = ask(a, hx.BG(), l.HostPort(), []byte{1})
			p = hx.NewPeer(l.AcceptRaw(), byte(i+1), uint16(l.Port()))
		} else {
			p = hx.NewPeer(vnet.DialRaw(a.Addr()), byte(i+1), uint16(4000+i))
		}
		if mode == 6 { // fails its handshake
			p.SendFrame(p.Hello())
			p.C.Close()
			vsym.Quiesce()
			return
		}
		vsym.Assert(p.Handshake(), "handshake completes")
		if r != nil {
			nonce, _, ok := p.Recv()
			vsym.Assert(ok && nonce != 0, "request")
			if mode != 3 {
				p.Send(nonce, []byte{1})
				<-r.done
			}
		}
		p.Send(7, []byte{1})
		_, _, ok := p.Recv()
		vsym.Assert(ok, "answered")
		vsym.Quiesce()
		switch mode {
		case 0:
			p.C.Close()
		case 1:
			p.C.Reset()
		case 2:
			p.Send(0, []byte{0xee})
		case 3:
			for _, c := range append(a.Inbound(), a.Outbound()...) {
				c.Close()
			}
		case 4:
			p.SendFrame(make([]byte, 40))
		case 5: // is evicted
		case 7: // ends with an empty frame
			p.SendFrame(p.Seal(nil))
		}
		vsym.Quiesce()
	}
	for i := 0; i < limit; i++ {
		round(i)
	}
	was := vsym.Held(a)
	for i := limit; i < limit+3; i++ {
		round(i)
	}
	vsym.Assert(vsym.Held(a) <= was, "what the node holds does not grow")
	vsym.Assert(len(a.Inbound())+len(a.Outbound()) == 0 || mode == 5, "connections that ended are gone")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C36

// Reports: what a client tells about its connection is true at all times.
func Reports() {
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	connected, disconnected := 0, 0
	b.Bind(noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { connected++ },
		OnPeerDisconnected: func(c *noise.Client) { disconnected++ },
	})
	hold, held := make(chan struct{}), false
	b.Handle(func(ctx noise.HandlerContext) error {
		if held {
			<-hold
		}
		return errors.New("refused")
	})
	hx.Must(b.Listen())
	w := &watched{n: b}
	outbound := vsym.Choose("role", 2) == 1
	how := vsym.Choose("how", 7)
	p, d, res := w.join(outbound, 7)
	vsym.Quiesce()
	cs := append(b.Inbound(), b.Outbound()...)
	vsym.Assert(len(cs) == 1, "a connection is listed while its handshake goes on")
	c := cs[0]
	vsym.Assert(c.Error() == nil, "nothing is wrong yet")
	vsym.Assert(c.ID().ID == noise.ZeroPublicKey, "nobody is known yet")
	vsym.Explore(vsym.Param("delays", 1))
	rErr, rID, rUp := error(nil), noise.ID{}, 0
	r := hx.Done(func() {
		c.WaitUntilReady()
		rErr, rID, rUp = c.Error(), c.ID(), connected
	})
	cErr, cDown, cListed := error(nil), 0, 0
	e := hx.Done(func() {
		c.WaitUntilClosed()
		cErr, cDown = c.Error(), disconnected
		cListed = len(b.Inbound()) + len(b.Outbound())
	})
	vsym.Quiesce()
	vsym.Assert(!hx.Ended(r) && !hx.Ended(e), "both wait during the handshake")
	if how == 0 { // fails
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Seal(append(p.ID.Marshal(), vsym.Bytes("sig", 64)...)))
		vsym.Quiesce()
		vsym.Assert(hx.Ended(r) && rErr != nil && rID.ID == noise.ZeroPublicKey, "a failed handshake is told")
		vsym.Assert(hx.Ended(e) && cErr != nil && cErr == rErr && cListed == 0, "and ends the client")
		vsym.Assert(connected == 0 && disconnected == 0, "it never was connected")
		if outbound {
			vsym.Assert(hx.Ended(d) && errors.Is(*res, rErr), "the dial names the failure")
		}
		vsym.Reach("failed")
		return
	}
	if how == 5 { // closed meanwhile
		c.Close()
		vsym.Quiesce()
		vsym.Assert(hx.Ended(r) && hx.Ended(e), "a client closed during its handshake ends")
		vsym.Assert(rErr != nil && cListed == 0 && connected == 0 && disconnected == 0, "and was never connected")
		vsym.Reach("aborted")
		return
	}
	vsym.Assert(p.Handshake(), "handshake completes")
	vsym.Quiesce()
	vsym.Assert(hx.Ended(r) && rErr == nil && rID.ID == p.Pub && rID.Address == p.ID.Address, "a client that is ready knows its peer")
	vsym.Assert(rUp == 1, "and was reported")
	vsym.Assert(!hx.Ended(e) && c.Error() == nil, "it is open")
	if outbound {
		vsym.Assert(hx.Ended(d) && *res == nil, "the dial succeeded")
		o := b.Outbound()
		vsym.Assert(len(o) == 1 && o[0] == c && len(b.Inbound()) == 0, "it is listed where it belongs")
	} else {
		i := b.Inbound()
		vsym.Assert(len(i) == 1 && i[0] == c && len(b.Outbound()) == 0, "it is listed where it belongs")
	}
	if how == 6 { // while a handler is at work, which fails later on
		held = true
		p.Send(0, nil)
		vsym.Quiesce()
		vsym.Assert(c.Error() == nil && !hx.Ended(e), "a handler is at work")
	}
	switch how {
	case 1, 6:
		p.C.Close()
	case 2:
		f := p.Seal(hx.Msg(0, nil))
		f[13] ^= 1
		p.SendFrame(f)
	case 3:
		p.Send(0, nil)
	case 4:
		d2 := hx.Done(c.Close)
		c.Close()
		<-d2
		c.Close()
	}
	vsym.Quiesce()
	vsym.Assert(hx.Ended(e), "a client that has ended says so")
	vsym.Assert(cDown == 1 && cListed == 0, "once all is over")
	first := c.Error()
	vsym.Assert(how == 4 || first != nil, "and why")
	vsym.Assert(first == cErr, "the reason given first stays")
	if how == 3 {
		vsym.Assert(first.Error() == "refused", "the reason is the handler's")
	}
	close(hold)
	vsym.Quiesce()
	c.WaitUntilReady()
	c.WaitUntilClosed()
	vsym.Assert(c.ID().ID == p.Pub && c.Error() == first, "it is remembered")
	vsym.Reach("end")
}

// EndsEarly: a connection which is evicted, closed or given up at any stage of
// its dial or handshake is gone with everything that belongs to it.
func EndsEarly() {
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxInboundConnections(1), noise.WithNodeMaxOutboundConnections(1))
	ups, downs := 0, 0
	a.Bind(noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { ups++ },
		OnPeerDisconnected: func(c *noise.Client) { downs++ },
	})
	hx.Must(a.Listen())
	n0 := vsym.Live()
	outbound := vsym.Choose("role", 2) == 1
	stage := vsym.Choose("stage", 5)
	if stage == 0 && !outbound {
		vsym.Reach("end")
		return
	}
	how := 0
	if outbound {
		how = vsym.Choose("how", 3)
	} else {
		how = vsym.Choose("how", 2)
	}
	ctx, cancel := context.WithCancel(hx.BG())
	defer cancel()
	var p *hx.Peer
	var d chan struct{}
	var r *reply
	if outbound {
		l := vnet.Raw()
		vnet.HoldDials(l.Port(), stage == 0)
		addr := l.HostPort()
		r = ask(a, ctx, addr, []byte{1})
		if stage > 0 {
			p = hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
		}
	} else {
		p = hx.NewPeer(vnet.DialRaw(a.Addr()), 1, 4000)
	}
	if stage > 1 {
		p.SendFrame(p.Hello())
	}
	if stage > 2 {
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
	}
	if stage > 3 { // most of the last frame
		f := hx.Frame(p.Seal(p.Identity()))
		p.C.Put(f[:len(f)-1])
	}
	vsym.Quiesce()
	cs := append(a.Inbound(), a.Outbound()...)
	vsym.Assert(len(cs) == 1, "it is listed")
	vsym.Explore(vsym.Param("delays", 1))
	stays := 0
	switch how {
	case 0: // evicted
		if outbound {
			l := vnet.Raw()
			addr := l.HostPort()
			d = hx.Done(func() { a.Ping(hx.BG(), addr) })
			q := hx.NewPeer(l.AcceptRaw(), 2, uint16(l.Port()))
			vsym.Assert(q.Handshake(), "another connection comes up")
		} else {
			vsym.Assert(hx.Connect(a, 2, 4001) != nil, "another connection comes up")
		}
		stays = 1
	case 1:
		cs[0].Close()
	case 2: // given up
		cancel()
	}
	vsym.Quiesce()
	vsym.Assert(p == nil || p.C.PeerClosed(), "the node closed its end")
	e := hx.Done(cs[0].WaitUntilClosed)
	w := hx.Done(cs[0].WaitUntilReady)
	vsym.Quiesce()
	vsym.Assert(hx.Ended(e) && hx.Ended(w) && cs[0].Error() != nil, "the client has ended")
	vsym.Assert(r == nil || hx.Ended(r.done) && r.err != nil, "the request has failed")
	cs = append(a.Inbound(), a.Outbound()...)
	vsym.Assert(len(cs) == stays && ups == stays && downs == 0, "it never was connected")
	for _, c := range cs {
		c.Close()
	}
	vsym.Quiesce()
	vsym.Assert(d == nil || hx.Ended(d), "dials have ended")
	vsym.Assert(ups == downs && vsym.Live() == n0, "nothing keeps running for connections that ended")
	vsym.Reach("end")
}

// ReportsDial: a client can be waited for while it is being dialed, and tells
// how that ends.
func ReportsDial() {
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	connected, disconnected := 0, 0
	b.Bind(noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { connected++ },
		OnPeerDisconnected: func(c *noise.Client) { disconnected++ },
	})
	hx.Must(b.Listen())
	how := vsym.Choose("how", 6)
	l := vnet.Raw()
	vnet.HoldDials(l.Port(), true)
	addr := l.HostPort()
	ctx, cancel := context.WithCancel(hx.BG())
	defer cancel()
	var res, res2 error
	d := hx.Done(func() { _, err := b.Ping(ctx, addr); res = err })
	vsym.Quiesce()
	cs := b.Outbound()
	vsym.Assert(len(cs) == 1, "a client is listed while it is dialed")
	c := cs[0]
	vsym.Explore(vsym.Param("delays", 1))
	rErr, cErr, rUp, cListed := error(nil), error(nil), 0, 0
	r := hx.Done(func() { c.WaitUntilReady(); rErr, rUp = c.Error(), connected })
	e := hx.Done(func() { c.WaitUntilClosed(); cErr, cListed = c.Error(), len(b.Outbound()) })
	vsym.Quiesce()
	vsym.Assert(!hx.Ended(r) && !hx.Ended(e) && !hx.Ended(d) && c.Error() == nil, "all wait for the dial")
	ctx2, cancel2 := context.WithCancel(hx.BG())
	defer cancel2()
	switch how {
	case 0: // refused
		l.Close()
		vnet.HoldDials(l.Port(), false)
	case 1:
		c.Close()
	case 2:
		cancel()
	case 3:
		hx.Must(b.Close())
	case 4, 5:
		d2 := hx.Done(func() { _, err := b.Ping(ctx2, addr); res2 = err })
		vsym.Quiesce()
		if how == 4 { // another one gives up
			cancel2()
			<-d2
			vsym.Assert(res2 != nil && !hx.Ended(r) && !hx.Ended(e) && c.Error() == nil, "the others go on waiting")
		}
		vnet.HoldDials(l.Port(), false)
		p := hx.NewPeer(l.AcceptRaw(), 7, uint16(l.Port()))
		vsym.Quiesce()
		vsym.Assert(!hx.Ended(r) && c.Error() == nil, "and for the handshake")
		vsym.Assert(p.Handshake(), "handshake completes")
		vsym.Quiesce()
		vsym.Assert(hx.Ended(r) && rErr == nil && rUp == 1 && c.ID().ID == p.Pub, "then it is ready")
		vsym.Assert(hx.Ended(d) && res == nil && hx.Ended(d2) && (how == 4 || res2 == nil), "and the dials are done")
		vsym.Assert(!hx.Ended(e) && len(b.Outbound()) == 1 && disconnected == 0, "it is open")
		vsym.Reach("up")
		return
	}
	vsym.Quiesce()
	vsym.Assert(hx.Ended(d) && res != nil, "the dial fails")
	vsym.Assert(hx.Ended(r) && hx.Ended(e), "nobody is left waiting")
	vsym.Assert(cErr != nil && c.Error() == cErr && cListed == 0, "it says why")
	vsym.Assert(rErr == nil || rErr == cErr, "in the same words")
	vsym.Assert(how == 2 || rErr != nil, "at once")
	vsym.Assert(connected == 0 && disconnected == 0, "it never was connected")
	vsym.Reach("end")
}
