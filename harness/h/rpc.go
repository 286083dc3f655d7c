package h

import (
	"context"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// dialed has node a connect to a raw peer of the harness.
func dialed(a *noise.Node, k byte) (*hx.Peer, *vnet.Listener, *noise.Client) {
	l := vnet.Raw()
	var p *hx.Peer
	d := hx.Done(func() {
		p = hx.NewPeer(l.AcceptRaw(), k, uint16(l.Port()))
		vsym.Assert(p.Handshake(), "handshake completes")
	})
	c, err := a.Ping(hx.BG(), l.HostPort())
	<-d
	vsym.Assert(err == nil, "ping")
	return p, l, c
}

// dialable is dialed for a peer that claims the address it is dialed at.
func dialable(a *noise.Node) (*hx.Peer, *vnet.Listener, *noise.Client) {
	l := vnet.Raw()
	var p *hx.Peer
	d := hx.Done(func() {
		p = hx.NewPeer(l.AcceptRaw(), 1, 1)
		p.ID = loopback(p.Pub, l)
		vsym.Assert(p.Handshake(), "handshake completes")
	})
	c, err := a.Ping(hx.BG(), l.HostPort())
	<-d
	vsym.Assert(err == nil, "ping")
	return p, l, c
}

type reply struct {
	data []byte
	err  error
	done chan struct{}
}

func ask(a *noise.Node, ctx context.Context, addr string, data []byte) *reply {
	r := &reply{}
	r.done = hx.Done(func() { r.data, r.err = a.Request(ctx, addr, data) })
	return r
}

// ---------------------------------------------------------------- C08

// Correlate: concurrent requests over one connection, answered in any order,
// with foreign nonces and duplicates in between: each gets its own answer.
func Correlate() {
	a := hx.Node(noise.WithNodeNumWorkers(1))
	handled := 0
	a.Handle(func(ctx noise.HandlerContext) error {
		handled++
		return nil
	})
	hx.Must(a.Listen())
	p, l, _ := dialed(a, 1)
	k := vsym.Param("reqs", 3)
	vsym.Explore(vsym.Param("delays", 0))
	var rs []*reply
	for i := 0; i < k; i++ {
		rs = append(rs, ask(a, hx.BG(), l.HostPort(), []byte{byte(i), 0x51}))
	}
	nonce := make([]uint64, k)
	for i := 0; i < k; i++ {
		n, d, ok := p.Recv()
		vsym.Assert(ok && len(d) == 2 && d[1] == 0x51 && int(d[0]) < k && nonce[d[0]] == 0, "each request arrives once")
		vsym.Assert(n != 0, "as a request")
		for _, m := range nonce {
			vsym.Assert(m != n, "requests in flight are told apart")
		}
		nonce[d[0]] = n
	}
	ans := make([][]byte, k)
	left := k
	noise := vsym.Choose("noise", 3)
	extra := 0
	at := vsym.Choose("at", k)
	for left > 0 {
		if noise > 0 && k-left == at {
			// A response to a request that was never made.
			n := vsym.U64("nonce")
			for _, m := range nonce {
				vsym.Assume(n != m)
			}
			p.Send(n, []byte{0xee})
			extra++
		}
		i := vsym.Choose("next", left)
		for j := range ans {
			if ans[j] == nil {
				if i == 0 {
					ans[j] = vsym.Bytes("ans", vsym.Choose("n", 2)+1)
					p.Send(nonce[j], ans[j])
					if noise == 2 && k-left == at { // a duplicate
						p.Send(nonce[j], []byte{0xdd, 0xdd, 0xdd})
						extra++
					}
					left--
					break
				}
				i--
			}
		}
	}
	for i, r := range rs {
		<-r.done
		vsym.Assert(r.err == nil, "answered request succeeds")
		vsym.Assert(vsym.Eq(r.data, ans[i]), "with its own answer")
	}
	vsym.Quiesce()
	vsym.Assert(handled == extra, "answers are not handled as messages")
	vsym.Reach("end")
}

// CorrelateNodes: requests between nodes while several workers answer.
func CorrelateNodes() {
	b := hx.Node(noise.WithNodeNumWorkers(2))
	b.Handle(func(ctx noise.HandlerContext) error {
		vsym.Assert(ctx.IsRequest(), "a request")
		return ctx.Send(append([]byte{0x99}, ctx.Data()...))
	})
	hx.Must(b.Listen())
	a := hx.Listening(noise.WithNodeNumWorkers(1))
	_, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Explore(vsym.Param("delays", 1))
	x, y, z := vsym.Bytes("x", 2), vsym.Bytes("y", 2), vsym.Bytes("z", 1)
	r1, r2 := ask(a, hx.BG(), b.Addr(), x), ask(a, hx.BG(), b.Addr(), y)
	<-r1.done
	r3 := ask(a, hx.BG(), b.Addr(), z)
	<-r2.done
	<-r3.done
	vsym.Assert(r1.err == nil && r2.err == nil && r3.err == nil, "answered request succeeds")
	vsym.Assert(vsym.Eq(r1.data, append([]byte{0x99}, x...)), "with its own answer")
	vsym.Assert(vsym.Eq(r2.data, append([]byte{0x99}, y...)), "with its own answer")
	vsym.Assert(vsym.Eq(r3.data, append([]byte{0x99}, z...)), "with its own answer")
	vsym.Reach("end")
}

// Late: the answer to an abandoned request is given to nobody else.
func Late() {
	a := hx.Node(noise.WithNodeNumWorkers(1))
	seen := 0
	a.Handle(func(ctx noise.HandlerContext) error { seen++; return nil })
	hx.Must(a.Listen())
	p, l, _ := dialed(a, 1)
	ctx, cancel := context.WithCancel(hx.BG())
	r1 := ask(a, ctx, l.HostPort(), []byte{1})
	n1, _, ok := p.Recv()
	vsym.Assert(ok, "first request arrives")
	vsym.Explore(vsym.Param("delays", 1))
	late := vsym.Choose("late", 3)
	if late == 2 { // races with the cancellation
		d := hx.Done(cancel)
		p.Send(n1, []byte{0x11})
		<-d
	} else {
		cancel()
		<-r1.done
		vsym.Assert(r1.err != nil, "abandoned request fails")
	}
	r2 := ask(a, hx.BG(), l.HostPort(), []byte{2})
	n2, d2, ok := p.Recv()
	vsym.Assert(ok && vsym.Eq(d2, []byte{2}) && n2 != n1, "second request is told apart from the abandoned one")
	if late == 1 {
		p.Send(n1, []byte{0x11})
	}
	p.Send(n2, []byte{0x22})
	if late == 0 {
		p.Send(n1, []byte{0x11})
	}
	<-r2.done
	vsym.Assert(r2.err == nil && vsym.Eq(r2.data, []byte{0x22}), "second request gets its own answer")
	<-r1.done
	vsym.Assert(r1.err != nil || vsym.Eq(r1.data, []byte{0x11}), "the first fails or gets its own")
	r3 := ask(a, hx.BG(), l.HostPort(), []byte{3})
	n3, _, ok := p.Recv()
	vsym.Assert(ok && n3 != n1 && n3 != n2, "third request")
	p.Send(n3, []byte{0x33})
	<-r3.done
	vsym.Assert(r3.err == nil && vsym.Eq(r3.data, []byte{0x33}), "third request gets its own answer")
	vsym.Quiesce()
	vsym.Assert(seen == 0, "an answer is not handled as a message, late or not")
	vsym.Reach("end")
}

// TwoPeers: answers over one connection never settle requests over another.
func TwoPeers() {
	a := hx.Node(noise.WithNodeNumWorkers(1))
	hx.Must(a.Listen())
	p, lp, _ := dialed(a, 1)
	q, lq, _ := dialed(a, 2)
	vsym.Explore(vsym.Param("delays", 1))
	r := ask(a, hx.BG(), lp.HostPort(), []byte{1})
	s := ask(a, hx.BG(), lq.HostPort(), []byte{2})
	n, d, ok := p.Recv()
	m, e, ok2 := q.Recv()
	vsym.Assert(ok && ok2 && vsym.Eq(d, []byte{1}) && vsym.Eq(e, []byte{2}), "each peer gets its own request")
	x := vsym.U8("x")
	q.Send(n, []byte{x, 1})
	if m != n {
		q.Send(m, []byte{x, 1})
	}
	<-s.done
	vsym.Assert(s.err == nil && vsym.Eq(s.data, []byte{x, 1}), "answer over its own connection")
	vsym.Quiesce()
	vsym.Assert(!hx.Ended(r.done), "the other one keeps waiting")
	p.Send(n, []byte{x, 2})
	<-r.done
	vsym.Assert(r.err == nil && vsym.Eq(r.data, []byte{x, 2}), "answer over its own connection")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C09

// Pending: requests in flight end with an error when the connection is lost in
// any way, when it is closed, or when their context ends.
func Pending() {
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	hx.Must(a.Listen())
	p, l, c := dialed(a, 1)
	ctx, cancel := context.WithCancel(hx.BG())
	defer cancel()
	answered := vsym.Choose("answered", 2) == 1
	l.Close() // nobody answers a second connection
	vsym.Explore(vsym.Param("delays", 1))
	r := ask(a, ctx, l.HostPort(), []byte{1})
	s := ask(a, ctx, l.HostPort(), []byte{2})
	n, d, ok := p.Recv()
	vsym.Assert(ok, "request arrives")
	if answered {
		p.Send(n, append([]byte{0x77}, d...))
	}
	switch vsym.Choose("how", 10) {
	case 0:
		p.C.Close()
	case 1:
		p.C.Reset()
	case 2: // in the middle of a frame
		p.C.Put([]byte{0, 0, 0, 40, 1, 2, 3})
		p.C.Close()
	case 3: // does not authenticate
		p.SendFrame(append(vsym.Bytes("junk", 2), make([]byte, 40)...))
	case 4: // larger than allowed
		p.C.Put([]byte{0x7f, 0xff, 0xff, 0xff})
	case 5: // too short for a message
		p.SendFrame(p.Seal(vsym.Bytes("m", vsym.Choose("n", 8))))
	case 6:
		d := hx.Done(c.Close)
		<-d
	case 7:
		d := hx.Done(func() { a.Close() })
		<-d
	case 8:
		cancel()
	case 9: // a frame shorter than its authentication tag
		p.C.Put([]byte{0, 0, 0, 3, 9, 9, 9})
	}
	<-r.done
	<-s.done
	vsym.Quiesce()
	first, second := r, s
	if len(d) == 1 && d[0] == 2 {
		first, second = s, r
	}
	if first.err == nil {
		vsym.Assert(answered && vsym.Eq(first.data, append([]byte{0x77}, d...)), "success only with the answer")
	}
	vsym.Assert(second.err != nil, "a request that was not answered fails")
	vsym.Reach("end")
}

// Racing: requests started while the connection goes away still end.
func Racing() {
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	hx.Must(a.Listen())
	p, l, c := dialed(a, 1)
	vsym.Explore(vsym.Param("delays", 1))
	how := vsym.Choose("how", 4)
	l.Close()
	r := ask(a, hx.BG(), l.HostPort(), []byte{1})
	switch how {
	case 0:
		p.C.Close()
	case 1:
		p.C.Reset()
	case 2:
		c.Close()
	case 3:
		<-hx.Done(func() { a.Close() })
	}
	s := ask(a, hx.BG(), l.HostPort(), []byte{2})
	<-r.done
	<-s.done
	vsym.Assert(r.err != nil && s.err != nil, "requests over a lost connection fail")
	vsym.Assert(a.Send(hx.BG(), l.HostPort(), []byte{3}) != nil, "and so do messages")
	vsym.Reach("end")
}

// Stuck: requests end although the peer stops reading.
func Stuck() {
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	hx.Must(a.Listen())
	p, l, c := dialed(a, 1)
	p.C.Peer().Limit(vsym.Choose("room", 3) * 20)
	ctx, cancel := context.WithCancel(hx.BG())
	defer cancel()
	vsym.Explore(vsym.Param("delays", 1))
	r := ask(a, ctx, l.HostPort(), make([]byte, 100))
	s := ask(a, ctx, l.HostPort(), make([]byte, 100))
	vsym.Quiesce()
	switch vsym.Choose("how", 5) {
	case 0:
		cancel()
	case 1:
		c.Close()
	case 2:
		p.C.Close()
	case 3:
		p.C.Reset()
	case 4:
		<-hx.Done(func() { a.Close() })
	}
	<-r.done
	<-s.done
	vsym.Assert(r.err != nil && s.err != nil, "requests fail")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C10

// OneResponse: however many handlers and goroutines answer a request, one
// answer is sent.
func OneResponse() {
	b := hx.Node(noise.WithNodeNumWorkers(2))
	oks, errs := 0, 0
	var sent []byte
	waits := make(chan struct{}, 8)
	mode := vsym.Choose("mode", 3)
	x := vsym.U8("x")
	how := vsym.Choose("how", 3) // raw, typed or both
	b.RegisterMessage(tagged{}, func([]byte) (tagged, error) { return tagged{}, nil })
	answer := func(ctx noise.HandlerContext, v byte) {
		send := func() error { return ctx.Send([]byte{v, x}) }
		if how == 1 || how == 2 && v != 2 {
			send = func() error { return ctx.SendMessage(tagged{v, x}) }
		}
		if err := send(); err == nil {
			oks++
			sent = append(sent, v)
		} else {
			errs++
		}
	}
	b.Handle(func(ctx noise.HandlerContext) error {
		switch mode {
		case 0: // one after another
			answer(ctx, 1)
			answer(ctx, 2)
		case 1: // at once
			d := hx.Done(func() { answer(ctx, 1) })
			answer(ctx, 2)
			<-d
		case 2: // after the handler returned
			vsym.Go(func() { answer(ctx, 1); waits <- struct{}{} })
		}
		return nil
	}, func(ctx noise.HandlerContext) error {
		answer(ctx, 3)
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Explore(vsym.Param("delays", 1))
	nonce := vsym.U64("nonce")
	p.Send(nonce, []byte{7})
	if mode == 2 {
		<-waits
	}
	vsym.Quiesce()
	total := 3
	if mode == 2 {
		total = 2
	}
	vsym.Assert(oks+errs == total, "all handlers ran")
	if nonce == 0 {
		vsym.Assert(oks == total, "a plain message may be answered any number of times")
		for i := 0; i < total; i++ {
			n, _, ok := p.Recv()
			vsym.Assert(ok && n == 0, "each is sent")
		}
		vsym.Assert(p.C.Buffered() == 0, "nothing else is sent")
		vsym.Reach("plain")
		return
	}
	vsym.Assert(oks == 1, "exactly one answer is accepted, the others fail")
	n, d, ok := p.Recv()
	want := []byte{sent[0], x}
	if how == 1 || how == 2 && sent[0] != 2 {
		want = encoded(b, tagged{sent[0], x})
	}
	vsym.Assert(ok && n == nonce && vsym.Eq(d, want), "the accepted answer is sent under the request")
	vsym.Assert(p.C.Buffered() == 0, "nothing else is sent")
	vsym.Reach("end")
}

// tagged is a message whose encoding tells what sent it.
type tagged [2]byte

func (t tagged) Marshal() []byte { return t[:] }

// Responses: several requests, each is answered once with its own data.
func Responses() {
	b := hx.Node(noise.WithNodeNumWorkers(uint(vsym.Param("workers", 2))))
	b.Handle(func(ctx noise.HandlerContext) error {
		buf := append([]byte{0x40}, ctx.Data()...)
		err := ctx.Send(buf)
		vsym.Assert(err == nil, "the first answer is accepted")
		buf[0], buf[1] = 0, 0
		vsym.Assert(ctx.Send([]byte{1}) != nil, "the second is refused")
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Explore(vsym.Param("delays", 1))
	n1, n2 := vsym.U64("n1"), vsym.U64("n2")
	vsym.Assume(n1 != 0)
	vsym.Assume(n2 != 0)
	p.Send(n1, []byte{1})
	p.Send(n2, []byte{2})
	var got [3]int
	for i := 0; i < 2; i++ {
		n, d, ok := p.Recv()
		vsym.Assert(ok && len(d) == 2 && d[0] == 0x40 && (d[1] == 1 || d[1] == 2), "an answer")
		got[d[1]]++
		want := n1
		if d[1] == 2 {
			want = n2
		}
		vsym.Assert(n == want, "under its request")
	}
	vsym.Quiesce()
	vsym.Assert(got[1] == 1 && got[2] == 1 && p.C.Buffered() == 0, "one answer each")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C29

// Contexts: a handler's context is about the message it was called for, and
// answers over the connection that message came on, whatever other connections
// there are to the same peer, and however much later.
func Contexts() {
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	op := registered(b, 0)
	var got [2][]noise.HandlerContext
	var when []int
	for i := range got {
		i := i
		b.Handle(func(ctx noise.HandlerContext) error {
			got[i] = append(got[i], ctx)
			when = append(when, i)
			return nil
		})
	}
	hx.Must(b.Listen())
	// Two connections of one peer, accepted and dialed, and one of another.
	l := vnet.Raw()
	addr := l.HostPort()
	d := hx.Done(func() { b.Ping(hx.BG(), addr) })
	ps := []*hx.Peer{hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))}
	for i := 0; i < 2; i++ {
		ps = append(ps, hx.NewPeer(vnet.DialRaw(b.Addr()), byte(1+i), uint16(l.Port())))
	}
	ps[1].Pub, ps[1].Sec, ps[1].ID = ps[0].Pub, ps[0].Sec, ps[0].ID
	for _, p := range ps {
		vsym.Assert(p.Handshake(), "handshake completes")
	}
	<-d
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 0))
	nonces, data := make([]uint64, len(ps)), make([][]byte, len(ps))
	any := vsym.Choose("any", len(ps))
	for i, p := range ps {
		nonces[i], data[i] = uint64(i%2)*70, []byte{0, byte(op[1]), byte(i)}
		if i == any {
			nonces[i], data[i] = vsym.U64("nonce"), vsym.Bytes("data", vsym.Choose("len", vsym.Param("len", 4)))
		}
		p.Send(nonces[i], data[i])
		vsym.Quiesce()
	}
	ps[0].Send(0, []byte{9, 9, 9, 9, 9, 9, 9, 9})
	vsym.Quiesce()
	vsym.Assert(len(got[0]) == 4 && len(got[1]) == 4, "both handlers see every message")
	for i, w := range when {
		vsym.Assert(w == i%2, "in the order they were registered")
	}
	for i := range ps {
		for h := range got {
			ctx := got[h][i]
			id := ctx.ID()
			vsym.Assert(id.ID == ps[i].Pub && id.Address == ps[i].ID.Address && id.Port == ps[i].ID.Port, "a context names the peer")
			vsym.Assert(vsym.Eq(ctx.Data(), data[i]), "a context holds the message, whatever comes after it")
			vsym.Assert(ctx.IsRequest() == (nonces[i] != 0), "a context tells requests apart")
			m, err := ctx.DecodeMessage()
			m2, err2 := b.DecodeMessage(data[i])
			vsym.Assert((err == nil) == (err2 == nil), "a context decodes what its node decodes")
			if err == nil {
				k, x := body(m)
				k2, x2 := body(m2)
				vsym.Assert(k == k2 && vsym.Eq(x, x2), "to the same message")
			}
		}
	}
	gone := vsym.Choose("gone", len(ps)+1)
	if gone < len(ps) {
		ps[gone].C.Close()
		vsym.Quiesce()
	}
	first := 0
	if gone == len(ps) {
		first = vsym.Choose("first", len(ps))
	}
	typed := vsym.Choose("typed", 2) == 1
	for j := range ps {
		i := (first + j) % len(ps)
		ctx, again := got[j%2][i], got[1-j%2][i]
		x := vsym.Bytes("answer", 1)
		want := x
		var err error
		if typed {
			err = ctx.SendMessage(m4{x})
			vsym.Assert(err != nil, "an unregistered type is refused")
			err = ctx.SendMessage(m2{x})
			want = append([]byte{byte(op[2] >> 8), byte(op[2])}, x...)
		} else {
			err = ctx.Send(x)
		}
		vsym.Quiesce()
		vsym.Assert((err != nil) == (i == gone), "an answer fails exactly if its connection is gone")
		for k, p := range ps {
			if k == gone {
				continue
			}
			if k != i {
				vsym.Assert(p.C.Buffered() == 0, "nothing goes over other connections")
				continue
			}
			vsym.Assert(p.C.Buffered() > 0, "the answer is sent")
			n, y, ok := p.Recv()
			vsym.Assert(ok && n == nonces[i] && vsym.Eq(y, want), "over the connection, and with the number, of its message")
			vsym.Assert(p.C.Buffered() == 0, "once")
		}
		if i != gone && nonces[i] != 0 {
			err = again.Send(x)
			vsym.Quiesce()
			vsym.Assert(err != nil && ps[i].C.Buffered() == 0, "a request is answered once, by whichever handler")
		}
	}
	vsym.Reach("end")
}
