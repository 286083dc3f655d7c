package h

import (
	"bytes"
	"context"
	"errors"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- C01

// Deliver: one goroutine sends, one worker handles; every message arrives
// once, unchanged, in order, from the right peer, on every explored schedule.
func Deliver() {
	workers := uint(vsym.Param("workers", 1))
	b := hx.Node(noise.WithNodeNumWorkers(workers))
	a := hx.Node()
	var got [][]byte
	var from []noise.ID
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		id := ctx.ID()
		from = append(from, id)
		vsym.Assert(!ctx.IsRequest(), "a message is not a request")
		return nil
	})
	hx.Must(b.Listen())
	hx.Must(a.Listen())
	k := vsym.Param("msgs", 3)
	_, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Explore(vsym.Param("delays", 1))
	var want [][]byte
	for i := 0; i < k; i++ {
		d := vsym.Bytes("data", vsym.Choose("len", vsym.Param("lens", 3)))
		want = append(want, append([]byte{}, d...))
		vsym.Assert(a.Send(hx.BG(), b.Addr(), d) == nil, "send over a live connection")
		for j := range d { // the caller may reuse its buffer
			d[j] = 0xa5
		}
	}
	vsym.Quiesce()
	vsym.Assert(len(got) == k, "every message is delivered exactly once")
	for i := range got {
		vsym.Assert(vsym.Eq(got[i], want[i]), "delivered unchanged and in order")
		vsym.Assert(from[i].ID == a.ID().ID && from[i].Address == a.ID().Address, "delivered under the sender's identity")
	}
	vsym.Assert(vnet.Dials(hx.Port(b.Addr())) == 1, "one connection")
	vsym.Reach("end")
}

// DeliverMany: several goroutines send to one node with several workers: the
// multiset of messages arrives.
func DeliverMany() {
	b := hx.Node(noise.WithNodeNumWorkers(uint(vsym.Param("workers", 2))))
	a := hx.Listening()
	c := hx.Listening()
	var count [8]int
	bad := 0
	tag := vsym.U8("tag")
	b.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		i := int(d[0])
		count[i]++
		if !vsym.Eq(d[1:], []byte{tag, byte(i), tag ^ byte(i)}) {
			bad++
		}
		want := a.ID().ID
		if i >= 4 {
			want = c.ID().ID
		}
		if ctx.ID().ID != want {
			bad++
		}
		return nil
	})
	hx.Must(b.Listen())
	vsym.Explore(vsym.Param("delays", 1))
	send := func(n *noise.Node, i int) chan struct{} {
		return hx.Done(func() {
			vsym.Assert(n.Send(hx.BG(), b.Addr(), []byte{byte(i), tag, byte(i), tag ^ byte(i)}) == nil, "send")
		})
	}
	d1, d2, d3 := send(a, 0), send(a, 1), send(c, 4)
	<-d1
	<-d2
	<-d3
	vsym.Quiesce()
	vsym.Assert(count == [8]int{1, 1, 0, 0, 1, 0, 0, 0}, "every message is delivered exactly once")
	vsym.Assert(bad == 0, "delivered unchanged under the sender's identity")
	vsym.Reach("end")
}

// Burst: many messages sent before the writer runs all arrive, in order.
func Burst() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	a := hx.Listening()
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		got = append(got, d)
		return nil
	})
	hx.Must(b.Listen())
	_, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 0))
	n := []int{16, 17, 65, 130, 300, 1030}[vsym.Choose("n", 6)]
	x := vsym.Bytes("x", 3)
	for i := 0; i < n; i++ {
		vsym.Assert(a.Send(hx.BG(), b.Addr(), []byte{byte(i), byte(i >> 8), x[i%3]}) == nil, "send")
	}
	vsym.Quiesce()
	vsym.Assert(len(got) == n, "all arrive")
	for i, d := range got {
		vsym.Assert(len(d) == 3 && d[0] == byte(i) && d[1] == byte(i>>8) && d[2] == x[i%3], "in order and unchanged")
	}
	vsym.Reach("end")
}

// Backlog: several goroutines send over a live connection while its writer is
// anywhere in the middle of earlier batches.
func Backlog() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	a := hx.Node()
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		return nil
	})
	hx.Must(b.Listen())
	hx.Must(a.Listen())
	_, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "ping")
	senders, each := vsym.Param("senders", 2), vsym.Param("each", 2)
	var data [3][3][]byte
	for i := 0; i < senders; i++ {
		for j := 0; j < each; j++ {
			data[i][j] = append([]byte{byte(i), byte(j)}, vsym.Bytes("data", 1+i)...)
		}
	}
	vsym.Explore(vsym.Param("delays", 2))
	var ds []chan struct{}
	for i := 0; i < senders; i++ {
		i := i
		ds = append(ds, hx.Done(func() {
			for j := 0; j < each; j++ {
				vsym.Assert(a.Send(hx.BG(), b.Addr(), data[i][j]) == nil, "send over a live connection")
			}
		}))
	}
	for _, d := range ds {
		<-d
	}
	vsym.Quiesce()
	vsym.Assert(len(got) == senders*each, "every message is delivered exactly once")
	var next [3]int
	for _, g := range got {
		ok := len(g) > 2 && int(g[0]) < senders && next[g[0]] < each
		vsym.Assert(ok, "only what was sent is delivered")
		if !ok {
			continue
		}
		i := int(g[0])
		vsym.Assert(vsym.Eq(g, data[i][next[i]]), "delivered unchanged and in each sender's order")
		next[i]++
	}
	vsym.Reach("end")
}

// DeliverBack: messages sent from a handler come back over the connection, in
// order, next to those travelling the other way.
func DeliverBack() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	a := hx.Node(noise.WithNodeNumWorkers(1))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		var buf [8]byte // Used again as soon as the call returns.
		for i := 0; i < 2; i++ {
			buf[0] = byte(i)
			if err := ctx.Send(buf[:1+copy(buf[1:], ctx.Data())]); err != nil {
				return err
			}
			buf = [8]byte{}
		}
		return nil
	})
	a.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		return nil
	})
	hx.Must(b.Listen())
	hx.Must(a.Listen())
	vsym.Explore(vsym.Param("delays", 1))
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 1)
	vsym.Assert(a.Send(hx.BG(), b.Addr(), x) == nil && a.Send(hx.BG(), b.Addr(), y) == nil, "send")
	vsym.Quiesce()
	vsym.Assert(len(got) == 4, "all messages come back")
	if len(got) == 4 {
		vsym.Assert(vsym.Eq(got[0], append([]byte{0}, x...)) && vsym.Eq(got[1], append([]byte{1}, x...)), "first echo")
		vsym.Assert(vsym.Eq(got[2], append([]byte{0}, y...)) && vsym.Eq(got[3], append([]byte{1}, y...)), "second echo")
	}
	vsym.Reach("end")
}

// Reused: what is sent is what was passed in at the time of the call, whatever
// the caller does with its buffer afterwards: for messages, for requests that
// are given up before they were written, and for answers.
func Reused() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := append([]byte{}, ctx.Data()...)
		got = append(got, data)
		if ctx.IsRequest() {
			buf := append([]byte{7}, data...)
			if ctx.Send(buf) == nil {
				copy(buf, make([]byte, len(buf)))
			}
		}
		return nil
	})
	hx.Must(b.Listen())
	a := hx.Listening()
	_, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Explore(vsym.Param("delays", 1))
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 2)
	ctx, cancel := context.WithCancel(hx.BG())
	how := vsym.Choose("how", 3)
	buf := append([]byte{}, x...)
	d := hx.Done(func() {
		switch how {
		case 0:
			a.Send(ctx, b.Addr(), buf)
		case 1:
			a.Request(ctx, b.Addr(), buf)
		default:
			r, err := a.Request(hx.BG(), b.Addr(), buf)
			vsym.Assert(err == nil && len(r) == 3 && r[0] == 7 && vsym.Eq(r[1:], x), "answered as it was")
		}
		buf[0], buf[1] = 0xee, 0xee
	})
	cancel()
	<-d
	vsym.Assert(a.Send(hx.BG(), b.Addr(), y) == nil, "send")
	vsym.Quiesce()
	vsym.Assert(len(got) >= 1 && len(got) <= 2 && vsym.Eq(got[len(got)-1], y), "the message arrives")
	if len(got) == 2 {
		vsym.Assert(vsym.Eq(got[0], x), "as it was when it was sent")
		vsym.Reach("sent")
	}
	vsym.Reach("end")
}

// Sizes: payloads of boundary sizes survive, including ones larger than the
// buffers under the connection, also when their frames are flushed together.
func Sizes() {
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(6000))
	a := hx.Node(noise.WithNodeMaxRecvMessageSize(6000))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		return nil
	})
	hx.Must(b.Listen())
	hx.Must(a.Listen())
	sizes := []int{0, 1, 3, 4, 7, 8, 11, 12, 13, 16, 20, 27, 28, 29, 63, 64, 65, 1003, 1004, 1005, 1024, 4052, 4060, 4064, 4070, 4096, 4100, 5000}
	ns := vsym.Param("sizes", 28)
	l, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil && l != nil, "ping")
	s1 := sizes[vsym.Choose("s1", ns)]
	s2 := sizes[vsym.Choose("s2", vsym.Param("second", 4))*5]
	var want [][]byte
	for i, s := range []int{s1, s2, s1, 2} {
		d := make([]byte, s)
		for j := range d {
			d[j] = byte(i*31 + j*7 + j>>8)
		}
		if s > 0 {
			d[0] = vsym.U8("first")
			d[s-1] = vsym.U8("last")
		}
		want = append(want, d)
		vsym.Assert(a.Send(hx.BG(), b.Addr(), d) == nil, "send")
		if i == vsym.Param("flush", 1) {
			vsym.Quiesce()
		}
	}
	vsym.Quiesce()
	vsym.Assert(len(got) == len(want), "all delivered")
	for i := range got {
		vsym.Assert(vsym.Eq(got[i], want[i]), "payload survives")
	}
	vsym.Reach("end")
}

// Large: payloads around the sizes that two and three bytes can count, as
// messages, requests and answers.
func Large() {
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(4<<20))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		if ctx.IsRequest() {
			return ctx.Send(data)
		}
		return nil
	})
	hx.Must(b.Listen())
	a := hx.Listening(noise.WithNodeMaxRecvMessageSize(4 << 20))
	sizes := []int{65499, 65500, 65508, 65527, 65528, 65536, 70000, 131072, 1 << 20, 4<<20 - 36}
	size := sizes[vsym.Choose("size", vsym.Param("sizes", 8))]
	d := make([]byte, size)
	for i := 0; i < size; i += 1021 {
		d[i] = byte(i * 7)
	}
	d[0], d[size/2], d[size-1] = vsym.U8("first"), vsym.U8("mid"), vsym.U8("last")
	if vsym.Choose("kind", 2) == 0 {
		vsym.Assert(a.Send(hx.BG(), b.Addr(), []byte{6}) == nil, "send")
		vsym.Assert(a.Send(hx.BG(), b.Addr(), d) == nil, "send")
		vsym.Assert(a.Send(hx.BG(), b.Addr(), []byte{5}) == nil, "send")
		vsym.Quiesce()
		vsym.Assert(len(got) == 3 && vsym.Eq(got[0], []byte{6}) && vsym.Eq(got[1], d) && vsym.Eq(got[2], []byte{5}), "payloads survive")
	} else {
		r, err := a.Request(hx.BG(), b.Addr(), d)
		vsym.Assert(err == nil && vsym.Eq(r, d), "answers survive")
		vsym.Assert(len(got) == 1 && vsym.Eq(got[0], d), "and requests")
	}
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C02

// Fragments: how the transport cuts the byte stream does not matter.
func Fragments() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		return nil
	})
	hx.Must(b.Listen())
	c := vnet.DialRaw(b.Addr())
	p := hx.NewPeer(c, 1, 4000)
	early := vsym.Choose("stage", 2) == 0
	n := vsym.Param("cut", 70)
	if early { // cut the handshake itself
		c.Peer().Chunks(1+vsym.Choose("c1", 110), 1+vsym.Choose("c2", vsym.Param("c2", 6)), 3)
	}
	vsym.Assert(p.Handshake(), "handshake completes")
	vsym.Quiesce()
	x, y := vsym.Bytes("x", 3), vsym.Bytes("y", 1)
	all := append(hx.Frame(p.Seal(hx.Msg(0, x))), hx.Frame(p.Seal(hx.Msg(0, y)))...)
	all = append(all, hx.Frame(p.Seal(hx.Msg(0, nil)))...)
	if !early {
		c.Peer().Chunks(1+vsym.Choose("c3", n), 1+vsym.Choose("c4", vsym.Param("c4", 12)), 1, 2)
	}
	c.Put(all)
	vsym.Quiesce()
	vsym.Assert(len(got) == 3, "all messages are delivered")
	if len(got) == 3 {
		vsym.Assert(vsym.Eq(got[0], x) && vsym.Eq(got[1], y) && len(got[2]) == 0, "messages keep their boundaries")
	}
	vsym.Assert(!c.PeerClosed(), "connection stays open")
	vsym.Reach("end")
}

// Trickle: a frame arriving in pieces with pauses, as far as the end of the
// connection: what was complete is delivered, the rest is not.
func Trickle() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 2)
	f1 := hx.Frame(p.Seal(hx.Msg(0, x)))
	all := append(append([]byte{}, f1...), hx.Frame(p.Seal(hx.Msg(0, y)))...)
	cut := vsym.Choose("cut", len(all)+1)
	p.C.Put(all[:cut])
	vsym.Quiesce()
	n := 0
	if cut >= len(f1) {
		n++
	}
	if cut == len(all) {
		n++
	}
	vsym.Assert(len(got) == n, "exactly the complete frames are delivered")
	if vsym.Choose("end", 2) == 0 {
		p.C.Put(all[cut:])
		vsym.Quiesce()
		vsym.Assert(len(got) == 2 && vsym.Eq(got[0], x) && vsym.Eq(got[1], y), "the rest completes it")
		vsym.Assert(!p.C.PeerClosed(), "connection stays open")
		vsym.Reach("resumed")
		return
	}
	in := b.Inbound()
	p.C.Close()
	vsym.Quiesce()
	vsym.Assert(len(got) == n, "a partial frame is never delivered")
	vsym.Assert(p.C.PeerClosed() && len(in) == 1 && in[0].Error() != nil, "the connection ends with an error")
	vsym.Assert(len(b.Inbound()) == 0, "and is released")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C03

// LimitAfter: after the handshake, a frame header of any value.
func LimitAfter() {
	const limit = 180 // handshake frames fit
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(limit))
	calls := 0
	var last []byte
	b.Handle(func(ctx noise.HandlerContext) error {
		calls++
		last = ctx.Data()
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	in := b.Inbound()
	size := vsym.U32("size")
	p.C.Put([]byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)})
	vsym.Quiesce()
	if size > limit {
		vsym.Assert(p.C.PeerClosed(), "oversized frame closes the connection")
		vsym.Assert(len(in) == 1 && errors.Is(in[0].Error(), noise.ErrMessageTooLarge), "with the documented error")
		vsym.Assert(calls == 0 && len(b.Inbound()) == 0, "and nothing is delivered")
		vsym.Reach("oversized")
		return
	}
	n := vsym.Conc(int(size))
	vsym.Assert(n == 0 || !p.C.PeerClosed(), "a frame within the limit is awaited")
	if n < 12+16+8 {
		p.C.Put(make([]byte, n))
		vsym.Quiesce()
		vsym.Assert(p.C.PeerClosed() && calls == 0, "a frame too short to be authentic closes the connection")
		vsym.Reach("short")
		return
	}
	d := make([]byte, n-36)
	if len(d) > 0 {
		d[len(d)-1] = vsym.U8("d")
	}
	f := p.Seal(hx.Msg(0, d))
	vsym.Assert(len(f) == n, "harness frame size")
	p.C.Put(f)
	vsym.Quiesce()
	vsym.Assert(calls == 1 && vsym.Eq(last, d), "a frame up to the limit is delivered")
	vsym.Assert(!p.C.PeerClosed(), "and the connection stays open")
	vsym.Reach("end")
}

// LimitBefore: during the handshake, a frame header of any value.
func LimitBefore() {
	const limit = 180
	b := hx.Listening(noise.WithNodeMaxRecvMessageSize(limit))
	c := vnet.DialRaw(b.Addr())
	p := hx.NewPeer(c, 1, 4000)
	second := vsym.Choose("stage", 2) == 1
	if second {
		c.Put(hx.Frame(p.Hello()))
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "first half of the handshake")
	}
	vsym.Quiesce()
	in := b.Inbound()
	size := vsym.U32("size")
	vsym.Assume(size > limit)
	c.Put([]byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)})
	vsym.Quiesce()
	vsym.Assert(c.PeerClosed(), "oversized handshake frame closes the connection")
	vsym.Assert(len(in) == 1 && errors.Is(in[0].Error(), noise.ErrMessageTooLarge), "with the documented error")
	vsym.Assert(len(b.Inbound()) == 0, "and it is released")
	vsym.Reach("end")
}

// LimitOff: no limit, or the largest one, lets any frame through.
func LimitOff() {
	limit := []uint32{0, 1<<32 - 1, 1<<32 - 4, 1<<32 - 5, 5000, 5001}[vsym.Choose("limit", 6)]
	n := []int{0, 1, 100, 3000, 4096, 4964}[vsym.Choose("n", 6)]
	b := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(limit))
	var got [][]byte
	b.Handle(func(ctx noise.HandlerContext) error {
		data := ctx.Data()
		got = append(got, data)
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4000)
	vsym.Assert(p != nil, "handshake completes")
	d := make([]byte, n)
	if n > 0 {
		d[n/2] = vsym.U8("d")
	}
	p.Send(0, d)
	p.Send(0, []byte{7})
	vsym.Quiesce()
	vsym.Assert(len(got) == 2 && vsym.Eq(got[0], d) && vsym.Eq(got[1], []byte{7}), "delivered")
	vsym.Reach("end")
}

// LimitClient: the limit holds for connections the node dialed too.
func LimitClient() {
	const limit = 180
	l := vnet.Raw()
	a := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(limit))
	calls := 0
	a.Handle(func(ctx noise.HandlerContext) error { calls++; return nil })
	hx.Must(a.Listen())
	var p *hx.Peer
	d := hx.Done(func() {
		p = hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
		vsym.Assert(p.Handshake(), "handshake completes")
	})
	cl, err := a.Ping(hx.BG(), l.HostPort())
	<-d
	vsym.Assert(err == nil, "ping")
	size := vsym.U32("size")
	vsym.Assume(size > limit)
	p.C.Put([]byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)})
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed() && errors.Is(cl.Error(), noise.ErrMessageTooLarge), "oversized frame closes the connection")
	vsym.Assert(calls == 0 && len(a.Outbound()) == 0, "and nothing is delivered")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C30

// shows reports whether four bytes in a row of a message appear in b.
func shows(b, msg []byte) bool {
	for i := 0; i+4 <= len(b); i++ {
		if bytes.Contains(msg, b[i:i+4]) {
			return true
		}
	}
	return false
}

// Nonces: every frame carries its own nonce, decrypts to what was sent, and
// does not show the payload, for any order of sizes.
func Nonces() {
	l := vnet.Raw()
	a := hx.Listening()
	var p *hx.Peer
	d := hx.Done(func() {
		p = hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
		vsym.Assert(p.Handshake(), "handshake completes")
	})
	_, err := a.Ping(hx.BG(), l.HostPort())
	<-d
	vsym.Assert(err == nil, "ping")
	p.C.Peer().Record()
	p.C.Record()
	k := vsym.Param("msgs", 3)
	max := vsym.Param("sizes", 14)
	step := vsym.Param("step", 3)
	batch := vsym.Choose("batch", 2) == 1
	var want [][]byte
	for i := 0; i < k; i++ {
		x := vsym.Bytes("x", vsym.Choose("n", max)*step)
		if vsym.Param("large", 0) == 1 && len(x) >= step {
			x = append(vsym.Bytes("x", 4), make([]byte, []int{1000, 4092, 5000, 70000}[len(x)/step-1])...)
		}
		want = append(want, x)
		vsym.Assert(a.Send(context.Background(), l.HostPort(), x) == nil, "send")
		if !batch {
			vsym.Quiesce()
		}
	}
	vsym.Quiesce()
	seen := map[string]bool{}
	for i := 0; i < k; i++ {
		f, ok := p.ReadFrame()
		vsym.Assert(ok, "frame arrives")
		vsym.Assert(len(f) == 12+8+len(want[i])+16, "frame size")
		clear := vsym.Symbolic(f[:12])
		for j := 0; j < k && !vsym.Engine(); j++ { // what dependence looks like on real bytes
			clear = clear || shows(f[:12], hx.Msg(0, want[j]))
		}
		vsym.Assert(!clear, "nonce does not depend on the payload")
		vsym.Assert(!seen[string(f[:12])], "nonce is fresh")
		seen[string(f[:12])] = true
		m, ok := p.Unseal(f)
		vsym.Assert(ok, "frame decrypts under the session key")
		vsym.Assert(len(m) == 8+len(want[i]) && vsym.Eq(m[:8], make([]byte, 8)) && vsym.Eq(m[8:], want[i]), "to the payload")
	}
	vsym.Assert(p.C.Buffered() == 0, "nothing else is sent")
	vsym.Reach("end")
}

// NoncesLarge: the same with payloads larger than any buffer (large=1).
func NoncesLarge() { Nonces() }

// LastWords: what a peer sent before it closed the connection is handled,
// however late the node gets round to it.
func LastWords() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	var got [][]byte
	var from []noise.PublicKey
	hold := make(chan struct{})
	slow := vsym.Choose("slow", 2) == 1
	b.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		id := ctx.ID()
		got, from = append(got, d), append(from, id.ID)
		if slow {
			<-hold
		}
		return nil
	})
	hx.Must(b.Listen())
	var p *hx.Peer
	if vsym.Choose("role", 2) == 1 {
		p, _, _ = dialed(b, 1)
	} else {
		p = hx.Connect(b, 1, 4000)
	}
	vsym.Assert(p != nil, "handshake completes")
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	k := 1 + vsym.Choose("msgs", 3)
	x := vsym.Bytes("x", 3)
	for i := 0; i < k; i++ {
		p.Send(0, []byte{byte(i), x[i]})
	}
	switch vsym.Choose("end", 3) {
	case 0:
		p.C.Close()
	case 1:
		vsym.Quiesce()
		p.C.Close()
	case 2: // ends in the middle of a frame
		p.C.Put([]byte{0, 0, 0, 9, 1, 2})
		p.C.Close()
	}
	if slow {
		vsym.Quiesce()
		vsym.Assert(len(got) == 1, "one at a time")
		close(hold)
	}
	vsym.Quiesce()
	vsym.Assert(len(got) == k, "what arrived before the end is handled")
	for i := range got {
		vsym.Assert(from[i] == p.Pub && vsym.Eq(got[i], []byte{byte(i), x[i]}), "as it was sent")
	}
	vsym.Assert(len(b.Inbound())+len(b.Outbound()) == 0, "the connection is released")
	vsym.Reach("end")
}

// Mixed: messages and requests made one after the other over one connection
// are handled in the order in which they were made.
func Mixed() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	var got []byte
	b.Handle(func(ctx noise.HandlerContext) error {
		d := ctx.Data()
		got = append(got, d...)
		if ctx.IsRequest() {
			return ctx.Send(d)
		}
		return nil
	})
	hx.Must(b.Listen())
	a := hx.Listening()
	_, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 1))
	var want []byte
	x := vsym.U8("x")
	for i := byte(0); i < 4; i++ {
		want = append(want, x+i)
		if vsym.Choose("request", 2) == 1 {
			r, err := a.Request(hx.BG(), b.Addr(), []byte{x + i})
			vsym.Assert(err == nil && vsym.Eq(r, []byte{x + i}), "answered")
			vsym.Assert(vsym.Eq(got, want), "after everything before it")
		} else {
			vsym.Assert(a.Send(hx.BG(), b.Addr(), []byte{x + i}) == nil, "send")
		}
	}
	vsym.Quiesce()
	vsym.Assert(vsym.Eq(got, want), "in order")
	vsym.Reach("end")
}
