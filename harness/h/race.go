package h

import (
	"net"

	"go.uber.org/zap"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- C34
//
// These harnesses run with the data race detection on: two accesses to the same
// memory by the code under test, one of them a write, have to be ordered.

// both runs the two operations at once.
func both(ops ...func()) {
	var ds []chan struct{}
	for _, op := range ops {
		ds = append(ds, hx.Done(op))
	}
	for _, d := range ds {
		<-d
	}
}

// RaceBind: protocols and handlers registered at once are all there.
func RaceBind() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	vsym.Explore(vsym.Param("delays", 1))
	var bound [3]int
	var handled [3]int
	proto := func(i int) noise.Protocol {
		return noise.Protocol{Bind: func(*noise.Node) error { bound[i]++; return nil }}
	}
	handler := func(i int) noise.Handler {
		return func(ctx noise.HandlerContext) error { handled[i]++; return nil }
	}
	pre := vsym.Choose("pre", 2)
	if pre == 1 {
		b.Bind(proto(2))
		b.Handle(handler(2))
	}
	switch vsym.Choose("op", 4) {
	case 3: // while a connection is made, before listening
		s := serve(7, 1)
		both(func() { b.Bind(proto(0)); b.Handle(handler(0)) }, func() { _, _ = b.Ping(hx.BG(), s.addr()) })
		b.Bind(proto(1))
		b.Handle(handler(1))
	case 0:
		both(func() { b.Bind(proto(0)) }, func() { b.Bind(proto(1)) })
		b.Handle(handler(0), handler(1))
	case 1:
		both(func() { b.Handle(handler(0)) }, func() { b.Handle(handler(1)) })
		b.Bind(proto(0), proto(1))
	case 2:
		both(func() { b.Bind(proto(0)); b.Handle(handler(0)) }, func() { b.Handle(handler(1)); b.Bind(proto(1)) })
	}
	hx.Must(b.Listen())
	vsym.Assert(bound[0] == 1 && bound[1] == 1 && bound[2] == pre, "every protocol is bound once")
	p := hx.Connect(b, 1, 4001)
	vsym.Assert(p != nil, "peers are served")
	vsym.Assert(p.Send(0, []byte{1}), "sent")
	vsym.Quiesce()
	vsym.Assert(handled[0] == 1 && handled[1] == 1 && handled[2] == pre, "every handler is executed once")
	vsym.Reach("end")
}

// keep has the compiler evaluate what it is passed.
//
//go:noinline
func keep(...interface{}) {}

// use calls what may be called concurrently on every client.
func use(cs []*noise.Client) {
	for _, c := range cs {
		keep(c.ID(), c.Error(), c.Logger())
	}
}

// RaceAPI: any two operations of a node and its clients at once, with traffic.
func RaceAPI() {
	a := hx.Node(noise.WithNodeNumWorkers(2), noise.WithNodeMaxDialAttempts(1))
	a.RegisterMessage(m1{}, de1)
	a.Handle(func(ctx noise.HandlerContext) error {
		keep(ctx.ID(), ctx.Logger())
		if ctx.IsRequest() {
			return ctx.Send(ctx.Data())
		}
		_, _ = ctx.DecodeMessage()
		return nil
	})
	hx.Must(a.Listen())
	b := hx.Node(noise.WithNodeNumWorkers(2), noise.WithNodeMaxDialAttempts(1))
	b.RegisterMessage(m1{}, de1)
	b.Handle(func(ctx noise.HandlerContext) error {
		if ctx.IsRequest() {
			return ctx.Send(ctx.Data())
		}
		return nil
	})
	hx.Must(b.Listen())
	c, err := a.Ping(hx.BG(), b.Addr())
	vsym.Assert(err == nil, "connected")
	p := hx.Connect(a, 1, 4001)
	vsym.Assert(p != nil, "connected")
	vsym.Quiesce()
	x := vsym.U8("x")
	ops := []func(){
		func() { _ = a.Send(hx.BG(), b.Addr(), []byte{1, x}) },
		func() { _, _ = a.Request(hx.BG(), b.Addr(), []byte{2, x}) },
		func() { _, _ = a.Ping(hx.BG(), b.Addr()) },
		func() { _, _ = b.Ping(hx.BG(), a.Addr()) },
		func() { use(a.Outbound()); use(a.Inbound()) },
		func() { use(b.Outbound()); use(b.Inbound()) },
		func() { c.SetLogger(zap.NewNop()); keep(c.Logger()) },
		func() { c.Close() },
		func() { a.RegisterMessage(m2{}, de2) },
		func() { _ = a.SendMessage(hx.BG(), b.Addr(), m1{[]byte{x}}) },
		func() { _, _ = a.RequestMessage(hx.BG(), b.Addr(), m1{[]byte{x}}) },
		func() { _ = a.Close() },
		func() { keep(a.ID(), a.Addr(), a.Logger(), a.Sign([]byte{x})) },
		func() { c.WaitUntilReady(); keep(c.Error(), c.ID()) },
		func() { p.Send(0, []byte{0, 0, x}); p.Send(9, []byte{x}); _, _, _ = p.Recv() },
		func() { a.Bind(noise.Protocol{}); a.Handle(func(noise.HandlerContext) error { return nil }) },
		func() { p.C.Close() },
	}
	i := vsym.Choose("one", len(ops))
	j := vsym.Choose("other", len(ops))
	vsym.Assume(i <= j)
	if i == 8 && j == 8 {
		ops = append(ops, func() { a.RegisterMessage(&m3{}, de3) })
		j = len(ops) - 1
	}
	vsym.Assume(i != 14 || j != 14) // the peer sends one frame at a time
	vsym.Explore(vsym.Param("delays", 0))
	if k := vsym.Param("third", -1); k >= 0 {
		both(ops[i], ops[j], ops[k])
	} else {
		both(ops[i], ops[j])
	}
	vsym.Quiesce()
	vsym.Reach("end")
}

// RaceContext: a handler sharing its context among goroutines.
func RaceContext() {
	b := hx.Node(noise.WithNodeNumWorkers(2))
	b.RegisterMessage(m1{}, de1)
	vsym.Explore(vsym.Param("delays", 1))
	op := vsym.Choose("op", 2)
	errs := 0
	b.Handle(func(ctx noise.HandlerContext) error {
		var e1, e2 error
		both(func() {
			keep(ctx.Data(), ctx.IsRequest(), ctx.ID())
			e1 = ctx.Send([]byte{7})
		}, func() {
			_, _ = ctx.DecodeMessage()
			if op == 0 {
				e2 = ctx.Send([]byte{7})
			} else {
				e2 = ctx.SendMessage(m1{[]byte{7}})
			}
		})
		errs += b2i(e1 != nil) + b2i(e2 != nil)
		return nil
	})
	hx.Must(b.Listen())
	p := hx.Connect(b, 1, 4001)
	vsym.Assert(p != nil, "connected")
	n := uint64(vsym.Choose("nonce", 2)) * 5
	vsym.Assert(p.Send(n, []byte{0, 0, vsym.U8("x")}), "sent")
	vsym.Quiesce()
	got, _, ok := p.Recv()
	vsym.Assert(ok && got == n, "answered")
	vsym.Assert(errs == b2i(n > 0), "a request is answered once")
	vsym.Reach("end")
}

// onClient lists what may be done with a client at any time.
func onClient(n *noise.Node, c *noise.Client) []func() {
	return []func(){
		func() { keep(c.ID()) },
		func() { keep(c.Error()) },
		func() { c.SetLogger(c.Logger()) },
		func() { c.Close() },
		func() { c.WaitUntilReady(); keep(c.ID(), c.Error()) },
		func() { _ = n.Close() },
		func() { use(n.Outbound()); use(n.Inbound()) },
	}
}

// RaceID: clients are used while they are being connected.
func RaceID() {
	n := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	hx.Must(n.Listen())
	var d chan struct{}
	var step func()
	var c *noise.Client
	switch vsym.Choose("stage", 3) {
	case 0: // a dialed client whose handshake is going on
		l := vnet.Raw()
		d = hx.Done(func() { _, _ = n.Ping(hx.BG(), l.HostPort()) })
		p := hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
		vsym.Quiesce()
		step = func() { p.Handshake() }
		c = n.Outbound()[0]
	case 1: // one that is being dialed
		s := serve(1, 1)
		vnet.HoldDials(s.l.Port(), true)
		d = hx.Done(func() { _, _ = n.Ping(hx.BG(), s.addr()) })
		vsym.Quiesce()
		step = func() { vnet.HoldDials(s.l.Port(), false) }
		c = n.Outbound()[0]
	case 2: // an accepted one
		p := hx.NewPeer(vnet.DialRaw(n.Addr()), 1, 4001)
		vsym.Quiesce()
		step = func() { p.Handshake() }
		c = n.Inbound()[0]
		d = hx.Done(func() {})
	}
	ops := onClient(n, c)
	op := ops[vsym.Choose("op", len(ops))]
	vsym.Explore(vsym.Param("delays", 1))
	both(op, step)
	<-d
	vsym.Quiesce()
	vsym.Reach("end")
}

// RaceTable: any two operations of a routing table at once.
func RaceTable() {
	var self noise.PublicKey
	self[0] = 0x80
	tb := kademlia.NewTable(noise.NewID(self, net.IPv4(10, 0, 0, 1), 1))
	mk := func(i int) noise.ID {
		var pk noise.PublicKey
		pk[0], pk[1] = 1, byte(i)
		return noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
	}
	for i := 0; i < 3; i++ {
		tb.Update(mk(i))
	}
	ops := []func(){
		func() { tb.Update(mk(1)) },
		func() { tb.Update(mk(5)) },
		func() { tb.Delete(mk(2).ID) },
		func() { tb.DeleteByAddress(mk(1).Address) },
		func() { keep(tb.Last(mk(1).ID)) },
		func() { keep(tb.Bucket(mk(1).ID)) },
		func() { keep(tb.Recorded(mk(2).ID)) },
		func() { keep(tb.FindClosest(mk(2).ID, 2)) },
		func() { keep(tb.Peers()) },
		func() { keep(tb.Entries(), tb.Self()) },
		func() { keep(tb.NumEntries()) },
	}
	i := vsym.Choose("one", len(ops))
	j := vsym.Choose("other", len(ops))
	vsym.Assume(i <= j)
	vsym.Explore(vsym.Param("delays", 1))
	both(ops[i], ops[j])
	vsym.Reach("end")
}

// RaceKad: any two operations of the overlay at once.
func RaceKad() {
	a, ka := kad(nil, noise.WithNodeNumWorkers(2))
	b, kb := kad(nil)
	d, kd := kad(nil)
	vsym.Assert(ka.Ping(hx.BG(), b.Addr()) == nil && kb.Ping(hx.BG(), d.Addr()) == nil, "overlay ping")
	vsym.Quiesce()
	_ = kd
	l := vnet.Raw()
	dead := l.HostPort()
	l.Close()
	ops := []func(){
		func() { ka.Discover() },
		func() { ka.Find(d.ID().ID) },
		func() { _ = ka.Ping(hx.BG(), d.Addr()) },
		func() { ka.Ack(d.ID()) },
		func() { _ = kd.Ping(hx.BG(), a.Addr()) },
		func() { _, _ = kb.Discover(), ka.Table().Peers() },
		func() { _ = ka.Ping(hx.BG(), dead) },
		func() { _ = b.Close() },
	}
	i := vsym.Choose("one", len(ops))
	j := vsym.Choose("other", len(ops))
	vsym.Assume(i <= j)
	vsym.Explore(vsym.Param("delays", 0))
	both(ops[i], ops[j])
	vsym.Quiesce()
	vsym.Reach("end")
}

// RaceSearch: a search asking several peers at once, and another one.
func RaceSearch() {
	a, ka := kad(nil, noise.WithNodeNumWorkers(2))
	var ns []*noise.Node
	for i := 0; i < 4; i++ {
		n, k := kad(nil)
		ns = append(ns, n)
		if i < 3 {
			vsym.Assert(ka.Ping(hx.BG(), n.Addr()) == nil, "overlay ping")
		} else {
			vsym.Assert(k.Ping(hx.BG(), ns[0].Addr()) == nil && k.Ping(hx.BG(), ns[1].Addr()) == nil, "overlay ping")
		}
	}
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 0))
	par := kademlia.WithIteratorNumParallelLookups(1 + vsym.Choose("par", 3))
	req := kademlia.WithIteratorNumParallelRequestsPerLookup(1 + vsym.Choose("req", 2))
	var found []noise.ID
	search := func() { found = ka.Discover(par, req) }
	switch vsym.Choose("with", 3) {
	case 0:
		search()
	case 1:
		both(search, func() { ka.Find(ns[1].ID().ID) })
	case 2:
		both(search, func() { _ = ns[2].Close() })
	}
	vsym.Assert(len(found) >= 3, "what can be found is found")
	vsym.Assert(ka.Table().Recorded(ns[0].ID().ID) && a.ID().ID == ka.Table().Self().ID, "the table is left alone")
	vsym.Quiesce()
	vsym.Reach("end")
}

// RaceGossip: gossip pushed and received at once.
func RaceGossip() {
	w := gossiper(noise.WithNodeNumWorkers(2))
	q := []*gpeer{w.peer(), w.peer()}
	x := vsym.U8("x")
	vsym.Assume(x > 3)
	ops := []func(){
		func() { w.g.Push(hx.BG(), []byte{1, x}) },
		func() { w.g.Push(hx.BG(), []byte{2, x}) },
		func() { q[0].gossip([]byte{3, x}) },
		func() { q[1].gossip([]byte{1, x}) },
		func() { _ = w.n.Close() },
		func() { w.k.Discover() },
	}
	i := vsym.Choose("one", len(ops))
	j := vsym.Choose("other", len(ops))
	vsym.Assume(i < j || i == j && (i < 2 || i > 3)) // a peer sends one frame at a time
	vsym.Explore(vsym.Param("delays", 0))
	both(ops[i], ops[j])
	vsym.Quiesce()
	vsym.Reach("end")
}
