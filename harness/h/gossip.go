package h

import (
	"context"
	"errors"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

type heard struct {
	from noise.ID
	data []byte
}

// gnode is a node with an overlay and gossip, recording what it delivers.
type gnode struct {
	n     *noise.Node
	k     *kademlia.Protocol
	g     *gossip.Protocol
	got   []heard
	fail  func(data []byte) bool
	after func(data []byte)
	deaf  bool // no callback
}

func gossiper(opts ...noise.NodeOption) *gnode {
	w := &gnode{}
	w.n = hx.Node(append([]noise.NodeOption{noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1)}, opts...)...)
	w.build()
	hx.Must(w.n.Listen())
	return w
}

type gmsg = gossip.Message

func (w *gnode) build() {
	w.k = kademlia.New()
	if w.deaf {
		w.g = gossip.New(w.k)
		w.n.Bind(w.k.Protocol(), w.g.Protocol())
		return
	}
	w.g = gossip.New(w.k, gossip.WithEvents(gossip.Events{OnGossipReceived: func(from noise.ID, data []byte) error {
		w.got = append(w.got, heard{from, append([]byte{}, data...)})
		if w.after != nil {
			w.after(data)
		}
		if w.fail != nil && w.fail(data) {
			return errors.New("invalid gossip")
		}
		return nil
	}}))
	w.n.Bind(w.k.Protocol(), w.g.Protocol())
}

// gpeer is a raw peer recording the gossip it is sent.
type gpeer struct {
	p     *hx.Peer
	l     *vnet.Listener
	got   [][]byte
	junk  int
	op    []byte
	ended bool
	first chan struct{}
}

func (w *gnode) peer() *gpeer {
	q := &gpeer{op: opOf(w.n, gossip.Message{}), first: make(chan struct{})}
	q.p, q.l, _ = dialable(w.n)
	vsym.Go(q.read)
	return q
}

// back is a peer that can be dialed from now on.
func (w *gnode) back(l *vnet.Listener, pub noise.PublicKey, sec noise.PrivateKey) *gpeer {
	q := &gpeer{op: opOf(w.n, gossip.Message{}), first: make(chan struct{}), l: l}
	vsym.Go(func() {
		q.p = hx.NewPeer(l.AcceptRaw(), 1, 1)
		q.p.Pub, q.p.Sec, q.p.ID = pub, sec, loopback(pub, l)
		if q.p.Handshake() {
			q.read()
		}
	})
	return q
}

func (q *gpeer) read() {
	for {
		nonce, d, ok := q.p.Recv()
		if !ok {
			q.ended = true
			return
		}
		if nonce != 0 || len(d) < 2 || d[0] != q.op[0] || d[1] != q.op[1] {
			q.junk++
			continue
		}
		q.got = append(q.got, d[2:])
		if len(q.got) == 1 {
			close(q.first)
		}
	}
}

func (q *gpeer) gossip(data []byte) bool {
	return q.p.Send(0, append(append([]byte{}, q.op...), data...))
}

func gossipDelays() {
	if d := vsym.Param("delays", 0); d > 0 {
		vsym.Explore(d)
	}
}

// GossipHistory: any sequence of gossip from two peers and of own pushes, the
// data equal or not: each is delivered the first time unless it is the node's
// own, and forwarded to exactly the peers not known to have it.
func GossipHistory() {
	w := gossiper()
	q := []*gpeer{w.peer(), w.peer()}
	steps := vsym.Param("steps", 3)
	var seen [][]byte // what the node has
	var known [2][][]byte
	var sent [2][][]byte
	var want []heard
	has := func(l [][]byte, d []byte) bool {
		for _, x := range l {
			if len(x) == len(d) && string(x) == string(d) {
				return true
			}
		}
		return false
	}
	for i := 0; i < steps; i++ {
		d := vsym.Bytes("d", 1)
		if vsym.Choose("longer", 2) == 1 {
			d = append(d, 0)
		}
		who := vsym.Choose("who", 3)
		forward := false
		if who == 2 {
			w.g.Push(hx.BG(), d)
			if !has(seen, d) {
				seen = append(seen, d)
			}
			forward = true
		} else {
			vsym.Assert(q[who].gossip(d), "the peer gossips")
			vsym.Quiesce()
			known[who] = append(known[who], d)
			if !has(seen, d) {
				seen = append(seen, d)
				want = append(want, heard{q[who].p.ID, d})
				forward = true
			}
		}
		if forward {
			for j := range q {
				if !has(known[j], d) {
					known[j] = append(known[j], d)
					sent[j] = append(sent[j], d)
				}
			}
		}
		vsym.Quiesce()
		vsym.Assert(len(w.got) == len(want), "each gossip is delivered once, and not the node's own")
		for j := range q {
			vsym.Assert(len(q[j].got) == len(sent[j]), "it is forwarded to exactly the peers not known to have it")
		}
	}
	for i, h := range want {
		vsym.Assert(vsym.Eq(w.got[i].data, h.data), "the data is delivered unchanged")
		vsym.Assert(w.got[i].from.ID == h.from.ID, "under its sender's identity")
	}
	for j := range q {
		for i, d := range sent[j] {
			vsym.Assert(vsym.Eq(q[j].got[i], d), "the data is forwarded unchanged")
		}
		vsym.Assert(q[j].junk == 0 && !q[j].ended, "nothing else happens")
	}
	vsym.Reach("end")
}

// GossipSame: the same data arriving from several peers at once, and pushed
// meanwhile, is delivered at most once, and reaches the peer that lacks it.
func GossipSame() {
	w := gossiper(noise.WithNodeNumWorkers(uint(vsym.Param("workers", 2))))
	q := []*gpeer{w.peer(), w.peer(), w.peer()}
	x := vsym.Bytes("x", 2)
	push := vsym.Choose("push", 2) == 1
	vsym.Explore(vsym.Param("delays", 1))
	if vsym.Choose("first", 2) == 1 {
		w.g.Push(hx.BG(), x)
		push = false
		q[0].gossip(x)
		q[1].gossip(x)
		q[0].gossip(x)
		vsym.Quiesce()
		vsym.Assert(len(w.got) == 0, "a node's own gossip is not delivered to it")
		for _, p := range q {
			vsym.Assert(len(p.got) == 1 && vsym.Eq(p.got[0], x), "a push reaches every known peer once")
		}
		vsym.Reach("own")
		return
	}
	var d chan struct{}
	if push {
		d = hx.Done(func() { w.g.Push(hx.BG(), x) })
	}
	q[0].gossip(x)
	q[1].gossip(x)
	q[0].gossip(x)
	if push {
		<-d
	}
	vsym.Quiesce()
	if push {
		vsym.Assert(len(w.got) <= 1, "gossip is delivered at most once")
		vsym.Assert(len(q[2].got) >= 1, "a peer lacking the data is sent it")
	} else {
		vsym.Assert(len(w.got) == 1, "gossip is delivered once")
		vsym.Assert(len(q[2].got) == 1, "and forwarded once to a peer lacking it")
	}
	for _, h := range w.got {
		vsym.Assert(vsym.Eq(h.data, x), "unchanged")
	}
	for _, p := range q {
		for _, g := range p.got {
			vsym.Assert(vsym.Eq(g, x), "forwarded unchanged")
		}
	}
	vsym.Assert(len(q[0].got)+len(q[1].got) <= 2 || push, "peers are not sent it over and over")
	vsym.Reach("end")
}

// GossipMany: different data from several peers at once is all delivered, each
// once.
func GossipMany() {
	w := gossiper(noise.WithNodeNumWorkers(2))
	q := []*gpeer{w.peer(), w.peer()}
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 2)
	vsym.Explore(vsym.Param("delays", 1))
	q[0].gossip(x)
	q[1].gossip(y)
	q[1].gossip(x)
	vsym.Quiesce()
	nx, ny := 0, 0
	for _, h := range w.got {
		if vsym.Eq(h.data, x) {
			nx++
		} else if vsym.Eq(h.data, y) {
			ny++
		} else {
			vsym.Assert(false, "only what was gossiped is delivered")
		}
	}
	if vsym.Eq(x, y) {
		vsym.Assert(nx == 1 && ny == 0, "equal gossip is delivered once")
		vsym.Reach("equal")
	} else {
		vsym.Assert(nx == 1 && ny == 1, "different gossip is delivered each once")
		n := 0
		for _, g := range q[0].got {
			n += b2i(vsym.Eq(g, y))
		}
		vsym.Assert(n == 1, "and forwarded to the peer lacking it")
		vsym.Reach("different")
	}
}

// GossipNet: nodes in a line or all connected: gossip reaches every node but
// its origin exactly once, and then the network is quiet.
func GossipNet() {
	k := vsym.Param("nodes", 3)
	full := vsym.Choose("full", 2) == 1
	var ns []*gnode
	for i := 0; i < k; i++ {
		ns = append(ns, gossiper())
	}
	for i := range ns {
		for j := i + 1; j < k; j++ {
			if full || j == i+1 {
				_, err := ns[i].n.Ping(hx.BG(), ns[j].n.Addr())
				vsym.Assert(err == nil, "ping")
			}
		}
	}
	vsym.Quiesce()
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 2)
	from := vsym.Choose("from", k)
	two := vsym.Choose("two", 2) == 1
	vsym.Explore(vsym.Param("delays", 0))
	d := hx.Done(func() { ns[from].g.Push(hx.BG(), x) })
	other := (from + 1) % k
	if two {
		ns[other].g.Push(hx.BG(), y)
	}
	<-d
	vsym.Quiesce()
	if two && vsym.Eq(x, y) {
		for i, w := range ns {
			if i == from || i == other {
				vsym.Assert(len(w.got) <= 1, "gossip is delivered at most once")
			} else {
				vsym.Assert(len(w.got) == 1 && vsym.Eq(w.got[0].data, x), "gossip reaches every node once")
			}
		}
		vsym.Reach("equal")
		return
	}
	for i, w := range ns {
		nx, ny := 0, 0
		for _, h := range w.got {
			if vsym.Eq(h.data, x) {
				nx++
			} else {
				vsym.Assert(two && vsym.Eq(h.data, y), "only what was gossiped is delivered")
				ny++
			}
			vsym.Assert(h.from.ID != w.n.ID().ID, "by another node")
		}
		vsym.Assert(nx == b2i(i != from), "gossip reaches every other node exactly once")
		vsym.Assert(ny == b2i(two && i != other), "and so does the other one")
	}
	vsym.Reach("end")
}

// GossipDeaf: a node whose application does not listen to gossip passes it on
// all the same: once to every peer lacking it and to nobody who sent it.
func GossipDeaf() {
	w := &gnode{deaf: true}
	w.n = hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	w.build()
	hx.Must(w.n.Listen())
	q := []*gpeer{w.peer(), w.peer(), w.peer()}
	x := vsym.Bytes("x", 2)
	gossipDelays()
	var has [3]bool
	for i := 0; i < vsym.Param("steps", 3); i++ {
		who := vsym.Choose("who", 4)
		if who == 3 {
			w.g.Push(hx.BG(), x)
		} else {
			q[who].gossip(x)
			has[who] = has[who] || i == 0
		}
		vsym.Quiesce()
		n := 0
		for j := range q {
			vsym.Assert(len(q[j].got) == b2i(!has[j]), "it is sent once to every peer lacking it and not to its sender")
			n += len(q[j].got)
			vsym.Assert(q[j].junk == 0 && !q[j].ended, "nothing else happens")
		}
	}
	for _, p := range q {
		for _, g := range p.got {
			vsym.Assert(vsym.Eq(g, x), "unchanged")
		}
	}
	vsym.Reach("end")
}

// GossipWide: gossip reaches every one of many known peers.
func GossipWide() {
	w := gossiper()
	var q []*gpeer
	for i := 0; i < vsym.Param("peers", 20); i++ {
		q = append(q, w.peer())
	}
	x := vsym.Bytes("x", 1)
	from := -1
	switch vsym.Choose("how", 3) {
	case 1: // forwarded
		from = vsym.Conc(vsym.Int("from", 0, len(q)-1))
		q[from].gossip(x)
	case 2: // while most of them cannot be reached
		for _, p := range q[1 : len(q)-1] {
			p.p.C.Close()
			p.l.Close()
			vnet.HoldDials(p.l.Port(), true)
		}
		vsym.Quiesce()
		ctx, cancel := context.WithCancel(hx.BG())
		d := hx.Done(func() { w.g.Push(ctx, x) })
		vsym.Quiesce()
		vsym.Assert(len(q[0].got) == 1 && len(q[len(q)-1].got) == 1, "whoever can be reached is sent it")
		cancel()
		<-d
		vsym.Reach("end")
		return
	default:
		w.g.Push(hx.BG(), x)
	}
	vsym.Quiesce()
	known := map[noise.PublicKey]bool{}
	for _, id := range w.k.Table().Entries() {
		known[id.ID] = true
	}
	for i, p := range q {
		vsym.Assert(known[p.p.ID.ID], "every peer is known")
		vsym.Assert(len(p.got) == b2i(i != from), "every known peer is sent it once")
		if i != from {
			vsym.Assert(vsym.Eq(p.got[0], x), "unchanged")
		}
	}
	vsym.Reach("end")
}

// GossipRefused: gossip a node refuses is not forwarded and costs its sender
// the connection; that of others still spreads.
func GossipRefused() {
	w := gossiper()
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 2)
	w.fail = func(d []byte) bool { return vsym.Eq(d, x) }
	q := []*gpeer{w.peer(), w.peer()}
	gossipDelays()
	q[0].gossip(x)
	vsym.Quiesce()
	vsym.Assert(len(w.got) == 1 && q[0].ended && q[0].p.C.PeerClosed(), "refused gossip disconnects its sender")
	vsym.Assert(len(q[1].got) == 0 && !q[1].ended, "and is not forwarded")
	q[1].gossip(y)
	vsym.Quiesce()
	if vsym.Eq(x, y) {
		vsym.Assert(len(w.got) == 1 && len(q[1].got) == 0 && !q[1].ended, "and not looked at again")
		vsym.Reach("again")
		return
	}
	vsym.Assert(len(w.got) == 2 && vsym.Eq(w.got[1].data, y) && !q[1].ended, "gossip of others is delivered")
	vsym.Reach("end")
}

// GossipUnreachable: peers that are gone or fail do not keep gossip from the
// others, and a push ends.
func GossipUnreachable() {
	w := gossiper()
	pk1, _ := hx.Keys()
	l := vnet.Raw()
	w.k.Ack(loopback(pk1, l))
	q := w.peer()
	x := vsym.Bytes("x", 2)
	r := w.peer()
	mode := vsym.Choose("mode", 5)
	inbound := vsym.Choose("forward", 2) == 1
	vsym.Explore(vsym.Param("delays", 1))
	switch mode {
	case 0:
		l.Close()
	case 1: // closes during the handshake
		vsym.Go(func() { l.AcceptRaw().Close() })
	case 2: // never answers: the push may wait for it
		vsym.Go(func() { l.AcceptRaw() })
	case 3: // another identity than it was known by
		vsym.Go(func() { hx.NewPeer(l.AcceptRaw(), 9, 9).Handshake() })
	case 4: // a known peer is gone
		l.Close()
		r.p.C.Close()
		r.l.Close()
	}
	var d chan struct{}
	if inbound {
		r = w.peer()
		vsym.Assert(r.gossip(x), "a peer gossips")
	} else {
		d = hx.Done(func() { w.g.Push(hx.BG(), x) })
	}
	vsym.Quiesce()
	vsym.Assert(len(q.got) == 1 && vsym.Eq(q.got[0], x), "the others are sent it")
	if inbound {
		vsym.Assert(len(w.got) == 1 && vsym.Eq(w.got[0].data, x), "the node delivers it")
	} else {
		vsym.Assert(mode == 2 || hx.Ended(d), "a push ends")
		vsym.Assert(len(w.got) == 0, "a node's own gossip is not delivered to it")
		// It may come back while the push is still held up.
		vsym.Assert(q.gossip(x), "a peer sends it back")
		vsym.Quiesce()
		vsym.Assert(len(w.got) == 0, "a node's own gossip that comes back is not delivered to it")
		vsym.Assert(len(q.got) == 1, "and not sent again")
		if mode == 0 || mode == 1 { // one that was unreachable lacks it still
			pk, sec := hx.Keys()
			m := vnet.Raw()
			at := loopback(pk, m)
			vnet.FailDials(m.Port(), 9)
			w.k.Ack(at)
			w.g.Push(hx.BG(), x)
			vsym.Quiesce()
			vsym.Assert(!w.k.Table().Recorded(pk), "unreachable")
			vnet.FailDials(m.Port(), 0)
			w.k.Ack(at)
			back := w.back(m, pk, sec)
			w.g.Push(hx.BG(), x)
			vsym.Quiesce()
			vsym.Assert(len(back.got) == 1 && vsym.Eq(back.got[0], x) && len(q.got) == 1, "who was unreachable is sent it with the next push")
		}
	}
	vsym.Reach("end")
}

// GossipCancel: a push ends when its context does, whatever its peers do.
func GossipCancel() {
	w := gossiper()
	q := w.peer()
	pk, _ := hx.Keys()
	l := vnet.Raw()
	w.k.Ack(loopback(pk, l))
	mode := vsym.Choose("mode", 3)
	if mode == 0 {
		vnet.HoldDials(l.Port(), true)
	}
	x := vsym.Bytes("x", 2)
	ctx, cancel := context.WithCancel(hx.BG())
	vsym.Explore(vsym.Param("delays", 1))
	if mode == 2 {
		cancel()
	}
	d := hx.Done(func() { w.g.Push(ctx, x) })
	if mode != 2 {
		<-q.first
	}
	cancel()
	<-d
	vsym.Assert(mode == 2 || vsym.Eq(q.got[0], x), "unchanged")
	vnet.HoldDials(l.Port(), false)
	l.Close()
	vsym.Quiesce()
	vsym.Assert(len(q.got) <= 1, "no peer is sent it twice")
	// Peers it did not reach can still be sent it.
	w.g.Push(hx.BG(), x)
	vsym.Quiesce()
	vsym.Assert(len(q.got) >= 1 || mode == 2, "a later push reaches the rest")
	vsym.Assert(len(q.got) <= 1 || mode == 2, "and not those that have it")
	vsym.Reach("end")
}

// GossipRequest: gossip sent as a request, or messages that are not gossip,
// are not delivered.
func GossipRequest() {
	w := gossiper()
	q := []*gpeer{w.peer(), w.peer()}
	x := vsym.Bytes("x", 2)
	vsym.Explore(vsym.Param("delays", 1))
	switch vsym.Choose("mode", 3) {
	case 0:
		q[0].p.Send(vsym.U64("nonce")|1, append(append([]byte{}, q[0].op...), x...))
	case 1:
		op := opOf(w.n, kademlia.Pong{})
		q[0].p.Send(0, append(op, x...))
	case 2:
		q[0].p.Send(0, []byte{0xff, 0xfe, x[0], x[1]})
	}
	vsym.Quiesce()
	vsym.Assert(len(w.got) == 0, "only gossip is delivered")
	vsym.Assert(len(q[0].got)+len(q[1].got) == 0, "and forwarded")
	q[0].gossip(x)
	vsym.Quiesce()
	vsym.Assert(len(w.got) == 1 && len(q[1].got) == 1, "it is when it is gossiped")
	vsym.Reach("end")
}

// GossipLarge: gossip of sizes around the limits of the cache.
func GossipLarge() {
	size := []int{0, 1, 65470, 65503, 65504, 65536, 70000}[vsym.Choose("size", 7)]
	w := gossiper(noise.WithNodeMaxRecvMessageSize(1 << 17))
	q := []*gpeer{w.peer(), w.peer()}
	d := make([]byte, size)
	copy(d, vsym.Bytes("x", 2))
	for i := 0; i < 2; i++ {
		vsym.Assert(q[0].gossip(d), "the peer gossips")
		vsym.Quiesce()
		vsym.Assert(len(w.got) == 1 && len(w.got[0].data) == size, "delivered once")
		vsym.Assert(len(q[1].got) == 1 && len(q[1].got[0]) == size && len(q[0].got) == 0, "forwarded once")
		q[1].gossip(d)
		w.g.Push(hx.BG(), d)
	}
	vsym.Assert(vsym.Eq(w.got[0].data, d) && vsym.Eq(q[1].got[0], d), "unchanged")
	if size > 0 { // Data that differ in the last byte only.
		d = append([]byte{}, d...)
		d[size-1] ^= 0x80
		vsym.Assert(q[0].gossip(d), "the peer gossips")
		vsym.Quiesce()
		vsym.Assert(len(w.got) == 2 && vsym.Eq(w.got[1].data, d), "different data are delivered")
		vsym.Assert(len(q[1].got) == 2 && vsym.Eq(q[1].got[1], d), "and forwarded")
	}
	vsym.Reach("end")
}

// GossipJoin: peers that join between receptions and pushes are sent what they
// lack, and nothing they sent themselves.
func GossipJoin() {
	w := gossiper()
	q := []*gpeer{w.peer()}
	x, y, z := vsym.Bytes("x", 1), vsym.Bytes("y", 1), vsym.Bytes("z", 1)
	if vsym.Choose("first", 2) == 0 {
		vsym.Assert(q[0].gossip(x), "the peer gossips")
	} else {
		w.g.Push(hx.BG(), x)
	}
	vsym.Quiesce()
	q = append(q, w.peer())
	vsym.Assert(q[1].gossip(y), "the new peer gossips")
	vsym.Quiesce()
	q = append(q, w.peer())
	n0 := len(q[0].got)
	if vsym.Choose("last", 2) == 0 {
		w.g.Push(hx.BG(), z)
		vsym.Quiesce()
		known := vsym.Eq(z, x) || vsym.Eq(z, y)
		vsym.Assert(len(q[0].got) == n0+b2i(!known), "the first peer is sent what it has neither sent nor been sent")
		vsym.Assert(len(q[1].got) == b2i(!vsym.Eq(z, y)), "a peer that joined is sent what it has not sent itself")
		vsym.Assert(len(q[2].got) == 1, "a peer that just joined is sent anything")
	} else {
		vsym.Assert(q[2].gossip(z), "the newest peer gossips")
		vsym.Quiesce()
		known := vsym.Eq(z, x) || vsym.Eq(z, y)
		vsym.Assert(len(q[0].got) == n0+b2i(!known) && len(q[1].got) == b2i(!known) && len(q[2].got) == 0, "only what is new is forwarded")
	}
	for _, p := range q {
		vsym.Assert(p.junk == 0 && !p.ended, "nothing else happens")
	}
	vsym.Reach("end")
}

// GossipMoved: another peer at an address where one was that had the data is
// still sent it.
func GossipMoved() {
	w := gossiper()
	a := w.peer()
	x := vsym.Bytes("x", 2)
	if vsym.Choose("first", 2) == 0 {
		vsym.Assert(a.gossip(x), "the peer gossips")
	} else {
		w.g.Push(hx.BG(), x)
	}
	vsym.Quiesce()
	a.p.C.Close()
	vsym.Quiesce()
	pub, sec := hx.Keys()
	b := w.back(a.l, pub, sec)
	_, err := w.n.Ping(hx.BG(), a.l.HostPort())
	vsym.Assert(err == nil, "the new peer is connected to")
	vsym.Quiesce()
	gossipDelays()
	// What the former peer lacks is sent to that address for its sake, too.
	y := x
	if vsym.Choose("other", 2) == 1 {
		y = vsym.Bytes("y", 2)
	}
	w.g.Push(hx.BG(), y)
	vsym.Quiesce()
	vsym.Assert(len(b.got) >= 1 && (len(b.got) == 1 || !vsym.Eq(x, y)), "the new peer is sent it once")
	vsym.Assert(vsym.Eq(b.got[0], y), "unchanged")
	vsym.Assert(b.junk == 0 && !b.ended, "nothing else happens")
	vsym.Reach("end")
}
