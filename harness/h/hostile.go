package h

import (
	"errors"
	"net"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// fortress is a node with overlay, gossip, a codec message and an echo.
type fortress struct {
	*gnode
	k *kademlia.Protocol
}

func fortified() *fortress {
	w := &gnode{}
	w.n = hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	f := &fortress{gnode: w}
	w.build()
	f.k = w.k
	w.n.RegisterMessage(m1{}, de1)
	w.n.Handle(func(ctx noise.HandlerContext) error {
		if d := ctx.Data(); ctx.IsRequest() && len(d) == 3 && d[0] == 0xee {
			return ctx.Send(append([]byte{0xef}, d[1:]...))
		}
		obj, err := ctx.DecodeMessage()
		if err != nil {
			return nil // not one of ours
		}
		if m, ok := obj.(m1); ok && ctx.IsRequest() {
			return ctx.SendMessage(m)
		}
		return nil
	})
	hx.Must(w.n.Listen())
	return f
}

// serves asserts that the node still does its work for everybody else.
func (f *fortress) serves() {
	h := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	hx.Must(h.Listen())
	x := vsym.Bytes("honest", 2)
	vsym.Quiesce()
	res, err := h.Request(hx.BG(), f.n.Addr(), append([]byte{0xee}, x...))
	vsym.Assert(err == nil && vsym.Eq(res, append([]byte{0xef}, x...)), "an honest peer is served")
	_, err = f.n.Ping(hx.BG(), h.Addr())
	vsym.Assert(err == nil, "and can be connected to")
}

// joined is a hostile peer's end of a connection the node accepted or dialed.
func (f *fortress) joined(outbound bool) *hx.Peer {
	if !outbound {
		return hx.NewPeer(vnet.DialRaw(f.n.Addr()), 7, 4000)
	}
	l := vnet.Raw()
	vsym.Go(func() { f.n.Ping(hx.BG(), l.HostPort()) })
	p := hx.NewPeer(l.AcceptRaw(), 7, uint16(l.Port()))
	p.ID = loopback(p.Pub, l)
	return p
}

// HostileBytes: an arbitrary byte stream, before, amid or after the handshake.
func HostileBytes() {
	f := fortified()
	p := f.joined(vsym.Choose("role", 2) == 1)
	stage := vsym.Choose("stage", 3)
	switch stage {
	case 1:
		p.SendFrame(p.Hello())
	case 2:
		if !p.Handshake() {
			return
		}
	}
	n := vsym.Param("bytes", 10)
	b := vsym.Bytes("stream", n)
	// A frame is either within the stream, or larger than the node takes.
	size := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	vsym.Assume(vsym.Or(size <= uint32(n), size > hx.Limit-2))
	cut := vsym.Choose("cut", n+1)
	p.C.Put(b[:cut])
	switch vsym.Choose("then", 3) {
	case 0:
		p.C.Close()
	case 1:
		p.C.Reset()
	}
	f.serves()
	vsym.Reach("end")
}

// HostileFrames: frames of chosen sizes and arbitrary content at every stage.
func HostileFrames() {
	f := fortified()
	p := f.joined(vsym.Choose("role", 2) == 1)
	stage := vsym.Choose("stage", 3)
	switch stage {
	case 1:
		p.SendFrame(p.Hello())
	case 2:
		if !p.Handshake() {
			return
		}
	}
	sizes := []int{0, 1, 7, 8, 11, 12, 13, 27, 28, 29, 36, 95, 96, 97, 126, 142, 1023, 1024, 1025}
	p.SendFrame(vsym.Bytes("f", sizes[vsym.Choose("size", len(sizes))]))
	p.SendFrame(vsym.Bytes("g", 3))
	f.serves()
	vsym.Reach("end")
}

// HostileIdentity: properly encrypted identity messages of any length.
func HostileIdentity() {
	f := fortified()
	p := f.joined(vsym.Choose("role", 2) == 1)
	p.SendFrame(p.Hello())
	h, ok := p.ReadFrame()
	vsym.Assert(ok && p.Agree(h), "agree")
	sizes := []int{0, 1, 31, 32, 33, 49, 50, 51, 63, 64, 65, 113, 114, 115, 200}
	n := sizes[vsym.Choose("size", len(sizes))]
	id := append(append([]byte{}, p.Identity()...), make([]byte, 100)...)
	switch vsym.Choose("what", 2) {
	case 0:
		id = id[:n]
	case 1:
		id = vsym.Bytes("id", n)
		for i := 32; i < n && i < 48; i++ {
			id[i] = byte(vsym.Conc(i * 17)) // an address
		}
	}
	p.SendFrame(p.Seal(id))
	p.Send(0, []byte{0, 0, 1})
	f.serves()
	vsym.Reach("end")
}

// HostileClaims: a proven identity with an address that makes no sense.
func HostileClaims() {
	f := fortified()
	p := f.joined(vsym.Choose("role", 2) == 1)
	hosts := []net.IP{nil, net.IPv4zero, net.IPv4bcast, net.IPv6unspecified, net.IPv6loopback, net.ParseIP("ff02::1"), net.IPv4(224, 0, 0, 1), net.IPv4(127, 0, 0, 1)}
	port := []uint16{0, 1, 65535, uint16(hx.Port(f.n.Addr()))}[vsym.Choose("port", 4)]
	p.ID = noise.NewID(p.Pub, hosts[vsym.Choose("host", len(hosts))], port)
	vsym.Assert(p.Handshake(), "handshake")
	p.Send(0, append(gossipOp(f), 1, 2))
	p.Send(5, opOf(f.n, kademlia.Ping{}))
	vsym.Quiesce()
	f.k.Discover()
	f.g.Push(hx.BG(), []byte{9})
	vsym.Assert(len(f.got) == 1, "its gossip is delivered")
	f.serves()
	vsym.Reach("end")
}

func gossipOp(f *fortress) []byte { return opOf(f.n, gmsg{}) }

// fewer bounds what may be a count at the head of a message's body, which
// costs a path per value, to those at the ends unless all are asked for.
func fewer(b []byte) []byte {
	if len(b) > 0 && vsym.Param("counts", 0) == 0 {
		vsym.Assume(vsym.Or(b[0] <= 2, b[0] >= 254))
	}
	return b
}

// HostileMessages: after an honest handshake, properly encrypted messages with
// any nonce, any opcode and any content.
func HostileMessages() {
	f := fortified()
	p := f.joined(vsym.Choose("role", 2) == 1)
	vsym.Assert(p.Handshake(), "handshake")
	for i := 0; i < vsym.Param("msgs", 1); i++ {
		switch vsym.Choose("form", 4) {
		case 0: // shorter than a nonce
			p.SendFrame(p.Seal(vsym.Bytes("short", vsym.Choose("n", 8))))
		case 1: // any nonce, any opcode
			p.SendFrame(p.Seal(append(append(vsym.Bytes("nonce", 8), 0, vsym.U8("op")), fewer(vsym.Bytes("body", vsym.Choose("n", 4)))...)))
		case 2: // an overlay lookup or its answer, unasked
			n := 30 + vsym.Choose("n", 4)
			op := opOf(f.n, kademlia.FindNodeRequest{})
			if vsym.Choose("answer", 2) == 1 {
				op = opOf(f.n, kademlia.FindNodeResponse{})
				n = vsym.Choose("m", 4)
			}
			body := make([]byte, n)
			copy(body, fewer(vsym.Bytes("body", 3)))
			p.SendFrame(p.Seal(append(append(vsym.Bytes("nonce", 8), op...), body...)))
		case 3: // too short for an opcode
			p.SendFrame(p.Seal(append(vsym.Bytes("nonce", 8), vsym.Bytes("body", vsym.Choose("n", 2))...)))
		}
		vsym.Quiesce()
	}
	f.serves()
	vsym.Reach("end")
}

// HostileAnswers: a request answered with anything of the right nonce, any
// number of times.
func HostileAnswers() {
	f := fortified()
	p, l, _ := dialable(f.n)
	var msg noise.Serializable
	var err error
	kind := vsym.Choose("kind", 3)
	d := hx.Done(func() {
		switch kind {
		case 0:
			msg, err = f.n.RequestMessage(hx.BG(), l.HostPort(), kademlia.FindNodeRequest{})
		case 1:
			err = f.k.Ping(hx.BG(), l.HostPort())
		case 2:
			msg, err = f.n.RequestMessage(hx.BG(), l.HostPort(), m1{[]byte{1}})
		}
	})
	nonce, _, ok := p.Recv()
	vsym.Assert(ok && nonce != 0, "the request arrives")
	n := vsym.Choose("n", 5)
	b := vsym.Bytes("answer", n)
	if n > 2 {
		fewer(b[2:])
	}
	if n >= 2 {
		b[0] = 0
	}
	vsym.Explore(vsym.Param("delays", 0))
	for i := vsym.Choose("copies", 3); i >= 0; i-- {
		p.Send(nonce, b)
	}
	<-d
	if err == nil && kind != 1 {
		vsym.Assert(msg != nil && n >= 2, "a message was decoded")
		vsym.Reach("decoded")
	} else if err == nil {
		op := opOf(f.n, kademlia.Pong{})
		vsym.Assert(n >= 2 && b[1] == op[1], "only a pong answers a ping")
		vsym.Reach("pong")
	} else {
		vsym.Reach("refused")
	}
	vsym.Explore(0)
	f.serves()
	vsym.Reach("end")
}

// HostileCrowd: several hostile connections at once, each stuck or failing at
// another stage, do not keep the node from serving.
func HostileCrowd() {
	f := fortified()
	k := vsym.Param("peers", 3)
	vsym.Explore(vsym.Param("delays", 0))
	for i := 0; i < k; i++ {
		p := f.joined(vsym.Choose("role", 2) == 1)
		switch vsym.Choose("stage", 6) {
		case 0: // says nothing
		case 1:
			p.C.Close()
		case 2:
			p.SendFrame(p.Hello())
		case 3:
			p.Handshake()
			p.C.Stall(true) // reads nothing any more
			for j := 0; j < 3; j++ {
				p.Send(uint64(j+1), []byte{0xee, 1, 2})
			}
		case 4:
			p.Handshake()
			p.C.Put([]byte{0, 0, 1})
		case 5:
			p.Handshake()
			p.C.Reset()
		}
	}
	f.serves()
	vsym.Reach("end")
}

// HostileDecoder: decoders and handlers refusing what they get cost a peer its
// connection at most.
func HostileDecoder() {
	w := hx.Node(noise.WithNodeNumWorkers(1))
	w.RegisterMessage(m2{}, func(b []byte) (m2, error) {
		if len(b) > 0 && b[0] > 127 {
			return m2{}, errors.New("refused")
		}
		return de2(b)
	})
	calls := 0
	w.Handle(func(ctx noise.HandlerContext) error {
		calls++
		obj, err := ctx.DecodeMessage()
		if err != nil {
			return err
		}
		return ctx.SendMessage(obj)
	})
	hx.Must(w.Listen())
	p := hx.Connect(w, 1, 99)
	b := vsym.Bytes("b", vsym.Choose("n", 4))
	p.Send(3, b)
	vsym.Quiesce()
	valid := len(b) >= 2 && b[0] == 0 && b[1] == 0 && (len(b) == 2 || b[2] <= 127)
	vsym.Assert(calls == 1, "the handler is called")
	if valid {
		n, d, ok := p.Recv()
		vsym.Assert(ok && n == 3 && vsym.Eq(d, b), "valid messages are answered")
		vsym.Reach("valid")
	} else {
		vsym.Assert(p.C.PeerClosed(), "a handler's error closes the connection")
		vsym.Reach("invalid")
	}
	q := hx.Connect(w, 2, 98)
	q.Send(4, []byte{0, 0, 5})
	n, d, ok := q.Recv()
	vsym.Assert(ok && n == 4 && vsym.Eq(d, []byte{0, 0, 5}), "others are served")
	vsym.Reach("end")
}

// SelfDial: a node that connects to itself talks to itself.
func SelfDial() {
	f := fortified()
	vsym.Explore(vsym.Param("delays", 1))
	x := vsym.Bytes("x", 2)
	res, err := f.n.Request(hx.BG(), f.n.Addr(), append([]byte{0xee}, x...))
	vsym.Assert(err == nil && vsym.Eq(res, append([]byte{0xef}, x...)), "it answers itself")
	f.g.Push(hx.BG(), x)
	vsym.Quiesce()
	vsym.Assert(len(f.got) == 0, "a node's own gossip is not delivered to it")
	vsym.Assert(f.k.Table().NumEntries() == 1, "it knows itself once")
	vsym.Assert(f.n.Close() == nil, "and can be closed")
	vsym.Reach("end")
}
