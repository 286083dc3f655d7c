package h

import (
	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vmodel"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// watched is a node recording who it believes to be connected to.
type watched struct {
	n     *noise.Node
	ups   []noise.ID
	downs []noise.ID
	pings int // failed pings
	calls int
	data  [][]byte
}

func watch(opts ...noise.NodeOption) *watched {
	w := &watched{n: hx.Node(opts...)}
	w.n.Bind(noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { id := c.ID(); w.ups = append(w.ups, id) },
		OnPeerDisconnected: func(c *noise.Client) { id := c.ID(); w.downs = append(w.downs, id) },
		OnPingFailed:       func(string, error) { w.pings++ },
	})
	w.n.Handle(func(ctx noise.HandlerContext) error {
		w.calls++
		data := ctx.Data()
		w.data = append(w.data, data)
		return nil
	})
	hx.Must(w.n.Listen())
	return w
}

// join gives the harness one end of a connection whose other end is the
// watched node, which dialed it or accepted it.
func (w *watched) join(outbound bool, k byte) (*hx.Peer, chan struct{}, *error) {
	var res error
	if !outbound {
		c := vnet.DialRaw(w.n.Addr())
		return hx.NewPeer(c, k, 4000), nil, nil
	}
	l := vnet.Raw()
	d := hx.Done(func() { _, res = w.n.Ping(hx.BG(), l.HostPort()) })
	p := hx.NewPeer(l.AcceptRaw(), k, uint16(l.Port()))
	return p, d, &res
}

// HonestIdentity: an honest handshake gives each side the other's identity.
func HonestIdentity() {
	a, b := watch(), watch()
	c, err := a.n.Ping(hx.BG(), b.n.Addr())
	vsym.Assert(err == nil, "ping")
	vsym.Quiesce()
	ia, ib := a.n.ID(), b.n.ID()
	same := func(x, y noise.ID) bool {
		return x.ID == y.ID && x.Address == y.Address && x.Port == y.Port && x.Host.Equal(y.Host)
	}
	vsym.Assert(same(c.ID(), ib), "the dialer knows the listener")
	in := b.n.Inbound()
	vsym.Assert(len(in) == 1 && same(in[0].ID(), ia), "the listener knows the dialer")
	vsym.Assert(len(a.ups) == 1 && same(a.ups[0], ib) && len(b.ups) == 1 && same(b.ups[0], ia), "connection callbacks see the identities")
	vsym.Reach("end")
}

// Imposter: whatever an adversary without the victim's key does, the node
// never attributes the connection to the victim, and attributes it to nobody
// unless the adversary proved its own key.
func Imposter() {
	b := watch(noise.WithNodeMaxDialAttempts(1))
	outbound := vsym.Choose("role", 2) == 1
	mode := vsym.Choose("mode", 16)
	var vid noise.ID
	var captured []byte // identity message of the victim from another session
	var capHello []byte
	if mode == 1 || mode == 4 || mode == 9 {
		v := hx.Listening(noise.WithNodeMaxDialAttempts(1))
		vid = v.ID()
		l := vnet.Raw()
		d := hx.Done(func() {
			m := hx.NewPeer(l.AcceptRaw(), 7, 1)
			m.SendFrame(m.Hello())
			h, ok := m.ReadFrame()
			vsym.Assert(ok && m.Agree(h), "victim's session")
			capHello = h
			m.SendFrame(m.Seal(m.Identity()))
			f, ok := m.ReadFrame()
			vsym.Assert(ok, "victim's identity")
			if mode == 9 {
				captured = f
				return
			}
			captured, ok = m.Unseal(f)
			vsym.Assert(ok, "victim's identity decrypts")
		})
		_, err := v.Ping(hx.BG(), l.HostPort())
		vsym.Assert(err == nil, "victim connects to the adversary")
		<-d
	} else {
		pub, _ := hx.Keys()
		vid = noise.NewID(pub, []byte{10, 0, 0, 9}, 99)
	}
	base := 0
	var v *hx.Peer
	if mode == 13 { // the victim is connected already
		v, _, _ = b.join(vsym.Choose("victim", 2) == 1, 7)
		vsym.Assert(v.Handshake(), "victim's handshake completes")
		vsym.Quiesce()
		vsym.Assert(len(b.ups) == 1 && b.ups[0].ID == v.Pub, "the victim is connected")
		b.ups, base = nil, 1
		vid = v.ID
	}
	p, d, _ := b.join(outbound, 1)
	honest := false
	if mode == 14 { // the node's own identity, wherever it is said to be
		vid = b.n.ID()
		if vsym.Choose("elsewhere", 2) == 1 {
			vid = noise.NewID(vid.ID, []byte{10, 0, 0, 9}, 99)
		}
	}
	switch mode {
	case 0, 13, 14: // claims the victim's ID with an arbitrary signature
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Seal(append(vid.Marshal(), vsym.Bytes("sig", 64)...)))
	case 15: // returns the proof that the node sent
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		f, ok := p.ReadFrame()
		vsym.Assert(ok, "the node's proof")
		if vsym.Choose("reseal", 2) == 1 {
			m, ok := p.Unseal(f)
			vsym.Assert(ok, "the node's proof decrypts")
			f = p.Seal(m)
		}
		p.SendFrame(f)
	case 1: // replays the victim's proof of another session
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Seal(captured))
	case 2: // claims any ID with a signature by its own key
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.ID.ID[5] ^= vsym.U8("pk")
		p.ID.ID[31] ^= vsym.U8("pk2")
		honest = p.ID.ID == p.Pub
		p.SendFrame(p.Seal(p.Identity()))
	case 3: // signs one ID, sends another
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		m := p.Identity()
		mask := vsym.Bytes("mask", 3)
		at := vsym.Choose("at", len(m)-2)
		for i, x := range mask {
			m[at+i] ^= x
		}
		honest = vsym.Eq(mask, []byte{0, 0, 0})
		p.SendFrame(p.Seal(m))
	case 4: // replays the victim's first message
		p.SendFrame(capHello)
		p.ReadFrame()
		p.SendFrame(captured)
	case 5: // an ephemeral key it cannot sign for
		h := p.Hello()
		copy(h[32:], vsym.Bytes("sig", 64))
		honest = false
		p.SendFrame(h)
		g, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(g), "agree")
		vsym.Assume(!p.EPub.Verify([]byte(".__noise_handshake"), noise.UnmarshalSignature(h[32:])))
		p.SendFrame(p.Seal(p.Identity()))
	case 6: // the wrong number of bytes in the first message
		h := p.Hello()
		n := vsym.Choose("n", 8)
		if n < 4 {
			h = h[:len(h)-1-n*31]
		} else {
			h = append(h, vsym.Bytes("tail", n-3)...)
		}
		p.SendFrame(h)
		g, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(g), "agree")
		p.SendFrame(p.Seal(p.Identity()))
	case 7: // the wrong number of bytes in the second message
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		m := p.Identity()
		n := vsym.Choose("n", 8)
		if n < 4 {
			m = m[:len(m)-1-n*30]
		} else {
			m = append(m, vsym.Bytes("tail", n-3)...)
		}
		p.SendFrame(p.Seal(m))
	case 8: // reflects the node's own messages
		h, ok := p.ReadFrame()
		vsym.Assert(ok, "hello")
		p.SendFrame(h)
		f, ok := p.ReadFrame()
		if ok {
			p.SendFrame(f)
		}
	case 9: // replays the victim's encrypted proof as it was seen
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(captured)
	case 10: // sends the identity in the clear
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Identity())
	case 12: // an identity nobody has the key of, and anyone can sign for
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		copy(p.ID.ID[:], vmodel.LowOrder([]int{2, 3, 12, 13}[vsym.Choose("weak", 4)]))
		p.SendFrame(p.Seal(append(p.ID.Marshal(), append([]byte{1}, make([]byte, 63)...)...)))
	case 11: // signs something else than the session's identity message
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		id := p.ID.Marshal()
		var sig noise.Signature
		switch vsym.Choose("what", 4) {
		case 0:
			sig = p.Sec.Sign(id)
		case 1:
			sig = p.Sec.Sign(p.Shared)
		case 2:
			sig = p.Sec.Sign([]byte(".__noise_handshake"))
		default:
			sig = p.ESec.Sign(append(append([]byte{}, id...), p.Shared...))
		}
		p.SendFrame(p.Seal(append(id, sig[:]...)))
	}
	vsym.Quiesce()
	for _, id := range b.ups {
		vsym.Assert(honest && id.ID == p.Pub, "a peer is only known under the identity it proved")
	}
	if honest {
		vsym.Assert(len(b.ups) == 1, "an honest peer is connected")
		vsym.Reach("honest")
		return
	}
	// A peer that just stops half way is not at fault yet; let it go.
	p.C.Close()
	vsym.Quiesce()
	vsym.Assert(len(b.ups) == 0 && len(b.downs) == 0, "nobody is connected")
	vsym.Assert(len(b.n.Inbound())+len(b.n.Outbound()) == base, "the failed connection is released")
	if v != nil {
		vsym.Assert(!v.C.PeerClosed(), "the victim stays connected")
	}
	if outbound {
		vsym.Assert(hx.Ended(d) && b.pings == 1, "the dial failed")
	}
	vsym.Reach("end")
}

// Forged: nothing verifies under a key of small order, for which anyone can
// make up signatures.
func Forged() {
	var k noise.PublicKey
	copy(k[:], vmodel.LowOrder(vsym.Choose("key", 14)))
	if vsym.Choose("kind", 2) == 0 {
		vsym.Assert(!k.Verify(vsym.Bytes("msg", 8), noise.UnmarshalSignature(vsym.Bytes("sig", 64))), "no signature is valid")
		vsym.Reach("any")
		return
	}
	for i := 0; i < 64; i++ { // one of them is valid for each key
		var sig noise.Signature
		copy(sig[:], vmodel.LowOrder(i%14))
		vsym.Assert(!k.Verify([]byte{byte(i)}, sig), "no forged signature is valid")
	}
	vsym.Reach("end")
}

// EphemeralKey: the first message with any byte changed is not accepted.
func EphemeralKey() {
	b := watch(noise.WithNodeMaxDialAttempts(1))
	p, _, _ := b.join(vsym.Choose("role", 2) == 1, 1)
	h := p.Hello()
	at := vsym.Choose("at", len(h))
	x := vsym.U8("x")
	vsym.Assume(x != 0)
	h[at] ^= x
	p.SendFrame(h)
	g, ok := p.ReadFrame()
	vsym.Assert(ok && p.Agree(g), "agree")
	vsym.Quiesce()
	vsym.Assert(p.C.PeerClosed(), "an unproven ephemeral key closes the connection")
	p.SendFrame(p.Seal(p.Identity()))
	vsym.Quiesce()
	vsym.Assert(len(b.ups) == 0 && len(b.n.Inbound()) == 0 && len(b.n.Outbound()) == 0, "nobody is connected")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C06

// EarlyData: frames sent before the handshake is complete never reach a
// handler, in the clear or encrypted, before, between or after its messages.
func EarlyData() {
	b := watch(noise.WithNodeMaxDialAttempts(1))
	p, _, _ := b.join(vsym.Choose("role", 2) == 1, 1)
	app := hx.Msg(uint64(vsym.Choose("nonce", 2)), vsym.Bytes("app", 2))
	clear := vsym.Choose("clear", 2) == 0
	send := func() {
		if clear || p.Suite == nil {
			p.SendFrame(app)
		} else {
			p.SendFrame(p.Seal(app))
		}
	}
	stage := vsym.Choose("stage", 5)
	switch stage {
	case 0: // instead of everything
		send()
		send()
	case 1: // between the two messages
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		send()
		p.SendFrame(p.Seal(p.Identity()))
		send()
	case 2: // before the first
		send()
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Seal(p.Identity()))
		send()
	case 3: // after an identity that does not verify
		p.SendFrame(p.Hello())
		h, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(h), "agree")
		m := p.Identity()
		m[len(m)-1-vsym.Choose("at", 3)*50] ^= 1
		p.SendFrame(p.Seal(m))
		send()
		send()
	case 4: // after a first message that does not verify
		h := p.Hello()
		h[40] ^= 1
		p.SendFrame(h)
		g, ok := p.ReadFrame()
		vsym.Assert(ok && p.Agree(g), "agree")
		send()
		send()
	}
	vsym.Quiesce()
	vsym.Assert(b.calls == 0, "nothing is delivered before the handshake is complete")
	vsym.Assert(len(b.ups) == 0, "nobody is connected")
	vsym.Assert(p.C.PeerClosed(), "the connection is closed")
	vsym.Reach("end")
}

// EarlyBytes: an arbitrary first frame never connects anyone.
func EarlyBytes() {
	b := watch(noise.WithNodeMaxDialAttempts(1))
	p, _, _ := b.join(vsym.Choose("role", 2) == 1, 1)
	n := []int{0, 1, 8, 12, 27, 28, 31, 32, 64, 95, 96, 97, 142}[vsym.Choose("n", 13)]
	p.SendFrame(vsym.Bytes("f", n))
	p.SendFrame(vsym.Bytes("g", vsym.Choose("m", 3)*48))
	p.SendFrame(hx.Msg(0, []byte{1}))
	vsym.Quiesce()
	vsym.Assert(b.calls == 0 && len(b.ups) == 0, "an arbitrary first frame connects nobody")
	vsym.Assert(p.C.PeerClosed(), "and closes the connection")
	vsym.Reach("end")
}

// NoLeak: what a node sends to a peer whose handshake does not complete never
// leaves the node, and the sender learns of it.
func NoLeak() {
	l := vnet.Raw()
	a := watch(noise.WithNodeMaxDialAttempts(1))
	secret := vsym.Bytes("secret", 24)
	mode := vsym.Choose("mode", 7)
	req := vsym.Choose("request", 2) == 1
	var err error
	vsym.Explore(vsym.Param("delays", 0))
	d := hx.Done(func() {
		if req {
			_, err = a.n.Request(hx.BG(), l.HostPort(), secret)
		} else {
			err = a.n.Send(hx.BG(), l.HostPort(), secret)
		}
	})
	p := hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
	frames := 0
	next := func() ([]byte, bool) {
		f, ok := p.ReadFrame()
		if ok {
			frames++
		}
		return f, ok
	}
	switch mode {
	case 0:
		next()
	case 1: // bad first message
		h := p.Hello()
		h[3] ^= 0x10
		p.SendFrame(h)
	case 2: // first message of a wrong size
		p.SendFrame(p.Hello()[:95])
	case 3: // bad identity
		p.SendFrame(p.Hello())
		h, ok := next()
		vsym.Assert(ok && p.Agree(h), "agree")
		m := p.Identity()
		m[60] ^= 1
		p.SendFrame(p.Seal(m))
	case 4: // identity in the clear
		p.SendFrame(p.Hello())
		h, ok := next()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Identity())
	case 5: // messages instead of the identity
		p.SendFrame(p.Hello())
		h, ok := next()
		vsym.Assert(ok && p.Agree(h), "agree")
		p.SendFrame(p.Seal(hx.Msg(1, []byte{1})))
		p.SendFrame(p.Seal(hx.Msg(1, []byte{1})))
	case 6: // closes half way
		p.SendFrame(p.Hello())
		h, ok := next()
		vsym.Assert(ok && p.Agree(h), "agree")
		next()
	}
	vsym.Quiesce()
	vsym.Assert(!hx.Ended(d) || err != nil, "not sent unless the handshake completes")
	if mode != 0 && mode != 6 {
		vsym.Assert(p.C.PeerClosed(), "the node gives up")
	}
	p.C.CloseWrite()
	vsym.Quiesce()
	vsym.Assert(hx.Ended(d) && err != nil, "the sender gets an error")
	vsym.Assert(a.pings == 1, "and the failure is reported")
	for {
		f, ok := next()
		if !ok {
			break
		}
		vsym.Assert(len(f) == 96 || len(f) == 142, "only handshake frames are sent")
	}
	vsym.Assert(frames <= 2 && p.C.Buffered() == 0, "nothing else is sent")
	vsym.Assert(a.calls == 0 && len(a.ups) == 0, "and nothing is received")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C07

// Tamper: a frame changed on its way is not delivered and ends the connection;
// what arrived before it is unaffected.
func Tamper() {
	b := watch()
	outbound := vsym.Choose("role", 2) == 1
	p, d, _ := b.join(outbound, 1)
	vsym.Assert(p.Handshake(), "handshake completes")
	if outbound {
		<-d
	}
	x, y, z := vsym.Bytes("x", 2), vsym.Bytes("y", 2), vsym.Bytes("z", 1)
	p.Send(0, x)
	f := p.Seal(hx.Msg(0, y))
	mode := vsym.Choose("mode", 6)
	switch mode {
	case 0: // any byte changed in any way
		at := vsym.Choose("at", len(f))
		m := vsym.U8("mask")
		vsym.Assume(m != 0)
		f[at] ^= m
	case 1: // cut short
		f = f[:vsym.Choose("n", len(f))]
	case 2: // made longer
		f = append(f, vsym.Bytes("tail", 1+vsym.Choose("n", 3))...)
	case 3: // not encrypted
		f = hx.Msg(0, y)
	case 4: // encrypted under another key
		o := hx.Connect(b.n, 2, 4001)
		vsym.Assert(o != nil, "other session")
		f = o.Seal(hx.Msg(0, y))
	case 5: // arbitrary bytes
		f = vsym.Bytes("junk", 20+vsym.Choose("n", 5)*8)
		vsym.Assume(!vsym.Eq(f[:1], []byte{0xfe}))
	}
	p.SendFrame(f)
	p.Send(0, z)
	vsym.Quiesce()
	vsym.Assert(len(b.data) == 1 && vsym.Eq(b.data[0], x), "exactly what precedes the forged frame is delivered")
	vsym.Assert(p.C.PeerClosed(), "a forged frame closes the connection")
	vsym.Assert(len(b.downs) == 1 && b.downs[0].ID == p.Pub, "and the peer counts as disconnected")
	vsym.Reach("end")
}

// TamperResponse: the same for a response to a request.
func TamperResponse() {
	l := vnet.Raw()
	a := watch()
	var got []byte
	var err error
	d := hx.Done(func() { got, err = a.n.Request(hx.BG(), l.HostPort(), []byte{9}) })
	p := hx.NewPeer(l.AcceptRaw(), 1, uint16(l.Port()))
	vsym.Assert(p.Handshake(), "handshake completes")
	n, _, ok := p.Recv()
	vsym.Assert(ok && n != 0, "request arrives")
	f := p.Seal(hx.Msg(n, vsym.Bytes("x", 2)))
	at := vsym.Choose("at", len(f))
	m := vsym.U8("mask")
	vsym.Assume(m != 0)
	f[at] ^= m
	p.SendFrame(f)
	vsym.Quiesce()
	vsym.Assert(hx.Ended(d) && err != nil && got == nil, "a forged response is not returned")
	vsym.Assert(p.C.PeerClosed() && a.calls == 0, "and closes the connection")
	vsym.Reach("end")
}

// TooShort: an authentic frame without room for a message is not delivered.
func TooShort() {
	b := watch()
	p, _, _ := b.join(false, 1)
	vsym.Assert(p.Handshake(), "handshake completes")
	n := vsym.Choose("n", 12)
	pt := vsym.Bytes("pt", n)
	p.SendFrame(p.Seal(pt))
	vsym.Quiesce()
	if n < 8 {
		vsym.Assert(b.calls == 0 && p.C.PeerClosed(), "a frame without a nonce closes the connection")
		vsym.Reach("short")
		return
	}
	vsym.Assert(b.calls == 1 && vsym.Eq(b.data[0], pt[8:]) && !p.C.PeerClosed(), "delivered")
	vsym.Reach("end")
}
