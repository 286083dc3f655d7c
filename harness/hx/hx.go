// Package hx holds what the harnesses share: raw protocol peers and helpers.
package hx

import (
	"context"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"net"
	"strconv"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// Must panics on setup errors of a harness.
func Must(err error) {
	if err != nil {
		panic("harness setup: " + err.Error())
	}
}

// Keys makes a key pair.
func Keys() (noise.PublicKey, noise.PrivateKey) {
	pub, sec, err := noise.GenerateKeys(nil)
	Must(err)
	return pub, sec
}

// Limit is the receive limit of harness nodes unless they choose another
// (the default of 4 MB is too large to represent byte by byte).
const Limit = 1024

// Node makes a node with its own key.
func Node(opts ...noise.NodeOption) *noise.Node {
	all := []noise.NodeOption{noise.WithNodeMaxRecvMessageSize(Limit)}
	n, err := noise.NewNode(append(all, opts...)...)
	Must(err)
	return n
}

// Listening makes a node and starts it.
func Listening(opts ...noise.NodeOption) *noise.Node {
	n := Node(opts...)
	Must(n.Listen())
	return n
}

// Peer is a raw protocol peer driven by the harness.
type Peer struct {
	C      *vnet.Conn
	Pub    noise.PublicKey
	Sec    noise.PrivateKey
	ID     noise.ID
	EPub   noise.PublicKey
	ESec   noise.PrivateKey
	Shared []byte
	Suite  cipher.AEAD
	Remote noise.ID
	ctr    uint64
}

// NewPeer wraps a connection with a fresh identity at 10.0.0.<n>:<port>.
func NewPeer(c *vnet.Conn, n byte, port uint16) *Peer {
	p := &Peer{C: c}
	p.Pub, p.Sec = Keys()
	p.ID = noise.NewID(p.Pub, net.IPv4(10, 0, 0, n), port)
	return p
}

// Frame is the wire form of a payload.
func Frame(b []byte) []byte {
	out := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(out, uint32(len(b)))
	copy(out[4:], b)
	return out
}

// SendFrame writes a length-prefixed frame.
func (p *Peer) SendFrame(b []byte) bool { return p.C.Put(Frame(b)) }

// ReadFrame reads one frame; ok is false when the connection ended.
func (p *Peer) ReadFrame() ([]byte, bool) {
	h := p.C.ReadFull(4)
	if h == nil {
		return nil, false
	}
	n := binary.BigEndian.Uint32(h)
	if n == 0 {
		return []byte{}, true
	}
	b := p.C.ReadFull(int(n))
	return b, b != nil
}

// Hello is the first handshake message of the peer.
func (p *Peer) Hello() []byte {
	p.EPub, p.ESec = Keys()
	sig := p.ESec.Sign([]byte(".__noise_handshake"))
	return append(append([]byte{}, p.EPub[:]...), sig[:]...)
}

// Agree derives the session key from the other side's first message.
func (p *Peer) Agree(hello []byte) bool {
	if len(hello) != noise.SizePublicKey+noise.SizeSignature {
		return false
	}
	var pk noise.PublicKey
	copy(pk[:], hello[:noise.SizePublicKey])
	if !pk.Verify([]byte(".__noise_handshake"), noise.UnmarshalSignature(hello[noise.SizePublicKey:])) {
		return false
	}
	sh, err := noise.ECDH(p.ESec, pk)
	if err != nil {
		return false
	}
	core, err := aes.NewCipher(sh)
	if err != nil {
		return false
	}
	s, err := cipher.NewGCM(core)
	if err != nil {
		return false
	}
	p.Shared, p.Suite = sh, s
	return true
}

// Seal encrypts a payload.
func (p *Peer) Seal(b []byte) []byte {
	nonce := make([]byte, 12)
	p.ctr++
	binary.BigEndian.PutUint64(nonce[4:], p.ctr)
	nonce[0] = 0xfe
	return p.Suite.Seal(append([]byte{}, nonce...), nonce, b, nil)
}

// Unseal decrypts a payload.
func (p *Peer) Unseal(b []byte) ([]byte, bool) {
	if len(b) < 12 {
		return nil, false
	}
	out, err := p.Suite.Open(nil, b[:12], b[12:], nil)
	return out, err == nil
}

// Identity is the second handshake message in the clear.
func (p *Peer) Identity() []byte {
	buf := p.ID.Marshal()
	sig := p.Sec.Sign(append(append([]byte{}, buf...), p.Shared...))
	return append(buf, sig[:]...)
}

// Handshake completes an honest handshake.
func (p *Peer) Handshake() bool {
	if !p.SendFrame(p.Hello()) {
		return false
	}
	h, ok := p.ReadFrame()
	if !ok || !p.Agree(h) {
		return false
	}
	if !p.SendFrame(p.Seal(p.Identity())) {
		return false
	}
	b, ok := p.ReadFrame()
	if !ok {
		return false
	}
	id, ok := p.Unseal(b)
	if !ok {
		return false
	}
	r, err := noise.UnmarshalID(id)
	if err != nil {
		return false
	}
	p.Remote = r
	return true
}

// Msg is the plaintext of an application message.
func Msg(nonce uint64, data []byte) []byte {
	b := make([]byte, 8+len(data))
	binary.BigEndian.PutUint64(b, nonce)
	copy(b[8:], data)
	return b
}

// Send sends an application message.
func (p *Peer) Send(nonce uint64, data []byte) bool {
	return p.SendFrame(p.Seal(Msg(nonce, data)))
}

// Recv receives one application message.
func (p *Peer) Recv() (uint64, []byte, bool) {
	f, ok := p.ReadFrame()
	if !ok {
		return 0, nil, false
	}
	b, ok := p.Unseal(f)
	if !ok || len(b) < 8 {
		return 0, nil, false
	}
	return binary.BigEndian.Uint64(b[:8]), b[8:], true
}

// Connect dials a node and completes the handshake.
func Connect(n *noise.Node, k byte, port uint16) *Peer {
	c := vnet.DialRaw(n.Addr())
	if c == nil {
		return nil
	}
	p := NewPeer(c, k, port)
	if !p.Handshake() {
		return nil
	}
	return p
}

// Port returns the port of an address.
func Port(addr string) int {
	_, p, err := net.SplitHostPort(addr)
	Must(err)
	n, err := strconv.Atoi(p)
	Must(err)
	return n
}

// Addr is the dialable address of a raw listener.
func Addr(l *vnet.Listener) string { return l.HostPort() }

// Done runs f on its own goroutine and returns a channel closed at its end.
func Done(f func()) chan struct{} {
	ch := make(chan struct{})
	vsym.Go(func() {
		defer close(ch)
		f()
	})
	return ch
}

// Ended reports whether ch is closed, without waiting.
func Ended(ch chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// BG is the background context.
func BG() context.Context { return context.Background() }
