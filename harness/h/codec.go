package h

import (
	"encoding/hex"
	"errors"
	"net"
	"strconv"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- C17

// IDParse: decoding accepts exactly buffers of at least an ID's size, and
// decoding followed by encoding gives the bytes back.
func IDParse() {
	n := vsym.Choose("len", vsym.Param("max", 56))
	buf := vsym.Bytes("buf", n)
	id, err := noise.UnmarshalID(buf)
	size := noise.ID{}.Size()
	vsym.Assert((err == nil) == (n >= size), "accepts exactly complete IDs")
	if err != nil {
		vsym.Assert(id.ID == noise.ZeroPublicKey, "no partial ID")
		vsym.Reach("short")
		return
	}
	back := id.Marshal()
	vsym.Assert(vsym.Eq(back, buf[:size]), "decode then encode is the identity")
	// The decoded ID does not share memory with the buffer.
	before := append([]byte{}, back...)
	for i := range buf {
		buf[i] = ^buf[i]
	}
	vsym.Assert(vsym.Eq(id.Marshal(), before), "decoded ID is independent of the buffer")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C18

type m1 struct{ b []byte }
type m2 struct{ b []byte }
type m3 struct{ b []byte }
type m4 struct{ b []byte }

func (m m1) Marshal() []byte  { return m.b }
func (m m2) Marshal() []byte  { return m.b }
func (m *m3) Marshal() []byte { return m.b }
func (m m4) Marshal() []byte  { return m.b }

var errDecode = errors.New("refused")

func de1(b []byte) (m1, error) { return m1{append([]byte{}, b...)}, nil }

// de2 refuses some bytes, though it returns what they say all the same.
func de2(b []byte) (m2, error) {
	if len(b) > 0 && b[0] == 0xdd {
		return m2{append([]byte{}, b...)}, errDecode
	}
	return m2{append([]byte{}, b...)}, nil
}
func otherDe1(b []byte) (m1, error) { return m1{}, nil }
func de3(b []byte) (*m3, error) {
	if len(b) == 0 || b[0] == 0xee {
		return nil, errDecode
	}
	return &m3{append([]byte{}, b...)}, nil
}

func body(s noise.Serializable) (int, []byte) {
	switch m := s.(type) {
	case m1:
		return 1, m.b
	case m2:
		return 2, m.b
	case *m3:
		return 3, m.b
	}
	return 0, nil
}

func registered(n *noise.Node, order int) [4]uint16 {
	var op [4]uint16
	switch order {
	case 0:
		op[1] = n.RegisterMessage(m1{}, de1)
		op[2] = n.RegisterMessage(m2{}, de2)
		op[3] = n.RegisterMessage(&m3{}, de3)
	case 1:
		op[3] = n.RegisterMessage(&m3{}, de3)
		op[1] = n.RegisterMessage(m1{}, de1)
		op[2] = n.RegisterMessage(m2{}, de2)
	default:
		op[2] = n.RegisterMessage(m2{}, de2)
		op[3] = n.RegisterMessage(&m3{}, de3)
		op[1] = n.RegisterMessage(m1{}, de1)
	}
	return op
}

// CodecRoundTrip: every registered type has its own opcode, and any value is
// encoded as opcode and body and decoded back, on another node which
// registered the same types in the same order too.
func CodecRoundTrip() {
	n, o := hx.Node(), hx.Node()
	ord := vsym.Choose("order", 3)
	op, op2 := registered(n, ord), registered(o, ord)
	vsym.Assert(op == op2, "same registration order, same opcodes")
	vsym.Assert(op[1] != op[2] && op[2] != op[3] && op[1] != op[3], "opcodes are unique")
	k := 1 + vsym.Choose("type", 3)
	b := vsym.Bytes("body", vsym.Choose("len", vsym.Param("len", 5)))
	var m noise.Serializable
	switch k {
	case 1:
		m = m1{b}
		if vsym.Choose("ptr", 2) == 1 {
			m = &m1{b}
		}
	case 2:
		m = m2{b}
	default:
		m = &m3{b}
	}
	enc, err := n.EncodeMessage(m)
	vsym.Assert(err == nil, "registered type encodes")
	vsym.Assert(len(enc) == 2+len(b) && enc[0] == byte(op[k]>>8) && enc[1] == byte(op[k]), "encoding starts with the opcode")
	vsym.Assert(vsym.Eq(enc[2:], b), "encoding ends with the body")
	d, err := o.DecodeMessage(enc)
	if k == 3 && (len(b) == 0 || b[0] == 0xee) || k == 2 && len(b) > 0 && b[0] == 0xdd {
		vsym.Assert(err == errDecode && d == nil, "decoder's error is returned")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "decodes")
	kk, bb := body(d)
	vsym.Assert(kk == k, "decodes to the registered type")
	vsym.Assert(vsym.Eq(bb, b), "decodes to the same value")
	vsym.Reach("end")
}

// CodecArbitrary: decoding arbitrary bytes yields a value of the type whose
// opcode they start with, or an error; unregistered types do not encode.
func CodecArbitrary() {
	n := hx.Node()
	op := registered(n, vsym.Choose("order", 3))
	buf := vsym.Bytes("buf", vsym.Choose("len", vsym.Param("len", 6)))
	d, err := n.DecodeMessage(buf)
	if len(buf) < 2 {
		vsym.Assert(err != nil && d == nil, "too short to decode")
		vsym.Reach("short")
		return
	}
	o := uint16(buf[0])<<8 | uint16(buf[1])
	k := 0
	for i := 1; i <= 3; i++ {
		if op[i] == o {
			k = i
		}
	}
	if k == 0 {
		vsym.Assert(err != nil && d == nil, "unknown opcode is an error")
		vsym.Reach("unknown")
	} else if err == nil {
		kk, bb := body(d)
		vsym.Assert(kk == k, "type belongs to the opcode")
		vsym.Assert(k == 1 || k == 2 && (len(buf) == 2 || buf[2] != 0xdd) || k == 3 && len(buf) > 2 && buf[2] != 0xee, "what the decoder refuses is refused")
		vsym.Assert(vsym.Eq(bb, buf[2:]), "value is the rest")
		vsym.Reach("end")
	} else {
		vsym.Assert(k == 3 && (len(buf) == 2 || buf[2] == 0xee) || k == 2 && len(buf) > 2 && buf[2] == 0xdd, "error only from the decoder")
		vsym.Assert(d == nil, "and nothing else")
	}
	_, err = n.EncodeMessage(m4{buf})
	vsym.Assert(err != nil, "unregistered type does not encode")
}

// CodecMany: a registered type keeps its opcode however many others follow.
func CodecMany() {
	n := hx.Node()
	a := n.RegisterMessage(m1{}, de1)
	b := n.RegisterMessage(m2{}, de2)
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		if vsym.Choose("other", 2) == 0 {
			n.RegisterMessage(m1{}, de1)
		} else {
			n.RegisterMessage(m1{}, otherDe1)
		}
		return
	}()
	vsym.Assert(panicked, "registering a type twice panics")
	bad := func() (p bool) {
		defer func() { p = recover() != nil }()
		n.RegisterMessage(m4{}, de2)
		return
	}()
	vsym.Assert(bad, "a decoder of another type is refused")
	c := n.RegisterMessage(&m3{}, de3)
	vsym.Assert(a != b && b != c && a != c, "opcodes stay unique after refused registrations")
	x := vsym.Bytes("x", 3)
	vsym.Assume(x[0] != 0xdd)
	for _, m := range []noise.Serializable{m1{x}, m2{x}} {
		e, err := n.EncodeMessage(m)
		vsym.Assert(err == nil, "still encodes")
		d, err := n.DecodeMessage(e)
		vsym.Assert(err == nil, "still decodes")
		k1, _ := body(m)
		k2, bb := body(d)
		vsym.Assert(k1 == k2 && vsym.Eq(bb, x), "still round trips")
	}
	vsym.Reach("end")
}

// CodecTypes: hundreds of types each have a code of their own.
func CodecTypes() {
	n, o := hx.Node(), hx.Node()
	ops := registerMany(n, manyTypes)
	for i, op := range registerMany(o, manyTypes) {
		vsym.Assert(op == ops[i], "same registration order, same opcodes")
	}
	seen := map[uint16]bool{}
	for _, op := range ops {
		vsym.Assert(!seen[op], "opcodes are unique")
		seen[op] = true
	}
	at := []int{0, 1, 127, 128, 254, 255, 256, 257, 298, 299, -1}
	i := at[vsym.Choose("i", len(at))]
	x := vsym.Bytes("x", 2)
	if i < 0 { // any code at all: the type registered under it, or an error
		c := vsym.Bytes("c", 2)
		d, err := o.DecodeMessage(append(append([]byte{}, c...), x...))
		if err != nil {
			code := uint16(c[0])<<8 | uint16(c[1])
			for _, op := range ops {
				vsym.Assert(op != code, "only unknown codes are refused")
			}
			vsym.Reach("unknown")
			return
		}
		k, b := manyBody(d)
		vsym.Assert(k >= 0 && ops[k] == uint16(c[0])<<8|uint16(c[1]) && vsym.Eq(b, x), "a code means the type registered under it")
		vsym.Reach("any")
		return
	}
	e, err := n.EncodeMessage(manyMsg(i, x))
	vsym.Assert(err == nil, "encodes")
	d, err := o.DecodeMessage(e)
	vsym.Assert(err == nil, "decodes")
	k, b := manyBody(d)
	vsym.Assert(k == i, "to the same type")
	vsym.Assert(vsym.Eq(b, x), "and value")
	vsym.Reach("end")
}

// CodecShared: what was encoded or decoded stays as it is whatever is encoded
// and decoded next or at the same time.
func CodecShared() {
	n := hx.Node()
	op := registered(n, 0)
	x, y, z := vsym.Bytes("x", vsym.Choose("lx", 4)), vsym.Bytes("y", vsym.Choose("ly", 4)), vsym.Bytes("z", 2)
	if len(y) > 0 {
		vsym.Assume(y[0] != 0xdd)
	}
	want := func(m noise.Serializable, e []byte, b []byte) {
		k, _ := body(m)
		vsym.Assert(len(e) == 2+len(b) && e[0] == byte(op[k]>>8) && e[1] == byte(op[k]) && vsym.Eq(e[2:], b), "an encoded message stays as it is")
	}
	vsym.Explore(vsym.Param("delays", 1))
	var e1, e2 []byte
	d := hx.Done(func() { e1, _ = n.EncodeMessage(m1{x}) })
	e2, _ = n.EncodeMessage(m2{y})
	<-d
	want(m1{}, e1, x)
	want(m2{}, e2, y)
	m, err := n.DecodeMessage(e1)
	vsym.Assert(err == nil, "decodes")
	e3, err := n.EncodeMessage(&m3{z})
	vsym.Assert(err == nil, "encodes")
	m2, err := n.DecodeMessage(e2)
	vsym.Assert(err == nil, "decodes")
	want(m1{}, e1, x)
	k, b := body(m)
	vsym.Assert(k == 1 && vsym.Eq(b, x), "a decoded message stays as it is")
	k, b = body(m2)
	vsym.Assert(k == 2 && vsym.Eq(b, y), "a decoded message stays as it is")
	want(&m3{}, e3, z)
	// Nor does using one change another.
	for i := range e3 {
		e3[i] ^= 0xff
	}
	want(m1{}, e1, x)
	k, b = body(m)
	vsym.Assert(k == 1 && vsym.Eq(b, x), "a decoded message stays as it is")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C19

// KeyHex: the hex form of any private key loads back to it.
func KeyHex() {
	var k noise.PrivateKey
	n := vsym.Param("sym", 2)
	copy(k[vsym.Choose("at", 4)*20:], vsym.Bytes("k", n))
	s := k.String()
	vsym.Assert(len(s) == 128, "length of the hex form")
	got, err := noise.LoadKeysFromHex(s)
	vsym.Assert(err == nil, "loads")
	vsym.Assert(vsym.Eq(got[:], k[:]), "same key")
	vsym.Reach("end")
}

// KeyHexBad: anything else is refused and yields no key.
func KeyHexBad() {
	ln := []int{0, 2, 64, 126, 127, 129, 130, 256, 128}[vsym.Choose("len", 9)]
	b := make([]byte, ln)
	for i := range b {
		b[i] = '7'
	}
	if ln == 128 {
		b[vsym.Choose("pos", 128)] = vsym.U8("c")
	}
	if ln == 130 { // a key's worth of digits, and two characters around them
		x, y := vsym.U8("x"), vsym.U8("y")
		switch vsym.Choose("around", 3) {
		case 0:
			b[0], b[1] = x, y
		case 1:
			b[128], b[129] = x, y
		case 2:
			b[0], b[129] = x, y
		}
	}
	got, err := noise.LoadKeysFromHex(string(b))
	ok := ln == 128
	if ok {
		for _, c := range b {
			ok = vsym.And(ok, vsym.Or(vsym.And(c >= '0', c <= '9'), vsym.Or(vsym.And(c >= 'a', c <= 'f'), vsym.And(c >= 'A', c <= 'F'))))
		}
	}
	vsym.Assert((err == nil) == ok, "accepts exactly 128 hex digits")
	if err != nil {
		vsym.Assert(got == noise.ZeroPrivateKey, "no key on error")
		vsym.Reach("refused")
		return
	}
	dec, _ := hex.DecodeString(string(b))
	vsym.Assert(vsym.Eq(got[:], dec), "the key is what the digits say")
	vsym.Reach("end")
}

// KeyPair: a node's identity is the public half of its key, and its
// signatures verify under that identity only for the data signed.
func KeyPair() {
	pub, sec, err := noise.GenerateKeys(nil)
	vsym.Assert(err == nil && sec.Public() == pub, "public half")
	n := hx.Listening(noise.WithNodePrivateKey(sec))
	vsym.Assert(n.ID().ID == pub, "identity of a node is its public key")
	d := vsym.Bytes("d", 4)
	sig := n.Sign(d)
	vsym.Assert(pub.Verify(d, sig), "signature verifies")
	e := vsym.Bytes("e", 4)
	vsym.Assume(!vsym.Eq(d, e))
	vsym.Assert(!pub.Verify(e, sig), "signature is bound to the data")
	opub, _, _ := noise.GenerateKeys(nil)
	vsym.Assert(!opub.Verify(d, sig), "signature is bound to the key")
	s2 := noise.UnmarshalSignature(append(append([]byte{}, sig[:]...), 1, 2))
	vsym.Assert(s2 == sig, "signature unmarshals")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C31

func special(ip net.IP) bool { return ip.IsLoopback() || ip.IsUnspecified() }

// Addresses: an ID's address names its host and port; loopback and
// unspecified hosts are left out.
func Addresses() {
	var ip net.IP
	switch vsym.Choose("kind", 4) {
	case 0:
		ip = net.IP{byte(vsym.Conc(int(vsym.U8("v4")))), 0, byte(vsym.Choose("c", 2) * 9), byte(vsym.Choose("d", 3))}
	case 1:
		ip = net.IPv4(byte(vsym.Choose("a", 2)*127), 0, 0, byte(vsym.Conc(int(vsym.U8("last")))))
	case 2:
		b := make([]byte, 16)
		b[vsym.Choose("at", 16)] = byte(vsym.Choose("x", 3) * 0x55)
		b[15] |= byte(vsym.Choose("x15", 3))
		ip = net.IP(b)
	default:
		ip = nil
	}
	port := vsym.U16("port")
	if ip == nil {
		vsym.Assume(int(port) < vsym.Param("nilports", 300))
		port = uint16(vsym.Conc(int(port)))
	} else {
		port = []uint16{65535, 0, 9, 10000, 1}[vsym.Choose("port2", vsym.Param("ports", 2))]
	}
	var pk noise.PublicKey
	pk[3] = 9
	id := noise.NewID(pk, ip, port)
	vsym.Assert(id.ID == pk && id.Port == port && id.Host.Equal(ip), "fields")
	h, p, err := net.SplitHostPort(id.Address)
	vsym.Assert(err == nil, "address splits")
	pn, err := strconv.ParseUint(p, 10, 16)
	vsym.Assert(err == nil && uint16(pn) == port, "address carries the port")
	if ip == nil || special(ip) {
		vsym.Assert(h == "", "no host for loopback or unspecified")
		vsym.Reach("special")
	} else {
		back := net.ParseIP(h)
		vsym.Assert(back != nil && back.Equal(ip), "address carries the host")
	}
	vsym.Reach("end")
}

// Resolve: resolving a literal address keeps host and port, drops loopback
// and unspecified hosts, and is idempotent.
func Resolve() {
	hosts := []string{"", "0.0.0.0", "127.0.0.1", "127.8.9.1", "10.1.2.3", "255.255.255.255", "[::]", "[::1]", "[2001:db8::1]", "[fe80::1]", "128.0.0.1", "0.0.0.1"}
	h := hosts[vsym.Choose("host", len(hosts))]
	port := []int{0, 1, 80, 9000, 65535}[vsym.Choose("port", 5)]
	got, err := noise.ResolveAddress(h + ":" + strconv.Itoa(port))
	vsym.Assert(err == nil, "resolves")
	gh, gp, err := net.SplitHostPort(got)
	vsym.Assert(err == nil && gp == strconv.Itoa(port), "keeps the port")
	lit := h
	if len(lit) > 1 && lit[0] == '[' {
		lit = lit[1 : len(lit)-1]
	}
	ip := net.ParseIP(lit)
	if ip == nil || special(ip) {
		vsym.Assert(gh == "", "drops the host")
	} else {
		vsym.Assert(net.ParseIP(gh).Equal(ip), "keeps the host")
	}
	again, err := noise.ResolveAddress(got)
	vsym.Assert(err == nil && again == got, "idempotent")
	bad := []string{"", "10.0.0.1", "10.0.0.1:70000", "10.0.0.1:x", "[::1", "a:b:c"}[vsym.Choose("bad", 6)]
	_, err = noise.ResolveAddress(bad)
	if bad != "" {
		vsym.Assert(err != nil, "malformed address is an error")
	}
	vsym.Reach("end")
}

// NodeAddresses: what a listening node advertises.
func NodeAddresses() {
	var opts []noise.NodeOption
	bind := vsym.Choose("bind", 3)
	want := net.IPv6unspecified
	switch bind {
	case 1:
		want = net.IPv4(10, 0, 0, 7)
		opts = append(opts, noise.WithNodeBindHost(want))
	case 2:
		want = net.IPv4(127, 0, 0, 1)
		opts = append(opts, noise.WithNodeBindHost(want))
	}
	fixed := vsym.Choose("fixed", 2) == 1
	if fixed {
		opts = append(opts, noise.WithNodeBindPort(7777))
	}
	adv := vsym.Choose("advertise", 5)
	str := []string{"", "93.184.216.34:4000", "127.0.0.1:4001", ":4002", "10.9.8.7:65535"}[adv]
	if adv > 0 {
		opts = append(opts, noise.WithNodeAddress(str))
	}
	pub, sec := hx.Keys()
	opts = append(opts, noise.WithNodePrivateKey(sec))
	if vsym.Choose("withid", 2) == 1 && adv == 1 {
		opts = append(opts[:len(opts)-2], opts[len(opts)-1], noise.WithNodeID(noise.NewID(pub, net.IPv4(93, 184, 216, 34), 4000)))
		vsym.Reach("withid")
	}
	n := hx.Node(opts...)
	vsym.Assert(n.Listen() == nil, "a node with a valid address starts")
	if adv == 4 { // the last option counts
		o := hx.Node(noise.WithNodePrivateKey(sec), noise.WithNodeAddress("10.9.8.6:4"), noise.WithNodeID(noise.NewID(pub, net.IPv4(10, 9, 8, 7), 65535)))
		vsym.Assert(o.Addr() == str && o.Listen() == nil && o.ID().Address == str && o.Addr() == str, "an ID brings its address")
		o = hx.Node(noise.WithNodePrivateKey(sec), noise.WithNodeID(noise.NewID(pub, net.IPv4(10, 9, 8, 6), 4)), noise.WithNodeAddress(str))
		vsym.Assert(o.Addr() == str && o.Listen() == nil && o.ID().Address == str && o.Addr() == str, "which can be changed")
	}
	id := n.ID()
	vsym.Assert(id.ID == pub, "advertises its own key")
	h, p, err := net.SplitHostPort(id.Address)
	vsym.Assert(err == nil, "advertised address splits")
	switch adv {
	case 1:
		vsym.Assert(h == "93.184.216.34" && p == "4000" && id.Port == 4000 && id.Host.Equal(net.IPv4(93, 184, 216, 34)), "advertises the configured address")
		vsym.Assert(n.Addr() == str, "Addr is the configured address")
	case 4:
		vsym.Assert(h == "10.9.8.7" && p == "65535" && id.Port == 65535 && id.Host.Equal(net.IPv4(10, 9, 8, 7)), "advertises the configured address")
	case 2, 3:
		vsym.Assert(id.Port == uint16(4000+adv-1) && p == strconv.Itoa(int(id.Port)), "advertises the configured port")
		if adv == 3 && bind == 1 {
			vsym.Assert(h == "10.0.0.7" && id.Host.Equal(want), "and the bound host")
		} else if bind != 1 {
			vsym.Assert(h == "", "no host when bound to any or loopback")
		}
	default:
		vsym.Assert(n.Addr() == id.Address, "Addr is the ID's address")
		vsym.Assert(!fixed || id.Port == 7777, "bound to the configured port")
		vsym.Assert(id.Port != 0 && p == strconv.Itoa(int(id.Port)), "advertises the bound port")
		if bind == 1 {
			vsym.Assert(h == "10.0.0.7", "advertises the bound host")
		} else {
			vsym.Assert(h == "", "no host when bound to any or loopback")
		}
	}
	// What it advertises is what a peer decodes.
	dec, err := noise.UnmarshalID(id.Marshal())
	vsym.Assert(err == nil && dec.ID == id.ID && dec.Address == id.Address && dec.Port == id.Port, "peers decode the advertised ID")
	vsym.Assert(n.Listen() != nil, "listening twice is an error")
	vsym.Reach("end")
}

// BadAddress: a node that cannot advertise what it is told to does not start,
// and holds on to nothing.
func BadAddress() {
	str := []string{"10.0.0.1:65536", "10.0.0.1:-1", "10.0.0.1", "10.0.0.1:x", "10.0.0.1:", ":", "10.0.0.1:70000"}[vsym.Choose("address", 7)]
	n := hx.Node(noise.WithNodeAddress(str), noise.WithNodeBindPort(7777))
	bound := 0
	n.Bind(noise.Protocol{Bind: func(*noise.Node) error { bound++; return nil }})
	err := n.Listen()
	if err == nil { // a port that is left out is taken for port 0
		vsym.Assert(n.ID().Port == 0, "only a missing port can be advertised as 0")
	}
	vsym.Assert(str != "10.0.0.1:65536" && str != "10.0.0.1:70000" && str != "10.0.0.1:-1" && str != "10.0.0.1:x" || err != nil, "an address without a valid port is refused")
	if err != nil {
		vsym.Assert(bound == 0, "protocols are not told of a node that does not start")
		o := hx.Node(noise.WithNodeBindPort(7777))
		vsym.Assert(o.Listen() == nil, "its port is free again")
		vsym.Reach("refused")
	}
	vsym.Reach("end")
}

// CodecNode: the message types over connections: what is of a registered type
// arrives as such, whatever is not is refused before anything is sent, and
// what cannot be decoded is an error to the one who decodes.
func CodecNode() {
	b := hx.Node(noise.WithNodeNumWorkers(1))
	ops := registered(b, 0)
	x, y := vsym.Bytes("x", 2), vsym.Bytes("y", 2)
	vsym.Assume(y[0] != 0xdd)
	how := vsym.Choose("how", 8)
	got := 0
	b.Handle(func(ctx noise.HandlerContext) error {
		m, err := ctx.DecodeMessage()
		vsym.Assert(err == nil, "a received message decodes")
		k, d := body(m)
		vsym.Assert(k == 1 && vsym.Eq(d, x), "to what was sent")
		got++
		if !ctx.IsRequest() {
			return nil
		}
		switch how {
		case 2:
			vsym.Assert(ctx.SendMessage(&m3{y}) == nil, "answers")
		case 3:
			vsym.Assert(ctx.SendMessage(m4{y}) != nil, "an unregistered type is not sent")
			vsym.Assert(ctx.SendMessage(m2{y}) == nil, "and is no answer: the request can still be answered")
		case 4:
			vsym.Assert(ctx.Send([]byte{0xff, 0xf0, 1}) == nil, "answers")
		case 5:
			vsym.Assert(ctx.Send(y[:1]) == nil, "answers")
		case 6:
			vsym.Assert(ctx.SendMessage(&m3{[]byte{0xee, y[0]}}) == nil, "answers")
		case 7:
			vsym.Assert(ctx.SendMessage(m2{[]byte{0xdd, y[0]}}) == nil, "answers")
		}
		return nil
	})
	hx.Must(b.Listen())
	a := hx.Listening(noise.WithNodeNumWorkers(1))
	vsym.Assert(registered(a, 0) == ops, "same registration order, same opcodes")
	switch how {
	case 0:
		vsym.Assert(a.SendMessage(hx.BG(), b.Addr(), m4{x}) != nil, "an unregistered type is not sent")
		m, err := a.RequestMessage(hx.BG(), b.Addr(), m4{x})
		vsym.Assert(m == nil && err != nil, "an unregistered type is not sent")
		vsym.Quiesce()
		vsym.Assert(got == 0 && len(a.Outbound()) == 0, "nothing leaves the node")
	case 1:
		vsym.Assert(a.SendMessage(hx.BG(), b.Addr(), m1{x}) == nil, "sends")
		vsym.Quiesce()
		vsym.Assert(got == 1, "a message arrives")
	default:
		m, err := a.RequestMessage(hx.BG(), b.Addr(), m1{x})
		vsym.Assert(got == 1, "a request arrives")
		k, d := body(m)
		switch {
		case how == 3:
			vsym.Assert(err == nil && k == 2 && vsym.Eq(d, y), "the answer is what was sent")
		case how == 2 && y[0] != 0xee:
			vsym.Assert(err == nil && k == 3 && vsym.Eq(d, y), "the answer is what was sent")
		default:
			vsym.Assert(err != nil && m == nil, "an answer that cannot be decoded is an error")
			if how == 2 || how == 6 {
				vsym.Assert(errors.Is(err, errDecode), "the decoder's")
			}
			vsym.Reach("refused")
		}
		r, err := a.RequestMessage(hx.BG(), b.Addr(), m1{x})
		vsym.Assert(got == 2 && (err == nil) == (how == 3 || how == 2 && y[0] != 0xee) && (r == nil) == (err != nil), "the connection stays in use")
		vsym.Assert(len(a.Outbound()) == 1, "the connection stays in use")
	}
	vsym.Reach("end")
}
