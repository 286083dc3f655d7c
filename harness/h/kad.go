package h

import (
	"bytes"
	"net"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vmodel"
	"github.com/perlin-network/noise/verif/vnet"
	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- reference

// prefix is the number of leading bits a and b share.
func prefix(a, b noise.PublicKey) int {
	n := 0
	for i := range a {
		for bit := 7; bit >= 0; bit-- {
			if (a[i]^b[i])>>uint(bit)&1 != 0 {
				return n
			}
			n++
		}
	}
	return n
}

// less reports whether a is closer to t than b.
func less(t, a, b noise.PublicKey) bool {
	for i := range t {
		x, y := a[i]^t[i], b[i]^t[i]
		if x != y {
			return x < y
		}
	}
	return false
}

// mkID makes an ID whose key has symbolic bytes at the given positions.
func mkID(base noise.PublicKey, port uint16, at ...int) noise.ID {
	for _, i := range at {
		base[i] = vsym.U8("id")
	}
	return noise.NewID(base, net.IPv4(10, 0, 0, 1), port)
}

// ---------------------------------------------------------------- C20

// Metric: XOR distance is a metric, and bit prefixes are counted right.
func Metric() {
	n := 1 + vsym.Choose("n", vsym.Param("n", 3))
	a, b, c := vsym.Bytes("a", n), vsym.Bytes("b", n), vsym.Bytes("c", n)
	a0, b0 := append([]byte{}, a...), append([]byte{}, b...)
	ab, ba, bc, ac := kademlia.XOR(a, b), kademlia.XOR(b, a), kademlia.XOR(b, c), kademlia.XOR(a, c)
	vsym.Assert(len(ab) == n, "distance has the size of the keys")
	vsym.Assert(vsym.Eq(ab, ba), "distance is symmetric")
	zero := make([]byte, n)
	vsym.Assert(vsym.Eq(kademlia.XOR(a, a), zero), "distance to itself is zero")
	vsym.Assert(vsym.Eq(ab, zero) == vsym.Eq(a, b), "and only to itself")
	vsym.Assert(vsym.Eq(kademlia.XOR(ab, b), a), "there is one point per distance")
	vsym.Assert(vsym.Eq(a, a0) && vsym.Eq(b, b0), "the keys are left alone")
	var x, y, z uint64
	for i := 0; i < n; i++ {
		x, y, z = x<<8|uint64(ab[i]), y<<8|uint64(bc[i]), z<<8|uint64(ac[i])
	}
	vsym.Assert(z <= x+y, "triangle inequality")
	vsym.Reach("end")
}

// Prefixes: PrefixLen and PrefixDiff against their definitions.
func Prefixes() {
	n := vsym.Choose("n", vsym.Param("n", 4))
	a, b := vsym.Bytes("a", n), vsym.Bytes("b", n)
	l := kademlia.PrefixLen(a)
	want := 0
	for want < 8*n && a[want/8]>>uint(7-want%8)&1 == 0 {
		want++
	}
	vsym.Assert(l == want, "prefix length counts leading zero bits")
	bits := vsym.Choose("bits", 8*n+10)
	d := kademlia.PrefixDiff(a, b, bits)
	sum := 0
	for i := 0; i < bits && i < 8*n; i++ {
		sum += int((a[i/8] ^ b[i/8]) >> uint(7-i%8) & 1)
	}
	vsym.Assert(d == sum, "prefix difference counts differing bits")
	vsym.Reach("end")
}

// Sorting: sorting by distance permutes and orders.
func Sorting() {
	var t noise.PublicKey
	k := vsym.Param("ids", 3)
	var ids []noise.ID
	// All keys agree but for the bytes at p and, so that none are equal, one
	// that may come right after it or be the very last.
	p := vsym.Choose("p", 31)
	q := 31
	if p < 30 && vsym.Choose("q", 2) == 0 {
		q = p + 1
	}
	t[p], t[q] = vsym.U8("t"), 2
	for i := 0; i < k; i++ {
		id := mkID(noise.PublicKey{}, uint16(i+1), p)
		id.ID[q] = byte(i + 1)
		ids = append(ids, id)
	}
	in := append([]noise.ID{}, ids...)
	out := kademlia.SortByDistance(t, in)
	vsym.Assert(len(out) == k, "all are kept")
	seen := make([]bool, k)
	for i, id := range out {
		vsym.Assert(id.Port >= 1 && int(id.Port) <= k && !seen[id.Port-1] && id.ID == ids[id.Port-1].ID, "unchanged, once each")
		seen[id.Port-1] = true
		if i > 0 {
			vsym.Assert(!less(t, id.ID, out[i-1].ID), "closer ones come first")
		}
	}
	vsym.Reach("end")
}

// Buckets: two peers share a bucket exactly if they share the same number of
// leading bits with the node.
func Buckets() {
	var self noise.PublicKey
	pos := []int{0, 1, 30, 31}
	self[0], self[15], self[31] = 0xa5, 1, 0x3c
	tb := kademlia.NewTable(noise.NewID(self, net.IPv4(10, 0, 0, 1), 1))
	x, y := self, self
	p, q := pos[vsym.Choose("p", 4)], pos[vsym.Choose("q", 4)]
	x[p] ^= vsym.U8("x")
	y[q] ^= vsym.U8("y")
	if vsym.Choose("more", 2) == 1 {
		x[31] ^= vsym.U8("x2")
		y[31] ^= vsym.U8("y2")
	}
	_, err := tb.Update(noise.NewID(x, net.IPv4(10, 0, 0, 2), 2))
	vsym.Assert(err == nil, "update")
	b := tb.Bucket(y)
	found := false
	for _, id := range b {
		if id.ID == x {
			found = true
		}
	}
	px, py := prefix(x, self), prefix(y, self)
	if px == 256 {
		px = 255
	}
	if py == 256 {
		py = 255
	}
	vsym.Assert(found == (px == py), "peers are kept by the length of the prefix shared with the node")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C21

// model is the reference of a routing table: entries in order of recency.
type model struct {
	self noise.PublicKey
	ids  []noise.ID // most recent first
}

func (m *model) bucket(k noise.PublicKey) int {
	l := prefix(k, m.self)
	if l == 256 {
		l = 255
	}
	return l
}

func (m *model) find(k noise.PublicKey) int {
	for i := range m.ids {
		if m.ids[i].ID == k {
			return i
		}
	}
	return -1
}

func (m *model) inBucket(k noise.PublicKey) []noise.ID {
	var out []noise.ID
	b := m.bucket(k)
	for _, id := range m.ids {
		if m.bucket(id.ID) == b {
			out = append(out, id)
		}
	}
	return out
}

func (m *model) remove(i int) {
	m.ids = append(m.ids[:i:i], m.ids[i+1:]...)
}

func same(a, b noise.ID) bool { return a.ID == b.ID && a.Address == b.Address && a.Port == b.Port }

func (m *model) check(tb *kademlia.Table) {
	vsym.Assert(tb.NumEntries() == len(m.ids), "the table counts its entries")
	es := tb.Entries()
	vsym.Assert(len(es) == len(m.ids), "and lists them")
	seen := map[noise.PublicKey]int{}
	for _, e := range es {
		seen[e.ID]++
		vsym.Assert(seen[e.ID] == 1, "each once")
		i := m.find(e.ID)
		vsym.Assert(i >= 0 && same(m.ids[i], e), "as they were recorded")
		vsym.Assert(tb.Recorded(e.ID), "which are recorded")
	}
}

// TableOps: any sequence of operations on the routing table, in particular
// around full buckets, behaves like the reference.
func TableOps() {
	var self noise.PublicKey
	self[0], self[31] = 0x80, 1
	sid := noise.NewID(self, net.IPv4(10, 0, 0, 1), 1)
	tb := kademlia.NewTable(sid)
	m := &model{self: self, ids: []noise.ID{sid}}
	m.check(tb)
	vsym.Assert(tb.Self().ID == self, "own ID")
	fill := []int{0, 15, 16}[vsym.Choose("fill", 3)]
	for i := 0; i < fill; i++ { // all in the bucket of the first bit
		var pk noise.PublicKey
		pk[0], pk[1] = 0x01, byte(i)
		id := noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
		ok, err := tb.Update(id)
		vsym.Assert(ok && err == nil, "a bucket takes sixteen peers")
		m.ids = append([]noise.ID{id}, m.ids...)
	}
	steps := vsym.Param("steps", 2)
	sym := vsym.Param("sym", 1)
	for s := 0; s < steps; s++ {
		var pk noise.PublicKey
		kind := vsym.Choose("kind", 3)
		switch kind {
		case 0: // maybe one of those in the full bucket
			pk[0] = 0x01
			pk[1] = vsym.U8("b") & 0x1f
			if sym == 0 {
				pk[1] = byte(vsym.Choose("b", 17))
			}
		case 1: // another bucket
			pk[0] = 0x80
			pk[1] = vsym.U8("c") & 3
		case 2: // itself, or nobody
			if vsym.Choose("z", 2) == 0 {
				pk = self
			}
		}
		id := noise.NewID(pk, net.IPv4(10, 0, 2, byte(s)), uint16(300+s))
		i := m.find(pk)
		switch vsym.Choose("op", 4) {
		case 0:
			ok, err := tb.Update(id)
			switch {
			case pk == noise.ZeroPublicKey:
				vsym.Assert(!ok && err == nil, "the zero key is not recorded")
			case i >= 0:
				vsym.Assert(!ok && err == nil, "a known peer is not added again")
				known := m.ids[i]
				m.remove(i)
				m.ids = append([]noise.ID{known}, m.ids...)
			case len(m.inBucket(pk)) < kademlia.BucketSize:
				vsym.Assert(ok && err == nil, "a new peer is added while there is room")
				m.ids = append([]noise.ID{id}, m.ids...)
			default:
				vsym.Assert(!ok && err != nil, "a full bucket takes no more")
				vsym.Reach("full")
			}
		case 1:
			got, ok := tb.Delete(pk)
			vsym.Assert(ok == (i >= 0), "exactly what is recorded can be deleted")
			if ok {
				vsym.Assert(same(got, m.ids[i]), "and is returned")
				m.remove(i)
			}
		case 2:
			addr := id.Address
			if i >= 0 {
				addr = m.ids[i].Address
			}
			got, ok := tb.DeleteByAddress(addr)
			j := -1
			for k := range m.ids {
				if m.ids[k].Address == addr {
					j = k
				}
			}
			vsym.Assert(ok == (j >= 0), "exactly what is recorded can be deleted by address")
			if ok {
				vsym.Assert(same(got, m.ids[j]), "and is returned")
				m.remove(j)
			}
		case 3:
			vsym.Assert(tb.Recorded(pk) == (i >= 0), "what is recorded is reported")
		}
		b := m.inBucket(pk)
		tbk := tb.Bucket(pk)
		vsym.Assert(len(tbk) == len(b) && len(b) <= kademlia.BucketSize, "buckets are bounded")
		for k := range b {
			vsym.Assert(same(b[k], tbk[k]), "and ordered by most recent activity")
		}
		last := tb.Last(pk)
		if len(b) == 0 {
			vsym.Assert(last.ID == noise.ZeroPublicKey, "nobody is last in an empty bucket")
		} else {
			vsym.Assert(same(last, b[len(b)-1]), "the least recently active peer is last")
		}
	}
	m.check(tb)
	vsym.Reach("end")
}

// TableRace: concurrent operations leave a consistent table.
func TableRace() {
	var self noise.PublicKey
	self[0] = 0x80
	tb := kademlia.NewTable(noise.NewID(self, net.IPv4(10, 0, 0, 1), 1))
	mk := func(i int) noise.ID {
		var pk noise.PublicKey
		pk[0], pk[1] = 1, byte(i)
		return noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
	}
	fill := 13 + vsym.Choose("fill", 4)
	for i := 0; i < fill; i++ {
		tb.Update(mk(i))
	}
	vsym.Explore(vsym.Param("delays", 2))
	ins := 0
	add := func(i int) {
		if ok, err := tb.Update(mk(i)); ok && err == nil {
			ins++
		}
	}
	op := vsym.Choose("op", 4)
	d1 := hx.Done(func() { add(20) })
	d2 := hx.Done(func() { add([]int{20, 21, 21, 21}[op]) })
	del := 0
	d3 := hx.Done(func() {
		switch op {
		case 2:
			if _, ok := tb.Delete(mk(3).ID); ok {
				del++
			}
			if _, ok := tb.Delete(mk(3).ID); ok {
				del++
			}
		case 3:
			if _, ok := tb.DeleteByAddress(mk(20).Address); ok {
				del++
			}
		}
		es := tb.Entries()
		seen := map[noise.PublicKey]bool{}
		for _, e := range es {
			vsym.Assert(!seen[e.ID], "entries are distinct")
			seen[e.ID] = true
		}
	})
	<-d1
	<-d2
	<-d3
	es := tb.Entries()
	seen := map[noise.PublicKey]bool{}
	for _, e := range es {
		vsym.Assert(!seen[e.ID], "entries are distinct")
		seen[e.ID] = true
	}
	vsym.Assert(len(es) == 1+fill+ins-del && tb.NumEntries() == len(es), "the table counts its entries")
	news := 1 + b2i(op > 0)
	vsym.Assert(ins <= news+b2i(op == 3), "a peer is recorded once")
	vsym.Assert(fill+news > kademlia.BucketSize || ins >= news, "while there is room")
	vsym.Assert(len(tb.Bucket(mk(0).ID)) <= kademlia.BucketSize, "buckets are bounded")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C22

// Closest: FindClosest returns exactly the closest entries in order.
func Closest() {
	var self noise.PublicKey
	pos := []int{0, 1, 31}
	p := pos[vsym.Choose("p", 3)]
	self[0] = 0x40
	tb := kademlia.NewTable(noise.NewID(self, net.IPv4(10, 0, 0, 1), 1))
	n := vsym.Choose("n", vsym.Param("n", 3))
	all := []noise.ID{tb.Self()}
	for i := 0; i < n; i++ {
		id := mkID(self, uint16(10+i), p)
		if p == 1 { // peers may claim one and the same address
			id = noise.NewID(id.ID, nil, 9)
		}
		ok, err := tb.Update(id)
		vsym.Assert(err == nil, "update")
		if ok {
			all = append(all, id)
		}
	}
	target := self
	target[p] = vsym.U8("t")
	k := vsym.Choose("k", n+3)
	got := tb.FindClosest(target, k)
	var cand []noise.ID
	for _, id := range all {
		if id.ID != target {
			cand = append(cand, id)
		}
	}
	want := k
	if want > len(cand) {
		want = len(cand)
	}
	vsym.Assert(len(got) == want, "as many as asked for, as far as there are")
	for i, id := range got {
		closer := 0
		known := false
		for _, c := range cand {
			if less(target, c.ID, id.ID) {
				closer++
			}
			if same(c, id) {
				known = true
			}
		}
		vsym.Assert(known, "entries of the table other than the target")
		vsym.Assert(closer == i, "the closest ones, closest first")
	}
	peers := tb.Peers()
	vsym.Assert(len(peers) == len(all)-1, "peers are all entries but the node")
	for i, id := range peers {
		vsym.Assert(id.ID != self && (i == 0 || less(self, peers[i-1].ID, id.ID)), "closest first")
	}
	vsym.Assert(tb.NumEntries() == len(all), "the table is left alone")
	vsym.Reach("end")
}

// ClosestMany: with more entries than one bucket.
func ClosestMany() {
	var self noise.PublicKey
	self[0] = 0x80
	tb := kademlia.NewTable(noise.NewID(self, net.IPv4(10, 0, 0, 1), 1))
	var all []noise.ID
	for i := 0; i < 40; i++ {
		var pk noise.PublicKey
		pk[0] = []byte{0x00, 0xc0, 0xa0, 0x90}[i%4]
		pk[1] = byte(i * 37)
		pk[2] = 1
		id := noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
		if ok, err := tb.Update(id); ok && err == nil {
			all = append(all, id)
		}
	}
	vsym.Assert(len(all) == 40, "all fit")
	all = append(all, tb.Self())
	var target noise.PublicKey
	target[0] = []byte{0x00, 0xc0, 0xa0, 0x90, 0x80, 0x88}[vsym.Choose("where", 6)]
	target[1] = vsym.U8("t") & byte(vsym.Param("mask", 1)<<5)
	target[2] = 1
	k := []int{1, 3, 16, 20, 41, 50}[vsym.Choose("k", 6)]
	got := tb.FindClosest(target, k)
	n := 0
	for _, id := range all {
		if id.ID != target {
			n++
		}
	}
	if n > k {
		n = k
	}
	vsym.Assert(len(got) == n, "as many as asked for, as far as there are")
	for i, id := range got {
		closer := 0
		for _, c := range all {
			if c.ID != target && less(target, c.ID, id.ID) {
				closer++
			}
		}
		vsym.Assert(closer == i && id.ID != target, "the closest ones, closest first")
	}
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C23

// Wire: what is sent is what is decoded.
func Wire() {
	var req kademlia.FindNodeRequest
	copy(req.Target[:], vsym.Bytes("t", 32))
	b := req.Marshal()
	got, err := kademlia.UnmarshalFindNodeRequest(append([]byte{}, b...))
	vsym.Assert(err == nil && vsym.Eq(got.Target[:], req.Target[:]), "requests survive")
	n := vsym.Choose("n", vsym.Param("ids", 4))
	var res kademlia.FindNodeResponse
	for i := 0; i < n; i++ {
		var pk noise.PublicKey
		copy(pk[:], vsym.Bytes("pk", 3))
		pk[31] = vsym.U8("last")
		var host net.IP
		switch vsym.Choose("host", 3) {
		case 0:
			host = net.IP(vsym.Bytes("ip4", 4))
		case 1:
			host = net.IPv4(10, 0, 0, byte(i)).To4()
		case 2:
			host = net.ParseIP("fe80::1")
		}
		res.Results = append(res.Results, noise.NewID(pk, host, vsym.U16("port")))
	}
	rb := res.Marshal()
	out, err := kademlia.UnmarshalFindNodeResponse(append(append([]byte{}, rb...), vsym.Bytes("tail", 2)...))
	vsym.Assert(err == nil && len(out.Results) == n, "responses survive")
	for i := range out.Results {
		a, b := out.Results[i], res.Results[i]
		vsym.Assert(vsym.Eq(a.ID[:], b.ID[:]) && vsym.Eq(a.Host.To16(), b.Host.To16()) && a.Port == b.Port && a.Address == b.Address, "with every ID")
	}
	vsym.Reach("end")
}

// WireMany: lists of any length that can be counted survive.
func WireMany() {
	n := []int{15, 16, 17, 33, 128, 255}[vsym.Choose("n", 6)]
	x := vsym.Bytes("pk", 2)
	var res kademlia.FindNodeResponse
	for i := 0; i < n; i++ {
		res.Results = append(res.Results, noise.NewID(noise.PublicKey{0: byte(i), 1: x[0], 31: x[1]}, net.IPv4(10, 0, 1, byte(i)).To4(), uint16(1000+i)))
	}
	out, err := kademlia.UnmarshalFindNodeResponse(res.Marshal())
	vsym.Assert(err == nil && len(out.Results) == n && len(res.Results) == n, "responses survive")
	for i := range out.Results {
		a, b := out.Results[i], res.Results[i]
		vsym.Assert(vsym.Eq(a.ID[:], b.ID[:]) && a.Host.Equal(b.Host) && a.Port == b.Port && a.Address == b.Address, "IDs survive in order")
	}
	vsym.Reach("end")
}

// WireHostile: arbitrary bytes are decoded or refused, without crashing, and
// what is decoded is what the bytes say.
func WireHostile() {
	n := vsym.Choose("n", vsym.Param("n", 4))
	cut := 0
	head := vsym.Bytes("b", n)
	if vsym.Choose("ids", 2) == 1 && n > 0 {
		// whole IDs follow the count
		k := vsym.Choose("k", 3)
		for i := 0; i < k; i++ {
			id := mkID(noise.PublicKey{1}, 1, 2)
			head = append(head[:len(head):len(head)], id.Marshal()...)
		}
		head = append(head[:1:1], head[n:]...)
		if len(head) > 1 {
			cut = vsym.Choose("cut", 2)
			head = head[:len(head)-cut*7]
		}
	}
	res, err := kademlia.UnmarshalFindNodeResponse(append([]byte{}, head...))
	if len(head) == 0 {
		vsym.Assert(err != nil, "an empty response is refused")
		vsym.Reach("empty")
	} else if err == nil {
		vsym.Assert(len(res.Results) == int(head[0]), "as many IDs as announced")
		at := 1
		for _, id := range res.Results {
			m := id.Marshal()
			vsym.Assert(len(head) >= at+len(m) && vsym.Eq(head[at:at+32], id.ID[:]), "IDs are those of the bytes")
			at += len(m)
		}
		vsym.Reach("decoded")
	} else {
		vsym.Assert(len(res.Results) == 0, "nothing is decoded with an error")
		vsym.Reach("refused")
	}
	m := vsym.Choose("m", 3) + 31
	_, err = kademlia.UnmarshalFindNodeRequest(make([]byte, m))
	vsym.Assert((err == nil) == (m == 32), "requests have one size")
	vsym.Reach("end")
}

// WireNode: nodes speaking the protocol understand each other's encodings.
func WireNode() {
	n, _ := kad(nil)
	m, _ := kad(nil)
	var t noise.PublicKey
	copy(t[:], vsym.Bytes("t", 32))
	b, err := n.EncodeMessage(kademlia.FindNodeRequest{Target: t})
	vsym.Assert(err == nil, "encode")
	o, err := m.DecodeMessage(b)
	vsym.Assert(err == nil, "decode")
	r, ok := o.(kademlia.FindNodeRequest)
	vsym.Assert(ok && vsym.Eq(r.Target[:], t[:]), "the request survives")
	for i, s := range []noise.Serializable{kademlia.Ping{}, kademlia.Pong{}, kademlia.FindNodeResponse{Results: []noise.ID{n.ID(), m.ID()}}} {
		b, err := n.EncodeMessage(s)
		vsym.Assert(err == nil, "encode")
		o, err := m.DecodeMessage(b)
		vsym.Assert(err == nil, "decode")
		switch v := o.(type) {
		case kademlia.Ping:
			vsym.Assert(i == 0, "same type")
		case kademlia.Pong:
			vsym.Assert(i == 1, "same type")
		case kademlia.FindNodeResponse:
			vsym.Assert(i == 2 && len(v.Results) == 2 && same(v.Results[0], n.ID()) && same(v.Results[1], m.ID()), "same IDs")
		default:
			vsym.Assert(false, "a protocol message")
		}
	}
	vsym.Reach("end")
}

// ---------------------------------------------------------------- nodes

type kadEvents struct {
	admitted, active, evicted []noise.PublicKey
}

func kad(ev *kadEvents, opts ...noise.NodeOption) (*noise.Node, *kademlia.Protocol) {
	n := hx.Node(append([]noise.NodeOption{noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1)}, opts...)...)
	po := []kademlia.ProtocolOption{kademlia.WithProtocolPingTimeout(time.Second)}
	if ev != nil {
		po = append(po, kademlia.WithProtocolEvents(kademlia.Events{
			OnPeerAdmitted: func(id noise.ID) { ev.admitted = append(ev.admitted, id.ID) },
			OnPeerActivity: func(id noise.ID) { ev.active = append(ev.active, id.ID) },
			OnPeerEvicted:  func(id noise.ID) { ev.evicted = append(ev.evicted, id.ID) },
		}))
	}
	k := kademlia.New(po...)
	n.Bind(k.Protocol())
	hx.Must(n.Listen())
	return n, k
}

// op is the number under which the protocol's messages are registered.
func opOf(n *noise.Node, m noise.Serializable) []byte { return encoded(n, m)[:2] }

func encoded(n *noise.Node, m noise.Serializable) []byte {
	b, err := n.EncodeMessage(m)
	hx.Must(err)
	return b
}

// ---------------------------------------------------------------- C24

// loopback makes the ID of a raw peer at a harness listener.
func loopback(pk noise.PublicKey, l *vnet.Listener) noise.ID {
	return noise.NewID(pk, net.IPv4(127, 0, 0, 1), uint16(l.Port()))
}

// keysIn makes a key pair which differs from self in the first bit.
func keysIn(self noise.PublicKey) (noise.PublicKey, noise.PrivateKey) { return keysAt(self, 0x80) }

func keysAt(self noise.PublicKey, bit byte) (noise.PublicKey, noise.PrivateKey) {
	for {
		pub, sec := hx.Keys()
		if d := pub[0] ^ self[0]; d >= bit && d < 2*bit || bit == 0x80 && d >= bit {
			return pub, sec
		}
	}
}

// Admission: a peer is admitted while its bucket has room; a full bucket keeps
// a peer that answers and replaces one that does not.
func Admission() {
	ev := &kadEvents{}
	n, k := kad(ev)
	self := n.ID().ID
	tb := k.Table()
	// The least recently active peer is a live one of the harness.
	mode := vsym.Choose("mode", 6)
	twin, bit := 0, byte(0x80)
	if mode != 3 && mode != 5 {
		twin = vsym.Choose("twin", 3)
		if twin == 2 {
			bit = 0x40
		}
	}
	pub, sec := keysAt(self, bit)
	l := vnet.Raw()
	old := loopback(pub, l)
	pings := 0
	vsym.Go(func() {
		for {
			c := l.AcceptRaw()
			if c == nil {
				return
			}
			p := hx.NewPeer(c, 1, 1)
			p.Pub, p.Sec, p.ID = pub, sec, old
			if mode == 3 { // fails the handshake
				c.Close()
				continue
			}
			if !p.Handshake() {
				continue
			}
			nonce, d, ok := p.Recv()
			if !ok {
				continue
			}
			vsym.Assert(nonce != 0 && bytes.Equal(d, opOf(n, kademlia.Ping{})), "the peer is pinged")
			pings++
			switch mode {
			case 0:
				p.Send(nonce, opOf(n, kademlia.Pong{}))
			case 1: // answers with something else
				p.Send(nonce, opOf(n, kademlia.Ping{}))
			case 2:
				c.Close()
			case 4: // never answers
			}
		}
	})
	if mode == 5 { // is gone
		l.Close()
	}
	other := self
	if twin == 2 { // one of another bucket says it is where the oldest one is
		other[0] ^= 0x80
		id := old
		id.ID = other
		k.Ack(id)
		vsym.Assert(len(ev.admitted) == 1 && tb.Recorded(other), "the other peer is admitted")
		ev.admitted = nil
	}
	k.Ack(old)
	vsym.Assert(len(ev.admitted) == 1 && ev.admitted[0] == pub && len(ev.evicted) == 0, "the first peer is admitted")
	k.Ack(old)
	vsym.Assert(len(ev.admitted) == 1 && len(ev.active) == 1 && ev.active[0] == pub, "seeing it again is activity")
	fill := 14 + vsym.Choose("fill", 2)
	mk := func(i int) noise.ID {
		pk := self
		pk[0] ^= bit
		pk[1] ^= byte(i)
		pk[31] ^= 0x55
		return noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
	}
	for i := 0; i < fill; i++ {
		id := mk(i)
		if twin == 1 && i == 1 { // says it is where the oldest one is
			id.Host, id.Port, id.Address = old.Host, old.Port, old.Address
		}
		k.Ack(id)
	}
	vsym.Assert(len(ev.admitted) == fill+1, "peers are admitted while there is room")
	newcomer := mk(40)
	before := len(ev.active)
	k.Ack(newcomer)
	vsym.Quiesce()
	extra := 1
	if twin == 2 {
		extra++
		vsym.Assert(tb.Recorded(other), "the other peer stays")
	}
	vsym.Assert(tb.NumEntries() == extra+len(ev.admitted)-len(ev.evicted), "the events account for the table")
	if fill == 14 {
		vsym.Assert(tb.Recorded(newcomer.ID) && tb.Recorded(pub) && pings == 0 && len(ev.evicted) == 0, "there was room")
		vsym.Reach("room")
		return
	}
	b := tb.Bucket(pub)
	vsym.Assert(len(b) == kademlia.BucketSize, "the bucket stays full")
	for _, pk := range ev.active[before:] {
		vsym.Assert(pk == pub, "the newcomer is not active")
	}
	for i := 0; i < fill; i++ {
		vsym.Assert(tb.Recorded(mk(i).ID), "other peers stay")
	}
	if mode == 0 {
		vsym.Assert(pings == 1 && tb.Recorded(pub) && !tb.Recorded(newcomer.ID), "a peer that answers is kept")
		vsym.Assert(len(ev.evicted) == 0 && len(ev.admitted) == fill+1, "nobody is admitted or evicted")
		vsym.Assert(b[0].ID == pub && len(ev.active) > before, "answering counts as activity")
		vsym.Reach("kept")
		return
	}
	vsym.Assert(!tb.Recorded(pub) && tb.Recorded(newcomer.ID), "a peer that does not answer is replaced")
	vsym.Assert(len(ev.evicted) == 1 && ev.evicted[0] == pub, "it is reported as evicted once")
	vsym.Assert(len(ev.admitted) == fill+2 && ev.admitted[fill+1] == newcomer.ID, "the newcomer is reported as admitted")
	vsym.Reach("replaced")
}

// AdmissionRace: newcomers that meet at a full bucket of peers which are gone
// are all admitted, each in the place of one.
func AdmissionRace() {
	ev := &kadEvents{}
	n, k := kad(ev)
	self := n.ID().ID
	tb := k.Table()
	mk := func(i int) noise.ID {
		pk := self
		pk[0] ^= 0x80
		pk[1] ^= byte(i)
		pk[31] ^= 0x55
		return noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
	}
	for i := 0; i < kademlia.BucketSize; i++ {
		k.Ack(mk(i))
	}
	vsym.Assert(len(ev.admitted) == kademlia.BucketSize, "peers are admitted while there is room")
	vsym.Explore(vsym.Param("delays", 1))
	if vsym.Choose("also", 2) == 1 { // one leaves meanwhile
		e := hx.Done(func() {
			id, ok := tb.Delete(mk(0).ID)
			vsym.Assert(!ok || id.ID == mk(0).ID, "what was deleted")
		})
		d := hx.Done(func() { k.Ack(mk(40)) })
		<-d
		<-e
		vsym.Quiesce()
		vsym.Assert(tb.Recorded(mk(40).ID) && len(tb.Bucket(mk(40).ID)) <= kademlia.BucketSize, "the newcomer is admitted")
		vsym.Reach("left")
		return
	}
	d := hx.Done(func() { k.Ack(mk(40)) })
	e := hx.Done(func() { k.Ack(mk(41)) })
	<-d
	<-e
	vsym.Quiesce()
	vsym.Assert(tb.Recorded(mk(40).ID) && tb.Recorded(mk(41).ID), "the newcomers are admitted")
	vsym.Assert(len(tb.Bucket(mk(40).ID)) == kademlia.BucketSize && len(ev.evicted) == 2, "in the place of as many others")
	vsym.Assert(ev.evicted[0] != ev.evicted[1] && !tb.Recorded(ev.evicted[0]) && !tb.Recorded(ev.evicted[1]), "which are gone")
	vsym.Assert(tb.NumEntries() == 1+len(ev.admitted)-len(ev.evicted), "the events account for the table")
	vsym.Reach("end")
}

// PingFailed: a peer that cannot be dialed is evicted, others stay.
func PingFailed() {
	ev := &kadEvents{}
	n, k := kad(ev)
	l, m := vnet.Raw(), vnet.Raw()
	pk1, _ := hx.Keys()
	pk2, _ := hx.Keys()
	a, b := loopback(pk1, l), loopback(pk2, m)
	k.Ack(a)
	k.Ack(b)
	for i := 0; i < 3; i++ { // others at addresses that look alike
		pk := pk1
		pk[0] ^= 0x80
		pk[9] ^= byte(i + 1)
		k.Ack([]noise.ID{noise.NewID(pk, net.IPv4(10, 0, 0, 1), a.Port), noise.NewID(pk, net.IPv4(10, 0, 0, 1), a.Port/10), noise.NewID(pk, nil, a.Port/10)}[i])
	}
	others := k.Table().NumEntries()
	vsym.Assert(others == 6, "peers are admitted while there is room")
	l.Close()
	m.Close()
	vsym.Explore(vsym.Param("delays", 1))
	known := vsym.Choose("known", 2) == 0
	addr := a.Address
	if !known {
		addr = ":9"
	}
	var err error
	switch vsym.Choose("how", 4) {
	case 0:
		_, err = n.Ping(hx.BG(), addr)
	case 1:
		err = n.Send(hx.BG(), addr, []byte{1})
	case 2:
		_, err = n.Request(hx.BG(), addr, []byte{1})
	case 3:
		err = k.Ping(hx.BG(), addr)
	}
	vsym.Assert(err != nil, "the peer cannot be reached")
	vsym.Quiesce()
	vsym.Assert(k.Table().Recorded(pk1) == !known && k.Table().Recorded(pk2), "exactly the unreachable peer is evicted")
	vsym.Assert(k.Table().NumEntries() == others-b2i(known), "nobody else is")
	vsym.Assert(len(ev.evicted) == b2i(known) && (!known || ev.evicted[0] == pk1), "and reported once")
	vsym.Reach("end")
}

// Meeting: connecting admits both sides into each other's table, under their
// proven identity.
func Meeting() {
	ea, eb := &kadEvents{}, &kadEvents{}
	a, ka := kad(ea)
	b, kb := kad(eb)
	vsym.Explore(vsym.Param("delays", 1))
	switch vsym.Choose("how", 3) {
	case 0:
		_, err := a.Ping(hx.BG(), b.Addr())
		vsym.Assert(err == nil, "ping")
	case 1:
		vsym.Assert(ka.Ping(hx.BG(), b.Addr()) == nil, "overlay ping")
	case 2:
		d := hx.Done(func() { vsym.Assert(ka.Ping(hx.BG(), b.Addr()) == nil, "overlay ping") })
		vsym.Assert(kb.Ping(hx.BG(), a.Addr()) == nil, "overlay ping")
		<-d
	}
	vsym.Quiesce()
	vsym.Assert(len(ea.admitted) == 1 && ea.admitted[0] == b.ID().ID && ka.Table().Recorded(b.ID().ID), "the dialer admits the listener")
	vsym.Assert(len(eb.admitted) == 1 && eb.admitted[0] == a.ID().ID && kb.Table().Recorded(a.ID().ID), "the listener admits the dialer")
	vsym.Assert(len(ea.evicted)+len(eb.evicted) == 0, "nobody is evicted")
	vsym.Assert(ka.Table().NumEntries() == 2 && kb.Table().NumEntries() == 2, "nobody else is admitted")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C25

// Discovery: in a chain of nodes a search finds every live node it can learn
// of, sorted, without duplicates, itself, or the target.
func Discovery() {
	k := vsym.Param("nodes", 4)
	var ns []*noise.Node
	var ks []*kademlia.Protocol
	for i := 0; i < k; i++ {
		n, p := kad(nil)
		ns, ks = append(ns, n), append(ks, p)
	}
	for i := 0; i+1 < k; i++ {
		vsym.Assert(ks[i].Ping(hx.BG(), ns[i+1].Addr()) == nil, "overlay ping")
	}
	vsym.Quiesce()
	var opts []kademlia.IteratorOption
	par := 1 + vsym.Choose("par", 2)*2
	req := 1 + vsym.Choose("req", 2)*7
	opts = append(opts, kademlia.WithIteratorNumParallelLookups(par), kademlia.WithIteratorNumParallelRequestsPerLookup(req), kademlia.WithIteratorLookupTimeout(2*time.Second))
	max := 16
	if vsym.Choose("max", 2) == 1 {
		max = 1 + vsym.Choose("maxn", 2)
		opts = append(opts, kademlia.WithIteratorMaxNumResults(max))
	}
	dead := vsym.Choose("dead", 2) == 1
	if dead {
		ns[k-1].Close()
		vsym.Quiesce()
	}
	target := ns[0].ID().ID
	which := vsym.Choose("target", 3)
	switch which {
	case 1:
		target = ns[k-2].ID().ID
	case 2:
		target[0] ^= 0xff
	}
	vsym.Explore(vsym.Param("delays", 0))
	var got []noise.ID
	if which == 0 {
		got = ks[0].Discover(opts...)
	} else {
		got = ks[0].Find(target, opts...)
	}
	live := k - 1
	if dead {
		live--
	}
	if which == 1 {
		live-- // the target is not asked itself
		if k-2 == 1 {
			vsym.Assert(len(got) == 0 || got[0].ID != target, "the target is not among its own results")
			vsym.Reach("end")
			return
		}
	}
	want := 0
	for i := 1; i < k; i++ {
		if dead && i == k-1 || which == 1 && i >= k-2 {
			continue // dead, or only known to the target
		}
		want++
	}
	if want > max {
		want = max
	}
	if which == 1 {
		vsym.Assert(len(got) >= want || len(got) == max, "live peers are found")
	} else {
		vsym.Assert(len(got) == want, "exactly the live peers are found")
	}
	seen := map[noise.PublicKey]bool{}
	for i, id := range got {
		vsym.Assert(!seen[id.ID] && id.ID != ns[0].ID().ID && id.ID != target, "no duplicates, nor itself or the target")
		seen[id.ID] = true
		vsym.Assert(!dead || id.ID != ns[k-1].ID().ID, "peers that do not answer are not results")
		if i > 0 {
			vsym.Assert(less(target, got[i-1].ID, id.ID), "closest first")
		}
	}
	if max < 16 && which == 0 { // the closest of all
		for i := 1; i < k; i++ {
			id := ns[i].ID().ID
			if seen[id] || dead && i == k-1 {
				continue
			}
			vsym.Assert(!less(target, id, got[len(got)-1].ID), "the closest ones are returned")
		}
	}
	vsym.Reach("end")
}

// SearchHostile: peers answering a search with anything: it ends, and returns
// the peers that answered.
func SearchHostile() {
	n, k := kad(nil)
	good, _ := kad(nil)
	vsym.Assert(k.Ping(hx.BG(), good.Addr()) == nil, "overlay ping")
	mode := vsym.Choose("mode", 8)
	x := vsym.Bytes("x", 3)
	p, _, _ := dialable(n)
	vsym.Quiesce()
	vsym.Assert(k.Table().NumEntries() == 3, "both are known")
	answered := false
	vsym.Go(func() {
		for {
			nonce, d, ok := p.Recv()
			if !ok {
				return
			}
			if nonce == 0 || len(d) < 2 || d[0] != opOf(n, kademlia.FindNodeRequest{})[0] {
				continue
			}
			find := append([]byte{}, opOf(n, kademlia.FindNodeResponse{})...)
			switch mode {
			case 0: // an empty result
				p.Send(nonce, append(find, 0))
				answered = true
			case 1: // another message
				p.Send(nonce, opOf(n, kademlia.Pong{}))
			case 2: // not a message
				p.Send(nonce, x[:vsym.Choose("n", 2)])
			case 3: // more results than there are
				p.Send(nonce, append(find, 200, x[0], x[1]))
			case 4: // closes
				p.C.Close()
			case 5: // itself, the asking node, and a dead one, twice
				pk, _ := hx.Keys()
				r := kademlia.FindNodeResponse{Results: []noise.ID{p.ID, n.ID(), noise.NewID(pk, net.IPv4(127, 0, 0, 1), 9), noise.NewID(pk, net.IPv4(127, 0, 0, 1), 9)}}
				p.Send(nonce, append(find, r.Marshal()...))
				answered = true
			case 6: // nobody's key at nobody's address
				r := kademlia.FindNodeResponse{Results: []noise.ID{{}, noise.NewID(noise.PublicKey{x[0]}, net.IP{[]byte{0, 10, 127, 224}[vsym.Choose("ip", 4)], 0, 0, 0}, 0)}}
				p.Send(nonce, append(find, r.Marshal()...))
				answered = true
			case 7: // does not answer
			}
		}
	})
	got := k.Discover(kademlia.WithIteratorLookupTimeout(time.Second), kademlia.WithIteratorNumParallelLookups(1+vsym.Choose("par", 2)))
	vsym.Quiesce()
	hasGood, hasPeer := 0, 0
	for _, id := range got {
		if id.ID == good.ID().ID {
			hasGood++
		} else if id.ID == p.Pub {
			hasPeer++
		} else {
			vsym.Assert(false, "only peers that answered are returned")
		}
	}
	vsym.Assert(hasGood == 1, "the honest peer is found")
	vsym.Assert(hasPeer == b2i(answered), "the other one if it answered")
	vsym.Assert(k.Table().Recorded(p.Pub) && k.Table().NumEntries() == 3, "and nobody is evicted")
	vsym.Reach("end")
}

// ---------------------------------------------------------------- C37

// asked is a raw peer that withholds its answers to a search.
type asked struct {
	p       *hx.Peer
	nonces  []uint64 // of the requests not answered yet
	total   int
	targets [][]byte
}

// known makes n raw peers the node has in its table.
func known(n *noise.Node, k int) []*asked {
	var as []*asked
	op := opOf(n, kademlia.FindNodeRequest{})
	for i := 0; i < k; i++ {
		a := &asked{}
		a.p, _, _ = dialable(n)
		as = append(as, a)
		vsym.Go(func() {
			for {
				nonce, d, ok := a.p.Recv()
				if !ok {
					return
				}
				if nonce == 0 || len(d) < 2 || !bytes.Equal(d[:2], op) {
					continue
				}
				a.total++
				a.nonces = append(a.nonces, nonce)
				a.targets = append(a.targets, d[2:])
			}
		})
	}
	vsym.Quiesce()
	return as
}

// SearchLimits: a search never has more requests under way than configured,
// asks nobody twice, returns no more results than configured, and asks about
// what is searched for.
func SearchLimits() {
	n, k := kad(nil)
	num := vsym.Param("peers", 4)
	as := known(n, num)
	vsym.Assert(k.Table().NumEntries() == num+1, "all are known")
	// Two more, which are learned of during the search.
	var more []noise.ID
	for i := 0; i < 2; i++ {
		pk, _ := hx.Keys()
		more = append(more, noise.NewID(pk, net.IPv4(10, 9, 9, byte(i)), uint16(60000+i)))
	}
	par, req := []int{1, 2, 3}[vsym.Choose("par", vsym.Param("pars", 2))], 1+vsym.Choose("req", 2)
	max := []int{2, 16, 1}[vsym.Choose("max", vsym.Param("maxs", 2))]
	var target noise.PublicKey
	copy(target[:], vsym.Bytes("target", 2))
	target[5] = 0x77
	tells := vsym.Choose("tells", 2) == 1
	var got []noise.ID
	vsym.Explore(vsym.Param("delays", 0))
	d := hx.Done(func() {
		opts := []kademlia.IteratorOption{kademlia.WithIteratorNumParallelLookups(par), kademlia.WithIteratorNumParallelRequestsPerLookup(req),
			kademlia.WithIteratorMaxNumResults(max), kademlia.WithIteratorLookupTimeout(7 * time.Second)}
		if max == 2 { // in any order
			opts[0], opts[1], opts[2], opts[3] = opts[3], opts[2], opts[1], opts[0]
		}
		got = k.Find(target, opts...)
	})
	for left := num; left > 0; left-- {
		vsym.Quiesce()
		var open []*asked
		for _, a := range as {
			vsym.Assert(len(a.nonces) <= 1 && a.total <= 1, "nobody is asked twice")
			if len(a.nonces) == 1 {
				open = append(open, a)
			}
		}
		vsym.Assert(len(open) > 0, "the search goes on while there is somebody to ask")
		vsym.Assert(len(open) <= par*req, "no more requests are under way than configured")
		a := open[0]
		if vsym.Choose("last", 2) == 1 {
			a = open[len(open)-1]
		}
		r := kademlia.FindNodeResponse{}
		if tells {
			r.Results = []noise.ID{as[0].p.ID, more[0], a.p.ID, more[1], n.ID()}
		}
		nonce := a.nonces[0]
		a.nonces = nil
		body, err := n.EncodeMessage(r)
		vsym.Assert(err == nil, "encode")
		a.p.Send(nonce, body)
	}
	<-d
	want := num
	if max < want {
		want = max
	}
	vsym.Assert(len(got) == want, "as many results as there are, and no more than configured")
	for _, a := range as {
		vsym.Assert(a.total == 1 && len(a.targets[0]) == 32 && vsym.Eq(a.targets[0], target[:]), "everybody is asked about the target")
	}
	for i := range more {
		want := 0
		if tells {
			want = 1
		}
		vsym.Assert(vnet.Dials(60000+i) == want, "peers told of several times are dialed once")
		vsym.Assert(!k.Table().Recorded(more[i].ID), "peers only told of are not recorded")
	}
	for i := 1; i < len(got); i++ {
		vsym.Assert(less(target, got[i-1].ID, got[i].ID), "closest first")
	}
	for _, a := range as { // nobody closer is left out
		in := false
		for _, id := range got {
			in = in || id.ID == a.p.Pub
		}
		vsym.Assert(in || !less(target, a.p.Pub, got[len(got)-1].ID), "the closest ones are returned")
	}
	vsym.Reach("end")
}

// SearchAgain: a search finds what there is to be found whatever was searched
// for before, with the same iterator or another.
func SearchAgain() {
	n, k := kad(nil)
	s, _, _ := dialable(n)
	pk, sec := hx.Keys()
	l := vnet.Raw()
	q := loopback(pk, l)
	vsym.Go(func() {
		for {
			c := l.AcceptRaw()
			if c == nil {
				return
			}
			vsym.Go(func() {
				p := hx.NewPeer(c, 3, 3)
				p.Pub, p.Sec, p.ID = pk, sec, q
				if !p.Handshake() {
					return
				}
				for {
					nonce, _, ok := p.Recv()
					if !ok {
						return
					}
					p.Send(nonce, encoded(n, kademlia.FindNodeResponse{}))
				}
			})
		}
	})
	vsym.Go(func() {
		for {
			nonce, _, ok := s.Recv()
			if !ok {
				return
			}
			s.Send(nonce, encoded(n, kademlia.FindNodeResponse{Results: []noise.ID{q}}))
		}
	})
	vsym.Quiesce()
	vsym.Explore(vsym.Param("delays", 0))
	it := kademlia.NewIterator(n, k.Table(), kademlia.WithIteratorNumParallelLookups(1+vsym.Choose("par", 2)))
	first := noise.PublicKey{7}
	switch vsym.Choose("before", 3) {
	case 0: // it could not be reached
		vnet.FailDials(l.Port(), 1)
	case 1: // it was the target
		first = pk
	case 2: // it was found
	}
	got := it.Find(first)
	vsym.Assert(len(got) >= 1, "a search finds the live peers")
	vnet.FailDials(l.Port(), 0)
	if vsym.Choose("same", 2) == 1 {
		it = kademlia.NewIterator(n, k.Table())
	}
	var target noise.PublicKey
	copy(target[:], vsym.Bytes("target", 1))
	target[5] = 0x77
	got = it.Find(target)
	in := map[noise.PublicKey]int{}
	for _, id := range got {
		in[id.ID]++
	}
	vsym.Assert(len(got) == 2 && in[pk] == 1 && in[s.Pub] == 1, "the next one finds all of them")
	vsym.Reach("end")
}

// all reports whether there are waits, each of them this long.
func all(ws []time.Duration, d time.Duration) bool {
	for _, w := range ws {
		if w != d {
			return false
		}
	}
	return len(ws) > 0
}

// Timeouts: requests of a search and pings are given the time configured.
func Timeouts() {
	n := hx.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxDialAttempts(1))
	ping, lookup := 3*time.Second, 3*time.Second
	var po []kademlia.ProtocolOption
	if vsym.Choose("ping", 2) == 1 {
		ping = 5 * time.Second
		po = append(po, kademlia.WithProtocolPingTimeout(ping))
	}
	var io []kademlia.IteratorOption
	if vsym.Choose("lookup", 2) == 1 {
		lookup = 7 * time.Second
		io = append(io, kademlia.WithIteratorLookupTimeout(lookup))
	}
	k := kademlia.New(po...)
	n.Bind(k.Protocol())
	hx.Must(n.Listen())
	search := vsym.Choose("what", 2) == 0
	silent := 1
	if search {
		silent += vsym.Choose("silent", 2)
	}
	as := known(n, silent)
	a := as[0]
	before := len(vmodel.Waits())
	if search {
		good, _ := kad(nil)
		live := 0
		if vsym.Choose("good", 2) == 1 { // another one does answer
			live = 1
			vsym.Assert(k.Ping(hx.BG(), good.Addr()) == nil, "overlay ping")
			vsym.Quiesce()
		}
		io = append(io, kademlia.WithIteratorNumParallelLookups(1+vsym.Choose("par", 2)), kademlia.WithIteratorNumParallelRequestsPerLookup(1+vsym.Choose("req", 2)))
		before = len(vmodel.Waits())
		got := k.Discover(io...)
		vsym.Assert(len(got) == live && (live == 0 || got[0].ID == good.ID().ID), "peers that do not answer are no results, and do not keep others from being found")
		for _, a := range as {
			vsym.Assert(a.total == 1, "everybody is asked")
			vsym.Assert(k.Table().Recorded(a.p.Pub), "and nobody is evicted")
		}
		ws := vmodel.Waits()[before:]
		vsym.Assert(all(ws, lookup) && len(ws) == silent+live, "each request of a search is given the lookup timeout")
		vsym.Reach("lookup")
		return
	}
	self := n.ID().ID
	mk := func(i int) noise.ID {
		pk := a.p.Pub
		pk[31] ^= byte(i + 1)
		return noise.NewID(pk, net.IPv4(10, 0, 1, byte(i)), uint16(100+i))
	}
	if (a.p.Pub[0]^self[0])&0x80 == 0 && prefix(a.p.Pub, self) > 200 {
		return
	}
	for i := 0; i < 15; i++ {
		k.Ack(mk(i))
	}
	vsym.Assert(len(vmodel.Waits()) == before, "nobody is pinged while there is room")
	k.Ack(mk(15))
	ws := vmodel.Waits()[before:]
	vsym.Assert(all(ws, ping), "a ping is given the ping timeout")
	vsym.Assert(!k.Table().Recorded(a.p.Pub) && k.Table().Recorded(mk(15).ID), "and the peer is replaced")
	vsym.Reach("ping")
}

// SearchWide: everybody who is told of is asked, however many there are and
// however many are told of at once.
func SearchWide() {
	n, k := kad(nil)
	num := vsym.Param("peers", 3)
	as := known(n, num)
	var target noise.PublicKey
	copy(target[:], vsym.Bytes("target", 1))
	par, req := 1+vsym.Choose("par", 2), []int{1, 8}[vsym.Choose("req", 2)]
	var got []noise.ID
	vsym.Explore(vsym.Param("delays", 0))
	d := hx.Done(func() {
		got = k.Find(target, kademlia.WithIteratorNumParallelLookups(par), kademlia.WithIteratorNumParallelRequestsPerLookup(req))
	})
	each := []int{5, 16}[vsym.Choose("each", 2)]
	for i := 0; i < num; i++ {
		vsym.Quiesce()
		for _, a := range as {
			for len(a.nonces) > 0 {
				r := kademlia.FindNodeResponse{}
				for j := 0; j < each; j++ {
					pk := noise.PublicKey{0: byte(j), 1: byte(a.p.ID.Port), 2: byte(a.p.ID.Port >> 8), 30: 1}
					r.Results = append(r.Results, noise.NewID(pk, net.IPv4(10, 9, 9, 9), uint16(20000+100*int(a.p.ID.Port-as[0].p.ID.Port)+j)))
				}
				nonce := a.nonces[0]
				a.nonces = a.nonces[1:]
				body, err := n.EncodeMessage(r)
				vsym.Assert(err == nil, "encode")
				a.p.Send(nonce, body)
			}
		}
	}
	<-d
	vsym.Assert(len(got) == num, "those who answer are found")
	for _, a := range as {
		vsym.Assert(a.total == 1, "everybody is asked once")
		for j := 0; j < each; j++ {
			vsym.Assert(vnet.Dials(20000+100*int(a.p.ID.Port-as[0].p.ID.Port)+j) == 1, "everybody who is told of is asked once")
		}
	}
	vsym.Reach("end")
}

// Activity: whoever messages are exchanged with is the most recently seen of
// its bucket, and is admitted again should it have been evicted.
func Activity() {
	ev := &kadEvents{}
	n, k := kad(ev)
	tb := k.Table()
	var ps []*hx.Peer
	var ls []*vnet.Listener
	var order []noise.PublicKey // most recently seen first
	front := func(pk noise.PublicKey) {
		next := []noise.PublicKey{pk}
		for _, o := range order {
			if o != pk {
				next = append(next, o)
			}
		}
		order = next
	}
	for i := 0; i < 3; i++ {
		l := vnet.Raw()
		var p *hx.Peer
		d := hx.Done(func() {
			p = hx.NewPeer(l.AcceptRaw(), byte(i), 1)
			p.Pub, p.Sec = keysIn(n.ID().ID)
			p.ID = loopback(p.Pub, l)
			vsym.Assert(p.Handshake(), "handshake completes")
		})
		_, err := n.Ping(hx.BG(), l.HostPort())
		<-d
		vsym.Assert(err == nil, "ping")
		vsym.Quiesce()
		front(p.Pub)
		ps, ls = append(ps, p), append(ls, l)
	}
	vsym.Assert(len(ev.admitted) == 3, "all are admitted")
	for s := 0; s < vsym.Param("steps", 2); s++ {
		i := vsym.Choose("who", 3)
		p := ps[i]
		gone := vsym.Choose("evicted", 2) == 1
		if gone {
			_, ok := tb.Delete(p.Pub)
			vsym.Assert(ok, "it was recorded")
		}
		act, adm := len(ev.active), len(ev.admitted)
		pk, _ := hx.Keys()
		switch vsym.Choose("what", 5) {
		case 4: // tells of somebody without being asked
			p.Send([]uint64{0, 9}[vsym.Choose("nonce", 2)], encoded(n, kademlia.FindNodeResponse{Results: []noise.ID{noise.NewID(pk, net.IPv4(10, 9, 9, 9), 999)}}))
		case 0:
			p.Send(0, append([]byte{0xff, 0xff}, vsym.Bytes("x", 3)...)) // of no protocol
		case 1:
			vsym.Assert(n.Send(hx.BG(), ls[i].HostPort(), []byte{1}) == nil, "send")
			p.Recv()
		case 2:
			r := ask(n, hx.BG(), ls[i].HostPort(), []byte{2})
			nonce, _, ok := p.Recv()
			vsym.Assert(ok, "request")
			p.Send(nonce, []byte{3})
			<-r.done
			vsym.Assert(r.err == nil, "answered")
		case 3:
			p.Send(9, opOf(n, kademlia.Ping{}))
			nonce, d, ok := p.Recv()
			vsym.Assert(ok && nonce == 9 && bytes.Equal(d, opOf(n, kademlia.Pong{})), "it is answered")
		}
		vsym.Quiesce()
		front(p.Pub)
		if gone {
			vsym.Assert(len(ev.admitted) == adm+1 && ev.admitted[adm] == p.Pub, "it is admitted again")
		} else {
			vsym.Assert(len(ev.active) > act && len(ev.admitted) == adm, "it is reported as active")
		}
		for _, a := range ev.active[act:] {
			vsym.Assert(a == p.Pub, "and nobody else")
		}
		b := tb.Bucket(p.Pub)
		vsym.Assert(len(b) == 3, "nobody is lost")
		for j := range b {
			vsym.Assert(b[j].ID == order[j], "the most recently seen are first")
		}
	}
	vsym.Assert(len(ev.evicted) == 0, "nobody is evicted")
	vsym.Reach("end")
}
