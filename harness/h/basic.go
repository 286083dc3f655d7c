// Package h holds the harnesses: each exported function is one harness.
package h

import (
	"net"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/hx"
	"github.com/perlin-network/noise/verif/vsym"
)

// IDRoundTrip: C17.
func IDRoundTrip() {
	var pk noise.PublicKey
	copy(pk[:], vsym.Bytes("pk", 32))
	v6 := vsym.Choose("iplen", 2) == 1
	var ip net.IP
	if v6 {
		ip = net.IP(vsym.Bytes("ip", 16))
	} else {
		ip = net.IP(vsym.Bytes("ip", 4))
	}
	port := vsym.U16("port")
	id := noise.NewID(pk, ip, port)
	b := id.Marshal()
	vsym.Assert(len(b) == id.Size(), "marshalled size")
	extra := vsym.Bytes("tail", 3)
	got, err := noise.UnmarshalID(append(append([]byte{}, b...), extra...))
	vsym.Assert(err == nil, "decodes")
	vsym.Assert(vsym.Eq(got.ID[:], pk[:]), "public key survives")
	vsym.Assert(vsym.Eq(got.Host.To16(), ip.To16()), "host survives")
	vsym.Assert(got.Port == port, "port survives")
	vsym.Assert(got.Address == id.Address, "address survives")
	vsym.Reach("end")
}

// E2E smoke test.
func Smoke() {
	b := hx.Node()
	var got []byte
	b.Handle(func(ctx noise.HandlerContext) error {
		got = ctx.Data()
		return nil
	})
	hx.Must(b.Listen())
	a := hx.Listening()
	data := vsym.Bytes("data", 3)
	err := a.Send(hx.BG(), b.Addr(), data)
	if err != nil {
		vsym.Log(err.Error())
	}
	vsym.Assert(err == nil, "send")
	vsym.Quiesce()
	vsym.Assert(vsym.Eq(got, data), "delivered")
	vsym.Reach("end")
}
