package vmodel

import (
	"io"

	"github.com/perlin-network/noise/verif/vsym"
)

var randCtr uint64

func stream(tag byte, n int) []byte {
	randCtr++
	var out []byte
	for k := byte(0); len(out) < n; k++ {
		c := randCtr
		out = append(out, vsym.HostSHA512([]byte{'r', tag, k, byte(c), byte(c >> 8), byte(c >> 16), byte(c >> 24)})...)
	}
	return out[:n]
}

// MathRead is math/rand.Read; CryptoRead is crypto/rand.Read: bytes that never
// repeat.
func MathRead(p []byte) (int, error) {
	copy(p, stream('m', len(p)))
	return len(p), nil
}

func CryptoRead(p []byte) (int, error) {
	copy(p, stream('c', len(p)))
	return len(p), nil
}

func RandInt63() int64 {
	b := stream('i', 8)
	v := int64(0)
	for _, x := range b {
		v = v<<8 | int64(x)
	}
	if v < 0 {
		v = -(v + 1)
	}
	return v
}

func RandUint64() uint64 { return uint64(RandInt63())<<1 ^ uint64(RandInt63()) }
func RandUint32() uint32 { return uint32(RandInt63() >> 20) }
func RandIntn(n int) int { return int(RandInt63() % int64(n)) }

type reader struct{}

func (reader) Read(p []byte) (int, error) { return CryptoRead(p) }

// Reader stands in for crypto/rand.Reader.
var Reader io.Reader = reader{}
