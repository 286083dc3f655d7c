package h

import (
	"crypto/sha512"
	"math/big"

	"github.com/oasislabs/ed25519"
	"golang.org/x/crypto/curve25519"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/verif/vsym"
)

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

func reversed(b []byte) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return r
}

// montgomery is the 32-byte u-coordinate of an Ed25519 public key by the
// formula of RFC 7748: u = (1+y)/(1-y), which is 0 for y = 1.
func montgomery(pub noise.PublicKey) []byte {
	le := append([]byte(nil), pub[:]...)
	le[31] &= 127
	y := new(big.Int).SetBytes(reversed(le))
	one := big.NewInt(1)
	inv := new(big.Int).ModInverse(new(big.Int).Sub(one, y), fieldP)
	if inv == nil {
		return make([]byte, 32)
	}
	u := new(big.Int).Mul(new(big.Int).Add(one, y), inv)
	u.Mod(u, fieldP)
	return reversed(u.FillBytes(make([]byte, 32)))
}

// withU returns the key whose u-coordinate is u.
func withU(u *big.Int) (pub noise.PublicKey) {
	one := big.NewInt(1)
	inv := new(big.Int).ModInverse(new(big.Int).Add(u, one), fieldP)
	y := new(big.Int).Mul(new(big.Int).Sub(u, one), inv)
	y.Mod(y, fieldP)
	copy(pub[:], reversed(y.FillBytes(make([]byte, 32))))
	return pub
}

func keyOf(k byte) (sec noise.PrivateKey) {
	seed := make([]byte, 32)
	seed[0], seed[31] = k, 7
	copy(sec[:], ed25519.NewKeyFromSeed(seed))
	return sec
}

func scalarOf(sec noise.PrivateKey) []byte {
	h := sha512.Sum512(sec[:32])
	return h[:32]
}

// checkECDH compares ECDH to the reference.
func checkECDH(sec noise.PrivateKey, pub noise.PublicKey) (low bool) {
	got, err := noise.ECDH(sec, pub)
	want, bad := curve25519.X25519(scalarOf(sec), montgomery(pub))
	if bad != nil {
		vsym.Assert(err != nil, "a public key of low order is refused")
		return true
	}
	vsym.Assert(err == nil, "a public key that is not of low order is accepted")
	vsym.Assert(len(got) == 32 && vsym.Eq(got, want), "the shared secret is X25519 of our scalar and the peer's u-coordinate")
	return false
}

// SharedSecret: for every 32-byte public key.
func SharedSecret() {
	var pub noise.PublicKey
	copy(pub[:], vsym.Bytes("pub", 32))
	if checkECDH(keyOf(byte(1+vsym.Choose("key", 2))), pub) {
		vsym.Reach("low")
	}
	vsym.Reach("end")
}

// SecretSizes: u-coordinates of every length in bytes, and the ends of the
// range, with either sign bit.
func SecretSizes() {
	n := vsym.Choose("size", 33)
	u := big.NewInt(5)
	if n < 32 {
		u = new(big.Int).Add(u, new(big.Int).Lsh(big.NewInt(int64(n+3)), uint(8*n)))
	} else {
		u = new(big.Int).Sub(fieldP, big.NewInt(2))
	}
	u.Mod(u, fieldP)
	pub := withU(u)
	if vsym.Bool("sign") {
		pub[31] |= 128
	}
	vsym.Assert(vsym.Eq(montgomery(pub), reversed(u.FillBytes(make([]byte, 32)))), "harness: conversions agree")
	checkECDH(keyOf(1), pub)
	vsym.Reach("end")
}

// LowOrder: the public keys of low order, by whichever encoding, are refused.
func LowOrder() {
	var pub noise.PublicKey
	put := func(v *big.Int) { copy(pub[:], reversed(v.FillBytes(make([]byte, 32)))) }
	one := big.NewInt(1)
	switch vsym.Choose("point", 5) {
	case 0: // the neutral element
		put(one)
	case 1: // the same, not reduced
		put(new(big.Int).Add(fieldP, one))
	case 2: // order 2
		put(new(big.Int).Sub(fieldP, one))
	case 3: // order 4
		put(new(big.Int))
	case 4: // order 4, not reduced
		put(fieldP)
	}
	if vsym.Bool("sign") {
		pub[31] |= 128
	}
	_, err := noise.ECDH(keyOf(1), pub)
	vsym.Assert(err != nil, "a public key of low order is refused")
	vsym.Reach("end")
}

// SecretAgreed: both sides derive the same secret, and others a different one.
func SecretAgreed() {
	i, j, k := byte(1+vsym.Choose("i", 4)), byte(1+vsym.Choose("j", 4)), byte(1+vsym.Choose("k", 4))
	a, b, c := keyOf(i), keyOf(j), keyOf(k)
	ab, err1 := noise.ECDH(a, b.Public())
	ba, err2 := noise.ECDH(b, a.Public())
	vsym.Assert(err1 == nil && err2 == nil, "honest keys are accepted")
	vsym.Assert(vsym.Eq(ab, ba), "both sides derive the same secret")
	base := make([]byte, 32)
	base[0] = 9
	pubB, _ := curve25519.X25519(scalarOf(b), append([]byte(nil), base...))
	want, _ := curve25519.X25519(scalarOf(a), pubB)
	vsym.Assert(vsym.Eq(ab, want), "the secret is that of the underlying Curve25519 keys")
	ac, err := noise.ECDH(a, c.Public())
	vsym.Assert(err == nil, "honest keys are accepted")
	vsym.Assert((j == k) == vsym.Eq(ab, ac), "different peers share different secrets")
	vsym.Reach("end")
}
