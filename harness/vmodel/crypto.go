package vmodel

import (
	"bytes"
	"crypto"
	"crypto/cipher"
	stded "crypto/ed25519"
	"errors"
	"hash"
	"io"
	"strconv"

	"github.com/oasislabs/ed25519"

	"github.com/perlin-network/noise/verif/vsym"
)

// ---------------------------------------------------------------- hashes

type hashRec struct{ in, out []byte }

var hashRecs []hashRec
var hashCtr int

// digest is an ideal hash: the real one on concrete input; on symbolic input
// equal inputs get equal digests and different inputs different ones.
func digest(alg byte, in []byte, host func([]byte) []byte) []byte {
	if !vsym.Symbolic(in) {
		out := host(in)
		hashRecs = append(hashRecs, hashRec{append([]byte{alg}, in...), out})
		return append([]byte(nil), out...)
	}
	key := append([]byte{alg}, in...)
	for _, r := range hashRecs {
		if len(r.in) == len(key) && vsym.Eq(r.in, key) {
			return append([]byte(nil), r.out...)
		}
	}
	hashCtr++
	out := host([]byte{'h', alg, byte(hashCtr), byte(hashCtr >> 8)})
	hashRecs = append(hashRecs, hashRec{key, out})
	return append([]byte(nil), out...)
}

func hs512(b []byte) []byte { return vsym.HostSHA512(b) }
func hs256(b []byte) []byte { return vsym.HostSHA256(b) }

func Sum512(b []byte) (r [64]byte) { copy(r[:], digest('5', b, hs512)); return }
func Sum256(b []byte) (r [32]byte) { copy(r[:], digest('2', b, hs256)); return }

type hasher struct {
	alg byte
	buf []byte
}

func (h *hasher) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *hasher) Sum(b []byte) []byte {
	if h.alg == '5' {
		return append(b, digest('5', h.buf, hs512)...)
	}
	return append(b, digest('2', h.buf, hs256)...)
}
func (h *hasher) Reset() { h.buf = nil }
func (h *hasher) Size() int {
	if h.alg == '5' {
		return 64
	}
	return 32
}
func (h *hasher) BlockSize() int {
	if h.alg == '5' {
		return 128
	}
	return 64
}

func New512() hash.Hash { return &hasher{alg: '5'} }
func New256() hash.Hash { return &hasher{alg: '2'} }

// ---------------------------------------------------------------- Ed25519

type sigRec struct{ pub, msg, sig []byte }

var sigs []sigRec
var sigCtr int

func seedOf(r io.Reader) ([]byte, error) {
	seed := make([]byte, 32)
	if r == nil {
		copy(seed, stream('k', 32))
		return seed, nil
	}
	if _, err := io.ReadFull(r, seed); err != nil {
		return nil, err
	}
	return seed, nil
}

// GenerateKey makes distinct real keys.
func GenerateKey(r io.Reader) (ed25519.PublicKey, ed25519.PrivateKey, error) {
	seed, err := seedOf(r)
	if err != nil {
		return nil, nil, err
	}
	k := vsym.HostKeyFromSeed(seed)
	return ed25519.PublicKey(append([]byte(nil), k[32:]...)), ed25519.PrivateKey(k), nil
}

func StdGenerateKey(r io.Reader) (stded.PublicKey, stded.PrivateKey, error) {
	seed, err := seedOf(r)
	if err != nil {
		return nil, nil, err
	}
	k := vsym.HostKeyFromSeed(seed)
	return stded.PublicKey(append([]byte(nil), k[32:]...)), stded.PrivateKey(k), nil
}

func NewKeyFromSeed(seed []byte) ed25519.PrivateKey {
	if len(seed) != 32 {
		panic("ed25519: bad seed length: " + strconv.Itoa(len(seed)))
	}
	return ed25519.PrivateKey(vsym.HostKeyFromSeed(seed))
}

func StdNewKeyFromSeed(seed []byte) stded.PrivateKey {
	return stded.PrivateKey(NewKeyFromSeed(seed))
}

func sign(priv, msg []byte) []byte {
	if len(priv) != 64 {
		panic("ed25519: bad private key length: " + strconv.Itoa(len(priv)))
	}
	pub := priv[32:]
	for _, r := range sigs {
		if len(r.msg) == len(msg) && vsym.Eq(append(append([]byte{}, r.pub...), r.msg...), append(append([]byte{}, pub...), msg...)) {
			return append([]byte(nil), r.sig...)
		}
	}
	sigCtr++
	sig := vsym.HostSHA512([]byte{'s', byte(sigCtr), byte(sigCtr >> 8)})
	sigs = append(sigs, sigRec{append([]byte(nil), pub...), append([]byte(nil), msg...), sig})
	return append([]byte(nil), sig...)
}

// lowOrder holds all encodings of Ed25519 keys of small order, without their
// sign bits.
var lowOrder = [][]byte{
	make([]byte, 32),
	append([]byte{1}, make([]byte, 31)...),
	{0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05},
	{0xc7, 0x17, 0x6a, 0x70, 0x3d, 0x4d, 0xd8, 0x4f, 0xba, 0x3c, 0x0b, 0x76, 0x0d, 0x10, 0x67, 0x0f, 0x2a, 0x20, 0x53, 0xfa, 0x2c, 0x39, 0xcc, 0xc6, 0x4e, 0xc7, 0xfd, 0x77, 0x92, 0xac, 0x03, 0x7a},
	ends(0xec), ends(0xed), ends(0xee),
}

func ends(first byte) []byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = 0xff
	}
	b[0], b[31] = first, 0x7f
	return b
}

// LowOrder returns the i-th of the fourteen keys of small order.
func LowOrder(i int) []byte {
	k := append([]byte(nil), lowOrder[i/2]...)
	k[31] |= byte(i%2) << 7
	return k
}

func isLowOrder(pub []byte) bool {
	k := append([]byte(nil), pub...)
	k[31] &= 0x7f
	for _, l := range lowOrder {
		if vsym.Eq(k, l) {
			return true
		}
	}
	return false
}

// verify is the ideal: exactly what was signed with that key verifies.  Only
// keys of small order are as weak as they are.
func verify(pub, msg, sig []byte) bool {
	if len(pub) != 32 {
		panic("ed25519: bad public key length: " + strconv.Itoa(len(pub)))
	}
	if len(sig) != 64 {
		return false
	}
	q := append(append(append([]byte{}, pub...), msg...), sig...)
	for _, r := range sigs {
		if len(r.msg) != len(msg) {
			continue
		}
		if vsym.Eq(append(append(append([]byte{}, r.pub...), r.msg...), r.sig...), q) {
			return true
		}
	}
	if !isLowOrder(pub) {
		return false
	}
	if vsym.Symbolic(q) {
		return vsym.Bool("forged")
	}
	return vsym.HostVerify(pub, msg, sig)
}

func Sign(priv ed25519.PrivateKey, msg []byte) []byte     { return sign(priv, msg) }
func StdSign(priv stded.PrivateKey, msg []byte) []byte    { return sign(priv, msg) }
func Verify(pub ed25519.PublicKey, msg, sig []byte) bool  { return verify(pub, msg, sig) }
func StdVerify(pub stded.PublicKey, msg, sig []byte) bool { return verify(pub, msg, sig) }
func Public(priv ed25519.PrivateKey) crypto.PublicKey {
	return ed25519.PublicKey(append([]byte(nil), priv[32:]...))
}

// ---------------------------------------------------------------- X25519

func X25519(scalar, point []byte) ([]byte, error) {
	if len(scalar) != 32 {
		return nil, errors.New("bad scalar length: " + strconv.Itoa(len(scalar)) + ", expected 32")
	}
	if len(point) != 32 {
		return nil, errors.New("bad point length: " + strconv.Itoa(len(point)) + ", expected 32")
	}
	s := x25519(scalar, point)
	if s == nil {
		return nil, errors.New("bad input point: low order point")
	}
	return s, nil
}

type dhRec struct{ scalar, point, out []byte }

var dhRecs []dhRec

// x25519 is the real function on concrete input.  On symbolic input it is an
// unknown function, which may or may not find the point to be of low order.
func x25519(scalar, point []byte) []byte {
	host := !vsym.Symbolic(scalar) && !vsym.Symbolic(point)
	scalar, point = append([]byte(nil), scalar...), append([]byte(nil), point...)
	scalar[0] &= 248 // as the function itself does
	scalar[31] = scalar[31]&127 | 64
	point[31] &= 127
	for _, r := range dhRecs {
		if vsym.Eq(r.scalar, scalar) && vsym.Eq(r.point, point) {
			return append([]byte(nil), r.out...)
		}
	}
	var out []byte
	if host {
		out = vsym.HostX25519(scalar, point)
	} else if !vsym.Bool("low order") {
		out = vsym.HostSHA256([]byte{'x', byte(len(dhRecs)), byte(len(dhRecs) >> 8)})
	}
	dhRecs = append(dhRecs, dhRec{scalar, point, out})
	return append([]byte(nil), out...)
}

// ScalarMult does not tell points of low order from others.
func ScalarMult(dst, scalar, point *[32]byte) {
	var zero [32]byte
	*dst = zero
	copy(dst[:], x25519(scalar[:], point[:]))
}

func ScalarBaseMult(dst, scalar *[32]byte) {
	base := [32]byte{9}
	ScalarMult(dst, scalar, &base)
}

// ---------------------------------------------------------------- AES-GCM

type block struct{ key []byte }

func (b *block) BlockSize() int          { return 16 }
func (b *block) Encrypt(dst, src []byte) { panic("model: raw AES") }
func (b *block) Decrypt(dst, src []byte) { panic("model: raw AES") }

func NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, errors.New("crypto/aes: invalid key size " + strconv.Itoa(len(key)))
	}
	return &block{append([]byte(nil), key...)}, nil
}

type sealRec struct{ key, nonce, ad, pt, ct []byte }

var seals []sealRec
var sealCtr int

type gcm struct{ key []byte }

func NewGCM(b cipher.Block) (cipher.AEAD, error) {
	x, ok := b.(*block)
	if !ok {
		return nil, errors.New("model: GCM over an unknown block cipher")
	}
	return &gcm{x.key}, nil
}

func (g *gcm) NonceSize() int { return 12 }
func (g *gcm) Overhead() int  { return 16 }

func pad(key, nonce []byte, n int) []byte {
	in := append(append([]byte{'p'}, key...), nonce...)
	var out []byte
	for k := 0; len(out) < n; k++ {
		out = append(out, vsym.HostSHA512(append(in, byte(k), byte(k>>8)))...)
	}
	return out[:n]
}

func sliceForAppend(in []byte, n int) (head, tail []byte) {
	if total := len(in) + n; cap(in) >= total {
		head = in[:total]
	} else {
		head = make([]byte, total)
		copy(head, in)
	}
	tail = head[len(in):]
	return
}

func inexactOverlap(x, y []byte) bool {
	if len(x) == 0 || len(y) == 0 || &x[0] == &y[0] {
		return false
	}
	for i := range x {
		if &x[i] == &y[0] {
			return true
		}
	}
	for i := range y {
		if &y[i] == &x[0] {
			return true
		}
	}
	return false
}

func (g *gcm) Seal(dst, nonce, plaintext, ad []byte) []byte {
	if len(nonce) != 12 {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	ret, out := sliceForAppend(dst, len(plaintext)+16)
	if inexactOverlap(out, plaintext) {
		panic("crypto/cipher: invalid buffer overlap of output and input")
	}
	pt := append([]byte(nil), plaintext...)
	nc := append([]byte(nil), nonce...)
	p := pad(g.key, nc, len(pt))
	for i := range pt {
		out[i] = pt[i] ^ p[i]
	}
	sealCtr++
	tag := vsym.HostSHA256([]byte{'t', byte(sealCtr), byte(sealCtr >> 8)})
	copy(out[len(pt):], tag[:16])
	seals = append(seals, sealRec{append([]byte(nil), g.key...), nc, append([]byte(nil), ad...), pt, append([]byte(nil), out...)})
	return ret
}

var errOpen = errors.New("cipher: message authentication failed")

func (g *gcm) Open(dst, nonce, ciphertext, ad []byte) ([]byte, error) {
	if len(nonce) != 12 {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	if len(ciphertext) < 16 {
		return nil, errOpen
	}
	ret, out := sliceForAppend(dst, len(ciphertext)-16)
	if inexactOverlap(out, ciphertext) {
		panic("crypto/cipher: invalid buffer overlap of output and input")
	}
	q := append(append(append([]byte{}, nonce...), ad...), ciphertext...)
	for i := range seals {
		r := &seals[i]
		if len(r.ct) != len(ciphertext) || len(r.ad) != len(ad) || !bytes.Equal(r.key, g.key) {
			continue
		}
		if vsym.Eq(append(append(append([]byte{}, r.nonce...), r.ad...), r.ct...), q) {
			copy(out, r.pt)
			return ret, nil
		}
	}
	for i := range out {
		out[i] = 0
	}
	return nil, errOpen
}

// Seals is how often something was encrypted so far (engine only).
func Seals() int { return len(seals) }
