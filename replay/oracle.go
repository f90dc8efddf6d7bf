package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
	"strconv"
)

// Independent definitions from the published specifications.

func hm(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// RFC 5869
func hkdf(ikm, salt []byte, info string, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := hm(salt, ikm)
	var out, t []byte
	for i := 1; len(out) < n; i++ {
		t = hm(prk, t, []byte(info), []byte{byte(i)})
		out = append(out, t...)
	}
	return out[:n]
}

var p25519 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

func le2big(b []byte) *big.Int {
	x := make([]byte, len(b))
	for i := range b {
		x[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(x)
}

func big2le(v *big.Int, n int) []byte {
	out := make([]byte, n)
	for i, b := range v.Bytes() {
		out[len(v.Bytes())-1-i] = b
	}
	return out
}

// RFC 7748 Montgomery ladder
func x25519(k, u [32]byte) (out [32]byte) {
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	u[31] &= 127
	kk := le2big(k[:])
	p := p25519
	x1 := new(big.Int).Mod(le2big(u[:]), p)
	x2, z2 := big.NewInt(1), big.NewInt(0)
	x3, z3 := new(big.Int).Set(x1), big.NewInt(1)
	mod := func(v *big.Int) *big.Int { return v.Mod(v, p) }
	for t := 254; t >= 0; t-- {
		bit := kk.Bit(t)
		if bit == 1 {
			x2, x3 = x3, x2
			z2, z3 = z3, z2
		}
		a := mod(new(big.Int).Add(x2, z2))
		aa := mod(new(big.Int).Mul(a, a))
		b := mod(new(big.Int).Sub(x2, z2))
		bb := mod(new(big.Int).Mul(b, b))
		e := mod(new(big.Int).Sub(aa, bb))
		c := mod(new(big.Int).Add(x3, z3))
		d := mod(new(big.Int).Sub(x3, z3))
		da := mod(new(big.Int).Mul(d, a))
		cb := mod(new(big.Int).Mul(c, b))
		s := mod(new(big.Int).Add(da, cb))
		x3 = mod(new(big.Int).Mul(s, s))
		s = mod(new(big.Int).Sub(da, cb))
		z3 = mod(new(big.Int).Mul(x1, mod(new(big.Int).Mul(s, s))))
		x2 = mod(new(big.Int).Mul(aa, bb))
		z2 = mod(new(big.Int).Mul(e, mod(new(big.Int).Add(aa, new(big.Int).Mul(big.NewInt(121665), e)))))
		if bit == 1 {
			x2, x3 = x3, x2
			z2, z3 = z3, z2
		}
	}
	r := mod(new(big.Int).Mul(x2, new(big.Int).Exp(z2, new(big.Int).Sub(p, big.NewInt(2)), p)))
	copy(out[:], big2le(r, 32))
	return
}

func x25519base(k [32]byte) [32]byte {
	var u [32]byte
	u[0] = 9
	return x25519(k, u)
}

func clamped(k [32]byte) [32]byte {
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

// oracleVerify is the signature check of the XEdDSA variant in use: Ed25519
// under the Edwards form of the Montgomery key, sign bit in the signature.
func oracleVerify(pub [32]byte, msg []byte, sig [64]byte) bool {
	pub[31] &= 0x7f
	u := new(big.Int).Mod(le2big(pub[:]), p25519)
	num := new(big.Int).Sub(u, big.NewInt(1))
	den := new(big.Int).Add(u, big.NewInt(1))
	den.Mod(den, p25519)
	inv := new(big.Int).Exp(den, new(big.Int).Sub(p25519, big.NewInt(2)), p25519)
	y := num.Mul(num, inv)
	y.Mod(y, p25519)
	a := big2le(y, 32)
	a[31] |= sig[63] & 0x80
	sig[63] &= 0x7f
	return ed25519.Verify(ed25519.PublicKey(a), msg, sig[:])
}

// the Edwards curve by its affine addition law
type edPoint struct{ x, y *big.Int }

var (
	orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	edwardsD  = fmod(new(big.Int).Mul(big.NewInt(-121665), finv(big.NewInt(121666))))
	edBase    = edBasePoint()
)

func fmod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, p25519) }
func fmul(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func finv(a *big.Int) *big.Int {
	return new(big.Int).Exp(a, new(big.Int).Sub(p25519, big.NewInt(2)), p25519)
}

func edBasePoint() edPoint {
	one := big.NewInt(1)
	y := fmul(big.NewInt(4), finv(big.NewInt(5)))
	yy := fmul(y, y)
	xx := fmul(new(big.Int).Sub(yy, one), finv(new(big.Int).Add(one, fmul(edwardsD, yy))))
	x := new(big.Int).ModSqrt(xx, p25519)
	if x.Bit(0) == 1 {
		x.Sub(p25519, x)
	}
	return edPoint{x, y}
}

func edAdd(a, b edPoint) edPoint {
	one := big.NewInt(1)
	t := fmul(edwardsD, fmul(fmul(a.x, b.x), fmul(a.y, b.y)))
	inv := func(v *big.Int) *big.Int { return new(big.Int).ModInverse(fmod(v), p25519) }
	x := fmul(new(big.Int).Add(fmul(a.x, b.y), fmul(b.x, a.y)), inv(new(big.Int).Add(one, t)))
	y := fmul(new(big.Int).Add(fmul(a.y, b.y), fmul(a.x, b.x)), inv(new(big.Int).Sub(one, t)))
	return edPoint{x, y}
}

// edMulBase is the encoding of [k]B.
func edMulBase(k *big.Int) []byte {
	r := edPoint{big.NewInt(0), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, edBase)
		}
	}
	e := big2le(r.y, 32)
	e[31] |= byte(r.x.Bit(0)) << 7
	return e
}

func sum512(parts ...[]byte) []byte {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// oracleSign is the XEdDSA variant in use for a clamped private key.
func oracleSign(priv [32]byte, msg []byte, rd [64]byte) (sig [64]byte) {
	div := bytes.Repeat([]byte{0xFF}, 32)
	div[0] = 0xFE
	k := le2big(priv[:])
	pub := edMulBase(k)
	r := new(big.Int).Mod(le2big(sum512(div, priv[:], msg, rd[:])), orderL)
	R := edMulBase(r)
	h := new(big.Int).Mod(le2big(sum512(R, pub, msg)), orderL)
	s := new(big.Int).Mod(new(big.Int).Add(r, new(big.Int).Mul(h, k)), orderL)
	copy(sig[:], R)
	copy(sig[32:], big2le(s, 32))
	sig[63] |= pub[31] & 0x80
	return
}

func pkcs7(p []byte) []byte {
	n := 16 - len(p)%16
	return append(append([]byte{}, p...), bytes.Repeat([]byte{byte(n)}, n)...)
}

func cbcEnc(key, iv, p []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	d := pkcs7(p)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(d, d)
	return d
}

// cbcRaw encrypts whole blocks without padding.
func cbcRaw(key, iv, d []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(d))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, d)
	return out
}

// cbcDec returns nil, false for a ciphertext that is not well formed.
func cbcDec(key, iv, ct []byte) ([]byte, bool) {
	if len(ct) == 0 || len(ct)%16 != 0 || len(iv) != 16 {
		return nil, false
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, false
	}
	d := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(d, ct)
	n := int(d[len(d)-1])
	if n < 1 || n > 16 || n > len(d) {
		return nil, false
	}
	for _, x := range d[len(d)-n:] {
		if int(x) != n {
			return nil, false
		}
	}
	return d[:len(d)-n], true
}

type okeys struct{ cipher, mac, iv []byte }

func msgKeys(chain []byte) okeys {
	k := hkdf(hm(chain, []byte{1}), nil, "WhisperMessageKeys", 80)
	return okeys{k[:32], k[32:64], k[64:80]}
}

func chainNext(chain []byte) []byte { return hm(chain, []byte{2}) }

func chainAt(chain []byte, from, to uint32) []byte {
	for i := from; i < to; i++ {
		chain = chainNext(chain)
	}
	return chain
}

func rootStep(root []byte, dh [32]byte) (r, c []byte) {
	k := hkdf(dh[:], root, "WhisperRatchet", 64)
	return k[:32], k[32:64]
}

func x3dh(dhs ...[32]byte) (root, chain []byte) {
	s := bytes.Repeat([]byte{0xff}, 32)
	for _, d := range dhs {
		s = append(s, d[:]...)
	}
	k := hkdf(s, nil, "WhisperText", 64)
	return k[:32], k[32:64]
}

func groupKeys(chain []byte) (iv, key []byte) {
	k := hkdf(hm(chain, []byte{1}), nil, "WhisperGroup", 48)
	return k[:16], k[16:48]
}

// protobuf wire format of the messages, written by hand
func pbVar(field int, v uint64) []byte {
	return append(uvar(uint64(field)<<3), uvar(v)...)
}

func pbBytes(field int, b []byte) []byte {
	return append(append(uvar(uint64(field)<<3|2), uvar(uint64(len(b)))...), b...)
}

func uvar(v uint64) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

// signalMac is the MAC of a signal message over the given content.
func signalMac(macKey, sender, receiver []byte, version int, content []byte) []byte {
	return hm(macKey, sender, receiver, []byte(strconv.Itoa(version)), content)[:8]
}
