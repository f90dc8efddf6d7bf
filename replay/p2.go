package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/groups"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func init() {
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
	props["C10"] = c10
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
}

// noPanic reports a panic of f with the given description.
func (c *C) noPanic(why string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if x, ok := p.(failure); ok {
				panic(x)
			}
			c.Failf("%s: panic: %v", why, p)
		}
	}()
	f()
}

var (
	encs = []func(iv, key, p []byte) ([]byte, error){cipher.Encrypt, cipher.EncryptCbc}
	decs = []func(iv, key, ct []byte) ([]byte, error){cipher.Decrypt, cipher.DecryptCbc}
)

func c07(t *T) {
	t.Case("round trip", t.n(2), func(c *C) {
		for n := 0; n <= 100; n++ {
			for _, ks := range []int{16, 24, 32} {
				key, iv, p := rb(c.r, ks), rb(c.r, 16), rb(c.r, n)
				if n%7 == 3 && n > 0 { // plaintexts that look padded
					copy(p[n-1:], []byte{byte(c.r.Intn(18))})
				}
				for i, enc := range encs {
					ct, err := enc(iv, key, p)
					c.Check(err == nil, "encrypt %d bytes: %v", n, err)
					c.Check(bytes.Equal(ct, cbcEnc(key, iv, p)), "ciphertext of %d bytes is not AES-CBC of the padded plaintext", n)
					q, err := decs[i](iv, key, ct)
					c.Check(err == nil && bytes.Equal(q, p), "decrypting the encryption of %d bytes gives %x, %v; plaintext %x", n, q, err, p)
				}
				ct, err := cipher.EncryptCbc(nil, key, p)
				c.Check(err == nil && len(ct) >= 32, "encrypt %d bytes without an iv: %v", n, err)
				c.Check(bytes.Equal(ct[16:], cbcEnc(key, ct[:16], p)), "ciphertext of %d bytes without an iv", n)
				q, err := cipher.DecryptCbc(nil, key, ct)
				c.Check(err == nil && bytes.Equal(q, p), "decrypting %d bytes without an iv: %x, %v", n, q, err)
			}
		}
		for _, n := range []int{255, 256, 1000, 1023, 1024, 4096, 65520, 65535, 65536, 65537, 65552, 131072, 1 << 20, 1<<20 + 5, 1<<24 + 16*c.r.Intn(3)} {
			for i, enc := range encs {
				key, iv, p := rb(c.r, 32), rb(c.r, 16), rb(c.r, n)
				ct, err := enc(iv, key, p)
				c.Check(err == nil && bytes.Equal(ct, cbcEnc(key, iv, p)), "encrypt %d bytes: %v", n, err)
				q, err := decs[i](iv, key, ct)
				c.Check(err == nil && bytes.Equal(q, p), "decrypt %d bytes: %v", n, err)
			}
		}
		c.Note("lengths 0..100 and up to 65537")
	})
	t.Case("malformed", t.n(2), func(c *C) {
		key, iv := rb(c.r, 32), rb(c.r, 16)
		try := func(why string, ct []byte) {
			c.noPanic(why, func() {
				want, ok := cbcDec(key, iv, ct)
				for _, dec := range decs {
					got, err := dec(iv, key, ct)
					if ok {
						c.Check(err == nil && bytes.Equal(got, want), "%s: valid padding, but %v", why, err)
					} else {
						c.Check(err != nil && got == nil, "%s: accepted as %x", why, got)
					}
				}
				// with the iv in front
				pre := append(append([]byte{}, iv...), ct...)
				got, err := cipher.DecryptCbc(nil, key, pre)
				if ok {
					c.Check(err == nil && bytes.Equal(got, want), "%s behind its iv: valid padding, but %v", why, err)
				} else {
					c.Check(err != nil && got == nil, "%s behind its iv: accepted as %x", why, got)
				}
			})
		}
		for n := 0; n < 70; n++ {
			try(fmt.Sprintf("%d random bytes", n), rb(c.r, n))
		}
		try("nil", nil)
		for _, n := range []int{128, 256, 1024, 2048, 4096, 65536} {
			ct := cbcEnc(key, iv, rb(c.r, n-1))
			try(fmt.Sprintf("%d bytes", len(ct)), ct)
			for d := 1; d < 16; d++ {
				try(fmt.Sprintf("%d bytes and %d more", len(ct), d), append(append([]byte{}, ct...), rb(c.r, d)...))
				try(fmt.Sprintf("%d bytes without the last %d", len(ct), d), ct[:len(ct)-d])
				try(fmt.Sprintf("%d bytes without the first %d", len(ct), d), ct[d:])
			}
		}
		// every final byte, with the rest of the padding right or one byte wrong
		for blocks := 1; blocks <= 2; blocks++ {
			for v := 0; v < 256; v++ {
				d := rb(c.r, 16*blocks)
				for i := 0; i < v && i < len(d); i++ {
					d[len(d)-1-i] = byte(v)
				}
				d[len(d)-1] = byte(v)
				try(fmt.Sprintf("%d blocks, padding of %d", blocks, v), cbcRaw(key, iv, d))
				for i := 1; i < v && i < 16; i++ {
					e := append([]byte{}, d...)
					e[len(d)-1-i] ^= byte(1 + c.r.Intn(255))
					try(fmt.Sprintf("%d blocks, padding of %d with byte %d wrong", blocks, v, i), cbcRaw(key, iv, e))
				}
				e := rb(c.r, 16*blocks)
				e[len(e)-1] = byte(v)
				try(fmt.Sprintf("last byte %d, random block", v), cbcRaw(key, iv, e))
			}
		}
		for i := 0; i < 50; i++ {
			ct := cbcEnc(key, iv, rb(c.r, c.r.Intn(50)))
			ct[c.r.Intn(len(ct))] ^= byte(1 + c.r.Intn(255))
			try("altered ciphertext", ct)
		}
		// keys and ivs of wrong sizes
		for n := 0; n < 40; n++ {
			c.noPanic(fmt.Sprintf("key of %d bytes", n), func() {
				good := n == 16 || n == 24 || n == 32
				for i, enc := range encs {
					_, err := enc(iv, rb(c.r, n), rb(c.r, 5))
					c.Check((err == nil) == good, "Encrypt with a key of %d bytes: %v", n, err)
					_, err = decs[i](iv, rb(c.r, n), rb(c.r, 32))
					c.Check(good || err != nil, "Decrypt with a key of %d bytes", n)
				}
			})
			c.noPanic(fmt.Sprintf("iv of %d bytes", n), func() {
				for i, enc := range encs {
					_, err := enc(rb(c.r, n), key, rb(c.r, 5))
					c.Check((err == nil) == (n == 16), "Encrypt with an iv of %d bytes: %v", n, err)
					_, err = decs[i](rb(c.r, n), key, cbcEnc(key, iv, rb(c.r, 5)))
					c.Check(n == 16 || err != nil, "Decrypt with an iv of %d bytes", n)
				}
			})
		}
	})
	t.Case("messages", t.n(1), func(c *C) {
		a, b := pair(c, c.ser(), false)
		ga, gb, name := gpair(c, c.ser())
		for _, n := range []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 127, 128, 160, 255, 256, 512, 1000, 1024, 2048, 4096, 4097, 8192, 16384, 65520, 65536} {
			p := rb(c.r, n)
			if n%16 == 1 {
				p[n-1] = byte(c.r.Intn(18))
			}
			w := a.enc(c, b, p)
			q, k, err := b.cipher(a).DecryptAndGetKey(w.inner())
			c.Check(err == nil && bytes.Equal(q, p), "decrypting a message of %d bytes: %v", n, err)
			c.Check(bytes.Equal(w.inner().Body(), cbcEnc(k.CipherKey(), k.Iv(), p)), "the body of a message of %d bytes is not AES-CBC of the padded plaintext", n)
			a, b = b, a
			gb.gdec(c, name, ga.genc(c, name, p), p)
		}
		// DecryptWithKey is given bodies that are not proper ciphertext
		w := a.enc(c, b, rb(c.r, 20))
		q, k, err := b.cipher(a).DecryptAndGetKey(w.inner())
		c.Check(err == nil && len(q) == 20, "decrypt: %v", err)
		for i := 0; i < 200; i++ {
			s := *w.inner().Structure()
			switch i % 4 {
			case 0:
				s.CipherText = rb(c.r, c.r.Intn(70))
			case 1:
				s.CipherText = cbcRaw(k.CipherKey(), k.Iv(), rb(c.r, 16*(1+c.r.Intn(3))))
			case 2:
				d := rb(c.r, 16*(1+c.r.Intn(3)))
				n := c.r.Intn(18)
				for j := 0; j < n && j < len(d); j++ {
					d[len(d)-1-j] = byte(n)
				}
				d[len(d)-1-c.r.Intn(16)] ^= byte(c.r.Intn(2))
				s.CipherText = cbcRaw(k.CipherKey(), k.Iv(), d)
			case 3:
				s.CipherText = cbcEnc(k.CipherKey(), k.Iv(), rb(c.r, c.r.Intn(40)))
			}
			if len(s.CipherText) == 0 {
				continue // a message without a body cannot be built
			}
			want, ok := cbcDec(k.CipherKey(), k.Iv(), s.CipherText)
			m := c.msg(b, &s).sig
			c.noPanic("DecryptWithKey", func() {
				got, err := b.cipher(a).DecryptWithKey(m, k)
				if ok {
					c.Check(err == nil && bytes.Equal(got, want), "DecryptWithKey of proper ciphertext %x: %v", s.CipherText, err)
				} else {
					c.Check(err != nil && got == nil, "DecryptWithKey of improper ciphertext %x gives %x", s.CipherText, got)
				}
			})
		}
	})
}

// withSig returns a bundle of u with the given pieces.
func (u *user) customBundle(opk int64, spk ecc.ECPublicKeyable, sig [64]byte, id *identity.Key) *prekey.Bundle {
	b := u.bundle(opk)
	return prekey.NewBundle(b.RegistrationID(), b.DeviceID(), b.PreKeyID(), b.SignedPreKeyID(), b.PreKey(), spk, sig, id)
}

func (u *user) mustNotBuild(c *C, p *user, b *prekey.Bundle, why string) {
	before := u.st.snapshot()
	u.st.log = nil
	err := u.builder(p).ProcessBundle(b)
	c.Check(err != nil, "%s: a session is built", why)
	c.Check(len(u.st.changes()) == 0, "%s: refused, but %v", why, u.st.changes())
	after := u.st.snapshot()
	c.Check(before == after, "%s: refused, but the stores changed: %s", why, diff(before, after))
}

func c08(t *T) {
	t.Case("a new identity under an old address", t.n(3), func(c *C) { c.renewed() })
	t.Case("bundles", t.n(14), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, false)
		if c.r.Intn(2) == 0 {
			c.start(a, b, 1)
			if c.r.Intn(2) == 0 {
				c.talk(a, b)
				c.talk(b, a)
			}
			c.Note("existing session")
		}
		opk := int64(c.r.Intn(7)) - 1
		if opk == 5 {
			opk = 0xFFFFFF
		}
		opk = b.have(opk)
		good := b.bundle(opk)
		sig := b.spkSig
		idk := b.st.idpair.PublicKey()
		for i := 0; i < 10; i++ {
			s := sig
			s[c.r.Intn(64)] ^= 1 << uint(c.r.Intn(8))
			a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), s, idk), "altered signature")
		}
		a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), [64]byte{}, idk), "zero signature")
		other := rkey(c.r)
		a.mustNotBuild(c, b, b.customBundle(opk, other.PublicKey(), sig, idk), "signature of another prekey")
		a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), ecc.CalculateSignature(other.PrivateKey(), b.spk.PublicKey().Serialize()), idk), "signature by another identity")
		raw := b.spk.PublicKey().PublicKey()
		a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), ecc.CalculateSignature(b.st.idpair.PrivateKey(), raw[:]), idk), "signature over the key without its type byte")
		a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), ecc.CalculateSignature(b.st.idpair.PrivateKey(), nil), idk), "signature over nothing")
		a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), ecc.CalculateSignature(b.st.idpair.PrivateKey(), idk.Serialize()), idk), "signature over the identity key")
		if _, known := a.st.ident[b.addr.String()]; known {
			nid := ridentity(c.r)
			a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), ecc.CalculateSignature(nid.PrivateKey(), b.spk.PublicKey().Serialize()), nid.PublicKey()), "changed identity")
		}
		a.mustNotBuild(c, b, b.customBundle(opk, nil, sig, idk), "no signed prekey")
		a.mustNotBuild(c, b, b.customBundle(-1, nil, ecc.CalculateSignature(b.st.idpair.PrivateKey(), nil), idk), "no signed prekey, but a prekey")
		a.st.distrust[idk.Fingerprint()] = true
		a.mustNotBuild(c, b, good, "untrusted identity")
		a.mustNotBuild(c, b, b.customBundle(opk, b.spk.PublicKey(), [64]byte{}, idk), "untrusted identity and zero signature")
		a.st.distrust = map[string]bool{}
		for _, n := range []int{0, 31, 32, 63} {
			withRand(&badRand{n}, func() { a.mustNotBuild(c, b, good, "random source fails") })
		}
		before := view(a.rec(b))
		a.st.log = nil
		c.Check(a.builder(b).ProcessBundle(good) == nil, "a good bundle is refused")
		ch := a.st.changes()
		c.Check(len(ch) == 2 && ch[0] == "StoreSession "+b.addr.String() && ch[1] == "SaveIdentity "+b.addr.String()+" "+idk.Fingerprint(), "changes for a good bundle: %v", ch)
		v := view(a.rec(b))
		s := v.SessionState
		c.Check(bytes.Equal(s.RemoteIdentityPublic, idk.Serialize()), "remote identity of the session is %x, bundle's %x", s.RemoteIdentityPublic, idk.Serialize())
		c.Check(bytes.Equal(s.LocalIdentityPublic, a.st.idpair.PublicKey().Serialize()), "local identity of the session")
		c.Check(s.SessionVersion == 3 && s.RemoteRegistrationID == b.st.regID && s.LocalRegistrationID == a.st.regID, "version and registration ids %d %d %d", s.SessionVersion, s.RemoteRegistrationID, s.LocalRegistrationID)
		c.Check(s.PendingPreKey != nil && s.PendingPreKey.SignedPreKeyID == b.spkID && bytes.Equal(s.PendingPreKey.BaseKey, s.SenderBaseKey), "pending prekey %s", js(s.PendingPreKey))
		if opk >= 0 {
			c.Check(s.PendingPreKey.PreKeyID != nil && !s.PendingPreKey.PreKeyID.IsEmpty && s.PendingPreKey.PreKeyID.Value == uint32(opk), "pending one-time prekey")
		} else {
			c.Check(s.PendingPreKey.PreKeyID == nil || s.PendingPreKey.PreKeyID.IsEmpty, "pending one-time prekey without one")
		}
		if before.SessionState != nil && before.SessionState.SenderChain != nil {
			c.Check(len(v.PreviousStates) == len(before.PreviousStates)+1 && js(v.PreviousStates[0]) == js(before.SessionState), "the used session is not archived")
		}
		c.talk(a, b)
		c.talk(b, a)
	})
	t.Case("prekey messages", t.n(14), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		if c.r.Intn(2) == 0 {
			c.start(a, b, 2)
			c.talk(a, b)
			c.talk(b, a)
			a.st.DeleteAllSessions()
			c.Note("existing session")
		}
		opk := int64(c.r.Intn(3)) - 1
		c.start(a, b, opk)
		text := c.text()
		w := a.enc(c, b, text)
		p := w.pre
		mk := func(id *optional.Uint32, spk uint32, ik *identity.Key) *wire {
			m, err := protocol.NewPreKeySignalMessage(3, p.RegistrationID(), id, spk, p.BaseKey(), ik, p.WhisperMessage(), ser.PreKeySignalMessage, ser.SignalMessage)
			c.Check(err == nil, "%v", err)
			return &wire{pre: m}
		}
		for i := 0; i < 4; i++ {
			b.mustReject(c, a, mk(p.PreKeyID(), p.SignedPreKeyID()+1+uint32(c.r.Intn(1000)), p.IdentityKey()), "unknown signed prekey")
			b.mustReject(c, a, mk(optional.NewOptionalUint32(7+uint32(c.r.Intn(1000))), p.SignedPreKeyID(), p.IdentityKey()), "unknown one-time prekey")
		}
		b.mustReject(c, a, mk(optional.NewOptionalUint32(3), p.SignedPreKeyID(), p.IdentityKey()), "another one-time prekey")
		nid := ridentity(c.r)
		b.mustReject(c, a, mk(p.PreKeyID(), p.SignedPreKeyID(), nid.PublicKey()), "another identity")
		b.st.distrust[p.IdentityKey().Fingerprint()] = true
		b.mustReject(c, a, w, "untrusted identity")
		// the builder itself
		rec := b.rec(a)
		was := js(view(rec))
		b.st.log = nil
		_, err := b.builder(a).Process(rec, p)
		c.Check(err != nil && len(b.st.changes()) == 0 && js(view(rec)) == was, "Builder.Process of an untrusted identity: %v, %v", err, b.st.changes())
		b.st.distrust = map[string]bool{}
		for _, m := range []*wire{mk(optional.NewOptionalUint32(77), p.SignedPreKeyID(), p.IdentityKey()), mk(p.PreKeyID(), p.SignedPreKeyID()+5, p.IdentityKey())} {
			b.st.log = nil
			_, err := b.builder(a).Process(rec, m.pre)
			c.Check(err != nil && len(b.st.changes()) == 0 && js(view(rec)) == was, "Builder.Process naming an unknown prekey: %v, %v", err, b.st.changes())
		}
		b.st.log = nil
		b.mustDec(c, a, w, text)
		c.Check(strings.Contains(strings.Join(b.st.log, "\n"), "IsTrustedIdentity "+a.addr.String()), "the store was not asked about the identity")
		c.Check(b.st.ident[a.addr.String()] == p.IdentityKey().Fingerprint(), "the identity was not saved")
		s := view(b.rec(a)).SessionState
		c.Check(bytes.Equal(s.RemoteIdentityPublic, p.IdentityKey().Serialize()), "remote identity of the session")
		c.Check(bytes.Equal(s.LocalIdentityPublic, b.st.idpair.PublicKey().Serialize()), "local identity of the session")
		c.Check(bytes.Equal(s.SenderBaseKey, p.BaseKey().Serialize()) && s.RemoteRegistrationID == p.RegistrationID() && s.LocalRegistrationID == b.st.regID && s.SessionVersion == 3, "session parameters")
		c.talk(b, a)
		// the identity changes: no new session for another identity
		a2 := newUser(c, "alice", ser, false)
		a2.addr = a.addr
		c.start(a2, b, 4)
		w2 := a2.enc(c, b, text)
		b.mustReject(c, a, w2, "changed identity of a known user")
		c.talk(a, b)
	})
	t.Case("trust is asked for every prekey message", t.n(6), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		c.start(a, b, int64(c.r.Intn(4))-1)
		t1, t2, t3 := c.text(), c.text(), c.text()
		w1, w2, w3 := a.enc(c, b, t1), a.enc(c, b, t2), a.enc(c, b, t3)
		b.mustDec(c, a, w1, t1)
		if c.r.Intn(2) == 0 { // the session it belongs to is an archived one
			x := newUser(c, "alice", ser, false)
			x.addr, x.st.idpair = a.addr, a.st.idpair
			c.start(x, b, -1)
			c.talk(x, b)
			c.Note("archived")
		}
		b.st.distrust[w1.pre.IdentityKey().Fingerprint()] = true
		b.mustReject(c, a, w2, "untrusted identity, established session")
		b.st.distrust = map[string]bool{}
		b.st.ident[a.addr.String()] = "something else"
		b.mustReject(c, a, w2, "changed identity, established session")
		delete(b.st.ident, a.addr.String())
		b.mustDec(c, a, w2, t2)
		b.mustDec(c, a, w3, t3)
	})
	t.Case("accepted change of identity", t.n(8), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		if c.r.Intn(2) == 0 {
			c.start(a, b, 0)
			c.talk(a, b)
			if c.r.Intn(2) == 0 {
				c.talk(b, a)
			}
		} else {
			c.start(b, a, 0) // a session bob has not had an answer in
			b.enc(c, a, []byte("unanswered"))
		}
		n := newUser(c, "alice", ser, c.r.Intn(2) == 0)
		n.addr = a.addr
		delete(b.st.ident, a.addr.String())
		if c.r.Intn(2) == 0 {
			c.start(n, b, int64(c.r.Intn(4))-1)
			c.talk(n, b)
			c.talk(b, n)
		} else {
			c.start(b, n, int64(c.r.Intn(4))-1)
			c.talk(b, n)
			c.talk(n, b)
		}
		v := view(b.rec(n))
		c.Check(bytes.Equal(v.SessionState.RemoteIdentityPublic, n.st.idpair.PublicKey().Serialize()), "remote identity of the new session")
		c.Check(b.st.ident[n.addr.String()] == n.st.idpair.PublicKey().Fingerprint(), "saved identity")
		c.Check(len(v.PreviousStates) == 1 && bytes.Equal(v.PreviousStates[0].RemoteIdentityPublic, a.st.idpair.PublicKey().Serialize()), "remote identity of the archived session")
		c.talk(b, n)
	})
	t.Case("encrypting to an untrusted identity", t.n(4), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		if c.r.Intn(2) == 0 {
			c.talk(b, a)
		}
		a.st.distrust[b.st.idpair.PublicKey().Fingerprint()] = true
		before := a.st.snapshot()
		a.st.log = nil
		m, err := a.cipher(b).Encrypt([]byte("x"))
		if err != nil {
			c.Check(m == nil && len(a.st.changes()) == 0, "refused encryption changes %v", a.st.changes())
			if a.st.persist {
				c.Check(a.st.snapshot() == before, "refused encryption changed the stores")
			}
		}
	})
}

func c09(t *T) {
	t.Case("lifecycle", t.n(16), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		n := 1 + c.r.Intn(4)
		var msgs []*wire
		var texts [][]byte
		ids := []int64{-1, 0, 1, 2, 0xFFFFFF}
		for i := 0; i < 4; i++ {
			ids = append(ids, int64(farIDs[c.r.Intn(len(farIDs))]))
		}
		for i := 0; i < n; i++ {
			opk := ids[c.r.Intn(len(ids))]
			if opk >= 0 && b.st.pre[uint32(opk)] == nil {
				opk = -1
			}
			c.Note("prekey %d", opk)
			c.start(a, b, opk)
			k := 1 + c.r.Intn(3)
			for j := 0; j < k; j++ {
				text := c.text()
				w := a.enc(c, b, text)
				c.Check(w.pre != nil, "first messages are prekey messages")
				if opk < 0 {
					c.Check(w.pre.PreKeyID() == nil || w.pre.PreKeyID().IsEmpty, "prekey id of a message without one")
				} else {
					c.Check(w.pre.PreKeyID() != nil && !w.pre.PreKeyID().IsEmpty && w.pre.PreKeyID().Value == uint32(opk), "prekey id of the message")
				}
				msgs = append(msgs, w)
				texts = append(texts, text)
			}
			had := map[uint32]bool{}
			for id := range b.st.pre {
				had[id] = true
			}
			order := c.r.Perm(k)
			for nth, j := range order {
				w, text := msgs[len(msgs)-k+j], texts[len(texts)-k+j]
				prev := len(view(b.rec(a)).PreviousStates)
				hadState := view(b.rec(a)).SessionState != nil && view(b.rec(a)).SessionState.SenderChain != nil
				if opk >= 0 && opk != 0xFFFFFF && nth == 0 {
					// rejected messages consume nothing
					s := *w.pre.WhisperMessage().Structure()
					s.Mac = append([]byte{}, s.Mac...)
					s.Mac[1] ^= 1
					bad := c.msg(b, &s).sig
					m, err := protocol.NewPreKeySignalMessage(3, w.pre.RegistrationID(), w.pre.PreKeyID(), w.pre.SignedPreKeyID(), w.pre.BaseKey(), w.pre.IdentityKey(), bad, ser.PreKeySignalMessage, ser.SignalMessage)
					c.Check(err == nil, "%v", err)
					b.mustReject(c, a, &wire{pre: m}, "bad MAC")
					c.Check(b.st.pre[uint32(opk)] != nil, "prekey of a rejected message is gone")
				}
				// the prekey is still there when the session is stored
				seen := false
				b.st.onStore = func(*record.Session) {
					seen = true
					if nth == 0 && opk >= 0 {
						c.Check(b.st.pre[uint32(opk)] != nil, "the prekey is removed before the session is stored")
					}
				}
				b.st.log = nil
				b.mustDec(c, a, w, text)
				b.st.onStore = nil
				c.Check(seen, "the session is not stored")
				var removed []string
				st := -1
				for i, e := range b.st.log {
					if strings.HasPrefix(e, "RemovePreKey") {
						removed = append(removed, e)
						c.Check(st >= 0, "prekey removed before the session is stored")
					}
					if strings.HasPrefix(e, "StoreSession") {
						st = i
					}
				}
				want := []string(nil)
				if nth == 0 && opk >= 0 && opk != 0xFFFFFF {
					want = []string{fmt.Sprint("RemovePreKey ", opk)}
				}
				c.Check(fmt.Sprint(removed) == fmt.Sprint(want), "removed %v, expected %v", removed, want)
				v := view(b.rec(a))
				if nth == 0 {
					exp := prev
					if hadState {
						exp++
					}
					c.Check(len(v.PreviousStates) == exp, "%d archived states, expected %d", len(v.PreviousStates), exp)
				} else {
					c.Check(len(v.PreviousStates) == prev, "a repeated prekey message builds a session")
				}
				b.mustReject(c, a, w, "replayed prekey message")
			}
			for id := range had {
				if int64(id) != opk || opk == 0xFFFFFF {
					c.Check(b.st.pre[id] != nil, "prekey %d is gone", id)
				}
			}
			if c.r.Intn(2) == 0 {
				c.talk(b, a)
			}
		}
	})
	t.Case("consumed prekey", t.n(5), func(c *C) {
		ser := c.ser()
		a, b, d := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0), newUser(c, "dora", ser, false)
		bu := b.bundle(3)
		c.Check(a.builder(b).ProcessBundle(bu) == nil && d.builder(b).ProcessBundle(bu) == nil, "ProcessBundle")
		wa, wd := a.enc(c, b, []byte("a")), d.enc(c, b, []byte("d"))
		b.mustDec(c, a, wa, []byte("a"))
		b.mustReject(c, d, wd, "the one-time prekey has been used by someone else")
		// same with the last resort prekey works
		bu = b.bundle(0xFFFFFF)
		c.Check(a.builder(b).ProcessBundle(bu) == nil && d.builder(b).ProcessBundle(bu) == nil, "ProcessBundle")
		wa, wd = a.enc(c, b, []byte("a")), d.enc(c, b, []byte("d"))
		b.mustDec(c, a, wa, []byte("a"))
		b.mustDec(c, d, wd, []byte("d"))
		c.Check(b.st.pre[0xFFFFFF] != nil, "last resort prekey consumed")
	})
	t.Case("Builder.Process", t.n(5), func(c *C) {
		ser := c.ser()
		for _, opk := range []int64{-1, 0, 2, 0xFFFFFF, int64(farIDs[c.r.Intn(len(farIDs))]), 0x1000000, 0xFFFFFFFF} {
			a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, false)
			c.start(a, b, opk)
			w := a.enc(c, b, []byte("x"))
			rec := b.rec(a)
			b.st.log = nil
			id, err := b.builder(a).Process(rec, w.pre)
			c.Check(err == nil && id != nil, "Process: %v", err)
			consume := opk >= 0 && opk != 0xFFFFFF
			c.Check(id.IsEmpty != consume && (!consume || id.Value == uint32(opk)), "prekey id %v to be removed for %d", *id, opk)
			c.Check(b.st.pre[0] != nil && !strings.Contains(strings.Join(b.st.log, " "), "RemovePreKey"), "Process removes prekeys itself")
			id, err = b.builder(a).Process(rec, w.pre)
			c.Check(err == nil && id != nil && id.IsEmpty, "Process for the established session: %v", err)
		}
	})
}

func c10(t *T) {
	t.Case("a new identity under an old address", t.n(3), func(c *C) { c.renewed() })
	t.Case("many sessions", 1+t.n(2), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, true), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		n := 3 + c.r.Intn(6)
		if strings.HasPrefix(c.name, "many sessions/0") {
			n = 45
		}
		c.Note("%d sessions", n)
		var recs [][]byte
		model := []string{} // sender base keys, current first
		check := func(when string) {
			v := view(b.rec(a))
			var got []string
			got = append(got, fmt.Sprintf("%x", v.SessionState.SenderBaseKey))
			for _, s := range v.PreviousStates {
				got = append(got, fmt.Sprintf("%x", s.SenderBaseKey))
			}
			if len(model) > 41 {
				model = model[:41]
			}
			c.Check(strings.Join(got, "\n") == strings.Join(model, "\n"), "%s: states (current, archived...) are\n%s\nexpected\n%s", when, strings.Join(got, "\n"), strings.Join(model, "\n"))
		}
		others := func(except string) map[string]string {
			v := view(b.rec(a))
			m := map[string]string{}
			for _, s := range append([]*stateV{v.SessionState}, v.PreviousStates...) {
				if k := fmt.Sprintf("%x", s.SenderBaseKey); k != except {
					m[k] = js(s)
				}
			}
			return m
		}
		for i := 0; i < n; i++ {
			c.start(a, b, -1)
			w := a.enc(c, b, []byte("hello"))
			k := fmt.Sprintf("%x", w.pre.BaseKey().Serialize())
			var old map[string]string
			if i > 0 {
				old = others(k)
			}
			b.mustDec(c, a, w, []byte("hello"))
			model = append([]string{k}, model...)
			check(fmt.Sprint("after session ", i))
			for kk, s := range others(k) {
				c.Check(old[kk] == s, "state %s changed when another session was built", kk[:12])
			}
			if c.r.Intn(3) == 0 {
				c.talk(b, a)
			}
			recs = append(recs, a.st.bytes[b.addr.String()])
		}
		// use archived states in random order
		for i := 0; i < 12; i++ {
			pick := c.r.Intn(n)
			if i == 0 {
				pick = 0
			}
			a.st.bytes[b.addr.String()] = recs[pick]
			v := view(a.rec(b)).SessionState
			k := fmt.Sprintf("%x", v.SenderBaseKey)
			text := c.text()
			w := a.enc(c, b, text)
			recs[pick] = a.st.bytes[b.addr.String()]
			w = &wire{sig: w.inner()}
			pos := -1
			for j, m := range model {
				if m == k {
					pos = j
				}
			}
			c.Note("use %d at %d", pick, pos)
			if pos < 0 {
				b.mustReject(c, a, w, "dropped session")
				continue
			}
			old := others(k)
			b.mustDec(c, a, w, text)
			if pos > 0 {
				nm := append([]string{k}, model[:pos]...)
				model = append(nm, model[pos+1:]...)
			}
			check(fmt.Sprintf("after using archived state %d", pos))
			for kk, s := range others(k) {
				c.Check(old[kk] == s, "state %s changed when another one was used", kk[:12])
			}
			c.Check(len(others("")) == len(old)+1, "a state is lost or duplicated")
			if c.r.Intn(2) == 0 {
				// the promoted state is used for the answer
				text := c.text()
				a.mustDec(c, b, b.enc(c, a, text), text)
				recs[pick] = a.st.bytes[b.addr.String()]
			}
		}
	})
	t.Case("initiator archives", t.n(4), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, false)
		var model []string
		for i := 0; i < 3+c.r.Intn(43); i++ {
			var cur string
			if v := view(a.rec(b)).SessionState; i > 0 {
				cur = js(v)
			}
			c.start(a, b, -1)
			if i > 0 {
				model = append([]string{cur}, model...)
				if len(model) > 40 {
					model = model[:40]
				}
			}
			v := view(a.rec(b))
			c.Check(len(v.PreviousStates) == len(model), "%d archived states, expected %d", len(v.PreviousStates), len(model))
			for j, m := range model {
				c.Check(js(v.PreviousStates[j]) == m, "archived state %d differs", j)
			}
		}
	})
	t.Case("record operations", t.n(5), func(c *C) {
		ser := c.ser()
		r := record.NewSession(ser.Session, ser.State)
		c.Check(r.IsFresh() && len(r.PreviousSessionStates()) == 0, "a new record is fresh")
		var states []*record.State
		cur := r.SessionState()
		for i := 0; i < 90; i++ {
			switch c.r.Intn(4) {
			case 0:
				r.ArchiveCurrentState()
				c.Check(r.SessionState() != cur && !r.SessionState().HasSenderChain(), "archiving installs a new state")
			case 1:
				s := record.NewState(ser.State)
				s.SetVersion(c.r.Intn(5))
				r.PromoteState(s)
				c.Check(r.SessionState() == s, "PromoteState makes the state current")
			case 2:
				if len(states) == 0 {
					continue
				}
				// what decryption with an archived state does
				k := c.r.Intn(len(states))
				s := states[k]
				r.RemovePreviousState(k)
				states = append(append([]*record.State{}, states[:k]...), states[k+1:]...)
				r.PromoteState(s)
				c.Check(r.SessionState() == s, "PromoteState makes the state current")
			case 3:
				s := record.NewState(ser.State)
				base := rkey(c.r).PublicKey().Serialize()
				s.SetSenderBaseKey(base)
				s.SetVersion(3)
				r.PromoteState(s)
				c.Check(r.HasSessionState(3, base) && !r.HasSessionState(2, base) && !r.HasSessionState(3, rkey(c.r).PublicKey().Serialize()) && !r.HasSessionState(3, base[:32]), "HasSessionState of the current state")
			}
			states = append([]*record.State{cur}, states...)
			if len(states) > 40 {
				states = states[:40]
			}
			cur = r.SessionState()
			got := r.PreviousSessionStates()
			c.Check(len(got) == len(states), "%d archived states, expected %d", len(got), len(states))
			for j := range got {
				c.Check(got[j] == states[j], "archived state %d", j)
				if b := got[j].SenderBaseKey(); len(b) > 0 {
					c.Check(r.HasSessionState(3, b), "HasSessionState of archived state %d", j)
				}
			}
		}
	})
	t.Case("crossing prekey messages", t.n(6), func(c *C) {
		// both sides start a session before either has heard of the other's
		ser := c.ser()
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		c.start(a, b, int64(c.r.Intn(3))-1)
		c.start(b, a, int64(c.r.Intn(3))-1)
		wa := a.enc(c, b, []byte("from alice"))
		wb := b.enc(c, a, []byte("from bob"))
		ownA, ownB := js(view(a.rec(b)).SessionState), js(view(b.rec(a)).SessionState)
		b.mustDec(c, a, wa, []byte("from alice"))
		v := view(b.rec(a))
		c.Check(len(v.PreviousStates) == 1 && js(v.PreviousStates[0]) == ownB, "bob's own unanswered session is lost when alice's prekey message arrives")
		a.mustDec(c, b, wb, []byte("from bob"))
		v = view(a.rec(b))
		c.Check(len(v.PreviousStates) == 1 && js(v.PreviousStates[0]) == ownA, "alice's own unanswered session is lost when bob's prekey message arrives")
		// both go on, each with the session it now has
		for i := 0; i < 4; i++ {
			t1, t2 := c.text(), c.text()
			w1, w2 := a.enc(c, b, t1), b.enc(c, a, t2)
			b.mustDec(c, a, w1, t1)
			a.mustDec(c, b, w2, t2)
		}
	})
	t.Case("a session once used is archived", t.n(3), func(c *C) {
		// also when the record has never been serialised
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, false)
		c.start(a, b, -1)
		w1 := a.enc(c, b, []byte("one"))
		c.start(a, b, -1)
		w2 := a.enc(c, b, []byte("two"))
		v := view(a.rec(b))
		c.Check(len(v.PreviousStates) == 1, "the first session is overwritten")
		b.mustDec(c, a, w1, []byte("one"))
		r1 := b.enc(c, a, []byte("re one"))
		b.mustDec(c, a, w2, []byte("two"))
		c.Check(len(view(b.rec(a)).PreviousStates) == 1, "the receiver's first session is overwritten")
		r2 := b.enc(c, a, []byte("re two"))
		a.mustDec(c, b, r1, []byte("re one"))
		a.mustDec(c, b, r2, []byte("re two"))
	})
}

// anyState is a stored state in which any part may be missing.
func (c *C) anyState() *record.StateStructure {
	some := func() bool { return c.r.Intn(4) > 0 }
	d := &record.StateStructure{ReceiverChains: []*record.ChainStructure{}}
	if c.r.Intn(6) == 0 {
		return d
	}
	pub := func() []byte { return rkey(c.r).PublicKey().Serialize() }
	bs := func(x [32]byte) []byte { return x[:] }
	ch := func(private bool) *record.ChainStructure {
		k := rkey(c.r)
		x := &record.ChainStructure{SenderRatchetKeyPublic: k.PublicKey().Serialize(), ChainKey: &chain.KeyStructure{Key: rb(c.r, 32), Index: c.r.Uint32()}, MessageKeys: []*message.KeysStructure{}}
		if private {
			x.SenderRatchetKeyPrivate = bs(k.PrivateKey().Serialize())
		}
		for i := c.r.Intn(4); i > 0; i-- {
			x.MessageKeys = append(x.MessageKeys, &message.KeysStructure{CipherKey: rb(c.r, 32), MacKey: rb(c.r, 32), IV: rb(c.r, 16), Index: c.r.Uint32() >> c.r.Intn(32)})
		}
		return x
	}
	if some() {
		d.LocalIdentityPublic = pub()
	}
	if some() {
		d.RemoteIdentityPublic = pub()
	}
	if some() {
		d.LocalRegistrationID = c.r.Uint32()
	}
	if some() {
		d.RemoteRegistrationID = c.r.Uint32()
	}
	d.NeedsRefresh = c.r.Intn(2) == 0
	if !some() {
		d.PendingKeyExchange = &record.PendingKeyExchangeStructure{
			Sequence:                c.r.Uint32(),
			LocalBaseKeyPublic:      rb(c.r, 32),
			LocalBaseKeyPrivate:     rb(c.r, 32),
			LocalRatchetKeyPublic:   rb(c.r, 32),
			LocalRatchetKeyPrivate:  rb(c.r, 32),
			LocalIdentityKeyPublic:  rb(c.r, 32),
			LocalIdentityKeyPrivate: rb(c.r, 32),
		}
	}
	if some() {
		id := optional.NewOptionalUint32(c.r.Uint32())
		if !some() {
			id = optional.NewEmptyUint32()
		}
		d.PendingPreKey = &record.PendingPreKeyStructure{PreKeyID: id, SignedPreKeyID: c.r.Uint32(), BaseKey: pub()}
	}
	if some() {
		d.PreviousCounter = c.r.Uint32()
	}
	if some() {
		d.RootKey = rb(c.r, 32)
	}
	if some() {
		d.SenderBaseKey = pub()
	}
	if some() {
		d.SenderChain = ch(some())
	}
	for i := c.r.Intn(6); i > 0; i-- {
		d.ReceiverChains = append(d.ReceiverChains, ch(!some()))
	}
	if some() {
		d.SessionVersion = 3
	}
	return d
}

func c11(t *T) {
	t.Case("conversation", t.n(8), func(c *C) {
		// the same conversation, once with live records and once with records
		// restored from bytes before every step
		ser := c.ser()
		a, b := newUser(c, "alice", ser, true), newUser(c, "bob", ser, true)
		c.start(a, b, int64(c.r.Intn(4))-1)
		type pend struct {
			from, to *user
			w        *wire
			text     []byte
		}
		var pool []pend
		send := func(x, y *user) {
			text := rb(c.r, c.size(20))
			pool = append(pool, pend{x, y, x.enc(c, y, text), text})
		}
		send(a, b)
		b.mustDec(c, a, pool[0].w, pool[0].text)
		pool = nil
		for i := 0; i < 40; i++ {
			switch c.r.Intn(6) {
			case 0:
				send(a, b)
			case 1:
				send(b, a)
			case 2:
				if c.r.Intn(4) == 0 {
					c.start(a, b, -1)
					send(a, b)
				}
			default:
				if len(pool) > 0 {
					k := c.r.Intn(len(pool))
					p := pool[k]
					pool = append(append([]pend{}, pool[:k]...), pool[k+1:]...)
					w := p.w
					p.to.mustDec(c, p.from, w, p.text)
					p.to.mustReject(c, p.from, &wire{sig: w.inner()}, "replay after restoring")
				}
			}
			for _, u := range []*user{a, b} {
				p := b
				if u == b {
					p = a
				}
				c.sameSession(u.rec(p), ser)
				c.sameSession(u.st.live[p.addr.String()], ser)
			}
		}
		for _, p := range pool {
			p.to.mustDec(c, p.from, p.w, p.text)
		}
	})
	t.Case("prekeys", t.n(10), func(c *C) {
		for _, ser := range []*serialize.Serializer{jsonSer, protoSer} {
			id := c.r.Uint32()
			kp := rkey(c.r)
			r := record.NewPreKey(id, kp, ser.PreKeyRecord)
			q, err := record.NewPreKeyFromBytes(r.Serialize(), ser.PreKeyRecord)
			c.Check(err == nil, "%v", err)
			c.Check(q.ID().Value == id && !q.ID().IsEmpty, "prekey id %d -> %d", id, q.ID().Value)
			c.Check(q.KeyPair().PublicKey().PublicKey() == kp.PublicKey().PublicKey(), "public key %x -> %x", kp.PublicKey().Serialize(), q.KeyPair().PublicKey().Serialize())
			c.Check(q.KeyPair().PrivateKey().Serialize() == kp.PrivateKey().Serialize(), "private key")
			c.Check(bytes.Equal(q.Serialize(), r.Serialize()), "serialised again")
			var sig [64]byte
			copy(sig[:], rb(c.r, 64))
			ts := int64(c.r.Uint64())
			if c.r.Intn(2) == 0 {
				ts = int64(c.r.Intn(1 << 40))
			}
			s := record.NewSignedPreKey(id, ts, kp, sig, ser.SignedPreKeyRecord)
			z, err := record.NewSignedPreKeyFromBytes(s.Serialize(), ser.SignedPreKeyRecord)
			c.Check(err == nil, "%v", err)
			c.Check(z.ID() == id && z.Timestamp() == ts && z.Signature() == sig, "id %d -> %d, timestamp %d -> %d, signature %x -> %x", id, z.ID(), ts, z.Timestamp(), sig, z.Signature())
			c.Check(z.KeyPair().PublicKey().PublicKey() == kp.PublicKey().PublicKey() && z.KeyPair().PrivateKey().Serialize() == kp.PrivateKey().Serialize(), "keys of a signed prekey")
			c.Check(bytes.Equal(z.Serialize(), s.Serialize()), "serialised again")
		}
	})
	t.Case("states", t.n(6), func(c *C) {
		// states built directly, with everything set
		ser := c.ser()
		s := record.NewState(ser.State)
		s.SetVersion(3)
		s.SetLocalIdentityKey(ridentity(c.r).PublicKey())
		s.SetRemoteIdentityKey(ridentity(c.r).PublicKey())
		s.SetLocalRegistrationID(c.r.Uint32())
		s.SetRemoteRegistrationID(c.r.Uint32())
		s.SetPreviousCounter(c.r.Uint32())
		s.SetSenderBaseKey(rkey(c.r).PublicKey().Serialize())
		a, b := pair(c, ser, false)
		full := a.rec(b).SessionState()
		s.SetRootKey(full.RootKey())
		s.SetSenderChain(rkey(c.r), full.SenderChainKey())
		var last ecc.ECPublicKeyable
		var lastFrom uint32
		for i := c.r.Intn(6); i >= 0; i-- {
			k := rkey(c.r).PublicKey()
			s.AddReceiverChain(k, full.SenderChainKey())
			last, lastFrom = k, full.SenderChainKey().Index()
			for j := c.r.Intn(5); j > 0; j-- {
				s.SetMessageKeys(k, full.SenderChainKey().MessageKeys())
				full.SetSenderChainKey(full.SenderChainKey().NextKey())
			}
			if strings.HasPrefix(c.name, "states/0@") && i < 1 {
				// as many kept keys as there can be
				for j := []int{998, 1499, 1995}[c.r.Intn(3)]; j > 0; j-- {
					s.SetMessageKeys(k, full.SenderChainKey().MessageKeys())
					full.SetSenderChainKey(full.SenderChainKey().NextKey())
				}
			}
		}
		switch c.r.Intn(3) {
		case 0:
			s.SetUnacknowledgedPreKeyMessage(optional.NewOptionalUint32(c.r.Uint32()), c.r.Uint32(), rkey(c.r).PublicKey())
		case 1:
			s.SetUnacknowledgedPreKeyMessage(optional.NewEmptyUint32(), c.r.Uint32(), rkey(c.r).PublicKey())
		}
		q, err := record.NewStateFromBytes(s.Serialize(), ser.State)
		c.Check(err == nil, "restoring a state: %v", err)
		c.sameState(s, q)
		c.Check(bytes.Equal(q.Serialize(), s.Serialize()), "serialised again")
		for n := lastFrom; n < full.SenderChainKey().Index(); n++ {
			c.Check(s.HasMessageKeys(last, n) && q.HasMessageKeys(last, n), "the kept key %d of %d is lost", n-lastFrom, full.SenderChainKey().Index()-lastFrom)
		}
		c.sameSession(record.NewSessionFromState(s, ser.Session), ser)
		// fields the public setters do not reach
		d, err := ser.State.Deserialize(s.Serialize())
		c.Check(err == nil, "deserialising a state: %v", err)
		d.NeedsRefresh = c.r.Intn(2) == 0
		if c.r.Intn(2) == 0 {
			k := []*ecc.ECKeyPair{rkey(c.r), rkey(c.r), rkey(c.r)}
			bs := func(x [32]byte) []byte { return x[:] }
			d.PendingKeyExchange = &record.PendingKeyExchangeStructure{
				Sequence:                c.r.Uint32(),
				LocalBaseKeyPublic:      bs(k[0].PublicKey().PublicKey()),
				LocalBaseKeyPrivate:     bs(k[0].PrivateKey().Serialize()),
				LocalRatchetKeyPublic:   bs(k[1].PublicKey().PublicKey()),
				LocalRatchetKeyPrivate:  bs(k[1].PrivateKey().Serialize()),
				LocalIdentityKeyPublic:  bs(k[2].PublicKey().PublicKey()),
				LocalIdentityKeyPrivate: bs(k[2].PrivateKey().Serialize()),
			}
		}
		raw := ser.State.Serialize(d)
		q, err = record.NewStateFromBytes(raw, ser.State)
		c.Check(err == nil, "restoring a state: %v", err)
		d2, err := ser.State.Deserialize(q.Serialize())
		c.Check(err == nil && js(d2) == js(d), "a stored state %s comes back as %s", js(d), js(d2))
	})
	t.Case("stored structures", t.n(40), func(c *C) {
		// the stored lists, whether absent or empty
		js := func(x interface{}) string {
			t := js(x)
			for _, f := range []string{"ReceiverChains", "MessageKeys", "PreviousStates", "SenderKeyStates", "Keys"} {
				t = strings.Replace(t, "\""+f+"\":null", "\""+f+"\":[]", -1)
			}
			return t
		}
		ser := c.ser()
		x := &record.SessionStructure{SessionState: c.anyState(), PreviousStates: []*record.StateStructure{}}
		for i := []int{0, 1, 2, 5, 39, 40}[c.r.Intn(6)]; i > 0; i-- {
			x.PreviousStates = append(x.PreviousStates, c.anyState())
		}
		stored := ser.Session.Serialize(x)
		want, err := ser.Session.Deserialize(stored)
		c.Check(err == nil, "deserialising a session: %v", err)
		if ser == jsonSer {
			c.Check(js(want) == js(x), "the JSON form of %s is read as %s", js(x), js(want))
		}
		r, err := record.NewSessionFromBytes(stored, ser.Session, ser.State)
		c.Check(err == nil, "restoring a session: %v", err)
		got, err := ser.Session.Deserialize(r.Serialize())
		c.Check(err == nil && js(got) == js(want), "a stored session %s comes back as %s", js(want), js(got))

		g := &grecord.SenderKeyStructure{SenderKeyStates: []*grecord.SenderKeyStateStructure{}}
		for i := c.r.Intn(5); i > 0; i-- {
			k := rkey(c.r)
			st := &grecord.SenderKeyStateStructure{
				Keys:             []*gratchet.SenderMessageKeyStructure{},
				KeyID:            c.r.Uint32(),
				SigningKeyPublic: k.PublicKey().Serialize(),
				SenderChainKey:   &gratchet.SenderChainKeyStructure{Iteration: c.r.Uint32(), ChainKey: rb(c.r, 32)},
			}
			if c.r.Intn(2) == 0 {
				p := k.PrivateKey().Serialize()
				st.SigningKeyPrivate = p[:]
			}
			for j := c.r.Intn(5); j > 0; j-- {
				key, err := gratchet.NewSenderMessageKey(c.r.Uint32(), rb(c.r, 32))
				c.Check(err == nil, "sender message key: %v", err)
				st.Keys = append(st.Keys, gratchet.NewStructFromSenderMessageKey(key))
				q := st.Keys[len(st.Keys)-1]
				c.Check(q.Iteration == key.Iteration() && bytes.Equal(q.IV, key.Iv()) && bytes.Equal(q.CipherKey, key.CipherKey()) && bytes.Equal(q.Seed, key.Seed()), "a sender message key %+v is stored as %+v", key, q)
				z := gratchet.NewSenderMessageKeyFromStruct(q)
				c.Check(z.Iteration() == key.Iteration() && bytes.Equal(z.Iv(), key.Iv()) && bytes.Equal(z.CipherKey(), key.CipherKey()) && bytes.Equal(z.Seed(), key.Seed()), "a sender message key %+v comes back as %+v", key, z)
			}
			if n := len(g.SenderKeyStates); n > 0 && c.r.Intn(3) == 0 {
				st.KeyID = g.SenderKeyStates[c.r.Intn(n)].KeyID
			}
			g.SenderKeyStates = append(g.SenderKeyStates, st)
		}
		stored = ser.SenderKeyRecord.Serialize(g)
		gwant, err := ser.SenderKeyRecord.Deserialize(stored)
		c.Check(err == nil, "deserialising a sender key record: %v", err)
		q, err := grecord.NewSenderKeyFromBytes(stored, ser.SenderKeyRecord, ser.SenderKeyState)
		c.Check(err == nil, "restoring a sender key record: %v", err)
		ggot, err := ser.SenderKeyRecord.Deserialize(q.Serialize())
		c.Check(err == nil && js(ggot) == js(gwant), "a stored sender key record %s comes back as %s", js(gwant), js(ggot))
	})
	t.Case("groups", t.n(6), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, true), newUser(c, "bob", ser, true)
		n := protocol.NewSenderKeyName("g", a.addr)
		dm, err := a.gbuilder().Create(n)
		c.Check(err == nil, "Create: %v", err)
		b.gbuilder().Process(n, dm)
		type gm struct {
			m    *protocol.SenderKeyMessage
			text []byte
		}
		var pool []gm
		for i := 0; i < 20; i++ {
			text := rb(c.r, c.size(30))
			m, err := a.gcipher(n).Encrypt(text)
			c.Check(err == nil, "Encrypt: %v", err)
			pool = append(pool, gm{m.(*protocol.SenderKeyMessage), text})
		}
		for _, i := range c.r.Perm(20) {
			p, err := b.gcipher(n).Decrypt(pool[i].m)
			c.Check(err == nil && bytes.Equal(p, pool[i].text), "message %d after restoring: %v", i, err)
			for _, u := range []*user{a, b} {
				r := u.st.gr[skn(n)]
				q, err := grecord.NewSenderKeyFromBytes(r.Serialize(), ser.SenderKeyRecord, ser.SenderKeyState)
				c.Check(err == nil, "%v", err)
				c.Check(bytes.Equal(q.Serialize(), r.Serialize()), "sender key record: %s", diff(string(r.Serialize()), string(q.Serialize())))
				x, _ := r.SenderKeyState()
				y, _ := q.SenderKeyState()
				c.sameSK(x, y)
				z, err := grecord.NewSenderKeyStateFromBytes(x.Serialize(), ser.SenderKeyState)
				c.Check(err == nil, "%v", err)
				c.sameSK(x, z)
			}
		}
	})
	t.Case("group records", t.n(4), func(c *C) {
		ser := c.ser()
		r := grecord.NewSenderKey(ser.SenderKeyRecord, ser.SenderKeyState)
		n := c.r.Intn(6)
		if c.r.Intn(3) == 0 {
			n = 2003
		}
		type e struct {
			id, it uint32
			ck     []byte
			pub    [32]byte
		}
		var model []e
		for i := 0; i < n; i++ {
			x := e{uint32(i), c.r.Uint32(), rb(c.r, 32), [32]byte{}}
			copy(x.pub[:], rb(c.r, 32))
			r.AddSenderKeyState(x.id, x.it, x.ck, ecc.NewDjbECPublicKey(x.pub))
			model = append(model, x)
		}
		if len(model) > 2000 {
			model = model[len(model)-2000:]
		}
		q, err := grecord.NewSenderKeyFromBytes(r.Serialize(), ser.SenderKeyRecord, ser.SenderKeyState)
		c.Check(err == nil, "%v", err)
		c.Note("%d states", n)
		c.Check(q.IsEmpty() == (n == 0), "IsEmpty")
		for i, m := range model {
			if len(model) > 20 && i > 3 && i < len(model)-3 {
				continue
			}
			for _, rec := range []*grecord.SenderKey{r, q} {
				s, err := rec.GetSenderKeyStateByID(m.id)
				c.Check(err == nil, "state %d: %v", m.id, err)
				c.Check(s.KeyID() == m.id && s.SenderChainKey().Iteration() == m.it && bytes.Equal(s.SenderChainKey().Seed(), m.ck) && s.SigningKey().PublicKey().PublicKey() == m.pub, "state %d", m.id)
				c.Check(s.SigningKey().PrivateKey() == nil, "state %d has a private key", m.id)
			}
		}
		if n == 2003 {
			for _, rec := range []*grecord.SenderKey{r, q} {
				_, err := rec.GetSenderKeyStateByID(2)
				c.Check(err != nil, "more than 2000 states")
			}
		}
		c.Check(bytes.Equal(q.Serialize(), r.Serialize()), "serialised again")
		// a sender's own state
		kp := rkey(c.r)
		r.SetSenderKeyState(77, 5, rb(c.r, 32), kp)
		q, err = grecord.NewSenderKeyFromBytes(r.Serialize(), ser.SenderKeyRecord, ser.SenderKeyState)
		c.Check(err == nil, "%v", err)
		x, _ := r.SenderKeyState()
		y, err := q.SenderKeyState()
		c.Check(err == nil, "%v", err)
		c.sameSK(x, y)
		c.Check(y.SigningKey().PrivateKey() != nil && y.SigningKey().PrivateKey().Serialize() == kp.PrivateKey().Serialize(), "private signing key")
		// restored records can be used further
		q.AddSenderKeyState(1234, 1, rb(c.r, 32), rkey(c.r).PublicKey())
		z, err := grecord.NewSenderKeyFromBytes(q.Serialize(), ser.SenderKeyRecord, ser.SenderKeyState)
		c.Check(err == nil && bytes.Equal(z.Serialize(), q.Serialize()), "a restored record with a state added: %v", err)
	})
}

func (c *C) sameSK(x, y *grecord.SenderKeyState) {
	c.Check(x.KeyID() == y.KeyID(), "key id %d -> %d", x.KeyID(), y.KeyID())
	c.Check(x.SenderChainKey().Iteration() == y.SenderChainKey().Iteration() && bytes.Equal(x.SenderChainKey().Seed(), y.SenderChainKey().Seed()), "sender chain key")
	c.Check(x.SigningKey().PublicKey().PublicKey() == y.SigningKey().PublicKey().PublicKey(), "signing key")
	c.Check((x.SigningKey().PrivateKey() == nil) == (y.SigningKey().PrivateKey() == nil), "presence of the private signing key")
	if x.SigningKey().PrivateKey() != nil {
		c.Check(x.SigningKey().PrivateKey().Serialize() == y.SigningKey().PrivateKey().Serialize(), "private signing key")
	}
	c.Check(bytes.Equal(x.Serialize(), y.Serialize()), "sender key state serialised again")
	for i := uint32(0); i < 30; i++ {
		c.Check(x.HasSenderMessageKey(i) == y.HasSenderMessageKey(i), "kept key %d", i)
	}
}

func (c *C) sameSession(r *record.Session, ser *serialize.Serializer) {
	q, err := record.NewSessionFromBytes(r.Serialize(), ser.Session, ser.State)
	c.Check(err == nil, "restoring a session: %v", err)
	c.Check(bytes.Equal(q.Serialize(), r.Serialize()), "restored session serialises differently: %s", diff(string(r.Serialize()), string(q.Serialize())))
	c.sameState(r.SessionState(), q.SessionState())
	c.Check(len(r.PreviousSessionStates()) == len(q.PreviousSessionStates()), "number of archived states")
	for i, s := range r.PreviousSessionStates() {
		c.sameState(s, q.PreviousSessionStates()[i])
	}
	c.Check(!q.IsFresh(), "a restored record is fresh")
}

func (c *C) sameState(x, y *record.State) {
	c.Check(x.Version() == y.Version() && x.PreviousCounter() == y.PreviousCounter() && x.LocalRegistrationID() == y.LocalRegistrationID() && x.RemoteRegistrationID() == y.RemoteRegistrationID(), "version, counter or registration ids")
	c.Check(bytes.Equal(x.SenderBaseKey(), y.SenderBaseKey()), "sender base key")
	c.Check(x.HasSenderChain() == y.HasSenderChain(), "presence of the sender chain")
	if !x.HasSenderChain() {
		return
	}
	c.Check(bytes.Equal(x.LocalIdentityKey().Serialize(), y.LocalIdentityKey().Serialize()) && bytes.Equal(x.RemoteIdentityKey().Serialize(), y.RemoteIdentityKey().Serialize()), "identity keys")
	c.Check(bytes.Equal(x.RootKey().Bytes(), y.RootKey().Bytes()), "root key")
	c.Check(x.SenderRatchetKey().PublicKey() == y.SenderRatchetKey().PublicKey() && x.SenderRatchetKeyPair().PrivateKey().Serialize() == y.SenderRatchetKeyPair().PrivateKey().Serialize(), "sender ratchet key")
	c.Check(x.SenderChainKey().Index() == y.SenderChainKey().Index() && bytes.Equal(x.SenderChainKey().Key(), y.SenderChainKey().Key()), "sender chain key")
	c.Check(x.HasUnacknowledgedPreKeyMessage() == y.HasUnacknowledgedPreKeyMessage(), "pending prekey")
	if x.HasUnacknowledgedPreKeyMessage() {
		p, _ := x.UnackPreKeyMessageItems()
		q, _ := y.UnackPreKeyMessageItems()
		c.Check(p.SignedPreKeyID() == q.SignedPreKeyID() && p.BaseKey().PublicKey() == q.BaseKey().PublicKey(), "pending prekey message items")
		pe, qe := p.PreKeyID() == nil || p.PreKeyID().IsEmpty, q.PreKeyID() == nil || q.PreKeyID().IsEmpty
		c.Check(pe == qe && (pe || p.PreKeyID().Value == q.PreKeyID().Value), "pending one-time prekey id")
	}
	// derived keys agree
	kx, ky := x.SenderChainKey().MessageKeys(), y.SenderChainKey().MessageKeys()
	c.Check(bytes.Equal(kx.CipherKey(), ky.CipherKey()) && bytes.Equal(kx.MacKey(), ky.MacKey()) && bytes.Equal(kx.Iv(), ky.Iv()), "message keys derived from the restored chain")
	var v stateV
	if json.Unmarshal(x.Serialize(), &v) == nil {
		for _, ch := range v.ReceiverChains {
			k, err := ecc.DecodePoint(ch.SenderRatchetKeyPublic, 0)
			c.Check(err == nil, "receiver chain key: %v", err)
			c.Check(y.HasReceiverChain(k), "receiver chain lost")
			rx, ry := x.ReceiverChainKey(k), y.ReceiverChainKey(k)
			c.Check(rx.Index() == ry.Index() && bytes.Equal(rx.Key(), ry.Key()), "receiver chain key")
			for _, m := range ch.MessageKeys {
				c.Check(y.HasMessageKeys(k, m.Index), "kept key %d lost", m.Index)
			}
		}
	}
}

func optEq(a, b *optional.Uint32) bool {
	ae, be := a == nil || a.IsEmpty, b == nil || b.IsEmpty
	return ae == be && (ae || a.Value == b.Value)
}

func c12(t *T) {
	sers := []*serialize.Serializer{protoSer, jsonSer}
	t.Case("malformed JSON", 1, func(c *C) {
		for _, x := range []string{"", "{", "nope", "[1]", "{\"Version\":\"x\"}", "{\"Version\":3}}", "7"} {
			b := []byte(x)
			_, err := protocol.NewSignalMessageFromBytes(b, jsonSer.SignalMessage)
			c.Check(err != nil, "signal message %q accepted", x)
			_, err = protocol.NewPreKeySignalMessageFromBytes(b, jsonSer.PreKeySignalMessage, jsonSer.SignalMessage)
			c.Check(err != nil, "prekey message %q accepted", x)
			_, err = protocol.NewSenderKeyMessageFromBytes(b, jsonSer.SenderKeyMessage)
			c.Check(err != nil, "group message %q accepted", x)
			_, err = protocol.NewSenderKeyDistributionMessageFromBytes(b, jsonSer.SenderKeyDistributionMessage)
			c.Check(err != nil, "distribution message %q accepted", x)
			_, err = jsonSer.SignalMessage.Deserialize(b)
			c.Check(err != nil, "signal serializer reads %q", x)
			_, err = jsonSer.PreKeySignalMessage.Deserialize(b)
			c.Check(err != nil, "prekey message serializer reads %q", x)
			_, err = jsonSer.SenderKeyMessage.Deserialize(b)
			c.Check(err != nil, "group message serializer reads %q", x)
			_, err = jsonSer.SenderKeyDistributionMessage.Deserialize(b)
			c.Check(err != nil, "distribution message serializer reads %q", x)
		}
	})
	t.Case("signal messages", t.n(12), func(c *C) {
		for si, ser := range sers {
			ctr := []uint32{0, 1, 127, 128, 1 << 31, 0xFFFFFFFF, c.r.Uint32()}
			cn, pn := ctr[c.r.Intn(len(ctr))], ctr[c.r.Intn(len(ctr))]
			rat := rkey(c.r).PublicKey()
			body, mk := rb(c.r, 1+c.r.Intn(80)), rb(c.r, 32)
			ia, ib := ridentity(c.r).PublicKey(), ridentity(c.r).PublicKey()
			m, err := protocol.NewSignalMessage(3, cn, pn, mk, rat, body, ia, ib, ser.SignalMessage)
			c.Check(err == nil, "NewSignalMessage: %v", err)
			raw := m.Serialize()
			c.Note("%d %d %d", cn, pn, len(body))
			if si == 0 {
				content := append(append(append(pbBytes(1, rat.Serialize()), pbVar(2, uint64(cn))...), pbVar(3, uint64(pn))...), pbBytes(4, body)...)
				// field order of the ProtoBuf encoding is the encoder's choice; compare by parsing the expected text as well
				mac := signalMac(mk, ia.Serialize(), ib.Serialize(), 3, content)
				want := append(append([]byte("3"), content...), mac...)
				c.Check(bytes.Equal(raw, want), "wire form\n%x, expected\n%x", raw, want)
			}
			q, err := protocol.NewSignalMessageFromBytes(raw, ser.SignalMessage)
			c.Check(err == nil, "parsing: %v", err)
			c.Check(q.Counter() == cn && q.Structure().PreviousCounter == pn && q.MessageVersion() == 3 && bytes.Equal(q.Body(), body) && bytes.Equal(q.SenderRatchetKey().Serialize(), rat.Serialize()) && bytes.Equal(q.Structure().Mac, m.Structure().Mac), "parsed message %s, sent %s", js(q.Structure()), js(m.Structure()))
			c.Check(bytes.Equal(q.Serialize(), raw), "serialised again")
			c.Check(q.VerifyMac(3, ia, ib, mk) == nil, "MAC of the parsed message")
			// a session of version 2 sends messages of version 2
			if ser == jsonSer {
				m, err := protocol.NewSignalMessage(2, cn, pn, mk, rat, body, ia, ib, ser.SignalMessage)
				c.Check(err == nil, "NewSignalMessage of version 2: %v", err)
				q, err := protocol.NewSignalMessageFromBytes(m.Serialize(), ser.SignalMessage)
				c.Check(err == nil, "parsing a message of version 2: %v", err)
				c.Check(q.MessageVersion() == 2 && q.Structure().Version == 2 && m.Structure().Version == 2 && q.Counter() == cn && bytes.Equal(q.Body(), body) && js(q.Structure()) == js(m.Structure()), "parsed message %s, sent %s", js(q.Structure()), js(m.Structure()))
				z, err := protocol.NewSignalMessageFromStruct(q.Structure(), ser.SignalMessage)
				c.Check(err == nil && bytes.Equal(z.Serialize(), m.Serialize()), "message of version 2 from its structure: %v", err)
				c.Check(q.VerifyMac(2, ia, ib, mk) == nil, "MAC of the parsed message of version 2")
			}
		}
	})
	t.Case("prekey messages", t.n(12), func(c *C) {
		for si, ser := range sers {
			ids := []uint32{0, 1, 0xFFFFFF, 0xFFFFFFFF, c.r.Uint32()}
			var id *optional.Uint32
			switch c.r.Intn(4) {
			case 0:
				id = optional.NewEmptyUint32()
			default:
				id = optional.NewOptionalUint32(ids[c.r.Intn(len(ids))])
			}
			reg, spk := ids[c.r.Intn(len(ids))], ids[c.r.Intn(len(ids))]
			base, ik := rkey(c.r).PublicKey(), ridentity(c.r).PublicKey()
			in, err := protocol.NewSignalMessage(3, c.r.Uint32(), c.r.Uint32(), rb(c.r, 32), rkey(c.r).PublicKey(), rb(c.r, 16), ik, ik, ser.SignalMessage)
			c.Check(err == nil, "%v", err)
			m, err := protocol.NewPreKeySignalMessage(3, reg, id, spk, base, ik, in, ser.PreKeySignalMessage, ser.SignalMessage)
			c.Check(err == nil, "NewPreKeySignalMessage: %v", err)
			raw := m.Serialize()
			c.Note("%v %d %d", *id, reg, spk)
			if si == 0 {
				var want []byte
				if !id.IsEmpty {
					want = pbVar(1, uint64(id.Value))
				}
				want = append(append(append(want, pbBytes(2, base.Serialize())...), pbBytes(3, ik.Serialize())...), pbBytes(4, in.Serialize())...)
				want = append(append(want, pbVar(5, uint64(reg))...), pbVar(6, uint64(spk))...)
				c.Check(bytes.Equal(raw, append([]byte("3"), want...)), "wire form\n%x, expected\n%x", raw, append([]byte("3"), want...))
			}
			q, err := protocol.NewPreKeySignalMessageFromBytes(raw, ser.PreKeySignalMessage, ser.SignalMessage)
			c.Check(err == nil, "parsing: %v", err)
			c.Check(optEq(q.PreKeyID(), id), "one-time prekey id %s, sent %s", js(q.PreKeyID()), js(id))
			c.Check(q.RegistrationID() == reg && q.SignedPreKeyID() == spk && q.MessageVersion() == 3, "registration id %d -> %d, signed prekey id %d -> %d", reg, q.RegistrationID(), spk, q.SignedPreKeyID())
			c.Check(bytes.Equal(q.BaseKey().Serialize(), base.Serialize()) && bytes.Equal(q.IdentityKey().Serialize(), ik.Serialize()), "keys")
			c.Check(bytes.Equal(q.WhisperMessage().Serialize(), in.Serialize()), "inner message")
			c.Check(bytes.Equal(q.Serialize(), raw), "serialised again")
		}
	})
	t.Case("group messages", t.n(12), func(c *C) {
		for si, ser := range sers {
			ids := []uint32{0, 1, 0x7FFFFFFF, 0xFFFFFFFF, c.r.Uint32()}
			id, it := ids[c.r.Intn(len(ids))], ids[c.r.Intn(len(ids))]
			kp := rkey(c.r)
			body, ck := rb(c.r, 1+c.r.Intn(60)), rb(c.r, 32)
			m := protocol.NewSenderKeyMessage(id, it, body, kp.PrivateKey(), ser.SenderKeyMessage)
			raw := m.SignedSerialize()
			c.Note("%d %d", id, it)
			q, err := protocol.NewSenderKeyMessageFromBytes(raw, ser.SenderKeyMessage)
			c.Check(err == nil, "parsing: %v", err)
			c.Check(q.KeyID() == id && q.Iteration() == it && bytes.Equal(q.Ciphertext(), body) && q.Version() == 3 && q.Signature() == m.Signature(), "parsed group message: id %d -> %d, iteration %d -> %d", id, q.KeyID(), it, q.Iteration())
			c.Check(bytes.Equal(q.SignedSerialize(), raw) && bytes.Equal(q.Serialize(), m.Serialize()), "serialised again")
			c.Check(ecc.VerifySignature(kp.PublicKey(), q.Serialize(), q.Signature()), "signature of the parsed message")
			if si == 0 {
				want := append(append(append([]byte("3"), pbVar(1, uint64(id))...), pbVar(2, uint64(it))...), pbBytes(3, body)...)
				c.Check(bytes.Equal(m.Serialize(), want), "wire form %x, expected %x", m.Serialize(), want)
				sg := m.Signature()
				c.Check(bytes.Equal(raw, append(want, sg[:]...)), "signed wire form")
			}
			d := protocol.NewSenderKeyDistributionMessage(id, it, ck, kp.PublicKey(), ser.SenderKeyDistributionMessage)
			raw = d.Serialize()
			if si == 0 {
				want := append(append(append(append([]byte("3"), pbVar(1, uint64(id))...), pbVar(2, uint64(it))...), pbBytes(3, ck)...), pbBytes(4, kp.PublicKey().Serialize())...)
				c.Check(bytes.Equal(raw, want), "wire form %x, expected %x", raw, want)
			}
			e, err := protocol.NewSenderKeyDistributionMessageFromBytes(raw, ser.SenderKeyDistributionMessage)
			c.Check(err == nil, "parsing: %v", err)
			c.Check(e.ID() == id && e.Iteration() == it && bytes.Equal(e.ChainKey(), ck) && bytes.Equal(e.SignatureKey().Serialize(), kp.PublicKey().Serialize()), "parsed distribution message")
			c.Check(bytes.Equal(e.Serialize(), raw), "serialised again")
		}
	})
	t.Case("sent messages", t.n(4), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, false)
		opk := int64(c.r.Intn(3)) - 1
		c.start(a, b, opk)
		for i := 0; i < 3; i++ {
			m, err := a.cipher(b).Encrypt(rb(c.r, c.r.Intn(30)))
			c.Check(err == nil, "Encrypt: %v", err)
			p := m.(*protocol.PreKeySignalMessage)
			w, err := parse(m.Serialize(), m.Type(), ser)
			c.Check(err == nil, "parsing a sent message: %v", err)
			c.Check(optEq(w.pre.PreKeyID(), p.PreKeyID()) && w.pre.PreKeyID().IsEmpty == (opk < 0), "one-time prekey id")
			c.Check(bytes.Equal(w.pre.Serialize(), m.Serialize()), "serialised again")
		}
	})
	t.Case("versions and fields", t.n(2), func(c *C) {
		ser := protoSer
		rat, body := rkey(c.r).PublicKey().Serialize(), rb(c.r, 16)
		f := [][]byte{pbBytes(1, rat), pbVar(2, 3), pbVar(3, 1), pbBytes(4, body)}
		join := func(v byte, skip int, fs [][]byte, tail []byte) []byte {
			out := []byte{v}
			for i, x := range fs {
				if i != skip {
					out = append(out, x...)
				}
			}
			return append(out, tail...)
		}
		mac := rb(c.r, 8)
		for v := 0; v < 256; v++ {
			_, err := protocol.NewSignalMessageFromBytes(join(byte(v), -1, f, mac), ser.SignalMessage)
			ok := v>>4 == 3 || v>>4 == 2
			c.Check((err == nil) == ok, "signal message with version byte %#x: %v", v, err)
		}
		for _, i := range []int{0, 3} {
			_, err := protocol.NewSignalMessageFromBytes(join('3', i, f, mac), ser.SignalMessage)
			c.Check(err != nil, "signal message without field %d", i+1)
		}
		in := join('3', -1, f, mac)
		base, ik := rkey(c.r).PublicKey().Serialize(), rkey(c.r).PublicKey().Serialize()
		pf := [][]byte{pbVar(1, 9), pbBytes(2, base), pbBytes(3, ik), pbBytes(4, in), pbVar(5, 8), pbVar(6, 7)}
		pp := func(raw []byte) error {
			_, err := protocol.NewPreKeySignalMessageFromBytes(raw, ser.PreKeySignalMessage, ser.SignalMessage)
			return err
		}
		for v := 0; v < 256; v++ {
			ok := v>>4 == 3 || v>>4 == 2
			c.Check((pp(join(byte(v), -1, pf, nil)) == nil) == ok, "prekey message with version byte %#x", v)
		}
		for i := 1; i <= 3; i++ {
			c.Check(pp(join('3', i, pf, nil)) != nil, "prekey message without field %d", i+1)
		}
		c.Check(pp(join('3', 0, pf, nil)) == nil, "prekey message without one-time prekey id")
		gf := [][]byte{pbVar(1, 9), pbVar(2, 4), pbBytes(3, body)}
		sig := rb(c.r, 64)
		for v := 0; v < 256; v++ {
			_, err := protocol.NewSenderKeyMessageFromBytes(join(byte(v), -1, gf, sig), ser.SenderKeyMessage)
			ok := v>>4 == 3 || v>>4 == 2
			c.Check((err == nil) == ok, "group message with version byte %#x: %v", v, err)
		}
		_, err := protocol.NewSenderKeyMessageFromBytes(join('3', 2, gf, sig), ser.SenderKeyMessage)
		c.Check(err != nil, "group message without ciphertext")
		df := [][]byte{pbVar(1, 9), pbVar(2, 4), pbBytes(3, rb(c.r, 32)), pbBytes(4, rat)}
		for v := 0; v < 256; v++ {
			_, err := protocol.NewSenderKeyDistributionMessageFromBytes(join(byte(v), -1, df, nil), ser.SenderKeyDistributionMessage)
			ok := v>>4 == 3 || v>>4 == 2
			c.Check((err == nil) == ok, "distribution message with version byte %#x: %v", v, err)
		}
		for i := 2; i <= 3; i++ {
			_, err := protocol.NewSenderKeyDistributionMessageFromBytes(join('3', i, df, nil), ser.SenderKeyDistributionMessage)
			c.Check(err != nil, "distribution message without field %d", i+1)
		}
	})
	t.Case("structures", t.n(2), func(c *C) {
		rat := rkey(c.r).PublicKey().Serialize()
		for _, ser := range sers {
			for v := -3; v < 12; v++ {
				ok := v == 2 || v == 3
				_, err := protocol.NewSignalMessageFromStruct(&protocol.SignalMessageStructure{RatchetKey: rat, CipherText: []byte{1}, Version: v, Mac: rb(c.r, 8)}, ser.SignalMessage)
				c.Check((err == nil) == ok, "signal message structure of version %d: %v", v, err)
				in, _ := protocol.NewSignalMessageFromStruct(&protocol.SignalMessageStructure{RatchetKey: rat, CipherText: []byte{1}, Version: 3, Mac: rb(c.r, 8)}, ser.SignalMessage)
				ps := &protocol.PreKeySignalMessageStructure{BaseKey: rat, IdentityKey: rat, Message: in.Serialize(), Version: v, PreKeyID: optional.NewEmptyUint32()}
				_, err = protocol.NewPreKeySignalMessageFromStruct(ps, ser.PreKeySignalMessage, ser.SignalMessage)
				c.Check((err == nil) == ok, "prekey message structure of version %d: %v", v, err)
				if v < 0 {
					continue
				}
				_, err = protocol.NewSenderKeyMessageFromStruct(&protocol.SenderKeyMessageStructure{CipherText: []byte{1}, Version: uint32(v), Signature: rb(c.r, 64)}, ser.SenderKeyMessage)
				c.Check((err == nil) == ok, "group message structure of version %d: %v", v, err)
				_, err = protocol.NewSenderKeyDistributionMessageFromStruct(&protocol.SenderKeyDistributionMessageStructure{ChainKey: []byte{1}, SigningKey: rat, Version: uint32(v)}, ser.SenderKeyDistributionMessage)
				c.Check((err == nil) == ok, "distribution message structure of version %d: %v", v, err)
			}
			bad := func(why string, err error) { c.Check(err != nil, "%s is accepted", why) }
			_, err := protocol.NewSignalMessageFromStruct(&protocol.SignalMessageStructure{CipherText: []byte{1}, Version: 3}, ser.SignalMessage)
			bad("signal message without ratchet key", err)
			_, err = protocol.NewSignalMessageFromStruct(&protocol.SignalMessageStructure{RatchetKey: rat, Version: 3}, ser.SignalMessage)
			bad("signal message without ciphertext", err)
			in, _ := protocol.NewSignalMessageFromStruct(&protocol.SignalMessageStructure{RatchetKey: rat, CipherText: []byte{1}, Version: 3, Mac: rb(c.r, 8)}, ser.SignalMessage)
			for i, ps := range []*protocol.PreKeySignalMessageStructure{{IdentityKey: rat, Message: in.Serialize(), Version: 3}, {BaseKey: rat, Message: in.Serialize(), Version: 3}, {BaseKey: rat, IdentityKey: rat, Version: 3}} {
				_, err = protocol.NewPreKeySignalMessageFromStruct(ps, ser.PreKeySignalMessage, ser.SignalMessage)
				bad(fmt.Sprint("prekey message without required field ", i), err)
			}
			_, err = protocol.NewSenderKeyMessageFromStruct(&protocol.SenderKeyMessageStructure{Version: 3, Signature: rb(c.r, 64)}, ser.SenderKeyMessage)
			bad("group message without ciphertext", err)
			_, err = protocol.NewSenderKeyDistributionMessageFromStruct(&protocol.SenderKeyDistributionMessageStructure{SigningKey: rat, Version: 3}, ser.SenderKeyDistributionMessage)
			bad("distribution message without chain key", err)
			_, err = protocol.NewSenderKeyDistributionMessageFromStruct(&protocol.SenderKeyDistributionMessageStructure{ChainKey: []byte{1}, Version: 3}, ser.SenderKeyDistributionMessage)
			bad("distribution message without signing key", err)
		}
	})
}

// mutate returns a damaged form of one of the given texts.
func (c *C) mutate(good [][]byte) []byte {
	x := append([]byte{}, good[c.r.Intn(len(good))]...)
	for k := c.r.Intn(4); k >= 0; k-- {
		switch c.r.Intn(7) {
		case 0:
			x = x[:c.r.Intn(len(x)+1)]
		case 1:
			x = append(x, rb(c.r, c.r.Intn(9))...)
		case 2:
			if len(x) > 0 {
				x[c.r.Intn(len(x))] = byte(c.r.Intn(256))
			}
		case 3:
			if len(x) > 0 {
				x[c.r.Intn(len(x))] ^= 1 << uint(c.r.Intn(8))
			}
		case 4:
			if len(x) > 2 {
				i := c.r.Intn(len(x) - 1)
				j := i + 1 + c.r.Intn(len(x)-i-1)
				x = append(append([]byte{}, x[:i]...), x[j:]...)
			}
		case 5:
			y := good[c.r.Intn(len(good))]
			if len(y) > 0 && len(x) > 0 {
				x = append(x[:c.r.Intn(len(x))], y[c.r.Intn(len(y)):]...)
			}
		case 6:
			if len(x) > 0 {
				x[0] = '3'
			}
		}
	}
	return x
}

func c13(t *T) {
	t.Case("pairwise bytes", t.n(6), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, false)
		c.start(a, b, 1)
		w0 := a.enc(c, b, rb(c.r, 20))
		good := [][]byte{w0.raw, w0.pre.WhisperMessage().Serialize()}
		b.mustDec(c, a, w0, nil2(w0, b, a, c))
		c.talk(b, a)
		w1 := a.enc(c, b, rb(c.r, 3))
		good = append(good, w1.raw)
		fresh := newUser(c, "carl", ser, false)
		fresh.spkID = b.spkID
		good = append(good, nil, []byte{}, []byte("3"), []byte{0x33, 0x0a}, bytes.Repeat([]byte{'3'}, 9))
		for i := 0; i < 400; i++ {
			x := c.mutate(good)
			if c.r.Intn(20) == 0 {
				x = rb(c.r, c.r.Intn(100))
			}
			why := fmt.Sprintf("bytes %x", x)
			c.noPanic(why, func() {
				if m, err := protocol.NewSignalMessageFromBytes(x, ser.SignalMessage); err == nil {
					b.cipher(a).Decrypt(m)
					fresh.cipher(a).Decrypt(m)
					m.Serialize()
				}
				if m, err := protocol.NewPreKeySignalMessageFromBytes(x, ser.PreKeySignalMessage, ser.SignalMessage); err == nil {
					b.cipher(a).DecryptMessage(m)
					newUserLike(fresh).cipher(a).DecryptMessage(m)
					m.Serialize()
				}
				protocol.NewSenderKeyMessageFromBytes(x, ser.SenderKeyMessage)
				protocol.NewSenderKeyDistributionMessageFromBytes(x, ser.SenderKeyDistributionMessage)
			})
		}
	})
	t.Case("cipher without a builder", t.n(3), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, false)
		c.start(a, b, 1)
		w := a.enc(c, b, rb(c.r, 20))
		mk := func(u, p *user) *session.Cipher {
			return session.NewCipherFromSession(p.addr, u.st, u.st, u.st, ser.PreKeySignalMessage, ser.SignalMessage)
		}
		c.noPanic("a prekey message", func() {
			p, err := mk(b, a).DecryptMessage(w.pre)
			c.Check(err != nil && p == nil, "prekey message accepted without a builder")
			_, err = mk(newUserLike(b), a).DecryptMessage(w.pre)
			c.Check(err != nil, "prekey message accepted without a builder")
		})
		b.mustDec(c, a, w, nil2(w, b, a, c))
		w2 := a.enc(c, b, rb(c.r, 20))
		c.noPanic("prekey messages in a session", func() {
			p, err := mk(b, a).DecryptMessage(w.pre)
			c.Check(err != nil && p == nil, "prekey message accepted without a builder")
			p, err = mk(b, a).DecryptMessage(w2.pre)
			c.Check(err != nil && p == nil, "prekey message accepted without a builder")
		})
		c.talk(b, a)
		txt := rb(c.r, 9)
		c.noPanic("messages in a session", func() {
			m, err := mk(a, b).Encrypt(txt)
			c.Check(err == nil, "Encrypt: %v", err)
			v, err := parse(m.Serialize(), m.Type(), ser)
			c.Check(err == nil, "parsing: %v", err)
			p, err := mk(b, a).Decrypt(v.sig)
			c.Check(err == nil && bytes.Equal(p, txt), "Decrypt: %v", err)
			_, err = mk(b, a).Decrypt(v.sig)
			c.Check(err != nil, "decrypted twice")
		})
		c.talk(a, b)
		c.talk(b, a)
	})
	t.Case("short inputs", 1, func(c *C) {
		for _, ser := range []*serialize.Serializer{protoSer, jsonSer} {
			for n := 0; n < 100; n++ {
				for k := 0; k < 4; k++ {
					x := rb(c.r, n)
					if n > 0 {
						x[0] = []byte{'3', '2', '1', 0x33}[k]
					}
					if k == 3 { // a well formed unknown field
						x = bytes.Repeat([]byte{0x33}, n)
					}
					c.noPanic(fmt.Sprintf("bytes %x", x), func() {
						protocol.NewSignalMessageFromBytes(x, ser.SignalMessage)
						protocol.NewPreKeySignalMessageFromBytes(x, ser.PreKeySignalMessage, ser.SignalMessage)
						protocol.NewSenderKeyMessageFromBytes(x, ser.SenderKeyMessage)
						protocol.NewSenderKeyDistributionMessageFromBytes(x, ser.SenderKeyDistributionMessage)
					})
				}
			}
			for _, x := range []string{"null", "{}", "[]", "{\"Version\":3}", "\"3\"", "3", `{"Version":3,"RatchetKey":"","CipherText":""}`, `{"Version":3,"RatchetKey":"BQ==","CipherText":"AA==","BaseKey":"BQ==","IdentityKey":"BQ==","Message":"e30=","SigningKey":"","ChainKey":"AA=="}`} {
				c.noPanic(x, func() {
					protocol.NewSignalMessageFromBytes([]byte(x), ser.SignalMessage)
					protocol.NewPreKeySignalMessageFromBytes([]byte(x), ser.PreKeySignalMessage, ser.SignalMessage)
					protocol.NewSenderKeyMessageFromBytes([]byte(x), ser.SenderKeyMessage)
					protocol.NewSenderKeyDistributionMessageFromBytes([]byte(x), ser.SenderKeyDistributionMessage)
				})
			}
		}
		for n := 0; n < 70; n++ {
			for off := -2; off < 40; off++ {
				x := rb(c.r, n)
				for i := range x {
					if i%3 == 0 {
						x[i] = 5
					}
				}
				if off < 0 {
					continue
				}
				c.noPanic(fmt.Sprintf("DecodePoint(%x, %d)", x, off), func() { ecc.DecodePoint(x, off) })
			}
		}
	})
	t.Case("pairwise structures", t.n(6), func(c *C) {
		ser := c.ser()
		a, b := pair(c, ser, false)
		c.talk(b, a)
		w := a.enc(c, b, rb(c.r, 20))
		good := *w.inner().Structure()
		keys := [][]byte{nil, {}, {5}, rb(c.r, 32), append([]byte{5}, rb(c.r, 31)...), append([]byte{5}, rb(c.r, 32)...), append([]byte{6}, rb(c.r, 32)...), rb(c.r, 33), append([]byte{5}, rb(c.r, 40)...), make([]byte, 33), append([]byte{5}, make([]byte, 32)...), good.RatchetKey}
		nums := []uint32{0, 1, 2, 4999, 5000, 5001, 1 << 31, 0xFFFFFFFF}
		for i := 0; i < 150; i++ {
			s := good
			if c.r.Intn(2) == 0 {
				s.RatchetKey = keys[c.r.Intn(len(keys))]
			}
			if c.r.Intn(2) == 0 {
				s.Counter = nums[c.r.Intn(len(nums))]
			}
			if c.r.Intn(2) == 0 {
				s.PreviousCounter = nums[c.r.Intn(len(nums))]
			}
			if c.r.Intn(2) == 0 {
				s.CipherText = rb(c.r, c.r.Intn(40))
			}
			if c.r.Intn(2) == 0 {
				s.Mac = rb(c.r, c.r.Intn(12))
			}
			if c.r.Intn(4) == 0 {
				s.Version = c.r.Intn(6) - 1
			}
			why := "message " + js(s)
			c.noPanic(why, func() {
				m, err := protocol.NewSignalMessageFromStruct(&s, ser.SignalMessage)
				if err != nil {
					return
				}
				b.cipher(a).Decrypt(m)
				m.Serialize()
				ps := protocol.PreKeySignalMessageStructure{RegistrationID: c.r.Uint32(), PreKeyID: optional.NewEmptyUint32(), SignedPreKeyID: b.spkID, BaseKey: keys[c.r.Intn(len(keys))], IdentityKey: a.st.idpair.PublicKey().Serialize(), Message: m.Serialize(), Version: 3}
				switch c.r.Intn(6) {
				case 0:
					ps.PreKeyID = nil
				case 1:
					ps.PreKeyID = optional.NewOptionalUint32(c.r.Uint32())
				case 2:
					ps.PreKeyID = optional.NewOptionalUint32(uint32(c.r.Intn(5)))
				case 3:
					ps.SignedPreKeyID++
				}
				if c.r.Intn(3) == 0 {
					ps.IdentityKey = keys[c.r.Intn(len(keys))]
				}
				if c.r.Intn(6) == 0 {
					ps.Message = rb(c.r, c.r.Intn(30))
				}
				p, err := protocol.NewPreKeySignalMessageFromStruct(&ps, ser.PreKeySignalMessage, ser.SignalMessage)
				if err != nil {
					return
				}
				nb := newUserLike(b)
				nb.cipher(a).DecryptMessage(p)
				b.cipher(a).DecryptMessage(p)
				nb.builder(a).Process(nb.rec(a), p)
				p.Serialize()
			})
		}
		c.talk(a, b)
		c.talk(b, a)
	})
	t.Case("authenticated bodies", t.n(4), func(c *C) {
		// correct MAC over a body that is no ciphertext
		a, b := pair(c, c.ser(), false)
		rat, key, idx := b.recvChain(a)
		k := msgKeys(key)
		for n := 1; n < 70; n++ {
			c.noPanic(fmt.Sprintf("body of %d bytes with a correct MAC", n), func() {
				b.dec(a, c.msg(b, forge(c, a, b, 3, rat, k, idx, 0, rb(c.r, n))))
			})
			rat, key, idx = b.recvChain(a)
			k = msgKeys(key)
		}
		for v := 0; v < 256; v++ {
			d := bytes.Repeat([]byte{byte(v)}, 16)
			c.noPanic(fmt.Sprintf("padding %d with a correct MAC", v), func() {
				b.dec(a, c.msg(b, forge(c, a, b, 3, rat, k, idx, 0, cbcRaw(k.cipher, k.iv, d))))
			})
			rat, key, idx = b.recvChain(a)
			k = msgKeys(key)
		}
	})
	t.Case("group bytes", t.n(6), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		n := protocol.NewSenderKeyName("g", a.addr)
		dm, err := a.gbuilder().Create(n)
		c.Check(err == nil, "%v", err)
		good := [][]byte{dm.Serialize(), nil, {}, []byte("3"), bytes.Repeat([]byte{'3'}, 65), bytes.Repeat([]byte{'3'}, 64)}
		b.gbuilder().Process(n, dm)
		for i := 0; i < 3; i++ {
			m, err := a.gcipher(n).Encrypt(rb(c.r, 10))
			c.Check(err == nil, "%v", err)
			good = append(good, m.(*protocol.SenderKeyMessage).SignedSerialize())
		}
		un := protocol.NewSenderKeyName("unknown", a.addr)
		for i := 0; i < 300; i++ {
			x := c.mutate(good)
			c.noPanic(fmt.Sprintf("bytes %x", x), func() {
				if m, err := protocol.NewSenderKeyMessageFromBytes(x, ser.SenderKeyMessage); err == nil {
					b.gcipher(n).Decrypt(m)
					p, err := b.gcipher(un).Decrypt(m)
					c.Check(err != nil && p == nil, "message of an unknown group accepted")
					m.SignedSerialize()
				}
				if d, err := protocol.NewSenderKeyDistributionMessageFromBytes(x, ser.SenderKeyDistributionMessage); err == nil {
					q := newUserLike(b)
					q.gbuilder().Process(n, d)
					d.Serialize()
					for _, g := range good[len(good)-3:] {
						m, _ := protocol.NewSenderKeyMessageFromBytes(g, ser.SenderKeyMessage)
						q.gcipher(n).Decrypt(m)
					}
					q.gcipher(n).Encrypt([]byte("x"))
				}
			})
		}
		// correctly signed messages whose body is no ciphertext
		r := a.st.gr[skn(n)]
		st, _ := r.SenderKeyState()
		for i := 0; i < 60; i++ {
			it := uint32(c.r.Intn(6))
			if c.r.Intn(4) == 0 {
				it = c.r.Uint32()
			}
			m := protocol.NewSenderKeyMessage(st.KeyID(), it, rb(c.r, i), st.SigningKey().PrivateKey(), ser.SenderKeyMessage)
			c.noPanic(fmt.Sprintf("signed group message, body of %d bytes, iteration %d", i, it), func() { b.gcipher(n).Decrypt(m) })
		}
		// a member's state cannot encrypt, and says so
		c.noPanic("a member encrypts under the sender's name", func() { b.gcipher(n).Encrypt([]byte("x")) })
		c.noPanic("encrypting for an unknown group", func() {
			_, err := b.gcipher(un).Encrypt([]byte("x"))
			c.Check(err != nil, "encrypted for an unknown group")
		})
		groups.NewGroupCipher(b.gbuilder(), un, b.st)
	})
	t.Case("stored structures", t.n(3), func(c *C) {
		ser := protoSer
		a, b := pair(c, ser, false)
		good := [][]byte{a.rec(b).Serialize(), a.st.pre[1].Serialize(), a.st.signed[a.spkID].Serialize(), nil}
		for i := 0; i < 200; i++ {
			x := rb(c.r, c.r.Intn(60))
			if c.r.Intn(2) == 0 {
				x = good[c.r.Intn(len(good))]
				x = x[:c.r.Intn(len(x)+1)]
			}
			c.noPanic(fmt.Sprintf("bytes %q", x), func() {
				if len(x) > 0 && x[0] == '{' && json.Valid(x) {
					return
				}
				record.NewPreKeyFromBytes(x, ser.PreKeyRecord)
				record.NewSignedPreKeyFromBytes(x, ser.SignedPreKeyRecord)
				record.NewSessionFromBytes(x, ser.Session, ser.State)
				record.NewStateFromBytes(x, ser.State)
			})
		}
	})
	t.Case("bodies and parts of sessions", t.n(3), func(c *C) {
		for n := 0; n < 70; n++ {
			for _, k := range []int{32, 16, 24, 0, 31, 33} {
				for _, iv := range [][]byte{nil, {}, rb(c.r, 16), rb(c.r, 15), rb(c.r, 17)} {
					key, x := rb(c.r, k), rb(c.r, n)
					c.noPanic(fmt.Sprintf("cipher of %d bytes, key of %d, iv %x", n, k, iv), func() {
						cipher.DecryptCbc(iv, key, x)
						cipher.Decrypt(iv, key, x)
					})
				}
			}
		}
		a, b := pair(c, c.ser(), true)
		w := a.enc(c, b, rb(c.r, 20))
		d := func(f func(s *record.StateStructure)) {
			v := newUserLike(b)
			v.st.StoreSession(a.addr, b.rec(a).Copy())
			v.edit(a, func(s *record.SessionStructure) { f(s.SessionState) })
			c.noPanic("a session without a part", func() { v.dec(a, w) })
		}
		d(func(s *record.StateStructure) { s.SenderChain = nil })
		d(func(s *record.StateStructure) { s.SenderChain, s.ReceiverChains = nil, nil })
		d(func(s *record.StateStructure) { s.ReceiverChains = nil })
		d(func(s *record.StateStructure) { s.PendingPreKey = nil })
		d(func(s *record.StateStructure) { s.SenderBaseKey = nil })
		d(func(s *record.StateStructure) { *s = record.StateStructure{} })
	})
	t.Case("provisioning and fingerprints", t.n(2), func(c *C) {
		for i := 0; i < 60; i++ {
			x, y := string(rb(c.r, c.r.Intn(60))), string(rb(c.r, c.r.Intn(60)))
			c.noPanic(fmt.Sprintf("provision.Decrypt(%q, %q)", x, y), func() {
				_, err := provision.Decrypt(x, y)
				c.Check(err != nil, "provision.Decrypt accepts random text")
			})
		}
		// envelopes with bodies of every length
		priv, eph := clamped(arr32(rb(c.r, 32))), baseCache(clamped(arr32(rb(c.r, 32))))
		for n := 0; n < 150; n++ {
			for _, l := range []int{32, 0, 31, 33} {
				if l != 32 && n > 60 {
					continue
				}
				body := rb(c.r, n)
				if n > 0 {
					body[0] = 1
				}
				e, _ := json.Marshal(map[string]interface{}{"public_key": append([]byte{5}, eph[:]...)[:min(33, 1+l)], "body": body})
				k, s := base64.StdEncoding.EncodeToString(rb(c.r, l)), base64.StdEncoding.EncodeToString(e)
				if l == 32 {
					k = base64.StdEncoding.EncodeToString(priv[:])
				}
				c.noPanic(fmt.Sprintf("provision.Decrypt with a private key of %d bytes and a body of %d", l, n), func() {
					_, err := provision.Decrypt(k, s)
					c.Check(err != nil, "provision.Decrypt accepts a random body")
				})
			}
		}
		for _, x := range []string{"", "null", "{}", "[]", "1", `{"public_key":null,"body":null}`, `{"public_key":"","body":""}`, `{"public_key":"BQ==","body":"AQ=="}`, `{"body":"` + base64.StdEncoding.EncodeToString(rb(c.r, 80)) + `"}`} {
			c.noPanic("provision.Decrypt of "+x, func() {
				_, err := provision.Decrypt(base64.StdEncoding.EncodeToString(priv[:]), base64.StdEncoding.EncodeToString([]byte(x)))
				c.Check(err != nil, "provision.Decrypt accepts %s", x)
			})
		}
		c.noPanic("fingerprints of 30 bytes", func() { fingerprint.NewDisplay(rb(c.r, 30), rb(c.r, 30)).DisplayText() })
	})
}

// newUserLike is a user with the keys of u and no sessions.
func newUserLike(u *user) *user {
	n := *u
	m := newMem(u.st.ser, u.st.persist)
	m.idpair, m.regID = u.st.idpair, u.st.regID
	for id, r := range u.st.signed {
		m.StoreSignedPreKey(id, r)
	}
	for id, r := range u.st.pre {
		m.StorePreKey(id, r)
	}
	m.log = nil
	n.st = m
	return &n
}

// nil2 gives the plaintext of a genuine message by decrypting it on a copy.
func nil2(w *wire, b, a *user, c *C) []byte {
	p, err := newUserLike(b).cipher(a).DecryptMessage(w.pre)
	c.Check(err == nil, "genuine prekey message: %v", err)
	return p
}
