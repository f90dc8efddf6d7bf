package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	ksession "github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
}

// oddPublic makes public keys worth trying: random points, the encoding with
// the top bit set, non-canonical and low-order values.
func (c *C) oddPublic() ecc.ECPublicKeyable {
	switch c.r.Intn(10) {
	case 8, 9:
		return ecc.NewDjbECPublicKey(arr32(c.oddBytes(32)))
	case 0:
		b := rb(c.r, 32)
		b[31] |= 0x80
		return ecc.NewDjbECPublicKey(arr32(b))
	case 1:
		return ecc.NewDjbECPublicKey([32]byte{})
	case 2:
		return ecc.NewDjbECPublicKey([32]byte{1})
	case 3:
		var b [32]byte
		for i := range b {
			b[i] = 0xff
		}
		return ecc.NewDjbECPublicKey(b)
	}
	return rkey(c.r).PublicKey()
}

// oddBytes gives n bytes, at times with zeros or ones at either end.
func (c *C) oddBytes(n int) []byte {
	b := rb(c.r, n)
	if n == 0 || c.r.Intn(3) > 0 {
		return b
	}
	k := 1 + c.r.Intn(n)
	if c.r.Intn(2) == 0 {
		k = 1 + c.r.Intn(min(n, 3))
	}
	f := []byte{0, 0, 0xff, 1, 0x80}[c.r.Intn(5)]
	for i := 0; i < k; i++ {
		if c.r.Intn(2) == 0 {
			b[i] = f
		} else {
			b[n-1-i] = f
		}
	}
	if c.r.Intn(6) == 0 {
		for i := range b {
			b[i] = f
		}
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// oddKey is a private key whose clamped bytes start and end unusually.
func (c *C) oddKey() *ecc.ECKeyPair {
	return ecc.CreateKeyPair(c.oddBytes(32))
}

func keysOf(c *C, kp *ksession.KeyPair) (rk, ck []byte) {
	c.Check(kp != nil && kp.RootKey != nil && kp.ChainKey != nil, "no keys were derived")
	c.Check(kp.ChainKey.Index() == 0, "the first chain key has counter %d", kp.ChainKey.Index())
	return kp.RootKey.Bytes(), kp.ChainKey.Key()
}

func c01(t *T) {
	t.Case("agreement", t.n(150), func(c *C) {
		withOPK := c.r.Intn(2) == 0
		ika, ikb := ridentity(c.r), ridentity(c.r)
		spk, eka, opk := rkey(c.r), c.oddKey(), rkey(c.r)
		switch c.r.Intn(12) {
		case 0: // one key in two roles
			eka = spk
		case 1:
			opk = spk
		case 2:
			opk = eka
		case 3:
			ikb = ika
		case 4:
			spk = ecc.NewECKeyPair(ikb.PublicKey().PublicKey(), ikb.PrivateKey())
		case 5:
			eka = ecc.NewECKeyPair(ika.PublicKey().PublicKey(), ika.PrivateKey())
		}
		c.Note("opk=%v ika=%x eka=%x", withOPK, ika.PrivateKey().Serialize(), eka.PrivateKey().Serialize())
		var opkPub ecc.ECPublicKeyable
		var opkPair *ecc.ECKeyPair
		if withOPK {
			opkPub, opkPair = opk.PublicKey(), opk
		}
		sp := ratchet.NewSenderParameters(ika, eka, ikb.PublicKey(), spk.PublicKey(), spk.PublicKey(), opkPub)
		if c.r.Intn(2) == 0 {
			sp = ratchet.NewEmptySenderParameters()
			sp.SetOurIdentityKey(ika)
			sp.SetOurBaseKey(eka)
			sp.SetTheirIdentityKey(ikb.PublicKey())
			sp.SetTheirSignedPreKey(spk.PublicKey())
			sp.SetTheirRatchetKey(spk.PublicKey())
			sp.SetTheirOneTimePreKey(opkPub)
		}
		rp := ratchet.NewReceiverParameters(ikb, spk, opkPair, spk, eka.PublicKey(), ika.PublicKey())
		if c.r.Intn(2) == 0 {
			rp = ratchet.NewEmptyReceiverParameters()
			rp.SetOurIdentityKeyPair(ikb)
			rp.SetOurSignedPreKey(spk)
			rp.SetOurRatchetKey(spk)
			rp.SetOurOneTimePreKey(opkPair)
			rp.SetTheirBaseKey(eka.PublicKey())
			rp.SetTheirIdentityKey(ika.PublicKey())
		}
		s, err := ratchet.CalculateSenderSession(sp)
		c.Check(err == nil, "sender: %v", err)
		r, err := ratchet.CalculateReceiverSession(rp)
		c.Check(err == nil, "receiver: %v", err)
		srk, sck := keysOf(c, s)
		rrk, rck := keysOf(c, r)
		ikaP, ekaP := ika.PrivateKey().Serialize(), eka.PrivateKey().Serialize()
		dhs := [][32]byte{x25519(ikaP, spk.PublicKey().PublicKey()), x25519(ekaP, ikb.PublicKey().PublicKey().PublicKey()), x25519(ekaP, spk.PublicKey().PublicKey())}
		if withOPK {
			dhs = append(dhs, x25519(ekaP, opk.PublicKey().PublicKey()))
		}
		ork, ock := x3dh(dhs...)
		c.Check(bytes.Equal(srk, ork) && bytes.Equal(sck, ock), "initiator: root %x chain %x, X3DH gives root %x chain %x", srk, sck, ork, ock)
		c.Check(bytes.Equal(rrk, ork) && bytes.Equal(rck, ock), "responder: root %x chain %x, X3DH gives root %x chain %x", rrk, rck, ork, ock)
	})
	t.Case("odd peer keys", t.n(150), func(c *C) {
		ika, eka := ridentity(c.r), c.oddKey()
		ikb, spk, opk := c.oddPublic(), c.oddPublic(), c.oddPublic()
		c.Note("%x %x %x", ikb.PublicKey(), spk.PublicKey(), opk.PublicKey())
		sp := ratchet.NewSenderParameters(ika, eka, identity.NewKey(ikb), spk, spk, opk)
		s, err := ratchet.CalculateSenderSession(sp)
		c.Check(err == nil, "sender: %v", err)
		e := eka.PrivateKey().Serialize()
		ork, ock := x3dh(x25519(ika.PrivateKey().Serialize(), spk.PublicKey()), x25519(e, ikb.PublicKey()), x25519(e, spk.PublicKey()), x25519(e, opk.PublicKey()))
		rk, ck := keysOf(c, s)
		c.Check(bytes.Equal(rk, ork) && bytes.Equal(ck, ock), "initiator keys differ from X3DH")
	})
	t.Case("first message", t.n(20), func(c *C) {
		a, b := newUser(c, "alice", c.ser(), c.r.Intn(2) == 0), newUser(c, "bob", protoSer, c.r.Intn(2) == 0)
		b.st.ser = a.st.ser
		c.past(a, b)
		opk := int64(c.r.Intn(6)) - 1
		c.Note("opk=%d", opk)
		var opub [32]byte
		if opk >= 0 {
			opub = b.st.pre[uint32(opk)].KeyPair().PublicKey().PublicKey()
		}
		c.start(a, b, opk)
		v := view(a.rec(b)).SessionState
		c.Check(v.SenderChain != nil && len(v.ReceiverChains) == 1, "initiator chains")
		text := c.text()
		w := a.enc(c, b, text)
		c.Check(w.pre != nil, "the first message is not a prekey message")
		c.Check((w.pre.PreKeyID() != nil && !w.pre.PreKeyID().IsEmpty) == (opk >= 0), "prekey id presence")
		b.mustDec(c, a, w, text)
		bv := view(b.rec(a)).SessionState
		// responder's keys from its own secrets
		ekaPub := w.pre.BaseKey().PublicKey()
		spkP, ikbP := b.spk.PrivateKey().Serialize(), b.st.idpair.PrivateKey().Serialize()
		dhs := [][32]byte{x25519(spkP, a.st.idpair.PublicKey().PublicKey().PublicKey()), x25519(ikbP, ekaPub), x25519(spkP, ekaPub)}
		_ = opub
		if opk >= 0 && opk != 5 {
			return // the one-time prekey is gone by now
		}
		rk, ck := x3dh(dhs...)
		c.Check(bytes.Equal(v.ReceiverChains[0].ChainKey.Key, ck), "initiator's receiving chain is not the X3DH chain key")
		rat := w.inner().SenderRatchetKey().PublicKey()
		rk2, ck2 := rootStep(rk, x25519(spkP, rat))
		c.Check(bytes.Equal(v.RootKey, rk2), "initiator's root key after the first ratchet step")
		c.Check(bytes.Equal(v.SenderChain.ChainKey.Key, ck2), "initiator's sending chain")
		bc := bv.chain(w.inner().SenderRatchetKey().Serialize())
		c.Check(bc != nil && bytes.Equal(bc.ChainKey.Key, chainNext(ck2)) && bc.ChainKey.Index == 1, "responder's receiving chain")
	})
	t.Case("a new identity under an old address", t.n(8), func(c *C) {
		c.renewed()
	})
}

// renewed: a user with sessions installs again, with a new identity that the
// others accept, and sets up sessions anew.
func (c *C) renewed() {
	a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
	for i := c.r.Intn(4); i > 0; i-- {
		c.talk(a, b)
		if c.r.Intn(2) == 0 {
			c.talk(b, a)
		}
	}
	n := newUser(c, "alice", a.st.ser, a.st.persist)
	n.addr = a.addr
	if c.r.Intn(2) == 0 {
		n.st.regID = a.st.regID
	}
	if c.r.Intn(3) == 0 {
		n.spk, n.spkID = a.spk, a.spkID
		n.spkSig = ecc.CalculateSignature(n.st.idpair.PrivateKey(), n.spk.PublicKey().Serialize())
		n.st.StoreSignedPreKey(n.spkID, a.st.LoadSignedPreKey(n.spkID))
	}
	first, second := n, b
	if c.r.Intn(2) == 0 {
		first, second = b, n
	}
	c.Note("%s starts", first.addr.String())
	if c.r.Intn(2) == 0 {
		// not accepted yet
		if first == b {
			c.Check(b.builder(n).ProcessBundle(n.bundle(1)) != nil, "a bundle with another identity accepted")
		} else {
			c.start(n, b, 2)
			b.mustReject(c, n, n.enc(c, b, []byte("x")), "another identity")
		}
	}
	delete(b.st.ident, n.addr.String())
	c.start(first, second, []int64{-1, 1, 3}[c.r.Intn(3)])
	for i := 0; i < 3; i++ {
		c.talk(first, second)
		v := view(b.rec(n)).SessionState
		c.Check(bytes.Equal(v.RemoteIdentityPublic, n.st.idpair.PublicKey().Serialize()), "remote identity of the session")
		c.Check(v.RemoteRegistrationID == n.st.regID, "remote registration id of the session")
		c.Check(b.st.ident[n.addr.String()] == n.st.idpair.PublicKey().Fingerprint(), "identity saved")
		c.talk(second, first)
	}
}

func c02(t *T) {
	t.Case("hkdf", t.n(600), func(c *C) {
		ikm, salt, info := c.oddBytes(c.r.Intn(100)), c.oddBytes(c.r.Intn(70)), rb(c.r, c.r.Intn(40))
		if c.r.Intn(3) == 0 {
			salt = nil
		}
		n := c.r.Intn(200)
		c.Note("%d %d %d -> %d", len(ikm), len(salt), len(info), n)
		out, err := kdf.DeriveSecrets(ikm, salt, info, n)
		c.Check(err == nil, "DeriveSecrets: %v", err)
		c.Check(bytes.Equal(out, hkdf(ikm, salt, string(info), n+1)[:n]), "DeriveSecrets differs from RFC 5869")
	})
	t.Case("chain", t.n(400), func(c *C) {
		key := c.oddBytes(32)
		if c.r.Intn(4) == 0 {
			key = rb(c.r, c.r.Intn(80))
		}
		idx := c.r.Uint32()
		if c.r.Intn(4) == 0 {
			idx = []uint32{0, 1, 255, 256, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 2}[c.r.Intn(8)]
		}
		c.Note("%x %d", key, idx)
		kept := append([]byte{}, key...)
		k := chain.NewKey(kdf.DeriveSecrets, key, idx)
		if c.r.Intn(2) == 0 {
			k = chain.NewKeyFromStruct(chain.NewStructFromKey(k), kdf.DeriveSecrets)
		}
		m := k.MessageKeys()
		o := msgKeys(kept)
		c.Check(bytes.Equal(m.CipherKey(), o.cipher) && bytes.Equal(m.MacKey(), o.mac) && bytes.Equal(m.Iv(), o.iv), "message keys: %x %x %x, schedule gives %x %x %x", m.CipherKey(), m.MacKey(), m.Iv(), o.cipher, o.mac, o.iv)
		c.Check(m.Index() == idx, "message key counter %d, chain counter %d", m.Index(), idx)
		n := k.NextKey()
		c.Check(bytes.Equal(n.Key(), chainNext(kept)), "next chain key")
		c.Check(n.Index() == idx+1, "next counter %d after %d", n.Index(), idx)
		c.Check(bytes.Equal(k.Key(), kept) && k.Index() == idx && bytes.Equal(key, kept), "deriving changed the key")
		m2 := k.MessageKeys()
		c.Check(bytes.Equal(m2.CipherKey(), o.cipher) && bytes.Equal(m2.MacKey(), o.mac) && bytes.Equal(m2.Iv(), o.iv), "message keys differ the second time")
		// several steps
		k = n
		for i := 0; i < 5; i++ {
			k = k.NextKey()
		}
		c.Check(bytes.Equal(k.Key(), chainAt(kept, 0, 6)) && k.Index() == idx+6, "six steps")
	})
	t.Case("root", t.n(200), func(c *C) {
		rk := c.oddBytes(32)
		if c.r.Intn(4) == 0 {
			rk = rb(c.r, c.r.Intn(80))
		}
		kept := append([]byte{}, rk...)
		our := c.oddKey()
		their := c.oddPublic()
		c.Note("%x %x", rk, their.PublicKey())
		r := root.NewKey(kdf.DeriveSecrets, rk)
		for i := 0; i < 2; i++ {
			kp, err := r.CreateChain(their, our)
			c.Check(err == nil, "CreateChain: %v", err)
			ork, ock := rootStep(kept, x25519(our.PrivateKey().Serialize(), their.PublicKey()))
			nrk, nck := keysOf(c, kp)
			c.Check(bytes.Equal(nrk, ork) && bytes.Equal(nck, ock), "root %x chain %x, schedule gives %x %x", nrk, nck, ork, ock)
			c.Check(bytes.Equal(r.Bytes(), kept), "the root key changed")
		}
		sh := kdf.CalculateSharedSecret(their.PublicKey(), our.PrivateKey().Serialize())
		c.Check(sh == x25519(our.PrivateKey().Serialize(), their.PublicKey()), "shared secret")
	})
	t.Case("session ratchet", t.n(6), func(c *C) {
		a, b := pair(c, protoSer, c.r.Intn(2) == 0)
		for i := 0; i < 3; i++ {
			x, y := a, b
			if i%2 == 0 {
				x, y = b, a
			}
			if c.r.Intn(2) == 0 {
				c.shift(y, x)
			}
			before := view(y.rec(x)).SessionState
			text := c.text()
			w := x.enc(c, y, text)
			y.mustDec(c, x, w, text)
			after := view(y.rec(x)).SessionState
			rat := w.inner().SenderRatchetKey()
			if before.chain(rat.Serialize()) != nil {
				continue
			}
			c.Note("ratchet step of %s", y.name)
			rk1, ck1 := rootStep(before.RootKey, x25519(arr32(before.SenderChain.SenderRatchetKeyPrivate), rat.PublicKey()))
			rk2, ck2 := rootStep(rk1, x25519(arr32(after.SenderChain.SenderRatchetKeyPrivate), rat.PublicKey()))
			nc := after.chain(rat.Serialize())
			c.Check(nc != nil && bytes.Equal(nc.ChainKey.Key, chainAt(ck1, 0, nc.ChainKey.Index)), "new receiving chain")
			c.Check(bytes.Equal(after.RootKey, rk2), "root key after the step")
			if p := before.SenderChain.ChainKey.Index; p > 0 {
				c.Check(after.PreviousCounter == p-1, "previous counter %d after a chain of %d", after.PreviousCounter, p)
			}
			c.Check(bytes.Equal(after.SenderChain.ChainKey.Key, ck2) && after.SenderChain.ChainKey.Index == 0, "new sending chain")
		}
	})
}

// macContent is the part of a message that the MAC covers besides version and identities.
func macContent(ser *serialize.Serializer, rat []byte, ctr, prev uint32, body []byte) []byte {
	if ser == protoSer {
		out := pbBytes(1, rat)
		out = append(out, pbVar(2, uint64(ctr))...)
		out = append(out, pbVar(3, uint64(prev))...)
		return append(out, pbBytes(4, body)...)
	}
	b, _ := json.Marshal(struct {
		RatchetKey               []byte
		Counter, PreviousCounter uint32
		CipherText               []byte
		Version                  int
		Mac                      []byte
	}{rat, ctr, prev, body, 0, nil})
	return b
}

func idBytes(u *user) []byte { return u.st.idpair.PublicKey().PublicKey().Serialize() }

// checkSent checks a message that x sent to y against x's state before and after.
func checkSent(c *C, x, y *user, before, after *sessV, w *wire, text []byte) {
	bs := before.SessionState
	k := msgKeys(bs.SenderChain.ChainKey.Key)
	s := w.inner().Structure()
	c.Check(s.Counter == bs.SenderChain.ChainKey.Index, "message counter %d, chain position %d", s.Counter, bs.SenderChain.ChainKey.Index)
	c.Check(bytes.Equal(s.RatchetKey, bs.SenderChain.SenderRatchetKeyPublic), "message's ratchet key is not the sending chain's")
	c.Check(s.PreviousCounter == bs.PreviousCounter, "previous counter %d, session has %d", s.PreviousCounter, bs.PreviousCounter)
	c.Check(s.Version == bs.SessionVersion, "version %d", s.Version)
	ct := cbcEnc(k.cipher, k.iv, text)
	c.Check(bytes.Equal(s.CipherText, ct), "ciphertext is not the encryption under the current message key")
	mac := signalMac(k.mac, idBytes(x), idBytes(y), bs.SessionVersion, macContent(x.st.ser, s.RatchetKey, s.Counter, s.PreviousCounter, s.CipherText))
	c.Check(bytes.Equal(s.Mac, mac), "MAC %x, expected %x", s.Mac, mac)
	c.Check((w.pre != nil) == (bs.PendingPreKey != nil), "prekey message: %v, unacknowledged: %v", w.pre != nil, bs.PendingPreKey != nil)
	if w.pre != nil {
		p := bs.PendingPreKey
		c.Check(w.pre.SignedPreKeyID() == p.SignedPreKeyID, "signed prekey id")
		c.Check(bytes.Equal(w.pre.BaseKey().Serialize(), p.BaseKey), "base key")
		c.Check(bytes.Equal(w.pre.IdentityKey().Serialize(), idBytes(x)), "identity key")
		c.Check(w.pre.RegistrationID() == bs.LocalRegistrationID, "registration id")
		has := p.PreKeyID != nil && !p.PreKeyID.IsEmpty
		got := w.pre.PreKeyID() != nil && !w.pre.PreKeyID().IsEmpty
		c.Check(has == got && (!has || p.PreKeyID.Value == w.pre.PreKeyID().Value), "prekey id")
	}
	want := *before
	cs := *before.SessionState
	sc := *cs.SenderChain
	nk := *sc.ChainKey
	nk.Index++
	nk.Key = chainNext(nk.Key)
	sc.ChainKey = &nk
	cs.SenderChain = &sc
	want.SessionState = &cs
	c.Check(js(want) == js(after), "session after sending differs from one chain step:\n  %s", diff(js(want), js(after)))
}

func c03(t *T) {
	t.Case("send", t.n(25), func(c *C) {
		a, b := newUser(c, "alice", c.ser(), c.r.Intn(2) == 0), (*user)(nil)
		b = newUser(c, "bob", a.st.ser, c.r.Intn(2) == 0)
		c.start(a, b, int64(c.r.Intn(6))-1)
		type sent struct {
			w *wire
			t []byte
		}
		used := map[string]bool{}
		sendN := map[string]uint32{} // length of each sender's chain by ratchet key
		away := false
		for i := 0; i < 14; i++ {
			if i == 1 && c.r.Intn(3) == 0 {
				// a long unanswered chain: b never reads it
				d := c.far()
				a.edit(b, func(st *record.SessionStructure) { st.SessionState.SenderChain.ChainKey.Index += d })
				c.Note("%d unanswered messages", d)
				away = true
			}
			if i == 6 && !away && c.r.Intn(2) == 0 && view(b.rec(a)).SessionState.SenderChain != nil {
				x, y := a, b
				if c.r.Intn(2) == 0 {
					x, y = b, a
				}
				c.shift(x, y)
				x.edit(y, func(st *record.SessionStructure) { st.SessionState.PreviousCounter = c.r.Uint32() })
			}
			if away && i > 8 {
				break
			}
			x, y := a, b
			if i > 2 && c.r.Intn(2) == 0 && !away {
				x, y = b, a
			}
			if view(x.rec(y)).SessionState.SenderChain == nil {
				continue
			}
			text := rb(c.r, c.size(50))
			before := view(x.rec(y))
			var stored *sessV
			n := 0
			x.st.onStore = func(r *record.Session) { stored = view(r); n++ }
			x.st.log = nil
			reg, fp := x.st.regID, y.st.idpair.PublicKey().Fingerprint()
			if c.r.Intn(4) == 0 {
				x.st.regID = c.r.Uint32()
				c.Note("%s has a new registration id", x.name)
			}
			if c.r.Intn(4) == 0 {
				x.st.distrust[fp] = true
				c.Note("%s does not trust %s any more", x.name, y.name)
			}
			m, err := x.cipher(y).Encrypt(text)
			x.st.onStore = nil
			x.st.regID = reg
			delete(x.st.distrust, fp)
			c.Check(err == nil, "Encrypt: %v", err)
			c.Check(n == 1, "the session was stored %d times", n)
			w, err := parse(m.Serialize(), m.Type(), x.st.ser)
			c.Check(err == nil, "parse: %v", err)
			c.Note("%s sends %d", x.name, w.inner().Counter())
			after := view(x.rec(y))
			checkSent(c, x, y, before, after, w, text)
			c.Check(js(stored) == js(after), "the stored session is not the advanced one")
			key := fmt.Sprintf("%x/%d", w.inner().SenderRatchetKey().Serialize(), w.inner().Counter())
			c.Check(!used[key], "ratchet key and counter used twice: %s", key)
			used[key] = true
			sendN[string(w.inner().SenderRatchetKey().Serialize())]++
			if c.r.Intn(4) > 0 && !away {
				prev := view(y.rec(x)).SessionState
				y.mustDec(c, x, w, text)
				now := view(y.rec(x)).SessionState
				if prev.SenderChain != nil && !bytes.Equal(prev.SenderChain.SenderRatchetKeyPublic, now.SenderChain.SenderRatchetKeyPublic) {
					n := prev.SenderChain.ChainKey.Index
					if n > 0 {
						n--
					}
					c.Check(now.PreviousCounter == n, "previous counter %d after a chain that ended at %d", now.PreviousCounter, prev.SenderChain.ChainKey.Index)
				}
				c.Check(now.PendingPreKey == nil, "unacknowledged prekey kept after an answer")
			}
		}
	})
	t.Case("failed encryption", t.n(8), func(c *C) {
		a := newUser(c, "alice", c.ser(), c.r.Intn(2) == 0)
		b := newUser(c, "bob", a.st.ser, false)
		c.start(a, b, 0)
		if c.r.Intn(2) == 0 {
			c.talk(a, b)
			c.talk(b, a)
		}
		ver := []int{0, 1, 4, 17}[c.r.Intn(4)]
		c.Note("version %d", ver)
		a.st.StoreSession(b.addr, setVersion(a.rec(b), ver, a.st.ser))
		before := a.st.snapshot()
		a.st.log = nil
		m, err := a.cipher(b).Encrypt(rb(c.r, 9))
		c.Check(err != nil && m == nil, "encrypting in a session of unsupported version %d gave a message", ver)
		c.Check(len(a.st.changes()) == 0, "failed encryption changed the stores: %v", a.st.changes())
		c.Check(a.st.snapshot() == before, "failed encryption changed the session:\n %s", diff(before, a.st.snapshot()))
	})
}

// forge makes a message with a correct MAC for the given chain key.
func forge(c *C, from, to *user, ver int, rat []byte, k okeys, ctr, prev uint32, body []byte) *protocol.SignalMessageStructure {
	return &protocol.SignalMessageStructure{
		RatchetKey: rat, Counter: ctr, PreviousCounter: prev, CipherText: body, Version: ver,
		Mac: signalMac(k.mac, idBytes(from), idBytes(to), ver, macContent(from.st.ser, rat, ctr, prev, body)),
	}
}

func (c *C) msg(u *user, s *protocol.SignalMessageStructure) *wire {
	cp := *s
	m, err := protocol.NewSignalMessageFromStruct(&cp, u.st.ser.SignalMessage)
	c.Check(err == nil, "building a message: %v", err)
	return &wire{sig: m}
}

// chainState of the receiver u for messages from p: ratchet key, chain key, position.
func (u *user) recvChain(p *user) (rat, key []byte, idx uint32) {
	v := view(u.rec(p)).SessionState
	ch := v.ReceiverChains[len(v.ReceiverChains)-1]
	return ch.SenderRatchetKeyPublic, ch.ChainKey.Key, ch.ChainKey.Index
}

func (u *user) sendChain(p *user) (rat, key []byte, idx uint32) {
	ch := view(u.rec(p)).SessionState.SenderChain
	return ch.SenderRatchetKeyPublic, ch.ChainKey.Key, ch.ChainKey.Index
}

func c04(t *T) {
	t.Case("altered fields", t.n(12), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		for i := c.r.Intn(3); i > 0; i-- {
			c.talk(b, a)
			c.talk(a, b)
		}
		if c.r.Intn(2) == 0 {
			c.shift(a, b)
			a.edit(b, func(st *record.SessionStructure) { st.SessionState.PreviousCounter = c.r.Uint32() })
		}
		text := rb(c.r, 1+c.r.Intn(60))
		w := a.enc(c, b, text)
		good := *w.inner().Structure()
		try := func(why string, f func(s *protocol.SignalMessageStructure)) {
			s := good
			s.CipherText = append([]byte{}, good.CipherText...)
			s.Mac = append([]byte{}, good.Mac...)
			s.RatchetKey = append([]byte{}, good.RatchetKey...)
			f(&s)
			m, err := protocol.NewSignalMessageFromStruct(&s, b.st.ser.SignalMessage)
			if err != nil {
				return
			}
			c.Note("%s", why)
			b.mustReject(c, a, &wire{sig: m}, why)
		}
		try("counter+1", func(s *protocol.SignalMessageStructure) { s.Counter++ })
		try("counter+200", func(s *protocol.SignalMessageStructure) { s.Counter += 200 })
		try("counter-1", func(s *protocol.SignalMessageStructure) { s.Counter-- })
		try("previous counter+1", func(s *protocol.SignalMessageStructure) { s.PreviousCounter++ })
		for i := uint(0); i < 32; i++ {
			i := i
			try(fmt.Sprintf("previous counter bit %d", i), func(s *protocol.SignalMessageStructure) { s.PreviousCounter ^= 1 << i })
			try(fmt.Sprintf("counter bit %d", i), func(s *protocol.SignalMessageStructure) { s.Counter ^= 1 << i })
		}
		try("ratchet key of someone else", func(s *protocol.SignalMessageStructure) { s.RatchetKey = rkey(c.r).PublicKey().Serialize() })
		try("version 2", func(s *protocol.SignalMessageStructure) { s.Version = 2 })
		for i := 0; i < 6; i++ {
			try("ciphertext bit", func(s *protocol.SignalMessageStructure) {
				s.CipherText[c.r.Intn(len(s.CipherText))] ^= 1 << uint(c.r.Intn(8))
			})
			try("mac bit", func(s *protocol.SignalMessageStructure) { s.Mac[c.r.Intn(8)] ^= 1 << uint(c.r.Intn(8)) })
		}
		for i := 0; i < 8; i++ {
			i := i
			try(fmt.Sprintf("mac byte %d", i), func(s *protocol.SignalMessageStructure) { s.Mac[i] ^= 0x40 })
			try(fmt.Sprintf("mac of %d bytes", i), func(s *protocol.SignalMessageStructure) { s.Mac = s.Mac[:i] })
		}
		try("no mac", func(s *protocol.SignalMessageStructure) { s.Mac = nil })
		for _, n := range []int{1, 2, 8, 24, 25, 56} {
			try(fmt.Sprintf("%d bytes before the mac", n), func(s *protocol.SignalMessageStructure) { s.Mac = append(rb(c.r, n), s.Mac...) })
			try(fmt.Sprintf("%d bytes after the mac", n), func(s *protocol.SignalMessageStructure) { s.Mac = append(s.Mac, rb(c.r, n)...) })
		}
		try("mac twice", func(s *protocol.SignalMessageStructure) { s.Mac = append(s.Mac, s.Mac...) })
		try("mac reversed", func(s *protocol.SignalMessageStructure) {
			for i, x := range good.Mac {
				s.Mac[7-i] = x
			}
		})
		try("mac with extra byte", func(s *protocol.SignalMessageStructure) { s.Mac = append(s.Mac, 0) })
		try("ciphertext cut", func(s *protocol.SignalMessageStructure) { s.CipherText = s.CipherText[:len(s.CipherText)-16] })
		try("ciphertext extended", func(s *protocol.SignalMessageStructure) { s.CipherText = append(s.CipherText, rb(c.r, 16)...) })
		try("ciphertext replaced", func(s *protocol.SignalMessageStructure) { s.CipherText = rb(c.r, len(s.CipherText)) })
		b.mustDec(c, a, w, text)
	})
	t.Case("wrong mac inputs", t.n(12), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		for i := c.r.Intn(3); i > 0; i-- {
			c.talk(b, a)
			c.talk(a, b)
		}
		if c.r.Intn(2) == 0 {
			c.shift(a, b)
			a.edit(b, func(st *record.SessionStructure) { st.SessionState.PreviousCounter = c.r.Uint32() })
		}
		rat, key, idx := b.recvChain(a)
		k := msgKeys(key)
		text := c.text()
		ctr := idx
		prev := c.r.Uint32() >> uint(c.r.Intn(33))
		body := cbcEnc(k.cipher, k.iv, text)
		content := macContent(a.st.ser, rat, ctr, prev, body)
		ia, ib := idBytes(a), idBytes(b)
		full := hm(k.mac, ia, ib, []byte("3"), content)
		kn := msgKeys(chainNext(key))
		other := rkey(c.r).PublicKey().Serialize()
		for _, x := range []struct {
			why string
			mac []byte
		}{
			{"identities swapped", hm(k.mac, ib, ia, []byte("3"), content)[:8]},
			{"no identities", hm(k.mac, []byte("3"), content)[:8]},
			{"the receiver's identity twice", hm(k.mac, ib, ib, []byte("3"), content)[:8]},
			{"the sender's identity twice", hm(k.mac, ia, ia, []byte("3"), content)[:8]},
			{"another sender", hm(k.mac, other, ib, []byte("3"), content)[:8]},
			{"another receiver", hm(k.mac, ia, other, []byte("3"), content)[:8]},
			{"identities after the content", hm(k.mac, []byte("3"), content, ia, ib)[:8]},
			{"identities without type byte", hm(k.mac, ia[1:], ib[1:], []byte("3"), content)[:8]},
			{"the base key as sender", hm(k.mac, view(b.rec(a)).SessionState.SenderBaseKey, ib, []byte("3"), content)[:8]},
			{"the ratchet key as sender", hm(k.mac, rat, ib, []byte("3"), content)[:8]},
			{"the signed prekey as receiver", hm(k.mac, ia, b.spk.PublicKey().Serialize(), []byte("3"), content)[:8]},
			{"the iv as key", hm(k.iv, ia, ib, []byte("3"), content)[:8]},
			{"the chain key as key", hm(key, ia, ib, []byte("3"), content)[:8]},
			{"version as a byte", hm(k.mac, ia, ib, []byte{3}, content)[:8]},
			{"version byte of the wire format", hm(k.mac, ia, ib, []byte{0x33}, content)[:7]},
			{"only the sender's identity", hm(k.mac, ia, []byte("3"), content)[:8]},
			{"other version", hm(k.mac, ia, ib, []byte("2"), content)[:8]},
			{"no version", hm(k.mac, ia, ib, content)[:8]},
			{"mac key of the next counter", hm(kn.mac, ia, ib, []byte("3"), content)[:8]},
			{"cipher key as mac key", hm(k.cipher, ia, ib, []byte("3"), content)[:8]},
			{"content without previous counter", hm(k.mac, ia, ib, []byte("3"), macContent(a.st.ser, rat, ctr, prev+1, body))[:8]},
			{"content with other counter", hm(k.mac, ia, ib, []byte("3"), macContent(a.st.ser, rat, ctr+1, prev, body))[:8]},
			{"content with other ratchet key", hm(k.mac, ia, ib, []byte("3"), macContent(a.st.ser, rkey(c.r).PublicKey().Serialize(), ctr, prev, body))[:8]},
			{"content with other ciphertext", hm(k.mac, ia, ib, []byte("3"), macContent(a.st.ser, rat, ctr, prev, rb(c.r, len(body))))[:8]},
			{"the whole hmac", full},
			{"the hmac's end", full[24:]},
			{"seven bytes", full[:7]},
			{"nine bytes", full[:9]},
			{"empty key", hm(nil, ia, ib, []byte("3"), content)[:8]},
			{"zeros", make([]byte, 8)},
		} {
			c.Note("%s", x.why)
			b.mustReject(c, a, c.msg(b, &protocol.SignalMessageStructure{RatchetKey: rat, Counter: ctr, PreviousCounter: prev, CipherText: body, Version: 3, Mac: x.mac}), "MAC over "+x.why)
		}
		for i := 1; i < len(rat); i++ {
			r2 := append([]byte{}, rat...)
			r2[i] ^= 1 << uint(c.r.Intn(8))
			b.mustReject(c, a, c.msg(b, forge(c, a, b, 3, r2, k, ctr, prev, body)), fmt.Sprintf("keys of chain %x used for ratchet key %x", rat, r2))
		}
		// a reflected message
		w := b.enc(c, a, text)
		b.mustReject(c, a, &wire{sig: w.inner()}, "own message reflected")
		// the correct one is accepted
		w = c.msg(b, forge(c, a, b, 3, rat, k, ctr, prev, body))
		b.mustDec(c, a, w, text)
	})
	t.Case("before the first answer", t.n(8), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		c.start(a, b, int64(c.r.Intn(3))-1)
		c.talk(a, b)
		if c.r.Intn(3) == 0 {
			c.talk(b, a)
		}
		for i := c.r.Intn(2); i > 0; i-- {
			b.enc(c, a, rb(c.r, 3))
		}
		rat, key, idx := b.sendChain(a)
		k := msgKeys(key)
		text := c.text()
		body := cbcEnc(k.cipher, k.iv, text)
		content := macContent(b.st.ser, rat, idx, 0, body)
		ia, ib := idBytes(a), idBytes(b)
		for _, x := range []struct {
			why  string
			s, r []byte
		}{
			{"identities swapped", ia, ib},
			{"the receiver's identity twice", ia, ia},
			{"the sender's identity twice", ib, ib},
			{"no identities", nil, nil},
			{"another sender", rkey(c.r).PublicKey().Serialize(), ia},
			{"another receiver", ib, rkey(c.r).PublicKey().Serialize()},
		} {
			m := hm(k.mac, x.s, x.r, []byte("3"), content)[:8]
			a.mustReject(c, b, c.msg(a, &protocol.SignalMessageStructure{RatchetKey: rat, Counter: idx, CipherText: body, Version: 3, Mac: m}), "MAC over "+x.why)
		}
		a.mustDec(c, b, c.msg(a, &protocol.SignalMessageStructure{RatchetKey: rat, Counter: idx, CipherText: body, Version: 3, Mac: hm(k.mac, ib, ia, []byte("3"), content)[:8]}), text)
	})
	t.Case("version of the session", t.n(10), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		if c.r.Intn(2) == 0 {
			c.talk(b, a)
			c.talk(a, b)
		}
		rat, key, idx := b.recvChain(a)
		k := msgKeys(key)
		text := c.text()
		body := cbcEnc(k.cipher, k.iv, text)
		// a correct version 2 message (MAC without identities, as for version 2, and with)
		content := macContent(a.st.ser, rat, idx, 0, body)
		for _, mac := range [][]byte{hm(k.mac, []byte("2"), content)[:8], hm(k.mac, idBytes(a), idBytes(b), []byte("2"), content)[:8], hm(k.mac, []byte("3"), content)[:8]} {
			b.mustReject(c, a, c.msg(b, &protocol.SignalMessageStructure{RatchetKey: rat, Counter: idx, CipherText: body, Version: 2, Mac: mac}), "version 2 message in a version 3 session")
		}
		w := a.enc(c, b, text)
		for _, v := range []int{2, 1, 0, 4} {
			r := b.rec(a)
			b.st.StoreSession(a.addr, setVersion(r, v, b.st.ser))
			b.mustReject(c, a, w, fmt.Sprintf("version 3 message in a version %d session", v))
			b.st.StoreSession(a.addr, r)
		}
		b.mustDec(c, a, w, text)
		if a.st.ser != jsonSer {
			return // on the wire the version is a digit whose high bits are always 3
		}
		// a version 2 session at both ends: the MAC says so and leaves out the identities
		a.st.StoreSession(b.addr, setVersion(a.rec(b), 2, a.st.ser))
		b.st.StoreSession(a.addr, setVersion(b.rec(a), 2, b.st.ser))
		rat, key, idx = b.recvChain(a)
		k = msgKeys(key)
		w = a.enc(c, b, text)
		c.Check(w.inner().MessageVersion() == 2, "a message of version %d was sent in a version 2 session", w.inner().MessageVersion())
		b.mustDec(c, a, w, text)
		rat, key, idx = b.recvChain(a)
		k = msgKeys(key)
		body = cbcEnc(k.cipher, k.iv, text)
		content = macContent(a.st.ser, rat, idx, 0, body)
		for _, mac := range [][]byte{hm(k.mac, []byte("3"), content)[:8], hm(k.mac, idBytes(a), idBytes(b), []byte("2"), content)[:8], hm(k.mac, content)[:8]} {
			b.mustReject(c, a, c.msg(b, &protocol.SignalMessageStructure{RatchetKey: rat, Counter: idx, CipherText: body, Version: 2, Mac: mac}), "version 2 message with a MAC that is not over version 2")
		}
		b.mustDec(c, a, c.msg(b, &protocol.SignalMessageStructure{RatchetKey: rat, Counter: idx, CipherText: body, Version: 2, Mac: hm(k.mac, []byte("2"), content)[:8]}), text)
	})
	t.Case("altered bytes", t.n(10), func(c *C) {
		a, b := pair(c, protoSer, c.r.Intn(2) == 0)
		text := rb(c.r, 1+c.r.Intn(20))
		w := a.enc(c, b, text)
		raw := w.inner().Serialize()
		good := *w.inner().Structure()
		for i := 0; i < 60; i++ {
			x := append([]byte{}, raw...)
			switch c.r.Intn(4) {
			case 0:
				x = x[:c.r.Intn(len(x))]
			case 1:
				x = append(x, rb(c.r, 1+c.r.Intn(3))...)
			default:
				for j := c.r.Intn(3); j >= 0; j-- {
					x[c.r.Intn(len(x))] ^= 1 << uint(c.r.Intn(8))
				}
			}
			m, err := protocol.NewSignalMessageFromBytes(x, protoSer.SignalMessage)
			if err != nil || js(m.Structure()) == js(good) {
				continue
			}
			b.mustReject(c, a, &wire{sig: m}, fmt.Sprintf("altered bytes %x (genuine %x)", x, raw))
		}
		b.mustDec(c, a, w, text)
	})
}

func c05(t *T) {
	t.Case("rejects", t.n(14), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		for i := c.r.Intn(4); i > 0; i-- {
			c.talk(b, a)
			c.talk(a, b)
		}
		if c.r.Intn(3) == 0 {
			c.shift(a, b)
		}
		// leave a gap so that skipped keys exist
		t1 := c.text()
		w1 := a.enc(c, b, t1)
		var late []*wire
		for i := c.r.Intn(5); i > 0; i-- {
			late = append(late, a.enc(c, b, t1))
		}
		c.talk(a, b)
		rat, key, idx := b.recvChain(a)
		v := view(b.rec(a)).SessionState
		skipped := v.ReceiverChains[len(v.ReceiverChains)-1].MessageKeys
		c.Check(len(skipped) > 0, "no skipped key")
		junk := func(s protocol.SignalMessageStructure) *wire { return c.msg(b, &s) }
		base := protocol.SignalMessageStructure{RatchetKey: rat, Counter: idx, CipherText: rb(c.r, 32), Version: 3, Mac: rb(c.r, 8)}
		s := base
		b.mustReject(c, a, junk(s), "bad MAC at the current counter")
		for _, d := range []uint32{1, 5, 300, 5000, 5001, 1 << 31} {
			s = base
			s.Counter = idx + d
			b.mustReject(c, a, junk(s), fmt.Sprintf("bad MAC, %d ahead", d))
		}
		for i := 0; i < 3; i++ {
			s = base
			s.RatchetKey = rkey(c.r).PublicKey().Serialize()
			s.Counter = uint32([]int{0, 7, 1999}[i])
			b.mustReject(c, a, junk(s), fmt.Sprintf("bad MAC, new ratchet key, counter %d", s.Counter))
		}
		for i, ch := range v.ReceiverChains {
			for _, d := range []int64{0, 3, -1, -2} {
				s = base
				s.RatchetKey = ch.SenderRatchetKeyPublic
				s.Counter = uint32(int64(ch.ChainKey.Index) + d)
				b.mustReject(c, a, junk(s), fmt.Sprintf("bad MAC on receiving chain %d, %d from its position", i, d))
			}
			for _, k := range ch.MessageKeys {
				s = base
				s.RatchetKey = ch.SenderRatchetKeyPublic
				s.Counter = k.Index
				b.mustReject(c, a, junk(s), fmt.Sprintf("bad MAC at skipped counter %d of receiving chain %d", k.Index, i))
			}
		}
		s = base
		s.Counter = skipped[0].Index
		b.mustReject(c, a, junk(s), "bad MAC at a skipped counter")
		s = base
		s.Version = 2
		b.mustReject(c, a, junk(s), "wrong version")
		// correct MAC, undecodable body
		k := msgKeys(key)
		for _, body := range [][]byte{{}, rb(c.r, 15), rb(c.r, 16), rb(c.r, 17), cbcRaw(k.cipher, k.iv, make([]byte, 16)), cbcRaw(k.cipher, k.iv, bytes.Repeat([]byte{17}, 32)), cbcRaw(k.cipher, k.iv, append(rb(c.r, 14), 1, 2))} {
			if _, ok := cbcDec(k.cipher, k.iv, body); ok {
				continue
			}
			b.mustReject(c, a, c.msg(b, forge(c, a, b, 3, rat, k, idx, 0, body)), fmt.Sprintf("correct MAC, body of %d bytes that is no ciphertext", len(body)))
		}
		sk := okeys{skipped[0].CipherKey, skipped[0].MacKey, skipped[0].IV}
		b.mustReject(c, a, c.msg(b, forge(c, a, b, 3, rat, sk, skipped[0].Index, 0, rb(c.r, 17))), "correct MAC at a skipped counter, undecodable body")
		// an undecodable body after a jump
		kf := msgKeys(chainAt(key, 0, 40))
		b.mustReject(c, a, c.msg(b, forge(c, a, b, 3, rat, kf, idx+40, 0, rb(c.r, 33))), "correct MAC 40 ahead, undecodable body")
		// genuine messages still work, and are refused the second time
		b.mustDec(c, a, w1, t1)
		b.mustReject(c, a, w1, "replay")
		for _, i := range c.r.Perm(len(late)) {
			b.mustDec(c, a, late[i], t1)
			b.mustReject(c, a, late[i], "replay")
		}
		t2 := c.text()
		w2 := a.enc(c, b, t2)
		b.mustDec(c, a, w2, t2)
		b.mustReject(c, a, w2, "replay of the newest")
	})
	t.Case("unanswered session", t.n(6), func(c *C) {
		// a has an unacknowledged session; junk arrives before the first answer
		ser := c.ser()
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, false)
		if c.r.Intn(2) == 0 {
			c.start(a, b, 1)
			c.talk(a, b)
			c.talk(b, a)
		}
		c.start(a, b, int64(c.r.Intn(3))-1)
		c.talk(a, b)
		text := c.text()
		w := b.enc(c, a, text)
		good := *w.inner().Structure()
		for i := 0; i < 12; i++ {
			s := good
			s.Mac = append([]byte{}, good.Mac...)
			s.Mac[c.r.Intn(8)] ^= 1 << uint(c.r.Intn(8))
			switch c.r.Intn(4) {
			case 0:
				s.RatchetKey = b.spk.PublicKey().Serialize()
			case 1:
				s.RatchetKey = rkey(c.r).PublicKey().Serialize()
			}
			s.Counter = uint32(c.r.Intn(3))
			a.mustReject(c, b, c.msg(a, &s), fmt.Sprintf("bad MAC before the first answer, counter %d", s.Counter))
		}
		withRand(&badRand{c.r.Intn(32)}, func() { a.mustReject(c, b, w, "random source fails") })
		x := a.enc(c, b, text)
		c.Check(x.pre != nil, "no prekey message before the first answer")
		b.mustDec(c, a, x, text)
		a.mustDec(c, b, w, text)
		c.Check(a.enc(c, b, text).pre == nil, "prekey message after an answer")
	})
	t.Case("key generation fails", t.n(8), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		c.talk(b, a)
		text := c.text()
		w := a.enc(c, b, text) // new ratchet key of a
		n := c.r.Intn(32)
		c.Note("random source fails after %d bytes", n)
		withRand(&badRand{n}, func() { b.mustReject(c, a, w, "random source fails") })
		b.mustDec(c, a, w, text)
		c.talk(b, a)
	})
	t.Case("no session", t.n(4), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		d := newUser(c, "dora", a.st.ser, false)
		w := a.enc(c, b, rb(c.r, 4))
		d.mustReject(c, a, &wire{sig: w.inner()}, "no session with the sender")
		// a record without a session state
		d.st.StoreSession(a.addr, d.st.newRecord())
		d.mustReject(c, a, &wire{sig: w.inner()}, "uninitialised session")
	})
	t.Case("prekey messages", t.n(12), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		if c.r.Intn(2) == 0 { // an older session exists
			c.start(a, b, 1)
			c.talk(a, b)
			c.talk(b, a)
		}
		for i := c.r.Intn(4); i > 0; i-- { // unanswered sessions of its own
			c.start(b, a, int64(c.r.Intn(6))-1)
			c.Note("own unanswered session")
		}
		c.start(a, b, int64(c.r.Intn(6))-1)
		text := c.text()
		w := a.enc(c, b, text)
		inner := *w.inner().Structure()
		rewrap := func(f func(s *protocol.SignalMessageStructure)) *wire {
			s := inner
			s.CipherText = append([]byte{}, inner.CipherText...)
			s.Mac = append([]byte{}, inner.Mac...)
			f(&s)
			m := c.msg(a, &s).sig
			p, err := protocol.NewPreKeySignalMessage(3, w.pre.RegistrationID(), w.pre.PreKeyID(), w.pre.SignedPreKeyID(), w.pre.BaseKey(), w.pre.IdentityKey(), m, ser.PreKeySignalMessage, ser.SignalMessage)
			c.Check(err == nil, "rewrap: %v", err)
			return &wire{pre: p}
		}
		b.mustReject(c, a, rewrap(func(s *protocol.SignalMessageStructure) { s.Mac[3] ^= 1 }), "prekey message with a bad MAC")
		b.mustReject(c, a, rewrap(func(s *protocol.SignalMessageStructure) { s.CipherText[0] ^= 1 }), "prekey message with altered body")
		b.mustReject(c, a, rewrap(func(s *protocol.SignalMessageStructure) { s.Counter += 3 }), "prekey message with altered counter")
		b.mustReject(c, a, rewrap(func(s *protocol.SignalMessageStructure) { s.Counter += 6000 }), "prekey message far ahead")
		if w2 := rewrap(func(s *protocol.SignalMessageStructure) { s.Version = 2 }); w2.pre.WhisperMessage().MessageVersion() != 3 {
			// The ProtoBuf wire format only transports the high nibble of the version character.
			b.mustReject(c, a, w2, "prekey message with inner version 2")
		}
		// wrong base key: other secrets
		p, _ := protocol.NewPreKeySignalMessage(3, w.pre.RegistrationID(), w.pre.PreKeyID(), w.pre.SignedPreKeyID(), rkey(c.r).PublicKey(), w.pre.IdentityKey(), w.pre.WhisperMessage(), ser.PreKeySignalMessage, ser.SignalMessage)
		b.mustReject(c, a, &wire{pre: p}, "prekey message with another base key")
		p, _ = protocol.NewPreKeySignalMessage(3, w.pre.RegistrationID(), w.pre.PreKeyID(), w.pre.SignedPreKeyID()+1, rkey(c.r).PublicKey(), w.pre.IdentityKey(), w.pre.WhisperMessage(), ser.PreKeySignalMessage, ser.SignalMessage)
		b.mustReject(c, a, &wire{pre: p}, "prekey message naming an unknown signed prekey")
		// random source fails during the answering ratchet step
		withRand(&badRand{c.r.Intn(32)}, func() { b.mustReject(c, a, w, "random source fails") })
		b.mustDec(c, a, w, text)
		b.mustReject(c, a, w, "replayed prekey message")
		b.mustReject(c, a, rewrap(func(s *protocol.SignalMessageStructure) { s.Mac[0] ^= 1 }), "prekey message with a bad MAC for the established session")
		c.talk(b, a)
		c.talk(a, b)
	})
	t.Case("other states", t.n(8), func(c *C) {
		ser := c.ser()
		a, b := newUser(c, "alice", ser, true), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		var old [][]byte
		n := 2 + c.r.Intn(3)
		for i := 0; i < n; i++ {
			c.start(a, b, int64(i)-1)
			c.talk(a, b)
			old = append(old, a.st.bytes[b.addr.String()])
		}
		for i := c.r.Intn(3); i > 0; i-- { // unanswered sessions of its own
			c.start(b, a, int64(c.r.Intn(6))-1)
			c.Note("own unanswered session")
		}
		before := view(b.rec(a))
		pick := c.r.Intn(n)
		a.st.bytes[b.addr.String()] = old[pick]
		a.st.live[b.addr.String()] = nil
		text := c.text()
		w := a.enc(c, b, text)
		c.Note("%d states, message under state %d", n, pick)
		// altered: nothing changes in any state
		s := *w.inner().Structure()
		s.Mac = append([]byte{}, s.Mac...)
		s.Mac[5] ^= 4
		b.mustReject(c, a, c.msg(b, &s), "bad MAC, several states")
		r := &wire{sig: w.inner()}
		b.mustDec(c, a, r, text)
		after := view(b.rec(a))
		// all states but the used one are unchanged
		cnt := map[string]int{}
		for _, x := range append([]*stateV{before.SessionState}, before.PreviousStates...) {
			if x.chain(s.RatchetKey) == nil {
				cnt[js(x)]++
			}
		}
		for _, x := range append([]*stateV{after.SessionState}, after.PreviousStates...) {
			if x.chain(s.RatchetKey) == nil {
				cnt[js(x)]--
			}
		}
		for k, v := range cnt {
			c.Check(v == 0, "a state that did not decrypt the message changed: %s", trim(k, 300))
		}
		b.mustReject(c, a, r, "replay under a promoted state")
	})
	t.Case("lower level calls", t.n(6), func(c *C) {
		a, b := pair(c, c.ser(), false)
		text := c.text()
		w := a.enc(c, b, text)
		rec := b.rec(a)
		s := *w.inner().Structure()
		s.Mac = append([]byte{}, s.Mac...)
		s.Mac[5] ^= 4
		bad := c.msg(b, &s).sig
		cph := b.cipher(a)
		before := js(view(rec))
		p, k, err := cph.DecryptWithState(rec.SessionState(), bad)
		c.Check(err != nil && p == nil && k == nil, "DecryptWithState accepted a bad MAC")
		c.Check(js(view(rec)) == before, "DecryptWithState changed the state of a rejected message")
		p, k, err = cph.DecryptWithRecord(rec, bad)
		c.Check(err != nil && p == nil && k == nil, "DecryptWithRecord accepted a bad MAC")
		c.Check(js(view(rec)) == before, "DecryptWithRecord changed the record for a rejected message")
		p, k, err = cph.DecryptAndGetKey(bad)
		c.Check(err != nil && p == nil && k == nil, "DecryptAndGetKey accepted a bad MAC")
		p, k, err = cph.DecryptAndGetKey(w.inner())
		c.Check(err == nil && bytes.Equal(p, text) && k != nil, "DecryptAndGetKey: %v", err)
		if k != nil {
			q, err := cph.DecryptWithKey(w.inner(), k)
			c.Check(err == nil && bytes.Equal(q, text), "DecryptWithKey with the returned key: %v", err)
		}
	})
}

// rchain is the expected state of one receiving chain.
type rchain struct {
	pub  string
	next uint64
	kept []uint64
}

func c06(t *T) {
	t.Case("delivery orders", t.n(14), func(c *C) {
		a, b := newUser(c, "alice", c.ser(), c.r.Intn(3) == 0), (*user)(nil)
		b = newUser(c, "bob", a.st.ser, c.r.Intn(3) == 0)
		c.start(a, b, -1)
		type sent struct {
			w     *wire
			text  []byte
			basis string
		}
		var pool []sent
		var chains []*rchain // newest last, as bob holds them
		curB := string(b.spk.PublicKey().Serialize())
		established := false
		send := func() {
			text := rb(c.r, c.size(12))
			w := a.enc(c, b, text)
			v := view(a.rec(b)).SessionState
			basis := string(v.ReceiverChains[len(v.ReceiverChains)-1].SenderRatchetKeyPublic)
			pool = append(pool, sent{w, text, basis})
		}
		deliver := func(s sent) {
			m := s.w.inner()
			pub, n := string(m.SenderRatchetKey().Serialize()), uint64(m.Counter())
			var ch *rchain
			for _, x := range chains {
				if x.pub == pub {
					ch = x
				}
			}
			ok := false
			newChain := false
			switch {
			case ch == nil && s.basis == curB:
				ok = n <= 5000
				newChain = true
			case ch == nil:
			case n >= ch.next:
				ok = n-ch.next <= 5000
			default:
				for _, k := range ch.kept {
					if k == n {
						ok = true
					}
				}
			}
			c.Note("%x/%d:%v", pub[1:3], n, ok)
			w := &wire{sig: m}
			if s.w.pre != nil && !established {
				w = s.w
			}
			if !ok {
				b.mustReject(c, a, w, fmt.Sprintf("counter %d of chain %x", n, pub[1:5]))
				return
			}
			b.mustDec(c, a, w, s.text)
			established = true
			v := view(b.rec(a)).SessionState
			if newChain {
				ch = &rchain{pub: pub}
				chains = append(chains, ch)
				if len(chains) > 5 {
					chains = chains[1:]
				}
				curB = string(v.SenderChain.SenderRatchetKeyPublic)
			}
			if n >= ch.next {
				for ; ch.next < n; ch.next++ {
					ch.kept = append(ch.kept, ch.next)
					if len(ch.kept) > 2000 {
						ch.kept = ch.kept[1:]
					}
				}
				ch.next++
			} else {
				for i, k := range ch.kept {
					if k == n {
						ch.kept = append(append([]uint64{}, ch.kept[:i]...), ch.kept[i+1:]...)
						break
					}
				}
			}
			c.Check(len(v.ReceiverChains) == len(chains), "%d receiving chains, expected %d", len(v.ReceiverChains), len(chains))
			for i, x := range chains {
				y := v.ReceiverChains[i]
				c.Check(string(y.SenderRatchetKeyPublic) == x.pub, "receiving chain %d is for another ratchet key", i)
				c.Check(uint64(y.ChainKey.Index) == x.next, "chain %d at %d, expected %d", i, y.ChainKey.Index, x.next)
				var got []uint64
				for _, k := range y.MessageKeys {
					got = append(got, uint64(k.Index))
				}
				c.Check(fmt.Sprint(got) == fmt.Sprint(x.kept), "kept keys of chain %d: %v, expected %v", i, got, x.kept)
			}
		}
		send()
		for i := 0; i < 70; i++ {
			switch c.r.Intn(8) {
			case 0, 1, 2:
				for j := c.r.Intn(5); j >= 0; j-- {
					send()
				}
			case 3:
				if established {
					text := c.text()
					a.mustDec(c, b, b.enc(c, a, text), text)
				}
			case 4:
				if len(pool) > 0 {
					deliver(pool[len(pool)-1])
				}
			default:
				if len(pool) > 0 {
					deliver(pool[c.r.Intn(len(pool))])
				}
			}
		}
		for _, i := range c.r.Perm(len(pool)) {
			deliver(pool[i])
		}
	})
	t.Case("far positions", t.n(10), func(c *C) {
		a, b := pair(c, c.ser(), c.r.Intn(2) == 0)
		if c.r.Intn(2) == 0 {
			c.talk(b, a)
			c.talk(a, b)
		}
		c.shift(a, b)
		type sent struct {
			w    *wire
			text []byte
		}
		var held, done []sent
		for i := 0; i < 16; i++ {
			x := sent{text: rb(c.r, 3)}
			x.w = a.enc(c, b, x.text)
			if c.r.Intn(4) == 0 {
				held = append(held, x)
				continue
			}
			b.mustDec(c, a, x.w, x.text)
			b.mustReject(c, a, x.w, "replay")
			done = append(done, x)
		}
		c.talk(a, b)
		for _, i := range c.r.Perm(len(held)) {
			b.mustDec(c, a, held[i].w, held[i].text)
			b.mustReject(c, a, held[i].w, "replay of a late message")
		}
		for _, x := range done {
			b.mustReject(c, a, x.w, "replay")
		}
	})
	t.Case("window", 1+t.n(1)/2, func(c *C) {
		a, b := pair(c, protoSer, false)
		c.talk(b, a)
		c.talk(a, b) // new chain, position 1
		texts := map[uint32][]byte{}
		ws := map[uint32]*wire{}
		for i := 0; i < 5003; i++ {
			text := c.text()
			m, err := a.cipher(b).Encrypt(text)
			c.Check(err == nil, "Encrypt: %v", err)
			w := &wire{sig: m.(*protocol.SignalMessage)}
			texts[w.sig.Counter()], ws[w.sig.Counter()] = text, w
		}
		c.Check(ws[1] != nil && ws[5002] != nil, "counters")
		b.mustReject(c, a, ws[5002], "5001 messages ahead")
		b.mustDec(c, a, ws[5001], texts[5001])
		for _, n := range []uint32{1, 2, 2999, 3000} {
			b.mustReject(c, a, ws[n], fmt.Sprintf("counter %d, older than the 2000 kept keys", n))
		}
		for _, n := range []uint32{3001, 3002, 4000, 4999, 5000} {
			b.mustDec(c, a, ws[n], texts[n])
			b.mustReject(c, a, ws[n], fmt.Sprintf("replay of %d", n))
		}
		b.mustDec(c, a, ws[5002], texts[5002])
		v := view(b.rec(a)).SessionState
		ch := v.chain(ws[1].sig.SenderRatchetKey().Serialize())
		c.Check(len(ch.MessageKeys) == 1995, "%d kept keys, expected 1995", len(ch.MessageKeys))
	})
	t.Case("chain and key lookup", t.n(6), func(c *C) {
		// the chains and the kept keys of a state, against a list
		st := record.NewState(c.ser().State)
		type ent struct {
			pub  ecc.ECPublicKeyable
			key  []byte
			keys []*message.Keys
		}
		var model []*ent
		base := rb(c.r, 32)
		for i := 3 + c.r.Intn(6); i > 0; i-- {
			// keys that differ from one another in few bytes
			k := append([]byte{}, base...)
			for j := c.r.Intn(3); j >= 0; j-- {
				k[c.r.Intn(32)] ^= byte(1 << uint(c.r.Intn(8)))
			}
			pub := ecc.NewDjbECPublicKey(arr32(k))
			dup := false
			for _, e := range model {
				dup = dup || e.pub.PublicKey() == pub.PublicKey()
			}
			if dup {
				continue
			}
			c.Check(!st.HasReceiverChain(pub), "a chain for a key never seen")
			ck := chain.NewKey(kdf.DeriveSecrets, rb(c.r, 32), c.far())
			st.AddReceiverChain(pub, ck)
			model = append(model, &ent{pub: pub, key: ck.Key()})
			if len(model) > 5 {
				gone := model[0]
				model = model[1:]
				c.Check(!st.HasReceiverChain(gone.pub), "a sixth chain does not drop the oldest")
			}
			for j := c.r.Intn(6); j > 0; j-- {
				e := model[c.r.Intn(len(model))]
				mk := message.NewKeys(rb(c.r, 32), rb(c.r, 32), rb(c.r, 16), uint32(j)<<uint(8*c.r.Intn(4)))
				known := false
				for _, o := range e.keys {
					known = known || o.Index() == mk.Index()
				}
				if known {
					continue
				}
				c.Check(!st.HasMessageKeys(e.pub, mk.Index()), "a key never kept")
				st.SetMessageKeys(e.pub, mk)
				e.keys = append(e.keys, mk)
			}
			for _, e := range model {
				c.Check(st.HasReceiverChain(e.pub), "a chain is lost")
				c.Check(bytes.Equal(st.ReceiverChainKey(e.pub).Key(), e.key), "the chain of another key")
				if len(e.keys) > 0 && c.r.Intn(3) == 0 {
					j := c.r.Intn(len(e.keys))
					want := e.keys[j]
					c.Check(st.HasMessageKeys(e.pub, want.Index()), "a kept key is lost")
					got := st.RemoveMessageKeys(e.pub, want.Index())
					c.Check(got.Index() == want.Index() && bytes.Equal(got.CipherKey(), want.CipherKey()) && bytes.Equal(got.MacKey(), want.MacKey()) && bytes.Equal(got.Iv(), want.Iv()), "the kept key of another counter")
					e.keys = append(append([]*message.Keys{}, e.keys[:j]...), e.keys[j+1:]...)
					c.Check(!st.HasMessageKeys(e.pub, want.Index()), "a removed key is still there")
				}
				for _, o := range e.keys {
					c.Check(st.HasMessageKeys(e.pub, o.Index()), "a kept key is lost")
				}
			}
		}
	})
	t.Case("new chains from afar", t.n(4), func(c *C) {
		// the first message of each of a few new chains is far into it
		a, b := pair(c, c.ser(), false)
		type late struct {
			w    *wire
			text []byte
		}
		var keep, gone []late
		for round := 2 + c.r.Intn(3); round > 0; round-- {
			c.talk(b, a)
			rat, key, idx := a.sendChain(b)
			c.Check(idx == 0, "the new chain starts at %d", idx)
			jump := uint32([]int{1, 500, 999, 1000, 1001, 1500, 1800, 1999, 2000, 2001, 3000, 4001, 4999, 5000}[c.r.Intn(14)])
			c.Note("jump %d", jump)
			at := func(n uint32) late {
				k := msgKeys(chainAt(key, 0, n))
				text := []byte(fmt.Sprint("text ", n))
				return late{c.msg(b, forge(c, a, b, 3, rat, k, n, 0, cbcEnc(k.cipher, k.iv, text))), text}
			}
			x := at(jump)
			b.mustReject(c, a, at(5001).w, "5001 ahead on a new chain")
			b.mustDec(c, a, x.w, x.text)
			gone = append(gone, x)
			first := uint32(0)
			if jump > 2000 {
				first = jump - 2000
				gone = append(gone, at(first-1), at(0))
			}
			keep = append(keep, at(first))
			if first+1 < jump {
				keep = append(keep, at(first+1))
			}
			if first+2 < jump {
				keep = append(keep, at(jump-1))
			}
		}
		for _, x := range gone {
			b.mustReject(c, a, x.w, "delivered or dropped")
		}
		for _, i := range c.r.Perm(len(keep)) {
			b.mustDec(c, a, keep[i].w, keep[i].text)
			b.mustReject(c, a, keep[i].w, "replay")
		}
	})
	t.Case("jump keeps keys", t.n(4), func(c *C) {
		// jumps over forged positions computed from the chain key
		a, b := pair(c, c.ser(), false)
		if c.r.Intn(2) == 0 {
			c.shift(a, b)
		}
		rat, key, idx := b.recvChain(a)
		jump := uint32([]int{0, 1, 2, 1999, 2000, 2001, 2500}[c.r.Intn(7)])
		c.Note("jump %d", jump)
		at := func(n uint32) *wire {
			k := msgKeys(chainAt(key, 0, n-idx))
			return c.msg(b, forge(c, a, b, 3, rat, k, n, 0, cbcEnc(k.cipher, k.iv, []byte(fmt.Sprint("text ", n)))))
		}
		b.mustDec(c, a, at(idx+jump), []byte(fmt.Sprint("text ", idx+jump)))
		v := view(b.rec(a)).SessionState.chain(rat)
		first := idx
		if jump > 2000 {
			first = idx + jump - 2000
		}
		c.Check(len(v.MessageKeys) == int(idx+jump-first), "%d kept keys, expected %d", len(v.MessageKeys), idx+jump-first)
		for i, k := range v.MessageKeys {
			n := first + uint32(i)
			o := msgKeys(chainAt(key, 0, n-idx))
			if i > 3 && i < len(v.MessageKeys)-3 && i%97 != 0 {
				continue
			}
			c.Check(k.Index == n && bytes.Equal(k.CipherKey, o.cipher) && bytes.Equal(k.MacKey, o.mac) && bytes.Equal(k.IV, o.iv), "kept key %d is not the key of counter %d", i, n)
		}
		c.Check(v.ChainKey.Index == idx+jump+1 && bytes.Equal(v.ChainKey.Key, chainAt(key, 0, jump+1)), "chain after the jump")
		if jump > 0 {
			n := first + uint32(c.r.Intn(int(idx+jump-first)))
			b.mustDec(c, a, at(n), []byte(fmt.Sprint("text ", n)))
			b.mustReject(c, a, at(n), "second delivery of a skipped message")
		}
		if first > idx {
			b.mustReject(c, a, at(first-1), "dropped key")
		}
		b.mustReject(c, a, at(idx+jump), "second delivery")
		b.mustReject(c, a, at(idx+jump+1+5001), "5001 ahead")
		if c.r.Intn(2) == 0 {
			b.mustDec(c, a, at(idx+jump+1+5000), []byte(fmt.Sprint("text ", idx+jump+1+5000)))
		}
	})
}

var _ = crand.Reader
