package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/ecc/edwards25519"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func init() {
	props["C14"] = c14
	props["C15"] = c15
	props["C16"] = c16
	props["C17"] = c17
	props["C18"] = c18
	props["C19"] = c19
	props["C20"] = c20
	props["C21"] = c21
	props["C22"] = c22
	props["C23"] = c23
}

// gpair is a group sender and a member that has its distribution message.
func gpair(c *C, ser *serialize.Serializer) (a, b *user, n *protocol.SenderKeyName) {
	a, b = newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, c.r.Intn(2) == 0)
	n = protocol.NewSenderKeyName("group "+fmt.Sprint(c.r.Intn(5)), a.addr)
	d, err := a.gbuilder().Create(n)
	c.Check(err == nil, "Create: %v", err)
	b.gbuilder().Process(n, c.redist(d, ser))
	return
}

// redist sends a distribution message over the wire.
func (c *C) redist(d *protocol.SenderKeyDistributionMessage, ser *serialize.Serializer) *protocol.SenderKeyDistributionMessage {
	q, err := protocol.NewSenderKeyDistributionMessageFromBytes(d.Serialize(), ser.SenderKeyDistributionMessage)
	c.Check(err == nil, "parsing a distribution message: %v", err)
	return q
}

func (u *user) genc(c *C, n *protocol.SenderKeyName, text []byte) *protocol.SenderKeyMessage {
	m, err := u.gcipher(n).Encrypt(text)
	c.Check(err == nil, "group Encrypt: %v", err)
	q, err := protocol.NewSenderKeyMessageFromBytes(m.(*protocol.SenderKeyMessage).SignedSerialize(), u.st.ser.SenderKeyMessage)
	c.Check(err == nil, "parsing a group message: %v", err)
	return q
}

func (u *user) gdec(c *C, n *protocol.SenderKeyName, m *protocol.SenderKeyMessage, text []byte) {
	p, err := u.gcipher(n).Decrypt(m)
	c.Check(err == nil, "%s cannot decrypt group message of iteration %d: %v", u.name, m.Iteration(), err)
	c.Check(bytes.Equal(p, text), "%s decrypted %x, sent was %x", u.name, p, text)
}

func (u *user) grej(c *C, n *protocol.SenderKeyName, m *protocol.SenderKeyMessage, why string) {
	before := u.st.snapshot()
	u.st.log = nil
	p, err := u.gcipher(n).Decrypt(m)
	c.Check(err != nil, "%s: accepted (plaintext %x)", why, p)
	c.Check(p == nil, "%s: an error and a plaintext", why)
	c.Check(len(u.st.changes()) == 0, "%s: rejected, but %v", why, u.st.changes())
	after := u.st.snapshot()
	c.Check(before == after, "%s: rejected, but the state changed: %s", why, diff(before, after))
}

// gmsg is a group message with an arbitrary signature.
func (c *C) gmsg(ser *serialize.Serializer, id, it uint32, body []byte, version uint32, sig []byte) (*protocol.SenderKeyMessage, error) {
	return protocol.NewSenderKeyMessageFromStruct(&protocol.SenderKeyMessageStructure{ID: id, Iteration: it, CipherText: body, Version: version, Signature: sig}, ser.SenderKeyMessage)
}

func c14(t *T) {
	t.Case("forged and altered", t.n(14), func(c *C) {
		ser := c.ser()
		a, b, n := gpair(c, ser)
		for i := c.r.Intn(3); i > 0; i-- {
			b.gdec(c, n, a.genc(c, n, []byte("x")), []byte("x"))
		}
		if c.r.Intn(2) == 0 {
			c.gshift(n, a, b)
		}
		var gaps []*protocol.SenderKeyMessage
		for i := c.r.Intn(3); i > 0; i-- {
			gaps = append(gaps, a.genc(c, n, []byte("gap")))
		}
		gap := a.genc(c, n, []byte("gap"))
		for i := c.r.Intn(3); i > 0; i-- {
			gaps = append(gaps, a.genc(c, n, []byte("gap")))
		}
		b.gdec(c, n, a.genc(c, n, []byte("y")), []byte("y"))
		text := rb(c.r, 1+c.r.Intn(40))
		if c.r.Intn(3) == 0 {
			text = rb(c.r, c.size(1+c.r.Intn(5000)))
		}
		m := a.genc(c, n, text)
		sig := m.Signature()
		st, _ := a.st.LoadSenderKey(n).SenderKeyState()
		pub := st.SigningKey().PublicKey()
		// genuine: signature over version, id, iteration, ciphertext
		c.Check(oracleVerify(pub.PublicKey(), m.Serialize(), sig), "signature of a sent message")
		if ser == protoSer {
			want := append(append(append([]byte("3"), pbVar(1, uint64(m.KeyID()))...), pbVar(2, uint64(m.Iteration()))...), pbBytes(3, m.Ciphertext())...)
			c.Check(bytes.Equal(m.Serialize(), want), "signed bytes %x, expected %x", m.Serialize(), want)
		}
		iv, key := groupKeys(st.SenderChainKey().Seed())
		_ = iv
		_ = key
		try := func(why string, id, it uint32, body []byte, version uint32, sg []byte) {
			x, err := c.gmsg(ser, id, it, body, version, sg)
			if err != nil {
				return
			}
			c.Note("%s", why)
			b.grej(c, n, x, why)
		}
		for i := 0; i < 16; i++ {
			s := sig
			s[c.r.Intn(64)] ^= 1 << uint(c.r.Intn(8))
			try("altered signature", m.KeyID(), m.Iteration(), m.Ciphertext(), 3, s[:])
		}
		s := sig
		s[63] ^= 0x80
		try("sign bit of the signature", m.KeyID(), m.Iteration(), m.Ciphertext(), 3, s[:])
		try("no signature", m.KeyID(), m.Iteration(), m.Ciphertext(), 3, make([]byte, 64))
		try("other iteration", m.KeyID(), m.Iteration()+1, m.Ciphertext(), 3, sig[:])
		try("far iteration", m.KeyID(), m.Iteration()+1000, m.Ciphertext(), 3, sig[:])
		try("skipped iteration", m.KeyID(), gap.Iteration(), m.Ciphertext(), 3, sig[:])
		try("skipped message with another signature", gap.KeyID(), gap.Iteration(), gap.Ciphertext(), 3, sig[:])
		try("skipped message without signature", gap.KeyID(), gap.Iteration(), gap.Ciphertext(), 3, make([]byte, 64))
		try("version 2", m.KeyID(), m.Iteration(), m.Ciphertext(), 2, sig[:])
		try("other key id", m.KeyID()+1, m.Iteration(), m.Ciphertext(), 3, sig[:])
		for i := 0; i < 6; i++ {
			body := append([]byte{}, m.Ciphertext()...)
			body[c.r.Intn(len(body))] ^= 1 << uint(c.r.Intn(8))
			try("altered ciphertext", m.KeyID(), m.Iteration(), body, 3, sig[:])
		}
		for _, i := range []int{1, 16, 17, 32} {
			if i <= len(m.Ciphertext()) {
				body := append([]byte{}, m.Ciphertext()...)
				body[len(body)-i] ^= 1 << uint(c.r.Intn(8))
				try("altered at the end", m.KeyID(), m.Iteration(), body, 3, sig[:])
			}
		}
		if k := len(m.Ciphertext()); k > 16 {
			try("ciphertext shortened", m.KeyID(), m.Iteration(), m.Ciphertext()[:k-16], 3, sig[:])
		}
		try("ciphertext extended", m.KeyID(), m.Iteration(), append(append([]byte{}, m.Ciphertext()...), rb(c.r, 16)...), 3, sig[:])
		g := gap.Signature()
		try("signature of another message", m.KeyID(), m.Iteration(), m.Ciphertext(), 3, g[:])
		other := rkey(c.r)
		for _, it := range []uint32{gap.Iteration(), m.Iteration(), m.Iteration() + 7} {
			b.grej(c, n, protocol.NewSenderKeyMessage(m.KeyID(), it, m.Ciphertext(), other.PrivateKey(), ser.SenderKeyMessage), "signed by someone else")
			b.grej(c, n, protocol.NewSenderKeyMessage(m.KeyID()+1, it, m.Ciphertext(), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), "unknown key id")
		}
		// the owner of the key is no easier to deceive
		for _, it := range []uint32{m.Iteration() + 1, m.Iteration() + 3, m.Iteration() + 2000} {
			a.grej(c, n, protocol.NewSenderKeyMessage(m.KeyID(), it, m.Ciphertext(), other.PrivateKey(), ser.SenderKeyMessage), "signed by someone else, received by the owner of the key")
		}
		// signatures over other parts
		for _, x := range [][]byte{m.Ciphertext(), m.Serialize()[1:], nil, m.SignedSerialize()} {
			sg := ecc.CalculateSignature(st.SigningKey().PrivateKey(), x)
			try("signature over something else", m.KeyID(), m.Iteration(), m.Ciphertext(), 3, sg[:])
		}
		// correctly signed, but undecodable
		for _, k := range []int{0, 1, 15, 17, 33, 47} {
			b.grej(c, n, protocol.NewSenderKeyMessage(m.KeyID(), m.Iteration()+3, rb(c.r, k), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), "correctly signed junk")
			b.grej(c, n, protocol.NewSenderKeyMessage(m.KeyID(), gap.Iteration(), rb(c.r, k|1), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), "correctly signed junk")
		}
		b.grej(c, protocol.NewSenderKeyName("other", a.addr), m, "unknown group")
		b.gdec(c, n, m, text)
		b.gdec(c, n, gap, []byte("gap"))
		for _, i := range c.r.Perm(len(gaps)) {
			b.gdec(c, n, gaps[i], []byte("gap"))
		}
		b.grej(c, n, m, "replay")
		for _, x := range append(gaps, gap) {
			b.grej(c, n, x, "replay")
		}
	})
	t.Case("several keys", t.n(6), func(c *C) {
		// several sender key states under one name; each message verifies under its own key only
		ser := c.ser()
		b := newUser(c, "bob", ser, c.r.Intn(2) == 0)
		var us []*user
		name := protocol.NewSenderKeyName("g", protocol.NewSignalAddress("alice", 1))
		for i := 0; i < 3; i++ {
			a := newUser(c, fmt.Sprint("alice", i), ser, false)
			d, err := a.gbuilder().Create(name)
			c.Check(err == nil, "Create: %v", err)
			b.gbuilder().Process(name, c.redist(d, ser))
			us = append(us, a)
		}
		for _, i := range []int{2, 0, 1, 1, 0, 2} {
			text := c.text()
			m := us[i].genc(c, name, text)
			sg := m.Signature()
			for j := range us {
				if j != i {
					st, _ := us[j].st.LoadSenderKey(name).SenderKeyState()
					x, err := c.gmsg(ser, st.KeyID(), m.Iteration(), m.Ciphertext(), 3, sg[:])
					c.Check(err == nil, "%v", err)
					b.grej(c, name, x, "message moved to another sender key")
					b.grej(c, name, protocol.NewSenderKeyMessage(m.KeyID(), m.Iteration(), m.Ciphertext(), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), "signed with the key of another state")
				}
			}
			b.gdec(c, name, m, text)
			b.grej(c, name, m, "replay")
		}
	})
}

func c15(t *T) {
	t.Case("key schedule", t.n(20), func(c *C) {
		ck := rb(c.r, 32)
		if c.r.Intn(4) == 0 {
			ck = rb(c.r, c.r.Intn(70))
		}
		it := c.r.Uint32()
		was := append([]byte{}, ck...)
		k := gratchet.NewSenderChainKey(it, ck)
		c.Note("%x %d", ck, it)
		for i := 0; i < 3; i++ {
			m, err := k.SenderMessageKey()
			c.Check(err == nil, "%v", err)
			iv, key := groupKeys(k.Seed())
			c.Check(m.Iteration() == k.Iteration() && bytes.Equal(m.Iv(), iv) && bytes.Equal(m.CipherKey(), key) && bytes.Equal(m.Seed(), hm(k.Seed(), []byte{1})), "message key of iteration %d", k.Iteration())
			nx := k.Next()
			c.Check(nx.Iteration() == k.Iteration()+1 && bytes.Equal(nx.Seed(), chainNext(k.Seed())), "next chain key")
			k = nx
		}
		c.Check(bytes.Equal(ck, was), "deriving keys changed the chain key")
	})
	t.Case("sending", t.n(6), func(c *C) {
		ser := c.ser()
		a, _, n := gpair(c, ser)
		if c.r.Intn(2) == 0 {
			c.gshift(n, a)
		}
		for i := 0; i < 8; i++ {
			v := a.gv(n).SenderKeyStates[0]
			ck, it := v.SenderChainKey.ChainKey, v.SenderChainKey.Iteration
			text := rb(c.r, c.size(40))
			a.st.log = nil
			m := a.genc(c, n, text)
			ch := a.st.changes()
			c.Check(len(ch) == 1 && ch[0] == "StoreSenderKey "+skn(n), "changes by an encryption: %v", ch)
			iv, key := groupKeys(ck)
			c.Check(m.Iteration() == it && m.KeyID() == v.KeyID, "labelled %d, chain was at %d", m.Iteration(), it)
			c.Check(bytes.Equal(m.Ciphertext(), cbcEnc(key, iv, text)), "not encrypted under the key of iteration %d", it)
			w := a.gv(n).SenderKeyStates[0]
			c.Check(w.SenderChainKey.Iteration == it+1 && bytes.Equal(w.SenderChainKey.ChainKey, chainNext(ck)), "chain after encrypting: %d", w.SenderChainKey.Iteration)
			w.SenderChainKey, v.SenderChainKey = nil, nil
			c.Check(js(w) == js(v), "encrypting changed something else")
		}
	})
	t.Case("orders", t.n(10), func(c *C) {
		ser := c.ser()
		a, b, n := gpair(c, ser)
		N := 10 + c.r.Intn(30)
		if c.name == "orders/0@1" {
			N = 120
		}
		base := uint32(0)
		if c.r.Intn(2) == 0 {
			base = c.gshift(n, a, b)
		}
		var ms []*protocol.SenderKeyMessage
		var ts [][]byte
		for i := 0; i < N; i++ {
			text := rb(c.r, c.size(20))
			ms, ts = append(ms, a.genc(c, n, text)), append(ts, text)
		}
		next := uint32(0)
		kept := map[uint32]bool{}
		for i := 0; i < 2*N; i++ {
			k := uint32(c.r.Intn(N))
			if c.r.Intn(3) == 0 && next < uint32(N) {
				k = next
			}
			c.Note("%d", k)
			if c.r.Intn(4) == 0 {
				// correctly signed, but with a body that cannot be decrypted
				st, err := a.st.LoadSenderKey(n).SenderKeyState()
				c.Check(err == nil, "%v", err)
				it := base + uint32(c.r.Intn(N+5))
				for i := 0; i < N; i++ {
					if kept[uint32(i)] && c.r.Intn(2) == 0 {
						it = base + uint32(i)
						break
					}
				}
				b.grej(c, n, protocol.NewSenderKeyMessage(st.KeyID(), it, rb(c.r, c.r.Intn(40)|1), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), "correctly signed junk")
			}
			if k >= next {
				b.gdec(c, n, ms[k], ts[k])
				for ; next < k; next++ {
					kept[next] = true
				}
				next++
			} else if kept[k] {
				b.gdec(c, n, ms[k], ts[k])
				delete(kept, k)
			} else {
				b.grej(c, n, ms[k], fmt.Sprintf("replay of %d", k))
			}
			v := b.gv(n).SenderKeyStates[0]
			c.Check(v.SenderChainKey.Iteration == base+next, "chain at %d, expected %d", v.SenderChainKey.Iteration, next)
			last := -1
			c.Check(len(v.Keys) == len(kept), "%d kept keys, expected %d", len(v.Keys), len(kept))
			for _, x := range v.Keys {
				c.Check(kept[x.Iteration-base] && int(x.Iteration-base) > last, "kept key %d", x.Iteration)
				last = int(x.Iteration - base)
			}
		}
	})
	t.Case("far iterations", t.n(8), func(c *C) {
		a, b, n := gpair(c, c.ser())
		c.gshift(n, a, b)
		var held, done []*protocol.SenderKeyMessage
		for i := 0; i < 16; i++ {
			before := a.gv(n).SenderKeyStates[0].SenderChainKey.Iteration
			m := a.genc(c, n, []byte("t"))
			c.Check(m.Iteration() == before && a.gv(n).SenderKeyStates[0].SenderChainKey.Iteration == before+1, "iteration %d after %d", m.Iteration(), before)
			if c.r.Intn(4) == 0 {
				held = append(held, m)
				continue
			}
			b.gdec(c, n, m, []byte("t"))
			b.grej(c, n, m, "replay")
			done = append(done, m)
		}
		b.gdec(c, n, a.genc(c, n, []byte("t")), []byte("t"))
		for _, i := range c.r.Perm(len(held)) {
			b.gdec(c, n, held[i], []byte("t"))
			b.grej(c, n, held[i], "replay of a late message")
		}
		for _, m := range done {
			b.grej(c, n, m, "replay")
		}
	})
	t.Case("window", t.n(3), func(c *C) {
		ser := protoSer
		a, b, n := gpair(c, ser)
		st, _ := a.st.LoadSenderKey(n).SenderKeyState()
		v := b.gv(n).SenderKeyStates[0]
		ck := v.SenderChainKey.ChainKey
		at := func(it uint32) (*protocol.SenderKeyMessage, []byte) {
			iv, key := groupKeys(chainAt(ck, 0, it))
			text := []byte(fmt.Sprint("text ", it))
			return protocol.NewSenderKeyMessage(st.KeyID(), it, cbcEnc(key, iv, text), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), text
		}
		base := uint32(c.r.Intn(3))
		for i := uint32(0); i < base; i++ {
			m, tx := at(i)
			b.gdec(c, n, m, tx)
		}
		m, _ := at(base + 2001)
		b.grej(c, n, m, "2001 ahead")
		first := base + 2000
		if c.r.Intn(2) == 0 {
			first = base + 1 + uint32(c.r.Intn(1999))
		}
		m, tx := at(first)
		b.gdec(c, n, m, tx)
		b.grej(c, n, m, "replay")
		m, _ = at(first + 1 + 2001)
		b.grej(c, n, m, "2001 ahead")
		for _, d := range []uint32{1 << 16, 1<<16 + 3, 1<<31 - 1, 1 << 31, 1<<31 + 2000, 1<<32 - 1 - first - 1, 1<<32 - 2002 - first} {
			b.grej(c, n, protocol.NewSenderKeyMessage(st.KeyID(), first+1+d, rb(c.r, 16), st.SigningKey().PrivateKey(), ser.SenderKeyMessage), fmt.Sprintf("%d ahead", d))
		}
		jump := uint32(c.r.Intn(2001))
		m, tx = at(first + 1 + jump)
		b.gdec(c, n, m, tx)
		c.Note("%d %d %d", base, first, jump)
		// kept: the newest 2000 of base..first-1, first+1..first+jump
		var all []uint32
		for i := base; i < first+1+jump; i++ {
			if i != first {
				all = append(all, i)
			}
		}
		dropped := []uint32{}
		if len(all) > 2000 {
			dropped, all = all[:len(all)-2000], all[len(all)-2000:]
		}
		vv := b.gv(n).SenderKeyStates[0]
		c.Check(len(vv.Keys) == len(all), "%d kept keys, expected %d", len(vv.Keys), len(all))
		for i, x := range vv.Keys {
			c.Check(x.Iteration == all[i], "kept key %d is of iteration %d, expected %d", i, x.Iteration, all[i])
			if i < 3 || i > len(all)-3 || i%101 == 0 {
				iv, key := groupKeys(chainAt(ck, 0, x.Iteration))
				c.Check(bytes.Equal(x.IV, iv) && bytes.Equal(x.CipherKey, key), "kept key of iteration %d", x.Iteration)
			}
		}
		c.Check(vv.SenderChainKey.Iteration == first+2+jump && bytes.Equal(vv.SenderChainKey.ChainKey, chainAt(ck, 0, first+2+jump)), "chain after the jump")
		for i := 0; i < 6 && len(all) > 0; i++ {
			k := c.r.Intn(len(all))
			if i == 0 {
				k = 0
			}
			m, tx = at(all[k])
			b.gdec(c, n, m, tx)
			b.grej(c, n, m, "replay of a skipped iteration")
			all = append(append([]uint32{}, all[:k]...), all[k+1:]...)
		}
		for i := 0; i < 3 && i < len(dropped); i++ {
			m, _ = at(dropped[len(dropped)-1-i])
			b.grej(c, n, m, "dropped key")
		}
	})
	t.Case("large iterations", t.n(3), func(c *C) {
		// chains near the ends of the counter range
		ser := c.ser()
		kp := rkey(c.r)
		ck := rb(c.r, 32)
		for _, it := range []uint32{1 << 31, 0x7FFFFFFE, 0xFFFFFFF0} {
			b := newUser(c, "bob", ser, false)
			n := protocol.NewSenderKeyName("g", b.addr)
			b.gbuilder().Process(n, protocol.NewSenderKeyDistributionMessage(5, it, ck, kp.PublicKey(), ser.SenderKeyDistributionMessage))
			at := func(i uint32) (*protocol.SenderKeyMessage, []byte) {
				iv, key := groupKeys(chainAt(ck, it, i))
				return protocol.NewSenderKeyMessage(5, i, cbcEnc(key, iv, []byte("t")), kp.PrivateKey(), ser.SenderKeyMessage), []byte("t")
			}
			m, tx := at(it + 3)
			b.gdec(c, n, m, tx)
			b.grej(c, n, m, "replay")
			m, tx = at(it + 1)
			b.gdec(c, n, m, tx)
			iv, key := groupKeys(ck)
			for _, i := range []uint32{0, 1, it - 1, it - 1000} {
				b.grej(c, n, protocol.NewSenderKeyMessage(5, i, cbcEnc(key, iv, []byte("t")), kp.PrivateKey(), ser.SenderKeyMessage), fmt.Sprintf("iteration %d before the chain", i))
			}
		}
	})
}

func c16(t *T) {
	t.Case("distribution", t.n(10), func(c *C) {
		ser := c.ser()
		a := newUser(c, "alice", ser, c.r.Intn(2) == 0)
		n := protocol.NewSenderKeyName("g", a.addr)
		d0, err := a.gbuilder().Create(n)
		c.Check(err == nil, "%v", err)
		c.Check(d0.Iteration() == 0 && len(d0.ChainKey()) == 32, "first distribution message")
		check := func(d *protocol.SenderKeyDistributionMessage) {
			v := a.gv(n)
			c.Check(len(v.SenderKeyStates) == 1, "%d sender key states", len(v.SenderKeyStates))
			s := v.SenderKeyStates[0]
			c.Check(d.ID() == s.KeyID && d.Iteration() == s.SenderChainKey.Iteration && bytes.Equal(d.ChainKey(), s.SenderChainKey.ChainKey) && bytes.Equal(d.SignatureKey().Serialize(), s.SigningKeyPublic), "distribution message does not carry the sender's chain")
			var p [32]byte
			copy(p[:], s.SigningKeyPrivate)
			pub := x25519base(p)
			c.Check(len(s.SigningKeyPrivate) == 32 && bytes.Equal(s.SigningKeyPublic[1:], pub[:]), "signing key pair of the sender")
		}
		check(d0)
		k := c.r.Intn(30)
		var early []*protocol.SenderKeyMessage
		for i := 0; i < k; i++ {
			early = append(early, a.genc(c, n, []byte("early")))
		}
		before := a.st.snapshot()
		a.st.log = nil
		d, err := a.gbuilder().Create(n)
		c.Check(err == nil, "%v", err)
		c.Check(a.st.snapshot() == before, "creating the session again changes the sender key")
		c.Note("iteration %d", k)
		c.Check(d.ID() == d0.ID() && bytes.Equal(d.SignatureKey().Serialize(), d0.SignatureKey().Serialize()) && d.Iteration() == uint32(k) && bytes.Equal(d.ChainKey(), chainAt(d0.ChainKey(), 0, uint32(k))), "creating the session again does not reuse the sender key")
		check(d)
		b := newUser(c, "bob", ser, c.r.Intn(2) == 0)
		dd := c.redist(d, ser)
		b.st.log = nil
		b.gbuilder().Process(n, dd)
		c.Check(fmt.Sprint(b.st.changes()) == fmt.Sprint([]string{"StoreSenderKey " + skn(n)}), "changes by Process: %v", b.st.changes())
		v := b.gv(n)
		c.Check(len(v.SenderKeyStates) == 1, "%d states", len(v.SenderKeyStates))
		s := v.SenderKeyStates[0]
		c.Check(s.KeyID == d.ID() && s.SenderChainKey.Iteration == d.Iteration() && bytes.Equal(s.SenderChainKey.ChainKey, d.ChainKey()) && bytes.Equal(s.SigningKeyPublic, d.SignatureKey().Serialize()) && len(s.SigningKeyPrivate) == 0 && len(s.Keys) == 0, "member's state %s", js(s))
		for _, m := range early {
			b.grej(c, n, m, "message from before the distribution")
		}
		var ms []*protocol.SenderKeyMessage
		var ts [][]byte
		for i := 0; i < 12; i++ {
			text := rb(c.r, c.size(20))
			ms, ts = append(ms, a.genc(c, n, text)), append(ts, text)
		}
		for _, i := range c.r.Perm(12) {
			b.gdec(c, n, ms[i], ts[i])
		}
		// a member cannot sign
		x, err := b.gcipher(n).Encrypt([]byte("x"))
		c.Check(err != nil && x == nil, "a member encrypts under the sender's name")
		// a late member gets the current chain
		e := newUser(c, "eve", ser, false)
		d2, err := a.gbuilder().Create(n)
		c.Check(err == nil && d2.Iteration() == uint32(k+12), "%v", err)
		e.gbuilder().Process(n, c.redist(d2, ser))
		for _, m := range ms {
			e.grej(c, n, m, "message from before joining")
		}
		m := a.genc(c, n, []byte("new"))
		e.gdec(c, n, m, []byte("new"))
		b.gdec(c, n, m, []byte("new"))
	})
	t.Case("further messages", t.n(6), func(c *C) {
		ser := c.ser()
		b := newUser(c, "bob", ser, c.r.Intn(2) == 0)
		name := protocol.NewSenderKeyName("g", protocol.NewSignalAddress("alice", 1))
		var us []*user
		for i := 0; i < 4; i++ {
			a := newUser(c, fmt.Sprint("alice", i), ser, false)
			d, err := a.gbuilder().Create(name)
			c.Check(err == nil, "%v", err)
			var before []*gstateV
			if i > 0 {
				before = b.gv(name).SenderKeyStates
			}
			b.gbuilder().Process(name, c.redist(d, ser))
			after := b.gv(name).SenderKeyStates
			c.Check(len(after) == i+1, "%d states", len(after))
			for j := range before {
				c.Check(js(before[j]) == js(after[j]), "state %d changed", j)
			}
			us = append(us, a)
			for j := 0; j <= i; j++ {
				text := c.text()
				b.gdec(c, name, us[j].genc(c, name, text), text)
			}
		}
		// processing the same message again keeps the state that is known
		a := us[1]
		m1 := a.genc(c, name, []byte("one"))
		b.gdec(c, name, m1, []byte("one"))
		d, err := a.gbuilder().Create(name)
		c.Check(err == nil, "%v", err)
		b.gbuilder().Process(name, c.redist(d, ser))
		b.grej(c, name, m1, "replay after a further distribution message")
		text := c.text()
		b.gdec(c, name, a.genc(c, name, text), text)
	})
	t.Case("far chains", t.n(8), func(c *C) {
		ser := c.ser()
		a := newUser(c, "alice", ser, true)
		n := protocol.NewSenderKeyName("g", a.addr)
		_, err := a.gbuilder().Create(n)
		c.Check(err == nil, "%v", err)
		d0 := c.gshift(n, a)
		before := a.st.snapshot()
		d, err := a.gbuilder().Create(n)
		c.Check(err == nil && a.st.snapshot() == before, "creating the session again at %d: %v", d0, err)
		s := a.gv(n).SenderKeyStates[0]
		c.Check(d.ID() == s.KeyID && d.Iteration() == d0 && bytes.Equal(d.ChainKey(), s.SenderChainKey.ChainKey) && bytes.Equal(d.SignatureKey().Serialize(), s.SigningKeyPublic), "distribution message at iteration %d", d0)
		b := newUser(c, "bob", ser, true)
		b.gbuilder().Process(n, c.redist(d, ser))
		v := b.gv(n).SenderKeyStates[0]
		c.Check(v.KeyID == d.ID() && v.SenderChainKey.Iteration == d0 && bytes.Equal(v.SenderChainKey.ChainKey, d.ChainKey()), "member's state at iteration %d", d0)
		for i := 0; i < 3; i++ {
			text := c.text()
			b.gdec(c, n, a.genc(c, n, text), text)
		}
	})
	t.Case("related ids", t.n(20), func(c *C) {
		ser := c.ser()
		b := newUser(c, "bob", ser, c.r.Intn(2) == 0)
		name := protocol.NewSenderKeyName("g", protocol.NewSignalAddress("alice", 1))
		own := c.r.Intn(4) == 0
		var want []string
		if own { // bob's own key first
			_, err := b.gbuilder().Create(name)
			c.Check(err == nil, "%v", err)
			want = append(want, js(b.gv(name).SenderKeyStates[0]))
		}
		base := c.r.Uint32()
		keys := []*ecc.ECKeyPair{rkey(c.r), rkey(c.r)}
		chains := [][]byte{rb(c.r, 32), rb(c.r, 32)}
		for i := 0; i < 3+c.r.Intn(6); i++ {
			id := []uint32{base, base + 1, base ^ 0x8000, base ^ 0x10000, base ^ 1<<31, 0, c.r.Uint32()}[c.r.Intn(7)]
			it := []uint32{0, 1, 5, 100, c.r.Uint32() >> 1}[c.r.Intn(5)]
			k, ck := keys[c.r.Intn(2)], chains[c.r.Intn(2)]
			m := protocol.NewSenderKeyDistributionMessage(id, it, ck, k.PublicKey(), ser.SenderKeyDistributionMessage)
			b.gbuilder().Process(name, c.redist(m, ser))
			after := b.gv(name).SenderKeyStates
			c.Check(len(after) == len(want)+1, "%d states after %d", len(after), len(want))
			for j := range want {
				c.Check(js(after[j]) == want[j], "a further distribution message (id %x iteration %d) changed state %d", id, it, j)
			}
			s := after[len(want)]
			c.Check(s.KeyID == id && s.SenderChainKey.Iteration == it && bytes.Equal(s.SenderChainKey.ChainKey, ck) && bytes.Equal(s.SigningKeyPublic, k.PublicKey().Serialize()) && len(s.SigningKeyPrivate) == 0 && len(s.Keys) == 0, "member's state %s", js(s))
			want = append(want, js(s))
		}
	})
	t.Case("stored maximum", 1, func(c *C) {
		ser := protoSer
		b := newUser(c, "bob", ser, false)
		name := protocol.NewSenderKeyName("g", b.addr)
		kp := rkey(c.r)
		b.st.persist = false
		rec := b.st.LoadSenderKey(name)
		c.Check(rec == nil, "no record")
		var cks [][]byte
		for i := 0; i < 2004; i++ {
			ck := rb(c.r, 32)
			cks = append(cks, ck)
			if i < 3 || i > 1998 {
				b.gbuilder().Process(name, protocol.NewSenderKeyDistributionMessage(uint32(i), 0, ck, kp.PublicKey(), ser.SenderKeyDistributionMessage))
			} else {
				b.st.gr[skn(name)].AddSenderKeyState(uint32(i), 0, ck, kp.PublicKey())
			}
			if i == 1999 || i == 2000 || i == 2003 {
				r := b.st.LoadSenderKey(name)
				lo := 0
				if i >= 2000 {
					lo = i - 1999
				}
				for j := 0; j <= i; j++ {
					if j > 6 && j < i-2 {
						continue
					}
					s, err := r.GetSenderKeyStateByID(uint32(j))
					if j < lo {
						c.Check(err != nil, "state %d of %d kept", j, i)
						continue
					}
					c.Check(err == nil && bytes.Equal(s.SenderChainKey().Seed(), cks[j]), "state %d of %d: %v", j, i, err)
				}
			}
		}
	})
	t.Case("other names", t.n(3), func(c *C) {
		ser := c.ser()
		a, b, n := gpair(c, ser)
		n2 := protocol.NewSenderKeyName("another", a.addr)
		before := js(a.gv(n))
		d, err := a.gbuilder().Create(n2)
		c.Check(err == nil && js(a.gv(n)) == before, "creating a second group changes the first")
		v, w := a.gv(n).SenderKeyStates[0], a.gv(n2).SenderKeyStates[0]
		c.Check(!bytes.Equal(v.SenderChainKey.ChainKey, w.SenderChainKey.ChainKey) && !bytes.Equal(v.SigningKeyPublic, w.SigningKeyPublic), "two groups share keys")
		b.gbuilder().Process(n2, c.redist(d, ser))
		m1, m2 := a.genc(c, n, []byte("1")), a.genc(c, n2, []byte("2"))
		b.grej(c, n2, m1, "message of another group")
		b.gdec(c, n2, m2, []byte("2"))
		b.gdec(c, n, m1, []byte("1"))
	})
	t.Case("failing random source", t.n(3), func(c *C) {
		a := newUser(c, "alice", c.ser(), false)
		n := protocol.NewSenderKeyName("g", a.addr)
		for _, k := range []int{0, 31} {
			withRand(&badRand{k}, func() {
				d, err := a.gbuilder().Create(n)
				c.Check(err != nil && d == nil && len(a.st.changes()) == 0, "Create without randomness: %v", err)
			})
		}
	})
}

func displayHalf(f []byte) string {
	s := ""
	for i := 0; i < 30; i += 5 {
		v := new(big.Int).SetBytes(f[i : i+5])
		s += fmt.Sprintf("%05d", v.Mod(v, big.NewInt(100000)).Int64())
	}
	return s
}

func c17(t *T) {
	t.Case("display", t.n(300), func(c *C) {
		l, r := rb(c.r, 30+c.r.Intn(40)), rb(c.r, 30+c.r.Intn(40))
		switch c.r.Intn(6) {
		case 0: // small values, leading zeros
			for i := range l {
				if i%5 < 4 || c.r.Intn(2) == 0 {
					l[i] = 0
				}
			}
		case 1: // common prefix
			copy(r, l[:5*(1+c.r.Intn(5))])
		case 2:
			for i := range r {
				r[i] = 0xFF
			}
		case 3:
			r = append([]byte{}, l...)
			r[c.r.Intn(30)] ^= byte(1 + c.r.Intn(255))
		case 4:
			l, r = l[:30], r[:30]
		}
		c.Note("%x %x", l, r)
		a, b := displayHalf(l), displayHalf(r)
		want := a + b
		if b < a {
			want = b + a
		}
		got, rev := fingerprint.NewDisplay(l, r).DisplayText(), fingerprint.NewDisplay(r, l).DisplayText()
		c.Check(got == want, "display %s, expected %s", got, want)
		c.Check(rev == want, "display on the other side %s, expected %s", rev, want)
		f := fingerprint.NewFingerprint(fingerprint.NewDisplay(l, r))
		c.Check(f.Display().DisplayText() == want, "Fingerprint.Display")
	})
	t.Case("groups", 1, func(c *C) {
		// each byte of a group at its extreme values
		for g := 0; g < 6; g++ {
			for i := 0; i < 5; i++ {
				for _, v := range []byte{0, 1, 0x7F, 0x80, 0xFF} {
					l := make([]byte, 30)
					l[g*5+i] = v
					r := bytes.Repeat([]byte{0xFF}, 32)
					a, b := displayHalf(l), displayHalf(r)
					want := a + b
					if b < a {
						want = b + a
					}
					c.Check(fingerprint.NewDisplay(l, r).DisplayText() == want && fingerprint.NewDisplay(r, l).DisplayText() == want, "byte %d of group %d = %d", i, g, v)
				}
			}
		}
	})
}

func c18(t *T) {
	t.Case("decode", t.n(30), func(c *C) {
		var k [32]byte
		copy(k[:], rb(c.r, 32))
		switch c.r.Intn(5) {
		case 0:
			k = [32]byte{}
		case 1:
			for i := range k {
				k[i] = 0xFF
			}
		}
		pub := ecc.NewDjbECPublicKey(k)
		enc := pub.Serialize()
		c.Check(len(enc) == 33 && enc[0] == 5 && bytes.Equal(enc[1:], k[:]), "encoding %x of %x", enc, k)
		c.Check(pub.PublicKey() == k && pub.Type() == 5, "the key itself")
		off := c.r.Intn(40)
		tail := c.r.Intn(20)
		c.Note("offset %d", off)
		x := append(append(rb(c.r, off), enc...), rb(c.r, tail)...)
		q, err := ecc.DecodePoint(x, off)
		c.Check(err == nil && q.PublicKey() == k && bytes.Equal(q.Serialize(), enc), "decoding at offset %d: %v", off, err)
		for v := 0; v < 256; v++ {
			x[off] = byte(v)
			q, err := ecc.DecodePoint(x, off)
			c.Check((err == nil) == (v == 5) && (q == nil) == (v != 5), "type byte %d: %v", v, err)
		}
		x[off] = 5
		for n := 0; n < off+33; n++ {
			q, err := ecc.DecodePoint(x[:n], off)
			c.Check(err != nil && q == nil, "%d bytes, offset %d: no error", n, off)
		}
		// spare capacity is not part of the input
		q, err = ecc.DecodePoint(x[:off+10:len(x)], off)
		c.Check(err != nil && q == nil, "decoded bytes beyond the end of the slice")
		// the decoded key does not share memory with the input
		q, _ = ecc.DecodePoint(x, off)
		for i := range x {
			x[i] ^= 0xFF
		}
		c.Check(q.PublicKey() == k, "the decoded key changes with the input buffer")
		s := q.Serialize()
		for i := range s {
			s[i] ^= 0xFF
		}
		c.Check(q.PublicKey() == k, "the key changes with its encoding")
		ik := identity.NewKeyFromBytes(k, 0)
		c.Check(bytes.Equal(ik.Serialize(), enc), "NewKeyFromBytes")
	})
	t.Case("key pairs", t.n(10), func(c *C) {
		n := 32
		raw := rb(c.r, n)
		if c.r.Intn(3) == 0 {
			for i := range raw {
				raw[i] = []byte{0, 0xFF, 7, 0x80}[c.r.Intn(4)]
			}
		}
		k := clamped(arr32(raw))
		kp := ecc.CreateKeyPair(raw)
		c.Check(kp.PrivateKey().Serialize() == k, "imported private key %x, expected %x", kp.PrivateKey().Serialize(), k)
		c.Check(kp.PublicKey().PublicKey() == x25519base(k), "public key of an imported key")
		// generated: the clamped random bytes
		rd := rb(c.r, 32)
		if c.r.Intn(3) == 0 {
			for i := range rd {
				rd[i] = []byte{0, 0xFF, 7, 0x80}[c.r.Intn(4)]
			}
		}
		c.Note("%x %x", raw, rd)
		withRand(bytes.NewReader(rd), func() {
			g, err := ecc.GenerateKeyPair()
			c.Check(err == nil, "%v", err)
			c.Check(g.PrivateKey().Serialize() == clamped(arr32(rd)), "generated private key %x from %x", g.PrivateKey().Serialize(), rd)
			c.Check(g.PublicKey().PublicKey() == x25519base(clamped(arr32(rd))), "public key of a generated key")
		})
		withRand(bytes.NewReader(rd), func() {
			g, err := keyhelper.GenerateIdentityKeyPair()
			c.Check(err == nil, "%v", err)
			c.Check(g.PrivateKey().Serialize() == clamped(arr32(rd)) && g.PublicKey().PublicKey().PublicKey() == x25519base(clamped(arr32(rd))), "generated identity key pair")
		})
	})
	t.Case("random source fails", 1, func(c *C) {
		for n := 0; n < 34; n++ {
			withRand(&badRand{n}, func() {
				k, err := ecc.GenerateKeyPair()
				c.Check((err == nil) == (n >= 32) && (k == nil) == (n < 32), "GenerateKeyPair with %d random bytes: %v", n, err)
			})
			withRand(&badRand{n}, func() {
				k, err := keyhelper.GenerateIdentityKeyPair()
				c.Check((err == nil) == (n >= 32) && (k == nil) == (n < 32), "GenerateIdentityKeyPair with %d random bytes: %v", n, err)
			})
			withRand(&badRand{n}, func() {
				k, err := keyhelper.GenerateSenderSigningKey()
				c.Check((err == nil) == (n >= 32) && (k == nil) == (n < 32), "GenerateSenderSigningKey with %d random bytes: %v", n, err)
			})
		}
	})
	t.Case("distinct", 1, func(c *C) {
		seen := map[[32]byte]bool{}
		for i := 0; i < 50; i++ {
			k, err := ecc.GenerateKeyPair()
			c.Check(err == nil && !seen[k.PublicKey().PublicKey()], "repeated key")
			seen[k.PublicKey().PublicKey()] = true
		}
	})
}

func c19(t *T) {
	t.Case("sign and verify", t.n(40), func(c *C) {
		kp := rkey(c.r)
		msg := rb(c.r, c.size(200))
		if c.r.Intn(5) == 0 {
			msg = nil
		}
		var rd [64]byte
		copy(rd[:], rb(c.r, 64))
		switch c.r.Intn(4) {
		case 0:
			rd = [64]byte{}
		case 1:
			for i := range rd {
				rd[i] = 0xFF
			}
		}
		c.Note("%x %d", kp.PublicKey().Serialize()[:4], len(msg))
		var sig [64]byte
		withRand(bytes.NewReader(rd[:]), func() { sig = ecc.CalculateSignature(kp.PrivateKey(), msg) })
		pub := kp.PublicKey()
		want := oracleSign(kp.PrivateKey().Serialize(), msg, rd)
		c.Check(sig == want, "the signature is not the one of the published algorithm: key %x message %x random %x signature %x, expected %x", kp.PrivateKey().Serialize(), msg, rd, sig, want)
		c.Check(oracleVerify(pub.PublicKey(), msg, sig), "the signature does not verify (oracle): key %x message %x random %x signature %x", kp.PrivateKey().Serialize(), msg, rd, sig)
		cmp := func(why string, k [32]byte, m []byte, s [64]byte) {
			m0 := append([]byte{}, m...)
			got := ecc.VerifySignature(ecc.NewDjbECPublicKey(k), m, s)
			want := oracleVerify(k, m, s)
			c.Check(got == want, "%s: VerifySignature %v, expected %v (key %x message %x signature %x)", why, got, want, k, m, s)
			c.Check(bytes.Equal(m, m0), "verification changed the message")
			c.Check(ecc.VerifySignature(ecc.NewDjbECPublicKey(k), m, s) == got, "verification is not repeatable")
		}
		c.Check(ecc.VerifySignature(pub, msg, sig), "the signature does not verify")
		cmp("genuine", pub.PublicKey(), msg, sig)
		for i := 0; i < 8; i++ {
			s := sig
			s[c.r.Intn(64)] ^= 1 << uint(c.r.Intn(8))
			cmp("altered signature", pub.PublicKey(), msg, s)
			c.Check(!ecc.VerifySignature(pub, msg, s), "altered signature accepted")
			k := pub.PublicKey()
			k[c.r.Intn(31)] ^= 1 << uint(c.r.Intn(8))
			cmp("other key", k, msg, sig)
			if len(msg) > 0 {
				m := append([]byte{}, msg...)
				m[c.r.Intn(len(m))] ^= 1 << uint(c.r.Intn(8))
				cmp("other message", pub.PublicKey(), m, sig)
				c.Check(!ecc.VerifySignature(pub, m, sig), "signature accepted for another message")
			}
		}
		cmp("extended message", pub.PublicKey(), append(append([]byte{}, msg...), 0), sig)
		if len(msg) > 0 {
			cmp("cut message", pub.PublicKey(), msg[:len(msg)-1], sig)
		}
		s := sig
		s[63] ^= 0x80
		cmp("sign bit", pub.PublicKey(), msg, s)
		s = sig
		s[63] |= 0x60
		cmp("high bits of s", pub.PublicKey(), msg, s)
		// s + group order
		l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
		v := le2big(sig[32:])
		v.SetBit(v, 255, 0)
		v.Add(v, l)
		if v.BitLen() <= 253 {
			s = sig
			copy(s[32:], big2le(v, 32))
			s[63] |= sig[63] & 0x80
			cmp("s plus the group order", pub.PublicKey(), msg, s)
		}
		k := pub.PublicKey()
		k[31] ^= 0x80
		cmp("top bit of the key", k, msg, sig)
		var z [64]byte
		cmp("zero signature", pub.PublicKey(), msg, z)
		cmp("zero key", [32]byte{}, msg, sig)
		var one [32]byte
		one[0] = 1
		cmp("key 1", one, msg, sig)
		copy(z[:], rb(c.r, 64))
		cmp("random signature", pub.PublicKey(), msg, z)
		// the same random value and another message give another nonce
		var sig2 [64]byte
		withRand(bytes.NewReader(rd[:]), func() { sig2 = ecc.CalculateSignature(kp.PrivateKey(), append([]byte("other"), msg...)) })
		c.Check(!bytes.Equal(sig[:32], sig2[:32]), "two messages signed with the same nonce")
		c.Check(kp.PrivateKey().Serialize() == clamped(kp.PrivateKey().Serialize()), "signing changed the key")
		if len(msg) > 0 {
			m0 := append([]byte{}, msg...)
			ecc.CalculateSignature(kp.PrivateKey(), msg)
			c.Check(bytes.Equal(m0, msg), "signing changed the message")
		}
		other := rkey(c.r)
		c.Check(!ecc.VerifySignature(other.PublicKey(), msg, sig), "signature accepted for another key")
	})
	t.Case("scalars", t.n(12), func(c *C) {
		// values around the multiples of the group order and the ends of the range
		var in [64]byte
		switch c.r.Intn(4) {
		case 0:
			v := new(big.Int).Rand(c.r, new(big.Int).Lsh(big.NewInt(1), uint(1+c.r.Intn(258))))
			v.Mul(v, orderL)
			v.Add(v, big.NewInt(int64(c.r.Intn(5)-2)))
			if v.Sign() < 0 {
				v.SetInt64(0)
			}
			copy(in[:], big2le(v, 64))
		case 1:
			for i := range in {
				in[i] = []byte{0, 0xFF, 0x7F, 0x80}[c.r.Intn(4)]
			}
		case 2:
			for i := range in {
				in[i] = 0xFF
			}
			in[c.r.Intn(64)] ^= byte(c.r.Intn(256))
		default:
			copy(in[:], rb(c.r, 64))
		}
		c.Note("%x", in)
		var out [32]byte
		edwards25519.ScReduce(&out, &in)
		want := big2le(new(big.Int).Mod(le2big(in[:]), orderL), 32)
		c.Check(bytes.Equal(out[:], want), "ScReduce(%x) = %x, expected %x", in, out, want)
		var a, b, d [32]byte
		copy(a[:], in[:32])
		copy(b[:], in[32:])
		if c.r.Intn(2) == 0 {
			copy(d[:], rb(c.r, 32))
		}
		a[31] &= 0x7f
		b[31] &= 0x7f
		d[31] &= 0x7f
		edwards25519.ScMulAdd(&out, &a, &b, &d)
		v := new(big.Int).Mul(le2big(a[:]), le2big(b[:]))
		want = big2le(v.Add(v, le2big(d[:])).Mod(v, orderL), 32)
		c.Check(bytes.Equal(out[:], want), "ScMulAdd(%x, %x, %x) = %x, expected %x", a, b, d, out, want)
		var h edwards25519.ExtendedGroupElement
		edwards25519.GeScalarMultBase(&h, &a)
		h.ToBytes(&out)
		want = edMulBase(le2big(a[:]))
		c.Check(bytes.Equal(out[:], want), "multiple %x of the base point is %x, expected %x", a, out, want)
	})
	t.Case("field elements", t.n(40), func(c *C) {
		val := func() [32]byte {
			var x [32]byte
			switch c.r.Intn(4) {
			case 0: // around p and 0
				v := new(big.Int).Add(p25519, big.NewInt(int64(c.r.Intn(41)-20)))
				if v.BitLen() > 255 || c.r.Intn(2) == 0 {
					v = big.NewInt(int64(c.r.Intn(40)))
				}
				copy(x[:], big2le(v, 32))
			case 1:
				for i := range x {
					x[i] = []byte{0, 0xFF, 0x7F, 0x80}[c.r.Intn(4)]
				}
			case 2: // the middle of the range, where the sign of the element changes
				v := new(big.Int).Lsh(big.NewInt(1), 254)
				v.Add(v, big.NewInt(int64(c.r.Intn(60)-30)))
				copy(x[:], big2le(v, 32))
			default:
				copy(x[:], rb(c.r, 32))
			}
			return x
		}
		low := func(x [32]byte) *big.Int {
			x[31] &= 0x7f
			return fmod(le2big(x[:]))
		}
		a, b := val(), val()
		c.Note("%x %x", a, b)
		enc := func(f edwards25519.FieldElement) []byte {
			var s [32]byte
			edwards25519.FeToBytes(&s, &f)
			return s[:]
		}
		var x, y, z, w edwards25519.FieldElement
		edwards25519.FeFromBytes(&x, &a)
		edwards25519.FeFromBytes(&y, &b)
		chk := func(what string, f edwards25519.FieldElement, want *big.Int) {
			c.Check(bytes.Equal(enc(f), big2le(fmod(want), 32)), "%s of %x and %x is %x, expected %x", what, a, b, enc(f), big2le(fmod(want), 32))
		}
		chk("decoding", x, low(a))
		edwards25519.FeMul(&z, &x, &y)
		chk("product", z, fmul(low(a), low(b)))
		edwards25519.FeInvert(&z, &x)
		chk("inverse", z, finv(low(a)))
		edwards25519.FeSquare(&z, &y)
		chk("square", z, fmul(low(b), low(b)))
		edwards25519.FeSub(&z, &x, &y)
		edwards25519.FeAdd(&w, &x, &y)
		edwards25519.FeMul(&z, &z, &w)
		chk("difference of squares", z, new(big.Int).Mul(new(big.Int).Sub(low(a), low(b)), new(big.Int).Add(low(a), low(b))))
		v := x
		c.Check(uint(edwards25519.FeIsNegative(&v)) == low(a).Bit(0), "parity of %x", a)
	})
	t.Case("random values", t.n(3), func(c *C) {
		kp := rkey(c.r)
		msg := rb(c.r, 20)
		a, b := ecc.CalculateSignature(kp.PrivateKey(), msg), ecc.CalculateSignature(kp.PrivateKey(), msg)
		c.Check(a != b, "two signatures of one message are equal")
		for i := 0; i < 30; i++ { // both signs of the Edwards point
			kp := rkey(c.r)
			s := ecc.CalculateSignature(kp.PrivateKey(), msg)
			c.Check(ecc.VerifySignature(kp.PublicKey(), msg, s) && oracleVerify(kp.PublicKey().PublicKey(), msg, s), "signature of key %x", kp.PrivateKey().Serialize())
		}
	})
}

// guarded is a buffer with spare capacity; changed reports a write to it.
type guarded struct {
	name string
	b    []byte // as passed
	all  []byte // up to the capacity
	was  []byte
}

type guards struct {
	c  *C
	gs []*guarded
}

func (g *guards) buf(name string, content []byte) []byte {
	spare := g.c.r.Intn(70)
	all := append(append([]byte{}, content...), rb(g.c.r, spare)...)
	x := &guarded{name: name, b: all[:len(content)], all: all, was: append([]byte{}, all...)}
	g.gs = append(g.gs, x)
	return x.b
}

func (g *guards) check(what string) {
	for _, x := range g.gs {
		if !bytes.Equal(x.all, x.was) {
			i := 0
			for x.all[i] == x.was[i] {
				i++
			}
			g.c.Failf("%s changed the caller's %s (length %d, capacity %d) at byte %d: %#x -> %#x", what, x.name, len(x.b), len(x.all), i, x.was[i], x.all[i])
		}
	}
}

// scribble changes all buffers; results must not change with them.
func (g *guards) scribble() {
	for _, x := range g.gs {
		for i := range x.all {
			x.all[i] ^= 0x5A
		}
	}
}

func c20(t *T) {
	t.Case("ciphers", t.n(20), func(c *C) {
		g := &guards{c: c}
		key, iv, p := g.buf("key", rb(c.r, 32)), g.buf("iv", rb(c.r, 16)), g.buf("plaintext", rb(c.r, c.size(50)))
		c.Note("%d bytes", len(p))
		ct, err := cipher.Encrypt(iv, key, p)
		c.Check(err == nil, "%v", err)
		g.check("cipher.Encrypt")
		cipher.EncryptCbc(iv, key, p)
		g.check("cipher.EncryptCbc")
		x := g.buf("ciphertext", ct)
		q, err := cipher.Decrypt(iv, key, x)
		c.Check(err == nil && bytes.Equal(q, p), "%v", err)
		g.check("cipher.Decrypt")
		for i := range q {
			q[i] ^= 0xFF
		}
		g.check("writing to the decrypted text")
		q, err = cipher.DecryptCbc(iv, key, x)
		c.Check(err == nil && bytes.Equal(q, p), "%v", err)
		g.check("cipher.DecryptCbc")
		ct2, _ := cipher.Encrypt(iv, key, p)
		c.Check(bytes.Equal(ct, ct2), "encrypting the same buffer again")
		for i := 0; i < 5; i++ {
			y := g.buf("malformed ciphertext", rb(c.r, c.r.Intn(49)))
			cipher.Decrypt(iv, key, y)
			cipher.DecryptCbc(iv, key, y)
			g.check("cipher.Decrypt of malformed input")
		}
		was := append([]byte{}, ct...)
		g.scribble()
		c.Check(bytes.Equal(ct, was), "the ciphertext changes with the caller's buffers")
	})
	t.Case("keys and helpers", t.n(20), func(c *C) {
		g := &guards{c: c}
		ikm, salt, info := g.buf("secret", rb(c.r, c.r.Intn(100))), g.buf("salt", rb(c.r, c.r.Intn(40))), g.buf("info", rb(c.r, c.r.Intn(20)))
		kdf.DeriveSecrets(ikm, salt, info, 1+c.r.Intn(100))
		g.check("kdf.DeriveSecrets")
		ck := g.buf("chain key", rb(c.r, 32))
		k := chain.NewKey(kdf.DeriveSecrets, ck, 5)
		k.NextKey()
		k.MessageKeys()
		g.check("deriving chain and message keys")
		rk := g.buf("root key", rb(c.r, 32))
		r := root.NewKey(kdf.DeriveSecrets, rk)
		_, err := r.CreateChain(rkey(c.r).PublicKey(), rkey(c.r))
		c.Check(err == nil, "%v", err)
		g.check("a ratchet step")
		gk := g.buf("group chain key", rb(c.r, 32))
		s := gratchet.NewSenderChainKey(1, gk)
		s.SenderMessageKey()
		s.Next().SenderMessageKey()
		g.check("deriving group keys")
		seed := g.buf("seed", rb(c.r, 32))
		gratchet.NewSenderMessageKey(3, seed)
		g.check("NewSenderMessageKey")
		priv := g.buf("private key", rb(c.r, 32))
		kp := ecc.CreateKeyPair(priv)
		g.check("CreateKeyPair")
		msg := g.buf("message", rb(c.r, c.size(60)))
		sig := ecc.CalculateSignature(kp.PrivateKey(), msg)
		g.check("CalculateSignature")
		ecc.VerifySignature(kp.PublicKey(), msg, sig)
		g.check("VerifySignature")
		enc := g.buf("encoded key", kp.PublicKey().Serialize())
		q, _ := ecc.DecodePoint(enc, 0)
		g.check("DecodePoint")
		in := g.buf("input", rb(c.r, 10+c.r.Intn(50)))
		parts := bytehelper.Split(in, 3, 7)
		c.Check(bytes.Equal(parts[0], in[:3]) && bytes.Equal(parts[1], in[3:10]), "Split")
		p3, err := bytehelper.SplitThree(in, 2, 3, 4)
		c.Check(err == nil && bytes.Equal(p3[0], in[:2]) && bytes.Equal(p3[1], in[2:5]) && bytes.Equal(p3[2], in[5:9]), "SplitThree")
		c.Check(bytes.Equal(bytehelper.Trim(in, 4), in[:4]), "Trim")
		c.Check(bytes.Equal(bytehelper.CopySlice(in), in), "CopySlice")
		g.check("bytehelper")
		f := g.buf("fingerprint", rb(c.r, 30+c.r.Intn(4)))
		fingerprint.NewDisplay(f, f).DisplayText()
		g.check("NewDisplay")
		pk, pub := kp.PrivateKey().Serialize(), q.PublicKey()
		g.scribble()
		c.Check(kp.PrivateKey().Serialize() == pk && q.PublicKey() == pub, "keys change with the caller's buffers")
	})
	t.Case("messages", t.n(12), func(c *C) {
		ser := c.ser()
		g := &guards{c: c}
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		c.start(a, b, 1)
		var raws [][]byte
		check := func(what string) { g.check(what) }
		for i := 0; i < 6; i++ {
			x, y := a, b
			if i%2 == 1 && i > 1 {
				x, y = b, a
			}
			p := g.buf("plaintext", rb(c.r, c.size(50)))
			m, err := x.cipher(y).Encrypt(p)
			c.Check(err == nil, "%v", err)
			check("Cipher.Encrypt")
			raw := g.buf("wire bytes", m.Serialize())
			raws = append(raws, raw)
			w, err := parse(raw, m.Type(), ser)
			c.Check(err == nil, "%v", err)
			check("parsing a message")
			s1 := string(w.inner().Serialize())
			obj := js(w.inner().Structure())
			if w.pre != nil {
				s1 += string(w.pre.Serialize())
			}
			// refused by someone else, decrypted, and refused again: the message object stays the same
			fresh := newUserLike(y)
			if w.pre == nil {
				fresh.cipher(x).Decrypt(w.sig)
			}
			check("a refused decryption")
			cp := w
			if w.pre != nil {
				txt, err := newUserLike(y).cipher(x).DecryptMessage(w.pre)
				if i == 0 {
					c.Check(err == nil && bytes.Equal(txt, p), "%v", err)
				}
			}
			txt, err := y.dec(x, cp)
			c.Check(err == nil, "the message object cannot be used again: %v", err)
			c.Check(bytes.Equal(txt, p), "decrypted %x, sent %x", txt, p)
			check("Cipher.Decrypt")
			for k := range txt {
				txt[k] ^= 0xFF
			}
			check("writing to the decrypted text")
			s2 := string(w.inner().Serialize())
			if w.pre != nil {
				s2 += string(w.pre.Serialize())
			}
			c.Check(s1 == s2 && js(w.inner().Structure()) == obj, "decrypting changed the message object")
			check("serialising a message")
			// parsed twice from the same bytes
			w2, err := parse(raw, m.Type(), ser)
			c.Check(err == nil && bytes.Equal(w2.inner().Serialize(), w.inner().Serialize()), "parsing the same bytes again: %v", err)
			y.dec(x, w2)
			check("a refused replay")
			// the caller reuses its buffers
			if c.r.Intn(2) == 0 {
				g.scribble()
				g.gs = nil
				check = func(what string) { g.check(what) }
			}
		}
		_ = raws
		c.talk(a, b)
		c.talk(b, a)
	})
	t.Case("group messages", t.n(12), func(c *C) {
		ser := c.ser()
		g := &guards{c: c}
		a, b := newUser(c, "alice", ser, c.r.Intn(2) == 0), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		n := protocol.NewSenderKeyName("g", a.addr)
		d, err := a.gbuilder().Create(n)
		c.Check(err == nil, "%v", err)
		raw := g.buf("wire bytes", d.Serialize())
		q, err := protocol.NewSenderKeyDistributionMessageFromBytes(raw, ser.SenderKeyDistributionMessage)
		c.Check(err == nil, "%v", err)
		b.gbuilder().Process(n, q)
		g.check("processing a distribution message")
		was := string(q.Serialize())
		for i := 0; i < 5; i++ {
			p := g.buf("plaintext", rb(c.r, c.size(50)))
			m, err := a.gcipher(n).Encrypt(p)
			c.Check(err == nil, "%v", err)
			g.check("GroupCipher.Encrypt")
			sm := m.(*protocol.SenderKeyMessage)
			r := g.buf("wire bytes", sm.SignedSerialize())
			x, err := protocol.NewSenderKeyMessageFromBytes(r, ser.SenderKeyMessage)
			c.Check(err == nil, "%v", err)
			g.check("parsing a group message")
			s1 := string(x.SignedSerialize()) + string(x.Ciphertext())
			b2 := newUserLike(b)
			b2.gbuilder().Process(n, c.redist(d, ser))
			txt, err := b2.gcipher(n).Decrypt(x)
			c.Check(err == nil && bytes.Equal(txt, p), "first decryption: %v", err)
			txt, err = b.gcipher(n).Decrypt(x)
			c.Check(err == nil && bytes.Equal(txt, p), "the group message object cannot be used again: %v (%x, sent %x)", err, txt, p)
			for k := range txt {
				txt[k] ^= 0xFF
			}
			g.check("GroupCipher.Decrypt")
			c.Check(string(x.SignedSerialize())+string(x.Ciphertext()) == s1, "decrypting changed the group message object")
			b.gcipher(n).Decrypt(x)
			g.check("a refused replay")
			x.SignedSerialize()
			x.Serialize()
			g.check("serialising a group message")
		}
		c.Check(string(q.Serialize()) == was, "the distribution message object changed")
	})
	t.Case("records", t.n(8), func(c *C) {
		ser := c.ser()
		g := &guards{c: c}
		a, b := pair(c, ser, false)
		raw := g.buf("session bytes", a.rec(b).Serialize())
		r, err := record.NewSessionFromBytes(raw, ser.Session, ser.State)
		c.Check(err == nil, "%v", err)
		g.check("restoring a session")
		was := string(r.Serialize())
		p1 := g.buf("prekey bytes", a.st.pre[1].Serialize())
		pk, err := record.NewPreKeyFromBytes(p1, ser.PreKeyRecord)
		c.Check(err == nil, "%v", err)
		p2 := g.buf("signed prekey bytes", a.st.signed[a.spkID].Serialize())
		_, err = record.NewSignedPreKeyFromBytes(p2, ser.SignedPreKeyRecord)
		c.Check(err == nil, "%v", err)
		g.check("restoring prekeys")
		w2 := string(pk.Serialize())
		g.scribble()
		c.Check(string(r.Serialize()) == was && string(pk.Serialize()) == w2, "restored records change with the caller's buffers")
	})
}

var dhs = map[[2][32]byte][32]byte{}
var bases = map[[32]byte][32]byte{}

func baseCache(k [32]byte) [32]byte {
	if _, ok := bases[k]; !ok {
		bases[k] = x25519base(k)
	}
	return bases[k]
}

func dhCache(eph, priv [32]byte) [32]byte {
	k := [2][32]byte{eph, priv}
	if _, ok := dhs[k]; !ok {
		dhs[k] = x25519(eph, baseCache(priv))
	}
	return dhs[k]
}

func c21(t *T) {
	seal := func(c *C, priv [32]byte, eph [32]byte, text []byte, f func(body []byte, mac []byte) []byte) (string, string) {
		sh := dhCache(eph, priv)
		k := hkdf(sh[:], nil, "Mixin Provisioning Message", 64)
		iv := rb(c.r, 16)
		body := append(append([]byte{1}, iv...), cbcEnc(k[:32], iv, text)...)
		mac := hm(k[32:], body)
		body = append(body, mac...)
		if f != nil {
			body = f(body, k[32:])
		}
		pub := baseCache(eph)
		e, _ := json.Marshal(map[string]interface{}{"public_key": append([]byte{5}, pub[:]...), "body": body})
		return base64.StdEncoding.EncodeToString(priv[:]), base64.StdEncoding.EncodeToString(e)
	}
	keys := func(c *C) (p, e [32]byte) {
		return clamped(arr32(rb(c.r, 32))), clamped(arr32(rb(c.r, 32)))
	}
	t.Case("genuine", t.n(12), func(c *C) {
		p, e := keys(c)
		text := rb(c.r, c.size(100))
		c.Note("%d bytes", len(text))
		k, s := seal(c, p, e, text, nil)
		got, err := provision.Decrypt(k, s)
		c.Check(err == nil && got == string(text), "genuine envelope: %v, %x, expected %x", err, got, text)
	})
	t.Case("altered", t.n(10), func(c *C) {
		p, e := keys(c)
		text := rb(c.r, c.size(60))
		remac := func(body, mk []byte) []byte {
			b := body[:len(body)-32]
			return append(append([]byte{}, b...), hm(mk, b)...)
		}
		try := func(why string, f func(body, mk []byte) []byte) {
			k, s := seal(c, p, e, text, f)
			c.noPanic(why, func() {
				got, err := provision.Decrypt(k, s)
				c.Check(err != nil && got == "", "%s: accepted (%x)", why, got)
			})
		}
		for i := 0; i < 20; i++ {
			try("altered byte", func(b, mk []byte) []byte { b[c.r.Intn(len(b))] ^= 1 << uint(c.r.Intn(8)); return b })
		}
		for v := 0; v < 256; v++ {
			if v != 1 {
				try(fmt.Sprintf("version %d with a correct MAC", v), func(b, mk []byte) []byte { b[0] = byte(v); return remac(b, mk) })
			}
		}
		for i := 1; i <= 32; i++ {
			try(fmt.Sprintf("MAC byte %d", i), func(b, mk []byte) []byte { b[len(b)-i] ^= 1; return b })
		}
		for n := 0; n <= 130; n++ {
			try(fmt.Sprintf("first %d bytes", n), func(b, mk []byte) []byte {
				if n >= len(b) {
					return append(b, 0)
				}
				return b[:n]
			})
		}
		try("MAC without the version", func(b, mk []byte) []byte { copy(b[len(b)-32:], hm(mk, b[1:len(b)-32])); return b })
		try("MAC without the iv", func(b, mk []byte) []byte { copy(b[len(b)-32:], hm(mk, b[17:len(b)-32])); return b })
		try("no ciphertext, correct MAC", func(b, mk []byte) []byte { return remac(append(b[:17:17], make([]byte, 32)...), mk) })
		for n := 1; n < 40; n++ {
			try(fmt.Sprintf("ciphertext of %d random bytes with a correct MAC", n), func(b, mk []byte) []byte {
				x := append(append(append([]byte{}, b[:17]...), rb(c.r, n)...), make([]byte, 32)...)
				if n%16 == 0 {
					x[17] = 0 // not a multiple is required; whole blocks may happen to be valid
					return append(x[:len(x)-32], make([]byte, 32)...)
				}
				return remac(x, mk)
			})
		}
		// wrong private key
		_, s := seal(c, p, e, text, nil)
		q, _ := keys(c)
		got, err := provision.Decrypt(base64.StdEncoding.EncodeToString(q[:]), s)
		c.Check(err != nil && got == "", "decrypted with another private key")
	})
	t.Case("malformed", t.n(4), func(c *C) {
		p, e := keys(c)
		k, s := seal(c, p, e, []byte("text"), nil)
		bad := func(why, k, s string) {
			c.noPanic(why, func() {
				got, err := provision.Decrypt(k, s)
				c.Check(err != nil && got == "", "%s: accepted", why)
			})
		}
		b64 := func(x string) string { return base64.StdEncoding.EncodeToString([]byte(x)) }
		bad("no base64 key", "!!", s)
		bad("no base64 content", k, "!!"+s)
		for _, x := range []string{"", "{}", "null", "[]", "1", `{"public_key":"BQ==","body":""}`, `{"public_key":"","body":"AQ=="}`, `{"public_key":null}`, `{"public_key":"` + b64(string(append([]byte{5}, rb(c.r, 32)...))) + `"}`, `{"public_key":"` + b64(string(rb(c.r, 10))) + `","body":"` + b64(string(rb(c.r, 100))) + `"}`, `{"public_key":5,"body":"AQ=="}`} {
			bad("envelope "+x, k, b64(x))
		}
		raw, _ := base64.StdEncoding.DecodeString(s)
		for i := 0; i < 60; i++ {
			x := append([]byte{}, raw...)
			x = x[:c.r.Intn(len(x))]
			bad("cut envelope", k, base64.StdEncoding.EncodeToString(x))
		}
		pub := x25519base(e)
		var env map[string]interface{}
		json.Unmarshal(raw, &env)
		for _, kt := range []int{0, 4, 6, 255} {
			env["public_key"] = append([]byte{byte(kt)}, pub[:]...)
			x, _ := json.Marshal(env)
			bad("public key of another type", k, base64.StdEncoding.EncodeToString(x))
		}
		for n := 0; n < 33; n++ {
			env["public_key"] = append([]byte{5}, pub[:]...)[:n]
			x, _ := json.Marshal(env)
			bad("short public key", k, base64.StdEncoding.EncodeToString(x))
		}
	})
}

func c22(t *T) {
	t.Case("both sides", t.n(25), func(c *C) {
		mk := func(first byte) *ecc.ECKeyPair {
			// a base key whose public key starts with bytes in a given range
			for i := 0; i < 4000; i++ {
				k := rkey(c.r)
				if p := k.PublicKey().PublicKey(); first == 0 || (p[0] >= 0x80) == (first >= 0x80) {
					return k
				}
			}
			return rkey(c.r)
		}
		ba, bb := mk(byte(c.r.Intn(2)*0x80+1)), mk(byte(c.r.Intn(2)*0x80+1))
		ra, rb_ := rkey(c.r), rkey(c.r)
		ia, ib := ridentity(c.r), ridentity(c.r)
		if c.r.Intn(3) == 0 {
			ra, rb_ = ba, bb
		}
		if c.r.Intn(5) == 0 {
			// public keys with a long common prefix (made up, so only the role is compared)
			pa, pb := ba.PublicKey().PublicKey(), ba.PublicKey().PublicKey()
			i := c.r.Intn(32)
			pb[i] ^= byte(1 + c.r.Intn(255))
			c.role(pa, pb)
			return
		}
		a, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: ba, OurRatchetKey: ra, OurIdentityKeyPair: ia, TheirBaseKey: bb.PublicKey(), TheirRatchetKey: rb_.PublicKey(), TheirIdentityKey: ib.PublicKey()})
		c.Check(err == nil, "%v", err)
		b, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: bb, OurRatchetKey: rb_, OurIdentityKeyPair: ib, TheirBaseKey: ba.PublicKey(), TheirRatchetKey: ra.PublicKey(), TheirIdentityKey: ia.PublicKey()})
		c.Check(err == nil, "%v", err)
		c.Note("%x %x", ba.PublicKey().Serialize()[1:4], bb.PublicKey().Serialize()[1:4])
		c.Check(bytes.Equal(a.RootKey.Bytes(), b.RootKey.Bytes()), "the two sides have different root keys (base keys %x, %x)", ba.PublicKey().Serialize(), bb.PublicKey().Serialize())
		c.Check(bytes.Equal(a.ChainKey.Key(), b.ChainKey.Key()) && a.ChainKey.Index() == 0 && b.ChainKey.Index() == 0, "the two sides have different chain keys")
		c.role(ba.PublicKey().PublicKey(), bb.PublicKey().PublicKey())
		// and they are the X3DH keys of one side in the sender role
		dh := func(k *ecc.ECKeyPair, p ecc.ECPublicKeyable) [32]byte {
			return x25519(k.PrivateKey().Serialize(), p.PublicKey())
		}
		id := func(k *identity.KeyPair) *ecc.ECKeyPair {
			return ecc.NewECKeyPair(k.PublicKey().PublicKey(), k.PrivateKey())
		}
		x1, _ := x3dh(dh(id(ia), bb.PublicKey()), dh(ba, id(ib).PublicKey()), dh(ba, bb.PublicKey()))
		x2, _ := x3dh(dh(id(ib), ba.PublicKey()), dh(bb, id(ia).PublicKey()), dh(bb, ba.PublicKey()))
		c.Check(bytes.Equal(a.RootKey.Bytes(), x1) || bytes.Equal(a.RootKey.Bytes(), x2), "the root key is not the X3DH key")
	})
}

// role compares the root keys of the two roles for made-up public keys: with
// all other keys shared, the sides only agree if they choose different roles.
func (c *C) role(pa, pb [32]byte) {
	if pa == pb {
		return
	}
	our := func(mine, theirs [32]byte) []byte {
		k := ecc.NewECKeyPair(ecc.NewDjbECPublicKey(mine), ecc.NewDjbECPrivateKey(clamped([32]byte{1, 2, 3})))
		id := ecc.NewDjbECPrivateKey(clamped([32]byte{9, 9}))
		idp := identity.NewKeyPair(identity.NewKey(ecc.NewDjbECPublicKey(x25519base(id.Serialize()))), id)
		r, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: k, OurRatchetKey: k, OurIdentityKeyPair: idp, TheirBaseKey: ecc.NewDjbECPublicKey(theirs), TheirRatchetKey: ecc.NewDjbECPublicKey(theirs), TheirIdentityKey: idp.PublicKey()})
		c.Check(err == nil, "%v", err)
		// sender: DH(base of them, our identity) first; receiver: DH(their identity, our base) first
		s1 := x25519(id.Serialize(), theirs)
		s2 := x25519(clamped([32]byte{1, 2, 3}), x25519base(id.Serialize()))
		s3 := x25519(clamped([32]byte{1, 2, 3}), theirs)
		asSender, _ := x3dh(s1, s2, s3)
		asReceiver, _ := x3dh(s2, s1, s3)
		switch {
		case bytes.Equal(r.RootKey.Bytes(), asSender):
			return []byte("sender")
		case bytes.Equal(r.RootKey.Bytes(), asReceiver):
			return []byte("receiver")
		}
		c.Failf("neither role for base keys %x, %x", mine, theirs)
		return nil
	}
	x, y := our(pa, pb), our(pb, pa)
	c.Check(!bytes.Equal(x, y), "both sides act as %s for base keys %x, %x", x, pa, pb)
}

func c23(t *T) {
	t.Case("prekeys", t.n(10), func(c *C) {
		ser := c.ser()
		start := c.r.Intn(200)
		n := c.r.Intn(60)
		switch c.r.Intn(5) {
		case 0:
			start, n = 0, 20
		case 1:
			start, n = 0xFFFFFF-10, 10
		case 2:
			n = 0
		case 3:
			start, n = []int{250, 0x7FF8, 0xFFF8, 0x7FFFF8, 0xFFFFF8, 0x7FFFFFF8, 0xFFFFFFE0}[c.r.Intn(7)], 16
		}
		end := start + n
		c.Note("%d..%d", start, end)
		ks, err := keyhelper.GeneratePreKeys(start, end, ser.PreKeyRecord)
		c.Check(err == nil, "%v", err)
		c.Check(len(ks) == n+1, "%d prekeys for %d..%d", len(ks), start, end)
		seen := map[[32]byte]bool{}
		for i, k := range ks {
			c.Check(k.ID().Value == uint32(start+i) && !k.ID().IsEmpty, "prekey %d has id %d, expected %d", i, k.ID().Value, start+i)
			priv := k.KeyPair().PrivateKey().Serialize()
			c.Check(priv == clamped(priv), "private key of prekey %d", i)
			c.Check(!seen[priv], "prekey %d repeats a key", i)
			seen[priv] = true
			if i < 3 || i == n {
				c.Check(k.KeyPair().PublicKey().PublicKey() == x25519base(priv), "public key of prekey %d", i)
			}
			q, err := record.NewPreKeyFromBytes(k.Serialize(), ser.PreKeyRecord)
			c.Check(err == nil && q.ID().Value == uint32(start+i), "restoring prekey %d: %v", i, err)
		}
		if end > start {
			ks, err = keyhelper.GeneratePreKeys(end, start, ser.PreKeyRecord)
			c.Check(err == nil && len(ks) == 0, "prekeys of an empty range")
		}
		if n > 0 {
			bad := c.r.Intn(32 * (n + 1))
			withRand(&badRand{bad}, func() {
				ks, err := keyhelper.GeneratePreKeys(start, end, ser.PreKeyRecord)
				c.Check(err != nil && ks == nil, "random source fails after %d bytes: %d prekeys", bad, len(ks))
			})
		}
	})
	t.Case("signed prekeys", t.n(12), func(c *C) {
		ser := c.ser()
		id := ridentity(c.r)
		n := c.r.Uint32()
		if c.r.Intn(3) == 0 {
			n = []uint32{0, 0xFFFFFF, 0xFFFFFFFF, 1}[c.r.Intn(4)]
		}
		s, err := keyhelper.GenerateSignedPreKey(id, n, ser.SignedPreKeyRecord)
		c.Check(err == nil, "%v", err)
		c.Check(s.ID() == n, "signed prekey id %d, requested %d", s.ID(), n)
		pub := s.KeyPair().PublicKey()
		c.Note("%d %x", n, pub.Serialize()[:4])
		c.Check(ecc.VerifySignature(id.PublicKey().PublicKey(), pub.Serialize(), s.Signature()), "the signature does not verify")
		c.Check(oracleVerify(id.PublicKey().PublicKey().PublicKey(), pub.Serialize(), s.Signature()), "the signature does not verify (oracle)")
		priv := s.KeyPair().PrivateKey().Serialize()
		c.Check(priv == clamped(priv) && pub.PublicKey() == x25519base(priv), "key pair of the signed prekey")
		s2, err := keyhelper.GenerateSignedPreKey(id, n, ser.SignedPreKeyRecord)
		c.Check(err == nil && s2.KeyPair().PrivateKey().Serialize() != priv, "repeated key")
		q, err := record.NewSignedPreKeyFromBytes(s.Serialize(), ser.SignedPreKeyRecord)
		c.Check(err == nil && q.ID() == n && ecc.VerifySignature(id.PublicKey().PublicKey(), q.KeyPair().PublicKey().Serialize(), q.Signature()), "restored signed prekey")
		withRand(&badRand{c.r.Intn(32)}, func() {
			s, err := keyhelper.GenerateSignedPreKey(id, n, ser.SignedPreKeyRecord)
			c.Check(err != nil && s == nil, "no error when the random source fails")
		})
	})
	t.Case("last resort", t.n(3), func(c *C) {
		ser := c.ser()
		k, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
		c.Check(err == nil && k.ID().Value == 0xFFFFFF, "last resort id %#x", k.ID().Value)
		withRand(&badRand{c.r.Intn(32)}, func() {
			k, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
			c.Check(err != nil && k == nil, "no error when the random source fails")
		})
		// it survives being used
		a, b := newUser(c, "alice", ser, false), newUser(c, "bob", ser, c.r.Intn(2) == 0)
		b.st.StorePreKey(k.ID().Value, k)
		c.start(a, b, int64(k.ID().Value))
		c.talk(a, b)
		c.Check(b.st.pre[k.ID().Value] != nil, "the last resort prekey is consumed")
		// generated prekeys set up sessions
		ks, err := keyhelper.GeneratePreKeys(50, 52, ser.PreKeyRecord)
		c.Check(err == nil, "%v", err)
		for _, k := range ks {
			b.st.StorePreKey(k.ID().Value, k)
		}
		s, err := keyhelper.GenerateSignedPreKey(b.st.idpair, 4711, ser.SignedPreKeyRecord)
		c.Check(err == nil, "%v", err)
		b.st.StoreSignedPreKey(4711, s)
		b.spkID, b.spk, b.spkSig = 4711, s.KeyPair(), s.Signature()
		d := newUser(c, "dora", ser, false)
		c.start(d, b, 51)
		c.talk(d, b)
		c.talk(b, d)
	})
}
