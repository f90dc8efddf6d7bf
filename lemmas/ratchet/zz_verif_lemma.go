package ratchet

import (
	"golang.org/x/crypto/curve25519"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/session"
)

// Both sides of a handshake derive the same root and chain keys.

func zzPair(priv [32]byte) *ecc.ECKeyPair {
	var pub [32]byte
	curve25519.ScalarBaseMult(&pub, &priv)
	return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(pub), ecc.NewDjbECPrivateKey(priv))
}

func zzIdentity(priv [32]byte) *identity.KeyPair {
	p := zzPair(priv)
	return identity.NewKeyPair(identity.NewKey(p.PublicKey()), p.PrivateKey())
}

func zzLemmaX3DH(aliceID, aliceBase, bobID, bobSigned, bobOneTime [32]byte, oneTime bool) (*session.KeyPair, *session.KeyPair) {
	a, base, b, spk := zzIdentity(aliceID), zzPair(aliceBase), zzIdentity(bobID), zzPair(bobSigned)
	s := NewEmptySenderParameters()
	s.SetOurIdentityKey(a)
	s.SetOurBaseKey(base)
	s.SetTheirIdentityKey(b.PublicKey())
	s.SetTheirSignedPreKey(spk.PublicKey())
	s.SetTheirRatchetKey(spk.PublicKey())
	r := NewEmptyReceiverParameters()
	r.SetOurIdentityKeyPair(b)
	r.SetOurSignedPreKey(spk)
	r.SetOurRatchetKey(spk)
	r.SetTheirBaseKey(base.PublicKey())
	r.SetTheirIdentityKey(a.PublicKey())
	if oneTime {
		o := zzPair(bobOneTime)
		s.SetTheirOneTimePreKey(o.PublicKey())
		r.SetOurOneTimePreKey(o)
	}
	x, _ := CalculateSenderSession(s)
	y, _ := CalculateReceiverSession(r)
	return x, y
}

func zzLemmaSymmetric(aliceID, aliceBase, bobID, bobBase [32]byte) (*session.KeyPair, *session.KeyPair) {
	a, ab, b, bb := zzIdentity(aliceID), zzPair(aliceBase), zzIdentity(bobID), zzPair(bobBase)
	x, _ := CalculateSymmetricSession(&SymmetricParameters{OurBaseKey: ab, OurRatchetKey: ab, OurIdentityKeyPair: a,
		TheirBaseKey: bb.PublicKey(), TheirRatchetKey: bb.PublicKey(), TheirIdentityKey: b.PublicKey()})
	y, _ := CalculateSymmetricSession(&SymmetricParameters{OurBaseKey: bb, OurRatchetKey: bb, OurIdentityKeyPair: b,
		TheirBaseKey: ab.PublicKey(), TheirRatchetKey: ab.PublicKey(), TheirIdentityKey: a.PublicKey()})
	return x, y
}
