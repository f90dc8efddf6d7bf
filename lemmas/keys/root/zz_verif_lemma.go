package root

import (
	"golang.org/x/crypto/curve25519"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/session"
)

// A ratchet step made by either side leads to the same keys.

func zzPair(priv [32]byte) *ecc.ECKeyPair {
	var pub [32]byte
	curve25519.ScalarBaseMult(&pub, &priv)
	return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(pub), ecc.NewDjbECPrivateKey(priv))
}

func zzLemmaRatchetStep(k *Key, ours, theirs [32]byte) (*session.KeyPair, *session.KeyPair) {
	x, y := zzPair(ours), zzPair(theirs)
	a, _ := k.CreateChain(y.PublicKey(), x)
	b, _ := k.CreateChain(x.PublicKey(), y)
	return a, b
}
