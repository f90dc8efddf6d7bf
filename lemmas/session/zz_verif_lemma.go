package session

import (
	"golang.org/x/crypto/curve25519"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// A counter whose keys were handed out stays refused: the induction step over a
// chain's history (any one counter).

func zzLemmaUsed(s *record.State, e ecc.ECPublicKeyable, n uint32) error {
	_, err := getOrCreateMessageKeys(s, e, s.ReceiverChainKey(e), n)
	return err
}

// ... and over any other counter in between.
func zzLemmaStaysUsed(s *record.State, e ecc.ECPublicKeyable, n, other uint32) (error, error) {
	_, err := getOrCreateMessageKeys(s, e, s.ReceiverChainKey(e), other)
	_, again := getOrCreateMessageKeys(s, e, s.ReceiverChainKey(e), n)
	return err, again
}

// The same message is not accepted twice by a session state.
func zzLemmaTwice(d *Cipher, s *record.State, m *protocol.SignalMessage) (error, error) {
	_, _, err := d.DecryptWithState(s, m)
	_, _, again := d.DecryptWithState(s, m)
	return err, again
}

// A used counter stays used whatever message comes next ...
func zzLemmaKeeps(d *Cipher, s *record.State, other *protocol.SignalMessage, e ecc.ECPublicKeyable, n uint32) error {
	_, _, err := d.DecryptWithState(s, other)
	return err
}

// ... so the same message is not accepted later either.
func zzLemmaReplay(d *Cipher, s *record.State, m, other *protocol.SignalMessage) error {
	zzLemmaKeeps(d, s, other, m.SenderRatchetKey(), m.Counter())
	_, _, err := d.DecryptWithState(s, m)
	return err
}

// What one side encrypts the other side decrypts, whichever messages of the chain it has seen.
func zzLemmaDeliver(a, b *Cipher, s *record.State, plain []byte) (*protocol.SignalMessage, []byte, error) {
	c, err := a.Encrypt(plain)
	if err != nil {
		return nil, nil, err
	}
	m, ok := c.(*protocol.SignalMessage)
	if !ok {
		return nil, nil, nil
	}
	p, _, err := b.DecryptWithState(s, m)
	return m, p, err
}

// ... and the first messages of a new chain.
func zzLemmaDeliverNew(a, b *Cipher, s *record.State, plain []byte) (*protocol.SignalMessage, []byte, error) {
	c, err := a.Encrypt(plain)
	if err != nil {
		return nil, nil, err
	}
	m, ok := c.(*protocol.SignalMessage)
	if !ok {
		return nil, nil, nil
	}
	p, _, err := b.DecryptWithState(s, m)
	return m, p, err
}

func zzPair(priv [32]byte) *ecc.ECKeyPair {
	var pub [32]byte
	curve25519.ScalarBaseMult(&pub, &priv)
	return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(pub), ecc.NewDjbECPrivateKey(priv))
}

// The session that the initiator builds from a bundle and the one that the responder builds
// from its first message are related as the delivery lemma asks.
func zzLemmaEstablish(a, b *Builder, bobID, bobSigned, bobOneTime [32]byte, oneTime bool, reg, dev, id, sid uint32, sig [64]byte,
	r *record.Session, m *protocol.PreKeySignalMessage) (error, error) {
	var opk ecc.ECPublicKeyable
	num := optional.NewEmptyUint32()
	if oneTime {
		opk, num = zzPair(bobOneTime).PublicKey(), optional.NewOptionalUint32(id)
	}
	err := a.ProcessBundle(prekey.NewBundle(reg, dev, num, sid, opk, zzPair(bobSigned).PublicKey(), sig, identity.NewKey(zzPair(bobID).PublicKey())))
	if err != nil {
		return err, nil
	}
	_, err = b.process(r, m)
	return nil, err
}
