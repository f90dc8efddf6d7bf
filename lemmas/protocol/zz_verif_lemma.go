package protocol

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
)

// A message made with a MAC key is accepted under that key, and the MAC is bound
// to the two identities.

func zzLemmaMac(version int, counter, previous uint32, macKey []byte, ratchetKey ecc.ECPublicKeyable,
	text []byte, sender, receiver *identity.Key, se SignalMessageSerializer) error {
	m, err := NewSignalMessage(version, counter, previous, macKey, ratchetKey, text, sender, receiver, se)
	if err != nil {
		return err
	}
	return m.VerifyMac(version, sender, receiver, macKey)
}
