package groups

import (
	"github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

// What a member encrypts the other members decrypt, from the iteration they were given on,
// whichever messages they have seen.

func zzLemmaDeliver(a, b *GroupCipher, plain []byte) (*protocol.SenderKeyMessage, []byte, error) {
	c, err := a.Encrypt(plain)
	if err != nil {
		return nil, nil, err
	}
	m, ok := c.(*protocol.SenderKeyMessage)
	if !ok {
		return nil, nil, nil
	}
	p, err := b.Decrypt(m)
	return m, p, err
}

// An iteration whose key was handed out stays refused, whatever iteration is asked for in between.

func zzLemmaUsed(c *GroupCipher, s *record.SenderKeyState, n uint32) error {
	_, err := c.getSenderKey(s, n)
	return err
}

func zzLemmaStaysUsed(c *GroupCipher, s *record.SenderKeyState, n, other uint32) (error, error) {
	_, err := c.getSenderKey(s, other)
	_, again := c.getSenderKey(s, n)
	return err, again
}

// A member that is given the group's distribution message holds the sender's chain.
func zzLemmaJoin(a, b *SessionBuilder, name *protocol.SenderKeyName) (*record.SenderKeyState, error) {
	m, err := a.Create(name)
	if err != nil {
		return nil, err
	}
	b.Process(name, m)
	r := a.senderKeyStore.LoadSenderKey(name)
	if r == nil {
		return nil, nil
	}
	return r.SenderKeyState()
}
