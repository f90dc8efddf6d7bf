package serialize

import "github.com/prospik/libsignal-protocol-go/protocol"

// What the protobuf serializers write, they read back.

func zzLemmaSignal(m *protocol.SignalMessageStructure, mac [8]byte) (*protocol.SignalMessageStructure, error) {
	s := NewProtoBufSerializer().SignalMessage
	c := *m
	c.Mac = mac[:]
	c.Version = 3
	return s.Deserialize(s.Serialize(&c))
}

func zzLemmaPreKey(m *protocol.PreKeySignalMessageStructure) (*protocol.PreKeySignalMessageStructure, error) {
	s := NewProtoBufSerializer().PreKeySignalMessage
	c := *m
	c.Version = 3
	return s.Deserialize(s.Serialize(&c))
}

func zzLemmaSenderKey(m *protocol.SenderKeyMessageStructure, sig [64]byte) (*protocol.SenderKeyMessageStructure, error) {
	s := NewProtoBufSerializer().SenderKeyMessage
	c := *m
	c.Signature = sig[:]
	c.Version = 3
	return s.Deserialize(s.Serialize(&c))
}

func zzLemmaDistribution(m *protocol.SenderKeyDistributionMessageStructure) (*protocol.SenderKeyDistributionMessageStructure, error) {
	s := NewProtoBufSerializer().SenderKeyDistributionMessage
	c := *m
	c.Version = 3
	return s.Deserialize(s.Serialize(&c))
}
