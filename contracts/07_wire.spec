# The protobuf wire format.  pm(...) is the protobuf encoding of a message,
# pbval/pbhas/pbok what decoding finds; decoding an encoding gives the encoded fields.
func serialize.highBitsToInt(v) (r)
  labels C12
  modifies nothing
  ensures r == v / 16

func serialize.(*ProtoBufSignalMessageSerializer).Serialize(j, m) (r)
  labels C12
  modifies nothing
  fresh r
  ensures b(r) == cat(ite(m.Version != 0, ITOA(m.Version), ""), pm("serialize.SignalMessage", m.RatchetKey, m.Counter, m.PreviousCounter, m.CipherText), b(m.Mac))

func serialize.(*ProtoBufSignalMessageSerializer).Deserialize(j, q) (r, err)
  labels C12
  modifies nothing
  let body = b(q)[1:len(q)-8]
  case len(q) >= 9 && pbok("serialize.SignalMessage", body)
    ensures ok(err)
    fresh r
    ensures r.Version == nth(b(q), 0) / 16
    ensures r.Counter == pbval("serialize.SignalMessage", Counter, body)
    ensures r.PreviousCounter == pbval("serialize.SignalMessage", PreviousCounter, body)
    ensures b(r.RatchetKey) == pbval("serialize.SignalMessage", RatchetKey, body)
    ensures iff(r.RatchetKey != nil, pbhas("serialize.SignalMessage", RatchetKey, body))
    ensures b(r.CipherText) == pbval("serialize.SignalMessage", Ciphertext, body)
    ensures iff(r.CipherText != nil, pbhas("serialize.SignalMessage", Ciphertext, body))
    ensures b(r.Mac) == b(q)[len(q)-8:]
  case !(len(q) >= 9 && pbok("serialize.SignalMessage", body))
    ensures !ok(err)
    ensures r == nil

func serialize.(*ProtoBufPreKeySignalMessageSerializer).Serialize(j, m) (r)
  labels C12
  modifies nothing
  fresh r
  ensures b(r) == cat(ITOA(m.Version), pm("serialize.PreKeySignalMessage", m.RegistrationID, m.PreKeyID, m.SignedPreKeyID, m.BaseKey, m.IdentityKey, m.Message))

func serialize.(*ProtoBufPreKeySignalMessageSerializer).Deserialize(j, q) (r, err)
  labels C12
  modifies nothing
  let body = b(q)[1:]
  case len(q) >= 1 && pbok("serialize.PreKeySignalMessage", body)
    ensures ok(err)
    fresh r
    ensures r.Version == nth(b(q), 0) / 16
    ensures r.RegistrationID == pbval("serialize.PreKeySignalMessage", RegistrationId, body)
    ensures r.SignedPreKeyID == pbval("serialize.PreKeySignalMessage", SignedPreKeyId, body)
    ensures r.PreKeyID != nil
    ensures iff(r.PreKeyID.IsEmpty, !pbhas("serialize.PreKeySignalMessage", PreKeyId, body))
    ensures imp(!r.PreKeyID.IsEmpty, r.PreKeyID.Value == pbval("serialize.PreKeySignalMessage", PreKeyId, body))
    ensures b(r.BaseKey) == pbval("serialize.PreKeySignalMessage", BaseKey, body)
    ensures b(r.IdentityKey) == pbval("serialize.PreKeySignalMessage", IdentityKey, body)
    ensures b(r.Message) == pbval("serialize.PreKeySignalMessage", Message, body)
    ensures iff(r.BaseKey != nil, pbhas("serialize.PreKeySignalMessage", BaseKey, body))
    ensures iff(r.IdentityKey != nil, pbhas("serialize.PreKeySignalMessage", IdentityKey, body))
    ensures iff(r.Message != nil, pbhas("serialize.PreKeySignalMessage", Message, body))
  case !(len(q) >= 1 && pbok("serialize.PreKeySignalMessage", body))
    ensures !ok(err)
    ensures r == nil

func serialize.(*ProtoBufSenderKeyMessageSerializer).Serialize(j, m) (r)
  labels C12 C14
  modifies nothing
  fresh r
  ensures b(r) == cat(ite(m.Version != 0, cat(ITOA(m.Version), pm("serialize.SenderKeyMessage", m.ID, m.Iteration, m.CipherText)), ""), b(m.Signature))

func serialize.(*ProtoBufSenderKeyMessageSerializer).Deserialize(j, q) (r, err)
  labels C12 C14
  modifies nothing
  let body = b(q)[1:len(q)-64]
  case len(q) >= 65 && pbok("serialize.SenderKeyMessage", body)
    ensures ok(err)
    fresh r
    ensures r.Version == nth(b(q), 0) / 16
    ensures r.ID == pbval("serialize.SenderKeyMessage", Id, body)
    ensures r.Iteration == pbval("serialize.SenderKeyMessage", Iteration, body)
    ensures b(r.CipherText) == pbval("serialize.SenderKeyMessage", Ciphertext, body)
    ensures iff(r.CipherText != nil, pbhas("serialize.SenderKeyMessage", Ciphertext, body))
    ensures b(r.Signature) == b(q)[len(q)-64:]
  case !(len(q) >= 65 && pbok("serialize.SenderKeyMessage", body))
    ensures !ok(err)
    ensures r == nil

func serialize.(*ProtoBufSenderKeyDistributionMessageSerializer).Serialize(j, m) (r)
  labels C12 C16
  modifies nothing
  fresh r
  ensures b(r) == cat(ITOA(m.Version), pm("serialize.SenderKeyDistributionMessage", m.ID, m.Iteration, m.ChainKey, m.SigningKey))

func serialize.(*ProtoBufSenderKeyDistributionMessageSerializer).Deserialize(j, q) (r, err)
  labels C12 C16
  modifies nothing
  let body = b(q)[1:]
  case len(q) >= 1 && pbok("serialize.SenderKeyDistributionMessage", body)
    ensures ok(err)
    fresh r
    ensures r.Version == nth(b(q), 0) / 16
    ensures r.ID == pbval("serialize.SenderKeyDistributionMessage", Id, body)
    ensures r.Iteration == pbval("serialize.SenderKeyDistributionMessage", Iteration, body)
    ensures b(r.ChainKey) == pbval("serialize.SenderKeyDistributionMessage", ChainKey, body)
    ensures iff(r.ChainKey != nil, pbhas("serialize.SenderKeyDistributionMessage", ChainKey, body))
    ensures b(r.SigningKey) == pbval("serialize.SenderKeyDistributionMessage", SigningKey, body)
    ensures iff(r.SigningKey != nil, pbhas("serialize.SenderKeyDistributionMessage", SigningKey, body))
  case !(len(q) >= 1 && pbok("serialize.SenderKeyDistributionMessage", body))
    ensures !ok(err)
    ensures r == nil
