# Messages.  VOK: accepted versions.  POINTOK: decodable curve point.
inv protocol.SignalMessage.senderRatchetKey nonnil
inv protocol.SignalMessage.serializer nonnil
inv protocol.PreKeySignalMessage.baseKey nonnil
inv protocol.PreKeySignalMessage.identityKey nonnil
inv protocol.PreKeySignalMessage.message nonnil
inv protocol.PreKeySignalMessage.serializer nonnil
inv protocol.SenderKeyMessage.serializer nonnil
inv protocol.SenderKeyDistributionMessage.serializer nonnil
inv protocol.SenderKeyDistributionMessage.signatureKey nonnil

def VOK(v) = v >= 2 && v <= 3
def POINTOK(q) = len(q) >= 33 && nth(q, 0) == 5
def IDS(v, s, r) = ite(v >= 3, cat("\x05", s.publicKey.publicKey, "\x05", r.publicKey.publicKey), "")
def MAC(key, v, s, r, m) = HMAC(key, cat(IDS(v, s, r), m))[:8]
# what is authenticated: the version and the message without version and MAC
def SIGBODY(se, rk, ctr, prev, ct) = ser(se, rk, ctr, prev, ct, 0, nilseq())
def SIGMAC(key, v, s, r, mv, se, rk, ctr, prev, ct) = MAC(key, v, s, r, cat(ITOA(mv), SIGBODY(se, rk, ctr, prev, ct)))

func protocol.getMac(v, sender, receiver, macKey, serialized) (r, err)
  labels C04 C03
  modifies nothing
  fresh r
  ensures ok(err)
  ensures b(r) == MAC(b(macKey), v, sender, receiver, b(serialized))

func protocol.NewSignalMessageFromStruct(st, se) (r, err)
  labels C12 C04
  modifies nothing
  let good = VOK(st.Version) && st.CipherText != nil && st.RatchetKey != nil && POINTOK(b(st.RatchetKey))
  case good
    ensures ok(err)
    fresh r
    ensures r.structure.Version == st.Version && r.structure.Counter == st.Counter && r.structure.PreviousCounter == st.PreviousCounter
    ensures r.structure.RatchetKey == st.RatchetKey && r.structure.CipherText == st.CipherText && r.structure.Mac == st.Mac
    ensures r.serializer == se
    fresh r.senderRatchetKey
    ensures r.senderRatchetKey.publicKey == b(st.RatchetKey)[1:33]
  case !good
    ensures !ok(err)
    ensures r == nil

func protocol.NewSignalMessage(v, counter, prev, macKey, rk, ct, sender, receiver, se) (r, err)
  labels C03 C04 C12
  emits protocol.SignalMessageSerializer.Serialize
  modifies nothing
  case VOK(v) && ct != nil
    ensures ok(err)
    fresh r
    ensures r.structure.Version == v && r.structure.Counter == counter && r.structure.PreviousCounter == prev
    ensures r.structure.CipherText == ct
    ensures r.serializer == se
    ensures b(r.structure.RatchetKey) == cat("\x05", rk.publicKey)
    fresh r.structure.RatchetKey, r.structure.Mac
    ensures b(r.structure.Mac) == SIGMAC(b(macKey), v, sender, receiver, v, se, cat("\x05", rk.publicKey), counter, prev, b(ct))
    fresh r.senderRatchetKey
    ensures r.senderRatchetKey.publicKey == rk.publicKey
  case !(VOK(v) && ct != nil)
    ensures !ok(err)
    ensures r == nil

func protocol.(*SignalMessage).Serialize(s) (r)
  labels C12
  emits protocol.SignalMessageSerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(s.serializer, s.structure.RatchetKey, s.structure.Counter, s.structure.PreviousCounter, s.structure.CipherText, s.structure.Version, s.structure.Mac)

func protocol.(*SignalMessage).VerifyMac(s, v, sender, receiver, macKey) (err)
  labels C04
  emits protocol.SignalMessageSerializer.Serialize
  modifies nothing
  let good = VOK(s.structure.Version) && s.structure.CipherText != nil && s.structure.RatchetKey != nil && POINTOK(b(s.structure.RatchetKey))
  let mac = SIGMAC(b(macKey), v, sender, receiver, s.structure.Version, s.serializer, s.structure.RatchetKey, s.structure.Counter, s.structure.PreviousCounter, s.structure.CipherText)
  ensures iff(ok(err), good && mac == b(s.structure.Mac))

# everything a message parsed from bytes carries is what its deserializer found
def SMGOOD(se, q) = desok(se, q) && VOK(des(se, q, Version)) && !desnil(se, q, CipherText) && !desnil(se, q, RatchetKey) && POINTOK(des(se, q, RatchetKey))

func protocol.NewSignalMessageFromBytes(bs, se) (r, err)
  labels C12
  emits protocol.SignalMessageSerializer.Deserialize
  modifies nothing
  case SMGOOD(se, b(bs))
    ensures ok(err)
    fresh r
    ensures r.serializer == se
    ensures r.structure.CipherText != nil && r.structure.RatchetKey != nil
    fresh r.senderRatchetKey
    ensures r.senderRatchetKey.publicKey == des(se, b(bs), RatchetKey)[1:33]
    ensures r.structure.Version == des(se, b(bs), Version)
    ensures r.structure.Counter == des(se, b(bs), Counter)
    ensures r.structure.PreviousCounter == des(se, b(bs), PreviousCounter)
    ensures b(r.structure.CipherText) == des(se, b(bs), CipherText)
    ensures b(r.structure.RatchetKey) == des(se, b(bs), RatchetKey)
    ensures b(r.structure.Mac) == des(se, b(bs), Mac)
  case !SMGOOD(se, b(bs))
    ensures !ok(err)
    ensures r == nil

# prekey messages
def PKSER(se, reg, opk, spk, base, id, msg, v) = ser(se, reg, opk, spk, base, id, msg, v)
def PKGOOD(st) = VOK(st.Version) && st.BaseKey != nil && st.IdentityKey != nil && st.Message != nil && POINTOK(b(st.BaseKey)) && POINTOK(b(st.IdentityKey))

func protocol.NewPreKeySignalMessageFromStruct(st, se, mse) (r, err)
  labels C12 C03
  emits protocol.SignalMessageSerializer.Deserialize
  modifies nothing
  case PKGOOD(st) && SMGOOD(mse, b(st.Message))
    ensures ok(err)
    fresh r
    ensures r.structure.Version == st.Version && r.structure.RegistrationID == st.RegistrationID
    ensures r.structure.PreKeyID == st.PreKeyID && r.structure.SignedPreKeyID == st.SignedPreKeyID
    ensures r.structure.BaseKey == st.BaseKey && r.structure.IdentityKey == st.IdentityKey && r.structure.Message == st.Message
    ensures r.serializer == se
    fresh r.baseKey
    ensures r.baseKey.publicKey == b(st.BaseKey)[1:33]
    fresh r.identityKey, r.identityKey.publicKey
    ensures r.identityKey.publicKey.publicKey == b(st.IdentityKey)[1:33]
    fresh r.message
    ensures r.message.serializer == mse
    fresh r.message.senderRatchetKey
    ensures r.message.senderRatchetKey.publicKey == des(mse, b(st.Message), RatchetKey)[1:33]
    ensures r.message.structure.Version == des(mse, b(st.Message), Version)
    ensures r.message.structure.Counter == des(mse, b(st.Message), Counter)
    ensures r.message.structure.PreviousCounter == des(mse, b(st.Message), PreviousCounter)
    ensures r.message.structure.CipherText != nil && r.message.structure.RatchetKey != nil
    ensures b(r.message.structure.CipherText) == des(mse, b(st.Message), CipherText)
    ensures b(r.message.structure.RatchetKey) == des(mse, b(st.Message), RatchetKey)
    ensures b(r.message.structure.Mac) == des(mse, b(st.Message), Mac)
  case !(PKGOOD(st) && SMGOOD(mse, b(st.Message)))
    ensures !ok(err)
    ensures r == nil

func protocol.NewPreKeySignalMessageFromBytes(bs, se, mse) (r, err)
  labels C12
  emits protocol.SignalMessageSerializer.Deserialize, protocol.PreKeySignalMessageSerializer.Deserialize
  modifies nothing
  let q = b(bs)
  let head = desok(se, q) && VOK(des(se, q, Version)) && !desnil(se, q, BaseKey) && !desnil(se, q, IdentityKey) && !desnil(se, q, Message)
  let good = head && POINTOK(des(se, q, BaseKey)) && POINTOK(des(se, q, IdentityKey)) && SMGOOD(mse, des(se, q, Message))
  case good
    ensures ok(err)
    fresh r
    ensures r.serializer == se
    ensures r.structure.Version == des(se, q, Version) && r.structure.RegistrationID == des(se, q, RegistrationID)
    ensures r.structure.SignedPreKeyID == des(se, q, SignedPreKeyID)
    ensures opt(r.structure.PreKeyID) == des(se, q, PreKeyID)
    ensures r.structure.BaseKey != nil && r.structure.IdentityKey != nil && r.structure.Message != nil
    ensures b(r.structure.BaseKey) == des(se, q, BaseKey)
    ensures b(r.structure.IdentityKey) == des(se, q, IdentityKey)
    ensures b(r.structure.Message) == des(se, q, Message)
    fresh r.baseKey
    ensures r.baseKey.publicKey == des(se, q, BaseKey)[1:33]
    fresh r.identityKey, r.identityKey.publicKey
    ensures r.identityKey.publicKey.publicKey == des(se, q, IdentityKey)[1:33]
    fresh r.message
    ensures r.message.serializer == mse
    ensures r.message.structure.Version == des(mse, des(se, q, Message), Version)
    ensures r.message.structure.Counter == des(mse, des(se, q, Message), Counter)
    ensures r.message.structure.PreviousCounter == des(mse, des(se, q, Message), PreviousCounter)
    ensures b(r.message.structure.CipherText) == des(mse, des(se, q, Message), CipherText)
    ensures b(r.message.structure.Mac) == des(mse, des(se, q, Message), Mac)
  case !good
    ensures !ok(err)
    ensures r == nil

func protocol.NewPreKeySignalMessage(v, reg, opk, spk, base, id, msg, se, mse) (r, err)
  nilable opk
  labels C03 C12
  emits protocol.SignalMessageSerializer.Serialize, protocol.SignalMessageSerializer.Deserialize
  modifies nothing
  let m = ser(msg.serializer, msg.structure.RatchetKey, msg.structure.Counter, msg.structure.PreviousCounter, msg.structure.CipherText, msg.structure.Version, msg.structure.Mac)
  case VOK(v) && SMGOOD(mse, m)
    ensures ok(err)
    fresh r
    ensures r.structure.Version == v && r.structure.RegistrationID == reg
    ensures r.structure.PreKeyID == opk && r.structure.SignedPreKeyID == spk
    ensures b(r.structure.BaseKey) == cat("\x05", base.publicKey)
    ensures b(r.structure.IdentityKey) == cat("\x05", id.publicKey.publicKey)
    ensures b(r.structure.Message) == m
    ensures r.serializer == se
    fresh r.baseKey
    ensures r.baseKey.publicKey == base.publicKey
    fresh r.identityKey, r.identityKey.publicKey
    ensures r.identityKey.publicKey.publicKey == id.publicKey.publicKey
    fresh r.message
    ensures r.message.serializer == mse
  case !(VOK(v) && SMGOOD(mse, m))
    ensures !ok(err)
    ensures r == nil

func protocol.(*PreKeySignalMessage).Serialize(p) (r)
  labels C12
  emits protocol.PreKeySignalMessageSerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(p.serializer, p.structure.RegistrationID, p.structure.PreKeyID, p.structure.SignedPreKeyID, p.structure.BaseKey, p.structure.IdentityKey, p.structure.Message, p.structure.Version)

# group messages
def SKSER(se, id, it, ct, v, sig) = ser(se, id, it, ct, v, sig)

func protocol.NewSenderKeyMessageFromStruct(st, se) (r, err)
  labels C12 C14
  modifies nothing
  case VOK(st.Version) && st.CipherText != nil
    ensures ok(err)
    fresh r
    ensures r.keyID == st.ID && r.version == st.Version && r.iteration == st.Iteration
    ensures r.ciphertext == st.CipherText && r.signature == st.Signature && r.serializer == se
  case !(VOK(st.Version) && st.CipherText != nil)
    ensures !ok(err)
    ensures r == nil

def SKGOOD(se, q) = desok(se, q) && VOK(des(se, q, Version)) && !desnil(se, q, CipherText)

func protocol.NewSenderKeyMessageFromBytes(bs, se) (r, err)
  labels C12 C14
  emits protocol.SenderKeyMessageSerializer.Deserialize
  modifies nothing
  case SKGOOD(se, b(bs))
    ensures ok(err)
    fresh r
    ensures r.serializer == se && r.ciphertext != nil
    ensures r.keyID == des(se, b(bs), ID)
    ensures r.version == des(se, b(bs), Version)
    ensures r.iteration == des(se, b(bs), Iteration)
    ensures b(r.ciphertext) == des(se, b(bs), CipherText)
    ensures b(r.signature) == des(se, b(bs), Signature)
  case !SKGOOD(se, b(bs))
    ensures !ok(err)
    ensures r == nil

func protocol.(*SenderKeyMessage).Serialize(p) (r)
  labels C12 C14
  emits protocol.SenderKeyMessageSerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(p.serializer, p.keyID, p.iteration, p.ciphertext, p.version, nilseq())

func protocol.(*SenderKeyMessage).SignedSerialize(p) (r)
  labels C12
  emits protocol.SenderKeyMessageSerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(p.serializer, p.keyID, p.iteration, p.ciphertext, p.version, p.signature)

func protocol.(*SenderKeyMessage).Signature(p) (r)
  labels C14
  modifies nothing
  ensures imp(len(p.signature) >= 64, r == b(p.signature)[:64])
  ensures imp(len(p.signature) < 64, r == cat(b(p.signature), rep(0, 64 - len(p.signature))))

func protocol.NewSenderKeyMessage(id, it, ct, sk, se) (r)
  inline
  labels C14 C12
  emits protocol.SenderKeyMessageSerializer.Serialize
  modifies nothing
  fresh r
  ensures r.keyID == id && r.iteration == it && r.ciphertext == ct && r.version == 3 && r.serializer == se
  ensures len(r.signature) == 64
  ensures nev("rand.Read") == 1
  ensures b(r.signature) == XSIGN(sk.privateKey, ser(se, id, it, ct, 3, nilseq()), evarg("rand.Read", 0, 0))
  fresh r.signature

func protocol.NewSenderKeyDistributionMessageFromStruct(st, se) (r, err)
  labels C12 C16
  modifies nothing
  let good = VOK(st.Version) && st.SigningKey != nil && st.ChainKey != nil && POINTOK(b(st.SigningKey))
  case good
    ensures ok(err)
    fresh r
    ensures r.id == st.ID && r.iteration == st.Iteration && r.chainKey == st.ChainKey && r.version == st.Version && r.serializer == se
    fresh r.signatureKey
    ensures r.signatureKey.publicKey == b(st.SigningKey)[1:33]
  case !good
    ensures !ok(err)
    ensures r == nil

def SDGOOD(se, q) = desok(se, q) && VOK(des(se, q, Version)) && !desnil(se, q, SigningKey) && !desnil(se, q, ChainKey) && POINTOK(des(se, q, SigningKey))

func protocol.NewSenderKeyDistributionMessageFromBytes(bs, se) (r, err)
  labels C12 C16
  emits protocol.SenderKeyDistributionMessageSerializer.Deserialize
  modifies nothing
  case SDGOOD(se, b(bs))
    ensures ok(err)
    fresh r
    ensures r.serializer == se && r.chainKey != nil
    ensures r.id == des(se, b(bs), ID)
    ensures r.iteration == des(se, b(bs), Iteration)
    ensures r.version == des(se, b(bs), Version)
    ensures b(r.chainKey) == des(se, b(bs), ChainKey)
    fresh r.signatureKey
    ensures r.signatureKey.publicKey == des(se, b(bs), SigningKey)[1:33]
  case !SDGOOD(se, b(bs))
    ensures !ok(err)
    ensures r == nil

func protocol.NewSenderKeyDistributionMessage(id, it, ck, sk, se) (r)
  labels C16
  modifies nothing
  fresh r
  ensures r.id == id && r.iteration == it && r.chainKey == ck && r.signatureKey == sk && r.serializer == se

func protocol.(*SenderKeyDistributionMessage).Serialize(p) (r)
  labels C12 C16
  emits protocol.SenderKeyDistributionMessageSerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(p.serializer, p.id, p.iteration, p.chainKey, cat("\x05", p.signatureKey.publicKey), 3)
