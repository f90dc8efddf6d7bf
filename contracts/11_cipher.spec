# The session cipher with its stores.
inv session.Cipher.signalMessageSerializer nonnil
inv session.Cipher.preKeyMessageSerializer nonnil
inv session.Cipher.remoteAddress nonnil
# sender chains that can be used
def SENDER(s) = s.senderChain != nil && s.senderChain.chainKey != nil && s.remoteIdentityPublic != nil && s.localIdentityPublic != nil

func session.(*Cipher).Encrypt(d, plain) (m, err)
  labels C03
  emits store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.IdentityKey.SaveIdentity, store.Session.StoreSession
  # kept by every store of a session (see below and in the builder)
  given store.Session.LoadSession SENDER(res.sessionState)
  let rec = evres("LoadSession", 0, 0)
  let s = rec.sessionState
  let ck = old(s.senderChain.chainKey)
  let q = old(MK(s.senderChain.chainKey.key))
  let sm = typed(m, "*protocol.SignalMessage")
  let pm = typed(m, "*protocol.PreKeySignalMessage")
  let ct = CBCENC(q[:32], q[64:80], PADDED(b(plain)))
  let rk = s.senderChain.senderRatchetKeyPair.publicKey
  ensures nev("LoadSession") == 1 && evarg("LoadSession", 0, 0) == d.remoteAddress
  case !ok(err)
    # nothing is used up
    modifies nothing
    ensures nev("StoreSession") == 0 && nev("SaveIdentity") == 0
    ensures !VOK(s.sessionVersion) || s.pendingPreKey != nil
  case ok(err)
    modifies rec.sessionState.senderChain.chainKey
    # one key per message: the chain moves on, before the record is stored, once
    ensures b(s.senderChain.chainKey.key) == CKNEXT(ck.key) && s.senderChain.chainKey.index == u32(ck.index + 1)
    ensures nev("StoreSession") == 1 && evarg("StoreSession", 0, 0) == d.remoteAddress && evarg("StoreSession", 0, 1) == rec
    ensures at("StoreSession", 0, b(s.senderChain.chainKey.key)) == CKNEXT(ck.key)
    ensures at("StoreSession", 0, SENDER(s)) && imp(old(RECOK(rec)), at("StoreSession", 0, RECOK(rec)))
    ensures VOK(s.sessionVersion)
    ensures imp(s.pendingPreKey == nil, hastype(m, "*protocol.SignalMessage"))
    ensures imp(s.pendingPreKey != nil, hastype(m, "*protocol.PreKeySignalMessage"))
    # the message carries the index of its key, and is authenticated and encrypted with that key
    ensures imp(s.pendingPreKey == nil, sm.structure.Version == s.sessionVersion && sm.structure.Counter == ck.index && sm.structure.PreviousCounter == s.previousCounter && b(sm.structure.RatchetKey) == cat("\x05", rk.publicKey) && b(sm.structure.CipherText) == ct && sm.serializer == d.signalMessageSerializer)
    ensures [C03 C04] imp(s.pendingPreKey == nil, b(sm.structure.Mac) == SIGMAC(q[32:64], s.sessionVersion, s.localIdentityPublic, s.remoteIdentityPublic, s.sessionVersion, d.signalMessageSerializer, cat("\x05", rk.publicKey), ck.index, s.previousCounter, ct))
    # the other side has not answered: the message carries what it needs to set up the session
    ensures [C03 C01] imp(s.pendingPreKey != nil, pm.structure.Version == s.sessionVersion && pm.structure.RegistrationID == s.localRegistrationID && pm.structure.PreKeyID == s.pendingPreKey.preKeyID && pm.structure.SignedPreKeyID == s.pendingPreKey.signedPreKeyID)
    ensures [C03 C01] imp(s.pendingPreKey != nil, b(pm.structure.BaseKey) == cat("\x05", s.pendingPreKey.baseKey.publicKey) && b(pm.structure.IdentityKey) == cat("\x05", s.localIdentityPublic.publicKey.publicKey))
    ensures [C03 C04] imp(s.pendingPreKey != nil, b(pm.structure.Message) == ser(d.signalMessageSerializer, cat("\x05", rk.publicKey), ck.index, s.previousCounter, ct, s.sessionVersion, SIGMAC(q[32:64], s.sessionVersion, s.localIdentityPublic, s.remoteIdentityPublic, s.sessionVersion, d.signalMessageSerializer, cat("\x05", rk.publicKey), ck.index, s.previousCounter, ct)))

def RECOK(r) = SROK(r.sessionState) && forall(i, 0, len(r.previousStates), SROK(nth(list(r.previousStates), i)))

func session.(*Cipher).DecryptAndGetKey(d, m) (p, keys, err)
  inline
  labels C04 C05 C06
  emits store.Session.ContainsSession, store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.IdentityKey.SaveIdentity, store.Session.StoreSession
  given store.Session.LoadSession RECOK(res)
  let r = evres("LoadSession", 0, 0)
  let st = m.structure
  case !ok(err)
    # nothing is changed or stored
    modifies [C05] nothing
    ensures [C05] nev("StoreSession") == 0 && nev("SaveIdentity") == 0
    # a message that one of the states can decrypt is not rejected, unless its sender is not trusted
    ensures [C06] nev("ContainsSession") == 1 && !evres("ContainsSession", 0, 0) || nev("IsTrustedIdentity") == 1 && !evres("IsTrustedIdentity", 0, 0) || nev("LoadSession") == 1 && !GOODFOR(r.sessionState, m) && forall(i, 0, len(r.previousStates), !GOODFOR(nth(list(r.previousStates), i), m))
  case ok(err)
    modifies r.sessionState, r.previousStates, new(r.sessionState).all
    ensures [C13] at("StoreSession", 0, RECOK(r) && SENDER(r.sessionState))
    ensures [C04] b(st.Mac) == MSIG(r.sessionState, m, b(keys.macKey))
    ensures [C04] DGOOD(keys, st.CipherText) && b(p) == DPLAIN(keys, st.CipherText)
    ensures [C04] keys.index == st.Counter && st.Version == r.sessionState.sessionVersion
    # the record as it is now is stored, once
    ensures [C06] nev("LoadSession") == 1 && evarg("LoadSession", 0, 0) == d.remoteAddress
    ensures [C06] nev("StoreSession") == 1 && evarg("StoreSession", 0, 0) == d.remoteAddress && evarg("StoreSession", 0, 1) == r
    ensures [C06] at("StoreSession", 0, r.sessionState) == r.sessionState && at("StoreSession", 0, list(r.previousStates)) == list(r.previousStates) && at("StoreSession", 0, list(r.sessionState.receiverChains)) == list(r.sessionState.receiverChains)
    ensures [C10] r.sessionState == old(r.sessionState) && list(r.previousStates) == old(list(r.previousStates)) || exists(i, 0, old(len(r.previousStates)), r.sessionState == nth(old(list(r.previousStates)), i))

func session.(*Cipher).Decrypt(d, m) (p, err)
  inline
  labels C04 C05 C06
  emits store.Session.ContainsSession, store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.IdentityKey.SaveIdentity, store.Session.StoreSession
  given store.Session.LoadSession RECOK(res)
  let r = evres("LoadSession", 0, 0)
  case !ok(err)
    modifies [C05] nothing
    ensures [C05] nev("StoreSession") == 0 && nev("SaveIdentity") == 0
  case ok(err)
    modifies r.sessionState, r.previousStates, new(r.sessionState).all
    ensures [C06] nev("StoreSession") == 1 && evarg("StoreSession", 0, 0) == d.remoteAddress && evarg("StoreSession", 0, 1) == r
