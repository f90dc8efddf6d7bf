# Setting up sessions.
def PKID(m) = m.structure.PreKeyID
def HASOPK(m) = m.structure.PreKeyID != nil && !m.structure.PreKeyID.IsEmpty
def PRIVK(kp) = kp.privateKey.privateKey

func session.(*Builder).process(d, r, m) (id, err)
  inline
  labels C01 C08 C09 C10
  emits store.IdentityKey.IsTrustedIdentity, store.SignedPreKey.LoadSignedPreKey, store.IdentityKey.GetIdentityKeyPair, store.PreKey.LoadPreKey, store.IdentityKey.GetLocalRegistrationId
  requires m.structure.PreKeyID == nil || m.structure.PreKeyID != nil
  given store.IdentityKey.GetIdentityKeyPair res.privateKey != nil
  given store.SignedPreKey.LoadSignedPreKey res == nil || res.keyPair != nil && res.keyPair.privateKey != nil
  given store.PreKey.LoadPreKey res == nil || res.keyPair != nil && res.keyPair.privateKey != nil
  let known = old(HASSTATE(r, m.structure.Version, cat("\x05", m.baseKey.publicKey)))
  let me = evres("GetIdentityKeyPair", 0, 0)
  let spk = evres("LoadSignedPreKey", 0, 0).keyPair
  let opk = evres("LoadPreKey", 0, 0).keyPair
  let base = RMASTER(PRIVK(me), PRIVK(spk), m.identityKey.publicKey.publicKey, m.baseKey.publicKey)
  let n = old(len(r.previousStates))
  let freshRec = old(r.fresh && r.sessionState.senderChain == nil)
  # the identity is looked at first; an untrusted one goes no further
  ensures [C08] nev("IsTrustedIdentity") == 1 && evarg("IsTrustedIdentity", 0, 1) == m.identityKey && evarg("IsTrustedIdentity", 0, 0) == d.remoteAddress
  ensures [C08] imp(!evres("IsTrustedIdentity", 0, 0), !ok(err) && nev("LoadSignedPreKey") == 0 && nev("LoadPreKey") == 0)
  case !ok(err)
    modifies [C08 C05] nothing
    # nothing else is a reason to refuse it
    ensures [C08 C09 C01] !evres("IsTrustedIdentity", 0, 0) || !known && (nev("LoadSignedPreKey") == 1 && evres("LoadSignedPreKey", 0, 0) == nil || HASOPK(m) && nev("LoadPreKey") == 1 && evres("LoadPreKey", 0, 0) == nil)
  case ok(err) && HASSTATE(r, m.structure.Version, cat("\x05", m.baseKey.publicKey))
    # a session that is there is used as it is
    modifies [C09] nothing
    ensures [C09] nev("LoadSignedPreKey") == 0 && nev("LoadPreKey") == 0
    ensures [C09] id.IsEmpty
  case ok(err) && !HASSTATE(r, m.structure.Version, cat("\x05", m.baseKey.publicKey))
    modifies r.sessionState, r.previousStates, new(r.sessionState).all
    ensures [C08 C01] nev("LoadSignedPreKey") == 1 && evarg("LoadSignedPreKey", 0, 0) == m.structure.SignedPreKeyID && evres("LoadSignedPreKey", 0, 0) != nil
    ensures [C08 C01] iff(nev("LoadPreKey") == 1, HASOPK(m))
    ensures [C08 C09 C01] imp(HASOPK(m), evarg("LoadPreKey", 0, 0) == PKID(m).Value && evres("LoadPreKey", 0, 0) != nil)
    # the one-time prekey that may be removed when the message is accepted
    ensures [C09] iff(id.IsEmpty, !HASOPK(m) || PKID(m).Value == 16777215)
    ensures [C09] imp(!id.IsEmpty, id.Value == PKID(m).Value)
    # a session in use is archived
    ensures [C10] imp(freshRec, r.sessionState == old(r.sessionState) && list(r.previousStates) == old(list(r.previousStates)))
    ensures [C10] imp(!freshRec, fresh(r.sessionState) && list(r.previousStates) == cat(wunit(old(r.sessionState)), ext(old(list(r.previousStates)), 0, ite(n < 40, n, n - 1))))
    # the new session: both identities, and the keys agreed on
    ensures [C08 C10 C01 C04] r.sessionState.sessionVersion == 3 && r.sessionState.remoteIdentityPublic == m.identityKey && r.sessionState.localIdentityPublic == me.publicKey
    ensures [C08] r.sessionState.remoteRegistrationID == m.structure.RegistrationID && r.sessionState.localRegistrationID == evres("GetLocalRegistrationId", 0, 0)
    ensures [C09 C10] SBASE(r.sessionState) == cat("\x05", m.baseKey.publicKey)
    ensures [C01] imp(!HASOPK(m), b(r.sessionState.rootKey.key) == X3(base)[:32] && b(r.sessionState.senderChain.chainKey.key) == X3(base)[32:64])
    ensures [C01] imp(HASOPK(m), b(r.sessionState.rootKey.key) == X3(cat(base, DH(m.baseKey.publicKey, PRIVK(opk))))[:32] && b(r.sessionState.senderChain.chainKey.key) == X3(cat(base, DH(m.baseKey.publicKey, PRIVK(opk))))[32:64])
    ensures [C01] r.sessionState.senderChain.senderRatchetKeyPair == spk && r.sessionState.senderChain.chainKey.index == 0 && len(r.sessionState.senderChain.messageKeys) == 0

func session.(*Builder).Process(d, r, m) (id, err)
  labels C08 C09
  emits store.IdentityKey.IsTrustedIdentity, store.SignedPreKey.LoadSignedPreKey, store.IdentityKey.GetIdentityKeyPair, store.PreKey.LoadPreKey, store.IdentityKey.GetLocalRegistrationId, store.IdentityKey.SaveIdentity
  given store.IdentityKey.GetIdentityKeyPair res.privateKey != nil
  given store.SignedPreKey.LoadSignedPreKey res == nil || res.keyPair.privateKey != nil
  given store.PreKey.LoadPreKey res == nil || res.keyPair.privateKey != nil
  ensures [C08] imp(!evres("IsTrustedIdentity", 0, 0), !ok(err) && nev("SaveIdentity") == 0)
  case !ok(err)
    modifies [C08] nothing
    ensures [C08] nev("SaveIdentity") == 0
  case ok(err)
    modifies r.sessionState, r.previousStates, new(r.sessionState).all
    ensures [C08] nev("SaveIdentity") == 1 && evarg("SaveIdentity", 0, 0) == d.remoteAddress && evarg("SaveIdentity", 0, 1) == m.identityKey

func session.(*Cipher).DecryptMessageReturnKey(d, m) (p, keys, err)
  inline
  labels C04 C05 C08 C09
  emits store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.SignedPreKey.LoadSignedPreKey, store.IdentityKey.GetIdentityKeyPair, store.PreKey.LoadPreKey, store.IdentityKey.GetLocalRegistrationId, store.IdentityKey.SaveIdentity, store.Session.StoreSession, store.PreKey.RemovePreKey
  given store.Session.LoadSession RECOK(res)
  given store.IdentityKey.GetIdentityKeyPair res.privateKey != nil
  given store.SignedPreKey.LoadSignedPreKey res == nil || res.keyPair.privateKey != nil
  given store.PreKey.LoadPreKey res == nil || res.keyPair.privateKey != nil
  let had = evres("LoadSession", 0, 0)
  let r = evarg("StoreSession", 0, 1)
  let st = m.message.structure
  let known = old(HASSTATE(evres("LoadSession", 0, 0), m.structure.Version, cat("\x05", m.baseKey.publicKey)))
  # a cipher without a builder cannot set up sessions
  case d.builder == nil
    modifies nothing
    ensures [C13] !ok(err)
    ensures [C05 C09] nev("LoadSession") == 0 && nev("StoreSession") == 0 && nev("SaveIdentity") == 0 && nev("RemovePreKey") == 0
  case d.builder != nil && !ok(err)
    ensures [C08] nev("IsTrustedIdentity") == 1 && evarg("IsTrustedIdentity", 0, 1) == m.identityKey
    # a rejected message leaves the record and the stores as they are: its one-time prekey too
    modifies [C05] nothing
    ensures [C05] nev("StoreSession") == 0 && nev("SaveIdentity") == 0
    ensures [C09 C05] nev("RemovePreKey") == 0
    # a repeated message that one of the states can decrypt is not rejected
    ensures [C06 C09] imp(known && evres("IsTrustedIdentity", 0, 0), !GOODFOR(had.sessionState, m.message) && forall(i, 0, len(had.previousStates), !GOODFOR(nth(list(had.previousStates), i), m.message)))
  case d.builder != nil && ok(err)
    ensures [C08] nev("IsTrustedIdentity") == 1 && evarg("IsTrustedIdentity", 0, 1) == m.identityKey && evres("IsTrustedIdentity", 0, 0)
    modifies new(evarg("StoreSession", 0, 1).sessionState).all
    ensures [C13] at("StoreSession", 0, RECOK(r) && SENDER(r.sessionState))
    ensures [C04] b(st.Mac) == MSIG(r.sessionState, m.message, b(keys.macKey))
    ensures [C04] DGOOD(keys, st.CipherText) && b(p) == DPLAIN(keys, st.CipherText)
    ensures [C04] keys.index == st.Counter && st.Version == r.sessionState.sessionVersion
    # the session is stored once; the identity saved is the one that authenticated the message
    ensures [C09] nev("LoadSession") == 1 && evarg("LoadSession", 0, 0) == d.remoteAddress
    ensures [C09] nev("StoreSession") == 1 && evarg("StoreSession", 0, 0) == d.remoteAddress
    ensures [C08] nev("SaveIdentity") == 1 && evarg("SaveIdentity", 0, 0) == d.remoteAddress && evarg("SaveIdentity", 0, 1) == r.sessionState.remoteIdentityPublic
    # the one-time prekey of a new session is removed, after the session was stored
    ensures [C09] imp(!known && HASOPK(m) && PKID(m).Value != 16777215, nev("RemovePreKey") == 1 && evarg("RemovePreKey", 0, 0) == PKID(m).Value)
    ensures [C09] imp(known || !HASOPK(m) || PKID(m).Value == 16777215, nev("RemovePreKey") == 0)
    ensures [C09] before("StoreSession", "RemovePreKey")

func session.(*Cipher).DecryptMessage(d, m) (p, err)
  inline
  labels C05 C08 C09
  emits store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.SignedPreKey.LoadSignedPreKey, store.IdentityKey.GetIdentityKeyPair, store.PreKey.LoadPreKey, store.IdentityKey.GetLocalRegistrationId, store.IdentityKey.SaveIdentity, store.Session.StoreSession, store.PreKey.RemovePreKey
  given store.Session.LoadSession RECOK(res)
  given store.IdentityKey.GetIdentityKeyPair res.privateKey != nil
  given store.SignedPreKey.LoadSignedPreKey res == nil || res.keyPair.privateKey != nil
  given store.PreKey.LoadPreKey res == nil || res.keyPair.privateKey != nil
  case d.builder == nil
    modifies nothing
    ensures !ok(err)
    ensures [C05 C09] nev("LoadSession") == 0 && nev("StoreSession") == 0 && nev("SaveIdentity") == 0 && nev("RemovePreKey") == 0
  case d.builder != nil && !ok(err)
    modifies [C05] nothing
    ensures [C05] nev("StoreSession") == 0 && nev("SaveIdentity") == 0
    ensures [C09 C05] nev("RemovePreKey") == 0
  case d.builder != nil && ok(err)
    ensures [C08] nev("IsTrustedIdentity") == 1 && evarg("IsTrustedIdentity", 0, 1) == m.identityKey && evres("IsTrustedIdentity", 0, 0)
    modifies new(evarg("StoreSession", 0, 1).sessionState).all
    ensures [C09] nev("StoreSession") == 1 && before("StoreSession", "RemovePreKey")

# what the base key generated for a bundle is
def BASEK() = clamp(evarg("rand.Read", 0, 0))
def RATK() = clamp(evarg("rand.Read", 1, 0))

func session.(*Builder).ProcessBundle(d, k) (err)
  labels C01 C08 C10
  requires k.identityKey != nil
  nilable k.preKeyPublic, k.signedPreKeyPublic, k.preKeyID
  emits store.IdentityKey.IsTrustedIdentity, store.Session.LoadSession, store.IdentityKey.GetIdentityKeyPair, store.IdentityKey.GetLocalRegistrationId, store.Session.StoreSession, store.IdentityKey.SaveIdentity
  given store.IdentityKey.GetIdentityKeyPair res.privateKey != nil
  let r = evres("LoadSession", 0, 0)
  let me = evres("GetIdentityKeyPair", 0, 0)
  let base = SMASTER(PRIVK(me), BASEK(), k.identityKey.publicKey.publicKey, k.signedPreKeyPublic.publicKey)
  let four = cat(base, DH(k.preKeyPublic.publicKey, BASEK()))
  let ms = ite(k.preKeyPublic == nil, base, four)
  let n = old(len(r.previousStates))
  let freshRec = old(r.fresh && r.sessionState.senderChain == nil)
  # the identity is looked at first, then the signature; neither wrong gets as far as the session
  ensures [C08] nev("IsTrustedIdentity") == 1 && evarg("IsTrustedIdentity", 0, 1) == k.identityKey && evarg("IsTrustedIdentity", 0, 0) == d.remoteAddress
  ensures [C08] imp(!evres("IsTrustedIdentity", 0, 0), !ok(err) && nev("LoadSession") == 0)
  ensures [C08] imp(k.signedPreKeyPublic == nil, !ok(err))
  ensures [C08] imp(!XVERIFY(k.identityKey.publicKey.publicKey, cat("\x05", k.signedPreKeyPublic.publicKey), b(k.signedPreKeySignature)), !ok(err) && nev("LoadSession") == 0)
  case !ok(err)
    modifies [C08 C05] nothing
    ensures [C08] nev("StoreSession") == 0 && nev("SaveIdentity") == 0
    # nothing else is a reason to refuse it
    ensures [C08] !evres("IsTrustedIdentity", 0, 0) || k.signedPreKeyPublic == nil || !XVERIFY(k.identityKey.publicKey.publicKey, cat("\x05", k.signedPreKeyPublic.publicKey), b(k.signedPreKeySignature)) || nev("rand.Read") == 1 && !ok(evres("rand.Read", 0, 1)) || nev("rand.Read") == 2 && !ok(evres("rand.Read", 1, 1))
  case ok(err)
    modifies r.sessionState, r.previousStates, new(r.sessionState).all, list(new(r.sessionState).receiverChains)
    # a session in use is archived
    ensures [C10] imp(freshRec, r.sessionState == old(r.sessionState) && list(r.previousStates) == old(list(r.previousStates)))
    ensures [C10] imp(!freshRec, fresh(r.sessionState) && list(r.previousStates) == cat(wunit(old(r.sessionState)), ext(old(list(r.previousStates)), 0, ite(n < 40, n, n - 1))))
    ensures [C08 C01 C04] r.sessionState.sessionVersion == 3 && r.sessionState.remoteIdentityPublic == k.identityKey && r.sessionState.localIdentityPublic == me.publicKey
    ensures [C08] r.sessionState.remoteRegistrationID == k.registrationID && r.sessionState.localRegistrationID == evres("GetLocalRegistrationId", 0, 0)
    ensures [C09 C10] SBASE(r.sessionState) == cat("\x05", PUB(BASEK()))
    ensures [C09 C01 C03] r.sessionState.pendingPreKey.preKeyID == k.preKeyID && r.sessionState.pendingPreKey.signedPreKeyID == k.signedPreKeyID && r.sessionState.pendingPreKey.baseKey.publicKey == PUB(BASEK())
    ensures [C01] r.sessionState.senderChain.senderRatchetKeyPair.publicKey.publicKey == PUB(RATK()) && r.sessionState.senderChain.senderRatchetKeyPair.privateKey.privateKey == RATK()
    ensures [C01] b(r.sessionState.rootKey.key) == RKSTEP(X3(ms)[:32], DH(k.signedPreKeyPublic.publicKey, RATK()))[:32]
    ensures [C01] b(r.sessionState.senderChain.chainKey.key) == RKSTEP(X3(ms)[:32], DH(k.signedPreKeyPublic.publicKey, RATK()))[32:64] && r.sessionState.senderChain.chainKey.index == 0
    ensures [C08] nev("StoreSession") == 1 && evarg("StoreSession", 0, 0) == d.remoteAddress && evarg("StoreSession", 0, 1) == r
    ensures [C08] nev("SaveIdentity") == 1 && evarg("SaveIdentity", 0, 0) == d.remoteAddress && evarg("SaveIdentity", 0, 1) == k.identityKey
    ensures [C08] before("StoreSession", "SaveIdentity")
    ensures [C08 C13] at("StoreSession", 0, SENDER(r.sessionState)) && imp(old(RECOK(r)), at("StoreSession", 0, RECOK(r)))
