# Persisted forms and back.
inv record.PreKey.keyPair nonnil
inv record.PreKey.serializer nonnil
inv record.SignedPreKey.keyPair nonnil
inv record.SignedPreKey.serializer nonnil

func record.NewPreKey(id, kp, se) (r)
  labels C11 C23
  requires kp.privateKey != nil
  modifies nothing
  fresh r, r.structure.PublicKey, r.structure.PrivateKey
  ensures r.structure.ID == id && r.keyPair == kp && r.serializer == se
  ensures b(r.structure.PublicKey) == cat("\x05", kp.publicKey.publicKey)
  ensures b(r.structure.PrivateKey) == kp.privateKey.privateKey

func record.NewPreKeyFromStruct(st, se) (r, err)
  labels C11
  modifies nothing
  case POINTOK(b(st.PublicKey)) && len(st.PrivateKey) >= 32
    ensures ok(err)
    fresh r, r.keyPair, r.keyPair.publicKey, r.keyPair.privateKey
    ensures r.structure.ID == st.ID && r.structure.PublicKey == st.PublicKey && r.structure.PrivateKey == st.PrivateKey
    ensures r.serializer == se
    ensures r.keyPair.publicKey.publicKey == b(st.PublicKey)[1:33]
    ensures r.keyPair.privateKey.privateKey == b(st.PrivateKey)[:32]
  case !POINTOK(b(st.PublicKey))
    ensures !ok(err)
    ensures r == nil

func record.(*PreKey).Serialize(p) (r)
  labels C11
  emits record.PreKeySerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(p.serializer, p.structure.ID, p.structure.PublicKey, p.structure.PrivateKey)

func record.NewSignedPreKey(id, ts, kp, sig, se) (r)
  labels C11 C23
  requires kp.privateKey != nil
  modifies nothing
  fresh r, r.structure.PublicKey, r.structure.PrivateKey, r.structure.Signature
  ensures r.structure.ID == id && r.structure.Timestamp == ts && r.keyPair == kp && r.serializer == se
  ensures b(r.structure.PublicKey) == cat("\x05", kp.publicKey.publicKey)
  ensures b(r.structure.PrivateKey) == kp.privateKey.privateKey
  ensures b(r.structure.Signature) == sig && r.signature == sig

func record.NewSignedPreKeyFromStruct(st, se) (r, err)
  labels C11
  modifies nothing
  case POINTOK(b(st.PublicKey)) && len(st.PrivateKey) >= 32 && len(st.Signature) == 64
    ensures ok(err)
    fresh r, r.keyPair, r.keyPair.publicKey, r.keyPair.privateKey
    ensures r.structure.ID == st.ID && r.structure.PublicKey == st.PublicKey && r.structure.PrivateKey == st.PrivateKey && r.structure.Signature == st.Signature && r.structure.Timestamp == st.Timestamp
    ensures r.serializer == se && r.signature == b(st.Signature)
    ensures r.keyPair.publicKey.publicKey == b(st.PublicKey)[1:33]
    ensures r.keyPair.privateKey.privateKey == b(st.PrivateKey)[:32]
  case !POINTOK(b(st.PublicKey))
    ensures !ok(err)
    ensures r == nil

func record.(*SignedPreKey).Serialize(p) (r)
  labels C11
  emits record.SignedPreKeySerializer.Serialize
  modifies nothing
  fresh r
  ensures b(r) == ser(p.serializer, p.structure.ID, p.structure.PublicKey, p.structure.PrivateKey, p.structure.Signature, p.structure.Timestamp)

func record.(*PendingPreKey).structure(p) (r)
  inline
  nilable p
  labels C11
  modifies nothing
  ensures iff(r == nil, p == nil)
  ensures imp(p != nil, r.PreKeyID == p.preKeyID && r.SignedPreKeyID == p.signedPreKeyID && b(r.BaseKey) == cat("\x05", p.baseKey.publicKey))

func record.NewPendingPreKeyFromStruct(st) (r, err)
  inline
  labels C11
  modifies nothing
  case POINTOK(b(st.BaseKey))
    ensures ok(err)
    fresh r, r.baseKey
    ensures r.preKeyID == st.PreKeyID && r.signedPreKeyID == st.SignedPreKeyID && r.baseKey.publicKey == b(st.BaseKey)[1:33]
  case !POINTOK(b(st.BaseKey))
    ensures !ok(err)

def KSAME(st, k) = st.CipherKey == k.cipherKey && st.MacKey == k.macKey && st.IV == k.iv && st.Index == k.index
# a chain and its persisted form
def CSAME(st, c) = b(st.SenderRatchetKeyPublic) == cat("\x05", RKEYOF(c)) && iff(c.senderRatchetKeyPair.privateKey == nil, st.SenderRatchetKeyPrivate == nil) && len(st.SenderRatchetKeyPublic) == 33 && len(st.SenderRatchetKeyPrivate) == ite(c.senderRatchetKeyPair.privateKey == nil, 0, 32) && imp(c.senderRatchetKeyPair.privateKey != nil, b(st.SenderRatchetKeyPrivate) == c.senderRatchetKeyPair.privateKey.privateKey) && st.ChainKey != nil && st.ChainKey.Key == c.chainKey.key && st.ChainKey.Index == c.chainKey.index && len(st.MessageKeys) == len(c.messageKeys) && forall(i, 0, len(c.messageKeys), KSAME(nth(list(st.MessageKeys), i), nth(list(c.messageKeys), i)))

func record.(*Chain).structure(c) (r)
  labels C11
  modifies nothing
  fresh r
  ensures CSAME(r, c)

def PKXOK(s) = imp(s.pendingKeyExchange != nil, s.pendingKeyExchange.localBaseKeyPair != nil && s.pendingKeyExchange.localRatchetKeyPair != nil && s.pendingKeyExchange.localIdentityKeyPair != nil && s.pendingKeyExchange.localBaseKeyPair.privateKey != nil && s.pendingKeyExchange.localRatchetKeyPair.privateKey != nil && s.pendingKeyExchange.localIdentityKeyPair.privateKey != nil)
def PKXSAME(r, p) = r.Sequence == p.sequence && b(r.LocalBaseKeyPublic) == p.localBaseKeyPair.publicKey.publicKey && b(r.LocalBaseKeyPrivate) == p.localBaseKeyPair.privateKey.privateKey && b(r.LocalRatchetKeyPublic) == p.localRatchetKeyPair.publicKey.publicKey && b(r.LocalRatchetKeyPrivate) == p.localRatchetKeyPair.privateKey.privateKey && b(r.LocalIdentityKeyPublic) == p.localIdentityKeyPair.publicKey.publicKey.publicKey && b(r.LocalIdentityKeyPrivate) == p.localIdentityKeyPair.privateKey.privateKey
# a session state and its persisted form
def SSAME(r, s) = r.LocalRegistrationID == s.localRegistrationID && r.RemoteRegistrationID == s.remoteRegistrationID && r.NeedsRefresh == s.needsRefresh && r.PreviousCounter == s.previousCounter && r.SessionVersion == s.sessionVersion && iff(r.PendingKeyExchange == nil, s.pendingKeyExchange == nil) && imp(s.pendingKeyExchange != nil, PKXSAME(r.PendingKeyExchange, s.pendingKeyExchange)) && iff(r.PendingPreKey == nil, s.pendingPreKey == nil) && imp(s.pendingPreKey != nil, r.PendingPreKey.PreKeyID == s.pendingPreKey.preKeyID && r.PendingPreKey.SignedPreKeyID == s.pendingPreKey.signedPreKeyID && b(r.PendingPreKey.BaseKey) == cat("\x05", s.pendingPreKey.baseKey.publicKey)) && iff(r.SenderBaseKey == nil, s.senderBaseKey == nil) && imp(s.senderBaseKey != nil, b(r.SenderBaseKey) == cat("\x05", s.senderBaseKey.publicKey)) && iff(r.LocalIdentityPublic == nil, s.localIdentityPublic == nil) && imp(s.localIdentityPublic != nil, b(r.LocalIdentityPublic) == cat("\x05", s.localIdentityPublic.publicKey.publicKey)) && iff(r.RemoteIdentityPublic == nil, s.remoteIdentityPublic == nil) && imp(s.remoteIdentityPublic != nil, b(r.RemoteIdentityPublic) == cat("\x05", s.remoteIdentityPublic.publicKey.publicKey)) && iff(r.RootKey == nil, s.rootKey == nil || s.rootKey.key == nil) && imp(s.rootKey != nil, r.RootKey == s.rootKey.key) && iff(r.SenderChain == nil, s.senderChain == nil) && imp(s.senderChain != nil, CSAME(r.SenderChain, s.senderChain)) && len(r.ReceiverChains) == len(s.receiverChains) && forall(i, 0, len(s.receiverChains), CSAME(nth(list(r.ReceiverChains), i), nth(list(s.receiverChains), i)))

func record.(*State).structure(s) (r)
  labels C11
  requires PKXOK(s)
  modifies nothing
  fresh r
  ensures r.LocalRegistrationID == s.localRegistrationID && r.RemoteRegistrationID == s.remoteRegistrationID && r.NeedsRefresh == s.needsRefresh
  ensures r.PreviousCounter == s.previousCounter && r.SessionVersion == s.sessionVersion
  ensures iff(r.PendingKeyExchange == nil, s.pendingKeyExchange == nil) && imp(s.pendingKeyExchange != nil, PKXSAME(r.PendingKeyExchange, s.pendingKeyExchange))
  ensures iff(r.PendingPreKey == nil, s.pendingPreKey == nil) && imp(s.pendingPreKey != nil, r.PendingPreKey.PreKeyID == s.pendingPreKey.preKeyID && r.PendingPreKey.SignedPreKeyID == s.pendingPreKey.signedPreKeyID && b(r.PendingPreKey.BaseKey) == cat("\x05", s.pendingPreKey.baseKey.publicKey))
  ensures iff(r.SenderBaseKey == nil, s.senderBaseKey == nil) && imp(s.senderBaseKey != nil, b(r.SenderBaseKey) == cat("\x05", s.senderBaseKey.publicKey))
  ensures iff(r.LocalIdentityPublic == nil, s.localIdentityPublic == nil) && imp(s.localIdentityPublic != nil, b(r.LocalIdentityPublic) == cat("\x05", s.localIdentityPublic.publicKey.publicKey))
  ensures iff(r.RemoteIdentityPublic == nil, s.remoteIdentityPublic == nil) && imp(s.remoteIdentityPublic != nil, b(r.RemoteIdentityPublic) == cat("\x05", s.remoteIdentityPublic.publicKey.publicKey))
  ensures iff(r.RootKey == nil, s.rootKey == nil || s.rootKey.key == nil) && imp(s.rootKey != nil, r.RootKey == s.rootKey.key)
  ensures iff(r.SenderChain == nil, s.senderChain == nil) && imp(s.senderChain != nil, CSAME(r.SenderChain, s.senderChain))
  ensures len(r.ReceiverChains) == len(s.receiverChains)
  ensures forall(i, 0, len(s.receiverChains), CSAME(nth(list(r.ReceiverChains), i), nth(list(s.receiverChains), i)))

# the chain a persisted chain stands for
def CREST(c, st) = RKEYOF(c) == b(st.SenderRatchetKeyPublic)[1:33] && imp(len(st.SenderRatchetKeyPublic) == 33, b(st.SenderRatchetKeyPublic) == cat("\x05", RKEYOF(c))) && iff(c.senderRatchetKeyPair.privateKey != nil, len(st.SenderRatchetKeyPrivate) == 32) && imp(len(st.SenderRatchetKeyPrivate) == 32, c.senderRatchetKeyPair.privateKey.privateKey == b(st.SenderRatchetKeyPrivate)) && c.chainKey.key == st.ChainKey.Key && c.chainKey.index == st.ChainKey.Index && len(c.messageKeys) == len(st.MessageKeys) && forall(i, 0, len(st.MessageKeys), KSAME(nth(list(st.MessageKeys), i), nth(list(c.messageKeys), i)))
inv record.ChainStructure.ChainKey nonnil

func errorhelper.NewMultiError() (r)
  labels C13
  modifies nothing
  fresh r
  ensures len(r.errors) == 0

func errorhelper.(*MultiError).Add(m, err)
  nilable err
  labels C13
  case err == nil
    modifies nothing
  case err != nil
    modifies m.errors
    ensures len(m.errors) == old(len(m.errors)) + 1

func errorhelper.(*MultiError).HasErrors(m) (r)
  labels C13
  modifies nothing
  ensures iff(r, len(m.errors) > 0)

def STOK(st) = imp(st.LocalIdentityPublic != nil, POINTOK(b(st.LocalIdentityPublic))) && imp(st.RemoteIdentityPublic != nil, POINTOK(b(st.RemoteIdentityPublic))) && imp(st.SenderBaseKey != nil, POINTOK(b(st.SenderBaseKey))) && imp(st.PendingPreKey != nil, POINTOK(b(st.PendingPreKey.BaseKey))) && imp(st.SenderChain != nil, POINTOK(b(st.SenderChain.SenderRatchetKeyPublic)))
def RCOK(st, i) = POINTOK(b(nth(list(st.ReceiverChains), i).SenderRatchetKeyPublic))
def PKXLEN(st) = len(st.LocalBaseKeyPublic) == 32 && len(st.LocalBaseKeyPrivate) == 32 && len(st.LocalRatchetKeyPublic) == 32 && len(st.LocalRatchetKeyPrivate) == 32 && len(st.LocalIdentityKeyPublic) == 32 && len(st.LocalIdentityKeyPrivate) == 32
# the session state a persisted session state stands for
def SREST(r, st) = r.localRegistrationID == st.LocalRegistrationID && r.remoteRegistrationID == st.RemoteRegistrationID && r.needsRefresh == st.NeedsRefresh && r.previousCounter == st.PreviousCounter && r.sessionVersion == st.SessionVersion && iff(r.pendingKeyExchange == nil, st.PendingKeyExchange == nil) && imp(st.PendingKeyExchange != nil && PKXLEN(st.PendingKeyExchange), PKXSAME(st.PendingKeyExchange, r.pendingKeyExchange)) && iff(r.pendingPreKey == nil, st.PendingPreKey == nil) && imp(st.PendingPreKey != nil, r.pendingPreKey.preKeyID == st.PendingPreKey.PreKeyID && r.pendingPreKey.signedPreKeyID == st.PendingPreKey.SignedPreKeyID && r.pendingPreKey.baseKey.publicKey == b(st.PendingPreKey.BaseKey)[1:33]) && iff(r.senderBaseKey == nil, st.SenderBaseKey == nil) && imp(st.SenderBaseKey != nil, r.senderBaseKey.publicKey == b(st.SenderBaseKey)[1:33]) && iff(r.localIdentityPublic == nil, st.LocalIdentityPublic == nil) && imp(st.LocalIdentityPublic != nil, r.localIdentityPublic.publicKey.publicKey == b(st.LocalIdentityPublic)[1:33]) && iff(r.remoteIdentityPublic == nil, st.RemoteIdentityPublic == nil) && imp(st.RemoteIdentityPublic != nil, r.remoteIdentityPublic.publicKey.publicKey == b(st.RemoteIdentityPublic)[1:33]) && iff(r.rootKey == nil, st.RootKey == nil) && imp(st.RootKey != nil, r.rootKey.key == st.RootKey) && iff(r.senderChain == nil, st.SenderChain == nil) && imp(st.SenderChain != nil, CREST(r.senderChain, st.SenderChain)) && len(r.receiverChains) == len(st.ReceiverChains) && forall(i, 0, len(st.ReceiverChains), CREST(nth(list(r.receiverChains), i), nth(list(st.ReceiverChains), i)))
def STGOOD(st) = STOK(st) && forall(i, 0, len(st.ReceiverChains), RCOK(st, i))

func record.NewStateFromStructure(st, se) (r, err)
  merge
  labels C11
  modifies nothing
  loopvar errors *errorhelper.MultiError
  loopinv iff(len(errors.errors) == 0, STOK(st) && forall(i, 0, K, RCOK(st, i)))
  ensures iff(ok(err), STGOOD(st))
  case ok(err)
    fresh r
    ensures r.serializer == se
    ensures r.localRegistrationID == st.LocalRegistrationID && r.remoteRegistrationID == st.RemoteRegistrationID && r.needsRefresh == st.NeedsRefresh
    ensures r.previousCounter == st.PreviousCounter && r.sessionVersion == st.SessionVersion
    ensures iff(r.pendingKeyExchange == nil, st.PendingKeyExchange == nil) && imp(st.PendingKeyExchange != nil && PKXLEN(st.PendingKeyExchange), PKXSAME(st.PendingKeyExchange, r.pendingKeyExchange))
    ensures iff(r.pendingPreKey == nil, st.PendingPreKey == nil) && imp(st.PendingPreKey != nil, r.pendingPreKey.preKeyID == st.PendingPreKey.PreKeyID && r.pendingPreKey.signedPreKeyID == st.PendingPreKey.SignedPreKeyID && r.pendingPreKey.baseKey.publicKey == b(st.PendingPreKey.BaseKey)[1:33])
    ensures iff(r.senderBaseKey == nil, st.SenderBaseKey == nil) && imp(st.SenderBaseKey != nil, r.senderBaseKey.publicKey == b(st.SenderBaseKey)[1:33])
    ensures iff(r.localIdentityPublic == nil, st.LocalIdentityPublic == nil) && imp(st.LocalIdentityPublic != nil, r.localIdentityPublic.publicKey.publicKey == b(st.LocalIdentityPublic)[1:33])
    ensures iff(r.remoteIdentityPublic == nil, st.RemoteIdentityPublic == nil) && imp(st.RemoteIdentityPublic != nil, r.remoteIdentityPublic.publicKey.publicKey == b(st.RemoteIdentityPublic)[1:33])
    ensures iff(r.rootKey == nil, st.RootKey == nil) && imp(st.RootKey != nil, r.rootKey.key == st.RootKey)
    ensures iff(r.senderChain == nil, st.SenderChain == nil) && imp(st.SenderChain != nil, CREST(r.senderChain, st.SenderChain))
    ensures len(r.receiverChains) == len(st.ReceiverChains)
    ensures forall(i, 0, len(st.ReceiverChains), CREST(nth(list(r.receiverChains), i), nth(list(st.ReceiverChains), i)))
  case !ok(err)
    ensures r == nil

func record.NewChainFromStructure(st) (r, err)
  labels C11
  modifies nothing
  case POINTOK(b(st.SenderRatchetKeyPublic))
    ensures ok(err)
    fresh r, r.senderRatchetKeyPair, r.chainKey, r.senderRatchetKeyPair.publicKey
    ensures CREST(r, st)
  case !POINTOK(b(st.SenderRatchetKeyPublic))
    ensures !ok(err)
    ensures r == nil

func record.(*PendingKeyExchange).structure(p) (r)
  inline
  labels C11
  requires p.localBaseKeyPair != nil && p.localRatchetKeyPair != nil && p.localIdentityKeyPair != nil
  requires p.localBaseKeyPair.privateKey != nil && p.localRatchetKeyPair.privateKey != nil && p.localIdentityKeyPair.privateKey != nil
  modifies nothing
  fresh r
  ensures r.Sequence == p.sequence
  ensures b(r.LocalBaseKeyPublic) == p.localBaseKeyPair.publicKey.publicKey && b(r.LocalBaseKeyPrivate) == p.localBaseKeyPair.privateKey.privateKey
  ensures b(r.LocalRatchetKeyPublic) == p.localRatchetKeyPair.publicKey.publicKey && b(r.LocalRatchetKeyPrivate) == p.localRatchetKeyPair.privateKey.privateKey
  ensures b(r.LocalIdentityKeyPublic) == p.localIdentityKeyPair.publicKey.publicKey.publicKey && b(r.LocalIdentityKeyPrivate) == p.localIdentityKeyPair.privateKey.privateKey

func record.NewPendingKeyExchangeFromStruct(st) (r)
  inline
  nilable st
  labels C11
  modifies nothing
  ensures iff(r == nil, st == nil)
  ensures imp(st != nil && len(st.LocalBaseKeyPublic) == 32 && len(st.LocalBaseKeyPrivate) == 32 && len(st.LocalRatchetKeyPublic) == 32 && len(st.LocalRatchetKeyPrivate) == 32 && len(st.LocalIdentityKeyPublic) == 32 && len(st.LocalIdentityKeyPrivate) == 32, r.sequence == st.Sequence && r.localBaseKeyPair.publicKey.publicKey == b(st.LocalBaseKeyPublic) && r.localBaseKeyPair.privateKey.privateKey == b(st.LocalBaseKeyPrivate) && r.localRatchetKeyPair.publicKey.publicKey == b(st.LocalRatchetKeyPublic) && r.localRatchetKeyPair.privateKey.privateKey == b(st.LocalRatchetKeyPrivate) && r.localIdentityKeyPair.publicKey.publicKey.publicKey == b(st.LocalIdentityKeyPublic) && r.localIdentityKeyPair.privateKey.privateKey == b(st.LocalIdentityKeyPrivate))

func record.(*Session).structure(r) (x)
  labels C11
  requires PKXOK(r.sessionState) && forall(k, 0, len(r.previousStates), PKXOK(nth(list(r.previousStates), k)))
  modifies nothing
  fresh x, x.SessionState
  ensures SSAME(x.SessionState, r.sessionState)
  ensures len(x.PreviousStates) == len(r.previousStates)
  ensures forall(k, 0, len(r.previousStates), SSAME(nth(list(x.PreviousStates), k), nth(list(r.previousStates), k)))

func record.(*Session).Serialize(r) (x)
  labels C11
  requires PKXOK(r.sessionState) && forall(k, 0, len(r.previousStates), PKXOK(nth(list(r.previousStates), k)))
  emits record.SessionSerializer.Serialize
  modifies nothing
  ensures nev("Serialize") == 1 && b(x) == b(evres("Serialize", 0, 0))
  ensures SSAME(evarg("Serialize", 0, 0).SessionState, r.sessionState)
  ensures len(evarg("Serialize", 0, 0).PreviousStates) == len(r.previousStates)
  ensures forall(k, 0, len(r.previousStates), SSAME(nth(list(evarg("Serialize", 0, 0).PreviousStates), k), nth(list(r.previousStates), k)))

func record.(*State).Serialize(s) (x)
  labels C11
  requires PKXOK(s) && s.serializer != nil
  emits record.StateSerializer.Serialize
  modifies nothing
  ensures nev("Serialize") == 1 && b(x) == b(evres("Serialize", 0, 0)) && SSAME(evarg("Serialize", 0, 0), s)

func record.NewStateFromBytes(q, se) (r, err)
  labels C11
  emits record.StateSerializer.Deserialize
  modifies nothing
  let st = evres("Deserialize", 0, 0)
  ensures nev("Deserialize") == 1 && b(evarg("Deserialize", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("Deserialize", 0, 1)) && STGOOD(st))
  case ok(err)
    fresh r
    ensures SREST(r, st) && r.serializer == se
  case !ok(err)
    ensures r == nil

func record.NewSessionFromBytes(q, se, sse) (r, err)
  labels C11
  emits record.SessionSerializer.Deserialize
  given record.SessionSerializer.Deserialize res.SessionState != nil
  modifies nothing
  let x = evres("Deserialize", 0, 0)
  ensures nev("Deserialize") == 1 && b(evarg("Deserialize", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("Deserialize", 0, 1)) && STGOOD(x.SessionState) && forall(k, 0, len(x.PreviousStates), STGOOD(nth(list(x.PreviousStates), k))))
  case ok(err)
    fresh r
    ensures SREST(r.sessionState, x.SessionState) && r.serializer == se && !r.fresh
    ensures len(r.previousStates) == len(x.PreviousStates)
    ensures forall(k, 0, len(x.PreviousStates), SREST(nth(list(r.previousStates), k), nth(list(x.PreviousStates), k)))
  case !ok(err)
    ensures r == nil

func record.NewSessionFromStructure(x, se, sse) (r, err)
  labels C11
  requires x.SessionState != nil
  modifies nothing
  ensures iff(ok(err), STGOOD(x.SessionState) && forall(k, 0, len(x.PreviousStates), STGOOD(nth(list(x.PreviousStates), k))))
  case ok(err)
    fresh r
    ensures SREST(r.sessionState, x.SessionState) && r.serializer == se && !r.fresh
    ensures len(r.previousStates) == len(x.PreviousStates)
    ensures forall(k, 0, len(x.PreviousStates), SREST(nth(list(r.previousStates), k), nth(list(x.PreviousStates), k)))
  case !ok(err)
    ensures r == nil
