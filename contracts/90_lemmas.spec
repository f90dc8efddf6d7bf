# Lemmas: properties of several functions together, proved from their contracts.
func serialize.zzLemmaSignal(m, mac) (r, err)
  labels C12
  modifies nothing
  ensures ok(err)
  ensures r.Version == 3 && r.Counter == m.Counter && r.PreviousCounter == m.PreviousCounter
  ensures b(r.RatchetKey) == b(m.RatchetKey) && b(r.CipherText) == b(m.CipherText) && b(r.Mac) == b(mac)
  ensures iff(r.RatchetKey != nil, m.RatchetKey != nil) && iff(r.CipherText != nil, m.CipherText != nil)

func serialize.zzLemmaPreKey(m) (r, err)
  labels C12
  modifies nothing
  ensures ok(err)
  ensures r.Version == 3 && r.RegistrationID == m.RegistrationID && r.SignedPreKeyID == m.SignedPreKeyID
  ensures imp(m.PreKeyID != nil && !m.PreKeyID.IsEmpty, !r.PreKeyID.IsEmpty && r.PreKeyID.Value == m.PreKeyID.Value)
  ensures imp(m.PreKeyID == nil || m.PreKeyID.IsEmpty, r.PreKeyID.IsEmpty)
  ensures b(r.BaseKey) == b(m.BaseKey) && b(r.IdentityKey) == b(m.IdentityKey) && b(r.Message) == b(m.Message)
  ensures iff(r.BaseKey != nil, m.BaseKey != nil) && iff(r.IdentityKey != nil, m.IdentityKey != nil) && iff(r.Message != nil, m.Message != nil)

func serialize.zzLemmaSenderKey(m, sig) (r, err)
  labels C12 C14
  modifies nothing
  ensures ok(err)
  ensures r.Version == 3 && r.ID == m.ID && r.Iteration == m.Iteration
  ensures b(r.CipherText) == b(m.CipherText) && b(r.Signature) == b(sig)
  ensures iff(r.CipherText != nil, m.CipherText != nil)

func serialize.zzLemmaDistribution(m) (r, err)
  labels C12 C16
  modifies nothing
  ensures ok(err)
  ensures r.Version == 3 && r.ID == m.ID && r.Iteration == m.Iteration
  ensures b(r.ChainKey) == b(m.ChainKey) && b(r.SigningKey) == b(m.SigningKey)
  ensures iff(r.ChainKey != nil, m.ChainKey != nil) && iff(r.SigningKey != nil, m.SigningKey != nil)

func ratchet.zzPair(priv) (r)
  inline
  labels C01

func ratchet.zzIdentity(priv) (r)
  inline
  labels C01

func ratchet.zzLemmaX3DH(aid, abase, bid, bspk, bopk, one) (x, y)
  labels C01
  modifies nothing
  ensures b(x.RootKey.key) == b(y.RootKey.key)
  ensures b(x.ChainKey.key) == b(y.ChainKey.key)
  ensures x.ChainKey.index == y.ChainKey.index

func ratchet.zzLemmaSymmetric(aid, abase, bid, bbase) (x, y)
  labels C22
  requires PUB(abase) != PUB(bbase)
  modifies nothing
  ensures b(x.RootKey.key) == b(y.RootKey.key)
  ensures b(x.ChainKey.key) == b(y.ChainKey.key)
  ensures x.ChainKey.index == y.ChainKey.index

func root.zzPair(priv) (r)
  inline
  labels C02

func root.zzLemmaRatchetStep(k, ours, theirs) (x, y)
  labels C02
  modifies nothing
  ensures b(x.RootKey.key) == b(y.RootKey.key)
  ensures b(x.ChainKey.key) == b(y.ChainKey.key)
  ensures x.ChainKey.index == y.ChainKey.index

func protocol.zzLemmaMac(v, counter, prev, macKey, rk, ct, sender, receiver, se) (err)
  labels C03 C04
  emits protocol.SignalMessageSerializer.Serialize
  modifies nothing
  ensures iff(ok(err), VOK(v) && ct != nil)

func cipher.zzLemmaRoundTrip(iv, key, plain) (r, err)
  labels C07
  modifies nothing
  ensures iff(ok(err), KEYLEN(len(key)) && len(iv) == 16)
  ensures imp(ok(err), b(r) == b(plain))

def KBACK(x, y) = x.cipherKey == y.cipherKey && x.macKey == y.macKey && x.iv == y.iv && x.index == y.index
def CBACK(c, d) = RKEYOF(c) == RKEYOF(d) && iff(c.senderRatchetKeyPair.privateKey != nil, d.senderRatchetKeyPair.privateKey != nil) && imp(c.senderRatchetKeyPair.privateKey != nil, c.senderRatchetKeyPair.privateKey.privateKey == d.senderRatchetKeyPair.privateKey.privateKey) && c.chainKey.key == d.chainKey.key && c.chainKey.index == d.chainKey.index && len(c.messageKeys) == len(d.messageKeys) && forall(q, 0, len(c.messageKeys), KBACK(nth(list(c.messageKeys), q), nth(list(d.messageKeys), q)))

func record.zzLemmaState(s, se) (r, err)
  labels C11
  requires PKXOK(s)
  modifies nothing
  ensures ok(err)
  ensures r.localRegistrationID == s.localRegistrationID && r.remoteRegistrationID == s.remoteRegistrationID && r.needsRefresh == s.needsRefresh
  ensures r.previousCounter == s.previousCounter && r.sessionVersion == s.sessionVersion
  ensures iff(r.pendingKeyExchange == nil, s.pendingKeyExchange == nil)
  ensures iff(r.pendingPreKey == nil, s.pendingPreKey == nil) && imp(s.pendingPreKey != nil, r.pendingPreKey.preKeyID == s.pendingPreKey.preKeyID && r.pendingPreKey.signedPreKeyID == s.pendingPreKey.signedPreKeyID && r.pendingPreKey.baseKey.publicKey == s.pendingPreKey.baseKey.publicKey)
  ensures iff(r.senderBaseKey == nil, s.senderBaseKey == nil) && imp(s.senderBaseKey != nil, r.senderBaseKey.publicKey == s.senderBaseKey.publicKey)
  ensures iff(r.localIdentityPublic == nil, s.localIdentityPublic == nil) && imp(s.localIdentityPublic != nil, r.localIdentityPublic.publicKey.publicKey == s.localIdentityPublic.publicKey.publicKey)
  ensures iff(r.remoteIdentityPublic == nil, s.remoteIdentityPublic == nil) && imp(s.remoteIdentityPublic != nil, r.remoteIdentityPublic.publicKey.publicKey == s.remoteIdentityPublic.publicKey.publicKey)
  ensures imp(s.rootKey != nil && s.rootKey.key != nil, r.rootKey != nil && r.rootKey.key == s.rootKey.key)
  ensures iff(r.senderChain == nil, s.senderChain == nil) && imp(s.senderChain != nil, CBACK(r.senderChain, s.senderChain))
  ensures len(r.receiverChains) == len(s.receiverChains)
  ensures forall(i, 0, len(s.receiverChains), CBACK(nth(list(r.receiverChains), i), nth(list(s.receiverChains), i)))

func record.zzLemmaStructure(s) (st)
  labels C11
  requires PKXOK(s)
  modifies nothing
  fresh st
  ensures SSAME(st, s)
  ensures STOK(st)
  ensures forall(i, 0, len(st.ReceiverChains), RCOK(st, i))

def SBACK(r, s) = r.localRegistrationID == s.localRegistrationID && r.remoteRegistrationID == s.remoteRegistrationID && r.needsRefresh == s.needsRefresh && r.previousCounter == s.previousCounter && r.sessionVersion == s.sessionVersion && iff(r.pendingKeyExchange == nil, s.pendingKeyExchange == nil) && iff(r.pendingPreKey == nil, s.pendingPreKey == nil) && imp(s.pendingPreKey != nil, r.pendingPreKey.preKeyID == s.pendingPreKey.preKeyID && r.pendingPreKey.signedPreKeyID == s.pendingPreKey.signedPreKeyID && r.pendingPreKey.baseKey.publicKey == s.pendingPreKey.baseKey.publicKey) && iff(r.senderBaseKey == nil, s.senderBaseKey == nil) && imp(s.senderBaseKey != nil, r.senderBaseKey.publicKey == s.senderBaseKey.publicKey) && iff(r.localIdentityPublic == nil, s.localIdentityPublic == nil) && imp(s.localIdentityPublic != nil, r.localIdentityPublic.publicKey.publicKey == s.localIdentityPublic.publicKey.publicKey) && iff(r.remoteIdentityPublic == nil, s.remoteIdentityPublic == nil) && imp(s.remoteIdentityPublic != nil, r.remoteIdentityPublic.publicKey.publicKey == s.remoteIdentityPublic.publicKey.publicKey) && imp(s.rootKey != nil && s.rootKey.key != nil, r.rootKey != nil && r.rootKey.key == s.rootKey.key) && iff(r.senderChain == nil, s.senderChain == nil) && imp(s.senderChain != nil, CBACK(r.senderChain, s.senderChain)) && len(r.receiverChains) == len(s.receiverChains)

func record.zzLemmaSessionStructure(r) (x)
  labels C11
  requires PKXOK(r.sessionState) && forall(k, 0, len(r.previousStates), PKXOK(nth(list(r.previousStates), k)))
  modifies nothing
  fresh x, x.SessionState
  ensures SSAME(x.SessionState, r.sessionState)
  ensures len(x.PreviousStates) == len(r.previousStates)
  ensures forall(k, 0, len(r.previousStates), SSAME(nth(list(x.PreviousStates), k), nth(list(r.previousStates), k)))
  ensures STOK(x.SessionState)
  ensures forall(i, 0, len(x.SessionState.ReceiverChains), RCOK(x.SessionState, i))
  ensures forall(k, 0, len(x.PreviousStates), STOK(nth(list(x.PreviousStates), k)))
  ensures forall(k, 0, len(x.PreviousStates), STGOOD(nth(list(x.PreviousStates), k)))

func record.zzLemmaSession(r, se, sse) (x, err)
  labels C11
  requires PKXOK(r.sessionState) && forall(k, 0, len(r.previousStates), PKXOK(nth(list(r.previousStates), k)))
  modifies nothing
  ensures ok(err)
  ensures len(x.previousStates) == len(r.previousStates)
  ensures SBACK(x.sessionState, r.sessionState)
  ensures forall(i, 0, len(r.sessionState.receiverChains), CBACK(nth(list(x.sessionState.receiverChains), i), nth(list(r.sessionState.receiverChains), i)))
  ensures forall(k, 0, len(r.previousStates), SBACK(nth(list(x.previousStates), k), nth(list(r.previousStates), k)))
  ensures forall(k, 0, len(r.previousStates), forall(i, 0, len(nth(list(r.previousStates), k).receiverChains), CBACK(nth(list(nth(list(x.previousStates), k).receiverChains), i), nth(list(nth(list(r.previousStates), k).receiverChains), i))))

func session.zzLemmaUsed(s, e, n) (err)
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains) && n < 4294967295 && WELL(CH(s, e))
  modifies CH(s, e).messageKeys, list(CH(s, e).messageKeys), CH(s, e).chainKey
  let c = old(CH(s, e))
  ensures WELL(c)
  ensures imp(ok(err), n < c.chainKey.index)
  ensures imp(ok(err) && n < old(CH(s, e).chainKey.index), USED(c, n))
  ensures imp(ok(err) && n >= old(CH(s, e).chainKey.index), forall(j, 0, len(c.messageKeys), nth(list(c.messageKeys), j).index < n))
  ensures imp(ok(err) && n >= old(CH(s, e).chainKey.index), forall(j, 0, len(c.messageKeys), nth(list(c.messageKeys), j).index != n))

func session.zzLemmaStaysUsed(s, e, n, other) (err, again)
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains) && other < 4294967295 && USED(CH(s, e), n)
  modifies CH(s, e).messageKeys, list(CH(s, e).messageKeys), CH(s, e).chainKey
  let c = old(CH(s, e))
  ensures USED(c, n)
  ensures !ok(again)

func session.zzLemmaTwice(d, s, m) (err, again)
  labels C06
  emits protocol.SignalMessageSerializer.Serialize
  requires SROK(s) && m.structure.Counter < 4294967295
  requires imp(RCHAIN(s, m.senderRatchetKey) < len(s.receiverChains), WELL(CH(s, m.senderRatchetKey)))
  modifies s.all
  ensures !ok(err) || !ok(again)

func session.zzLemmaKeeps(d, s, other, e, n) (err)
  labels C06
  emits protocol.SignalMessageSerializer.Serialize
  requires SROK(s) && other.structure.Counter < 4294967295
  requires RCHAIN(s, e) < len(s.receiverChains) && USED(CH(s, e), n)
  requires imp(RCHAIN(s, other.senderRatchetKey) < len(s.receiverChains), WELL(CH(s, other.senderRatchetKey)))
  requires RCHAIN(s, other.senderRatchetKey) < len(s.receiverChains) || len(s.receiverChains) < 5 || RCHAIN(s, e) > 0
  modifies s.all
  ensures SROK(s) && RCHAIN(s, e) < len(s.receiverChains)
  let oe = other.senderRatchetKey
  let ro = old(RCHAIN(s, other.senderRatchetKey))
  let re = old(RCHAIN(s, e))
  let nch = old(len(s.receiverChains))
  let ci = old(CH(s, other.senderRatchetKey).chainKey.index)
  let oc = other.structure.Counter
  ensures imp(ro >= nch, RCHAIN(s, e) == re - ite(ok(err) && nch >= 5, 1, 0))
  ensures imp(ro < nch, RCHAIN(s, e) == re)
  let x = nth(list(s.receiverChains), old(RCHAIN(s, e)))
  let L = old(list(CH(s, e).messageKeys))
  ensures imp(ro < nch && ro != re, n < CH(s, e).chainKey.index)
  ensures imp(ro < nch && ro != re, len(CH(s, e).messageKeys) == len(L))
  ensures imp(ro < nch && ro != re, forall(j, 0, len(CH(s, e).messageKeys), nth(list(CH(s, e).messageKeys), j) == nth(L, j)))
  ensures imp(ro < nch && ro != re, forall(j, 0, len(L), nth(L, j).index != n))
  ensures imp(ro < nch && ro == re, n < CH(s, e).chainKey.index)
  ensures imp(ro < nch && ro == re && oc < ci, USED(CH(s, e), n))
  ensures imp(ro < nch && ro == re && oc >= ci, USED(CH(s, e), n))
  ensures USED(CH(s, e), n)

func session.zzLemmaReplay(d, s, m, other) (err)
  labels C06
  emits protocol.SignalMessageSerializer.Serialize
  requires SROK(s) && other.structure.Counter < 4294967295
  requires RCHAIN(s, m.senderRatchetKey) < len(s.receiverChains) && USED(CH(s, m.senderRatchetKey), m.structure.Counter)
  requires imp(RCHAIN(s, other.senderRatchetKey) < len(s.receiverChains), WELL(CH(s, other.senderRatchetKey)))
  requires RCHAIN(s, other.senderRatchetKey) < len(s.receiverChains) || len(s.receiverChains) < 5 || RCHAIN(s, m.senderRatchetKey) > 0
  modifies s.all
  ensures !ok(err)

func session.zzLemmaDeliver(a, b, s, plain) (m, p, err)
  expand session.(*Cipher).Encrypt
  labels C03 C04 C06
  emits store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.IdentityKey.SaveIdentity, store.Session.StoreSession, protocol.SignalMessageSerializer.Serialize
  given store.Session.LoadSession SENDER(res.sessionState)
  requires SROK(s)
  modifies s.all, evres("LoadSession", 0, 0).sessionState.senderChain.chainKey
  let A = evres("LoadSession", 0, 0).sessionState
  let e = old(A.senderChain.senderRatchetKeyPair.publicKey)
  let c = old(CH(s, A.senderChain.senderRatchetKeyPair.publicKey))
  let n = old(A.senderChain.chainKey.index)
  let ci = old(CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.index)
  let related = old(A.pendingPreKey == nil && VOK(A.sessionVersion) && A.sessionVersion == s.sessionVersion && s.senderChain != nil \
    && A.localIdentityPublic.publicKey.publicKey == s.remoteIdentityPublic.publicKey.publicKey && A.remoteIdentityPublic.publicKey.publicKey == s.localIdentityPublic.publicKey.publicKey \
    && RCHAIN(s, A.senderChain.senderRatchetKeyPair.publicKey) < len(s.receiverChains) \
    && forall(i, 0, len(s.receiverChains), nth(list(s.receiverChains), i) != A.senderChain))
  let chain = old(A.senderChain.chainKey.index >= CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.index && A.senderChain.chainKey.index - CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.index <= 5000 \
    && A.senderChain.chainKey.key == ITER(CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.key, A.senderChain.chainKey.index - CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.index))
  ensures imp(related && chain, m != nil)
  ensures imp(related && chain, RCHAIN(s, m.senderRatchetKey) < len(s.receiverChains))
  ensures imp(related && chain, b(m.structure.RatchetKey) == cat("\x05", e.publicKey))
  ensures imp(related && chain, POINTOK(b(m.structure.RatchetKey)))
  ensures imp(related && chain, m.structure.Counter == n && m.structure.CipherText != nil)
  ensures imp(related, QGOOD(MK(old(A.senderChain.chainKey.key)), m.structure.CipherText))
  ensures imp(related, CBCDEC(MK(old(A.senderChain.chainKey.key))[:32], MK(old(A.senderChain.chainKey.key))[64:80], m.structure.CipherText) == PADDED(b(plain)))
  ensures imp(related && chain, QGOOD(MK(ITER(old(CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.key), n - ci)), m.structure.CipherText))
  ensures imp(related && chain, b(m.structure.Mac) == SIGMAC(MK(ITER(old(CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.key), n - ci))[32:64], m.structure.Version, s.remoteIdentityPublic, s.localIdentityPublic, m.structure.Version, m.serializer, m.structure.RatchetKey, m.structure.Counter, m.structure.PreviousCounter, m.structure.CipherText))
  ensures imp(related && chain, ok(err))
  let q = MK(old(A.senderChain.chainKey.key))
  ensures imp(related && chain, CBCDEC(MK(ITER(old(CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.key), n - ci))[:32], MK(ITER(old(CH(s, A.senderChain.senderRatchetKeyPair.publicKey).chainKey.key), n - ci))[64:80], m.structure.CipherText) == PADDED(b(plain)))
  ensures imp(related && chain, b(p) == b(plain))

func session.zzLemmaDeliverNew(a, b, s, plain) (m, p, err)
  expand session.(*Cipher).Encrypt, session.(*Cipher).DecryptWithState, session.getOrCreateChainKey
  labels C02 C03 C06
  emits store.Session.LoadSession, store.IdentityKey.IsTrustedIdentity, store.IdentityKey.SaveIdentity, store.Session.StoreSession, protocol.SignalMessageSerializer.Serialize
  given store.Session.LoadSession SENDER(res.sessionState)
  requires SROK(s)
  modifies s.all, evres("LoadSession", 0, 0).sessionState.senderChain.chainKey
  let A = evres("LoadSession", 0, 0).sessionState
  let e = old(A.senderChain.senderRatchetKeyPair.publicKey)
  let n = old(A.senderChain.chainKey.index)
  # the same for the first messages of a new chain: the receiver takes the ratchet step
  let parties = old(A.pendingPreKey == nil && VOK(A.sessionVersion) && A.sessionVersion == s.sessionVersion && s.senderChain != nil \
    && A.localIdentityPublic.publicKey.publicKey == s.remoteIdentityPublic.publicKey.publicKey && A.remoteIdentityPublic.publicKey.publicKey == s.localIdentityPublic.publicKey.publicKey \
    && RCHAIN(s, A.senderChain.senderRatchetKeyPair.publicKey) >= len(s.receiverChains) && A.senderChain != s.senderChain)
  let r0 = old(R0(s, A.senderChain.senderRatchetKeyPair.publicKey))[32:64]
  let newchain = n <= 5000 && b(old(A.senderChain.chainKey.key)) == ITER(r0, n) && !(nev("rand.Read") == 1 && !ok(evres("rand.Read", 0, 1)))
  ensures imp(parties && newchain, CBCDEC(MK(ITER(r0, n))[:32], MK(ITER(r0, n))[64:80], m.structure.CipherText) == PADDED(b(plain)))
  ensures imp(parties && newchain, QGOOD(MK(ITER(r0, n)), m.structure.CipherText))
  ensures imp(parties && newchain, ok(err))
  ensures imp(parties && newchain, b(p) == b(plain))

func groups.zzLemmaDeliver(a, b, plain) (m, p, err)
  expand groups.(*GroupCipher).Encrypt, groups.(*GroupCipher).Decrypt
  labels C15 C16
  emits gstore.SenderKey.LoadSenderKey, gstore.SenderKey.StoreSenderKey
  requires a.sessionBuilder.serializer.SenderKeyMessage != nil
  let A = evres("LoadSenderKey", 0, 0)
  let B = evres("LoadSenderKey", 1, 0)
  let s = nth(list(evres("LoadSenderKey", 0, 0).senderKeyStates), 0)
  let t = nth(list(evres("LoadSenderKey", 1, 0).senderKeyStates), old(GST(evres("LoadSenderKey", 1, 0), s.keyID)))
  modifies havoc("grecord.SenderKeyState.senderChainKey"), havoc("grecord.SenderKeyState.keys.arr"), havoc("grecord.SenderKeyState.keys.off"), havoc("grecord.SenderKeyState.keys.len"), havoc("grecord.SenderKeyState.keys.cap"), havoc("grecord.SenderKeyState.keyID"), havoc("grecord.SenderKeyState.signingKeyPair"), havoc("grecord.SenderKeyState.serializer")
  let ready = nev("LoadSenderKey") == 2 && A != nil && old(len(A.senderKeyStates)) > 0 && B != nil && old(GST(B, s.keyID)) < old(len(B.senderKeyStates)) && s != t
  let n = old(s.senderChainKey.iteration)
  let ci = old(t.senderChainKey.iteration)
  let chain = n >= ci && n - ci <= 2000 && b(old(s.senderChainKey.chainKey)) == ITER(old(t.senderChainKey.chainKey), n - ci)
  ensures imp(ready && chain && GSIGNED(t, m), ok(err))
  ensures imp(ready && chain && GSIGNED(t, m), b(p) == b(plain))

# The kept keys of a group chain are behind it, each iteration once.
def GWELL(s) = forall(j, 0, len(s.keys), nth(list(s.keys), j).iteration < s.senderChainKey.iteration && forall(i, 0, j, nth(list(s.keys), i).iteration != nth(list(s.keys), j).iteration))
def GUSED(s, n) = n < s.senderChainKey.iteration && forall(j, 0, len(s.keys), nth(list(s.keys), j).iteration != n)

func groups.zzLemmaUsed(c, s, n) (err)
  labels C15
  requires n < 4294967295 && GWELL(s)
  modifies s.keys, list(s.keys), s.senderChainKey
  ensures GWELL(s)
  ensures imp(ok(err), n < s.senderChainKey.iteration)
  ensures imp(ok(err) && n < old(s.senderChainKey.iteration), GUSED(s, n))
  ensures imp(ok(err) && n >= old(s.senderChainKey.iteration), forall(j, 0, len(s.keys), nth(list(s.keys), j).iteration < n))
  ensures imp(ok(err) && n >= old(s.senderChainKey.iteration), forall(j, 0, len(s.keys), nth(list(s.keys), j).iteration != n))

func groups.zzLemmaStaysUsed(c, s, n, other) (err, again)
  labels C15
  requires other < 4294967295 && GUSED(s, n)
  modifies s.keys, list(s.keys), s.senderChainKey
  ensures GUSED(s, n)
  ensures !ok(again)

func groups.zzLemmaJoin(a, b, name) (x, err)
  labels C16
  expand groups.(*SessionBuilder).Create, groups.(*SessionBuilder).Process
  requires a.serializer.SenderKeyRecord != nil && a.serializer.SenderKeyState != nil && b.serializer.SenderKeyRecord != nil && b.serializer.SenderKeyState != nil && a.serializer.SenderKeyDistributionMessage != nil
  emits gstore.SenderKey.LoadSenderKey, gstore.SenderKey.StoreSenderKey
  modifies havoc("grecord.SenderKey.senderKeyStates.arr"), havoc("grecord.SenderKey.senderKeyStates.off"), havoc("grecord.SenderKey.senderKeyStates.len"), havoc("grecord.SenderKey.senderKeyStates.cap"), havoc("A:*grecord.SenderKeyState")
  let k = nev("StoreSenderKey") - 1
  # the sender's state when the message was made
  let S = nth(list(evres("LoadSenderKey", 0, 0).senderKeyStates), 0)
  let N = nth(list(evarg("StoreSenderKey", 0, 1).senderKeyStates), 0)
  let old1 = nev("LoadSenderKey") == 3 && nev("StoreSenderKey") == 1 && evres("LoadSenderKey", 0, 0) != nil
  let new1 = nev("LoadSenderKey") == 3 && nev("StoreSenderKey") == 2
  let first1 = evres("LoadSenderKey", 1, 0) == nil
  let M1 = nth(list(evarg("StoreSenderKey", 0, 1).senderKeyStates), 0)
  let M2 = nth(list(evarg("StoreSenderKey", 1, 1).senderKeyStates), 0)
  ensures imp(old1 && first1, M1.keyID == S.keyID && M1.senderChainKey.iteration == S.senderChainKey.iteration && M1.senderChainKey.chainKey == S.senderChainKey.chainKey && M1.signingKeyPair.publicKey == S.signingKeyPair.publicKey && len(M1.keys) == 0)
  ensures imp(new1 && first1, M2.keyID == N.keyID && M2.senderChainKey.iteration == N.senderChainKey.iteration && M2.senderChainKey.chainKey == N.senderChainKey.chainKey && M2.signingKeyPair.publicKey == N.signingKeyPair.publicKey && len(M2.keys) == 0)

func session.zzPair(priv) (r)
  inline
  labels C01

func session.zzLemmaEstablish(a, b, bid, bspk, bopk, one, reg, dev, id, sid, sig, r, m) (err, errb)
  labels C01 C08
  expand session.(*Builder).ProcessBundle
  emits store.IdentityKey.IsTrustedIdentity, store.Session.LoadSession, store.IdentityKey.GetIdentityKeyPair, store.IdentityKey.GetLocalRegistrationId, store.Session.StoreSession, store.IdentityKey.SaveIdentity, store.SignedPreKey.LoadSignedPreKey, store.PreKey.LoadPreKey
  given store.IdentityKey.GetIdentityKeyPair res.privateKey != nil
  given store.SignedPreKey.LoadSignedPreKey res == nil || res.keyPair.privateKey != nil
  given store.PreKey.LoadPreKey res == nil || res.keyPair.privateKey != nil
  requires len(r.sessionState.receiverChains) == 0 && len(r.previousStates) == 0
  let R = evarg("StoreSession", 0, 1)
  let A = evarg("StoreSession", 0, 1).sessionState
  let s = r.sessionState
  let alice = evres("GetIdentityKeyPair", 0, 0)
  let bob = evres("GetIdentityKeyPair", 1, 0)
  let spk = evres("LoadSignedPreKey", 0, 0).keyPair
  let opk = evres("LoadPreKey", 0, 0).keyPair
  let done = ok(err) && ok(errb) && nev("StoreSession") == 1 && nev("GetIdentityKeyPair") == 2 && nev("LoadSignedPreKey") == 1
  let separate = R != r && A != old(r.sessionState)
  let keys = PRIVK(bob) == bid && bob.publicKey.publicKey.publicKey == PUB(bid) && PRIVK(spk) == bspk && imp(nev("LoadPreKey") == 1, PRIVK(opk) == bopk) && alice.publicKey.publicKey.publicKey == PUB(PRIVK(alice))
  let sent = m.baseKey.publicKey == A.pendingPreKey.baseKey.publicKey && m.identityKey.publicKey.publicKey == A.localIdentityPublic.publicKey.publicKey && iff(HASOPK(m), one)
  modifies anything
  ensures imp(done && separate && keys && sent, A.sessionVersion == s.sessionVersion && s.senderChain != nil)
  ensures imp(done && separate && keys && sent, A.localIdentityPublic.publicKey.publicKey == s.remoteIdentityPublic.publicKey.publicKey && A.remoteIdentityPublic.publicKey.publicKey == s.localIdentityPublic.publicKey.publicKey)
  ensures imp(done && separate && keys && sent, A.senderChain.chainKey.index == 0)
  ensures imp(done && separate && keys && sent, b(A.senderChain.chainKey.key) == R0(s, A.senderChain.senderRatchetKeyPair.publicKey)[32:64])
