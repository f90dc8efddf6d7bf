# The session cipher.
def R0(s, e) = RKSTEP(s.rootKey.key, DH(e.publicKey, s.senderChain.senderRatchetKeyPair.privateKey.privateKey))

# a new receiver chain for the ratchet key e
def NEWCHAIN(c, e, ck) = c.senderRatchetKeyPair.publicKey == e && c.senderRatchetKeyPair.privateKey == nil && c.chainKey == ck && list(c.messageKeys) == wempty()
# the sending side after a ratchet step: a new key pair, the root and chain keys derived with it
def NEWRATCHET(s, e) = s.previousCounter == ite(old(s.senderChain.chainKey.index) == 0, 0, old(s.senderChain.chainKey.index) - 1) \
  && RKEYOF(s.senderChain) == PUB(s.senderChain.senderRatchetKeyPair.privateKey.privateKey) \
  && b(s.rootKey.key) == RKSTEP(old(R0(s, e))[:32], DH(e.publicKey, s.senderChain.senderRatchetKeyPair.privateKey.privateKey))[:32] \
  && b(s.senderChain.chainKey.key) == RKSTEP(old(R0(s, e))[:32], DH(e.publicKey, s.senderChain.senderRatchetKeyPair.privateKey.privateKey))[32:64] \
  && s.senderChain.chainKey.index == 0 && len(s.senderChain.messageKeys) == 0

func session.getOrCreateChainKey(s, e) (ck, err)
  labels C02 C05 C06
  requires s.rootKey != nil && s.senderChain != nil && s.senderChain.senderRatchetKeyPair.privateKey != nil
  let n = old(len(s.receiverChains))
  let last5 = nth(list(s.receiverChains), old(len(s.receiverChains)) - 1)
  let last = nth(list(s.receiverChains), old(len(s.receiverChains)))
  case RCHAIN(s, e) < len(s.receiverChains)
    modifies nothing
    ensures ok(err)
    fresh ck
    ensures ck.key == old(CH(s, e).chainKey.key) && ck.index == old(CH(s, e).chainKey.index)
  case RCHAIN(s, e) >= len(s.receiverChains) && !ok(err)
    modifies nothing
    # only when the new ratchet key pair cannot be generated
    ensures nev("rand.Read") == 1 && !ok(evres("rand.Read", 0, 1))
  case RCHAIN(s, e) >= len(s.receiverChains) && ok(err) && len(s.receiverChains) < 5
    modifies s.rootKey, s.receiverChains, list(s.receiverChains), s.previousCounter, s.senderChain
    fresh ck, s.rootKey, s.senderChain, s.senderChain.senderRatchetKeyPair, s.senderChain.senderRatchetKeyPair.privateKey, s.senderChain.chainKey
    fresh last, last.senderRatchetKeyPair, last.messageKeys
    ensures b(ck.key) == old(R0(s, e))[32:64] && ck.index == 0
    ensures list(s.receiverChains) == cat(old(list(s.receiverChains)), wunit(last))
    ensures NEWRATCHET(s, e)
    ensures NEWCHAIN(last, e, ck)
    ensures RCHAIN(s, e) == n
  case RCHAIN(s, e) >= len(s.receiverChains) && ok(err) && len(s.receiverChains) >= 5
    modifies s.rootKey, s.receiverChains, list(s.receiverChains), s.previousCounter, s.senderChain
    fresh ck, s.rootKey, s.senderChain, s.senderChain.senderRatchetKeyPair, s.senderChain.senderRatchetKeyPair.privateKey, s.senderChain.chainKey
    fresh last5, last5.senderRatchetKeyPair, last5.messageKeys
    ensures b(ck.key) == old(R0(s, e))[32:64] && ck.index == 0
    ensures list(s.receiverChains) == cat(ext(old(list(s.receiverChains)), 1, n - 1), wunit(last5))
    ensures NEWRATCHET(s, e)
    ensures NEWCHAIN(last5, e, ck)
    ensures RCHAIN(s, e) == n - 1

# the message keys kept when k keys are appended to n keys: the oldest go
def DROP(n, k) = ite(n > 2000, k, max(0, n + k - 2000))

# k are the keys derived from message key seed q
def KEYSOF(k, q) = b(k.cipherKey) == MK(q)[:32] && b(k.macKey) == MK(q)[32:64] && b(k.iv) == MK(q)[64:80]
# which of the skipped keys is the j-th that is kept
def SK(j, n, d) = j + max(0, n - d) + d - n

# The kept keys of a chain are behind it, each counter once: what every chain starts with and every decryption keeps.
def WELL(c) = forall(j, 0, len(c.messageKeys), nth(list(c.messageKeys), j).index < c.chainKey.index && forall(i, 0, j, nth(list(c.messageKeys), i).index != nth(list(c.messageKeys), j).index))
# A counter whose keys are gone.
def USED(c, n) = n < c.chainKey.index && forall(j, 0, len(c.messageKeys), nth(list(c.messageKeys), j).index != n)

func session.getOrCreateMessageKeys(s, e, ck, counter) (r, err)
  labels C05 C06
  requires RCHAIN(s, e) < len(s.receiverChains)
  let c = old(CH(s, e))
  let L = old(list(CH(s, e).messageKeys))
  let n = old(len(CH(s, e).messageKeys))
  let at0 = old(KIDX(CH(s, e), counter))
  let m = old(nth(list(CH(s, e).messageKeys), KIDX(CH(s, e), counter)))
  let k = counter - old(ck.index)
  let d = DROP(n, k)
  ghost news = ext(list(c.messageKeys), max(0, n - d), n + k - d - max(0, n - d))
  loopvar chainKey *chain.Key
  loopinv b(chainKey.key) == ITER(ck.key, K)
  loopinv chainKey.index == ck.index + K
  loopinv list(c.messageKeys) == ext(cat(L, wseqfn(i, K, pushed(i))), DROP(n, K), n + K - DROP(n, K))
  case ck.index > counter && KIDX(CH(s, e), counter) < len(CH(s, e).messageKeys)
    modifies CH(s, e).messageKeys, list(CH(s, e).messageKeys)
    fresh r
    ensures ok(err)
    ensures r.cipherKey == m.cipherKey && r.macKey == m.macKey && r.iv == m.iv && r.index == counter
    ensures list(c.messageKeys) == cat(ext(L, 0, at0), ext(L, at0 + 1, n - at0 - 1))
  case ck.index > counter && KIDX(CH(s, e), counter) >= len(CH(s, e).messageKeys)
    modifies nothing
    ensures !ok(err)
  case ck.index <= counter && counter - ck.index > 5000
    modifies nothing
    ensures !ok(err)
  case ck.index <= counter && counter - ck.index <= 5000
    modifies CH(s, e).messageKeys, list(CH(s, e).messageKeys), CH(s, e).chainKey
    ensures ok(err)
    fresh r
    ensures b(r.cipherKey) == MK(ITER(ck.key, k))[:32] && b(r.macKey) == MK(ITER(ck.key, k))[32:64] && b(r.iv) == MK(ITER(ck.key, k))[64:80] && r.index == counter
    fresh c.chainKey
    ensures b(c.chainKey.key) == CKNEXT(ITER(ck.key, k)) && c.chainKey.index == u32(counter + 1)
    ensures list(c.messageKeys) == cat(ext(L, min(d, n), max(0, n - d)), ext(news, 0, n + k - d - max(0, n - d)))
    ensures forall(j, 0, n + k - d - max(0, n - d), nth(news, j).index == ck.index + SK(j, n, d) && KEYSOF(nth(news, j), ITER(ck.key, SK(j, n, d))))
    ensures imp(old(WELL(CH(s, e))) && ck.index == old(CH(s, e).chainKey.index), forall(j, 0, len(c.messageKeys), nth(list(c.messageKeys), j).index < counter))

# without an IV in the keys it is the first block of the ciphertext
def CIV(k, ct) = ite(k.iv == nil, b(ct)[:16], b(k.iv))
def CBODY(k, ct) = ite(k.iv == nil, b(ct)[16:], b(ct))
def DRAW(k, ct) = CBCDEC(b(k.cipherKey), CIV(k, ct), CBODY(k, ct))
def DGOOD(k, ct) = KEYLEN(len(k.cipherKey)) && len(ct) >= 16 && len(CIV(k, ct)) == 16 && len(CBODY(k, ct)) > 0 && len(CBODY(k, ct)) % 16 == 0 && B_PADOK(DRAW(k, ct))
def DPLAIN(k, ct) = UNPADDED(DRAW(k, ct))

func session.decrypt(keys, body) (r, err)
  labels C04 C07
  reveal B_PADOK, UNPADDED
  modifies nothing
  case DGOOD(keys, body)
    ensures ok(err)
    fresh r
    ensures b(r) == DPLAIN(keys, body)
  case !DGOOD(keys, body)
    ensures !ok(err)

func session.encrypt(keys, plain) (r, err)
  labels C03 C07
  reveal B_PADOK, UNPADDED
  requires keys.iv != nil
  modifies nothing
  ensures nev("rand.Read") == 0
  case KEYLEN(len(keys.cipherKey)) && len(keys.iv) == 16
    ensures ok(err)
    fresh r
    ensures b(r) == CBCENC(b(keys.cipherKey), b(keys.iv), PADDED(b(plain)))
    ensures PADBACK(b(plain))
  case !(KEYLEN(len(keys.cipherKey)) && len(keys.iv) == 16)
    ensures !ok(err)

func session.(*Cipher).DecryptWithKey(d, m, key) (r, err)
  labels C04
  modifies nothing
  case DGOOD(key, m.structure.CipherText)
    ensures ok(err)
    fresh r
    ensures b(r) == DPLAIN(key, m.structure.CipherText)
  case !DGOOD(key, m.structure.CipherText)
    ensures !ok(err)


# the same for the keys in 80 derived bytes
def QGOOD(q, ct) = len(ct) >= 16 && len(ct) % 16 == 0 && B_PADOK(CBCDEC(q[:32], q[64:80], b(ct)))
# two chains with the same content
def CHSAME(a, c) = a.senderRatchetKeyPair == c.senderRatchetKeyPair && a.chainKey == c.chainKey && len(a.messageKeys) == len(c.messageKeys) && list(a.messageKeys) == list(c.messageKeys)
def SROK(s) = s.senderChain == nil || s.rootKey != nil && s.senderChain.senderRatchetKeyPair.privateKey != nil && s.remoteIdentityPublic != nil && s.localIdentityPublic != nil

func session.(*Cipher).DecryptWithState(d, s, m) (p, keys, err)
  labels C04 C05 C06
  expand session.getOrCreateChainKey
  emits protocol.SignalMessageSerializer.Serialize
  requires s.senderChain == nil || s.rootKey != nil && s.senderChain.senderRatchetKeyPair.privateKey != nil && s.remoteIdentityPublic != nil && s.localIdentityPublic != nil
  let st = m.structure
  let e = m.senderRatchetKey
  let n = m.structure.Counter
  let rc = old(RCHAIN(s, m.senderRatchetKey))
  let nch = old(len(s.receiverChains))
  let known = old(RCHAIN(s, m.senderRatchetKey) < len(s.receiverChains))
  # the chain of the message before
  let c = old(CH(s, m.senderRatchetKey))
  let L = old(list(CH(s, m.senderRatchetKey).messageKeys))
  let nk = old(len(CH(s, m.senderRatchetKey).messageKeys))
  let at0 = old(KIDX(CH(s, m.senderRatchetKey), m.structure.Counter))
  let mk = old(nth(list(CH(s, m.senderRatchetKey).messageKeys), KIDX(CH(s, m.senderRatchetKey), m.structure.Counter)))
  let ci = old(CH(s, m.senderRatchetKey).chainKey.index)
  let ckey = old(CH(s, m.senderRatchetKey).chainKey.key)
  let y = nth(list(s.receiverChains), old(len(s.receiverChains)) - ite(old(len(s.receiverChains)) >= 5, 1, 0))
  # the chain of the message after
  let x = nth(list(s.receiverChains), old(RCHAIN(s, m.senderRatchetKey)))
  let want = old(s.senderChain) != nil && st.Version == old(s.sessionVersion) && VOK(st.Version) && st.CipherText != nil && st.RatchetKey != nil && POINTOK(b(st.RatchetKey))
  case !ok(err)
    modifies [C05] nothing
    # a message whose MAC is right for its kept keys, or for those its chain reaches, is not rejected
    ensures [C06] imp(want && known && n < ci && at0 < nk, !(b(st.Mac) == SIGMAC(b(mk.macKey), st.Version, s.remoteIdentityPublic, s.localIdentityPublic, st.Version, m.serializer, st.RatchetKey, st.Counter, st.PreviousCounter, st.CipherText) && DGOOD(mk, st.CipherText)))
    ensures [C06] imp(want && known && n >= ci && n - ci <= 5000, !(b(st.Mac) == SIGMAC(MK(ITER(ckey, n - ci))[32:64], st.Version, s.remoteIdentityPublic, s.localIdentityPublic, st.Version, m.serializer, st.RatchetKey, st.Counter, st.PreviousCounter, st.CipherText) && QGOOD(MK(ITER(ckey, n - ci)), st.CipherText)))
    # ... and neither is one that starts a new chain, unless no new ratchet key pair can be generated
    ensures [C06 C02] imp(want && !known && n <= 5000 && b(st.Mac) == SIGMAC(MK(ITER(old(R0(s, m.senderRatchetKey))[32:64], n))[32:64], st.Version, s.remoteIdentityPublic, s.localIdentityPublic, st.Version, m.serializer, st.RatchetKey, st.Counter, st.PreviousCounter, st.CipherText) && QGOOD(MK(ITER(old(R0(s, m.senderRatchetKey))[32:64], n)), st.CipherText), nev("rand.Read") == 1 && !ok(evres("rand.Read", 0, 1)))
  case ok(err)
    modifies [C05 C06] s.all
    fresh keys
    ensures s.pendingPreKey == nil && s.sessionVersion == old(s.sessionVersion) && s.remoteIdentityPublic == old(s.remoteIdentityPublic) && s.localIdentityPublic == old(s.localIdentityPublic)
    ensures [C04] old(s.senderChain) != nil && st.Version == old(s.sessionVersion) && VOK(st.Version)
    ensures [C04] keys.index == n
    ensures [C04] b(st.Mac) == SIGMAC(b(keys.macKey), st.Version, s.remoteIdentityPublic, s.localIdentityPublic, st.Version, m.serializer, st.RatchetKey, st.Counter, st.PreviousCounter, st.CipherText)
    ensures [C04] DGOOD(keys, st.CipherText) && b(p) == DPLAIN(keys, st.CipherText)
    # which keys: those kept for the message, ...
    ensures [C06] imp(known && n < ci, at0 < nk && keys.cipherKey == mk.cipherKey && keys.macKey == mk.macKey && keys.iv == mk.iv)
    # ... those the chain reaches, ...
    ensures [C06 C02] imp(known && n >= ci, n - ci <= 5000 && KEYSOF(keys, ITER(ckey, n - ci)))
    # ... or those of the new chain of an unknown ratchet key
    ensures [C06 C02] imp(!known, n <= 5000 && KEYSOF(keys, ITER(old(R0(s, m.senderRatchetKey))[32:64], n)))
    # the chain afterwards: a kept key is gone, an advanced chain is past the message
    ensures [C06] imp(known, len(s.receiverChains) == nch && x.senderRatchetKeyPair == c.senderRatchetKeyPair && fresh(x))
    ensures [C06] imp(known && n < ci, x.chainKey == c.chainKey && list(x.messageKeys) == cat(ext(L, 0, at0), ext(L, at0 + 1, nk - at0 - 1)))
    ensures [C06] imp(known && n >= ci, b(x.chainKey.key) == CKNEXT(ITER(ckey, n - ci)) && x.chainKey.index == u32(n + 1))
    ensures [C06] imp(known && n >= ci, len(x.messageKeys) == nk + (n - ci) - DROP(nk, n - ci))
    # the other chains keep their content
    ensures [C05 C06] imp(known, forall(i, 0, nch, imp(i != rc, CHSAME(nth(list(s.receiverChains), i), nth(old(list(s.receiverChains)), i)))))
    ensures [C05 C02] imp(known, s.rootKey == old(s.rootKey) && s.senderChain.senderRatchetKeyPair == old(s.senderChain.senderRatchetKeyPair) && s.senderChain.chainKey == old(s.senderChain.chainKey))
    # the keys of the skipped messages are kept, the oldest keys go
    ensures [C06] imp(known && n >= ci, ext(list(x.messageKeys), 0, max(0, nk - DROP(nk, n - ci))) == ext(L, min(DROP(nk, n - ci), nk), max(0, nk - DROP(nk, n - ci))))
    ensures [C06] imp(known && n >= ci, forall(j, max(0, nk - DROP(nk, n - ci)), nk + (n - ci) - DROP(nk, n - ci), nth(list(x.messageKeys), j).index == ci + (j + DROP(nk, n - ci) - nk) && KEYSOF(nth(list(x.messageKeys), j), ITER(ckey, j + DROP(nk, n - ci) - nk))))
    # a new chain comes last, the oldest of more than five goes, and the sending side takes a ratchet step
    ensures [C06] imp(!known, len(s.receiverChains) == nch + 1 - ite(nch >= 5, 1, 0))
    ensures [C06] imp(!known, forall(i, 0, nch - ite(nch >= 5, 1, 0), CHSAME(nth(list(s.receiverChains), i), nth(old(list(s.receiverChains)), i + ite(nch >= 5, 1, 0)))))
    ensures [C06] imp(!known, RKEYOF(y) == e.publicKey && y.chainKey.index == u32(n + 1) && b(y.chainKey.key) == CKNEXT(ITER(old(R0(s, m.senderRatchetKey))[32:64], n)))
    ensures [C06] imp(!known, len(y.messageKeys) == n - DROP(0, n) && forall(j, 0, n - DROP(0, n), nth(list(y.messageKeys), j).index == j + DROP(0, n) && KEYSOF(nth(list(y.messageKeys), j), ITER(old(R0(s, m.senderRatchetKey))[32:64], j + DROP(0, n)))))
    ensures [C02] imp(!known, NEWRATCHET(s, e))
    # the counter is used up
    ensures [C06] imp(n < 4294967295 && !known, n < y.chainKey.index && forall(j, 0, len(y.messageKeys), nth(list(y.messageKeys), j).index < n))
    ensures [C06] imp(n < 4294967295 && known && n >= ci && old(WELL(CH(s, m.senderRatchetKey))), n < x.chainKey.index && forall(j, 0, len(x.messageKeys), nth(list(x.messageKeys), j).index < n))
    ensures [C06] imp(known && n < ci && old(WELL(CH(s, m.senderRatchetKey))), n < x.chainKey.index && forall(j, 0, len(x.messageKeys), nth(list(x.messageKeys), j).index != n))
    ensures [C06] imp(n < 4294967295 && known && old(WELL(CH(s, m.senderRatchetKey))), WELL(x))
    ensures [C06] imp(n < 4294967295 && !known, WELL(y))
    # a key that is kept was kept before, or is one of the skipped
    ensures [C06] imp(known && n < ci, forall(j, 0, len(x.messageKeys), nth(list(x.messageKeys), j) == nth(L, j + ite(j < at0, 0, 1))))
    ensures [C06] imp(known && n >= ci, forall(j, 0, max(0, nk - DROP(nk, n - ci)), nth(list(x.messageKeys), j) == nth(L, j + min(DROP(nk, n - ci), nk))))
    ensures [C06] imp(known, forall(i, 0, nch, imp(i != rc, forall(j, 0, len(nth(list(s.receiverChains), i).messageKeys), nth(list(nth(list(s.receiverChains), i).messageKeys), j) == nth(old(list(nth(list(s.receiverChains), i).messageKeys)), j)))))
    ensures [C06] imp(!known, forall(i, 0, nch - ite(nch >= 5, 1, 0), forall(j, 0, len(nth(list(s.receiverChains), i).messageKeys), nth(list(nth(list(s.receiverChains), i).messageKeys), j) == nth(old(list(nth(list(s.receiverChains), i + ite(nch >= 5, 1, 0)).messageKeys)), j))))
    # what the next message asks of the state
    ensures [C06 C13] SROK(s) && s.senderChain != nil
    ensures [C06] imp(!known, RCHAIN(s, e) == nch - ite(nch >= 5, 1, 0))
    ensures [C06] imp(known, RCHAIN(s, e) == rc)

# a state without a sending chain, or one with the keys to ratchet
def MSIG(s, m, key) = SIGMAC(key, m.structure.Version, s.remoteIdentityPublic, s.localIdentityPublic, m.structure.Version, m.serializer, m.structure.RatchetKey, m.structure.Counter, m.structure.PreviousCounter, m.structure.CipherText)
# a message that the state can decrypt on one of its chains: with the key its chain reaches, ...
def AHEAD(s, m, c) = m.structure.Counter >= c.chainKey.index && m.structure.Counter - c.chainKey.index <= 5000 && b(m.structure.Mac) == MSIG(s, m, MK(ITER(c.chainKey.key, m.structure.Counter - c.chainKey.index))[32:64]) && QGOOD(MK(ITER(c.chainKey.key, m.structure.Counter - c.chainKey.index)), m.structure.CipherText)
# ... or with a kept key
def KEPT(s, m, c, k) = m.structure.Counter < c.chainKey.index && k < len(c.messageKeys) && b(m.structure.Mac) == MSIG(s, m, b(nth(list(c.messageKeys), k).macKey)) && DGOOD(nth(list(c.messageKeys), k), m.structure.CipherText)
def GOODFOR(s, m) = s.senderChain != nil && m.structure.Version == s.sessionVersion && VOK(m.structure.Version) && m.structure.CipherText != nil && m.structure.RatchetKey != nil && POINTOK(b(m.structure.RatchetKey)) && RCHAIN(s, m.senderRatchetKey) < len(s.receiverChains) && (AHEAD(s, m, CH(s, m.senderRatchetKey)) || KEPT(s, m, CH(s, m.senderRatchetKey), KIDX(CH(s, m.senderRatchetKey), m.structure.Counter)))

func session.(*Cipher).DecryptWithRecord(d, r, m) (p, keys, err)
  labels C04 C05 C06 C10
  emits protocol.SignalMessageSerializer.Serialize
  requires SROK(r.sessionState) && forall(i, 0, len(r.previousStates), SROK(nth(list(r.previousStates), i)))
  let st = m.structure
  let n = old(len(r.previousStates))
  let P = old(list(r.previousStates))
  case !ok(err)
    modifies [C05] nothing
    # no state could decrypt it
    ensures [C06 C10] !GOODFOR(r.sessionState, m)
    ensures [C10] forall(i, 0, len(r.previousStates), !GOODFOR(nth(list(r.previousStates), i), m))
  case ok(err)
    modifies r.sessionState, r.previousStates, new(r.sessionState).all
    fresh keys
    ensures [C04] b(st.Mac) == MSIG(r.sessionState, m, b(keys.macKey))
    ensures [C04] DGOOD(keys, st.CipherText) && b(p) == DPLAIN(keys, st.CipherText)
    ensures [C04] keys.index == st.Counter && st.Version == r.sessionState.sessionVersion
    # the state that decrypted it is the current one: it was before, or it was archived and changes place with it
    ensures [C10] r.sessionState == old(r.sessionState) && list(r.previousStates) == P || exists(i, 0, n, r.sessionState == nth(P, i) && list(r.previousStates) == cat(wunit(old(r.sessionState)), ext(cat(ext(P, 0, i), ext(P, i + 1, n - 1 - i)), 0, ite(n - 1 < 40, n - 1, n - 2))))
    ensures [C13] RECOK(r) && r.sessionState.senderChain != nil
