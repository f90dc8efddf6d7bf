# Group sessions.
inv grecord.SenderKeyState.senderChainKey nonnil
inv grecord.SenderKeyState.signingKeyPair nonnil
inv grecord.SenderKeyState.serializer nonnil
inv grecord.SenderKey.serializer nonnil
inv grecord.SenderKey.stateSerializer nonnil
inv groups.GroupCipher.sessionBuilder nonnil
inv groups.GroupCipher.senderKeyID nonnil
inv groups.SessionBuilder.serializer nonnil
elems grecord.SenderKeyState
elems gratchet.SenderMessageKey
elems grecord.SenderKeyStateStructure
elems gratchet.SenderMessageKeyStructure

# where the key of an iteration, or the state with an id, is
def GKI(k, n) = first(j, 0, len(k.keys), nth(list(k.keys), j).iteration == n)
def GST(r, id) = first(j, 0, len(r.senderKeyStates), nth(list(r.senderKeyStates), j).keyID == id)

func grecord.(*SenderKeyState).HasSenderMessageKey(k, n) (r)
  labels C15
  modifies nothing
  ensures iff(r, GKI(k, n) < len(k.keys))

func grecord.(*SenderKeyState).RemoveSenderMessageKey(k, n) (r)
  labels C15
  let at0 = old(GKI(k, n))
  let L = old(list(k.keys))
  let m = old(len(k.keys))
  case GKI(k, n) < len(k.keys)
    modifies k.keys, list(k.keys)
    ensures r == nth(L, at0)
    ensures list(k.keys) == cat(ext(L, 0, at0), ext(L, at0 + 1, m - at0 - 1))
  case GKI(k, n) >= len(k.keys)
    modifies nothing
    ensures r == nil

func grecord.(*SenderKeyState).AddSenderMessageKey(k, m)
  inline
  labels C15
  modifies k.keys, list(k.keys)
  let n = old(len(k.keys))
  let drop = ite(n >= 2000, 1, 0)
  ensures list(k.keys) == cat(ext(old(list(k.keys)), drop, n - drop), wunit(m))

func grecord.(*SenderKeyState).Copy(k) (r)
  inline
  labels C15 C14
  modifies nothing
  fresh r, r.keys
  ensures list(r.keys) == list(k.keys) && r.keyID == k.keyID && r.senderChainKey == k.senderChainKey && r.signingKeyPair == k.signingKeyPair && r.serializer == k.serializer

func grecord.(*SenderKeyState).Update(k, s)
  inline
  labels C15
  modifies k.keys, k.keyID, k.senderChainKey, k.signingKeyPair, k.serializer
  ensures k.keys == s.keys && k.keyID == s.keyID && k.senderChainKey == s.senderChainKey && k.signingKeyPair == s.signingKeyPair && k.serializer == s.serializer

func grecord.(*SenderKey).GetSenderKeyStateByID(r, id) (s, err)
  labels C14 C15
  modifies nothing
  case GST(r, id) < len(r.senderKeyStates)
    ensures ok(err) && s == nth(list(r.senderKeyStates), GST(r, id))
  case GST(r, id) >= len(r.senderKeyStates)
    ensures !ok(err) && s == nil

func grecord.(*SenderKey).SenderKeyState(r) (s, err)
  labels C15 C16
  modifies nothing
  case len(r.senderKeyStates) > 0
    ensures ok(err) && s == nth(list(r.senderKeyStates), 0)
  case len(r.senderKeyStates) == 0
    ensures !ok(err) && s == nil

func grecord.NewSenderKeyState(id, it, ck, kp, se) (r)
  labels C16
  modifies nothing
  fresh r, r.senderChainKey, r.keys
  ensures r.keyID == id && r.senderChainKey.iteration == it && r.senderChainKey.chainKey == ck && r.signingKeyPair == kp && r.serializer == se && len(r.keys) == 0

func grecord.NewSenderKeyStateFromPublicKey(id, it, ck, pk, se) (r)
  labels C16
  modifies nothing
  fresh r, r.senderChainKey, r.signingKeyPair, r.keys
  ensures r.keyID == id && r.senderChainKey.iteration == it && r.senderChainKey.chainKey == ck && r.signingKeyPair.publicKey == pk && r.signingKeyPair.privateKey == nil && r.serializer == se && len(r.keys) == 0

func grecord.(*SenderKey).AddSenderKeyState(r, id, it, ck, pk)
  inline
  labels C16
  modifies r.senderKeyStates, list(r.senderKeyStates)
  let n = old(len(r.senderKeyStates))
  let drop = ite(n >= 2000, 1, 0)
  let last = nth(list(r.senderKeyStates), n - drop)
  ensures len(r.senderKeyStates) == n + 1 - drop
  ensures ext(list(r.senderKeyStates), 0, n - drop) == ext(old(list(r.senderKeyStates)), drop, n - drop)
  ensures fresh(last) && last.keyID == id && last.senderChainKey.iteration == it && last.senderChainKey.chainKey == ck && last.signingKeyPair.publicKey == pk && last.signingKeyPair.privateKey == nil && last.serializer == r.stateSerializer && len(last.keys) == 0

func grecord.(*SenderKey).SetSenderKeyState(r, id, it, ck, kp)
  inline
  labels C16
  modifies r.senderKeyStates
  let s = nth(list(r.senderKeyStates), 0)
  ensures len(r.senderKeyStates) == 1
  ensures fresh(s) && s.keyID == id && s.senderChainKey.iteration == it && s.senderChainKey.chainKey == ck && s.signingKeyPair == kp && s.serializer == r.stateSerializer && len(s.keys) == 0

# m is the message key of iteration i of a chain whose key of that iteration is q
def GKEYS(m, i, q) = m.iteration == i && b(m.iv) == GMK(q)[:16] && b(m.cipherKey) == GMK(q)[16:48]

func groups.(*GroupCipher).getSenderKey(c, s, iteration) (r, err)
  labels C15 C14
  let ck = old(s.senderChainKey)
  let L = old(list(s.keys))
  let n = old(len(s.keys))
  let at0 = old(GKI(s, iteration))
  let k = iteration - old(s.senderChainKey.iteration)
  let d = DROP(n, k)
  ghost news = ext(list(s.keys), max(0, n - d), n + k - d - max(0, n - d))
  loopvar senderChainKey *gratchet.SenderChainKey
  loopinv b(senderChainKey.chainKey) == ITER(ck.chainKey, K)
  loopinv senderChainKey.iteration == ck.iteration + K
  loopinv list(s.keys) == ext(cat(L, wseqfn(i, K, pushed(i))), DROP(n, K), n + K - DROP(n, K))
  case s.senderChainKey.iteration > iteration && GKI(s, iteration) < len(s.keys)
    # an old message: its key is used and removed
    modifies s.keys, list(s.keys)
    ensures ok(err) && r == nth(L, at0)
    ensures list(s.keys) == cat(ext(L, 0, at0), ext(L, at0 + 1, n - at0 - 1))
  case s.senderChainKey.iteration > iteration && GKI(s, iteration) >= len(s.keys)
    modifies nothing
    ensures !ok(err)
  case s.senderChainKey.iteration <= iteration && iteration - s.senderChainKey.iteration > 2000
    modifies nothing
    ensures !ok(err)
  case s.senderChainKey.iteration <= iteration && iteration - s.senderChainKey.iteration <= 2000
    modifies s.keys, list(s.keys), s.senderChainKey
    ensures ok(err)
    fresh r
    ensures GKEYS(r, iteration, ITER(ck.chainKey, k))
    fresh s.senderChainKey
    ensures b(s.senderChainKey.chainKey) == GNEXT(ITER(ck.chainKey, k)) && s.senderChainKey.iteration == u32(iteration + 1)
    ensures list(s.keys) == cat(ext(L, min(d, n), max(0, n - d)), ext(news, 0, n + k - d - max(0, n - d)))
    ensures forall(j, 0, n + k - d - max(0, n - d), GKEYS(nth(news, j), ck.iteration + SK(j, n, d), ITER(ck.chainKey, SK(j, n, d))))

# the state that the message names: its signing key decides whether the message is looked at
def GSTATE(rec, m) = nth(list(rec.senderKeyStates), GST(rec, m.keyID))
def SIG64(q) = ite(len(q) >= 64, b(q)[:64], cat(b(q), rep(0, 64 - len(q))))
def GSIGNED(s, m) = XVERIFY(s.signingKeyPair.publicKey.publicKey, ser(m.serializer, m.keyID, m.iteration, m.ciphertext, m.version, nilseq()), SIG64(m.signature))

# the ciphertext under the message key of chain key q
def GPLAIN(q, ct) = CBCDEC(GMK(q)[16:48], GMK(q)[:16], b(ct))
def GGOOD(q, ct) = len(ct) >= 16 && len(ct) % 16 == 0 && B_PADOK(GPLAIN(q, ct))

func groups.(*GroupCipher).Decrypt(c, m) (p, err)
  labels C14 C15 C05
  emits gstore.SenderKey.LoadSenderKey, gstore.SenderKey.StoreSenderKey
  let rec = evres("LoadSenderKey", 0, 0)
  let s = GSTATE(rec, m)
  let ck = old(s.senderChainKey)
  let L = old(list(s.keys))
  let n = old(len(s.keys))
  let at0 = old(GKI(s, m.iteration))
  let k = m.iteration - old(s.senderChainKey.iteration)
  let d = DROP(n, k)
  ghost news = ext(list(s.keys), max(0, n - d), n + k - d - max(0, n - d))
  ensures nev("LoadSenderKey") == 1 && evarg("LoadSenderKey", 0, 0) == c.senderKeyID
  # without a state, or without the signature of the state's key, nothing is decrypted
  ensures [C14] imp(rec == nil, !ok(err))
  ensures [C14] imp(rec != nil && old(GST(rec, m.keyID)) >= old(len(rec.senderKeyStates)), !ok(err))
  ensures [C14] imp(ok(err), GSIGNED(s, m))
  case !ok(err)
    # a rejected message uses nothing up
    modifies [C15 C05] nothing
    ensures [C15 C05] nev("StoreSenderKey") == 0
    ensures [C14] p == nil
    # a signed message whose key is kept, or within reach of the chain, is not rejected
    let known = rec != nil && old(GST(rec, m.keyID)) < old(len(rec.senderKeyStates))
    ensures [C15] imp(known && GSIGNED(s, m) && ck.iteration > m.iteration && at0 < n, !DGOOD(nth(L, at0), m.ciphertext))
    ensures [C15] imp(known && GSIGNED(s, m) && ck.iteration <= m.iteration && k <= 2000, !GGOOD(ITER(ck.chainKey, k), m.ciphertext))
  case ok(err) && GSTATE(rec, m).senderChainKey.iteration > m.iteration
    # an earlier message: its key is used once
    modifies GSTATE(rec, m).keys, GSTATE(rec, m).keyID, GSTATE(rec, m).senderChainKey, GSTATE(rec, m).signingKeyPair, GSTATE(rec, m).serializer
    ensures [C15] at0 < n && list(s.keys) == cat(ext(L, 0, at0), ext(L, at0 + 1, n - at0 - 1))
    ensures [C15] DGOOD(nth(L, at0), m.ciphertext) && b(p) == DPLAIN(nth(L, at0), m.ciphertext)
    ensures [C15] s.senderChainKey == ck && s.signingKeyPair == old(s.signingKeyPair) && s.keyID == old(s.keyID)
    ensures [C15] nev("StoreSenderKey") == 1 && evarg("StoreSenderKey", 0, 0) == c.senderKeyID && evarg("StoreSenderKey", 0, 1) == rec
    ensures [C15] at("StoreSenderKey", 0, list(s.keys)) == list(s.keys)
  case ok(err) && GSTATE(rec, m).senderChainKey.iteration <= m.iteration
    modifies GSTATE(rec, m).keys, GSTATE(rec, m).keyID, GSTATE(rec, m).senderChainKey, GSTATE(rec, m).signingKeyPair, GSTATE(rec, m).serializer
    ensures [C15] k <= 2000
    ensures [C15] GGOOD(ITER(ck.chainKey, k), m.ciphertext) && b(p) == UNPADDED(GPLAIN(ITER(ck.chainKey, k), m.ciphertext))
    ensures [C15] b(s.senderChainKey.chainKey) == GNEXT(ITER(ck.chainKey, k)) && s.senderChainKey.iteration == u32(m.iteration + 1)
    ensures [C15] s.signingKeyPair == old(s.signingKeyPair) && s.keyID == old(s.keyID)
    ensures [C15] list(s.keys) == cat(ext(L, min(d, n), max(0, n - d)), ext(news, 0, n + k - d - max(0, n - d)))
    ensures [C15] forall(j, 0, n + k - d - max(0, n - d), GKEYS(nth(news, j), ck.iteration + SK(j, n, d), ITER(ck.chainKey, SK(j, n, d))))
    ensures [C15] nev("StoreSenderKey") == 1 && evarg("StoreSenderKey", 0, 0) == c.senderKeyID && evarg("StoreSenderKey", 0, 1) == rec
    ensures [C15] at("StoreSenderKey", 0, b(s.senderChainKey.chainKey)) == GNEXT(ITER(ck.chainKey, k))

func groups.(*GroupCipher).Encrypt(c, plain) (m, err)
  labels C14 C15
  requires c.sessionBuilder.serializer.SenderKeyMessage != nil
  emits gstore.SenderKey.LoadSenderKey, gstore.SenderKey.StoreSenderKey
  let rec = evres("LoadSenderKey", 0, 0)
  let s = nth(list(rec.senderKeyStates), 0)
  let ck = old(s.senderChainKey)
  let q = old(b(s.senderChainKey.chainKey))
  let r = typed(m, "*protocol.SenderKeyMessage")
  ensures nev("LoadSenderKey") == 1 && evarg("LoadSenderKey", 0, 0) == c.senderKeyID
  case !ok(err)
    modifies nothing
    ensures nev("StoreSenderKey") == 0
    ensures imp(rec != nil, old(len(rec.senderKeyStates)) == 0 || s.signingKeyPair.privateKey == nil)
  case ok(err)
    modifies nth(list(rec.senderKeyStates), 0).senderChainKey
    # one key per message, with its number, signed with the group key
    ensures hastype(m, "*protocol.SenderKeyMessage")
    ensures r.keyID == s.keyID && r.iteration == ck.iteration && r.version == 3 && r.serializer == c.sessionBuilder.serializer.SenderKeyMessage
    ensures b(r.ciphertext) == CBCENC(GMK(q)[16:48], GMK(q)[:16], PADDED(b(plain)))
    ensures [C14] b(r.signature) == XSIGN(s.signingKeyPair.privateKey.privateKey, ser(r.serializer, r.keyID, r.iteration, r.ciphertext, 3, nilseq()), evarg("rand.Read", 0, 0))
    ensures b(s.senderChainKey.chainKey) == GNEXT(q) && s.senderChainKey.iteration == u32(ck.iteration + 1)
    ensures nev("StoreSenderKey") == 1 && evarg("StoreSenderKey", 0, 0) == c.senderKeyID && evarg("StoreSenderKey", 0, 1) == rec
    ensures at("StoreSenderKey", 0, b(s.senderChainKey.chainKey)) == GNEXT(q)

func groups.(*SessionBuilder).Process(d, name, m)
  labels C16
  requires d.serializer.SenderKeyRecord != nil && d.serializer.SenderKeyState != nil
  emits gstore.SenderKey.LoadSenderKey, gstore.SenderKey.StoreSenderKey
  let had = evres("LoadSenderKey", 0, 0)
  let rec = evarg("StoreSenderKey", 0, 1)
  let n = old(len(had.senderKeyStates))
  let drop = ite(n >= 2000, 1, 0)
  let at0 = ite(had == nil, 0, n - drop)
  let last = nth(list(rec.senderKeyStates), at0)
  modifies ite(evres("LoadSenderKey", 0, 0) != nil, evres("LoadSenderKey", 0, 0).senderKeyStates), ite(evres("LoadSenderKey", 0, 0) != nil, list(evres("LoadSenderKey", 0, 0).senderKeyStates))
  ensures nev("LoadSenderKey") == 1 && evarg("LoadSenderKey", 0, 0) == name
  ensures nev("StoreSenderKey") == 1 && evarg("StoreSenderKey", 0, 0) == name
  # exactly the chain that was handed out
  ensures fresh(last) && last.keyID == m.id && last.senderChainKey.iteration == m.iteration && last.senderChainKey.chainKey == m.chainKey && last.signingKeyPair.publicKey == m.signatureKey && last.signingKeyPair.privateKey == nil && len(last.keys) == 0
  ensures len(rec.senderKeyStates) == at0 + 1
  ensures imp(had != nil, rec == had && ext(list(rec.senderKeyStates), 0, n - drop) == ext(old(list(had.senderKeyStates)), drop, n - drop))

atmost grecord.SenderKeyState.keys 2000
atmost grecord.SenderKey.senderKeyStates 2000
