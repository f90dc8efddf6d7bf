# Session records.
inv record.Chain.senderRatchetKeyPair nonnil
inv record.Chain.chainKey nonnil
inv record.State.serializer nonnil
inv record.Session.sessionState nonnil
inv record.Session.serializer nonnil
inv record.PendingPreKey.baseKey nonnil
elems record.Chain
elems record.State
elems message.Keys
elems message.KeysStructure
elems record.ChainStructure
elems record.StateStructure

def RKEYOF(c) = c.senderRatchetKeyPair.publicKey.publicKey
# index of the receiver chain of a ratchet key (the number of chains if there is none)
def RCHAIN(s, e) = first(j, 0, len(s.receiverChains), RKEYOF(nth(list(s.receiverChains), j)) == e.publicKey)

func record.(*Chain).Copy(c) (r)
  labels C05 C06
  modifies nothing
  fresh r, r.messageKeys
  ensures r.senderRatchetKeyPair == c.senderRatchetKeyPair && r.chainKey == c.chainKey
  ensures list(r.messageKeys) == list(c.messageKeys)

func record.(*State).receiverChain(s, e) (r)
  labels C06
  modifies nothing
  case RCHAIN(s, e) < len(s.receiverChains)
    fresh r
    ensures r.ReceiverChain == nth(list(s.receiverChains), RCHAIN(s, e)) && r.Index == RCHAIN(s, e)
  case RCHAIN(s, e) >= len(s.receiverChains)
    ensures r == nil

func record.(*State).HasReceiverChain(s, e) (r)
  labels C06
  modifies nothing
  ensures iff(r, RCHAIN(s, e) < len(s.receiverChains))

func record.(*State).ReceiverChainKey(s, e) (r)
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains)
  modifies nothing
  fresh r
  ensures r.key == nth(list(s.receiverChains), RCHAIN(s, e)).chainKey.key
  ensures r.index == nth(list(s.receiverChains), RCHAIN(s, e)).chainKey.index

def CH(s, e) = nth(list(s.receiverChains), RCHAIN(s, e))
def KIDX(c, n) = first(j, 0, len(c.messageKeys), nth(list(c.messageKeys), j).index == n)

func record.(*State).AddReceiverChain(s, rk, ck)
  inline
  labels C06
  requires hastype(ck, "*chain.Key")
  modifies s.receiverChains, list(s.receiverChains)
  let n = old(len(s.receiverChains))
  let drop = ite(n >= 5, 1, 0)
  let last = nth(list(s.receiverChains), n - drop)
  ensures len(s.receiverChains) == n + 1 - drop
  ensures ext(list(s.receiverChains), 0, n - drop) == ext(old(list(s.receiverChains)), drop, n - drop)
  ensures fresh(last) && fresh(last.senderRatchetKeyPair)
  ensures RKEYOF(last) == rk.publicKey && last.senderRatchetKeyPair.privateKey == nil
  ensures last.chainKey == ck && len(last.messageKeys) == 0

func record.(*State).SetSenderChain(s, kp, ck)
  inline
  labels C06
  requires hastype(ck, "*chain.Key")
  modifies s.senderChain
  fresh s.senderChain
  ensures s.senderChain.senderRatchetKeyPair == kp && s.senderChain.chainKey == ck && len(s.senderChain.messageKeys) == 0

func record.(*State).SetSenderChainKey(s, ck)
  inline
  labels C03
  requires s.senderChain != nil && hastype(ck, "*chain.Key")
  modifies s.senderChain.chainKey
  ensures s.senderChain.chainKey == ck

func record.(*State).SenderChainKey(s) (r)
  inline
  labels C03
  requires s.senderChain != nil
  modifies nothing
  ensures hastype(r, "*chain.Key") && r != nil && fresh(r)
  ensures r.key == s.senderChain.chainKey.key && r.index == s.senderChain.chainKey.index

func record.(*State).HasMessageKeys(s, e, n) (r)
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains)
  modifies nothing
  ensures iff(r, KIDX(CH(s, e), n) < len(CH(s, e).messageKeys))

func record.(*State).RemoveMessageKeys(s, e, n) (r)
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains)
  requires KIDX(CH(s, e), n) < len(CH(s, e).messageKeys)
  let c = old(CH(s, e))
  let k = old(KIDX(CH(s, e), n))
  let m = old(nth(list(CH(s, e).messageKeys), KIDX(CH(s, e), n)))
  modifies CH(s, e).messageKeys, list(CH(s, e).messageKeys)
  fresh r
  ensures r.cipherKey == m.cipherKey && r.macKey == m.macKey && r.iv == m.iv && r.index == n
  ensures list(c.messageKeys) == cat(ext(old(list(CH(s, e).messageKeys)), 0, k), ext(old(list(CH(s, e).messageKeys)), k + 1, old(len(CH(s, e).messageKeys)) - k - 1))

func record.(*State).SetMessageKeys(s, e, m)
  inline
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains)
  let c = old(CH(s, e))
  let n = old(len(CH(s, e).messageKeys))
  let drop = ite(n >= 2000, 1, 0)
  let last = nth(list(c.messageKeys), n - drop)
  modifies CH(s, e).messageKeys, list(CH(s, e).messageKeys)
  ensures len(c.messageKeys) == n + 1 - drop
  ensures ext(list(c.messageKeys), 0, n - drop) == ext(old(list(CH(s, e).messageKeys)), drop, n - drop)
  ensures fresh(last) && last.cipherKey == m.cipherKey && last.macKey == m.macKey && last.iv == m.iv && last.index == m.index

func record.(*State).SetReceiverChainKey(s, e, ck)
  inline
  labels C06
  requires RCHAIN(s, e) < len(s.receiverChains) && hastype(ck, "*chain.Key")
  modifies CH(s, e).chainKey
  ensures CH(s, e).chainKey == ck

func record.(*State).ClearUnackPreKeyMessage(s)
  inline
  labels C03
  modifies s.pendingPreKey
  ensures s.pendingPreKey == nil

func record.(*State).SetUnacknowledgedPreKeyMessage(s, opk, spk, base)
  nilable opk
  inline
  labels C03 C11
  modifies s.pendingPreKey
  fresh s.pendingPreKey
  ensures s.pendingPreKey.preKeyID == opk && s.pendingPreKey.signedPreKeyID == spk && s.pendingPreKey.baseKey == base

func record.(*State).UnackPreKeyMessageItems(s) (r, err)
  labels C03
  requires s.pendingPreKey != nil
  modifies nothing
  fresh r
  ensures ok(err)
  ensures r.preKeyID == s.pendingPreKey.preKeyID && r.signedPreKeyID == s.pendingPreKey.signedPreKeyID
  fresh r.baseKey
  ensures r.baseKey.publicKey == s.pendingPreKey.baseKey.publicKey

func record.(*State).Copy(s) (r)
  inline
  labels C05
  modifies nothing
  fresh r
  ensures r.localIdentityPublic == s.localIdentityPublic && r.localRegistrationID == s.localRegistrationID
  ensures r.needsRefresh == s.needsRefresh && r.pendingKeyExchange == s.pendingKeyExchange && r.pendingPreKey == s.pendingPreKey
  ensures r.previousCounter == s.previousCounter && r.remoteIdentityPublic == s.remoteIdentityPublic
  ensures r.remoteRegistrationID == s.remoteRegistrationID && r.rootKey == s.rootKey && r.senderBaseKey == s.senderBaseKey
  ensures r.serializer == s.serializer && r.sessionVersion == s.sessionVersion
  ensures iff(r.senderChain == nil, s.senderChain == nil)
  ensures imp(s.senderChain != nil, fresh(r.senderChain) && r.senderChain.senderRatchetKeyPair == s.senderChain.senderRatchetKeyPair && r.senderChain.chainKey == s.senderChain.chainKey && list(r.senderChain.messageKeys) == list(s.senderChain.messageKeys))
  ensures len(r.receiverChains) == len(s.receiverChains)
  ensures forall(i, 0, len(s.receiverChains), fresh(nth(list(r.receiverChains), i)) && nth(list(r.receiverChains), i).senderRatchetKeyPair == nth(list(s.receiverChains), i).senderRatchetKeyPair && nth(list(r.receiverChains), i).chainKey == nth(list(s.receiverChains), i).chainKey && list(nth(list(r.receiverChains), i).messageKeys) == list(nth(list(s.receiverChains), i).messageKeys))

func record.(*State).Update(s, t)
  inline
  labels C05
  modifies s.all
  ensures s.localIdentityPublic == t.localIdentityPublic && s.receiverChains == t.receiverChains && s.rootKey == t.rootKey && s.senderChain == t.senderChain && s.pendingPreKey == t.pendingPreKey && s.previousCounter == t.previousCounter && s.remoteIdentityPublic == t.remoteIdentityPublic && s.sessionVersion == t.sessionVersion && s.senderBaseKey == t.senderBaseKey

def SBASE(t) = ite(t.senderBaseKey == nil, "", cat("\x05", t.senderBaseKey.publicKey))
def HASSTATE(r, v, base) = (r.sessionState.sessionVersion == v && SBASE(r.sessionState) == base) || exists(i, 0, len(r.previousStates), nth(list(r.previousStates), i).sessionVersion == v && SBASE(nth(list(r.previousStates), i)) == base)

func record.(*State).SenderBaseKey(s) (r)
  inline
  labels C09
  modifies nothing
  ensures b(r) == SBASE(s)

func record.(*Session).HasSessionState(r, v, base) (x)
  labels C09
  modifies nothing
  ensures iff(x, HASSTATE(r, v, b(base)))

func record.(*Session).PromoteState(r, p)
  labels C10
  let n = old(len(r.previousStates))
  let keep = ite(n < 40, n, n - 1)
  modifies r.sessionState, r.previousStates
  ensures r.sessionState == p
  ensures list(r.previousStates) == cat(wunit(old(r.sessionState)), ext(old(list(r.previousStates)), 0, keep))

func record.(*Session).ArchiveCurrentState(r)
  labels C10
  let n = old(len(r.previousStates))
  let keep = ite(n < 40, n, n - 1)
  modifies r.sessionState, r.previousStates
  fresh r.sessionState
  ensures list(r.previousStates) == cat(wunit(old(r.sessionState)), ext(old(list(r.previousStates)), 0, keep))
  ensures r.sessionState.senderChain == nil && len(r.sessionState.receiverChains) == 0 && r.sessionState.pendingPreKey == nil && r.sessionState.rootKey == nil
  ensures r.sessionState.serializer == old(r.sessionState.serializer)
  ensures r.sessionState.sessionVersion == 0 && r.sessionState.senderBaseKey == nil && r.sessionState.remoteIdentityPublic == nil

func record.(*Session).RemovePreviousState(r, i)
  labels C10
  requires 0 <= i && i < len(r.previousStates)
  modifies r.previousStates
  ensures list(r.previousStates) == cat(ext(old(list(r.previousStates)), 0, i), ext(old(list(r.previousStates)), i + 1, old(len(r.previousStates)) - i - 1))

func record.(*Session).Copy(r) (c)
  inline
  labels C05 C10
  modifies nothing
  fresh c, c.sessionState
  ensures c.serializer == r.serializer && c.fresh == r.fresh && list(c.previousStates) == list(r.previousStates)
  ensures c.sessionState.rootKey == r.sessionState.rootKey && c.sessionState.sessionVersion == r.sessionState.sessionVersion

func record.(*Session).IsFresh(r) (x)
  labels C10
  modifies nothing
  ensures iff(x, r.fresh && r.sessionState.senderChain == nil)

func record.NewSession(se, sse) (r)
  labels C10
  modifies nothing
  fresh r, r.sessionState
  ensures r.serializer == se && r.sessionState.serializer == sse && r.fresh && len(r.previousStates) == 0
  ensures r.sessionState.senderChain == nil && r.sessionState.rootKey == nil && r.sessionState.pendingPreKey == nil && len(r.sessionState.receiverChains) == 0

atmost record.Chain.messageKeys 2000
atmost record.State.receiverChains 5
atmost record.Session.previousStates 40
