# Generated keys.
# the key pair is the one of 32 random bytes
def PAIROF(kp, q) = kp.privateKey.privateKey == clamp(q) && kp.publicKey.publicKey == PUB(clamp(q))
def WIREOF(r) = b(r.structure.PublicKey) == cat("\x05", r.keyPair.publicKey.publicKey) && b(r.structure.PrivateKey) == r.keyPair.privateKey.privateKey

func keyhelper.GenerateIdentityKeyPair() (r, err)
  inline
  labels C23 C18
  modifies nothing
  ensures nev("rand.Read") == 1
  ensures iff(ok(err), ok(evres("rand.Read", 0, 1)))
  case ok(err)
    fresh r, r.publicKey, r.publicKey.publicKey, r.privateKey
    ensures r.privateKey.privateKey == clamp(evarg("rand.Read", 0, 0)) && r.publicKey.publicKey.publicKey == PUB(clamp(evarg("rand.Read", 0, 0)))
  case !ok(err)
    ensures r == nil

func keyhelper.GeneratePreKeys(start, count, se) (r, err)
  labels C23
  requires count < 9223372036854775807 && start > -9223372036854775808 && count - start < 1099511627776
  let n = max(0, count - start + 1)
  modifies nothing
  loopvar i int
  loopinv i == start + K
  case ok(err)
    ensures len(r) == n
    ensures forall(j, 0, n, nth(list(r), j).structure.ID == u32(start + j) && nth(list(r), j).serializer == se)
    ensures forall(j, 0, n, fresh(nth(list(r), j)) && nth(list(r), j).keyPair.publicKey.publicKey == PUB(nth(list(r), j).keyPair.privateKey.privateKey))
    ensures forall(j, 0, n, WIREOF(nth(list(r), j)))
  case !ok(err)
    ensures len(r) == 0

func keyhelper.GenerateLastResortKey(se) (r, err)
  labels C23
  modifies nothing
  ensures nev("rand.Read") == 1
  ensures iff(ok(err), ok(evres("rand.Read", 0, 1)))
  case ok(err)
    fresh r, r.keyPair
    ensures r.structure.ID == 16777215 && r.serializer == se && PAIROF(r.keyPair, evarg("rand.Read", 0, 0))
    ensures WIREOF(r)
  case !ok(err)
    ensures r == nil

func keyhelper.GenerateSignedPreKey(kp, id, se) (r, err)
  labels C23
  requires kp.privateKey != nil
  modifies nothing
  case ok(err)
    fresh r, r.keyPair
    ensures r.structure.ID == id && r.serializer == se
    ensures r.keyPair.publicKey.publicKey == PUB(r.keyPair.privateKey.privateKey)
    ensures WIREOF(r) && b(r.structure.Signature) == r.signature
    ensures r.signature == XSIGN(kp.privateKey.privateKey, cat("\x05", r.keyPair.publicKey.publicKey), evarg("rand.Read", 1, 0))
  case !ok(err)
    ensures r == nil

func keyhelper.GenerateRegistrationID() (r)
  inline
  labels C23
  modifies nothing
  ensures nev("rand.Read") == 1
  let q = evarg("rand.Read", 0, 0)
  ensures imp(ok(evres("rand.Read", 0, 1)), r == nth(q, 0) + 256 * nth(q, 1) + 65536 * nth(q, 2) + 16777216 * nth(q, 3) || r == be(q, 4))

func keyhelper.GenerateSenderKey() (r)
  inline
  labels C23 C16
  modifies nothing
  ensures nev("rand.Read") == 1
  fresh r
  ensures b(r) == evarg("rand.Read", 0, 0) && len(r) == 32

func groups.(*SessionBuilder).Create(d, name) (m, err)
  labels C16
  requires d.serializer.SenderKeyRecord != nil && d.serializer.SenderKeyState != nil && d.serializer.SenderKeyDistributionMessage != nil
  emits gstore.SenderKey.LoadSenderKey, gstore.SenderKey.StoreSenderKey
  let had = evres("LoadSenderKey", 0, 0)
  let fresher = had == nil || len(had.senderKeyStates) == 0
  let s = nth(list(had.senderKeyStates), 0)
  let t = nth(list(evarg("StoreSenderKey", 0, 1).senderKeyStates), 0)
  modifies nothing
  ensures nev("LoadSenderKey") == 1 && evarg("LoadSenderKey", 0, 0) == name
  # a chain in use is handed out as it is now
  ensures imp(ok(err) && !fresher, m.id == s.keyID && m.iteration == s.senderChainKey.iteration && m.chainKey == s.senderChainKey.chainKey && m.signatureKey == s.signingKeyPair.publicKey)
  ensures imp(!fresher, nev("StoreSenderKey") == 0)
  # otherwise a new one is stored, once, and that one is handed out
  ensures imp(ok(err) && fresher, nev("StoreSenderKey") == 1 && evarg("StoreSenderKey", 0, 0) == name && len(evarg("StoreSenderKey", 0, 1).senderKeyStates) == 1)
  ensures imp(ok(err) && fresher, m.id == t.keyID && m.iteration == 0 && t.senderChainKey.iteration == 0 && m.chainKey == t.senderChainKey.chainKey && m.signatureKey == t.signingKeyPair.publicKey && len(t.keys) == 0)
  ensures imp(ok(err) && fresher, PAIROF(t.signingKeyPair, evarg("rand.Read", 0, 0)) && b(t.senderChainKey.chainKey) == evarg("rand.Read", 2, 0))
  ensures imp(!ok(err), nev("StoreSenderKey") == 0)
