# Persisted forms of group sender keys.
inv grecord.SenderKeyStateStructure.SenderChainKey nonnil

def GKSAME(st, k) = st.Iteration == k.iteration && st.IV == k.iv && st.CipherKey == k.cipherKey && st.Seed == k.seed
def GSSAME(st, k) = st.KeyID == k.keyID && st.SenderChainKey != nil && st.SenderChainKey.Iteration == k.senderChainKey.iteration && st.SenderChainKey.ChainKey == k.senderChainKey.chainKey && b(st.SigningKeyPublic) == cat("\x05", k.signingKeyPair.publicKey.publicKey) && len(st.SigningKeyPublic) == 33 && len(st.SigningKeyPrivate) == ite(k.signingKeyPair.privateKey == nil, 0, 32) && imp(k.signingKeyPair.privateKey != nil, b(st.SigningKeyPrivate) == k.signingKeyPair.privateKey.privateKey) && len(st.Keys) == len(k.keys) && forall(i, 0, len(k.keys), GKSAME(nth(list(st.Keys), i), nth(list(k.keys), i)))
def GSREST(k, st) = st.KeyID == k.keyID && st.SenderChainKey.Iteration == k.senderChainKey.iteration && st.SenderChainKey.ChainKey == k.senderChainKey.chainKey && k.signingKeyPair.publicKey.publicKey == b(st.SigningKeyPublic)[1:33] && imp(len(st.SigningKeyPublic) == 33, b(st.SigningKeyPublic) == cat("\x05", k.signingKeyPair.publicKey.publicKey)) && iff(k.signingKeyPair.privateKey != nil, len(st.SigningKeyPrivate) == 32) && imp(len(st.SigningKeyPrivate) == 32, b(st.SigningKeyPrivate) == k.signingKeyPair.privateKey.privateKey) && len(st.Keys) == len(k.keys) && forall(i, 0, len(st.Keys), GKSAME(nth(list(st.Keys), i), nth(list(k.keys), i)))

func grecord.(*SenderKeyState).structure(k) (r)
  labels C11 C15
  modifies nothing
  fresh r
  ensures GSSAME(r, k)

func grecord.NewSenderKeyStateFromStructure(st, se) (k, err)
  labels C11 C15
  modifies nothing
  case POINTOK(b(st.SigningKeyPublic))
    ensures ok(err)
    fresh k, k.senderChainKey, k.signingKeyPair, k.signingKeyPair.publicKey
    ensures GSREST(k, st) && k.serializer == se
  case !POINTOK(b(st.SigningKeyPublic))
    ensures !ok(err) && k == nil

func grecord.(*SenderKey).structure(r) (x)
  labels C11
  modifies nothing
  fresh x
  ensures len(x.SenderKeyStates) == len(r.senderKeyStates)
  ensures forall(i, 0, len(r.senderKeyStates), GSSAME(nth(list(x.SenderKeyStates), i), nth(list(r.senderKeyStates), i)))

func grecord.NewSenderKeyFromStruct(x, se, sse) (r, err)
  labels C11
  modifies nothing
  ensures iff(ok(err), forall(i, 0, len(x.SenderKeyStates), POINTOK(b(nth(list(x.SenderKeyStates), i).SigningKeyPublic))))
  case ok(err)
    fresh r
    ensures r.serializer == se && r.stateSerializer == sse
    ensures len(r.senderKeyStates) == len(x.SenderKeyStates)
    ensures forall(i, 0, len(x.SenderKeyStates), GSREST(nth(list(r.senderKeyStates), i), nth(list(x.SenderKeyStates), i)))
  case !ok(err)
    ensures r == nil

func grecord.(*SenderKey).Serialize(r) (x)
  labels C11
  emits grecord.SenderKeySerializer.Serialize
  modifies nothing
  ensures nev("Serialize") == 1 && b(x) == b(evres("Serialize", 0, 0))
  ensures len(evarg("Serialize", 0, 0).SenderKeyStates) == len(r.senderKeyStates)
  ensures forall(i, 0, len(r.senderKeyStates), GSSAME(nth(list(evarg("Serialize", 0, 0).SenderKeyStates), i), nth(list(r.senderKeyStates), i)))

func grecord.(*SenderKeyState).Serialize(k) (x)
  labels C11
  requires k.serializer != nil
  emits grecord.SenderKeyStateSerializer.Serialize
  modifies nothing
  ensures nev("Serialize") == 1 && b(x) == b(evres("Serialize", 0, 0)) && GSSAME(evarg("Serialize", 0, 0), k)

func grecord.NewSenderKeyStateFromBytes(q, se) (k, err)
  labels C11
  emits grecord.SenderKeyStateSerializer.Deserialize
  modifies nothing
  let st = evres("Deserialize", 0, 0)
  ensures nev("Deserialize") == 1 && b(evarg("Deserialize", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("Deserialize", 0, 1)) && POINTOK(b(st.SigningKeyPublic)))
  case ok(err)
    fresh k
    ensures GSREST(k, st) && k.serializer == se
  case !ok(err)
    ensures k == nil

func grecord.NewSenderKeyFromBytes(q, se, sse) (r, err)
  labels C11
  emits grecord.SenderKeySerializer.Deserialize
  modifies nothing
  let x = evres("Deserialize", 0, 0)
  ensures nev("Deserialize") == 1 && b(evarg("Deserialize", 0, 0)) == b(q)
  ensures iff(ok(err), ok(evres("Deserialize", 0, 1)) && forall(i, 0, len(x.SenderKeyStates), POINTOK(b(nth(list(x.SenderKeyStates), i).SigningKeyPublic))))
  case ok(err)
    fresh r
    ensures r.serializer == se && r.stateSerializer == sse
    ensures len(r.senderKeyStates) == len(x.SenderKeyStates)
    ensures forall(i, 0, len(x.SenderKeyStates), GSREST(nth(list(r.senderKeyStates), i), nth(list(x.SenderKeyStates), i)))
  case !ok(err)
    ensures r == nil

func grecord.NewSenderKey(se, sse) (r)
  inline
  labels C16
  modifies nothing
  fresh r
  ensures len(r.senderKeyStates) == 0 && r.serializer == se && r.stateSerializer == sse

func grecord.zzLemmaStructure(r) (x)
  labels C11
  modifies nothing
  fresh x
  ensures len(x.SenderKeyStates) == len(r.senderKeyStates)
  ensures forall(i, 0, len(r.senderKeyStates), GSSAME(nth(list(x.SenderKeyStates), i), nth(list(r.senderKeyStates), i)))
  ensures forall(i, 0, len(x.SenderKeyStates), POINTOK(b(nth(list(x.SenderKeyStates), i).SigningKeyPublic)))

def GSBACK(x, y) = x.keyID == y.keyID && x.senderChainKey.iteration == y.senderChainKey.iteration && x.senderChainKey.chainKey == y.senderChainKey.chainKey && x.signingKeyPair.publicKey.publicKey == y.signingKeyPair.publicKey.publicKey && iff(x.signingKeyPair.privateKey == nil, y.signingKeyPair.privateKey == nil) && imp(y.signingKeyPair.privateKey != nil, x.signingKeyPair.privateKey.privateKey == y.signingKeyPair.privateKey.privateKey) && len(x.keys) == len(y.keys)

# a stored sender key record comes back as it was
func grecord.zzLemmaSenderKey(r, se, sse) (x, err)
  labels C11 C15
  modifies nothing
  ensures ok(err)
  ensures len(x.senderKeyStates) == len(r.senderKeyStates)
  ensures forall(k, 0, len(r.senderKeyStates), GSBACK(nth(list(x.senderKeyStates), k), nth(list(r.senderKeyStates), k)))
  ensures forall(k, 0, len(r.senderKeyStates), forall(i, 0, len(nth(list(r.senderKeyStates), k).keys), GKBACK(nth(list(nth(list(x.senderKeyStates), k).keys), i), nth(list(nth(list(r.senderKeyStates), k).keys), i))))

def GKBACK(x, y) = x.iteration == y.iteration && x.iv == y.iv && x.cipherKey == y.cipherKey && x.seed == y.seed
