# Key derivation.  HKDF, HMAC, DH and PUB are the uninterpreted primitives.
inv chain.Key.kdf == kdf.DeriveSecrets
inv root.Key.kdf == kdf.DeriveSecrets
inv ecc.ECKeyPair.publicKey nonnil

def MK(key) = HKDF(HMAC(key, "\x01"), "", "WhisperMessageKeys", 80)
def CKNEXT(key) = HMAC(key, "\x02")
def RKSTEP(rk, dh) = HKDF(dh, rk, "WhisperRatchet", 64)

func kdf.DeriveSecrets(ikm, salt, info, n) (out, err)
  labels C01 C02
  requires n >= 0 && n <= 1000000
  modifies nothing
  case n <= 8160
    ensures ok(err)
    ensures b(out) == HKDF(b(ikm), b(salt), b(info), n)
    ensures len(out) == n
    fresh out
  case n > 8160
    ensures !ok(err)

func kdf.CalculateSharedSecret(theirs, ours) (s)
  labels C01 C02
  modifies nothing
  ensures b(s) == DH(theirs, ours)

func chain.NewKey(k, key, index) (r)
  labels C02
  requires k == kdf.DeriveSecrets
  modifies nothing
  fresh r
  ensures r.key == key && r.index == index

func chain.(*Key).BaseMaterial(c, seed) (r)
  labels C02
  modifies nothing
  ensures b(r) == HMAC(c.key, b(seed))
  fresh r

func chain.(*Key).NextKey(c) (r)
  labels C02 C03 C06
  modifies nothing
  fresh r, r.key
  ensures b(r.key) == CKNEXT(c.key)
  ensures r.index == u32(c.index + 1)

func chain.(*Key).MessageKeys(c) (r)
  labels C02
  modifies nothing
  fresh r
  ensures b(r.cipherKey) == MK(c.key)[:32]
  ensures b(r.macKey) == MK(c.key)[32:64]
  ensures b(r.iv) == MK(c.key)[64:80]
  ensures r.index == c.index

func root.NewKey(k, key) (r)
  labels C02
  requires k == kdf.DeriveSecrets
  modifies nothing
  fresh r
  ensures r.key == key

func root.(*Key).CreateChain(k, theirs, ours) (kp, err)
  labels C01 C02
  requires ours.privateKey != nil
  modifies nothing
  fresh kp
  ensures ok(err)
  ensures hastype(kp.RootKey, "*root.Key") && hastype(kp.ChainKey, "*chain.Key")
  ensures kp.RootKey != nil && kp.ChainKey != nil
  ensures b(kp.RootKey.key) == RKSTEP(k.key, DH(theirs.publicKey, ours.privateKey.privateKey))[:32]
  ensures b(kp.ChainKey.key) == RKSTEP(k.key, DH(theirs.publicKey, ours.privateKey.privateKey))[32:64]
  ensures kp.ChainKey.index == 0
  fresh kp.RootKey, kp.ChainKey

func ksession.NewDerivedSecrets(m) (r)
  inline
  labels C02
  requires len(m) >= 32
  modifies nothing
  fresh r
  ensures b(r.rootKey) == b(m)[:32] && b(r.chainKey) == b(m)[32:]
