# X3DH.  Invariants: an identity key always carries its curve point.
inv identity.Key.publicKey nonnil
inv identity.KeyPair.publicKey nonnil

def X3(ms) = HKDF(ms, "", "WhisperText", 64)
# what each side hashes, in the order of the Signal specification
def SMASTER(ik, bk, tik, tspk) = cat(rep(255, 32), DH(tspk, ik), DH(tik, bk), DH(tspk, bk))
def RMASTER(ik, spk, tik, tbk) = cat(rep(255, 32), DH(tik, spk), DH(tbk, ik), DH(tbk, spk))

func identity.NewKey(p) (r)
  inline
  labels C18
  modifies nothing
  fresh r
  ensures r.publicKey == p

func identity.NewKeyFromBytes(p, offset) (r)
  labels C18
  modifies nothing
  ensures r.publicKey.publicKey == p

func identity.(*Key).PublicKey(k) (r)
  labels C18
  modifies nothing
  ensures r == k.publicKey

func identity.(*Key).Serialize(k) (r)
  labels C18 C11 C12
  modifies nothing
  fresh r
  ensures b(r) == cat("\x05", k.publicKey.publicKey)

func identity.NewKeyPair(p, s) (r)
  nilable s
  labels C18
  modifies nothing
  fresh r
  ensures r.publicKey == p && r.privateKey == s

func ratchet.genDiscontinuity() (r)
  labels C01
  modifies nothing
  ensures r == rep(255, 32)

func ratchet.CalculateSenderSession(p) (kp, err)
  labels C01
  requires p.ourIdentityKeyPair != nil && p.ourBaseKey != nil && p.theirIdentityKey != nil && p.theirSignedPreKey != nil
  requires p.ourIdentityKeyPair.privateKey != nil && p.ourBaseKey.privateKey != nil
  modifies nothing
  fresh kp
  let base = SMASTER(p.ourIdentityKeyPair.privateKey.privateKey, p.ourBaseKey.privateKey.privateKey, p.theirIdentityKey.publicKey.publicKey, p.theirSignedPreKey.publicKey)
  let four = cat(base, DH(p.theirOneTimePreKey.publicKey, p.ourBaseKey.privateKey.privateKey))
  let ms = ite(p.theirOneTimePreKey == nil, base, four)
  ensures ok(err)
  ensures hastype(kp.RootKey, "*root.Key") && hastype(kp.ChainKey, "*chain.Key")
  ensures kp.RootKey != nil && kp.ChainKey != nil
  ensures b(kp.RootKey.key) == X3(ms)[:32]
  ensures b(kp.ChainKey.key) == X3(ms)[32:64]
  ensures kp.ChainKey.index == 0
  fresh kp.RootKey, kp.ChainKey

func ratchet.CalculateReceiverSession(p) (kp, err)
  labels C01
  requires p.ourIdentityKeyPair != nil && p.ourSignedPreKey != nil && p.theirIdentityKey != nil && p.theirBaseKey != nil
  requires p.ourIdentityKeyPair.privateKey != nil && p.ourSignedPreKey.privateKey != nil
  requires p.ourOneTimePreKey == nil || p.ourOneTimePreKey.privateKey != nil
  modifies nothing
  fresh kp
  let base = RMASTER(p.ourIdentityKeyPair.privateKey.privateKey, p.ourSignedPreKey.privateKey.privateKey, p.theirIdentityKey.publicKey.publicKey, p.theirBaseKey.publicKey)
  let four = cat(base, DH(p.theirBaseKey.publicKey, p.ourOneTimePreKey.privateKey.privateKey))
  let ms = ite(p.ourOneTimePreKey == nil, base, four)
  ensures ok(err)
  ensures hastype(kp.RootKey, "*root.Key") && hastype(kp.ChainKey, "*chain.Key")
  ensures kp.RootKey != nil && kp.ChainKey != nil
  ensures b(kp.RootKey.key) == X3(ms)[:32]
  ensures b(kp.ChainKey.key) == X3(ms)[32:64]
  ensures kp.ChainKey.index == 0
  fresh kp.RootKey, kp.ChainKey

func ratchet.isSender(a, c) (r)
  labels C22
  modifies nothing
  ensures iff(r, lexlt(cat("\x05", a.publicKey), cat("\x05", c.publicKey)))

func ratchet.CalculateSymmetricSession(p) (kp, err)
  labels C22 C01
  requires p.OurIdentityKeyPair != nil && p.OurBaseKey != nil && p.TheirIdentityKey != nil && p.TheirBaseKey != nil
  requires p.OurIdentityKeyPair.privateKey != nil && p.OurBaseKey.privateKey != nil
  modifies nothing
  fresh kp
  let snd = lexlt(cat("\x05", p.OurBaseKey.publicKey.publicKey), cat("\x05", p.TheirBaseKey.publicKey))
  let mss = SMASTER(p.OurIdentityKeyPair.privateKey.privateKey, p.OurBaseKey.privateKey.privateKey, p.TheirIdentityKey.publicKey.publicKey, p.TheirBaseKey.publicKey)
  let msr = RMASTER(p.OurIdentityKeyPair.privateKey.privateKey, p.OurBaseKey.privateKey.privateKey, p.TheirIdentityKey.publicKey.publicKey, p.TheirBaseKey.publicKey)
  let ms = ite(snd, mss, msr)
  ensures ok(err)
  ensures kp.RootKey != nil && kp.ChainKey != nil
  ensures b(kp.RootKey.key) == X3(ms)[:32]
  ensures b(kp.ChainKey.key) == X3(ms)[32:64]
  ensures kp.ChainKey.index == 0
  fresh kp.RootKey, kp.ChainKey

# group ratchet
def GMK(seed) = HKDF(HMAC(seed, "\x01"), "", "WhisperGroup", 48)
def GNEXT(seed) = HMAC(seed, "\x02")

func gratchet.NewSenderMessageKey(iteration, seed) (r, err)
  labels C15
  modifies nothing
  fresh r
  ensures ok(err)
  ensures r.iteration == iteration && r.seed == seed
  ensures b(r.iv) == HKDF(b(seed), "", "WhisperGroup", 48)[:16]
  ensures b(r.cipherKey) == HKDF(b(seed), "", "WhisperGroup", 48)[16:48]

func gratchet.(*SenderChainKey).SenderMessageKey(k) (r, err)
  labels C15
  modifies nothing
  fresh r
  ensures ok(err)
  ensures r.iteration == k.iteration
  ensures b(r.seed) == HMAC(k.chainKey, "\x01")
  ensures b(r.iv) == GMK(k.chainKey)[:16]
  ensures b(r.cipherKey) == GMK(k.chainKey)[16:48]

func gratchet.(*SenderChainKey).Next(k) (r)
  labels C15
  modifies nothing
  fresh r, r.chainKey
  ensures r.iteration == u32(k.iteration + 1)
  ensures b(r.chainKey) == GNEXT(k.chainKey)
