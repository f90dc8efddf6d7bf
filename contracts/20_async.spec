# Asynchronous variants (C25). The goroutine they start is executed at the go
# statement (see afterGo in gover/exec.go for why any schedule gives the same).

func keyhelper.GenerateIdentityKeyPairAsync(co) ()
  labels C25
  emits Completionable.OnSuccess, Completionable.OnFailure
  modifies nothing
  ensures nev("OnSuccess") + nev("OnFailure") == 1
  ensures nev("rand.Read") == 1
  ensures iff(nev("OnSuccess") == 1, ok(evres("rand.Read", 0, 1)))
  let r = evarg("OnSuccess", 0, 0)
  let kp = typed(r.Data, "*identity.KeyPair")
  ensures imp(nev("OnSuccess") == 1, hastype(at("OnSuccess", 0, r.Data), "*identity.KeyPair"))
  ensures imp(nev("OnSuccess") == 1, at("OnSuccess", 0, kp.privateKey.privateKey) == clamp(evarg("rand.Read", 0, 0)))
  ensures imp(nev("OnSuccess") == 1, at("OnSuccess", 0, kp.publicKey.publicKey.publicKey) == PUB(clamp(evarg("rand.Read", 0, 0))))

func ecc.VerifySignatureAsync(k, m, s, co) ()
  labels C25
  emits Completionable.OnSuccess, Completionable.OnFailure
  modifies nothing
  ensures nev("OnSuccess") + nev("OnFailure") == 1
  ensures iff(nev("OnSuccess") == 1, XVERIFY(k.publicKey, b(m), s))
  let r = evarg("OnSuccess", 0, 0)
  ensures imp(nev("OnSuccess") == 1, at("OnSuccess", 0, isboxed(r.Data, "bool") && boxed(r.Data, "bool")))

func ecc.CalculateSignatureAsync(k, m, co) ()
  labels C25
  emits Completionable.OnSuccess, Completionable.OnFailure
  modifies nothing
  ensures nev("OnSuccess") + nev("OnFailure") == 1
  ensures nev("rand.Read") == 1
  let sig = XSIGN(k.privateKey, b(m), evarg("rand.Read", 0, 0))
  ensures iff(nev("OnFailure") == 1, sig == rep(0, 64))
  let r = evarg("OnSuccess", 0, 0)
  ensures imp(nev("OnSuccess") == 1, at("OnSuccess", 0, isboxed(r.Data, "[64]byte") && boxed(r.Data, "[64]byte") == sig))
