# Provisioning envelopes: B64DEC and J_* are what base64 and JSON decoding yield.
def PVENV(content) = B64DEC(content)
def PVSEC(pk, content) = HKDF(DH(J_PublicKey(B64DEC(content))[1:33], ite(len(B64DEC(pk)) >= 32, B64DEC(pk)[:32], cat(B64DEC(pk), rep(0, 32 - len(B64DEC(pk)))))), "", "Mixin Provisioning Message", 64)

func provision.verifyMAC(key, input, mac) (r)
  labels C21
  modifies nothing
  ensures iff(r, HMAC(b(key), b(input)) == b(mac))

func provision.Decrypt(pk, content) (r, err)
  labels C21
  modifies nothing
  let env = B64DEC(content)
  let pub = J_PublicKey(env)
  let body = J_Body(env)
  let sec = PVSEC(pk, content)
  let n = len(body)
  let formed = B_B64OK(pk) && B_B64OK(content) && B_JSON(env) && POINTOK(pub) && n >= 49 && nth(body, 0) == 1
  let auth = HMAC(sec[32:64], body[:n-32]) == body[n-32:]
  let ct = body[17:n-32]
  let p = CBCDEC(sec[:32], body[1:17], ct)
  let good = formed && auth && len(ct) >= 16 && len(ct) % 16 == 0 && B_PADOK(p)
  case good
    ensures ok(err)
    ensures r == UNPADDED(p)
  case !good
    ensures !ok(err)
    ensures r == ""
