# AES-CBC with PKCS#7 padding.
def PADN(n) = 16 - n % 16
def PADDED(p) = cat(p, rep(PADN(len(p)), PADN(len(p))))
# what decryption gives back for what was padded
def PADBACK(p) = B_PADOK(PADDED(p)) && UNPADDED(PADDED(p)) == p
def KEYLEN(n) = n == 16 || n == 24 || n == 32
def PADLEN(p) = nth(p, len(p)-1)
odef B_PADOK(p) = len(p) > 0 && PADLEN(p) >= 1 && PADLEN(p) <= 16 && PADLEN(p) <= len(p) && p[len(p)-PADLEN(p):] == rep(PADLEN(p), PADLEN(p))
odef UNPADDED(p) = p[:len(p) - PADLEN(p)]

func cipher.pkcs7Pad(in, bs) (r, err)
  labels C07
  requires bs == 16
  modifies nothing
  fresh r
  ensures ok(err)
  ensures b(r) == PADDED(b(in))

func cipher.pad(in, bs) (r)
  labels C07
  requires bs == 16
  modifies nothing
  fresh r
  ensures b(r) == PADDED(b(in))

func cipher.pkcs7Unpad(in, bs) (r, err)
  labels C07
  reveal B_PADOK, UNPADDED
  requires bs == 16
  modifies nothing
  case len(in) % 16 == 0 && B_PADOK(b(in))
    ensures ok(err)
    ensures r == sub(in, 0, len(in) - PADLEN(b(in)))
  case !(len(in) % 16 == 0 && B_PADOK(b(in)))
    ensures !ok(err)

func cipher.unpad(in) (r, err)
  labels C07
  reveal B_PADOK, UNPADDED
  requires len(in) > 0
  modifies nothing
  case B_PADOK(b(in))
    ensures ok(err)
    ensures r == sub(in, 0, len(in) - PADLEN(b(in)))
  case !B_PADOK(b(in))
    ensures !ok(err)

func cipher.Encrypt(iv, key, plain) (r, err)
  labels C07 C03 C14
  reveal B_PADOK, UNPADDED
  modifies nothing
  case KEYLEN(len(key)) && len(iv) == 16
    ensures ok(err)
    ensures b(r) == CBCENC(b(key), b(iv), PADDED(b(plain)))
    ensures PADBACK(b(plain))
    fresh r
  case !(KEYLEN(len(key)) && len(iv) == 16)
    ensures !ok(err)

func cipher.Decrypt(iv, key, ct) (r, err)
  labels C07 C04 C14
  reveal B_PADOK, UNPADDED
  modifies nothing
  let good = KEYLEN(len(key)) && len(iv) == 16 && len(ct) > 0 && len(ct) % 16 == 0
  let p = CBCDEC(b(key), b(iv), b(ct))
  case good && B_PADOK(p)
    ensures ok(err)
    ensures b(r) == UNPADDED(p)
    fresh r
  case !(good && B_PADOK(p))
    ensures !ok(err)

func cipher.DecryptCbc(iv, key, ct) (r, err)
  labels C07 C21
  reveal B_PADOK, UNPADDED
  nilable iv
  modifies nothing
  let civ = ite(iv == nil, b(ct)[:16], b(iv))
  let body = ite(iv == nil, b(ct)[16:], b(ct))
  let good = KEYLEN(len(key)) && len(ct) >= 16 && len(civ) == 16 && len(body) > 0 && len(body) % 16 == 0
  let p = CBCDEC(b(key), civ, body)
  case good && B_PADOK(p)
    ensures ok(err)
    ensures b(r) == UNPADDED(p)
    fresh r
  case !(good && B_PADOK(p))
    ensures !ok(err)

func cipher.EncryptCbc(iv, key, plain) (r, err)
  labels C07 C21
  reveal B_PADOK, UNPADDED
  nilable iv
  modifies nothing
  case KEYLEN(len(key)) && iv != nil && len(iv) == 16
    ensures nev("rand.Read") == 0
    ensures ok(err)
    ensures b(r) == CBCENC(b(key), b(iv), PADDED(b(plain)))
    ensures PADBACK(b(plain))
    fresh r
  case KEYLEN(len(key)) && iv == nil
    ensures nev("rand.Read") == 1
    ensures iff(ok(err), ok(evres("rand.Read", 0, 1)))
    ensures imp(ok(err), b(r) == cat(evarg("rand.Read", 0, 0), CBCENC(b(key), evarg("rand.Read", 0, 0), PADDED(b(plain)))))
    fresh r
  case iv != nil && (!KEYLEN(len(key)) || len(iv) != 16)
    ensures nev("rand.Read") == 0
    ensures !ok(err)
  case iv == nil && !KEYLEN(len(key))
    ensures !ok(err)
