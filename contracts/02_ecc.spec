# Key encoding, clamping, signatures, byte helpers.
func ecc.NewDjbECPublicKey(k) (r)
  labels C18
  modifies nothing
  fresh r
  ensures r.publicKey == k

func ecc.NewDjbECPrivateKey(k) (r)
  labels C18
  modifies nothing
  fresh r
  ensures r.privateKey == k

func ecc.(*DjbECPublicKey).Serialize(d) (r)
  labels C18 C11 C12
  modifies nothing
  fresh r
  ensures b(r) == cat("\x05", d.publicKey)

func ecc.(*DjbECPublicKey).PublicKey(d) (r)
  labels C18
  modifies nothing
  ensures r == d.publicKey

func ecc.(*DjbECPrivateKey).Serialize(d) (r)
  labels C18
  modifies nothing
  ensures r == d.privateKey

func ecc.DecodePoint(bs, offset) (k, err)
  labels C18
  modifies nothing
  case offset >= 0 && offset < len(bs) && bs[offset] == 5 && len(bs) - offset >= 33
    ensures ok(err)
    ensures k != nil
    ensures k.publicKey == b(bs)[offset+1 : offset+33]
    fresh k
  case !(offset >= 0 && offset < len(bs) && bs[offset] == 5 && len(bs) - offset >= 33)
    ensures !ok(err)
    ensures k == nil

func ecc.NewECKeyPair(pub, priv) (r)
  nilable priv
  labels C18
  modifies nothing
  fresh r
  ensures r.publicKey == pub && r.privateKey == priv

func ecc.CreateKeyPair(priv) (r)
  inline
  labels C18
  modifies nothing
  fresh r
  ensures r.privateKey != nil
  ensures imp(len(priv) == 32, r.privateKey.privateKey == clamp(b(priv)))
  ensures imp(len(priv) == 32, r.publicKey.publicKey == PUB(clamp(b(priv))))
  fresh r.privateKey, r.publicKey

func ecc.GenerateKeyPair() (r, err)
  inline
  labels C18
  modifies nothing
  ensures nev("rand.Read") == 1
  case ok(err)
    ensures ok(evres("rand.Read", 0, 1))
    ensures r != nil && r.privateKey != nil && r.publicKey != nil
    ensures r.privateKey.privateKey == clamp(evarg("rand.Read", 0, 0))
    ensures r.publicKey.publicKey == PUB(r.privateKey.privateKey)
    fresh r, r.privateKey, r.publicKey
  case !ok(err)
    ensures !ok(evres("rand.Read", 0, 1))
    ensures r == nil

func bytehelper.SliceToArray(bs) (r)
  modifies nothing
  ensures imp(len(bs) >= 32, r == b(bs)[:32])
  ensures imp(len(bs) < 32, r == cat(b(bs), rep(0, 32 - len(bs))))

func bytehelper.SliceToArray64(bs) (r)
  modifies nothing
  ensures imp(len(bs) >= 64, r == b(bs)[:64])
  ensures imp(len(bs) < 64, r == cat(b(bs), rep(0, 64 - len(bs))))

func bytehelper.ArrayToSlice(a) (r)
  modifies nothing
  ensures b(r) == a
  fresh r

func bytehelper.ArrayToSlice64(a) (r)
  modifies nothing
  ensures b(r) == a
  fresh r

func bytehelper.Trim(in, n) (r)
  labels C13
  requires n >= 0 && n <= len(in)
  modifies nothing
  ensures b(r) == b(in)[:n]
  fresh r

func bytehelper.CopySlice(in) (r)
  modifies nothing
  ensures b(r) == b(in)
  fresh r

func bytehelper.SplitThree(in, x, y, z) (r, err)
  inline
  modifies nothing
  requires x <= 1000000 && y <= 1000000 && z <= 1000000
  case x >= 0 && y >= 0 && z >= 0 && x + y + z <= len(in) && len(in) > 0
    ensures ok(err)
    ensures len(r) == 3
    ensures b(r[0]) == b(in)[:x]
    ensures b(r[1]) == b(in)[x:x+y]
    ensures b(r[2]) == b(in)[x+y:x+y+z]
    fresh r
  case x < 0 || y < 0 || z < 0 || x + y + z > len(in)
    ensures !ok(err)

func bytehelper.Bytes5ToInt64(bs, o) (r)
  labels C17
  requires o >= 0 && o + 5 <= len(bs)
  modifies nothing
  ensures r == bs[o]*4294967296 + bs[o+1]*16777216 + bs[o+2]*65536 + bs[o+3]*256 + bs[o+4]
