# Signatures.  I_FV(limbs) is the field element a FieldElement stands for;
# I_LE255, FENC, I_FSUB, I_FADD, I_FMUL, I_FINV are decoding, encoding and the
# field operations modulo 2^255-19; W_SMULB is the multiple of the base point,
# EDENC its encoding, SCRED/SCMULADD reduction and a*b+c modulo the group order.
# XSIGN/XVERIFY below are what the code must compute out of these.

# The functions marked "arith" are verified over integer polynomials (see
# DESIGN.md): B_LIM(f, k) bounds the limbs by k*1.1*2^25 and k*1.1*2^24; I_SC is the
# multiple of the base point that coordinates stand for, B_EXT, B_CMP, B_PROJ,
# B_PRE that they stand for a point of the curve in extended, completed,
# projective and precomputed form.
def LIM2(f) = B_LIM(f, 1) || B_LIM(f, 2)
def LIM3(f) = B_LIM(f, 1) || B_LIM(f, 2) || B_LIM(f, 3)
def EXT(p) = B_EXT(p.X, p.Y, p.Z, p.T)
def CMP(p) = B_CMP(p.X, p.Y, p.Z, p.T)
def PROJ(p) = B_PROJ(p.X, p.Y, p.Z)
def PRE(p) = B_PRE(p.yPlusX, p.yMinusX, p.xy2d)
def SC4(p) = I_SC(p.X, p.Y, p.Z, p.T)
def SC3(p) = I_SC(p.X, p.Y, p.Z)
def SCQ(p) = I_SC(p.yPlusX, p.yMinusX, p.xy2d)

func edwards25519.FeFromBytes(dst, src)
  arith
  labels C19
  modifies *dst
  ensures I_FV(*dst) == I_LE255(old(*src))
  ensures B_LIM(*dst, 1)

func edwards25519.FeOne(fe)
  arith inline
  labels C19
  modifies *fe
  ensures I_FV(*fe) == 1
  ensures B_LIM(*fe, 1)

func edwards25519.FeSub(dst, a, c)
  arith inline
  labels C19
  requires B_LIM(*a, 1)
  requires B_LIM(*c, 1)
  modifies *dst
  ensures I_FV(*dst) == I_FSUB(I_FV(old(*a)), I_FV(old(*c)))
  ensures B_LIM(*dst, 2)

func edwards25519.FeAdd(dst, a, c)
  arith inline
  labels C19
  requires B_LIM(*a, 1)
  requires B_LIM(*c, 1)
  modifies *dst
  ensures I_FV(*dst) == I_FADD(I_FV(old(*a)), I_FV(old(*c)))
  ensures B_LIM(*dst, 2)

func edwards25519.FeMul(h, f, g)
  arith
  labels C19
  requires LIM3(*f)
  requires LIM3(*g)
  modifies *h
  ensures I_FV(*h) == I_FMUL(I_FV(old(*f)), I_FV(old(*g)))
  ensures B_LIM(*h, 1)

func edwards25519.FeSquare(h, f)
  arith
  labels C19
  requires LIM3(*f)
  modifies *h
  ensures I_FV(*h) == I_FMUL(I_FV(old(*f)), I_FV(old(*f)))
  ensures B_LIM(*h, 1)

func edwards25519.FeSquare2(h, f)
  arith
  labels C19
  requires LIM3(*f)
  modifies *h
  ensures I_FV(*h) == I_FMUL(2, I_FMUL(I_FV(old(*f)), I_FV(old(*f))))
  ensures B_LIM(*h, 1)

func edwards25519.FeInvert(out, z)
  arith
  labels C19
  requires LIM3(*z)
  modifies *out
  ensures I_FV(*out) == I_FINV(I_FV(old(*z)))
  ensures B_LIM(*out, 1)

func edwards25519.FeToBytes(s, h)
  arith
  labels C19
  requires B_LIM(*h, 1)
  modifies *s, *h
  ensures *s == FENC(I_FV(old(*h)))
  ensures I_FV(*h) == I_FV(old(*h))
  ensures B_LIM(*h, 2)

func edwards25519.FeIsNegative(f) (r)
  arith
  labels C19
  requires B_LIM(*f, 1)
  modifies *f
  ensures r == nth(FENC(I_FV(old(*f))), 0) & 1
  ensures I_FV(*f) == I_FV(old(*f))
  ensures B_LIM(*f, 2)

func edwards25519.(*ExtendedGroupElement).Zero(p)
  arith
  labels C19
  modifies p.all
  ensures EXT(p)
  ensures SC4(p) == 0

func edwards25519.(*ExtendedGroupElement).ToProjective(p, r)
  arith
  labels C19
  requires EXT(p)
  modifies r.all
  ensures PROJ(r)
  ensures SC3(r) == old(SC4(p))

func edwards25519.(*ExtendedGroupElement).Double(p, r)
  arith
  labels C19
  requires EXT(p)
  modifies r.all
  ensures CMP(r)
  ensures SC4(r) == 2*old(SC4(p))

func edwards25519.(*ProjectiveGroupElement).Double(p, r)
  arith
  labels C19
  requires PROJ(p)
  modifies r.all
  ensures CMP(r)
  ensures SC4(r) == 2*old(SC3(p))

func edwards25519.(*CompletedGroupElement).ToProjective(p, r)
  arith
  labels C19
  requires CMP(p)
  modifies r.all
  ensures PROJ(r)
  ensures SC3(r) == old(SC4(p))

func edwards25519.(*CompletedGroupElement).ToExtended(p, r)
  arith
  labels C19
  requires CMP(p)
  modifies r.all
  ensures EXT(r)
  ensures SC4(r) == old(SC4(p))

func edwards25519.geMixedAdd(r, p, q)
  arith
  labels C19
  requires EXT(p)
  requires PRE(q)
  modifies r.all
  ensures CMP(r)
  ensures SC4(r) == old(SC4(p)) + old(SCQ(q))

func edwards25519.selectPoint(t, pos, c)
  arith
  labels C19
  requires 0 <= pos && pos <= 31
  requires -8 <= c && c <= 16
  modifies t.all
  ensures PRE(t)
  case c <= 8
  ensures SCQ(t) == c*I_POW2(8*pos)
  case c >= 9
  ensures SCQ(t) == 0

func edwards25519.GeScalarMultBase(h, a)
  arith
  labels C19
  modifies h.all
  ensures EXT(h)
  case nth(*a, 31) <= 127
  ensures SC4(h) == I_LE(old(*a))
  case nth(*a, 31) >= 128
  ensures SC4(h) == I_SCX(old(*a))

func edwards25519.(*ExtendedGroupElement).ToBytes(p, s)
  arith
  labels C19
  requires EXT(p)
  modifies *s
  ensures *s == EDENC(SC4(p))

func edwards25519.ScReduce(out, s)
  arith
  labels C19
  modifies *out
  ensures *out == SCRED(old(*s))

func edwards25519.ScMulAdd(s, a, c, d)
  arith
  labels C19
  modifies *s
  ensures *s == SCMULADD(old(*a), old(*c), old(*d))

# A point multiple, encoded.
def EDMUL(k) = EDENC(ite(nth(k, 31) <= 127, I_LE(k), I_SCX(k)))
def DIVERSE() = cat("\xfe", rep(255, 31))
def TOPBIT(x) = ite(nth(x, 31) >= 128, 128, 0)
def SIGR(k, m, z) = SCRED(SHA512(cat(DIVERSE(), k, m, z)))
def SIGS(k, m, z) = SCMULADD(SCRED(SHA512(cat(EDMUL(SIGR(k, m, z)), EDMUL(k), m))), k, SIGR(k, m, z))
odef XSIGN(k, m, z) = cat(EDMUL(SIGR(k, m, z)), SIGS(k, m, z)[:31], unit(nth(SIGS(k, m, z), 31) | (nth(EDMUL(k), 31) & 128)))
# Montgomery u to Edwards y, with the sign bit the signature carries.
def EDY(u) = FENC(I_FMUL(I_FSUB(u, 1), I_FINV(I_FADD(u, 1))))
def MONT(pub) = I_LE255(cat(pub[:31], unit(nth(pub, 31) & 127)))
odef XVERIFY(pub, m, s) = EDVERIFY(cat(EDY(MONT(pub))[:31], unit(nth(EDY(MONT(pub)), 31) | (nth(s, 63) & 128))), m, cat(s[:63], unit(nth(s, 63) & 127)))

func ecc.sign(privateKey, m, random) (r)
  reveal XSIGN
  labels C19 C20
  modifies nothing
  fresh r
  ensures len(*r) == 64
  ensures *r == XSIGN(*privateKey, b(m), random)

func ecc.verify(pub, m, s) (r)
  reveal XVERIFY
  labels C19
  modifies *s
  ensures r == XVERIFY(pub, b(m), old(*s))
  ensures *s == cat(old(*s)[:63], unit(nth(old(*s), 63) & 127))

func ecc.VerifySignature(k, m, s) (r)
  labels C19 C20
  modifies nothing
  ensures r == XVERIFY(k.publicKey, b(m), s)

func ecc.CalculateSignature(k, m) (r)
  inline
  labels C19 C20
  modifies nothing
  ensures nev("rand.Read") == 1
  ensures r == XSIGN(k.privateKey, b(m), evarg("rand.Read", 0, 0))
