package main

// The arithmetic back end: contracts marked "arith" are verified by executing
// the SSA of the function over integer polynomials.  Machine integers are
// exact: every operation either keeps within its type or subtracts the
// multiple of 2^width that the wrap takes away; shifts and masks introduce
// the floor quotient as an unknown with its interval.  Goals are polynomial
// identities modulo p or l, interval bounds, and (for the canonical encodings)
// linear integer arithmetic given to z3.  Loops are executed; their bounds must
// be constants.  Parameters with a bounded integer range are enumerated.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	feP, _   = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	scL, _   = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	edD      = modP(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), feP)))
	edY      = modP(new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), feP)))
	edX      = edBaseX()
	feP1     = new(big.Int).Sub(feP, bigOne)
	feUnit   = [2]int64{36909875, 18454937} // 1.1*2^25, 1.1*2^24
	feWeight = func() (w [10]*big.Int) {
		e := uint(0)
		for i := range w {
			w[i] = bpow(e)
			e += 26 - uint(i&1)
		}
		return
	}()
)

func modP(x *big.Int) *big.Int { return new(big.Int).Mod(x, feP) }
func mulP(a, b *big.Int) *big.Int {
	return modP(new(big.Int).Mul(a, b))
}
func invP(a *big.Int) *big.Int {
	if modP(a).Sign() == 0 {
		return bigZero
	}
	return new(big.Int).ModInverse(modP(a), feP)
}

func edBaseX() *big.Int {
	// -x^2 + y^2 = 1 + d x^2 y^2, x even
	yy := mulP(edY, edY)
	xx := mulP(new(big.Int).Sub(yy, bigOne), invP(new(big.Int).Add(bigOne, mulP(edD, yy))))
	x := new(big.Int).ModSqrt(xx, feP)
	if x.Bit(0) == 1 {
		x.Sub(feP, x)
	}
	return x
}

type affine struct{ x, y *big.Int }

func edAdd(a, b affine) affine {
	t := mulP(edD, mulP(mulP(a.x, b.x), mulP(a.y, b.y)))
	x := mulP(new(big.Int).Add(mulP(a.x, b.y), mulP(b.x, a.y)), invP(new(big.Int).Add(bigOne, t)))
	y := mulP(new(big.Int).Add(mulP(a.y, b.y), mulP(a.x, b.x)), invP(new(big.Int).Sub(bigOne, t)))
	return affine{x, y}
}

func edMul(k *big.Int) affine {
	r := affine{bigZero, bigOne}
	b := affine{edX, edY}
	if k.Sign() < 0 {
		b.x = modP(new(big.Int).Neg(b.x))
		k = new(big.Int).Neg(k)
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, b)
		}
	}
	return r
}

// ---- values ----

type aatom struct {
	name  string
	iv    ival
	field bool // an element of the field, no interval
	nz    bool // not zero in the field
	def   Poly // equals
	modp  Poly // equals modulo p
	shD   Poly // floor of shD / 2^shN
	shN   uint
	shI   ival // interval of shD
}

type AVal interface{}

type aint struct {
	p  Poly
	iv ival
}
type aptr struct{ n *anode }
type aslice struct {
	n        *anode
	off, len int
}
type atup struct{ v []AVal }
type axor struct{ a, b *aint }

type anode struct {
	t      types.Type
	parent *anode
	kids   []*anode
	v      AVal
	abs    *aabs
	frozen bool
	rep    string
	sc     Poly // the multiple of the base point a parameter stands for
}

type aabs struct {
	kind string // fe, bytes, pt
	val  Poly
	lim  int
	rep  string // pt: B_EXT, B_CMP, B_PROJ, B_PRE
	id   int
}

// gval is a point in affine coordinates nx/dx, ny/dy.
type gval struct{ nx, dx, ny, dy Poly }

type arith struct {
	P       *Program
	con     *Contract
	root    string
	atoms   []*aatom
	keys    map[string]int
	hints   map[string]ival
	globals map[*ssa.Global]*anode
	curve   [][2]int      // atoms x, y of curve points
	points  map[int]*gval // coordinates of the point parameters, by the atom of their multiple
	ids     int
	steps   int
	obls    []*Obl
	site    string
	tag     string
	used    map[string]bool
	inlined map[string]bool
	trust   map[string]bool
	solver  float64
	restr   map[string]ival // restrictions of input bytes by the case guard
	initing bool
	runs    int
}

func newArith(P *Program, con *Contract) *arith {
	return &arith{P: P, con: con, root: con.name, keys: map[string]int{}, hints: map[string]ival{}, globals: map[*ssa.Global]*anode{}, used: map[string]bool{}, inlined: map[string]bool{}, trust: map[string]bool{}, restr: map[string]ival{}, points: map[int]*gval{}}
}

func (a *arith) atom(key string, mk func() *aatom) int {
	if i, ok := a.keys[key]; ok && key != "" {
		return i
	}
	a.atoms = append(a.atoms, mk())
	i := len(a.atoms) - 1
	if key != "" {
		a.keys[key] = i
	}
	return i
}

func (a *arith) input(name string, lo, hi *big.Int) *aint {
	iv := ival{lo, hi}
	if r, ok := a.restr[name]; ok {
		iv = iv.meet(r)
	}
	if c, ok := iv.point(); ok {
		return a.cst(c)
	}
	i := a.atom("in:"+name, func() *aatom { return &aatom{name: name, iv: iv} })
	return &aint{patom(i), a.atoms[i].iv}
}

func (a *arith) fieldAtom(name string, nz bool) Poly {
	i := a.atom("f:"+name, func() *aatom { return &aatom{name: name, field: true, nz: nz} })
	return patom(i)
}

func (a *arith) cst(c *big.Int) *aint { return &aint{pconst(c), ival{c, c}} }

// mk builds a value from a polynomial and an interval; a sum that is known to
// be smaller than its terms suggest (a remainder) gets a name.
func (a *arith) mk(p Poly, iv ival) *aint {
	if c, ok := p.isConst(); ok {
		return a.cst(c)
	}
	q, c := p.split()
	if h, ok := a.hints[q.key()]; ok {
		iv = iv.meet(ival{new(big.Int).Add(h.lo, c), new(big.Int).Add(h.hi, c)})
		if c, ok := iv.point(); ok {
			return a.cst(c)
		}
		if len(p) > 1 {
			return &aint{a.name(p, iv), iv}
		}
	}
	if c, ok := iv.point(); ok {
		return a.cst(c)
	}
	return &aint{p, iv}
}

func (a *arith) name(p Poly, iv ival) Poly {
	i := a.atom("n:"+p.key(), func() *aatom { return &aatom{name: "n", iv: iv, def: p} })
	a.atoms[i].iv = a.atoms[i].iv.meet(iv)
	return patom(i)
}

func (a *arith) monoIval(m string) ival {
	r := ival{bigOne, bigOne}
	for _, f := range factors(m) {
		at := a.atoms[f.atom]
		if at.field {
			unsupported("a field element used as an integer")
		}
		n := int(f.exp.Int64())
		iv := at.iv
		for i := 1; i < n; i++ {
			iv = iv.mul(at.iv)
		}
		if n == 2 && iv.lo.Sign() < 0 {
			iv.lo = bigZero
		}
		r = r.mul(iv)
	}
	return r
}

func (a *arith) polyIval(p Poly) ival {
	r := ival{bigZero, bigZero}
	for m, c := range p {
		r = r.add(a.monoIval(m).mul(ival{c, c}))
	}
	q, c := p.split()
	if h, ok := a.hints[q.key()]; ok {
		r = r.meet(ival{new(big.Int).Add(h.lo, c), new(big.Int).Add(h.hi, c)})
	}
	return r
}

// floorDiv is floor(p / 2^n) for a polynomial within iv.
func (a *arith) floorDiv(p Poly, iv ival, n uint) Poly {
	if n == 0 {
		return p
	}
	q := iv.rsh(n)
	if c, ok := q.point(); ok {
		return pconst(c)
	}
	e, r := p.pull(n)
	if len(e) == 0 {
		return a.floorRest(r, iv, n)
	}
	return padd(e, a.floorRest(r, a.polyIval(r), n))
}

func (a *arith) floorRest(r Poly, iv ival, n uint) Poly {
	if c, ok := r.isConst(); ok {
		return pconst(new(big.Int).Rsh(c, n))
	}
	q := iv.rsh(n)
	if c, ok := q.point(); ok {
		return pconst(c)
	}
	if len(r) == 1 {
		for m, c := range r {
			fs := factors(m)
			if c.Cmp(bigOne) == 0 && len(fs) == 1 && fs[0].exp.Cmp(bigOne) == 0 {
				if at := a.atoms[fs[0].atom]; at.shD != nil {
					return a.floorDiv(at.shD, at.shI, at.shN+n)
				}
			}
		}
	}
	for k := n - 1; k >= 1; k-- {
		h, low := r.pull(k)
		if len(h) == 0 {
			continue
		}
		if len(low) > 0 {
			li := a.polyIval(low)
			if li.lo.Sign() < 0 || li.hi.Cmp(bpow(k)) >= 0 {
				continue
			}
		}
		hi := iv.rsh(k)
		return a.floorDiv(h, hi, n-k)
	}
	if r.linear() {
		for m, c := range r {
			fs := factors(m)
			if c.Cmp(bigOne) != 0 || len(fs) != 1 {
				continue
			}
			at := a.atoms[fs[0].atom]
			if at.shD == nil || !at.shD.linear() {
				continue
			}
			k := at.shN
			rest := paddm(r, patom(fs[0].atom), big.NewInt(-1))
			d := paddm(at.shD, rest, bpow(k))
			di := ival{new(big.Int).Lsh(iv.lo, k), new(big.Int).Sub(new(big.Int).Lsh(new(big.Int).Add(iv.hi, bigOne), k), bigOne)}
			return a.quot(d, di, k+n)
		}
	}
	return a.quot(r, iv, n)
}

// quot is the unknown floor(r / 2^n).
func (a *arith) quot(r Poly, iv ival, n uint) Poly {
	q := iv.rsh(n)
	i := a.atom(fmt.Sprintf("q%d:%s", n, r.key()), func() *aatom {
		return &aatom{name: "q", iv: q, shD: r, shN: n, shI: iv}
	})
	// the same quotient may be met again with a better interval
	at := a.atoms[i]
	at.iv, at.shI = at.iv.meet(q), at.shI.meet(iv)
	if c, ok := at.iv.point(); ok {
		return pconst(c)
	}
	return patom(i)
}

func (a *arith) rsh(v *aint, n uint) *aint {
	if n == 0 {
		return v
	}
	q := a.floorDiv(v.p, v.iv, n)
	rem := paddm(v.p, q, new(big.Int).Neg(bpow(n)))
	a.hint(rem, bigZero, new(big.Int).Sub(bpow(n), bigOne))
	return a.mk(q, v.iv.rsh(n))
}

func (a *arith) hint(p Poly, lo, hi *big.Int) {
	q, c := p.split()
	if len(q) == 0 {
		return
	}
	iv := ival{new(big.Int).Sub(lo, c), new(big.Int).Sub(hi, c)}
	k := q.key()
	if o, ok := a.hints[k]; ok {
		iv = iv.meet(o)
	}
	a.hints[k] = iv
}

// mod2 is v mod 2^n.
func (a *arith) mod2(v *aint, n uint) *aint {
	max := new(big.Int).Sub(bpow(n), bigOne)
	if v.iv.within(bigZero, max) {
		return v
	}
	q := a.rsh(v, n)
	r := paddm(v.p, q.p, new(big.Int).Neg(bpow(n)))
	a.hint(r, bigZero, max)
	x := a.mk(r, ival{bigZero, max})
	return x
}

func intBits(t types.Type) (uint, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeIval(bits uint, signed bool) ival {
	if signed {
		h := bpow(bits - 1)
		return ival{new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)}
	}
	return ival{bigZero, new(big.Int).Sub(bpow(bits), bigOne)}
}

// wrap brings a mathematical value into its machine type.
func (a *arith) wrap(v *aint, t types.Type) *aint {
	bits, signed, ok := intBits(t)
	if !ok {
		unsupported("integer type %v", t)
	}
	ti := typeIval(bits, signed)
	if v.iv.within(ti.lo, ti.hi) {
		return v
	}
	if c, ok := v.p.isConst(); ok {
		m := new(big.Int).Mod(c, bpow(bits))
		if signed && m.Bit(int(bits-1)) == 1 {
			m.Sub(m, bpow(bits))
		}
		return a.cst(m)
	}
	if !signed {
		return a.mod2(v, bits)
	}
	// signed: v - 2^bits * floor((v + 2^(bits-1)) / 2^bits)
	h := bpow(bits - 1)
	w := a.floorDiv(padd(v.p, pconst(h)), v.iv.add(ival{h, h}), bits)
	return a.mk(paddm(v.p, w, new(big.Int).Neg(bpow(bits))), ti)
}

func (a *arith) binop(op token.Token, x, y AVal, t types.Type) AVal {
	if xb, ok := x.(bool); ok {
		yb, ok := y.(bool)
		if !ok {
			unsupported("comparison")
		}
		switch op {
		case token.EQL:
			return xb == yb
		case token.NEQ:
			return xb != yb
		}
	}
	if op == token.XOR {
		if r, ok := a.unxor(x, y); ok {
			return r
		}
		if r, ok := a.unxor(y, x); ok {
			return r
		}
	}
	if op == token.AND {
		if _, ok := x.(*axor); ok {
			x, y = y, x
		}
		if ax, ok := y.(*axor); ok {
			if c, ok := x.(*aint).p.isConst(); ok {
				if c.Sign() == 0 {
					return a.cst(bigZero)
				}
				if bits, signed, _ := intBits(t); signed && c.Cmp(big.NewInt(-1)) == 0 || !signed && new(big.Int).Add(c, bigOne).Cmp(bpow(bits)) == 0 {
					return ax
				}
			}
			unsupported("mask of a symbolic exclusive or")
		}
	}
	p, ok1 := x.(*aint)
	q, ok2 := y.(*aint)
	if !ok1 || !ok2 {
		unsupported("operator %v on %T, %T", op, x, y)
	}
	cx, kx := p.p.isConst()
	cy, ky := q.p.isConst()
	switch op {
	case token.ADD:
		return a.wrap(a.mk(padd(p.p, q.p), p.iv.add(q.iv)), t)
	case token.SUB:
		return a.wrap(a.mk(psub(p.p, q.p), p.iv.add(q.iv.neg())), t)
	case token.MUL:
		u, v := p.p, q.p
		if !kx && !ky {
			u, v = a.named(p), a.named(q)
		}
		return a.wrap(a.mk(pmul(u, v), p.iv.mul(q.iv)), t)
	case token.SHL:
		if !ky || cy.Sign() < 0 || cy.Cmp(big.NewInt(64)) >= 0 {
			unsupported("shift by a symbolic amount")
		}
		k := bpow(uint(cy.Int64()))
		return a.wrap(a.mk(pscale(p.p, k), p.iv.mul(ival{k, k})), t)
	case token.SHR:
		if !ky || cy.Sign() < 0 || cy.Cmp(big.NewInt(64)) >= 0 {
			unsupported("shift by a symbolic amount")
		}
		return a.rsh(p, uint(cy.Int64()))
	case token.QUO, token.REM:
		if kx && ky && cy.Sign() != 0 {
			if op == token.QUO {
				return a.wrap(a.cst(new(big.Int).Quo(cx, cy)), t)
			}
			return a.cst(new(big.Int).Rem(cx, cy))
		}
		if ky && cy.Sign() > 0 && p.iv.lo.Sign() >= 0 && cy.TrailingZeroBits() == uint(cy.BitLen()-1) {
			n := uint(cy.BitLen() - 1)
			if op == token.QUO {
				return a.rsh(p, n)
			}
			return a.mod2(p, n)
		}
		unsupported("division")
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := psub(p.p, q.p)
		iv := p.iv.add(q.iv.neg())
		if len(d) == 0 {
			iv = ival{bigZero, bigZero}
		} else if c, ok := d.isConst(); ok {
			iv = ival{c, c}
		} else {
			iv = a.mk(d, iv).iv
		}
		lt, gt := iv.hi.Sign() < 0, iv.lo.Sign() > 0
		le, ge := iv.hi.Sign() <= 0, iv.lo.Sign() >= 0
		eq := le && ge
		switch op {
		case token.EQL, token.NEQ:
			if eq || lt || gt {
				return eq == (op == token.EQL)
			}
		case token.LSS:
			if lt || ge {
				return lt
			}
		case token.LEQ:
			if le || gt {
				return le
			}
		case token.GTR:
			if gt || le {
				return gt
			}
		case token.GEQ:
			if ge || lt {
				return ge
			}
		}
		unsupported("branch on a symbolic condition at %s", a.site)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if kx && ky {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(cx, cy)
			case token.OR:
				r.Or(cx, cy)
			case token.XOR:
				r.Xor(cx, cy)
			default:
				r.AndNot(cx, cy)
			}
			return a.wrap(a.cst(r), t)
		}
		if op == token.AND_NOT && ky {
			return a.wrap(a.mk(psub(p.p, a.maskBy(p, cy, t).p), p.iv.add(a.maskBy(p, cy, t).iv.neg())), t)
		}
		if op == token.AND {
			if kx {
				return a.maskBy(q, cx, t)
			}
			if ky {
				return a.maskBy(p, cy, t)
			}
			unsupported("and of two symbolic values")
		}
		if r := a.disjoint(p, q); r != nil {
			return a.wrap(r, t)
		}
		if r := a.disjoint(q, p); r != nil {
			return a.wrap(r, t)
		}
		if op == token.XOR {
			if len(psub(p.p, q.p)) == 0 {
				return a.cst(bigZero)
			}
			return &axor{p, q}
		}
		if op == token.OR && len(psub(p.p, q.p)) == 0 {
			return p
		}
		unsupported("%v of values that may share bits at %s", op, a.site)
	}
	unsupported("operator %v", op)
	return nil
}

// named gives a long factor of a product a name.
func (a *arith) named(v *aint) Poly {
	if len(v.p) <= 1 {
		return v.p
	}
	return a.name(v.p, v.iv)
}

// unxor: y ^ x where x is an exclusive or that y takes part in, or zero.
func (a *arith) unxor(x, y AVal) (AVal, bool) {
	ax, ok := x.(*axor)
	if !ok {
		return nil, false
	}
	q, ok := y.(*aint)
	if !ok {
		return nil, false
	}
	if len(psub(ax.a.p, q.p)) == 0 {
		return ax.b, true
	}
	if len(psub(ax.b.p, q.p)) == 0 {
		return ax.a, true
	}
	if c, ok := q.p.isConst(); ok && c.Sign() == 0 {
		return ax, true
	}
	return nil, false
}

// maskBy is v & c for a constant c whose ones are contiguous.
func (a *arith) maskBy(v *aint, c *big.Int, t types.Type) *aint {
	if c.Sign() == 0 {
		return a.cst(bigZero)
	}
	bits, _, _ := intBits(t)
	m := new(big.Int).Mod(c, bpow(bits)) // the bit pattern
	lo := m.TrailingZeroBits()
	w := new(big.Int).Rsh(m, lo)
	n := uint(w.BitLen())
	if new(big.Int).Add(w, bigOne).Cmp(bpow(n)) != 0 {
		unsupported("mask %v", c)
	}
	r := v
	if lo+n < bits {
		r = a.mod2(v, lo+n)
	}
	if lo > 0 {
		low := a.mod2(r, lo)
		r = a.mk(psub(r.p, low.p), r.iv.add(low.iv.neg()))
	}
	return r
}

// disjoint: x in [0, 2^k) and y a multiple of 2^k: or and exclusive or are sums.
func (a *arith) disjoint(x, y *aint) *aint {
	if c, ok := y.p.isConst(); ok && c.Sign() == 0 {
		return x
	}
	if x.iv.lo.Sign() < 0 {
		return nil
	}
	k := uint(x.iv.hi.BitLen())
	if k == 0 {
		return y
	}
	if _, r := y.p.pull(k); len(r) != 0 {
		return nil
	}
	return a.mk(padd(x.p, y.p), x.iv.add(y.iv))
}

// ---- memory ----

func (a *arith) newNode(t types.Type, parent *anode) *anode {
	n := &anode{t: t, parent: parent}
	switch u := t.Underlying().(type) {
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			n.kids = append(n.kids, a.newNode(u.Elem(), n))
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n.kids = append(n.kids, a.newNode(u.Field(i).Type(), n))
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			n.v = a.cst(bigZero)
		case u.Info()&types.IsBoolean != 0:
			n.v = false
		}
	}
	return n
}

func (n *anode) copy(parent *anode) *anode {
	m := &anode{t: n.t, parent: parent, v: n.v, sc: n.sc, rep: n.rep}
	if n.abs != nil {
		c := *n.abs
		m.abs = &c
	}
	for _, k := range n.kids {
		m.kids = append(m.kids, k.copy(m))
	}
	return m
}

func isFE(t types.Type) bool {
	u, ok := t.Underlying().(*types.Array)
	if !ok || u.Len() != 10 {
		return false
	}
	b, ok := u.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isBytes(t types.Type) bool {
	u, ok := t.Underlying().(*types.Array)
	if !ok {
		return false
	}
	b, ok := u.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func limIval(i, lim int) ival {
	if lim <= 0 {
		return typeIval(32, true)
	}
	h := big.NewInt(feUnit[i&1] * int64(lim))
	return ival{new(big.Int).Neg(h), h}
}

// open makes the parts of a node readable one by one.
func (a *arith) open(n *anode) {
	if n.abs == nil {
		return
	}
	ab := n.abs
	n.abs = nil
	switch ab.kind {
	case "fe":
		id := fmt.Sprintf("limb%d:%d", ab.lim, ab.id)
		sum := Poly{}
		for i := 9; i >= 0; i-- {
			i := i
			k := a.atom(fmt.Sprintf("%s:%d", id, i), func() *aatom {
				at := &aatom{name: fmt.Sprintf("limb%d", i), iv: limIval(i, ab.lim)}
				if i == 0 {
					at.modp = psub(ab.val, sum)
				}
				return at
			})
			sum = paddm(sum, patom(k), feWeight[i])
			n.kids[i].v = &aint{patom(k), a.atoms[k].iv}
		}
	case "bytes":
		id := "byte:" + a.norm(ab.val, feP).key()
		sum := Poly{}
		for i := 31; i >= 0; i-- {
			i := i
			k := a.atom(fmt.Sprintf("%s:%d", id, i), func() *aatom {
				at := &aatom{name: fmt.Sprintf("byte%d", i), iv: ival{bigZero, big.NewInt(255)}}
				if i == 31 {
					at.iv.hi = big.NewInt(127)
				}
				if i == 0 {
					at.modp = psub(ab.val, sum)
				}
				return at
			})
			sum = paddm(sum, patom(k), bpow(uint(8*i)))
			n.kids[i].v = &aint{patom(k), a.atoms[k].iv}
		}
	default:
		unsupported("the coordinates of a point that is known as a multiple of the base point")
	}
}

func (a *arith) reach(n *anode) {
	for p := n.parent; p != nil; p = p.parent {
		a.open(p)
		p.sc = nil
	}
}

func (a *arith) load(n *anode) AVal {
	for p := n.parent; p != nil; p = p.parent {
		a.open(p)
	}
	if n.kids != nil {
		return n.copy(nil)
	}
	return n.v
}

func (a *arith) store(n *anode, v AVal) {
	for p := n; p != nil; p = p.parent {
		if p.frozen && !a.initing {
			unsupported("a package variable is written")
		}
	}
	a.reach(n)
	a.set(n, v)
}

func (a *arith) set(n *anode, v AVal) {
	n.abs, n.sc = nil, nil
	if m, ok := v.(*anode); ok && n.kids != nil {
		c := m.copy(n.parent)
		n.kids, n.abs, n.sc, n.rep = c.kids, c.abs, c.sc, c.rep
		for _, k := range n.kids {
			k.parent = n
		}
		return
	}
	if x, ok := v.(*axor); ok {
		_ = x
		unsupported("a symbolic exclusive or is stored")
	}
	n.v = v
}

func (a *arith) global(g *ssa.Global) *anode {
	n := a.globals[g]
	if n == nil {
		n = a.newNode(g.Type().(*types.Pointer).Elem(), nil)
		n.frozen = true
		a.globals[g] = n
	}
	return n
}

// ---- execution ----

type aframe struct {
	f   *ssa.Function
	env map[ssa.Value]AVal
}

func (a *arith) val(fr *aframe, v ssa.Value) AVal {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Basic); !ok {
				if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
					return a.newNode(v.Type(), nil)
				}
			}
			return nil
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return constant.BoolVal(v.Value)
		case constant.Int:
			c, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
			return a.cst(c)
		}
		unsupported("constant %v", v)
	case *ssa.Global:
		return &aptr{a.global(v)}
	}
	x, ok := fr.env[v]
	if !ok {
		unsupported("value %s %T", v.Name(), v)
	}
	return x
}

func (a *arith) idx(v AVal, n int) int {
	c, ok := v.(*aint)
	if ok {
		if k, ok := c.p.isConst(); ok {
			if k.Sign() < 0 || k.Cmp(big.NewInt(int64(n))) >= 0 {
				a.obl("no-panic", "safety", fmt.Sprintf("index %v of %d", k, n), false, "the index is out of range")
				unsupported("index out of range")
			}
			return int(k.Int64())
		}
	}
	unsupported("symbolic index")
	return 0
}

func (a *arith) exec(f *ssa.Function, args []AVal, depth int) []AVal {
	if depth > 12 {
		unsupported("calls nested too deeply")
	}
	if f.Blocks == nil {
		unsupported("function %s without a body", f.Name())
	}
	fr := &aframe{f, map[ssa.Value]AVal{}}
	if len(args) != len(f.Params) {
		unsupported("arguments of %s", f.Name())
	}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var phis []AVal
		np := 0
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			np++
			for i, pr := range b.Preds {
				if pr == prev {
					phis = append(phis, a.val(fr, ph.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < np; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[np:] {
			a.steps++
			if a.steps > 20000000 {
				unsupported("too many steps")
			}
			if in.Pos().IsValid() {
				a.site = a.P.prog.Fset.Position(in.Pos()).String()
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Alloc:
				fr.env[in] = &aptr{a.newNode(in.Type().(*types.Pointer).Elem(), nil)}
			case *ssa.Store:
				p, ok := a.val(fr, in.Addr).(*aptr)
				if !ok {
					unsupported("store")
				}
				a.store(p.n, a.val(fr, in.Val))
			case *ssa.UnOp:
				x := a.val(fr, in.X)
				switch in.Op {
				case token.MUL:
					p, ok := x.(*aptr)
					if !ok {
						unsupported("load")
					}
					fr.env[in] = a.load(p.n)
				case token.SUB:
					v := x.(*aint)
					fr.env[in] = a.wrap(a.mk(pscale(v.p, big.NewInt(-1)), v.iv.neg()), in.Type())
				case token.XOR:
					v := x.(*aint)
					m := ival{big.NewInt(-1), big.NewInt(-1)}
					fr.env[in] = a.wrap(a.mk(psub(pint(-1), v.p), m.add(v.iv.neg())), in.Type())
				case token.NOT:
					fr.env[in] = !x.(bool)
				default:
					unsupported("operator %v", in.Op)
				}
			case *ssa.BinOp:
				t := in.X.Type()
				fr.env[in] = a.binop(in.Op, a.val(fr, in.X), a.val(fr, in.Y), t)
			case *ssa.Convert:
				v, ok := a.val(fr, in.X).(*aint)
				if !ok {
					unsupported("conversion")
				}
				fr.env[in] = a.wrap(v, in.Type())
			case *ssa.ChangeType:
				fr.env[in] = a.val(fr, in.X)
			case *ssa.FieldAddr:
				p, ok := a.val(fr, in.X).(*aptr)
				if !ok {
					unsupported("field of %T", a.val(fr, in.X))
				}
				fr.env[in] = &aptr{p.n.kids[in.Field]}
			case *ssa.Field:
				fr.env[in] = a.load(a.val(fr, in.X).(*anode).kids[in.Field])
			case *ssa.IndexAddr:
				switch x := a.val(fr, in.X).(type) {
				case *aptr:
					fr.env[in] = &aptr{x.n.kids[a.idx(a.val(fr, in.Index), len(x.n.kids))]}
				case *aslice:
					fr.env[in] = &aptr{x.n.kids[x.off+a.idx(a.val(fr, in.Index), x.len)]}
				default:
					unsupported("index of %T", x)
				}
			case *ssa.Index:
				n, ok := a.val(fr, in.X).(*anode)
				if !ok {
					unsupported("index")
				}
				fr.env[in] = a.load(n.kids[a.idx(a.val(fr, in.Index), len(n.kids))])
			case *ssa.Slice:
				var n *anode
				off, ln, cp := 0, 0, 0
				switch x := a.val(fr, in.X).(type) {
				case *aptr:
					n, ln, cp = x.n, len(x.n.kids), len(x.n.kids)
				case *aslice:
					n, off, ln, cp = x.n, x.off, x.len, len(x.n.kids)-x.off
				default:
					unsupported("slice of %T", x)
				}
				lo, hi := 0, ln
				if in.Low != nil {
					lo = a.idx(a.val(fr, in.Low), cp+1)
				}
				if in.High != nil {
					hi = a.idx(a.val(fr, in.High), cp+1)
				}
				if in.Max != nil || lo > hi {
					unsupported("slice bounds")
				}
				fr.env[in] = &aslice{n, off + lo, hi - lo}
			case *ssa.Call:
				fr.env[in] = a.call(fr, in, depth)
			case *ssa.Extract:
				fr.env[in] = a.val(fr, in.Tuple).(*atup).v[in.Index]
			case *ssa.Return:
				var rs []AVal
				for _, r := range in.Results {
					rs = append(rs, a.val(fr, r))
				}
				return rs
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := a.val(fr, in.Cond).(bool)
				if !ok {
					unsupported("branch on a symbolic condition at %s", a.site)
				}
				next = b.Succs[1]
				if c {
					next = b.Succs[0]
				}
			default:
				unsupported("instruction %T", in)
			}
		}
		if next == nil {
			unsupported("block without successor")
		}
		prev, b = b, next
	}
}

func (a *arith) call(fr *aframe, in *ssa.Call, depth int) AVal {
	cc := in.Common()
	var args []AVal
	for _, x := range cc.Args {
		args = append(args, a.val(fr, x))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch x := args[0].(type) {
			case *aslice:
				return a.cst(big.NewInt(int64(x.len)))
			case *aptr:
				return a.cst(big.NewInt(int64(len(x.n.kids))))
			case *anode:
				return a.cst(big.NewInt(int64(len(x.kids))))
			}
		case "copy":
			d, ok1 := args[0].(*aslice)
			s, ok2 := args[1].(*aslice)
			if ok1 && ok2 {
				n := d.len
				if s.len < n {
					n = s.len
				}
				var vs []AVal
				for i := 0; i < n; i++ {
					vs = append(vs, a.load(s.n.kids[s.off+i]))
				}
				for i, v := range vs {
					a.store(d.n.kids[d.off+i], v)
				}
				return a.cst(big.NewInt(int64(n)))
			}
		}
		unsupported("builtin %s", b.Name())
	}
	f := cc.StaticCallee()
	if f == nil {
		unsupported("dynamic call")
	}
	name := funcName(f)
	if a.initing && strings.HasSuffix(name, ".init") {
		return nil
	}
	var rs []AVal
	if con := a.P.spec.contracts[name]; con != nil && con.arith && !con.arithInline && name != a.root {
		a.used[name] = true
		site := a.site
		rs = a.apply(con, f, args)
		a.site = site
	} else {
		a.inlined[name] = true
		rs = a.exec(f, args, depth+1)
	}
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return &atup{rs}
}

func (a *arith) obl(name, kind, text string, ok bool, detail string) {
	if !ok && a.tag != "" {
		detail = a.tag + "\n" + detail
	}
	a.obls = append(a.obls, &Obl{Name: name, Labels: a.con.labels, Kind: kind, OK: ok, Backend: "polynomials", Pos: a.site, Text: text, Detail: detail})
}

// ---- field and group values ----

// norm replaces named unknowns by what they stand for; modulo p also those
// that are known modulo p only.
func (a *arith) norm(p Poly, n *big.Int) Poly {
	mod := n != nil && n.Cmp(feP) == 0
	for {
		keep, sub := Poly{}, Poly{}
		changed := false
		for m, c := range p {
			fs := factors(m)
			hit := false
			for _, f := range fs {
				at := a.atoms[f.atom]
				if at.def != nil || mod && at.modp != nil || mod && at.nz && f.exp.Cmp(feP1) >= 0 {
					hit = true
				}
			}
			if !hit {
				keep[m] = c
				continue
			}
			changed = true
			t := pconst(c)
			for _, f := range fs {
				at := a.atoms[f.atom]
				d := at.def
				if d == nil && mod {
					d = at.modp
				}
				if d == nil {
					e := f.exp
					if mod && at.nz && e.Cmp(feP1) >= 0 {
						e = new(big.Int).Mod(e, feP1)
					}
					t = pmul(t, Poly{monoOf([]factor{{f.atom, e}}): bigOne})
					continue
				}
				if f.exp.Cmp(big.NewInt(4)) > 0 && len(d) > 1 {
					unsupported("high power of a sum")
				}
				t = pmul(t, a.power(d, f.exp))
				if n != nil {
					t = pmod(t, n)
				}
			}
			sub = padd(sub, t)
		}
		p = padd(keep, sub)
		if n != nil {
			p = pmod(p, n)
		}
		if !changed {
			return p
		}
	}
}

// power of a monomial, or a small power.
func (a *arith) power(d Poly, e *big.Int) Poly {
	if len(d) == 0 {
		return d
	}
	if len(d) == 1 {
		for m, c := range d {
			var fs []factor
			for _, f := range factors(m) {
				fs = append(fs, factor{f.atom, new(big.Int).Mul(f.exp, e)})
			}
			k := new(big.Int)
			if e.BitLen() > 16 {
				k.Exp(modP(c), e, feP)
			} else {
				k.Exp(c, e, nil)
			}
			return Poly{monoOf(fs): k}
		}
	}
	r := pconst(bigOne)
	for i := int64(0); i < e.Int64(); i++ {
		r = pmul(r, d)
	}
	return r
}
