package main

// Hash-consed terms over three sorts: mathematical integers (also used for
// references), booleans and byte sequences. The constructors normalise, so that
// most equalities the verifier needs are decided before a solver sees them.

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"
)

type Sort uint8

// OldMax is the largest reference that can exist before the verified call.
const OldMax = 1<<20 - 1

const (
	SInt Sort = iota
	SBool
	SSeq  // byte sequences
	SSeqW // sequences of references or wide integers
)

func (s Sort) isSeq() bool { return s == SSeq || s == SSeqW }

func (s Sort) String() string { return [...]string{"Int", "Bool", "(Seq Int)", "(Seq Int)"}[s] }

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar
	OSum
	OMul
	ODiv
	OMod
	OIte
	OEq
	OLe // args[0] <= 0
	ONot
	OAnd
	OOr
	OForall // args: lo, hi, body ; name: bound var; lo <= v < hi
	OApp
	OLit
	OConcat
	OExtract // s, off, len
	OUnit
	OLen
	ONth
	ORepeat // byte, n
	OSeqFn  // n, body over bound: the sequence whose element v is body
	OFirst  // lo, hi, body over bound: the first v in [lo,hi) with body, else hi
)

type Term struct {
	id     int
	op     Op
	sort   Sort
	name   string
	k      *big.Int
	coefs  []*big.Int
	args   []*Term
	lo, hi *big.Int
	maxSym int   // largest serial of a symbol inside
	bound  *Term // OForall: bound variable
	hasBV  bool  // contains a free bound variable (set on OVar bound)
	fbv    []*Term
	hasQ   bool
	ctx    *Ctx
}

// freeBV: the bound variables that occur free in t.
func freeBV(t *Term) []*Term {
	var r []*Term
	shared := false
	for i, a := range t.args {
		f := a.fbv
		if t.bound != nil && i == len(t.args)-1 && slices.Contains(f, t.bound) {
			var g []*Term
			for _, x := range f {
				if x != t.bound {
					g = append(g, x)
				}
			}
			f = g
		}
		if len(f) == 0 {
			continue
		}
		if r == nil {
			r, shared = f, true
			continue
		}
		for _, x := range f {
			if !slices.Contains(r, x) {
				if shared {
					r, shared = slices.Clone(r), false
				}
				r = append(r, x)
			}
		}
	}
	return r
}

type Ctx struct {
	nested     int // substitutions under way
	tab        map[string]*Term
	quants     map[string][]*Term
	n          int
	serial     int
	T, F       *Term
	Empty      *Term
	EmptyW     *Term
	serialOld  int
	Zero       *Term
	One        *Term
	prove      func(*Term) bool // optional solver-backed decision used by the simplifier
	funcs      map[string]*FuncSig
	skolem     []*Term // loop counters that new symbols depend on
	nameSerial map[string]int
}

type FuncSig struct {
	args []Sort
	ret  Sort
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, quants: map[string][]*Term{}, funcs: map[string]*FuncSig{}, nameSerial: map[string]int{}}
	c.T = c.mk(&Term{op: OTrue, sort: SBool})
	c.F = c.mk(&Term{op: OFalse, sort: SBool})
	c.Empty = c.mk(&Term{op: OLit, sort: SSeq})
	c.EmptyW = c.mk(&Term{op: OLit, sort: SSeqW})
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%s|", t.op, t.sort, t.name)
	if t.k != nil {
		sb.WriteString(t.k.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].String())
		}
	}
	if t.bound != nil {
		fmt.Fprintf(&sb, "@%d", t.bound.id)
	}
	key := sb.String()
	if e, ok := c.tab[key]; ok {
		return e
	}
	c.n++
	t.id = c.n
	t.ctx = c
	for _, a := range t.args {
		if a.maxSym > t.maxSym {
			t.maxSym = a.maxSym
		}
		if a.hasQ {
			t.hasQ = true
		}
	}
	if t.op == OForall {
		t.hasQ = true
	}
	if t.op == OVar && t.hasBV {
		t.fbv = []*Term{t}
	} else {
		t.fbv = freeBV(t)
		t.hasBV = len(t.fbv) > 0
	}
	if t.op == OApp {
		if n := c.nameSerial[t.name]; n > t.maxSym {
			t.maxSym = n
		}
	}
	c.interval(t)
	c.tab[key] = t
	return t
}

func bi(n int64) *big.Int { return big.NewInt(n) }

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (c *Ctx) interval(t *Term) {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OSum:
		lo, hi := t.k, t.k
		for i, a := range t.args {
			co := t.coefs[i]
			var l, h *big.Int
			if a.lo != nil {
				l = new(big.Int).Mul(co, a.lo)
			}
			if a.hi != nil {
				h = new(big.Int).Mul(co, a.hi)
			}
			if co.Sign() < 0 {
				l, h = h, l
			}
			lo, hi = addB(lo, l), addB(hi, h)
		}
		t.lo, t.hi = lo, hi
	case OMod:
		if t.args[1].op == OConst {
			t.lo = bi(0)
			t.hi = new(big.Int).Sub(t.args[1].k, bi(1))
		}
	case ODiv:
		d := t.args[1]
		if d.op == OConst && d.k.Sign() > 0 {
			if t.args[0].lo != nil {
				t.lo = floorDiv(t.args[0].lo, d.k)
			}
			if t.args[0].hi != nil {
				t.hi = floorDiv(t.args[0].hi, d.k)
			}
		}
	case OIte:
		if t.sort == SInt {
			a, b := t.args[1], t.args[2]
			if a.lo != nil && b.lo != nil {
				t.lo = a.lo
				if b.lo.Cmp(a.lo) < 0 {
					t.lo = b.lo
				}
			}
			if a.hi != nil && b.hi != nil {
				t.hi = a.hi
				if b.hi.Cmp(a.hi) > 0 {
					t.hi = b.hi
				}
			}
		}
	case OLen:
		t.lo = bi(0)
		t.hi = new(big.Int).Lsh(bi(1), 48)
	case ONth:
		t.lo, t.hi = bi(0), bi(255)
		if s := t.args[0]; s.sort == SSeqW {
			t.hi = nil
			if s.op == OApp && strings.HasPrefix(s.name, "A:*") && strings.HasSuffix(s.name, "@0") && s.args[0].hi != nil {
				// what an object refers to existed when the object was found
				t.hi = s.args[0].hi
				if t.hi.Cmp(bi(OldMax)) <= 0 {
					t.hi = bi(OldMax)
				}
			} else if s.op == OVar && s.hi != nil {
				t.lo, t.hi = s.lo, s.hi
			}
		}
	case OFirst:
		t.lo = t.args[0].lo
		if t.args[0].hi != nil && t.args[1].hi != nil {
			t.hi = t.args[0].hi
			if t.args[1].hi.Cmp(t.hi) > 0 {
				t.hi = t.args[1].hi
			}
		}
	}
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean, b>0 => floor
	return q
}

func (c *Ctx) Int(n int64) *Term    { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term { return c.mk(&Term{op: OConst, sort: SInt, k: n}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// Fresh makes a new symbol.
func (c *Ctx) Fresh(name string, s Sort) *Term {
	c.serial++
	if len(c.skolem) > 0 {
		n := fmt.Sprintf("%s!%d", name, c.serial)
		c.nameSerial[n] = c.serial
		return c.App(n, s, c.skolem...)
	}
	t := &Term{op: OVar, sort: s, name: fmt.Sprintf("%s!%d", name, c.serial), maxSym: c.serial}
	return c.mk(t)
}

func (c *Ctx) FreshRange(name string, lo, hi *big.Int) *Term {
	t := c.Fresh(name, SInt)
	t.lo, t.hi = lo, hi
	return t
}

func (c *Ctx) BoundVar(name string) *Term {
	c.serial++
	t := &Term{op: OVar, sort: SInt, name: fmt.Sprintf("?%s!%d", name, c.serial), maxSym: c.serial, hasBV: true}
	return c.mk(t)
}

// ---- linear arithmetic -------------------------------------------------

type lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

func (c *Ctx) toLin(t *Term, f *big.Int, l *lin) {
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(f, t.k))
	case OSum:
		l.k.Add(l.k, new(big.Int).Mul(f, t.k))
		for i, a := range t.args {
			l.add(a, new(big.Int).Mul(f, t.coefs[i]))
		}
	default:
		l.add(t, f)
	}
}

func (l *lin) add(a *Term, co *big.Int) {
	if e, ok := l.m[a]; ok {
		e.Add(e, co)
		if e.Sign() == 0 {
			delete(l.m, a)
		}
	} else if co.Sign() != 0 {
		l.m[a] = new(big.Int).Set(co)
	}
}

func (c *Ctx) fromLin(l *lin) *Term {
	if len(l.m) == 0 {
		return c.Big(l.k)
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.k.Sign() == 0 && l.m[atoms[0]].Cmp(bi(1)) == 0 {
		return atoms[0]
	}
	co := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		co[i] = l.m[a]
	}
	return c.mk(&Term{op: OSum, sort: SInt, k: l.k, args: atoms, coefs: co})
}

func newLin() *lin { return &lin{k: new(big.Int), m: map[*Term]*big.Int{}} }

func (c *Ctx) Add(a, b *Term) *Term {
	l := newLin()
	c.toLin(a, bi(1), l)
	c.toLin(b, bi(1), l)
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := newLin()
	c.toLin(a, bi(1), l)
	c.toLin(b, bi(-1), l)
	return c.fromLin(l)
}
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	l := newLin()
	c.toLin(a, k, l)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.MulK(b, a.k)
	}
	if b.op == OConst {
		return c.MulK(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

// Div and Mod are Euclidean with a positive constant divisor (floor).
func (c *Ctx) Div(a, b *Term) *Term {
	if b.op == OConst && b.k.Sign() > 0 {
		if a.op == OConst {
			return c.Big(floorDiv(a.k, b.k))
		}
		if b.k.Cmp(bi(1)) == 0 {
			return a
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, b.k), floorDiv(a.hi, b.k)
			if l.Cmp(h) == 0 {
				return c.Big(l)
			}
		}
		if a.op == ODiv && a.args[1].op == OConst {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].k, b.k)))
		}
		if a.op == OSum {
			// split off multiples of b
			l := newLin()
			q := newLin()
			for i, x := range a.args {
				m := new(big.Int)
				d := new(big.Int)
				d.DivMod(a.coefs[i], b.k, m)
				if m.Sign() == 0 {
					q.add(x, d)
				} else {
					l.add(x, a.coefs[i])
				}
			}
			m, d := new(big.Int), new(big.Int)
			d.DivMod(a.k, b.k, m)
			q.k = d
			l.k = m
			if len(q.m) > 0 || d.Sign() != 0 {
				return c.Add(c.fromLin(q), c.Div(c.fromLin(l), b))
			}
		}
	}
	return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if b.op == OConst && b.k.Sign() > 0 {
		if a.op == OConst {
			return c.Big(new(big.Int).Sub(a.k, new(big.Int).Mul(b.k, floorDiv(a.k, b.k))))
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.k) < 0 {
			return a
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, b.k), floorDiv(a.hi, b.k)
			if l.Cmp(h) == 0 {
				return c.Sub(a, c.Big(new(big.Int).Mul(l, b.k)))
			}
		}
		if a.op == OMod && a.args[1].op == OConst {
			m := new(big.Int)
			if m.Mod(a.args[1].k, b.k).Sign() == 0 {
				return c.Mod(a.args[0], b)
			}
		}
		if a.op == OSum {
			l := newLin()
			changed := false
			for i, x := range a.args {
				m := new(big.Int).Mod(a.coefs[i], b.k)
				if m.Cmp(a.coefs[i]) != 0 {
					changed = true
				}
				if x.op == OMod && x.args[1].op == OConst && new(big.Int).Mod(x.args[1].k, b.k).Sign() == 0 {
					c.toLin(x.args[0], m, l)
					changed = true
				} else {
					l.add(x, m)
				}
			}
			km := new(big.Int).Mod(a.k, b.k)
			if km.Cmp(a.k) != 0 {
				changed = true
			}
			l.k.Add(l.k, km)
			if changed {
				return c.Mod(c.fromLin(l), b)
			}
		}
	}
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// ---- booleans ----------------------------------------------------------

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.args[0]
	case OLe:
		return c.le0(c.Sub(c.One, a.args[0]))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OOr {
		unit, zero = c.F, c.T
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if x.op == ONot && seen[x.args[0]] {
			return false
		}
		if x.op == OLe && seen[c.Not(x)] {
			return false
		}
		if x.op != ONot {
			if n, ok := c.tab[fmt.Sprintf("%d|%d||,%d", ONot, SBool, x.id)]; ok && seen[n] {
				return false
			}
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, sort: SBool, args: out})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }

func (c *Ctx) le0(d *Term) *Term {
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.T
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.F
	}
	if d.op == OSum && len(d.args) == 1 {
		// normalise coefficient: a*x + k <= 0
		co := d.coefs[0]
		abs := new(big.Int).Abs(co)
		if abs.Cmp(bi(1)) > 0 {
			// |a| x * s + k <= 0  <=> s*x <= floor(-k/|a|)
			q := floorDiv(new(big.Int).Neg(d.k), abs)
			l := newLin()
			l.add(d.args[0], bi(int64(co.Sign())))
			l.k = new(big.Int).Neg(q)
			return c.le0(c.fromLin(l))
		}
	}
	if d.op == OIte && d.args[1].op == OConst && d.args[2].op == OConst {
		return c.Ite(d.args[0], c.le0(d.args[1]), c.le0(d.args[2]))
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{d}})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.AddK(c.Sub(a, b), 1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	switch a.sort {
	case SInt:
		if a.isFA() && b.isFA() {
			if a.name != b.name {
				return c.F
			}
			return c.Eq(a.args[0], b.args[0])
		}
		d := c.Sub(a, b)
		if d.op == OConst {
			return c.Bool(d.k.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.F
		}
		// gcd test
		if d.op == OSum {
			g := new(big.Int)
			for _, co := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(co))
			}
			if g.Cmp(bi(1)) > 0 {
				if new(big.Int).Mod(d.k, g).Sign() != 0 {
					return c.F
				}
				l := newLin()
				for i, x := range d.args {
					l.add(x, new(big.Int).Quo(d.coefs[i], g))
				}
				l.k = new(big.Int).Quo(d.k, g)
				d = c.fromLin(l)
			}
			if d.op == OSum && d.coefs[0].Sign() < 0 {
				d = c.MulK(d, bi(-1))
			}
		}
		if d.op == OIte {
			x, y := d.args[1], d.args[2]
			if x.op == OConst || y.op == OConst {
				return c.Ite(d.args[0], c.Eq(x, c.Zero), c.Eq(y, c.Zero))
			}
		}
		if d.op == OSum && len(d.args) == 1 && d.args[0].op == OIte && (d.coefs[0].Cmp(bi(1)) == 0 || d.coefs[0].Cmp(bi(-1)) == 0) {
			it := d.args[0]
			k := c.Big(new(big.Int).Neg(d.k))
			if d.coefs[0].Sign() < 0 {
				k = c.Big(d.k)
			}
			if it.args[1].op == OConst || it.args[2].op == OConst {
				return c.Ite(it.args[0], c.Eq(it.args[1], k), c.Eq(it.args[2], k))
			}
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d, c.Zero}})
	case SBool:
		if a.op == OTrue {
			return b
		}
		if b.op == OTrue {
			return a
		}
		if a.op == OFalse {
			return c.Not(b)
		}
		if b.op == OFalse {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.F
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
	case SSeq, SSeqW:
		return c.seqEq(a, b)
	}
	panic("eq")
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OTrue || a == b {
		return a
	}
	if cond.op == OFalse {
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.T && b == c.F {
			return cond
		}
		if a == c.F && b == c.T {
			return c.Not(cond)
		}
		return c.And(c.Imp(cond, a), c.Or(cond, b))
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{cond, a, b}})
}

func (c *Ctx) Forall(v *Term, lo, hi, body *Term) *Term {
	if body == c.T {
		return c.T
	}
	if c.Le(hi, lo) == c.T {
		return c.T
	}
	if r := c.alpha(OForall, SBool, []*Term{lo, hi}, v, body); r != nil {
		return r
	}
	t := &Term{op: OForall, sort: SBool, args: []*Term{lo, hi, body}, bound: v, name: v.name}
	r := c.mk(t)
	c.addAlpha(r)
	return r
}

// ---- sequences ---------------------------------------------------------

func (c *Ctx) Lit(b []byte) *Term {
	return c.mk(&Term{op: OLit, sort: SSeq, name: string(b)})
}

func (c *Ctx) Unit(t *Term) *Term {
	if t.op == OConst {
		return c.Lit([]byte{byte(new(big.Int).And(t.k, bi(255)).Int64())})
	}
	return c.mk(&Term{op: OUnit, sort: SSeq, args: []*Term{t}})
}

// UnitW is the one-element wide sequence.
func (c *Ctx) UnitW(t *Term) *Term {
	return c.mk(&Term{op: OUnit, sort: SSeqW, args: []*Term{t}})
}

func (c *Ctx) UnitOf(s Sort, t *Term) *Term {
	if s == SSeqW {
		return c.UnitW(t)
	}
	return c.Unit(t)
}

func (c *Ctx) EmptyOf(s Sort) *Term {
	if s == SSeqW {
		return c.EmptyW
	}
	return c.Empty
}

func (c *Ctx) RepeatOf(s Sort, b, n *Term) *Term {
	if s == SSeq {
		return c.Repeat(b, n)
	}
	if n.op == OConst && n.k.Sign() == 0 {
		return c.EmptyW
	}
	return c.mk(&Term{op: ORepeat, sort: SSeqW, args: []*Term{b, n}})
}

// alpha finds a term that binds another variable and is otherwise the same.
func (c *Ctx) alpha(op Op, sort Sort, rest []*Term, v, body *Term) *Term {
	for _, t := range c.quants[alphaKey(op, sort, rest, body)] {
		if t.bound == v && t.args[len(t.args)-1] == body {
			return t
		}
		if c.Subst(t.args[len(t.args)-1], map[*Term]*Term{t.bound: v}) == body {
			return t
		}
	}
	return nil
}

func alphaKey(op Op, sort Sort, rest []*Term, body *Term) string {
	k := fmt.Sprintf("%d|%d|%d|%d|%s", op, sort, body.op, len(body.args), "")
	for _, r := range rest {
		k += fmt.Sprintf(",%d", r.id)
	}
	return k
}

func (c *Ctx) addAlpha(t *Term) *Term {
	n := len(t.args) - 1
	k := alphaKey(t.op, t.sort, t.args[:n], t.args[n])
	for _, x := range c.quants[k] {
		if x == t {
			return t
		}
	}
	c.quants[k] = append(c.quants[k], t)
	return t
}

// BoundIn is a bound variable for a range.
func (c *Ctx) BoundIn(name string, lo, hi *Term) *Term {
	v := c.BoundVar(name)
	v.lo = lo.lo
	if hi.hi != nil {
		v.hi = new(big.Int).Sub(hi.hi, bi(1))
	}
	return v
}

// quant finishes a term that binds v.
func (c *Ctx) quant(t *Term, v *Term) *Term { return c.mk(t) }

// SeqFn is the sequence of n elements whose v-th element is body.
func (c *Ctx) SeqFn(s Sort, v, n, body *Term) *Term {
	if n == c.Zero {
		return c.EmptyOf(s)
	}
	if !containsTerm(body, v) {
		return c.RepeatOf(s, body, n)
	}
	// eta: Nth(x, v+d) with x not containing v
	if body.op == ONth && body.args[0].sort == s && !containsTerm(body.args[0], v) {
		d := c.Sub(body.args[1], v)
		if !containsTerm(d, v) {
			return c.Extract(body.args[0], d, n)
		}
	}
	if r := c.alpha(OSeqFn, s, []*Term{n}, v, body); r != nil {
		return r
	}
	nv := c.BoundVar("fn!v")
	nv.lo, nv.hi = v.lo, v.hi
	if v != nv {
		body = c.Subst(body, map[*Term]*Term{v: nv})
	}
	return c.addAlpha(c.quant(&Term{op: OSeqFn, sort: s, args: []*Term{n, body}, bound: nv}, nv))
}

// First is the first v in [lo,hi) with body, or hi.
func (c *Ctx) First(v, lo, hi, body *Term) *Term {
	if body == c.T && c.Le(lo, hi) == c.T {
		return lo
	}
	if c.Le(hi, lo) == c.T || body == c.F {
		return hi
	}
	if r := c.alpha(OFirst, SInt, []*Term{lo, hi}, v, body); r != nil {
		return r
	}
	nv := c.BoundVar("first!v")
	nv.lo, nv.hi = v.lo, v.hi
	if v != nv {
		body = c.Subst(body, map[*Term]*Term{v: nv})
	}
	return c.addAlpha(c.quant(&Term{op: OFirst, sort: SInt, args: []*Term{lo, hi, body}, bound: nv}, nv))
}

func (c *Ctx) Repeat(b, n *Term) *Term {
	if n.op == OConst && b.op == OConst && n.k.IsInt64() && n.k.Int64() <= 4096 {
		return c.Lit([]byte(strings.Repeat(string([]byte{byte(b.k.Int64())}), int(n.k.Int64()))))
	}
	if n.op == OConst && n.k.Sign() == 0 {
		return c.Empty
	}
	if n.op == OConst && n.k.Cmp(bi(1)) == 0 {
		return c.Unit(b)
	}
	return c.mk(&Term{op: ORepeat, sort: SSeq, args: []*Term{b, n}})
}

func (c *Ctx) Len(s *Term) *Term {
	switch s.op {
	case OLit:
		return c.Int(int64(len(s.name)))
	case OUnit:
		return c.One
	case OConcat:
		r := c.Zero
		for _, a := range s.args {
			r = c.Add(r, c.Len(a))
		}
		return r
	case OExtract:
		return s.args[2]
	case ORepeat:
		return s.args[1]
	case OSeqFn:
		return s.args[0]
	case OIte:
		a, b := c.Len(s.args[1]), c.Len(s.args[2])
		return c.Ite(s.args[0], a, b)
	case OApp:
		if f, ok := appLen[s.name]; ok {
			return f(c, s)
		}
		if n, ok := fixedLen(s.name); ok {
			return c.Int(int64(n))
		}
	case OVar:
		if n, ok := fixedLen(s.name); ok {
			return c.Int(int64(n))
		}
	}
	return c.mk(&Term{op: OLen, sort: SInt, args: []*Term{s}})
}

// symbols named  x#N!k  are sequences of fixed length N
func fixedLen(name string) (int, bool) {
	i := strings.LastIndexByte(name, '#')
	if i < 0 {
		return 0, false
	}
	n := 0
	j := i + 1
	for j < len(name) && name[j] >= '0' && name[j] <= '9' {
		n = n*10 + int(name[j]-'0')
		j++
	}
	if j == i+1 || j < len(name) && name[j] != '!' && name[j] != '@' {
		return 0, false
	}
	return n, true
}

var appLen map[string]func(c *Ctx, t *Term) *Term

func init() {
	appLen = map[string]func(c *Ctx, t *Term) *Term{
		"HMAC":   func(c *Ctx, t *Term) *Term { return c.Int(32) },
		"ITER":   func(c *Ctx, t *Term) *Term { return c.Ite(c.Le(t.args[1], c.Zero), c.Len(t.args[0]), c.Int(32)) },
		"DH":     func(c *Ctx, t *Term) *Term { return c.Int(32) },
		"PUB":    func(c *Ctx, t *Term) *Term { return c.Int(32) },
		"SHA512": func(c *Ctx, t *Term) *Term { return c.Int(64) },
		"HKDFS":  func(c *Ctx, t *Term) *Term { return c.Int(8160) },
		"SHA256": func(c *Ctx, t *Term) *Term { return c.Int(32) },
		"CBCENC": func(c *Ctx, t *Term) *Term { return c.Len(t.args[2]) },
		"CBCDEC": func(c *Ctx, t *Term) *Term { return c.Len(t.args[2]) },
		"SIGN":   func(c *Ctx, t *Term) *Term { return c.Int(64) },
	}
}

// cmp decides a <= b from the linear difference only.
func (c *Ctx) leKnown(a, b *Term) (yes, no bool) {
	t := c.Le(a, b)
	if t == c.T {
		return true, false
	}
	if t == c.F {
		return false, true
	}
	if c.prove != nil && !t.hasBV {
		if c.prove(t) {
			return true, false
		}
		if c.prove(c.Not(t)) {
			return false, true
		}
	}
	return false, false
}

func (c *Ctx) pieces(s *Term) []*Term {
	if s.op == OConcat {
		return s.args
	}
	if s == c.Empty || s == c.EmptyW {
		return nil
	}
	return []*Term{s}
}

func (c *Ctx) Concat(xs ...*Term) *Term {
	var ps []*Term
	so := SSeq
	for _, x := range xs {
		if x.sort == SSeqW {
			so = SSeqW
		}
	}
	for _, x := range xs {
		for _, p := range c.pieces(x) {
			if p == c.Empty || p == c.EmptyW {
				continue
			}
			if p.op == OExtract && p.args[2].op == OConst && p.args[2].k.Sign() == 0 {
				continue
			}
			if n := len(ps); n > 0 {
				l := ps[n-1]
				if l.op == OLit && p.op == OLit {
					ps[n-1] = c.Lit([]byte(l.name + p.name))
					continue
				}
				if l.op == OExtract && p.op == OExtract && l.args[0] == p.args[0] && c.Add(l.args[1], l.args[2]) == p.args[1] {
					ps[n-1] = c.Extract(l.args[0], l.args[1], c.Add(l.args[2], p.args[2]))
					continue
				}
				if l.op == OExtract && p.op == OUnit && p.args[0].op == ONth && p.args[0].args[0] == l.args[0] && c.Add(l.args[1], l.args[2]) == p.args[0].args[1] {
					ps[n-1] = c.Extract(l.args[0], l.args[1], c.AddK(l.args[2], 1))
					continue
				}
				if l.op == OUnit && l.args[0].op == ONth && p.op == OExtract && l.args[0].args[0] == p.args[0] && c.AddK(l.args[0].args[1], 1) == p.args[1] {
					ps[n-1] = c.Extract(p.args[0], l.args[0].args[1], c.AddK(p.args[2], 1))
					continue
				}
				if l.op == OUnit && l.args[0].op == ONth && p.op == OUnit && p.args[0].op == ONth && l.args[0].args[0] == p.args[0].args[0] && c.AddK(l.args[0].args[1], 1) == p.args[0].args[1] {
					ps[n-1] = c.Extract(l.args[0].args[0], l.args[0].args[1], c.Int(2))
					continue
				}
				if l.op == ORepeat && p.op == ORepeat && l.args[0] == p.args[0] {
					ps[n-1] = c.RepeatOf(so, l.args[0], c.Add(l.args[1], p.args[1]))
					continue
				}
			}
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return c.EmptyOf(so)
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return c.mk(&Term{op: OConcat, sort: so, args: ps})
}

func (c *Ctx) Extract(s, off, n *Term) *Term {
	if n.op == OConst && n.k.Sign() == 0 {
		return c.EmptyOf(s.sort)
	}
	if off == c.Zero && n == c.Len(s) {
		return s
	}
	switch s.op {
	case OLit:
		if off.op == OConst && n.op == OConst && off.k.IsInt64() && n.k.IsInt64() {
			o, l := off.k.Int64(), n.k.Int64()
			if o >= 0 && l >= 0 && o+l <= int64(len(s.name)) {
				return c.Lit([]byte(s.name[o : o+l]))
			}
		}
		if n.op != OConst && len(s.name) > 1 && strings.Count(s.name, s.name[:1]) == len(s.name) {
			return c.RepeatOf(s.sort, c.Int(int64(s.name[0])), n)
		}
	case OExtract:
		return c.Extract(s.args[0], c.Add(s.args[1], off), n)
	case ORepeat:
		return c.RepeatOf(s.sort, s.args[0], n)
	case OSeqFn:
		return c.SeqFn(s.sort, s.bound, n, c.Subst(s.args[1], map[*Term]*Term{s.bound: c.Add(s.bound, off)}))
	case OIte:
		if s.args[1].op == OLit || s.args[2].op == OLit || s.args[1].op == OConcat || s.args[2].op == OConcat {
			return c.Ite(s.args[0], c.Extract(s.args[1], off, n), c.Extract(s.args[2], off, n))
		}
	case OConcat:
		// drop leading pieces
		ps := s.args
		cum := c.Zero
		i := 0
		for i < len(ps)-1 {
			next := c.Add(cum, c.Len(ps[i]))
			if yes, _ := c.leKnown(next, off); yes {
				cum = next
				i++
				continue
			}
			break
		}
		off2 := c.Sub(off, cum)
		rest := ps[i:]
		// now take n bytes from rest starting at off2 within rest[0]
		var out []*Term
		remain := n
		ok := true
		for j := 0; j < len(rest); j++ {
			if remain.op == OConst && remain.k.Sign() == 0 {
				break
			}
			pl := c.Len(rest[j])
			avail := c.Sub(pl, off2)
			if j == len(rest)-1 {
				out = append(out, c.Extract(rest[j], off2, remain))
				remain = c.Zero
				break
			}
			if yes, _ := c.leKnown(remain, avail); yes {
				out = append(out, c.Extract(rest[j], off2, remain))
				remain = c.Zero
				break
			}
			if yes, _ := c.leKnown(avail, remain); yes {
				if a0, _ := c.leKnown(c.Zero, avail); !a0 {
					ok = false
					break
				}
				out = append(out, c.Extract(rest[j], off2, avail))
				remain = c.Sub(remain, avail)
				off2 = c.Zero
				continue
			}
			ok = false
			break
		}
		if ok && remain == c.Zero {
			return c.Concat(out...)
		}
		if i > 0 {
			// at least the dropped prefix
			r := c.Concat(rest...)
			return c.mk(&Term{op: OExtract, sort: s.sort, args: []*Term{r, c.Sub(off, cum), n}})
		}
	}
	return c.mk(&Term{op: OExtract, sort: s.sort, args: []*Term{s, off, n}})
}

func (c *Ctx) Nth(s, i *Term) *Term {
	switch s.op {
	case OLit:
		if i.op == OConst && i.k.IsInt64() {
			k := i.k.Int64()
			if k >= 0 && k < int64(len(s.name)) {
				return c.Int(int64(s.name[k]))
			}
		}
		if len(s.name) > 0 {
			same := true
			for k := range s.name {
				if s.name[k] != s.name[0] {
					same = false
					break
				}
			}
			if same {
				return c.Int(int64(s.name[0]))
			}
		}
	case OUnit:
		return s.args[0]
	case ORepeat:
		return s.args[0]
	case OSeqFn:
		return c.Subst(s.args[1], map[*Term]*Term{s.bound: i})
	case OExtract:
		return c.Nth(s.args[0], c.Add(s.args[1], i))
	case OIte:
		return c.Ite(s.args[0], c.Nth(s.args[1], i), c.Nth(s.args[2], i))
	case OConcat:
		cum := c.Zero
		for j, p := range s.args {
			next := c.Add(cum, c.Len(p))
			if j == len(s.args)-1 {
				return c.Nth(p, c.Sub(i, cum))
			}
			lt := c.Lt(i, next)
			if lt == c.T || lt != c.F && c.prove != nil && !lt.hasBV && c.prove(lt) {
				return c.Nth(p, c.Sub(i, cum))
			}
			if lt == c.F || c.prove != nil && !lt.hasBV && c.prove(c.Not(lt)) {
				cum = next
				continue
			}
			// undecided: build ite over the rest
			rest := c.Concat(s.args[j+1:]...)
			return c.Ite(lt, c.Nth(p, c.Sub(i, cum)), c.Nth(rest, c.Sub(i, next)))
		}
	}
	return c.mk(&Term{op: ONth, sort: SInt, args: []*Term{s, i}})
}

func (c *Ctx) Update(s, i, v *Term) *Term {
	n := c.Len(s)
	return c.Concat(c.Extract(s, c.Zero, i), c.UnitOf(s.sort, v), c.Extract(s, c.AddK(i, 1), c.Sub(c.AddK(n, -1), i)))
}

// Splice replaces s[off:off+len(v)] by v.
func (c *Ctx) Splice(s, off, v *Term) *Term {
	n := c.Len(s)
	vl := c.Len(v)
	end := c.Add(off, vl)
	return c.Concat(c.Extract(s, c.Zero, off), v, c.Extract(s, end, c.Sub(n, end)))
}

func (c *Ctx) seqEq(a, b *Term) *Term {
	la, lb := c.Len(a), c.Len(b)
	le := c.Eq(la, lb)
	if le == c.F {
		return c.F
	}
	if a.op == OLit && b.op == OLit {
		return c.Bool(a.name == b.name)
	}
	pa, pb := append([]*Term{}, c.pieces(a)...), append([]*Term{}, c.pieces(b)...)
	var conj []*Term
	// strip common prefix
	strip := func() bool {
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			lx, ly := c.Len(x), c.Len(y)
			if c.Eq(lx, ly) == c.T && (len(pa) > 1 || len(pb) > 1) {
				e := c.seqEq(x, y)
				if e == c.F {
					return false
				}
				conj = append(conj, e)
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if len(pa) == 1 && len(pb) == 1 {
				return true
			}
			if x.op == OLit && y.op == OLit {
				n := len(x.name)
				if len(y.name) < n {
					n = len(y.name)
				}
				if x.name[:n] != y.name[:n] {
					return false
				}
				pa[0], pb[0] = c.Lit([]byte(x.name[n:])), c.Lit([]byte(y.name[n:]))
				if c.pieces(pa[0]) == nil {
					pa = pa[1:]
				}
				if c.pieces(pb[0]) == nil {
					pb = pb[1:]
				}
				continue
			}
			// split longer piece when both have known constant lengths
			if lx.op == OConst && ly.op == OConst {
				if lx.k.Cmp(ly.k) < 0 {
					e := c.seqEq(x, c.Extract(y, c.Zero, lx))
					if e == c.F {
						return false
					}
					conj = append(conj, e)
					pa = pa[1:]
					pb[0] = c.Extract(y, lx, c.Sub(ly, lx))
				} else {
					e := c.seqEq(c.Extract(x, c.Zero, ly), y)
					if e == c.F {
						return false
					}
					conj = append(conj, e)
					pb = pb[1:]
					pa[0] = c.Extract(x, ly, c.Sub(lx, ly))
				}
				continue
			}
			return true
		}
		return true
	}
	if !strip() {
		return c.F
	}
	rev := func(x []*Term) {
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
	}
	_ = rev
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	ra, rb := c.Concat(pa...), c.Concat(pb...)
	if ra == rb {
		return c.And(conj...)
	}
	if c.pieces(ra) == nil {
		return c.And(append(conj, c.Eq(c.Len(rb), c.Zero))...)
	}
	if c.pieces(rb) == nil {
		return c.And(append(conj, c.Eq(c.Len(ra), c.Zero))...)
	}
	if c.Eq(c.Len(ra), c.Len(rb)) == c.F {
		return c.F
	}
	if ra.op == OLit && rb.op == OLit {
		if ra.name != rb.name {
			return c.F
		}
		return c.And(conj...)
	}
	if ra.op == OUnit && rb.op == OUnit {
		return c.And(append(conj, c.Eq(ra.args[0], rb.args[0]))...)
	}
	if ra.op == OLit && len(ra.name) == 1 && rb.op == OUnit {
		return c.And(append(conj, c.Eq(c.Int(int64(ra.name[0])), rb.args[0]))...)
	}
	if rb.op == OLit && len(rb.name) == 1 && ra.op == OUnit {
		return c.And(append(conj, c.Eq(c.Int(int64(rb.name[0])), ra.args[0]))...)
	}
	// one byte against something of length one
	if ra.op == OExtract && rb.op == OExtract && ra.args[0] == rb.args[0] && ra.args[1] == rb.args[1] {
		return c.And(append(conj, c.Eq(ra.args[2], rb.args[2]))...)
	}
	if ra.op == ORepeat && rb.op == ORepeat {
		ln := c.Eq(ra.args[1], rb.args[1])
		return c.And(append(conj, ln, c.Or(c.Le(ra.args[1], c.Zero), c.Eq(ra.args[0], rb.args[0])))...)
	}
	if ra.op == ORepeat {
		ra, rb = rb, ra
	}
	if rb.op == ORepeat && !ra.hasBV && !rb.hasBV && ra.sort == SSeq {
		k := c.BoundIn("rp!k", c.Zero, rb.args[1])
		return c.And(append(conj, c.Eq(c.Len(ra), c.Len(rb)), c.Forall(k, c.Zero, rb.args[1], c.Eq(c.Nth(ra, k), rb.args[0])))...)
	}
	if ra.id > rb.id {
		ra, rb = rb, ra
	}
	return c.And(append(conj, c.mk(&Term{op: OEq, sort: SBool, args: []*Term{ra, rb}}))...)
}

// ---- applications ------------------------------------------------------

func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	switch name {
	case "HKDF":
		salt := args[1]
		if salt.op == ORepeat && salt.args[0] == c.Zero && salt.args[1].op == OConst && salt.args[1].k.Cmp(bi(64)) <= 0 {
			salt = c.Empty
		}
		return c.Extract(c.App("HKDFS", SSeq, args[0], salt, args[2]), c.Zero, args[3])
	case "HMAC":
		if args[1].op == OLit && args[1].name == "\x02" {
			return c.App("ITER", SSeq, args[0], c.One)
		}
	case "ITER":
		if args[1] == c.Zero {
			return args[0]
		}
		if args[0].op == OApp && args[0].name == "ITER" {
			return c.App("ITER", SSeq, args[0].args[0], c.Add(args[0].args[1], args[1]))
		}
	case "DH":
		// DH(PUB(a), b) = DH(PUB(b), a): canonical order by id
		if args[0].op == OApp && args[0].name == "PUB" {
			a, b := args[0].args[0], args[1]
			if a.id > b.id {
				return c.App("DH", SSeq, c.App("PUB", SSeq, b), a)
			}
		}
	case "CBCDEC":
		if x := args[2]; x.op == OApp && x.name == "CBCENC" && x.args[0] == args[0] && x.args[1] == args[1] {
			return x.args[2]
		}
	case "CBCENC":
		if x := args[2]; x.op == OApp && x.name == "CBCDEC" && x.args[0] == args[0] && x.args[1] == args[1] {
			return x.args[2]
		}
	}
	if _, ok := c.funcs[name]; !ok {
		fs := &FuncSig{ret: ret}
		for _, a := range args {
			fs.args = append(fs.args, a.sort)
		}
		c.funcs[name] = fs
	}
	return c.mk(&Term{op: OApp, sort: ret, name: name, args: args})
}

func (t *Term) isFA() bool { return t.op == OApp && strings.HasPrefix(t.name, "fa:") }

// FA is the address of a field inside an object.
func (c *Ctx) FA(key string, base *Term) *Term {
	if base.op == OIte {
		return c.Ite(base.args[0], c.FA(key, base.args[1]), c.FA(key, base.args[2]))
	}
	t := c.App("fa:"+key, SInt, base)
	t.hi = bi(-1)
	return t
}

func (c *Ctx) AppRange(name string, lo, hi *big.Int, args ...*Term) *Term {
	t := c.App(name, SInt, args...)
	if t.op == OApp && t.name == name && t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

// ---- substitution ------------------------------------------------------

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	// comparing and rebuilding nested binders substitutes again
	c.nested++
	defer func() { c.nested-- }()
	if c.nested > 60 {
		unsupported("binders nested too deeply")
	}
	memo := map[*Term]*Term{}
	var sub func(t *Term) *Term
	sub = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = sub(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return sub(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OSum:
		l := newLin()
		l.k.Set(t.k)
		for i, x := range a {
			c.toLin(x, t.coefs[i], l)
		}
		return c.fromLin(l)
	case OMul:
		return c.Mul(a[0], a[1])
	case ODiv:
		return c.Div(a[0], a[1])
	case OMod:
		return c.Mod(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OLe:
		return c.le0(a[0])
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OForall:
		return c.Forall(t.bound, a[0], a[1], a[2])
	case OApp:
		r := c.App(t.name, t.sort, a...)
		if r.op == OApp && r.name == t.name && r.lo == nil && r.hi == nil && r.sort == SInt {
			r.lo, r.hi = t.lo, t.hi
		}
		return r
	case OConcat:
		return c.Concat(a...)
	case OExtract:
		return c.Extract(a[0], a[1], a[2])
	case OUnit:
		return c.UnitOf(t.sort, a[0])
	case OSeqFn:
		return c.SeqFn(t.sort, t.bound, a[0], a[1])
	case OFirst:
		return c.First(t.bound, a[0], a[1], a[2])
	case OLen:
		return c.Len(a[0])
	case ONth:
		return c.Nth(a[0], a[1])
	case ORepeat:
		return c.RepeatOf(t.sort, a[0], a[1])
	}
	panic("rebuild")
}

// ---- printing ----------------------------------------------------------

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > strDepth {
		return "…"
	}
	j := func(sep string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, sep)
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.name
	case OSum:
		var p []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(bi(1)) == 0 {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, t.coefs[i].String()+"*"+a.str(d+1))
			}
		}
		if t.k.Sign() != 0 {
			p = append(p, t.k.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OLe:
		return "(" + t.args[0].str(d+1) + " <= 0)"
	case OEq:
		return "(" + j(" = ") + ")"
	case ONot:
		return "!" + j("")
	case OAnd:
		return "(" + j(" && ") + ")"
	case OOr:
		return "(" + j(" || ") + ")"
	case OLit:
		return fmt.Sprintf("%q", t.name)
	case OForall:
		return fmt.Sprintf("(forall %s in [%s,%s): %s)", t.bound.name, t.args[0].str(d+1), t.args[1].str(d+1), t.args[2].str(d+1))
	case OApp:
		return t.name + "(" + j(", ") + ")"
	}
	return [...]string{"const", "true", "false", "var", "sum", "mul", "div", "mod", "ite", "eq", "le", "not", "and", "or", "forall", "app", "lit", "cat", "extract", "unit", "len", "nth", "repeat", "seqfn", "first"}[t.op] + "(" + j(", ") + ")"
}

var strDepth = 12
