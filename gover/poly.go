package main

// Integer polynomials over named unknowns, with intervals, for the
// arithmetic back end.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Poly map[string]*big.Int // monomial -> coefficient; "" is the constant

var bigOne, bigZero = big.NewInt(1), big.NewInt(0)

func pconst(x *big.Int) Poly {
	if x.Sign() == 0 {
		return Poly{}
	}
	return Poly{"": x}
}

func pint(n int64) Poly { return pconst(big.NewInt(n)) }

func patom(i int) Poly { return Poly{strconv.Itoa(i): bigOne} }

func padd(a, b Poly) Poly { return paddm(a, b, bigOne) }

func psub(a, b Poly) Poly { return paddm(a, b, big.NewInt(-1)) }

// paddm is a + k*b.
func paddm(a, b Poly, k *big.Int) Poly {
	r := make(Poly, len(a)+len(b))
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		d := new(big.Int).Mul(c, k)
		if o := r[m]; o != nil {
			d.Add(d, o)
		}
		if d.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = d
		}
	}
	return r
}

func pscale(a Poly, k *big.Int) Poly { return paddm(Poly{}, a, k) }

type factor struct {
	atom int
	exp  *big.Int
}

func factors(m string) []factor {
	if m == "" {
		return nil
	}
	var fs []factor
	for _, s := range strings.Split(m, "*") {
		e := bigOne
		if j := strings.IndexByte(s, '^'); j >= 0 {
			e, _ = new(big.Int).SetString(s[j+1:], 10)
			s = s[:j]
		}
		n, _ := strconv.Atoi(s)
		fs = append(fs, factor{n, e})
	}
	return fs
}

func monoOf(fs []factor) string {
	sort.Slice(fs, func(i, j int) bool { return fs[i].atom < fs[j].atom })
	var sb strings.Builder
	for i := 0; i < len(fs); i++ {
		e := fs[i].exp
		for i+1 < len(fs) && fs[i+1].atom == fs[i].atom {
			i++
			e = new(big.Int).Add(e, fs[i].exp)
		}
		if e.Sign() == 0 {
			continue
		}
		if sb.Len() > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(fs[i].atom))
		if e.Cmp(bigOne) != 0 {
			sb.WriteByte('^')
			sb.WriteString(e.String())
		}
	}
	return sb.String()
}

func mmul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return monoOf(append(factors(a), factors(b)...))
}

func pmul(a, b Poly) Poly {
	r := make(Poly, len(a)*len(b))
	for m, c := range a {
		for n, d := range b {
			k := mmul(m, n)
			x := new(big.Int).Mul(c, d)
			if o := r[k]; o != nil {
				x.Add(x, o)
			}
			if x.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = x
			}
		}
	}
	return r
}

// pmod reduces all coefficients into [0, n).
func pmod(a Poly, n *big.Int) Poly {
	r := make(Poly, len(a))
	for m, c := range a {
		x := new(big.Int).Mod(c, n)
		if x.Sign() != 0 {
			r[m] = x
		}
	}
	return r
}

func (p Poly) isConst() (*big.Int, bool) {
	switch len(p) {
	case 0:
		return bigZero, true
	case 1:
		if c := p[""]; c != nil {
			return c, true
		}
	}
	return nil, false
}

func (p Poly) key() string {
	ks := make([]string, 0, len(p))
	for m := range p {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, m := range ks {
		sb.WriteString(p[m].Text(36))
		sb.WriteByte('.')
		sb.WriteString(m)
		sb.WriteByte(';')
	}
	return sb.String()
}

// split separates the constant.
func (p Poly) split() (Poly, *big.Int) {
	c := p[""]
	if c == nil {
		return p, bigZero
	}
	r := make(Poly, len(p))
	for m, d := range p {
		if m != "" {
			r[m] = d
		}
	}
	return r, c
}

func (p Poly) linear() bool {
	for m := range p {
		if strings.ContainsAny(m, "*^") {
			return false
		}
	}
	return true
}

// divisible by 2^n: the part of p whose coefficients are, divided; and the rest.
func (p Poly) pull(n uint) (Poly, Poly) {
	e, r := Poly{}, Poly{}
	for m, c := range p {
		if c.TrailingZeroBits() >= n {
			e[m] = new(big.Int).Rsh(c, n)
		} else {
			r[m] = c
		}
	}
	return e, r
}

type ival struct{ lo, hi *big.Int }

func (a ival) add(b ival) ival {
	return ival{new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
}

func (a ival) neg() ival { return ival{new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)} }

func (a ival) mul(b ival) ival {
	var r ival
	for _, x := range []*big.Int{a.lo, a.hi} {
		for _, y := range []*big.Int{b.lo, b.hi} {
			z := new(big.Int).Mul(x, y)
			if r.lo == nil || z.Cmp(r.lo) < 0 {
				r.lo = z
			}
			if r.hi == nil || z.Cmp(r.hi) > 0 {
				r.hi = z
			}
		}
	}
	return r
}

func (a ival) meet(b ival) ival {
	if b.lo.Cmp(a.lo) > 0 {
		a.lo = b.lo
	}
	if b.hi.Cmp(a.hi) < 0 {
		a.hi = b.hi
	}
	return a
}

func (a ival) within(lo, hi *big.Int) bool { return a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 }

func (a ival) point() (*big.Int, bool) { return a.lo, a.lo.Cmp(a.hi) == 0 }

func (a ival) rsh(n uint) ival {
	return ival{new(big.Int).Rsh(a.lo, n), new(big.Int).Rsh(a.hi, n)}
}

func (a ival) String() string { return fmt.Sprintf("[%v, %v]", a.lo, a.hi) }

func bpow(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
