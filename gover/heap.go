package main

// Values and memory. A Go value is a small tree of terms; memory is a map from
// (key, reference) to terms, where a key is a field of a named struct type, a
// variable cell, "bytes" (contents of byte arrays), or "A:T" (contents of
// arrays of pointers/integers). Heaps are persistent.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Val interface{}

type SliceV struct {
	arr, off, n, cap *Term
	elem             types.Type
}
type IfaceV struct{ tag, ref *Term }
type StructV struct {
	t types.Type
	f []Val
}
type Tuple []Val
type ClosV struct {
	id   int
	bind []Val
}

// AddrV is the address of a scalar cell or of an element of an array.
type AddrV struct {
	kind byte // 'c' cell (key,ref) ; 'b' byte element ; 'l' list element ; 's' element of a list of strings
	key  string
	ref  *Term
	idx  *Term
	t    types.Type
}

type Entry struct {
	kind byte // 'w' write, 'h' havoc, 'c' comprehension
	ref  *Term
	val  *Term
	n    *big.Int // comprehension: first reference of the bucket
	k    *Term    // comprehension: bound counter
	hi   *Term    // comprehension: number of iterations
	grd  *Term
	ver  string
	fa   string
	prev *Entry
	site string
	def  bool // the content of an object a contract speaks about, not a write
}

type Heap struct{ m map[string]*Entry }

func (h *Heap) clone() *Heap {
	m := make(map[string]*Entry, len(h.m))
	for k, v := range h.m {
		m[k] = v
	}
	return &Heap{m}
}

var bucket = new(big.Int).Lsh(bi(1), 50)

const globBase = 1 << 20
const globMax = 1<<21 - 1

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(f, a...)})
}

// ---- types -------------------------------------------------------------

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// listElem: element types whose arrays are represented as one wide sequence.
func listElem(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Info()&types.IsInteger != 0 && u.Kind() != types.Uint8
	}
	return false
}

func listKey(t types.Type) string {
	n := typeName(t)
	if _, ok := t.Underlying().(*types.Pointer); ok && !strings.HasPrefix(n, "*") {
		n = "*" + n
	}
	return "A:" + n
}

func byteArray(t types.Type) (int, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok || !isByte(a.Elem()) {
		return 0, false
	}
	return int(a.Len()), true
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, o := t.Underlying().(*types.Basic)
	if !o {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(bi(1), n) }
	m1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, bi(1)) }
	ng := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	switch b.Kind() {
	case types.Uint8:
		return bi(0), m1(p(8)), true
	case types.Uint16:
		return bi(0), m1(p(16)), true
	case types.Uint32:
		return bi(0), m1(p(32)), true
	case types.Uint64, types.Uint, types.Uintptr:
		return bi(0), m1(p(64)), true
	case types.Int8:
		return ng(p(7)), m1(p(7)), true
	case types.Int16:
		return ng(p(15)), m1(p(15)), true
	case types.Int32, types.UntypedRune:
		return ng(p(31)), m1(p(31)), true
	case types.Int64, types.Int, types.UntypedInt:
		return ng(p(63)), m1(p(63)), true
	}
	return nil, nil, false
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

// closed-world interfaces: key interfaces with exactly one implementation.
var closedWorld = map[string]string{
	"ecc.ECPublicKeyable":   "ecc.DjbECPublicKey",
	"ecc.ECPrivateKeyable":  "ecc.DjbECPrivateKey",
	"ksession.RootKeyable":  "root.Key",
	"ksession.ChainKeyable": "chain.Key",
}

func (e *Eng) closed(t types.Type) types.Type {
	n, ok := closedWorld[typeName(t)]
	if !ok {
		return nil
	}
	return types.NewPointer(e.P.namedType(n))
}

func (P *Program) namedType(n string) types.Type {
	i := strings.LastIndexByte(n, '.')
	pk, tn := n[:i], n[i+1:]
	for _, p := range P.pkgs {
		if pkgAlias(shortPkg(p.Types)) == pk || shortPkg(p.Types) == pk {
			if o := p.Types.Scope().Lookup(tn); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// ---- leaves ------------------------------------------------------------

type leaf struct {
	suf    string
	sort   Sort
	lo, hi *big.Int
	ptr    bool
}

// leaves of a scalar type (not struct, not byte array).
func (e *Eng) leaves(t types.Type) []leaf {
	if lo, hi, ok := intRange(t); ok {
		return []leaf{{"", SInt, lo, hi, false}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []leaf{{"", SBool, nil, nil, false}}
		}
		if u.Info()&types.IsString != 0 {
			return []leaf{{"", SSeq, nil, nil, false}}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return []leaf{{"", SInt, nil, nil, true}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SInt, nil, nil, true}}
	case *types.Slice:
		mx := new(big.Int).Lsh(bi(1), 40)
		return []leaf{{".arr", SInt, nil, nil, true}, {".off", SInt, bi(0), mx, false}, {".len", SInt, bi(0), mx, false}, {".cap", SInt, bi(0), mx, false}}
	case *types.Interface:
		if e.closed(t) != nil {
			return []leaf{{"", SInt, nil, nil, true}}
		}
		return []leaf{{".tag", SInt, bi(0), bi(1 << 30), false}, {".ref", SInt, nil, nil, true}}
	case *types.Array:
		if n, ok := byteArray(t); ok {
			return []leaf{{fmt.Sprintf("#%d", n), SSeq, nil, nil, false}}
		}
	}
	unsupported("type %s as a memory cell", t)
	return nil
}

func (e *Eng) fromLeaves(t types.Type, x []*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{x[0], x[1], x[2], x[3], u.Elem()}
	case *types.Interface:
		if ct := e.closed(t); ct != nil {
			c := e.c
			id := c.Int(int64(e.P.tagOf(ct)))
			return &IfaceV{c.Ite(c.Eq(x[0], c.Zero), c.Zero, id), x[0]}
		}
		return &IfaceV{x[0], x[1]}
	}
	return x[0]
}

func (e *Eng) toLeaves(t types.Type, v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.n, x.cap}
	case *IfaceV:
		if e.closed(t) != nil {
			return []*Term{x.ref}
		}
		return []*Term{x.tag, x.ref}
	case *AddrV:
		return []*Term{e.addrRef(x)}
	case *ClosV:
		return []*Term{e.c.Int(int64(x.id))}
	}
	unsupported("leaves of %T", v)
	return nil
}

// addrRef turns the address of a scalar into a reference.
func (e *Eng) addrRef(a *AddrV) *Term {
	if a.kind == 'c' {
		if strings.HasPrefix(a.key, "cell:") {
			return a.ref
		}
		e.faKeys[a.key] = a.t
		return e.c.FA(a.key, a.ref)
	}
	unsupported("address of array element escapes")
	return nil
}

func (e *Eng) zeroLeaf(l leaf) *Term {
	switch l.sort {
	case SBool:
		return e.c.F
	case SSeq:
		if n, ok := fixedLen("x" + l.suf); ok {
			return e.c.Repeat(e.c.Zero, e.c.Int(int64(n)))
		}
		return e.c.Empty
	}
	return e.c.Zero
}

func (e *Eng) zero(t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, e.zero(s.Field(i).Type()))
		}
		return r
	}
	if tp, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tp.Len(); i++ {
			r = append(r, e.zero(tp.At(i).Type()))
		}
		return r
	}
	var x []*Term
	for _, l := range e.leaves(t) {
		x = append(x, e.zeroLeaf(l))
	}
	return e.fromLeaves(t, x)
}

// symbolic makes an unconstrained value of type t (old objects only when old).
func (e *Eng) symbolic(st *State, name string, t types.Type, old bool) Val {
	c := e.c
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, e.symbolic(st, name+"."+s.Field(i).Name(), s.Field(i).Type(), old))
		}
		return r
	}
	var x []*Term
	for _, l := range e.leaves(t) {
		var s *Term
		if l.ptr {
			hi := bi(OldMax)
			if !old {
				hi = nil
			}
			s = c.FreshRange(name+l.suf, bi(0), hi)
		} else if l.sort == SInt {
			s = c.FreshRange(name+l.suf, l.lo, l.hi)
		} else {
			s = c.Fresh(name+l.suf, l.sort)
		}
		x = append(x, s)
	}
	v := e.fromLeaves(t, x)
	if sl, ok := v.(*SliceV); ok {
		e.sliceWF(st, sl)
	}
	if iv, ok := v.(*IfaceV); ok && e.closed(t) == nil {
		e.assume(c.Eq(c.Eq(iv.tag, c.Zero), c.Eq(iv.ref, c.Zero)))
	}
	return v
}

// ---- reading and writing ------------------------------------------------

// refNE / refEQ knowledge comes from the term constructors; undecided
// comparisons are settled by the solver when cheap.
func (e *Eng) refEq(a, b *Term) *Term {
	q := e.c.Eq(a, b)
	if q == e.c.T || q == e.c.F || q.hasBV {
		return q
	}
	if e.known(q) {
		return e.c.T
	}
	if e.known(e.c.Not(q)) {
		return e.c.F
	}
	return q
}

func isOld(r *Term) bool {
	return r.hi != nil && r.hi.Cmp(bi(OldMax)) <= 0
}

// bucketOf returns the first reference of the allocation bucket of r.
func bucketOf(r *Term) *big.Int {
	if r.lo == nil || r.hi == nil || r.lo.Cmp(bucket) < 0 {
		return nil
	}
	a := new(big.Int).Div(r.lo, bucket)
	b := new(big.Int).Div(r.hi, bucket)
	if a.Cmp(b) != 0 {
		return nil
	}
	return a.Mul(a, bucket)
}

func (e *Eng) read(h *Heap, key string, l leaf, ref *Term) *Term {
	return e.readFrom(h.m[key], key, l, ref)
}

func (e *Eng) readFrom(en *Entry, key string, l leaf, ref *Term) *Term {
	c := e.c
	if ref.op == OIte {
		return c.Ite(ref.args[0], e.readFrom(en, key, l, ref.args[1]), e.readFrom(en, key, l, ref.args[2]))
	}
	for ; en != nil; en = en.prev {
		switch en.kind {
		case 'w':
			q := e.refEq(ref, en.ref)
			if q == c.T {
				return en.val
			}
			if q == c.F {
				continue
			}
			return c.Ite(q, en.val, e.readFrom(en.prev, key, l, ref))
		case 'h':
			return e.base(key, en.ver, l, ref)
		case 'c':
			lo := c.Big(en.n)
			if en.fa != "" {
				if !ref.isFA() || ref.name != en.fa {
					continue
				}
			} else if ref.isFA() {
				continue
			}
			orig := ref
			if en.fa != "" {
				ref = ref.args[0]
			}
			hi := c.Add(lo, en.hi)
			in := c.And(c.Le(lo, ref), c.Lt(ref, hi))
			bk := bucketOf(ref)
			if bk != nil && bk.Cmp(en.n) != 0 || in == c.F || isOld(ref) {
				ref = orig
				continue
			}
			k := c.Sub(ref, lo)
			ref = orig
			m := map[*Term]*Term{en.k: k}
			g := c.T
			if bk == nil {
				g = in
			}
			if en.grd != nil {
				g = c.And(g, c.Subst(en.grd, m))
			}
			v := c.Subst(en.val, m)
			if g == c.T || !g.hasBV && e.quick(g) {
				return v
			}
			if g == c.F {
				continue
			}
			return c.Ite(g, v, e.readFrom(en.prev, key, l, ref))
		}
	}
	return e.base(key, "0", l, ref)
}

func (e *Eng) base(key, ver string, l leaf, ref *Term) *Term {
	c := e.c
	if bk := bucketOf(ref); bk != nil && ver == "0" {
		if e.zeroed[bk.String()] {
			return e.zeroLeaf(l)
		}
	}
	if key == "bytes" {
		if g, ok := e.globRead[ref]; ok {
			return g
		}
	}
	name := key + "@" + ver
	if key == "bytes" && ref.isFA() {
		if n, ok := e.faLen[ref.name[3:]]; ok {
			name = fmt.Sprintf("bytes#%d@%s", n, ver)
		}
	}
	if l.sort != SInt {
		return c.App(name, l.sort, ref)
	}
	t := c.App(name, SInt, ref)
	if t.op == OApp && t.lo == nil && t.hi == nil {
		if l.ptr {
			t.lo = bi(0)
			fk := strings.TrimSuffix(strings.TrimSuffix(key, ".arr"), ".ref")
			if e.P.spec != nil && e.P.spec.nonnil[fk] {
				t.lo = bi(1)
			}
			if v, ok := e.fixedField(key); ok {
				t.lo, t.hi = v, v
			} else if ver == "0" && (isOld(ref) || ref.isFA()) && e.oldFA(ref) {
				t.hi = bi(OldMax)
			} else if ver == "0" && !ref.isFA() && ref.hi != nil && ref.hi.Cmp(bi(OldMax)) > 0 {
				// what an object refers to existed when the object was found
				t.hi = ref.hi
			}
		} else {
			t.lo, t.hi = l.lo, l.hi
			if strings.HasSuffix(key, ".tag") && e.P.spec != nil && e.P.spec.nonnil[strings.TrimSuffix(key, ".tag")] {
				t.lo = bi(1)
			}
		}
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 {
		return c.Big(t.lo)
	}
	return t
}

func (e *Eng) oldFA(r *Term) bool {
	for r.isFA() {
		r = r.args[0]
	}
	return isOld(r)
}

// fixedField: type invariants of the form  inv T.f == function.
func (e *Eng) fixedField(key string) (*big.Int, bool) {
	if e.P.spec == nil {
		return nil, false
	}
	fn, ok := e.P.spec.fixed[key]
	if !ok {
		return nil, false
	}
	f := e.P.funcs[fn]
	if f == nil {
		return nil, false
	}
	return bi(int64(e.P.fnID[f])), true
}

func (e *Eng) write(st *State, key string, ref, val *Term) {
	if ref.op == OIte {
		unsupportedIf(ref.hasBV, "write through a bound reference")
	}
	st.heap.m[key] = &Entry{kind: 'w', ref: ref, val: val, prev: st.heap.m[key], site: e.site}
	if e.onWrite != nil {
		e.onWrite(key, ref, val)
	}
}

func unsupportedIf(b bool, f string, a ...interface{}) {
	if b {
		unsupported(f, a...)
	}
}

var leafBytes = leaf{"", SSeq, nil, nil, false}
var leafList = leaf{"", SSeqW, nil, nil, false}

func (e *Eng) readBytes(h *Heap, arr *Term) *Term { return e.read(h, "bytes", leafBytes, arr) }

// arrContent is the whole content of the array behind a slice.
func (e *Eng) arrContent(h *Heap, elem types.Type, arr *Term) *Term {
	if isByte(elem) {
		return e.readBytes(h, arr)
	}
	if listElem(elem) {
		return e.read(h, listKey(elem), leafList, arr)
	}
	unsupported("content of []%s", elem)
	return nil
}

func (e *Eng) arrKey(elem types.Type) string {
	if isByte(elem) {
		return "bytes"
	}
	if listElem(elem) {
		return listKey(elem)
	}
	unsupported("content of []%s", elem)
	return ""
}

// content is the sequence of elements of a slice.
func (e *Eng) content(h *Heap, s *SliceV) *Term {
	c := e.c
	if s.n == c.Zero {
		if isByte(s.elem) {
			return c.Empty
		}
		return c.EmptyW
	}
	if s.arr.op == OIte {
		a := *s
		b := *s
		cond := s.arr.args[0]
		a.arr, b.arr = s.arr.args[1], s.arr.args[2]
		pick := func(t *Term, i int) *Term {
			if t.op == OIte && t.args[0] == cond {
				return t.args[i]
			}
			return t
		}
		a.off, a.n, a.cap = pick(s.off, 1), pick(s.n, 1), pick(s.cap, 1)
		b.off, b.n, b.cap = pick(s.off, 2), pick(s.n, 2), pick(s.cap, 2)
		return c.Ite(cond, e.content(h, &a), e.content(h, &b))
	}
	return c.Extract(e.arrContent(h, s.elem, s.arr), s.off, s.n)
}

// fieldCell locates field i of the struct of type t at ref.
func (e *Eng) fieldCell(t types.Type, ref *Term, i int) (key string, r *Term, ft types.Type) {
	s := t.Underlying().(*types.Struct)
	f := s.Field(i)
	key = structKey(t) + "." + f.Name()
	ft = f.Type()
	if n, ok := byteArray(ft); ok {
		e.faLen[key] = n
		return key, e.c.FA(key, ref), ft
	}
	if isStruct(ft) {
		return key, e.c.FA(key, ref), ft
	}
	if a, ok := ft.Underlying().(*types.Array); ok {
		_ = a
		return key, e.c.FA(key, ref), ft
	}
	return key, ref, ft
}

func structKey(t types.Type) string { return typeName(t) }

// load reads a value of type t at (key, ref).
func (e *Eng) load(st *State, h *Heap, key string, ref *Term, t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := &StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			k, rr, ft := e.fieldCell(t, ref, i)
			r.f = append(r.f, e.load(st, h, k, rr, ft))
		}
		return r
	}
	if n, ok := byteArray(t); ok {
		v := e.readBytes(h, ref)
		if e.c.Len(v).op != OConst && !v.hasBV {
			e.assumeOnce(e.c.Eq(e.c.Len(v), e.c.Int(int64(n))))
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if listElem(a.Elem()) {
			return e.read(h, listKey(a.Elem()), leafList, ref)
		}
		unsupported("load of %s", t)
	}
	var x []*Term
	base := false
	for _, l := range e.leaves(t) {
		v := e.read(h, key+l.suf, l, ref)
		if v.op == OApp && strings.Contains(v.name, "@") || v.op == OIte {
			base = true
		}
		x = append(x, v)
	}
	v := e.fromLeaves(t, x)
	if base {
		if s, ok := v.(*SliceV); ok {
			e.sliceWF(st, s)
			if n, ok := e.P.spec.atmost[key]; ok && !s.n.hasBV && s.n.op == OApp && strings.Contains(s.n.name, "@") {
				e.assumeOnce(e.c.Le(s.n, e.c.Int(n)))
				e.notes[fmt.Sprintf("objects that exist before a call hold at most %d elements in %s", n, key)] = true
			}
		}
		if iv, ok := v.(*IfaceV); ok && e.closed(t) == nil {
			e.assumeOnce(e.c.Eq(e.c.Eq(iv.tag, e.c.Zero), e.c.Eq(iv.ref, e.c.Zero)))
		}
	}
	return v
}

func (e *Eng) store(st *State, key string, ref *Term, t types.Type, v Val) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		sv, ok := v.(*StructV)
		if !ok {
			unsupported("store of %T into struct", v)
		}
		for i := 0; i < s.NumFields(); i++ {
			k, rr, ft := e.fieldCell(t, ref, i)
			e.store(st, k, rr, ft, sv.f[i])
		}
		return
	}
	if _, ok := byteArray(t); ok {
		e.write(st, "bytes", ref, v.(*Term))
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if listElem(a.Elem()) {
			e.write(st, listKey(a.Elem()), ref, v.(*Term))
			return
		}
		unsupported("store of %s", t)
	}
	ls := e.leaves(t)
	x := e.toLeaves(t, v)
	for i, l := range ls {
		e.write(st, key+l.suf, ref, x[i])
	}
}

// sliceWF assumes a slice read from old memory to be well formed.
func (e *Eng) sliceWF(st *State, s *SliceV) {
	c := e.c
	if s.n.op == OConst && s.off.op == OConst && s.cap.op == OConst || s.n.hasBV || s.arr.hasBV {
		return
	}
	w := c.And(c.Le(c.Zero, s.off), c.Le(c.Zero, s.n), c.Le(s.n, s.cap),
		c.Imp(c.Eq(s.arr, c.Zero), c.And(c.Eq(s.cap, c.Zero), c.Eq(s.off, c.Zero))))
	if (isByte(s.elem) || listElem(s.elem)) && s.arr.op != OIte {
		ct := e.arrContent(e.entry, s.elem, s.arr)
		if isOld(s.arr) {
			w = c.And(w, c.Le(c.Add(s.off, s.cap), c.Len(ct)))
		}
	}
	e.assumeOnce(w)
}

// reserve sets apart the references of the objects that a call makes: whatever
// exists when it returns is at most the result.
const reserved = 64

func (e *Eng) reserve() *big.Int {
	n := new(big.Int).Mul(bi(int64(e.serial+reserved+1)), bucket)
	return n.Sub(n, bi(1))
}

func (e *Eng) newRef() *Term {
	e.serial++
	n := new(big.Int).Mul(bi(int64(e.serial)), bucket)
	r := e.c.Big(n)
	for i := len(e.loopK) - 1; i >= 0; i-- {
		// inside a loop: one reference per iteration
		if i == len(e.loopK)-1 {
			r = e.c.Add(r, e.loopK[i])
		} else {
			unsupported("allocation in a nested loop")
		}
	}
	return r
}

func (e *Eng) allocZeroed() *Term {
	r := e.newRef()
	e.zeroed[bucketOf(r).String()] = true
	return r
}
