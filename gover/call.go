package main

// Calls: contracts, inlining, models of library functions, store events.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cont func(*State, []Val)

func (e *Eng) call(fr *Frame, st *State, com *ssa.CallCommon, in *ssa.Call, k Cont) {
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if in == nil {
			unsupported("go %s", b.Name())
		}
		e.builtin(fr, st, b.Name(), com, in, k)
		return
	}
	var args []Val
	if com.IsInvoke() {
		recv := e.val(fr, com.Value)
		for _, a := range com.Args {
			args = append(args, e.val(fr, a))
		}
		iv, ok := recv.(*IfaceV)
		if !ok {
			unsupported("invoke on %T", recv)
		}
		it := com.Value.Type()
		if ct := e.closed(it); ct != nil {
			e.safe(e.c.Not(e.c.Eq(iv.ref, e.c.Zero)), "method call on nil interface")
			m := e.P.prog.LookupMethod(ct, com.Method.Pkg(), com.Method.Name())
			if m == nil {
				unsupported("method %s", com.Method.Name())
			}
			e.callFn(fr, st, m, append([]Val{iv.ref}, args...), nil, com, k)
			return
		}
		e.invoke(fr, st, iv, it, com, args, k)
		return
	}
	for _, a := range com.Args {
		args = append(args, e.val(fr, a))
	}
	if f := com.StaticCallee(); f != nil {
		var binds []Val
		if _, ok := com.Value.(*ssa.MakeClosure); ok {
			binds = e.val(fr, com.Value).(*ClosV).bind
		}
		e.callFn(fr, st, f, args, binds, com, k)
		return
	}
	switch v := e.val(fr, com.Value).(type) {
	case *ClosV:
		e.callFn(fr, st, e.P.fnByID[v.id], args, v.bind, com, k)
		return
	case *Term:
		if v.op == OConst {
			id := int(v.k.Int64())
			if f := e.P.fnByID[id]; f != nil {
				e.callFn(fr, st, f, args, nil, com, k)
				return
			}
			if n := e.P.externName(id); n != "" {
				if m := models[n]; m != nil {
					m(e, fr, st, args, com, k)
					return
				}
			}
			if id == 0 {
				e.safe(e.c.F, "call of nil function")
				return
			}
		}
	}
	unsupported("call of unknown function value")
}

func (e *Eng) callFn(fr *Frame, st *State, f *ssa.Function, args, binds []Val, com *ssa.CallCommon, k Cont) {
	name := funcName(f)
	if m := models[name]; m != nil {
		m(e, fr, st, args, com, k)
		return
	}
	if strings.HasPrefix(name, "logger.") {
		e.pureResult(st, f, k)
		return
	}
	if con := e.P.spec.contracts[name]; con != nil && !con.inline && !(e.con != nil && e.con.expand[name]) && len(con.params) == len(sigParams(f)) && len(con.results) == f.Signature.Results().Len() {
		e.used[name] = true
		if con.trusted {
			e.trusted[name] = true
		}
		e.applyContract(fr, st, con, f, args, k)
		return
	}
	if f.Blocks == nil {
		unsupported("call of %s", name)
	}
	if f.Name() == "init" {
		k(st, nil)
		return
	}
	for _, s := range fr.stack {
		if s == name {
			unsupported("recursion through %s", name)
		}
	}
	e.inlined[name] = true
	site := e.site
	e.callBody(f, args, binds, st, fr.depth+1, append(fr.stack[:len(fr.stack):len(fr.stack)], name), func(s2 *State, r []Val) {
		e.site = site
		k(s2, r)
	})
}

func (e *Eng) pureResult(st *State, f *ssa.Function, k Cont) {
	var rs []Val
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, e.symbolic(st, f.Name(), f.Signature.Results().At(i).Type(), true))
	}
	k(st, rs)
}

// ---- builtins ------------------------------------------------------------------

func (e *Eng) builtin(fr *Frame, st *State, name string, com *ssa.CallCommon, in *ssa.Call, k Cont) {
	c := e.c
	a := func(i int) Val { return e.val(fr, com.Args[i]) }
	switch name {
	case "len":
		switch v := a(0).(type) {
		case *SliceV:
			k(st, []Val{v.n})
			return
		case *Term:
			if v.sort.isSeq() {
				k(st, []Val{c.Len(v)})
				return
			}
		}
	case "cap":
		if v, ok := a(0).(*SliceV); ok {
			k(st, []Val{v.cap})
			return
		}
	case "append":
		e.appendB(fr, st, com, k)
		return
	case "copy":
		e.copyB(fr, st, a(0), a(1), k)
		return
	case "print", "println":
		k(st, nil)
		return
	case "min", "max":
		x, y := a(0).(*Term), a(1).(*Term)
		if name == "min" {
			k(st, []Val{c.Ite(c.Le(x, y), x, y)})
		} else {
			k(st, []Val{c.Ite(c.Le(x, y), y, x)})
		}
		return
	case "ssa:wrapnilchk":
		k(st, []Val{a(0)})
		return
	}
	unsupported("builtin %s", name)
}

// exclusive: the slice value is used only by this append and was made by an
// allocation, a conversion or another append, so whether the append reuses its
// array cannot be observed.
func exclusive(v ssa.Value) bool {
	if r := v.Referrers(); r == nil || len(nonDebug(*r)) != 1 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append"
		}
		return false
	case *ssa.MakeSlice, *ssa.Convert:
		return true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			switch r.(type) {
			case *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}

func nonDebug(rs []ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range rs {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func (e *Eng) appendB(fr *Frame, st *State, com *ssa.CallCommon, k Cont) {
	c := e.c
	s, ok := e.val(fr, com.Args[0]).(*SliceV)
	if !ok {
		unsupported("append to %T", e.val(fr, com.Args[0]))
	}
	var add *Term
	switch v := e.val(fr, com.Args[1]).(type) {
	case *SliceV:
		if !isByte(v.elem) && !listElem(v.elem) {
			if v.n == c.Zero {
				k(st, []Val{s})
				return
			}
			// element lists that are not modelled: an opaque fresh slice
			if isErrorIface(v.elem) {
				n := c.Add(s.n, v.n)
				r := e.newRef()
				k(st, []Val{&SliceV{r, c.Zero, n, n, s.elem}})
				return
			}
			e.appendCells(st, com, s, v, k)
			return
		}
		add = e.content(st.heap, v)
	case *Term:
		add = v
	}
	m := c.Len(add)
	if m == c.Zero {
		k(st, []Val{s})
		return
	}
	if !isByte(s.elem) && listElem(s.elem) {
		if sv, ok := e.val(fr, com.Args[1]).(*SliceV); !ok || bucketOf(sv.arr) != nil {
			e.checkList(e.arrKey(s.elem), add)
		}
		if e.isMade(st, s.arr) {
			e.checkList(e.arrKey(s.elem), e.content(st.heap, s))
		}
	}
	n := c.Add(s.n, m)
	// an array that grew has spare capacity the model does not show: a second
	// append to it may write what the first one wrote
	grown := func(st *State) {
		if exclusive(com.Args[0]) {
			return
		}
		if b := bucketOf(s.arr); b != nil && !e.exactCap[b.String()] {
			id := b.String()
			for _, x := range st.appended {
				if x == id {
					unsupported("two appends to one array of unknown capacity")
				}
			}
			if c.Sub(c.Add(s.off, s.n), c.Len(e.arrContent(st.heap, s.elem, s.arr))) != c.Zero {
				unsupported("append to a part of an array of unknown capacity")
			}
			st.appended = append(st.appended, id)
		}
	}
	realloc0 := func(st *State) {
		grown(st)
		// nobody else can see the array: its spare capacity is immaterial
		ct := c.Concat(e.content(st.heap, s), add)
		r := e.allocZeroed()
		e.write(st, e.arrKey(s.elem), r, ct)
		k(st, []Val{&SliceV{r, c.Zero, n, n, s.elem}})
	}
	inplace := func(st *State) {
		old := e.arrContent(st.heap, s.elem, s.arr)
		e.write(st, e.arrKey(s.elem), s.arr, c.Splice(old, c.Add(s.off, s.n), add))
		k(st, []Val{&SliceV{s.arr, s.off, n, s.cap, s.elem}})
	}
	if exclusive(com.Args[0]) {
		realloc0(st)
		return
	}
	fits := c.Le(n, s.cap)
	if fits != c.T && fits != c.F && e.quick(fits) {
		fits = c.T
	} else if fits != c.T && fits != c.F && e.quick(c.Not(fits)) {
		fits = c.F
	}
	zero := c.Eq(m, c.Zero)
	if zero != c.F && zero != c.T && !e.quick(c.Not(zero)) {
		// appending nothing returns the slice itself
		e.branch(zero, func() { k(st.clone(), []Val{s}) })
		e.branch(c.Not(zero), func() {
			e.fork(fits, func() { inplace(st.clone()) }, func() { realloc0(st.clone()) })
		})
		return
	}
	e.fork(fits, func() { inplace(st.clone()) }, func() { realloc0(st.clone()) })
}

// appendCells appends a known number of elements to a slice of known length
// whose elements are kept in cells of their own.
func (e *Eng) appendCells(st *State, com *ssa.CallCommon, s, v *SliceV, k Cont) {
	c := e.c
	for _, t := range []*Term{s.arr, s.off, s.n, s.cap, v.arr, v.off, v.n} {
		if t.op != OConst {
			unsupported("append of []%s", v.elem)
		}
	}
	n, m := s.n.k.Int64(), v.n.k.Int64()
	if n+m > 64 {
		unsupported("append of []%s", v.elem)
	}
	st = st.clone()
	get := func(x *SliceV, i int64) Val {
		return e.loadAt(nil, st, e.elemAddr(s.elem, x.arr, c.Add(x.off, c.Int(i))), s.elem)
	}
	out := &SliceV{s.arr, s.off, c.Int(n + m), s.cap, s.elem}
	var vals []Val
	if n+m > s.cap.k.Int64() {
		// the array that grew may have spare capacity: see grown above
		if b := bucketOf(s.arr); b != nil && !exclusive(com.Args[0]) && !e.exactCap[b.String()] {
			for _, x := range st.appended {
				if x == b.String() {
					unsupported("two appends to one array of unknown capacity")
				}
			}
			st.appended = append(st.appended, b.String())
		}
		for i := int64(0); i < n; i++ {
			vals = append(vals, get(s, i))
		}
		out = &SliceV{e.allocZeroed(), c.Zero, c.Int(n + m), c.Int(n + m), s.elem}
	}
	from := n + m - int64(len(vals)) - m
	for i := int64(0); i < m; i++ {
		vals = append(vals, get(v, i))
	}
	for i, x := range vals {
		e.storeAt(nil, st, e.elemAddr(s.elem, out.arr, c.Add(out.off, c.Int(from+int64(i)))), s.elem, x)
	}
	k(st, []Val{out})
}

func (e *Eng) copyB(fr *Frame, st *State, dv, sv Val, k Cont) {
	c := e.c
	d, ok := dv.(*SliceV)
	if !ok {
		unsupported("copy to %T", dv)
	}
	var src *Term
	switch v := sv.(type) {
	case *SliceV:
		src = e.content(st.heap, v)
	case *Term:
		src = v
	}
	sn := c.Len(src)
	do := func(st *State, n *Term) {
		if n != c.Zero {
			part := c.Extract(src, c.Zero, n)
			old := e.arrContent(st.heap, d.elem, d.arr)
			e.write(st, e.arrKey(d.elem), d.arr, c.Splice(old, d.off, part))
		}
		k(st, []Val{n})
	}
	le := c.Le(sn, d.n)
	if le == c.T || le != c.F && e.quick(le) {
		do(st, sn)
		return
	}
	if le == c.F || e.quick(c.Not(le)) {
		do(st, d.n)
		return
	}
	e.branch(le, func() { do(st.clone(), sn) })
	e.branch(c.Not(le), func() { do(st.clone(), d.n) })
}

// ---- contracts at call sites -----------------------------------------------------

func sigParams(f *ssa.Function) []types.Type {
	var r []types.Type
	if rc := f.Signature.Recv(); rc != nil {
		r = append(r, rc.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		r = append(r, f.Signature.Params().At(i).Type())
	}
	return r
}

func (e *Eng) needNonNil(con *Contract, name string, t types.Type) bool {
	if con.nilable[name] {
		return false
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return true
	}
	return isIface(t) && !isErrorIface(t)
}

func (e *Eng) refOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *IfaceV:
		return x.ref
	case *AddrV:
		return e.addrRef(x)
	}
	unsupported("reference of %T", v)
	return nil
}

func (e *Eng) letMap(con *Contract) map[string]ast.Expr {
	m := map[string]ast.Expr{}
	for _, l := range con.lets {
		m[l.name] = l.expr
	}
	return m
}

func (e *Eng) applyContract(fr *Frame, st *State, con *Contract, f *ssa.Function, args []Val, k Cont) {
	c := e.c
	pts := sigParams(f)
	if con.noFrame {
		unsupported("call of %s, whose contract has no frame", con.name)
	}
	if len(con.params) != len(pts) || len(con.results) != f.Signature.Results().Len() {
		unsupported("contract of %s does not match its signature", con.name)
	}
	pre := st.heap.clone()
	vars := map[string]TV{}
	for i, p := range con.params {
		v := args[i]
		if a, ok := v.(*AddrV); ok {
			v = e.addrRef(a)
		}
		vars[p] = TV{v, pts[i]}
		if e.needNonNil(con, p, pts[i]) {
			r := e.refOf(v)
			e.safe(c.Not(c.Eq(r, c.Zero)), fmt.Sprintf("argument %s of %s is not nil", p, con.name))
		}
	}
	e.checkEscaping(st, args)
	base := &SEnv{e: e, vars: vars, st: st, heap: pre, old: pre, pkg: pkgOf(f), lets: e.letMap(con), caller: true}
	for _, r := range con.requires {
		ls := reqLabels(r.labels, con)
		if len(r.labels) == 0 && !strings.Contains(e.con.name, "zzLemma") {
			// the callee is free of panics only under its precondition
			ls = append(append([]string{}, ls...), "C13")
		}
		e.oblige("requires", con.name, ls, base.boolean(r.expr), "precondition of "+con.name+": "+r.text)
	}
	if !e.feasible() {
		return
	}
	ran := false
	k0 := k
	k = func(s2 *State, rs []Val) { ran = true; k0(s2, rs) }
	site := e.site
	defer func() {
		if p := recover(); p != nil {
			panic(p)
		}
		if !ran {
			unsupported("the contract of %s is contradictory at %s", con.name, site)
		}
	}()
	run := func(cs *Case, rv map[string]TV) {
		e.applyCase(fr, st.clone(), pre, con, f, cs, vars, rv, k)
	}
	if len(con.cases) == 0 {
		run(nil, map[string]TV{})
		return
	}
	// shared result symbols for the guards
	rv := map[string]TV{}
	g := *base
	g.lazy = e.lazyResults(st, con, f, rv, nil)
	var rest = c.T
	snap := func() map[string]TV {
		m := map[string]TV{}
		for k, v := range rv {
			m[k] = v
		}
		return m
	}
	for i := range con.cases {
		cs := &con.cases[i]
		gd := g.boolean(cs.guard.expr)
		rest = c.And(rest, c.Not(gd))
		e.branch(gd, func() {
			run(cs, snap())
		})
	}
	e.branch(rest, func() { run(nil, snap()) })
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

func (e *Eng) lazyResults(st *State, con *Contract, f *ssa.Function, rv map[string]TV, freshSet map[string]bool) func(string) (TV, bool) {
	return func(name string) (TV, bool) {
		if v, ok := rv[name]; ok {
			return v, true
		}
		for i, r := range con.results {
			if r == name {
				t := f.Signature.Results().At(i).Type()
				var v Val
				if freshSet[name] {
					v = e.freshResult(st, name, t)
				} else {
					v = e.symbolic(st, con.name+"."+name, t, false)
					if iv, ok := v.(*IfaceV); ok && isErrorIface(t) {
						_ = iv
					}
					if sl, ok := v.(*SliceV); ok {
						nv := *sl
						if isByte(sl.elem) || listElem(sl.elem) {
							// an array of its own bucket that the caller may not write
							r := e.newRef()
							e.notOwned[bucketOf(r).String()] = true
							nv.arr = e.c.Ite(e.c.Eq(sl.cap, e.c.Zero), e.c.Zero, r)
							nv.arr = r
							nilp := e.c.Fresh(con.name+"."+name+".isnil", SBool)
							nv.arr = e.c.Ite(nilp, e.c.Zero, r)
							nv.off = e.c.Zero
							e.assume(e.c.Imp(nilp, e.c.Eq(nv.cap, e.c.Zero)))
							e.assume(e.c.Le(nv.cap, e.c.Len(e.arrContent(st.heap, sl.elem, r))))
						}
						v = &nv
					}
				}
				rv[name] = TV{v, t}
				return rv[name], true
			}
		}
		return TV{}, false
	}
}

func (e *Eng) freshResult(st *State, name string, t types.Type) Val {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return e.newRef()
	case *types.Interface:
		r := e.newRef()
		if ct := e.closed(t); ct != nil {
			return &IfaceV{c.Int(int64(e.P.tagOf(ct))), r}
		}
		return &IfaceV{c.FreshRange(name+".tag", bi(1), bi(1<<30)), r}
	case *types.Slice:
		r := e.newRef()
		n := c.FreshRange(name+".len", bi(0), new(big.Int).Lsh(bi(1), 40))
		v := &SliceV{r, c.Zero, n, n, u.Elem()}
		ct := c.Fresh(name+".content", seqSort(u.Elem()))
		if !isByte(u.Elem()) {
			ct.lo, ct.hi = bi(0), e.limit
		}
		e.assume(c.Eq(c.Len(ct), n))
		e.write(st, e.arrKey(u.Elem()), r, ct)
		return v
	}
	unsupported("fresh result of type %s", t)
	return nil
}

// locs of a modifies clause: cells that may change.
type locT struct {
	key string
	ref *Term
	lf  leaf
	typ types.Type
	arr bool
	sl  *SliceV
}

func (s *SEnv) locations(x ast.Expr) []locT {
	e := s.e
	var out []locT
	fieldLocs := func(tv TV, name string) {
		ref, t, sv := s.base(tv)
		if sv != nil {
			sfail("modifies of a value")
		}
		st := t.Underlying().(*types.Struct)
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if name == "*" || st.Field(i).Name() == name {
				found = true
				k, r, ft := e.fieldCell(t, ref, i)
				if _, ok := byteArray(ft); ok {
					out = append(out, locT{key: "bytes", ref: r, lf: leaf{suf: fmt.Sprintf("#%d", ft.Underlying().(*types.Array).Len()), sort: SSeq}, arr: true})
					continue
				}
				if a, ok := ft.Underlying().(*types.Array); ok && listElem(a.Elem()) {
					out = append(out, locT{key: listKey(a.Elem()), ref: r, lf: leafList, arr: true})
					continue
				}
				if isStruct(ft) {
					in := s.locationsAll(ft, r)
					out = append(out, in...)
					continue
				}
				for _, l := range e.leaves(ft) {
					out = append(out, locT{key: k + l.suf, ref: r, lf: l, typ: ft})
				}
			}
		}
		if !found {
			sfail("no field %s", name)
		}
	}
	switch n := x.(type) {
	case *ast.SelectorExpr:
		name := n.Sel.Name
		if name == "all" {
			name = "*"
		}
		fieldLocs(s.ev(n.X), name)
		return out
	case *ast.StarExpr:
		tv := s.ev(n.X)
		if p, ok := ptrTo(tv.t); ok {
			if _, ok := byteArray(p); ok {
				return []locT{{key: "bytes", ref: tv.v.(*Term), lf: leaf{suf: fmt.Sprintf("#%d", p.Underlying().(*types.Array).Len()), sort: SSeq}, arr: true}}
			}
			if a, ok := p.Underlying().(*types.Array); ok && listElem(a.Elem()) {
				return []locT{{key: listKey(a.Elem()), ref: tv.v.(*Term), lf: leafList, arr: true}}
			}
		}
	case *ast.CallExpr:
		id := n.Fun.(*ast.Ident).Name
		switch id {
		case "list", "bytes", "b":
			tv := s.ev(n.Args[0])
			sl, ok := tv.v.(*SliceV)
			if !ok {
				sfail("modifies %s of a non-slice", id)
			}
			l := leafBytes
			if !isByte(sl.elem) {
				l = leafList
			}
			return []locT{{key: e.arrKey(sl.elem), ref: sl.arr, lf: l, arr: true, sl: sl}}
		case "havoc":
			return []locT{{key: s.str(n.Args[0]), ref: nil}}
		case "ite":
			g := s.boolean(n.Args[0])
			for _, l := range s.locations(n.Args[1]) {
				l.ref = e.c.Ite(g, l.ref, e.c.Int(-1))
				out = append(out, l)
			}
			return out
		}
	}
	sfail("modifies %s", exprStr(x))
	return nil
}

func (s *SEnv) locationsAll(t types.Type, ref *Term) []locT {
	var out []locT
	e := s.e
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		k, r, ft := e.fieldCell(t, ref, i)
		if _, ok := byteArray(ft); ok {
			out = append(out, locT{key: "bytes", ref: r, lf: leaf{suf: fmt.Sprintf("#%d", ft.Underlying().(*types.Array).Len()), sort: SSeq}, arr: true})
		} else if isStruct(ft) {
			out = append(out, s.locationsAll(ft, r)...)
		} else if a, ok := ft.Underlying().(*types.Array); ok && listElem(a.Elem()) {
			out = append(out, locT{key: listKey(a.Elem()), ref: r, lf: leafList, arr: true})
		} else {
			for _, l := range e.leaves(ft) {
				out = append(out, locT{key: k + l.suf, ref: r, lf: l, typ: ft})
			}
		}
	}
	return out
}

func onResult(x ast.Expr, results []string) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, r := range results {
				if id.Name == r {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (e *Eng) applyCase(fr *Frame, st *State, pre *Heap, con *Contract, f *ssa.Function, cs *Case, vars map[string]TV, rv map[string]TV, k Cont) {
	c := e.c
	cases := []*Case{&con.body}
	serial0, limit := e.serial, e.reserve()
	e.limit = limit
	if cs != nil {
		cases = append(cases, cs)
	}
	freshSet := map[string]bool{}
	for _, q := range cases {
		for _, fc := range q.fresh {
			freshSet[exprStr(fc.expr)] = true
		}
	}
	emits := con.emits
	if e.P.mayRand(f, nil) {
		emits = append(emits[:len(emits):len(emits)], "rand.Read")
	}
	for _, n := range emits {
		if silent(cases, n) {
			continue
		}
		st.events = append(st.events[:len(st.events):len(st.events)], &Event{name: n, maybe: true, heap: st.heap})
	}
	preEnv := &SEnv{e: e, vars: vars, st: st, heap: pre, old: pre, pkg: pkgOf(f), lets: e.letMap(con), caller: true}
	preEnv.post = st.heap
	preEnv.lazy = func(n string) (TV, bool) { v, ok := rv[n]; return v, ok }
	writable := map[string]bool{} // text of locations that may be defined
	for _, q := range cases {
		for _, m := range q.modifies {
			for _, l := range preEnv.locations(m.expr) {
				if l.ref == nil {
					e.serialVer++
					st.heap.m[l.key] = &Entry{kind: 'h', ver: fmt.Sprintf("h%d", e.serialVer), prev: st.heap.m[l.key], site: e.site}
					continue
				}
				var nv *Term
				switch {
				case l.arr && l.lf.suf != "":
					nv = c.Fresh("mod"+l.lf.suf, SSeq)
				case l.arr:
					old := e.read(st.heap, l.key, l.lf, l.ref)
					nv = c.Fresh("mod.content", l.lf.sort)
					if strings.HasPrefix(l.key, "A:*") {
						nv.lo, nv.hi = bi(0), limit
					}
					e.assume(c.Eq(c.Len(nv), c.Len(old)))
					if l.sl != nil && strings.HasPrefix(l.key, "A:*") && e.P.spec.elems[l.key[3:]] {
						// nobody stores nil in such a list
						v := c.BoundIn("el", l.sl.off, c.Add(l.sl.off, l.sl.n))
						e.assume(c.Forall(v, l.sl.off, c.Add(l.sl.off, l.sl.n), c.Not(c.Eq(c.Nth(nv, v), c.Zero))))
					}
				case l.lf.sort == SInt:
					lo, hi := l.lf.lo, l.lf.hi
					if l.lf.ptr {
						lo, hi = bi(0), limit
						if e.P.spec.nonnil[strings.TrimSuffix(strings.TrimSuffix(l.key, ".arr"), ".ref")] {
							lo = bi(1)
						}
					}
					nv = c.FreshRange("mod:"+l.key, lo, hi)
				default:
					nv = c.Fresh("mod:"+l.key, l.lf.sort)
				}
				e.write(st, l.key, l.ref, nv)
			}
			writable[exprStr(m.expr)] = true
			if sel, ok := m.expr.(*ast.SelectorExpr); ok {
				tv := preEnv.ev(sel.X)
				if ref, t, sv := preEnv.base(tv); sv == nil {
					if sel.Sel.Name == "all" {
						s := t.Underlying().(*types.Struct)
						for i := 0; i < s.NumFields(); i++ {
							writable[exprStr(sel.X)+"."+s.Field(i).Name()] = true
							writable[locKey(ref, t, s.Field(i).Name())] = true
						}
					} else {
						writable[locKey(ref, t, sel.Sel.Name)] = true
					}
				}
			}
		}
	}
	// guard symbols that are fresh objects: nothing to do, they are unconstrained
	env := &SEnv{e: e, vars: vars, st: st, heap: st.heap, old: pre, pkg: pkgOf(f), lets: e.letMap(con), caller: true}
	env.lazy = e.lazyResults(st, con, f, rv, freshSet)
	resIdx := map[string]int{}
	for i, r := range con.results {
		resIdx[r] = i
	}
	// a field of a new object
	freshRoot := func(x ast.Expr) bool {
		n, ok := x.(*ast.SelectorExpr)
		for ok {
			if freshSet[exprStr(n.X)] {
				return true
			}
			// a struct inside a new object
			if n, ok = n.X.(*ast.SelectorExpr); !ok {
				return false
			}
			_, t, _ := env.base(env.ev(n.X))
			ft := fieldType(t, n.Sel.Name)
			ok = ft != nil && isStruct(ft)
		}
		return false
	}
	defined := map[string]bool{}
	ghostCopied := false
	setVar := func(n string, tv TV) {
		if !ghostCopied {
			ghostCopied = true
			nv := map[string]TV{}
			for k, v := range env.vars {
				nv[k] = v
			}
			env.vars = nv
		}
		env.vars[n] = tv
	}
	for _, n := range con.ghosts {
		used := false
		for _, q := range cases {
			for i := range q.ensures {
				if mentions(q.ensures[i].expr, n) {
					used = true
				}
			}
		}
		if !used {
			continue
		}
		tv := env.ev(env.lets[n])
		t, ok := tv.v.(*Term)
		if !ok || !t.sort.isSeq() {
			unsupported("ghost %s is not a sequence", n)
		}
		g := c.Fresh("ghost."+n, t.sort)
		if t.sort == SSeqW {
			g.lo, g.hi = bi(0), limit
			if et := elemTypeOf(tv.t); et != nil && e.P.spec.elems[strings.TrimPrefix(listKey(et), "A:*")] {
				g.lo = bi(1)
			}
		}
		setVar(n, TV{g, tv.t})
	}
	// names (lets) that a contract declares fresh: a new object each
	for _, q := range cases {
		for _, fc := range q.fresh {
			id, ok := fc.expr.(*ast.Ident)
			if !ok || env.lets[id.Name] == nil {
				continue
			}
			if _, isRes := resIdx[id.Name]; isRes {
				continue
			}
			t := env.ev(env.lets[id.Name]).t
			if t == nil {
				unsupported("type of %s", id.Name)
			}
			setVar(id.Name, TV{e.freshResult(st, id.Name, t), t})
		}
	}
	e.freshFields(env, st, cases, freshSet, writable, freshRoot, defined)
	for _, q := range cases {
		for i := range q.ensures {
			cl := &q.ensures[i]
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(noEvent); ok {
							return
						}
						panic(p)
					}
				}()
				if e.define(env, st, con, f, cl.expr, rv, resIdx, freshSet, writable, freshRoot, defined) {
					return
				}
				e.assume(env.boolean(cl.expr))
			}()
		}
	}
	if e.serial > serial0+reserved {
		unsupported("%s makes too many objects", con.name)
	}
	e.serial = serial0 + reserved
	var res []Val
	for i, r := range con.results {
		_ = i
		tv, _ := env.lazy(r)
		res = append(res, tv.v)
	}
	if !e.feasible() {
		// the guard was satisfiable here: a contract that excludes it says too
		// much, and everything after the call would hold vacuously; but a case on
		// the outcome may be excluded by what is known here (applyContract insists
		// that another case remains)
		if cs != nil && onResult(cs.guard.expr, con.results) || cs == nil && len(con.cases) > 0 {
			return
		}
		unsupported("the contract of %s is contradictory", con.name)
	}
	if e.P.dbgLoop && e.quiet == 0 {
		fmt.Printf("after %s at %s\n", con.name, e.site)
	}
	k(st, res)
}

// freshFields gives the pointer fields that a contract declares fresh a new
// object each, outermost first.
func (e *Eng) freshFields(env *SEnv, st *State, cases []*Case, freshSet, writable map[string]bool, freshRoot func(ast.Expr) bool, defined map[string]bool) {
	for _, q := range cases {
		for _, fc := range q.fresh {
			sel, ok := fc.expr.(*ast.SelectorExpr)
			if !ok || defined[exprStr(sel)] {
				continue
			}
			ref, bt, sv := env.base(env.ev(sel.X))
			if sv != nil || defined[locKey(ref, bt, sel.Sel.Name)] {
				continue
			}
			if !freshRoot(sel) && !writable[locKey(ref, bt, sel.Sel.Name)] {
				continue
			}
			t := fieldType(bt, sel.Sel.Name)
			if t == nil {
				continue
			}
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice:
				if isErrorIface(t) {
					continue
				}
				if u, ok := t.Underlying().(*types.Slice); ok && !isByte(u.Elem()) && !listElem(u.Elem()) {
					continue
				}
				e.setField(env, st, sel, e.freshResult(st, exprStr(sel), t))
				if _, ok := t.Underlying().(*types.Slice); ok {
					continue // an equation may still say what it holds
				}
				defined[exprStr(sel)] = true
				defined[locKey(ref, bt, sel.Sel.Name)] = true
			}
		}
	}
}

// define treats an equation whose left side is a result or a writable location
// as its definition.
func (e *Eng) define(env *SEnv, st *State, con *Contract, f *ssa.Function, x ast.Expr, rv map[string]TV, resIdx map[string]int, freshSet, writable map[string]bool, freshRoot func(ast.Expr) bool, defined map[string]bool) bool {
	c := e.c
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if ce, ok := x.(*ast.CallExpr); ok {
		if y := e.expandMacro(ce); y != nil && len(e.loopK) == 0 {
			return e.define(env, st, con, f, y, rv, resIdx, freshSet, writable, freshRoot, defined)
		}
	}
	b, ok := x.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL {
		if ok && b.Op == token.LAND {
			for _, y := range []ast.Expr{b.X, b.Y} {
				if !e.define(env, st, con, f, y, rv, resIdx, freshSet, writable, freshRoot, defined) {
					e.assume(env.boolean(y))
				}
			}
			return true
		}
		return false
	}
	lhs := b.X
	key := exprStr(lhs)
	if defined[key] {
		return false
	}
	// the cell a selector names: two texts may name one cell
	cell := func(x ast.Expr) string {
		sel, ok := x.(*ast.SelectorExpr)
		if !ok {
			return exprStr(x)
		}
		ref, t, sv := env.base(env.ev(sel.X))
		if sv != nil {
			return exprStr(x)
		}
		return locKey(ref, t, sel.Sel.Name)
	}
	// result == E
	if id, ok := lhs.(*ast.Ident); ok {
		i, isRes := resIdx[id.Name]
		if !isRes {
			return false
		}
		if _, done := rv[id.Name]; done {
			return false
		}
		t := f.Signature.Results().At(i).Type()
		tv := env.ev(b.Y)
		v := e.coerce(env, tv, t)
		if v == nil {
			return false
		}
		rv[id.Name] = TV{v, t}
		defined[key] = true
		return true
	}
	// b(loc) == E, list(loc) == E
	if ce, ok := lhs.(*ast.CallExpr); ok {
		id, ok := ce.Fun.(*ast.Ident)
		if !ok || (id.Name != "b" && id.Name != "list") || len(ce.Args) != 1 {
			return false
		}
		inner := ce.Args[0]
		ik := exprStr(inner)
		if defined[ik] {
			return false
		}
		var t types.Type
		isRes := false
		if rid, ok := inner.(*ast.Ident); ok {
			i, r := resIdx[rid.Name]
			if !r {
				return false
			}
			if _, done := rv[rid.Name]; done {
				return false
			}
			t = f.Signature.Results().At(i).Type()
			isRes = true
		} else if sel, ok := inner.(*ast.SelectorExpr); ok && (writable[ik] || freshRoot(inner) || writable[cell(inner)]) {
			if defined[cell(inner)] {
				return false
			}
			_, bt, sv := env.base(env.ev(sel.X))
			if sv != nil {
				return false
			}
			t = fieldType(bt, sel.Sel.Name)
		} else {
			return false
		}
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			if _, isArr := byteArray(t); isArr && !isRes {
				val := env.term(b.Y)
				e.setField(env, st, inner.(*ast.SelectorExpr), val)
				defined[ik], defined[key], defined[cell(inner)] = true, true, true
				return true
			}
			return false
		}
		val := env.seq(b.Y)
		n := c.Len(val)
		r := e.newRef()
		if !freshSet[ik] {
			e.notOwned[bucketOf(r).String()] = true
		}
		e.write(st, e.arrKey(sl.Elem()), r, val)
		if !freshSet[ik] {
			st.heap.m[e.arrKey(sl.Elem())].def = true
		}
		nv := &SliceV{r, c.Zero, n, n, sl.Elem()}
		if !isRes {
			// a field may also hold nil when it is empty
			e.setField(env, st, inner.(*ast.SelectorExpr), nv)
		} else {
			rv[ik] = TV{nv, t}
		}
		defined[ik], defined[key], defined[cell(inner)] = true, true, true
		return true
	}
	if sel, ok := lhs.(*ast.SelectorExpr); ok && (writable[key] || freshRoot(lhs) || writable[cell(lhs)]) {
		if defined[cell(lhs)] {
			return false
		}
		_, bt, sv := env.base(env.ev(sel.X))
		if sv != nil {
			return false
		}
		t := fieldType(bt, sel.Sel.Name)
		if t == nil {
			return false
		}
		v := e.coerce(env, env.ev(b.Y), t)
		if v == nil {
			return false
		}
		e.setField(env, st, sel, v)
		defined[key], defined[cell(lhs)] = true, true
		return true
	}
	return false
}

// locKey names the cell of a field of an object.
func locKey(ref *Term, t types.Type, f string) string {
	return fmt.Sprintf("@%s.%s@%d", structKey(t), f, ref.id)
}

func fieldType(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (e *Eng) setField(env *SEnv, st *State, sel *ast.SelectorExpr, v Val) {
	ref, t, _ := env.base(env.ev(sel.X))
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == sel.Sel.Name {
			k, r, ft := e.fieldCell(t, ref, i)
			e.store(st, k, r, ft, v)
			return
		}
	}
}

// coerce converts a specification value to a Go value of type t.
func (e *Eng) coerce(env *SEnv, tv TV, t types.Type) Val {
	c := e.c
	isNil := tv.t == types.Typ[types.UntypedNil]
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isNil {
			return e.zero(t)
		}
		if s, ok := tv.v.(*SliceV); ok {
			return s
		}
		_ = u
		return nil
	case *types.Interface:
		if isNil {
			return e.zero(t)
		}
		switch v := tv.v.(type) {
		case *IfaceV:
			return v
		case *Term:
			if ct := e.closed(t); ct != nil {
				return &IfaceV{c.Ite(c.Eq(v, c.Zero), c.Zero, c.Int(int64(e.P.tagOf(ct)))), v}
			}
			if _, ok := tv.t.(*types.Pointer); ok {
				return &IfaceV{c.Ite(c.Eq(v, c.Zero), c.Zero, c.Int(int64(e.P.tagOf(tv.t)))), v}
			}
		}
		return nil
	case *types.Struct:
		if sv, ok := tv.v.(*StructV); ok {
			return sv
		}
		if r, ok := tv.v.(*Term); ok {
			if _, isp := ptrTo(tv.t); isp {
				return e.load(env.st, env.heap, "", r, t)
			}
		}
		return nil
	}
	switch v := tv.v.(type) {
	case *Term:
		return v
	case *IfaceV:
		return v.ref
	}
	return nil
}

func (e *Eng) checkInvAt(st *State, ref *Term, t types.Type, fs []string) {
	for _, fn := range fs {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != fn {
				continue
			}
			key := structKey(t) + "." + fn
			v := e.load(st, st.heap, key, ref, s.Field(i).Type())
			var r *Term
			switch x := v.(type) {
			case *Term:
				r = x
			case *IfaceV:
				r = x.ref
			case *SliceV:
				r = x.arr
			default:
				continue
			}
			if want, ok := e.fixedField(key); ok {
				e.oblige("invariant", key, nil, e.c.Eq(r, e.c.Big(want)), "type invariant: "+key+" is "+e.P.spec.fixed[key])
			} else {
				e.oblige("invariant", key, []string{"C13"}, e.c.Not(e.c.Eq(r, e.c.Zero)), "type invariant: "+key+" is not nil")
			}
		}
	}
}

func reqLabels(ls []string, con *Contract) []string {
	if len(ls) > 0 {
		return ls
	}
	return con.labels
}

// silent: a case states outright that the event does not happen.
func silent(cases []*Case, n string) bool {
	n = n[strings.LastIndexByte(n, '.')+1:]
	for _, q := range cases {
		for _, cl := range q.ensures {
			t := exprStr(cl.expr)
			if t == `nev("`+n+`") == 0` || n == "Read" && t == `nev("rand.Read") == 0` {
				return true
			}
		}
	}
	return false
}

// mayRand: can f reach crypto/rand.Read (or an interface method or function
// value that might)?
func (P *Program) mayRand(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := P.rands.Load(f); ok {
		return r.(bool)
	}
	top := seen == nil
	if top {
		seen = map[*ssa.Function]bool{}
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [8]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
					r = true
				}
			}
			var com *ssa.CallCommon
			switch x := in.(type) {
			case *ssa.Call:
				com = x.Common()
			case *ssa.Defer:
				com = x.Common()
			}
			if com == nil {
				continue
			}
			if g := com.StaticCallee(); g != nil {
				n := funcName(g)
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" || n == "io.ReadFull" && !fromHKDF(com.Args[0]) || g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && P.mayRand(g, seen) {
					r = true
				}
			}
		}
	}
	if top {
		P.rands.Store(f, r)
	}
	return r
}

// fromHKDF: the reader is what hkdf.New returned.
func fromHKDF(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Common().StaticCallee()
		return g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "golang.org/x/crypto/hkdf"
	case *ssa.ChangeInterface:
		return fromHKDF(x.X)
	}
	return false
}

// expandMacro substitutes the arguments of a macro call that are names or
// numbers into a copy of its body; nil when x is something else.
func (e *Eng) expandMacro(x *ast.CallExpr) ast.Expr {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		return nil
	}
	m := e.P.spec.macros[id.Name]
	if m == nil || len(m.params) != len(x.Args) {
		return nil
	}
	body, ok := m.body.(*ast.BinaryExpr)
	if !ok || body.Op != token.LAND && body.Op != token.EQL {
		return nil
	}
	txt := map[string]string{}
	for i, p := range m.params {
		switch x.Args[i].(type) {
		case *ast.Ident, *ast.BasicLit:
			txt[p] = exprStr(x.Args[i])
		default:
			return nil
		}
	}
	y, err := parseExpr(exprStr(m.body))
	if err != nil {
		return nil
	}
	bound := map[*ast.Ident]bool{}
	ast.Inspect(y, func(n ast.Node) bool {
		switch q := n.(type) {
		case *ast.SelectorExpr:
			bound[q.Sel] = true
		case *ast.CallExpr:
			if f, ok := q.Fun.(*ast.Ident); ok {
				bound[f] = true
				switch f.Name {
				case "forall", "exists", "first", "seqfn", "wseqfn":
					if len(q.Args) > 0 {
						if v, ok := q.Args[0].(*ast.Ident); ok && txt[v.Name] != "" {
							y = nil
							return false
						}
					}
				}
			}
		case *ast.Ident:
			if t, ok := txt[q.Name]; ok && !bound[q] {
				q.Name = t
			}
		}
		return true
	})
	if y == nil {
		return nil
	}
	return y
}

func mentions(x ast.Expr, n string) bool {
	r := false
	ast.Inspect(x, func(y ast.Node) bool {
		if id, ok := y.(*ast.Ident); ok && id.Name == n {
			r = true
		}
		return !r
	})
	return r
}
