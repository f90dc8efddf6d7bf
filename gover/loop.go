package main

// Loops. A loop whose conditions are constants is unrolled. Any other loop is
// treated for an arbitrary number K of completed iterations: induction
// variables become functions of K, cells and slices written in the body become
// sequences indexed by the iteration, objects made by iteration j get the
// reference base+j, and the condition D(j) under which iteration j runs to its
// end is assumed for all j < K. Invariants from the contract are checked on
// entry and preserved by one iteration.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

type LoopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	back   func(fr *Frame, prev *ssa.BasicBlock, st *State)
	exit   func(fr *Frame, b, prev *ssa.BasicBlock, st *State)
}

func loopsOf(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.byHeader[h]
			if l == nil {
				l = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				li.byHeader[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var hs []*Loop
	for _, l := range li.byHeader {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].header.Index < hs[j].header.Index })
	for i, l := range hs {
		l.ord = i
	}
	return li
}

func (e *Eng) setLoopK(k []*Term) {
	e.loopK = k
	e.c.skolem = k
}

func (e *Eng) withLoopK(k []*Term, f func()) {
	saved := e.loopK
	e.setLoopK(k)
	defer e.setLoopK(saved)
	f()
}

// header phis and their values on an incoming edge.
func (e *Eng) phiVals(fr *Frame, b, prev *ssa.BasicBlock) ([]*ssa.Phi, []Val) {
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				vals = append(vals, e.val(fr, p.Edges[i]))
				break
			}
		}
		phis = append(phis, p)
	}
	return phis, vals
}

// headerCond evaluates the straight-line header up to its If.
func (e *Eng) headerCond(fr *Frame, b *ssa.BasicBlock, skip int, st *State) (cond *Term, ok bool) {
	e.quiet++
	defer func() { e.quiet-- }()
	return e.headerVal(fr, b, skip, st)
}

func (e *Eng) headerVal(fr *Frame, b *ssa.BasicBlock, skip int, st *State) (cond *Term, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, u := p.(unsup); u {
				cond, ok = nil, false
				return
			}
			panic(p)
		}
	}()
	for _, in := range b.Instrs[skip:] {
		switch x := in.(type) {
		case *ssa.If:
			t, isT := e.val(fr, x.Cond).(*Term)
			return t, isT
		case *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				e.builtin(fr, st, bi.Name(), &x.Call, x, func(_ *State, r []Val) { fr.env[x] = r[0] })
				continue
			}
			v := e.getter(fr, st, x, 0)
			if v == nil {
				return nil, false
			}
			fr.env[x] = v
		case *ssa.Slice, *ssa.Store, *ssa.Jump, *ssa.TypeAssert, *ssa.Return, *ssa.Alloc:
			return nil, false
		case ssa.Value:
			fr.env[x] = e.eval(fr, st, x)
		default:
			return nil, false
		}
	}
	return nil, false
}

type phiMode struct {
	wraps bool // a counted phi that may pass the end of its type
	kind  byte // 's' same, 'c' counted, 'h' havoc, 'a' accumulated slice, 'd' defined by invariant, 'e' by an equation
	step  *big.Int
	sym   []*Term  // leaves as functions of K0
	ref   *Term    // accumulated slice: array per iteration; defined: object
	seq   *Term    // accumulated slice: placeholder content
	elem  *Term    // accumulated slice: element appended by iteration K0
	expr  ast.Expr // defined by an equation

	// a variable that only iterations with hit(K0) set, to hitVal(K0):
	// at then is the last of them, or with first the first of them
	hit    *Term
	hitVal []*Term
	at     *Term
	first  bool
}

type cellT struct {
	key  string
	ref  *Term
	sym  *Term // value as a function of K0
	fill bool
	from *Term // fill: index of iteration 0
	elem *Term // fill: element written by iteration K0
	init *Term
	user bool
}

type compT struct {
	key string
	n   *big.Int
	fa  string
	val *Term
}

type loopPlan struct {
	l     *Loop
	K0    *Term
	pre   *State
	phis  []*ssa.Phi
	init  []Val
	modes []*phiMode
	cells []*cellT
	comps []*compT
	D     *Term
	outer []*Term
	invs  []LoopInv
	con   *Contract
	fr    *Frame

	serial0 int64
	listSym []*Term
	pushSeq *Term // stands for the pushed objects before they are known
	pushed  *Term // the object pushed by iteration K0
	pushCur *Term // the same in the run whose end is being checked

	alias   map[*ssa.Phi]string
	inlined bool // the loop of a helper, with the invariants of the contract

	localNames map[string]bool // locals of the function that invariants may name

	emits []string // store and serializer calls of an iteration
}

func (p *loopPlan) outerEvents() int { return len(p.pre.events) + len(p.emits) }

// addEmits notes the calls an iteration made that are not known yet.
func (p *loopPlan) addEmits(evs []*Event, from int) (more bool) {
	for _, ev := range evs[min(from, len(evs)):] {
		if !slices.Contains(p.emits, ev.name) {
			p.emits = append(p.emits, ev.name)
			more = true
		}
	}
	return
}

// pushedAt: the object that iteration i leaves at the end of the list of the
// invariant that mentions pushed().
func (p *loopPlan) pushedAt(e *Eng, i *Term) *Term {
	if p.pushed != nil {
		r := e.c.Subst(p.pushed, map[*Term]*Term{p.K0: i})
		if p.pushCur != nil {
			// the objects of earlier iterations, then the one just pushed
			r = e.c.Ite(e.c.Lt(i, p.K0), r, p.pushCur)
		}
		return r
	}
	if p.pushSeq == nil {
		p.pushSeq = e.c.Fresh("pushed", SSeqW)
	}
	return e.c.Nth(p.pushSeq, i)
}

// pushedExpr: the list that an invariant describes with pushed().
func (p *loopPlan) pushedExpr() ast.Expr {
	for _, iv := range p.invs {
		if strings.Contains(iv.clause.text, "pushed(") {
			return mustExpr(lhsText(iv.clause.expr))
		}
	}
	return nil
}

// getter evaluates a call of a function that only reads: one block of loads
// and arithmetic.
func (e *Eng) getter(fr *Frame, st *State, x *ssa.Call, depth int) Val {
	f := x.Call.StaticCallee()
	if f == nil || x.Call.IsInvoke() || len(f.Blocks) != 1 || depth > 3 || models[funcName(f)] != nil || e.P.spec.contracts[funcName(f)] != nil {
		return nil
	}
	nf := &Frame{fn: f, env: map[ssa.Value]Val{}, depth: fr.depth + 1, stack: fr.stack}
	for i, p := range f.Params {
		nf.env[p] = e.val(fr, x.Call.Args[i])
	}
	for _, in := range f.Blocks[0].Instrs {
		switch y := in.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Field, *ssa.Convert, *ssa.ChangeType:
			v := y.(ssa.Value)
			if u, ok := y.(*ssa.UnOp); ok && u.Op != token.MUL && u.Op != token.SUB && u.Op != token.NOT {
				return nil
			}
			nf.env[v] = e.eval(nf, st, v)
		case *ssa.Call:
			v := e.getter(nf, st, y, depth+1)
			if v == nil {
				return nil
			}
			nf.env[y] = v
		case *ssa.Return:
			if len(y.Results) != 1 {
				return nil
			}
			return e.val(nf, y.Results[0])
		default:
			return nil
		}
	}
	return nil
}

func (e *Eng) loop(fr *Frame, l *Loop, prev *ssa.BasicBlock, st *State) {
	phis, init := e.phiVals(fr, l.header, prev)
	// constant condition: execute the iteration as it is
	tf := fr.clone()
	for i, p := range phis {
		tf.env[p] = init[i]
	}
	if cond, ok := e.headerCond(tf, l.header, len(phis), st.clone()); ok {
		if cond == e.c.T || cond == e.c.F {
			nf := fr.clone()
			for i, p := range phis {
				nf.env[p] = init[i]
			}
			e.unrolls++
			if e.unrolls > 3000 {
				unsupported("loop unrolled too often")
			}
			nf.loops = append(nf.loops, &LoopCtx{header: l.header, body: l.body,
				back: func(f2 *Frame, pv *ssa.BasicBlock, s2 *State) {
					f3 := f2.clone()
					f3.loops = f3.loops[:len(f3.loops)-1]
					e.loop(f3, l, pv, s2)
				}})
			e.run(nf, l.header, len(phis), st)
			return
		}
	}
	if e.peel(fr, l, phis, prev, st) {
		return
	}
	e.symLoop(fr, l, phis, init, st)
}

// maxPeel: how many iterations of a loop are executed one by one before the
// rest is treated as a loop.
const maxPeel = 5

// peel executes an iteration of a loop that counts nothing, such as one that
// shortens or pads a value until its length is right. Such loops often end
// after a few iterations. It reports whether it did.
func (e *Eng) peel(fr *Frame, l *Loop, phis []*ssa.Phi, prev *ssa.BasicBlock, st *State) bool {
	if len(e.loopK) > 0 || fr.peeled[l.header] >= maxPeel {
		return false
	}
	for _, p := range phis {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			if _, ok := p.Type().Underlying().(*types.Slice); !ok {
				return false
			}
		}
	}
	con := e.P.spec.contracts[funcName(fr.fn)]
	if con == nil {
		con = e.con
	}
	if con != nil && len(con.loopinv) > 0 {
		return false
	}
	_, init := e.phiVals(fr, l.header, prev)
	nf := fr.clone()
	for i, p := range phis {
		nf.env[p] = init[i]
	}
	n := nf.peeled[l.header]
	peeled := map[*ssa.BasicBlock]int{}
	for b, k := range nf.peeled {
		peeled[b] = k
	}
	peeled[l.header] = n + 1
	nf.peeled = peeled
	nf.loops = append(nf.loops, &LoopCtx{header: l.header, body: l.body,
		back: func(f2 *Frame, pv *ssa.BasicBlock, s2 *State) {
			f3 := f2.clone()
			f3.loops = f3.loops[:len(f3.loops)-1]
			e.loop(f3, l, pv, s2)
		}})
	e.run(nf, l.header, len(phis), st)
	return true
}

func (e *Eng) symLoop(fr *Frame, l *Loop, phis []*ssa.Phi, init []Val, st *State) {
	c := e.c
	p := &loopPlan{l: l, pre: st, phis: phis, init: init, outer: e.loopK, fr: fr}
	p.serial0 = int64(e.serial)
	p.K0 = c.FreshRange("K", bi(0), new(big.Int).Lsh(bi(1), 47))
	e.loopSyms = append(e.loopSyms, p.K0)
	p.con = e.P.spec.contracts[funcName(fr.fn)]
	if p.con == nil && e.con != nil && len(e.con.loopinv) > 0 && len(loopsOf(e.topFn).byHeader) == 0 {
		// a helper that has the loop of the function under contract
		p.con, p.inlined = e.con, true
	}
	p.nameVars()
	if p.con != nil {
		for _, iv := range p.con.loopinv {
			if iv.loop == l.ord {
				p.invs = append(p.invs, iv)
			}
		}
	}
	for i := range phis {
		md := &phiMode{kind: '?'}
		if p.appendPhi(e, i) {
			md.kind = 'a'
			md.ref = e.newRef()
			md.seq = c.Fresh("acc", seqSort(init[i].(*SliceV).elem))
			e.exactCap[bucketOf(md.ref).String()] = true
		}
		if x := p.eqInv(phis, i); x != nil {
			md.kind, md.expr = 'e', x
		}
		p.modes = append(p.modes, md)
	}
	inner := append(p.outer[:len(p.outer):len(p.outer)], p.K0)
	stable := false
	for pass := 0; pass < 12 && !stable; pass++ {
		e.withLoopK(inner, func() { stable = e.discover(p, fr) })
	}
	if !stable {
		unsupported("no description of the loop at %s found", e.site)
	}
	// invariants hold on entry
	if len(p.invs) > 0 {
		env := e.loopEnv(p, fr, st, c.Zero, init)
		for _, iv := range p.invs {
			e.obligeInv(env, iv.clause, "invariant holds on entry")
		}
	}
	kind, N := e.exitCount(p, fr)
	runBody := func(cond *Term) {
		e.scope(func() {
			e.assume(c.Ge(p.K0, c.Zero))
			e.withLoopK(inner, func() {
				nf, ns := e.buildHeader(p, fr, p.K0)
				if cond != nil {
					e.assume(cond)
				}
				if !e.feasible() {
					return
				}
				e.hookLoop(p, fr, nf)
				e.run(nf, l.header, len(phis), ns)
			})
		})
	}
	if kind {
		exitAt := func(n *Term, g *Term) {
			e.scope(func() {
				e.assume(g)
				if !e.feasible() {
					return
				}
				nf, ns := e.buildHeader(p, fr, n)
				cond, ok := e.headerVal(nf, l.header, len(phis), ns)
				if !ok {
					unsupported("loop header")
				}
				e.assume(c.Not(cond))
				if !e.feasible() {
					return
				}
				// run the header for its definitions and leave
				out := l.header.Succs[1]
				e.runBlock(nf, out, l.header, ns)
			})
		}
		nn := c.Ge(N, c.Zero)
		if nn == c.T || e.quick(nn) {
			exitAt(N, c.T)
		} else if e.quick(c.Not(nn)) {
			exitAt(c.Zero, c.T)
		} else {
			exitAt(N, nn)
			exitAt(c.Zero, c.Not(nn))
		}
		runBody(c.Lt(p.K0, N))
		return
	}
	runBody(nil)
}

// hookLoop installs the back edge checks and the exits of the general run.
func (e *Eng) hookLoop(p *loopPlan, fr, nf *Frame) {
	outerRet := fr.ret
	nf.ret = func(st *State, r []Val) {
		e.withLoopK(p.outer, func() { outerRet(st, r) })
	}
	nf.loops = append(nf.loops, &LoopCtx{header: p.l.header, body: p.l.body,
		back: func(f2 *Frame, prev *ssa.BasicBlock, s2 *State) {
			_, vals := e.phiVals(f2, p.l.header, prev)
			if len(p.invs) > 0 {
				env := e.loopEnv(p, f2, s2, e.c.AddK(p.K0, 1), vals)
				for _, x := range p.listInvs(e, env) {
					// the array is the one at the header or one made in this iteration
					sv := env.ev(x).v.(*SliceV)
					bk := bucketOf(sv.arr)
					if bk == nil || new(big.Int).Div(bk, bucket).Int64() <= p.serial0 {
						unsupported("a list described by an invariant changes its array")
					}
				}
				if x := p.pushedExpr(); x != nil {
					sv := env.ev(x).v.(*SliceV)
					ct := e.content(s2.heap, sv)
					p.pushCur = e.c.Nth(ct, e.c.AddK(e.c.Len(ct), -1))
					defer func() { p.pushCur = nil }()
				}
				for _, iv := range p.invs {
					e.obligeInv(env, iv.clause, "invariant is preserved")
				}
			}
			for i := len(p.pre.allocs); i < len(s2.allocs); i++ {
				a := s2.allocs[i]
				if fs := e.P.spec.structInv[typeName(a.t)]; len(fs) > 0 {
					e.where(a.grd, func() { e.checkInvAt(s2, a.ref, a.t, fs) })
				}
			}
			if p.addEmits(s2.events, p.outerEvents()) {
				unsupported("store calls inside a loop that were not found")
			}
		},
		exit: func(f2 *Frame, b, prev *ssa.BasicBlock, s2 *State) {
			f2.ret = outerRet
			e.withLoopK(p.outer, func() { e.runBlock(f2, b, prev, s2) })
		}})
}

// exitCount solves the header condition for the number of iterations.
func (e *Eng) exitCount(p *loopPlan, fr *Frame) (ok bool, N *Term) {
	c := e.c
	inner := append(p.outer[:len(p.outer):len(p.outer)], p.K0)
	if len(p.l.header.Succs) != 2 || !p.l.body[p.l.header.Succs[0]] || p.l.body[p.l.header.Succs[1]] {
		return false, nil
	}
	e.scope(func() {
		e.withLoopK(inner, func() {
			e.quiet++
			defer func() { e.quiet-- }()
			e.assume(c.Ge(p.K0, c.Zero))
			nf, ns := e.buildHeader(p, fr, p.K0)
			cond, good := e.headerCond(nf, p.l.header, len(p.phis), ns)
			if e.P.dbgLoop {
				fmt.Println("  header condition", good, cond)
			}
			if !good || cond.op != OLe {
				return
			}
			t := cond.args[0] // t <= 0
			d := c.Sub(t, p.K0)
			if containsTerm(d, p.K0) {
				return
			}
			ok, N = true, c.AddK(c.Sub(c.Zero, d), 1)
		})
	})
	return
}

func (e *Eng) substVal(v Val, m map[*Term]*Term) Val {
	c := e.c
	switch x := v.(type) {
	case *Term:
		return c.Subst(x, m)
	case *SliceV:
		return &SliceV{c.Subst(x.arr, m), c.Subst(x.off, m), c.Subst(x.n, m), c.Subst(x.cap, m), x.elem}
	case *IfaceV:
		return &IfaceV{c.Subst(x.tag, m), c.Subst(x.ref, m)}
	case *StructV:
		r := &StructV{t: x.t}
		for _, f := range x.f {
			r.f = append(r.f, e.substVal(f, m))
		}
		return r
	case *AddrV:
		r := *x
		r.ref = c.Subst(x.ref, m)
		if x.idx != nil {
			r.idx = c.Subst(x.idx, m)
		}
		return &r
	}
	return v
}

// buildHeader makes the state at the header after kt iterations.
func (e *Eng) buildHeader(p *loopPlan, fr *Frame, kt *Term) (*Frame, *State) {
	c := e.c
	m := map[*Term]*Term{p.K0: kt}
	st := p.pre.clone()
	kv := c.BoundVar("it")
	kv.lo, kv.hi = bi(0), new(big.Int).Lsh(bi(1), 47)
	for _, q := range p.comps {
		st.heap.m[q.key] = &Entry{kind: 'c', n: q.n, fa: q.fa, k: kv, hi: kt, val: c.Subst(q.val, map[*Term]*Term{p.K0: kv}), prev: st.heap.m[q.key], site: "loop"}
	}
	for _, cl := range p.cells {
		var v *Term
		if cl.fill && cl.elem != nil {
			so := cl.init.sort
			body := c.Subst(cl.elem, map[*Term]*Term{p.K0: kv})
			end := c.Add(cl.from, kt)
			v = c.Concat(c.Extract(cl.init, c.Zero, cl.from), c.SeqFn(so, kv, kt, body), c.Extract(cl.init, end, c.Sub(c.Len(cl.init), end)))
		} else {
			v = c.Subst(cl.sym, m)
			e.assume(c.Imp(c.Eq(kt, c.Zero), c.Eq(v, cl.init)))
			if cl.init.sort.isSeq() {
				e.assume(c.Eq(c.Len(v), c.Len(cl.init)))
			}
		}
		st.heap.m[cl.key] = &Entry{kind: 'w', ref: cl.ref, val: v, prev: st.heap.m[cl.key], site: "loop"}
	}
	for _, n := range p.emits {
		st.events = append(st.events[:len(st.events):len(st.events)], &Event{name: n, maybe: true, heap: st.heap})
	}
	nf := fr.clone()
	vals := make([]Val, len(p.phis))
	for i, ph := range p.phis {
		md := p.modes[i]
		var v Val
		switch md.kind {
		case 's':
			v = p.init[i]
		case 'c':
			t := c.Add(p.init[i].(*Term), c.MulK(kt, md.step))
			if lo, hi, ok := intRange(ph.Type()); ok && !md.wraps {
				// every iteration that goes on leaves it within its type
				e.assume(c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))))
				v = t
			} else {
				v = e.wrap(t, ph.Type())
			}
		case 'a':
			s0 := p.init[i].(*SliceV)
			n := c.Add(s0.n, kt)
			ref := c.Subst(md.ref, m)
			var ct *Term
			if md.elem != nil {
				body := c.Subst(md.elem, map[*Term]*Term{p.K0: kv})
				ct = c.Concat(e.content(p.pre.heap, s0), c.SeqFn(seqSort(s0.elem), kv, kt, body))
			} else {
				ct = c.Subst(md.seq, m)
				e.assume(c.Eq(c.Len(ct), n))
			}
			st.heap.m[e.arrKey(s0.elem)] = &Entry{kind: 'w', ref: ref, val: ct, prev: st.heap.m[e.arrKey(s0.elem)], site: "loop"}
			v = &SliceV{ref, c.Zero, n, n, s0.elem}
		case 'd':
			v = e.fromLeaves(ph.Type(), []*Term{c.Subst(md.ref, m)})
		case 'e':
			env := e.loopEnv(p, fr, p.pre, kt, p.init)
			for _, q := range p.phis {
				delete(env.vars, p.name(q))
			}
			v = env.term(md.expr)
		default:
			var x []*Term
			il := e.toLeaves(ph.Type(), p.init[i])
			for j, s := range md.sym {
				t := c.Subst(s, m)
				e.assume(c.Imp(c.Eq(kt, c.Zero), c.Eq(t, il[j])))
				x = append(x, t)
			}
			if md.hit != nil {
				e.assumeHit(md, p.K0, kt, kv, il, x)
			}
			v = e.fromLeaves(ph.Type(), x)
			if s, ok := v.(*SliceV); ok {
				e.sliceWF(st, s)
			}
		}
		vals[i] = v
		nf.env[ph] = v
	}
	// invariants
	if len(p.invs) > 0 {
		env := e.loopEnv(p, nf, st, kt, vals)
		freshSet := map[string]bool{}
		for i, ph := range p.phis {
			if p.modes[i].kind == 'd' {
				freshSet[p.name(ph)] = true
			}
		}
		writable := map[string]bool{}
		for _, iv := range p.invs {
			if t := lhsText(iv.clause.expr); t != "" {
				if sel, ok := mustExpr(t).(*ast.SelectorExpr); ok {
					if e.cellWritable(p, env, sel) {
						writable[t] = true
					}
				}
			}
		}
		defined := map[string]bool{}
		before := st.heap.clone()
		isD := func(r *Term) bool {
			if r.isFA() {
				r = r.args[0]
			}
			for _, m := range p.modes {
				if m.kind == 'd' && bucketOf(r) != nil && bucketOf(r).Cmp(bucketOf(m.ref)) == 0 {
					return true
				}
			}
			return false
		}
		defer func() {
			for k, en := range st.heap.m {
				for ; en != nil && en != before.m[k]; en = en.prev {
					if en.kind == 'w' && isD(en.ref) {
						en.def = true
					}
				}
			}
		}()
		freshRoot := func(x ast.Expr) bool {
			for {
				n, ok := x.(*ast.SelectorExpr)
				if !ok {
					return false
				}
				if freshSet[exprStr(n.X)] {
					return true
				}
				x = n.X
			}
		}
		// a list described by an invariant may have been extended in place
		for i, x := range p.listInvs(e, env) {
			sv, ok := e.loopEnv(p, nf, p.pre, kt, vals).ev(x).v.(*SliceV)
			if !ok || kt == c.Zero {
				continue
			}
			if bk := bucketOf(sv.arr); sv.arr == c.Zero || bk != nil && e.exactCap[bk.String()] {
				continue
			}
			for len(p.listSym) <= i {
				p.listSym = append(p.listSym, c.Fresh("inplace", seqSort(sv.elem)))
			}
			ct := c.Subst(c.App("INPLACE", p.listSym[i].sort, p.listSym[i], kt), nil)
			e.assume(c.Eq(c.Len(ct), c.Len(e.arrContent(p.pre.heap, sv.elem, sv.arr))))
			e.write(st, e.arrKey(sv.elem), sv.arr, ct)
		}
		for _, iv := range p.invs {
			if e.define(env, st, p.con, fr.fn, iv.clause.expr, map[string]TV{}, map[string]int{}, freshSet, writable, freshRoot, defined) {
				continue
			}
			e.assume(env.boolean(iv.clause.expr))
		}
	}
	if p.D != nil && p.D != c.T {
		body := c.Subst(p.D, map[*Term]*Term{p.K0: kv})
		e.assume(c.Forall(kv, c.Zero, kt, body))
		e.assume(c.Imp(c.Ge(kt, c.One), c.Subst(p.D, map[*Term]*Term{p.K0: c.AddK(kt, -1)})))
	}
	return nf, st
}

func mustExpr(s string) ast.Expr {
	x, err := parseExpr(s)
	if err != nil {
		return nil
	}
	return x
}

// lhsText is the location defined by an equation, without b()/list().
func lhsText(x ast.Expr) string {
	b, ok := x.(*ast.BinaryExpr)
	if !ok {
		return ""
	}
	y := b.X
	if ce, ok := y.(*ast.CallExpr); ok && len(ce.Args) == 1 {
		if id, ok := ce.Fun.(*ast.Ident); ok && (id.Name == "b" || id.Name == "list") {
			y = ce.Args[0]
		}
	}
	return exprStr(y)
}

// listInvs are the list-valued locations that invariants define.
func (p *loopPlan) listInvs(e *Eng, env *SEnv) (r []ast.Expr) {
	for _, iv := range p.invs {
		b, ok := iv.clause.expr.(*ast.BinaryExpr)
		if !ok {
			continue
		}
		ce, ok := b.X.(*ast.CallExpr)
		if !ok || len(ce.Args) != 1 {
			continue
		}
		if id, ok := ce.Fun.(*ast.Ident); !ok || id.Name != "list" && id.Name != "b" {
			continue
		}
		if sel, ok := ce.Args[0].(*ast.SelectorExpr); ok && e.cellWritable(p, env, sel) {
			r = append(r, sel)
		}
	}
	return
}

// cellWritable: the location is one of the cells written by the loop.
func (e *Eng) cellWritable(p *loopPlan, env *SEnv, sel *ast.SelectorExpr) (ok bool) {
	defer func() {
		if q := recover(); q != nil {
			if _, u := q.(unsup); u {
				ok = false
				return
			}
			panic(q)
		}
	}()
	for _, l := range env.locations(sel) {
		for _, cl := range p.cells {
			if cl.key == l.key && cl.ref == l.ref {
				return true
			}
		}
	}
	return false
}

// name is what invariants call a loop variable: the name a "loopvar" line gives
// to the loop variable of its type, or else its own.
func (p *loopPlan) name(ph *ssa.Phi) string {
	if n, ok := p.alias[ph]; ok {
		return n
	}
	return ph.Comment
}

func (p *loopPlan) nameVars() {
	p.alias = map[*ssa.Phi]string{}
	if p.con == nil {
		return
	}
	for _, lv := range p.con.loopvars {
		var of []*ssa.Phi
		own := false
		for _, ph := range p.phis {
			if typeName(ph.Type()) == lv.typ {
				of = append(of, ph)
				own = own || ph.Comment == lv.name
			}
		}
		if !own && len(of) == 1 {
			p.alias[of[0]] = lv.name
		}
	}
}

func (e *Eng) loopEnv(p *loopPlan, fr *Frame, st *State, kt *Term, vals []Val) *SEnv {
	vars := map[string]TV{}
	fixed := map[string]bool{} // names of the contract, which no local takes over
	if p.con != nil {
		pf := fr.fn
		if p.inlined {
			pf = e.topFn
			for i := range pf.Params {
				if i < len(p.con.params) {
					vars[p.con.params[i]] = TV{e.topArgs[i], pf.Params[i].Type()}
				}
			}
		} else {
			for i, pr := range pf.Params {
				if i < len(p.con.params) {
					v := fr.env[pr]
					if a, ok := v.(*AddrV); ok {
						v = e.addrRef(a)
					}
					vars[p.con.params[i]] = TV{v, pr.Type()}
				}
			}
		}
		for n := range vars {
			fixed[n] = true
		}
		for _, l := range p.con.lets {
			fixed[l.name] = true
		}
	}
	seen := map[string]int{}
	for i, ph := range p.phis {
		n := p.name(ph)
		if n == "" || fixed[n] {
			continue
		}
		seen[n]++
		if seen[n] > 1 {
			n = fmt.Sprintf("%s%d", n, seen[n])
		}
		vars[n] = TV{vals[i], ph.Type()}
	}
	vars["K"] = TV{kt, types.Typ[types.Int]}
	// names of what was computed before the loop
	dup := map[string]bool{}
	for _, b := range fr.fn.Blocks {
		if b == p.l.header || !b.Dominates(p.l.header) {
			continue
		}
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.IsAddr {
				continue
			}
			id, ok := d.Expr.(*ast.Ident)
			if !ok || dup[id.Name] || fixed[id.Name] {
				continue
			}
			if _, ok := d.X.(*ssa.Const); ok {
				continue
			}
			v, have := fr.env[d.X]
			if !have {
				continue
			}
			if o, ok := vars[id.Name]; ok {
				if o.v == v {
					continue
				}
				if p.localNames[id.Name] {
					// the name stands for different values
					delete(vars, id.Name)
					dup[id.Name] = true
				}
				continue
			}
			if p.localNames == nil {
				p.localNames = map[string]bool{}
			}
			p.localNames[id.Name] = true
			vars[id.Name] = TV{v, d.X.Type()}
		}
	}
	// what a "loopvar" line names may also be the only local of its type
	if p.con != nil {
		for _, lv := range p.con.loopvars {
			if _, ok := vars[lv.name]; ok {
				continue
			}
			var at Val
			var ty types.Type
			for _, b := range fr.fn.Blocks {
				if b == p.l.header || !b.Dominates(p.l.header) {
					continue
				}
				for _, in := range b.Instrs {
					x, ok := in.(ssa.Value)
					if !ok || typeName(x.Type()) != lv.typ {
						continue
					}
					if v, ok := fr.env[x]; ok && (at == nil || !sameVal(at, v)) {
						if at != nil {
							unsupported("several values of type %s for the invariant's %s", lv.typ, lv.name)
						}
						at, ty = v, x.Type()
					}
				}
			}
			if at != nil {
				vars[lv.name] = TV{at, ty}
			}
		}
	}
	env := &SEnv{e: e, vars: vars, st: st, heap: st.heap, old: e.entryOf(fr), pkg: pkgOf(fr.fn), loop: p}
	if p.inlined {
		env.pkg = pkgOf(e.topFn)
	}
	if p.con != nil {
		env.lets = e.letMap(p.con)
	}
	return env
}

// entryOf: the heap at function entry (only for the verified function itself).
func (e *Eng) entryOf(fr *Frame) *Heap { return e.entry }

func (e *Eng) obligeInv(env *SEnv, cl Clause, what string) {
	e.oblige("invariant", "loop", cl.labels, env.boolean(cl.expr), what+": "+cl.text)
}

// discover runs the body once for an arbitrary iteration and updates the plan.
func (e *Eng) discover(p *loopPlan, fr *Frame) bool {
	c := e.c
	type back struct {
		cond *Term
		vals []Val
		st   *State
		push *Term
	}
	pushX := p.pushedExpr()
	// symbols
	for i, ph := range p.phis {
		md := p.modes[i]
		if md.kind == '?' || md.kind == 'h' && md.sym == nil {
			md.sym = nil
			for _, l := range e.phiLeaves(ph) {
				var t *Term
				if l.sort == SInt {
					lo, hi := l.lo, l.hi
					if l.ptr {
						lo = bi(0)
					}
					t = c.FreshRange("phi:"+ph.Comment+l.suf, lo, hi)
				} else {
					t = c.Fresh("phi:"+ph.Comment+l.suf, l.sort)
				}
				md.sym = append(md.sym, t)
			}
		}
		if md.kind == 'd' && md.ref == nil {
			md.ref = e.newRef()
			e.notOwned[bucketOf(md.ref).String()] = true
		}
	}
	serial0 := e.serial
	moreEvents, known := false, p.outerEvents()
	var backs []back
	var baseHeap *Heap
	e.quiet++
	e.scope(func() {
		defer func() { e.quiet-- }()
		e.assume(c.Ge(p.K0, c.Zero))
		nf, ns := e.buildHeader(p, fr, p.K0)
		baseHeap = ns.heap.clone()
		mark := len(e.pc)
		nf.ret = func(*State, []Val) {}
		nf.loops = append(nf.loops, &LoopCtx{header: p.l.header, body: p.l.body,
			back: func(f2 *Frame, prev *ssa.BasicBlock, s2 *State) {
				_, vals := e.phiVals(f2, p.l.header, prev)
				if p.addEmits(s2.events, known) {
					moreEvents = true
				}
				var push *Term
				if pushX != nil {
					sv, ok := e.loopEnv(p, f2, s2, c.AddK(p.K0, 1), vals).ev(pushX).v.(*SliceV)
					if !ok {
						unsupported("pushed() needs a list")
					}
					ct := e.content(s2.heap, sv)
					push = c.Nth(ct, c.AddK(c.Len(ct), -1))
				}
				backs = append(backs, back{c.And(e.pc[mark:]...), vals, s2, push})
				if len(backs) > 24 {
					unsupported("too many paths through a loop body")
				}
			},
			exit: func(*Frame, *ssa.BasicBlock, *ssa.BasicBlock, *State) {}})
		e.run(nf, p.l.header, len(p.phis), ns)
	})
	if len(backs) == 0 {
		// never iterates
		p.D = c.F
		for i := range p.modes {
			if p.modes[i].kind == '?' {
				p.modes[i].kind = 's'
			}
		}
		return true
	}
	stable := !moreEvents
	if pushX != nil {
		var x *Term
		for k := len(backs) - 1; k >= 0; k-- {
			if x == nil || x == backs[k].push {
				x = backs[k].push
			} else {
				x = c.Ite(backs[k].cond, backs[k].push, x)
			}
		}
		if p.pushSeq != nil && containsTerm(x, p.pushSeq) {
			unsupported("the object pushed by an iteration is not known")
		}
		if p.pushed == nil {
			stable = false
		}
		p.pushed = x
	}
	// phi modes
	reclassified := false
	for i, ph := range p.phis {
		md := p.modes[i]
		switch md.kind {
		case '?':
			reclassified = true
			md.kind = e.classify(p, i, ph, func() []Val {
				var r []Val
				for _, b := range backs {
					r = append(r, b.vals[i])
				}
				return r
			}())
			stable = false
			if md.kind != 'h' {
				md.sym = nil
			}
			if md.kind == 'h' && e.hasDefInv(p, ph) {
				md.kind, md.sym = 'd', nil
			}
			if md.kind == 'a' {
				s0 := p.init[i].(*SliceV)
				md.ref = e.newRef()
				md.seq = c.Fresh("acc", seqSort(s0.elem))
				e.exactCap[bucketOf(md.ref).String()] = true
			}
		case 'c':
			for _, b := range backs {
				t, ok := b.vals[i].(*Term)
				want := c.Add(p.init[i].(*Term), c.MulK(c.AddK(p.K0, 1), md.step))
				if _, _, isInt := intRange(ph.Type()); isInt && !md.wraps {
					// the sum itself: it was seen to be within the type
					if !ok || t != want {
						md.wraps, stable = true, false
					}
					continue
				}
				want = e.wrap(want, ph.Type())
				if !ok || t != want && c.Sub(t, want) != c.Zero {
					md.kind, stable = 'h', false
				}
			}
		case 's':
			for _, b := range backs {
				if !sameVal(b.vals[i], p.init[i]) {
					md.kind, stable = '?', false
				}
			}
		case 'a':
			s0 := p.init[i].(*SliceV)
			var elem *Term
			cur := md.seq
			if md.elem != nil {
				cur = nil
			}
			for k := len(backs) - 1; k >= 0; k-- {
				b := backs[k]
				sv, ok := b.vals[i].(*SliceV)
				if !ok {
					elem = nil
					break
				}
				ct := e.content(b.st.heap, sv)
				var x *Term
				if cur != nil && ct.op == OConcat && len(ct.args) == 2 && (ct.args[0] == cur || ct.args[0] == c.Extract(cur, c.Zero, c.Add(s0.n, p.K0))) && ct.args[1].op == OUnit {
					x = ct.args[1].args[0]
				} else if cur == nil {
					// already described: the last element
					x = c.Nth(ct, c.AddK(c.Len(ct), -1))
				}
				if x == nil || containsTerm(x, md.seq) {
					unsupported("slice %s is not built one element per iteration: %.200s", ph.Comment, ct.String())
				}
				if elem == nil {
					elem = x
				} else {
					elem = c.Ite(b.cond, x, elem)
				}
			}
			if md.elem == nil {
				stable = false
			}
			md.elem = elem // objects of the iteration are those of this pass
		}
	}
	if reclassified {
		return false
	}
	// writes of the iteration
	seen := map[string]bool{}
	type wr struct {
		key string
		ref *Term
	}
	var ws []wr
	for _, b := range backs {
		var keys []string
		for k := range b.st.heap.m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			stop := baseHeap.m[k]
			for en := b.st.heap.m[k]; en != nil && en != stop; en = en.prev {
				if en.kind != 'w' {
					if en.kind == 'c' && en.n != nil {
						unsupported("nested loop building objects")
					}
					unsupported("loop body with a whole-field effect on %s", k)
				}
				id := fmt.Sprintf("%s@%d", k, en.ref.id)
				if !seen[id] {
					seen[id] = true
					ws = append(ws, wr{k, en.ref})
				}
			}
		}
	}
	var comps []*compT
	for _, w := range ws {
		root := w.ref
		fa := ""
		if root.isFA() {
			fa = root.name
			root = root.args[0]
		}
		if bk := bucketOf(root); bk != nil {
			n := new(big.Int).Div(bk, bucket).Int64()
			if int(n) > serial0 {
				if c.Sub(root, p.K0) != c.Big(bk) {
					unsupported("object of an iteration")
				}
				var val *Term
				for k := len(backs) - 1; k >= 0; k-- {
					b := backs[k]
					en := b.st.heap.m[w.key]
					var v *Term
					for ; en != nil && en != baseHeap.m[w.key]; en = en.prev {
						if en.ref == w.ref {
							v = en.val
							break
						}
					}
					if v == nil {
						continue
					}
					if val == nil {
						val = v
					} else {
						val = c.Ite(b.cond, v, val)
					}
				}
				comps = append(comps, &compT{w.key, bk, fa, val})
				continue
			}
		}
		// accumulated arrays of this loop are rebuilt by the header
		isAcc := false
		for _, md := range p.modes {
			if md.kind == 'a' && md.ref == w.ref {
				isAcc = true
			}
		}
		if isAcc {
			continue
		}
		if containsTerm(w.ref, p.K0) || e.mentionsPhi(p, w.ref) {
			unsupported("loop writes %s through a reference that varies", w.key)
		}
		var cell *cellT
		for _, cl := range p.cells {
			if cl.key == w.key && cl.ref == w.ref {
				cell = cl
			}
		}
		if cell == nil {
			bst := backs[0].st
			for _, b := range backs {
				if b.st.heap.m[w.key] != nil {
					bst = b.st
				}
			}
			lf := e.leafOfKey(w.key, bst, w.ref)
			cell = &cellT{key: w.key, ref: w.ref}
			cell.init = e.read(p.pre.heap, w.key, lf, w.ref)
			if lf.sort == SInt {
				lo, hi := lf.lo, lf.hi
				if lf.ptr {
					lo = bi(0)
				}
				cell.sym = c.FreshRange("cell:"+w.key, lo, hi)
			} else {
				cell.sym = c.Fresh("cell:"+w.key+lf.suf, lf.sort)
			}
			p.cells = append(p.cells, cell)
			stable = false
			continue
		}
		if cell.init.sort.isSeq() && !cell.user && cell.elem == nil && !cell.fill {
			// element stores at a moving index
			var elem, from *Term
			good := true
			for k := len(backs) - 1; k >= 0 && good; k-- {
				b := backs[k]
				v := e.read(b.st.heap, w.key, leaf{sort: cell.init.sort}, w.ref)
				x, at := matchUpdate(c, v, cell.sym)
				if x == nil || containsTerm(x, cell.sym) || containsTerm(c.Sub(at, p.K0), p.K0) {
					good = false
					break
				}
				fr0 := c.Sub(at, p.K0)
				if from != nil && from != fr0 {
					good = false
					break
				}
				from = fr0
				if elem == nil {
					elem = x
				} else {
					elem = c.Ite(b.cond, x, elem)
				}
			}
			if good && elem != nil {
				cell.fill, cell.elem, cell.from = true, elem, from
				stable = false
			}
		} else if cell.fill && cell.elem != nil {
			var elem *Term
			for k := len(backs) - 1; k >= 0; k-- {
				b := backs[k]
				x := c.Nth(e.read(b.st.heap, w.key, leaf{sort: cell.init.sort}, w.ref), c.Add(cell.from, p.K0))
				if elem == nil {
					elem = x
				} else {
					elem = c.Ite(b.cond, x, elem)
				}
			}
			cell.elem = elem
		}
	}
	// D
	var ds []*Term
	for _, b := range backs {
		ds = append(ds, b.cond)
	}
	D := c.Or(ds...)
	if stable {
		for i, ph := range p.phis {
			if p.modes[i].kind != 'h' {
				continue
			}
			var conds []*Term
			var vals [][]*Term
			for _, b := range backs {
				conds = append(conds, b.cond)
				vals = append(vals, e.toLeaves(ph.Type(), b.vals[i]))
			}
			e.hits(p, i, ph, conds, vals, D)
		}
		p.D = D
		p.comps = comps
		if e.P.dbgLoop {
			fmt.Printf("loop %s: D=%s\n", funcName(fr.fn), D)
			for i, m := range p.modes {
				fmt.Printf("  phi %s: %c step=%v elem=%v\n", p.phis[i].Comment, m.kind, m.step, m.elem)
			}
			for _, cl := range p.cells {
				fmt.Printf("  cell %s @%s fill=%v elem=%v\n", cl.key, cl.ref, cl.fill, cl.elem)
			}
			for _, q := range comps {
				fmt.Printf("  comp %s %s: %s\n", q.key, q.fa, q.val)
			}
		}
	}
	return stable
}

// hits recognises a variable that some iterations set to a value that does not
// depend on the variable itself: found = found || x, or if x { found = y }.
func (e *Eng) hits(p *loopPlan, i int, ph *ssa.Phi, conds []*Term, vals [][]*Term, D *Term) {
	c := e.c
	md := p.modes[i]
	md.hit = nil
	il := e.toLeaves(ph.Type(), p.init[i])
	if len(md.sym) == 0 || len(il) != len(md.sym) {
		return
	}
	for _, v := range vals {
		if len(v) != len(md.sym) {
			return
		}
	}
	has := func(t *Term) bool {
		for _, s := range md.sym {
			if containsTerm(t, s) {
				return true
			}
		}
		return false
	}
	if len(md.sym) == 1 && md.sym[0].sort == SBool {
		// as a function of the old value
		at := func(x *Term) *Term {
			m := map[*Term]*Term{md.sym[0]: x}
			v := c.F
			for k := range conds {
				v = c.Or(v, c.And(c.Subst(conds[k], m), c.Subst(vals[k][0], m)))
			}
			return v
		}
		if t := at(c.T); c.Imp(c.Subst(D, map[*Term]*Term{md.sym[0]: c.T}), t) == c.T {
			md.hit, md.hitVal = at(c.F), []*Term{c.T}
		} else if f := at(c.F); f == c.F {
			md.hit, md.hitVal = c.Not(t), []*Term{c.F}
		}
	} else {
		// paths that leave it and paths that set it
		set := func(m map[*Term]*Term) (hit *Term, val []*Term, ok bool) {
			hit = c.F
			for k := range conds {
				same := true
				for j := range md.sym {
					same = same && vals[k][j] == md.sym[j]
				}
				if same {
					continue
				}
				cond := c.Subst(conds[k], m)
				if has(cond) {
					return nil, nil, false
				}
				if cond == c.F {
					continue
				}
				for j := range md.sym {
					x := c.Subst(vals[k][j], m)
					if has(x) {
						return nil, nil, false
					}
					if len(val) <= j {
						val = append(val, x)
					} else {
						val[j] = c.Ite(cond, x, val[j])
					}
				}
				hit = c.Or(hit, cond)
			}
			return hit, val, val != nil
		}
		if hit, val, ok := set(nil); ok {
			md.hit, md.hitVal = hit, val
		} else {
			// set only while it has its first value
			m := map[*Term]*Term{}
			eq := c.T
			for j, s := range md.sym {
				m[s] = il[j]
				eq = c.And(eq, c.Eq(s, il[j]))
			}
			if hit, val, ok := set(m); ok {
				good := true
				for k := range conds {
					same := true
					for j := range md.sym {
						same = same && vals[k][j] == md.sym[j]
					}
					// setting it needs the first value, and gives another one
					if !same {
						good = good && e.quick(c.Imp(conds[k], eq))
					}
				}
				diff := c.F
				for j := range val {
					diff = c.Or(diff, c.Not(c.Eq(val[j], il[j])))
				}
				if good && e.quick(c.Imp(hit, diff)) {
					md.hit, md.hitVal, md.first = hit, val, true
				}
			}
		}
	}
	if md.hit != nil && (has(md.hit) || md.hit == c.F) {
		md.hit = nil
	}
	if md.hit != nil && md.at == nil {
		md.at = c.FreshRange("hit", bi(-1), new(big.Int).Lsh(bi(1), 47))
	}
}

// assumeHit states which iteration set the value v at the header.
func (e *Eng) assumeHit(md *phiMode, K0, kt, kv *Term, init, v []*Term) {
	c := e.c
	at := c.Subst(md.at, map[*Term]*Term{K0: kt})
	hit := func(i *Term) *Term { return c.Subst(md.hit, map[*Term]*Term{K0: i}) }
	none := []*Term{c.Eq(at, c.Int(-1)), c.Forall(kv, c.Zero, kt, c.Not(hit(kv)))}
	one := []*Term{c.Ge(at, c.Zero), c.Lt(at, kt), hit(at)}
	if md.first {
		one = append(one, c.Forall(kv, c.Zero, at, c.Not(hit(kv))))
	} else {
		one = append(one, c.Forall(kv, c.AddK(at, 1), kt, c.Not(hit(kv))))
	}
	for j := range v {
		none = append(none, c.Eq(v[j], init[j]))
		one = append(one, c.Eq(v[j], c.Subst(md.hitVal[j], map[*Term]*Term{K0: at})))
	}
	e.assume(c.Or(c.And(none...), c.And(one...)))
}

// matchUpdate recognises Update(sym, at, x).
func matchUpdate(c *Ctx, v, sym *Term) (x, at *Term) {
	if v.op != OConcat {
		return nil, nil
	}
	for i, a := range v.args {
		if a.op == OUnit {
			pre := c.Concat(append([]*Term{c.EmptyOf(sym.sort)}, v.args[:i]...)...)
			n := c.Len(pre)
			if c.Update(sym, n, a.args[0]) == v {
				return a.args[0], n
			}
		}
		if a.op == OLit && sym.sort == SSeq && len(a.name) == 1 {
			pre := c.Concat(append([]*Term{c.EmptyOf(sym.sort)}, v.args[:i]...)...)
			n := c.Len(pre)
			xx := c.Int(int64(a.name[0]))
			if c.Update(sym, n, xx) == v {
				return xx, n
			}
		}
	}
	return nil, nil
}

func (e *Eng) mentionsPhi(p *loopPlan, t *Term) bool {
	for _, md := range p.modes {
		for _, s := range md.sym {
			if containsTerm(t, s) {
				return true
			}
		}
		if md.ref != nil && containsTerm(t, md.ref) {
			return true
		}
	}
	return false
}

func (e *Eng) leafOfKey(key string, st *State, ref *Term) leaf {
	if key == "bytes" {
		if ref.isFA() {
			if n, ok := e.faLen[ref.name[3:]]; ok {
				return leaf{suf: fmt.Sprintf("#%d", n), sort: SSeq}
			}
		}
		return leafBytes
	}
	if strings.HasPrefix(key, "A:") {
		return leafList
	}
	en := st.heap.m[key]
	lf := leaf{sort: en.val.sort}
	if lf.sort == SInt {
		switch {
		case strings.HasSuffix(key, ".off"), strings.HasSuffix(key, ".len"), strings.HasSuffix(key, ".cap"):
			lf.lo, lf.hi = bi(0), new(big.Int).Lsh(bi(1), 40)
		default:
			if t := e.keyType(key); t != nil {
				if ls := e.leaves(t); len(ls) == 1 {
					return ls[0]
				}
			}
			lf.ptr = strings.HasSuffix(key, ".arr") || strings.HasSuffix(key, ".ref")
		}
	}
	return lf
}

func (e *Eng) keyType(key string) types.Type {
	i := strings.LastIndexByte(key, '.')
	if i < 0 || strings.HasPrefix(key, "cell:") {
		return nil
	}
	t := e.P.namedType(key[:i])
	if t == nil {
		return nil
	}
	return fieldType(t, key[i+1:])
}

func (e *Eng) phiLeaves(ph *ssa.Phi) []leaf { return e.leaves(ph.Type()) }

func (e *Eng) hasDefInv(p *loopPlan, ph *ssa.Phi) bool {
	if _, ok := ph.Type().Underlying().(*types.Pointer); !ok && e.closed(ph.Type()) == nil {
		return false
	}
	for _, iv := range p.invs {
		if strings.HasPrefix(lhsText(iv.clause.expr), p.name(ph)+".") {
			return true
		}
	}
	return false
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.arr == y.arr && x.off == y.off && x.n == y.n
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.tag == y.tag && x.ref == y.ref
	}
	return false
}

// classify one phi from a run with an arbitrary value.
func (e *Eng) classify(p *loopPlan, i int, ph *ssa.Phi, backs []Val) byte {
	c := e.c
	md := p.modes[i]
	var steps *big.Int
	counted, same := true, true
	if len(md.sym) == 0 {
		return 'h'
	}
	for _, b := range backs {
		x := e.toLeaves(ph.Type(), b)
		if len(x) != len(md.sym) {
			return 'h'
		}
		for j := range x {
			if x[j] != md.sym[j] {
				same = false
			}
		}
		if len(md.sym) != 1 || md.sym[0].sort != SInt {
			counted = false
			continue
		}
		d := stripWrap(c, x[0], md.sym[0])
		if d == nil || d.Sign() == 0 || steps != nil && steps.Cmp(d) != 0 {
			counted = false
			continue
		}
		steps = d
	}
	if same {
		return 's'
	}
	if counted && steps != nil {
		if _, ok := p.init[i].(*Term); ok {
			md.step = steps
			return 'c'
		}
	}
	if p.appendPhi(e, i) {
		return 'a'
	}
	return 'h'
}

// eqInv: the right side of an invariant that says what an integer phi is.
func (p *loopPlan) eqInv(phis []*ssa.Phi, i int) ast.Expr {
	b, ok := phis[i].Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || p.name(phis[i]) == "" {
		return nil
	}
	for j, q := range phis {
		if j != i && p.name(q) == p.name(phis[i]) {
			return nil
		}
	}
	for _, iv := range p.invs {
		if x, ok := iv.clause.expr.(*ast.BinaryExpr); ok && x.Op == token.EQL {
			if id, ok := x.X.(*ast.Ident); ok && id.Name == p.name(phis[i]) {
				return x.Y
			}
		}
	}
	return nil
}

// appendPhi: every back edge appends to the phi, which begins as a slice
// that no append can write through.
func (p *loopPlan) appendPhi(e *Eng, i int) bool {
	ph := p.phis[i]
	sl, ok := ph.Type().Underlying().(*types.Slice)
	if !ok || !isByte(sl.Elem()) && !listElem(sl.Elem()) {
		return false
	}
	s0, ok := p.init[i].(*SliceV)
	if !ok || s0.arr != e.c.Zero && bucketOf(s0.arr) == nil && s0.n != s0.cap {
		return false
	}
	appends := 0
	for _, r := range *ph.Referrers() {
		if call, ok := r.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && call.Call.Args[0] == ph {
				appends++
			}
		}
	}
	if appends != 1 {
		return false
	}
	for k, ed := range ph.Edges {
		if !p.l.body[ph.Block().Preds[k]] {
			continue
		}
		call, ok := ed.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || call.Call.Args[0] != ph {
			return false
		}
	}
	return true
}

// stripWrap: x = sym + d (mod the type's size).
func stripWrap(c *Ctx, x, sym *Term) *big.Int {
	if x.op == OMod {
		x = x.args[0]
	} else if x.op == OSum && len(x.args) == 1 && x.args[0].op == OMod {
		// signed wrap: mod(x - lo, 2^n) + lo
		d := c.Add(x.args[0].args[0], c.Big(x.k))
		x = d
	}
	d := c.Sub(x, sym)
	if d.op == OConst {
		return d.k
	}
	return nil
}
