package main

// Symbolic execution of go/ssa functions: every path of the function under
// verification, with calls replaced by contracts (or inlined when the callee
// has none), and loops by invariants (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	name  string
	args  []Val
	argT  []types.Type
	res   []Val
	resT  []types.Type
	heap  *Heap
	maybe bool // a callee may have made this call
}

type State struct {
	heap   *Heap
	events []*Event
	allocs []allocRec

	appended []string // arrays of unknown spare capacity that were appended to
	made     []madeRec
}

// madeRec: a pointer list made here, whose elements are nil until they are set.
type madeRec struct {
	ref *Term
	key string
	n   *Term
	grd *Term // made under this condition; nil: always
}

type allocRec struct {
	ref *Term
	t   types.Type
	grd *Term
}

// where runs f where the object exists.
func (e *Eng) where(grd *Term, f func()) {
	if grd == nil {
		f()
		return
	}
	e.branch(grd, f)
}

func (s *State) clone() *State {
	return &State{heap: s.heap.clone(), events: s.events[:len(s.events):len(s.events)], allocs: s.allocs[:len(s.allocs):len(s.allocs)],
		appended: s.appended[:len(s.appended):len(s.appended)], made: s.made[:len(s.made):len(s.made)]}
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	ret    func(*State, []Val)
	depth  int
	loops  []*LoopCtx
	joins  []joinCtx
	info   *loopInfo
	peeled map[*ssa.BasicBlock]int // iterations executed one by one
	stack  []string
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

type Obl struct {
	Name    string   `json:"name"`
	Labels  []string `json:"labels"`
	Kind    string   `json:"kind"` // ensures, frame, safety, requires, invariant
	OK      bool     `json:"ok"`
	Backend string   `json:"backend"`
	Pos     string   `json:"pos"`
	Text    string   `json:"text"`
	Detail  string   `json:"detail,omitempty"`
}

type Eng struct {
	topFn   *ssa.Function // the function being verified
	topArgs []Val

	P         *Program
	c         *Ctx
	s         *Solver
	con       *Contract
	zeroed    map[string]bool
	exactCap  map[string]bool // arrays whose capacity is known
	notOwned  map[string]bool // arrays returned by contracts without ownership
	globRead  map[*Term]*Term
	faLen     map[string]int
	faKeys    map[string]types.Type
	elRefs    map[string]*Term
	serial    int
	loopK     []*Term
	loopSyms  []*Term // iteration numbers of the loops so far
	entry     *Heap
	site      string
	onWrite   func(key string, ref, val *Term)
	obls      []*Obl
	knownM    map[*Term]int
	firstEq   map[*Term]*Term
	firstBy   map[*Term]*Term
	limit     *big.Int
	pc        []*Term
	stateID   int
	nextState int
	memo      map[[2]int]bool
	deadline  time.Time
	steps     int
	quiet     int // >0: obligations are not recorded (discovery passes)
	trusted   map[string]bool
	used      map[string]bool // contracts applied
	inlined   map[string]bool
	notes     map[string]bool
	paths     int
	depth     int
	visited   map[*ssa.BasicBlock]bool
	debug     bool
	retHeapT  []*Term
	loopSeen  map[string]bool
	rootName  string
	wideArith bool
	goalMs    int
	serialVer int
	unrolls   int
	decimals  bool // the code makes decimal texts
	nfail     int
}

func newEng(P *Program) *Eng {
	e := &Eng{P: P, visited: map[*ssa.BasicBlock]bool{}, c: NewCtx(), zeroed: map[string]bool{}, notOwned: map[string]bool{}, exactCap: map[string]bool{}, globRead: map[*Term]*Term{}, faLen: map[string]int{}, faKeys: map[string]types.Type{},
		elRefs: map[string]*Term{}, knownM: map[*Term]int{}, firstEq: map[*Term]*Term{}, firstBy: map[*Term]*Term{}, memo: map[[2]int]bool{}, trusted: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, notes: map[string]bool{}, serial: 1, loopSeen: map[string]bool{}, goalMs: 4000}
	e.s = NewSolver(e.c)
	e.c.prove = e.quick
	e.goalMs *= slow
	e.deadline = time.Now().Add(time.Duration(180) * time.Second)
	return e
}

// ---- path conditions -----------------------------------------------------

func (e *Eng) known(t *Term) bool {
	if t == e.c.T {
		return true
	}
	return e.knownM[t] > 0
}

func (e *Eng) conjuncts(t *Term, f func(*Term)) {
	f(t)
	if t.op == OAnd {
		for _, a := range t.args {
			e.conjuncts(a, f)
		}
	}
	if t.op == ONot && t.args[0].op == OOr {
		for _, a := range t.args[0].args {
			e.conjuncts(e.c.Not(a), f)
		}
	}
}

func (e *Eng) assume(t *Term) {
	if t == e.c.T || e.knownM[t] > 0 {
		return
	}
	e.pc = append(e.pc, t)
	e.conjuncts(t, func(x *Term) {
		e.knownM[x]++
		if x.op == OEq {
			// the place a search finds, when it is known
			a, b := x.args[0], x.args[1]
			if b.op == OFirst {
				a, b = b, a
			}
			if a.op == OFirst && b.op != OFirst && e.firstEq[a] == nil {
				e.firstEq[a] = b
				e.firstBy[x] = a
			}
		}
	})
	e.s.Assert(t)
	e.nextState++
	e.stateID = e.nextState
}

func (e *Eng) assumeOnce(t *Term) { e.assume(t) }

func (e *Eng) scope(f func()) {
	n, id := len(e.pc), e.stateID
	e.s.Push()
	done := func() {
		e.s.Pop()
		for i := n; i < len(e.pc); i++ {
			e.conjuncts(e.pc[i], func(x *Term) {
				e.knownM[x]--
				if e.knownM[x] == 0 {
					delete(e.knownM, x)
					if a := e.firstBy[x]; a != nil {
						delete(e.firstEq, a)
						delete(e.firstBy, x)
					}
				}
			})
		}
		e.pc = e.pc[:n]
		e.stateID = id
	}
	defer done()
	f()
}

// quick: is t valid here (used by the term simplifier)?
func (e *Eng) quick(t *Term) bool {
	if e.known(t) {
		return true
	}
	if t == e.c.F || e.known(e.c.Not(t)) {
		return false
	}
	k := [2]int{t.id, e.stateID}
	if r, ok := e.memo[k]; ok {
		return r
	}
	e.s.Push()
	e.s.Assert(e.c.Not(t))
	r := e.s.Check(150*slow) == Unsat
	e.s.Pop()
	e.memo[k] = r
	if r {
		e.knownNow(t)
	}
	return r
}

// knownNow adds a proved fact to the current scope.
func (e *Eng) knownNow(t *Term) { e.assume(t) }

func (e *Eng) feasible() bool {
	if e.knownM[e.c.F] > 0 {
		return false
	}
	r := e.s.Check(250*slow) != Unsat
	if e.P.dbgLoop && !r && e.quiet == 0 {
		fmt.Printf("infeasible at %s\n", e.site)
	}
	return r
}

// branch runs f under the extra condition when it is satisfiable.
func (e *Eng) branch(cond *Term, f func()) {
	if cond == e.c.F || e.known(e.c.Not(cond)) {
		if e.P.dbgLoop && e.quiet == 0 {
			fmt.Printf("branch known false at %s: %.200s\n", e.site, cond.String())
		}
		return
	}
	if e.known(cond) {
		e.scope(f)
		return
	}
	e.scope(func() {
		e.assume(cond)
		if e.feasible() {
			f()
		}
	})
}

func (e *Eng) fork(cond *Term, a, b func()) {
	if cond == e.c.T || e.known(cond) {
		e.scope(a)
		return
	}
	nc := e.c.Not(cond)
	if cond == e.c.F || e.known(nc) {
		e.scope(b)
		return
	}
	e.branch(cond, a)
	e.branch(nc, b)
}

// ---- obligations ---------------------------------------------------------

func (e *Eng) oblige(kind, name string, labels []string, goal *Term, text string) bool {
	if e.quiet > 0 {
		e.assume(goal)
		return true
	}
	o := &Obl{Name: name, Labels: labels, Kind: kind, Pos: e.site, Text: text}
	o.OK, o.Backend, o.Detail = e.decide(goal)
	e.obls = append(e.obls, o)
	if !o.OK {
		e.nfail++
		if e.nfail == 4 {
			e.goalMs = 1000
		}
	}
	if !o.OK && e.debug {
		fmt.Fprintf(os.Stderr, "FAILED %s %s at %s: %s\n   goal: %s\n", kind, name, e.site, text, goal)
		if os.Getenv("GOVER_PC") != "" {
			for _, t := range e.pc {
				fmt.Fprintf(os.Stderr, "     pc: %s\n", t)
			}
		}
	}
	e.assume(goal)
	return o.OK
}

// resolve replaces the conditionals of a term whose condition is decided by the
// path.
func (e *Eng) resolve(t *Term) *Term {
	for round := 0; round < 6; round++ {
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		n := 0
		var walk func(x *Term)
		walk = func(x *Term) {
			if seen[x] || n > 60 {
				return
			}
			seen[x] = true
			for _, a := range x.args {
				walk(a)
			}
			if x.op == OIte && !x.args[0].hasBV && m[x] == nil {
				q := x.args[0]
				n++
				if e.quick(q) {
					m[x] = x.args[1]
				} else if e.quick(e.c.Not(q)) {
					m[x] = x.args[2]
				}
			}
		}
		walk(t)
		if len(m) == 0 {
			return t
		}
		r := e.c.Subst(t, m)
		if r == t {
			return t
		}
		t = r
	}
	return t
}

// foralls: the quantified facts of the path.
func (e *Eng) foralls() []*Term {
	var r []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OForall && !t.hasBV {
			r = append(r, t)
		}
		if t.op == OAnd {
			for _, a := range t.args {
				walk(a)
			}
		}
	}
	for _, p := range e.pc {
		walk(p)
	}
	return r
}

// decide proves a goal under the current path condition.
func (e *Eng) decide(goal *Term) (bool, string, string) {
	if goal == e.c.T || e.known(goal) {
		return true, "simplifier", ""
	}
	if goal.op == OAnd {
		back := "simplifier"
		for _, g := range goal.args {
			ok, b, d := e.decide(g)
			if !ok {
				return false, b, d
			}
			if b != "simplifier" {
				back = b
			}
		}
		return true, back, ""
	}
	ms := e.goalMs
	if goal.op == OForall {
		ms = 500 * slow
	}
	e.s.Push()
	e.s.Assert(e.c.Not(goal))
	r := e.s.Check(ms)
	e.s.Pop()
	if r == Unsat {
		return true, "z3", ""
	}
	if goal.op == OForall && !goal.hasBV {
		// an arbitrary element
		c := e.c
		j := c.Fresh("any!"+goal.name, SInt)
		ok := false
		e.scope(func() {
			e.assume(c.Le(goal.args[0], j))
			e.assume(c.Lt(j, goal.args[1]))
			for _, p := range e.foralls() {
				if p.args[0] == goal.args[0] {
					g, b := c.And(c.Le(p.args[0], j), c.Lt(j, p.args[1])), c.Subst(p.args[2], map[*Term]*Term{p.bound: j})
					if e.quick(g) {
						e.assume(b)
					} else {
						e.assume(c.Imp(g, b))
					}
				}
			}
			nf := e.nfail
			e.nfail = 4 // no portfolio for the parts: it gets the whole goal
			if os.Getenv("GOVER_ANY") != "" {
				strDepth = 40
				g := e.resolve(c.Subst(goal.args[2], map[*Term]*Term{goal.bound: j}))
				fmt.Fprintf(os.Stderr, "ANY goal %s\n", g)
				for _, p := range e.pc {
					if containsTerm(p, j) {
						fmt.Fprintf(os.Stderr, "ANY pc %s\n", p)
					}
				}
			}
			ok, _, _ = e.decide(e.resolve(c.Subst(goal.args[2], map[*Term]*Term{goal.bound: j})))
			e.nfail = nf
		})
		if ok {
			return true, "z3", ""
		}
	}
	if goal.op == ONot && goal.args[0].op == OForall && !goal.hasBV {
		// an element with the property: that of the iteration at hand
		c, q := e.c, goal.args[0]
		for i := len(e.loopSyms) - 1; i >= 0; i-- {
			k := e.loopSyms[i]
			if !e.quick(c.Le(q.args[0], k)) || !e.quick(c.Lt(k, q.args[1])) {
				continue
			}
			nf := e.nfail
			e.nfail = 4
			ok, _, _ := e.decide(e.resolve(c.Not(c.Subst(q.args[2], map[*Term]*Term{q.bound: k}))))
			e.nfail = nf
			if ok {
				return true, "z3", ""
			}
		}
	}
	if goal.op == OOr && !goal.hasBV {
		// all but one of the alternatives fail: prove the quantified one
		for _, q := range goal.args {
			if q.op != OForall && !(q.op == ONot && q.args[0].op == OForall) {
				continue
			}
			ok := false
			e.scope(func() {
				for _, x := range goal.args {
					if x != q {
						e.assume(e.c.Not(x))
					}
				}
				nf := e.nfail
				e.nfail = 4
				ok, _, _ = e.decide(q)
				e.nfail = nf
			})
			if ok {
				return true, "z3", ""
			}
		}
	}
	if g := e.resolve(goal); g != goal && e.depth < 3 {
		e.depth++
		nf := e.nfail
		e.nfail = 4
		ok, b, _ := e.decide(g)
		e.nfail = nf
		e.depth--
		if ok {
			return true, b, ""
		}
	}
	if goal.op == OEq && goal.args[0].sort.isSeq() {
		a, b := goal.args[0], goal.args[1]
		c := e.c
		i := c.Fresh("ext!i", SInt)
		ok := false
		e.scope(func() {
			e.s.Push()
			le := c.Eq(c.Len(a), c.Len(b))
			e.s.Assert(c.Not(le))
			q := le == c.T || e.s.Check(e.goalMs) == Unsat
			e.s.Pop()
			if !q {
				return
			}
			e.assume(c.Le(c.Zero, i))
			e.assume(c.Lt(i, c.Len(a)))
			g := c.Eq(c.Nth(a, i), c.Nth(b, i))
			if g == c.T {
				ok = true
				return
			}
			e.s.Push()
			e.s.Assert(c.Not(g))
			ok = e.s.Check(e.goalMs) == Unsat
			e.s.Pop()
		})
		if ok {
			return true, "z3", ""
		}
	}
	if e.debug && e.P.dbgLoop {
		fmt.Fprintf(os.Stderr, "  part: %s\n", goal)
		if w := os.Getenv("GOVER_PC"); w != "" {
			for _, p := range e.pc {
				if t := p.String(); strings.Contains(t, w) {
					fmt.Fprintf(os.Stderr, "    pc: %s\n", t)
				}
			}
		}
	}
	if e.nfail >= 4 {
		return false, "none", "not tried further: " + goal.String()
	}
	res, be, script := e.s.Portfolio(e.c.Not(goal), 8*slow)
	if res == Unsat {
		return true, be, ""
	}
	d := fmt.Sprintf("solver answer: %s\ngoal: %s\npath: ", res, goal)
	for _, t := range e.pc {
		d += "\n  " + t.String()
	}
	if len(script) < 200000 {
		d += "\n--- SMT-LIB query ---\n" + script
	}
	return false, "none", d
}

// safety obligations: a panic must be impossible.
func (e *Eng) safe(cond *Term, what string) {
	if cond == e.c.T || e.known(cond) {
		if e.quiet == 0 {
			e.obls = append(e.obls, &Obl{Name: "no-panic", Labels: []string{"C13"}, Kind: "safety", OK: true, Backend: "simplifier", Pos: e.site, Text: what})
		}
		return
	}
	e.oblige("safety", "no-panic", []string{"C13"}, cond, what)
}

// ---- blocks ----------------------------------------------------------------

func (e *Eng) callBody(fn *ssa.Function, args []Val, binds []Val, st *State, depth int, stack []string, ret func(*State, []Val)) {
	if fn.Blocks == nil {
		unsupported("no body for %s", funcName(fn))
	}
	if depth > 40 {
		unsupported("inlining depth at %s", funcName(fn))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, ret: ret, depth: depth, stack: stack}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	fr.info = loopsOf(fn)
	e.runBlock(fr, fn.Blocks[0], nil, st)
}

func (e *Eng) runBlock(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	e.steps++
	if e.steps > 200000 || time.Now().After(e.deadline) {
		unsupported("budget exhausted")
	}
	if n := len(fr.joins); n > 0 && fr.joins[n-1].block == b && len(fr.loops) == fr.joins[n-1].loops {
		fr.joins[n-1].got(fr, prev, st)
		return
	}
	// leaving or closing loops
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if b == top.header {
			top.back(fr, prev, st)
			return
		}
		if !top.body[b] {
			fr = fr.clone()
			fr.loops = fr.loops[:len(fr.loops)-1]
			if top.exit != nil {
				top.exit(fr, b, prev, st)
				return
			}
			continue
		}
		break
	}
	if l := fr.info.byHeader[b]; l != nil {
		e.loop(fr, l, prev, st)
		return
	}
	e.enterBlock(fr, b, prev, st)
}

func (e *Eng) enterBlock(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	e.visited[b] = true
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				vals = append(vals, e.val(fr, p.Edges[i]))
				break
			}
		}
		phis = append(phis, p)
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	e.run(fr, b, len(phis), st)
}

func (e *Eng) pos(fr *Frame, p token.Pos) string {
	if !p.IsValid() {
		return funcName(fr.fn)
	}
	ps := e.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, e.P.repo+"/"), ps.Line)
}

func (e *Eng) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in.Pos().IsValid() {
			e.site = e.pos(fr, in.Pos())
		}
		switch x := in.(type) {
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Jump:
			e.runBlock(fr, b.Succs[0], b, st)
			return
		case *ssa.If:
			cond := e.val(fr, x.Cond).(*Term)
			if cond == e.c.T || e.known(cond) {
				e.runBlock(fr, b.Succs[0], b, st)
				return
			}
			if cond == e.c.F || e.known(e.c.Not(cond)) {
				e.runBlock(fr, b.Succs[1], b, st)
				return
			}
			if e.con != nil && e.con.merge && fr.depth == 0 && e.joinIf(fr, b, cond, st) {
				return
			}
			e.branch(cond, func() { e.runBlock(fr.clone(), b.Succs[0], b, st.clone()) })
			e.branch(e.c.Not(cond), func() { e.runBlock(fr.clone(), b.Succs[1], b, st.clone()) })
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, r))
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			e.safe(e.c.F, "explicit panic")
			return
		case *ssa.Store:
			e.storeAt(fr, st, e.val(fr, x.Addr), x.Addr.Type().Underlying().(*types.Pointer).Elem(), e.val(fr, x.Val))
		case *ssa.Call:
			idx := i
			done := false
			e.call(fr, st, &x.Call, x, func(st2 *State, res []Val) {
				fr2 := fr
				if done {
					unsupported("internal: continuation reused")
				}
				fr2 = fr.clone()
				switch len(res) {
				case 0:
				case 1:
					fr2.env[x] = res[0]
				default:
					fr2.env[x] = Tuple(res)
				}
				e.run(fr2, b, idx+1, st2)
			})
			return
		case *ssa.Go:
			// The goroutine runs its function once, at some later time. It is
			// executed here, which is the same for every schedule because its
			// parent does nothing after this point that it could observe.
			if why := afterGo(x); why != "" {
				unsupported("goroutine whose parent goes on with: %s", why)
			}
			e.notes["the caller leaves the arguments of an asynchronous call alone until a callback was invoked; a started goroutine runs to its end"] = true
			idx := i
			e.call(fr, st, &x.Call, nil, func(st2 *State, _ []Val) {
				e.run(fr.clone(), b, idx+1, st2)
			})
			return
		case *ssa.MapUpdate, *ssa.Send, *ssa.Defer, *ssa.Select:
			unsupported("instruction %s", in)
		case *ssa.Slice:
			fr.env[x] = e.slice(fr, st, x)
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsupported("instruction %T", in)
			}
			if e.forkingInstr(fr, st, in, func(st2 *State, val Val) {
				fr2 := fr.clone()
				fr2.env[v] = val
				e.run(fr2, b, i+1, st2)
			}) {
				return
			}
			fr.env[v] = e.eval(fr, st, v)
		}
	}
}

// forkingInstr handles instructions that may split the path.
func (e *Eng) forkingInstr(fr *Frame, st *State, in ssa.Instruction, k func(*State, Val)) bool {
	switch x := in.(type) {
	case *ssa.TypeAssert:
		e.typeAssert(fr, st, x, k)
		return true
	}
	return false
}

func (e *Eng) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x.Value, x.Type())
	case *ssa.Function:
		id, ok := e.P.fnID[x]
		if !ok {
			return e.externFn(x)
		}
		return e.c.Int(int64(id))
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("value %s of %s not evaluated", v.Name(), fr.fn)
	}
	return r
}

// externFn: function values of other packages, numbered from 2^19 by name.
func (e *Eng) externFn(f *ssa.Function) Val {
	n := funcName(f)
	return e.c.Int(int64(e.P.externID(n)))
}

func (e *Eng) constant(cv constant.Value, t types.Type) Val {
	c := e.c
	if cv == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool(constant.BoolVal(cv))
		case u.Info()&types.IsString != 0:
			return c.Lit([]byte(constant.StringVal(cv)))
		case u.Info()&types.IsInteger != 0:
			i := constant.ToInt(cv)
			b, ok := new(big.Int).SetString(i.ExactString(), 10)
			if !ok {
				unsupported("constant %s", cv)
			}
			return c.Big(b)
		}
	}
	unsupported("constant of type %s", t)
	return nil
}

func (e *Eng) globalAddr(g *ssa.Global) Val {
	id, ok := e.P.globID[g]
	if !ok {
		id = e.P.externID("glob " + g.String())
	}
	r := e.c.Int(int64(globBase + id))
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if isStruct(t) {
		return r
	}
	if _, ok := byteArray(t); ok {
		return r
	}
	return &AddrV{kind: 'c', key: "glob:" + g.String(), ref: r, t: t}
}

func (e *Eng) term(fr *Frame, v ssa.Value) *Term {
	t, ok := e.val(fr, v).(*Term)
	if !ok {
		unsupported("scalar expected for %s", v)
	}
	return t
}

func (e *Eng) eval(fr *Frame, st *State, v ssa.Value) Val {
	c := e.c
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		r := e.allocZeroed()
		if _, ok := byteArray(t); ok {
			e.write(st, "bytes", r, e.zeroLeaf(leaf{suf: fmt.Sprintf("#%d", t.Underlying().(*types.Array).Len()), sort: SSeq}))
			return r
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			if listElem(a.Elem()) {
				e.write(st, listKey(a.Elem()), r, c.RepeatOf(SSeqW, c.Zero, c.Int(a.Len())))
			}
			return r
		}
		if isStruct(t) {
			e.zeroArrays(st, t, r)
			st.allocs = append(st.allocs, allocRec{r, t, nil})
			return r
		}
		return &AddrV{kind: 'c', key: "cell:" + typeName(t), ref: r, t: t}
	case *ssa.FieldAddr:
		base := e.ptr(fr, x.X, "nil pointer dereference")
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		k, r, ft := e.fieldCell(t, base, x.Field)
		if r != base {
			return r
		}
		return &AddrV{kind: 'c', key: k, ref: base, t: ft}
	case *ssa.IndexAddr:
		return e.indexAddr(fr, st, x)
	case *ssa.Field:
		sv, ok := e.val(fr, x.X).(*StructV)
		if !ok {
			unsupported("field of non-struct value")
		}
		return sv.f[x.Field]
	case *ssa.Index:
		a := e.val(fr, x.X)
		i := e.term(fr, x.Index)
		s, ok := a.(*Term)
		if !ok {
			unsupported("index of %T", a)
		}
		e.safe(c.And(c.Le(c.Zero, i), c.Lt(i, c.Len(s))), "index in range")
		return c.Nth(s, i)
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s, i := e.term(fr, x.X), e.term(fr, x.Index)
			e.safe(c.And(c.Le(c.Zero, i), c.Lt(i, c.Len(s))), "index in range")
			return c.Nth(s, i)
		}
		unsupported("map lookup")
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return e.loadAt(fr, st, e.val(fr, x.X), x.Type())
		case token.NOT:
			return c.Not(e.term(fr, x.X))
		case token.SUB:
			return e.wrap(c.Sub(c.Zero, e.term(fr, x.X)), x.Type())
		case token.XOR:
			lo, hi, _ := intRange(x.Type())
			a := e.term(fr, x.X)
			if lo.Sign() == 0 {
				return c.Sub(c.Big(hi), a)
			}
			return c.Sub(c.Int(-1), a)
		}
		unsupported("unary %s", x.Op)
	case *ssa.BinOp:
		return e.binop(fr, st, x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Type())
	case *ssa.Convert:
		return e.convert(fr, st, x)
	case *ssa.ChangeType:
		return e.val(fr, x.X)
	case *ssa.ChangeInterface:
		iv := e.val(fr, x.X).(*IfaceV)
		return iv
	case *ssa.MakeInterface:
		return e.makeIface(fr, st, x)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		cv := &ClosV{id: e.P.fnID[f]}
		for _, b := range x.Bindings {
			cv.bind = append(cv.bind, e.val(fr, b))
		}
		return cv
	case *ssa.MakeSlice:
		n, cp := e.term(fr, x.Len), e.term(fr, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		e.safe(c.And(c.Le(c.Zero, n), c.Le(n, cp), c.Le(cp, c.Big(new(big.Int).Lsh(bi(1), 47)))), "make with a valid length")
		sl := e.newSlice(st, et, c.RepeatOf(seqSort(et), c.Zero, cp), n, cp)
		e.exactCap[bucketOf(sl.arr).String()] = true
		if listElem(et) && n != c.Zero && e.P.spec.elems[strings.TrimPrefix(listKey(et), "A:*")] {
			st.made = append(st.made, madeRec{sl.arr, listKey(et), n, nil})
		}
		return sl
	case *ssa.Extract:
		tv, ok := e.val(fr, x.Tuple).(Tuple)
		if !ok {
			unsupported("extract from %T", e.val(fr, x.Tuple))
		}
		return tv[x.Index]
	case *ssa.Phi:
		unsupported("phi out of place")
	case *ssa.Range, *ssa.Next, *ssa.MakeMap, *ssa.MakeChan:
		unsupported("%T", v)
	}
	unsupported("instruction %T", v)
	return nil
}

func seqSort(elem types.Type) Sort {
	if isByte(elem) {
		return SSeq
	}
	return SSeqW
}

func (e *Eng) zeroArrays(st *State, t types.Type, r *Term) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		k, rr, ft := e.fieldCell(t, r, i)
		_ = k
		if n, ok := byteArray(ft); ok {
			e.write(st, "bytes", rr, e.c.Repeat(e.c.Zero, e.c.Int(int64(n))))
		} else if a, ok := ft.Underlying().(*types.Array); ok && listElem(a.Elem()) {
			e.write(st, listKey(a.Elem()), rr, e.c.RepeatOf(SSeqW, e.c.Zero, e.c.Int(a.Len())))
		} else if isStruct(ft) {
			e.zeroArrays(st, ft, rr)
			e.faZero(rr)
		}
	}
}

func (e *Eng) faZero(r *Term) {}

// newSlice allocates an array with the given content.
func (e *Eng) newSlice(st *State, et types.Type, content, n, cp *Term) *SliceV {
	r := e.allocZeroed()
	if isByte(et) || listElem(et) {
		e.write(st, e.arrKey(et), r, content)
	}
	return &SliceV{r, e.c.Zero, n, cp, et}
}

func (e *Eng) bytesSlice(st *State, content *Term) *SliceV {
	n := e.c.Len(content)
	return e.newSlice(st, types.Typ[types.Uint8], content, n, n)
}

// ptr evaluates a pointer and proves it non-nil.
func (e *Eng) ptr(fr *Frame, v ssa.Value, what string) *Term {
	p, ok := e.val(fr, v).(*Term)
	if !ok {
		unsupported("pointer %s is %T", v.Name(), e.val(fr, v))
	}
	e.nonNil(p, what)
	return p
}

func (e *Eng) nonNil(p *Term, what string) {
	nz := e.c.Not(e.c.Eq(p, e.c.Zero))
	e.safe(nz, what)
}

func (e *Eng) loadAt(fr *Frame, st *State, addr Val, t types.Type) Val {
	c := e.c
	switch a := addr.(type) {
	case *AddrV:
		switch a.kind {
		case 'c':
			if strings.HasPrefix(a.key, "glob:") {
				return e.loadGlobal(st, a, t)
			}
			return e.load(st, st.heap, a.key, a.ref, t)
		case 'b':
			return c.Nth(e.readBytes(st.heap, a.ref), a.idx)
		case 's':
			return c.Fresh("string", SSeq)
		case 'l':
			r := c.Nth(e.read(st.heap, a.key, leafList, a.ref), a.idx)
			if strings.HasPrefix(a.key, "A:*") && !r.hasBV && !e.isMade(st, a.ref) {
				e.assumeElem(a.key, r)
			}
			return r
		}
	case *Term:
		e.nonNil(a, "nil pointer dereference")
		if isStruct(t) {
			return e.load(st, st.heap, "", a, t)
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return e.load(st, st.heap, "", a, t)
		}
		if a.isFA() {
			return e.load(st, st.heap, a.name[3:], a.args[0], t)
		}
		return e.load(st, st.heap, "cell:"+typeName(t), a, t)
	}
	unsupported("load through %T", addr)
	return nil
}

func (e *Eng) isMade(st *State, arr *Term) bool {
	for _, m := range st.made {
		if m.ref == arr {
			return true
		}
	}
	return false
}

// checkElems: a value put into a pointer list under an element invariant.
func (e *Eng) checkElems(key string, r *Term) {
	if strings.HasPrefix(key, "A:*") && e.P.spec.elems[key[3:]] {
		e.oblige("invariant", key, []string{"C13"}, e.c.Not(e.c.Eq(r, e.c.Zero)), "type invariant: elements of []"+key[2:]+" are not nil")
	}
}

// oldList: (part of) the content of a list that existed at entry or that a
// callee left behind.
func oldList(t *Term) bool {
	for t.op == OExtract {
		t = t.args[0]
	}
	return t.op == OApp && strings.HasPrefix(t.name, "A:*") && strings.Contains(t.name, "@")
}

// checkList: all elements of a list are non-nil.
func (e *Eng) checkList(key string, ct *Term) {
	if !strings.HasPrefix(key, "A:*") || !e.P.spec.elems[key[3:]] {
		return
	}
	c := e.c
	switch {
	case ct.op == OUnit:
		e.checkElems(key, ct.args[0])
		return
	case ct.op == OConcat:
		for _, a := range ct.args {
			e.checkList(key, a)
		}
		return
	case ct.op == OIte:
		e.checkList(key, ct.args[1])
		e.checkList(key, ct.args[2])
		return
	case oldList(ct) || c.Len(ct) == c.Zero:
		return
	}
	v := c.BoundIn("el", c.Zero, c.Len(ct))
	e.oblige("invariant", key, []string{"C13"}, c.Forall(v, c.Zero, c.Len(ct), c.Not(c.Eq(c.Nth(ct, v), c.Zero))), "type invariant: elements of []"+key[2:]+" are not nil")
}

// assumeElem: elements of pointer lists are non-nil by type invariant.
func (e *Eng) assumeElem(key string, r *Term) {
	if r.op == ONth && e.P.spec.elems[key[3:]] {
		e.assumeOnce(e.c.Ge(r, e.c.One))
	}
}

func (e *Eng) storeAt(fr *Frame, st *State, addr Val, t types.Type, v Val) {
	c := e.c
	switch a := addr.(type) {
	case *AddrV:
		switch a.kind {
		case 'c':
			if strings.HasPrefix(a.key, "glob:") {
				unsupported("store to global")
			}
			e.checkStore(st, a, v)
			e.store(st, a.key, a.ref, t, v)
			return
		case 'b':
			old := e.readBytes(st.heap, a.ref)
			e.write(st, "bytes", a.ref, c.Update(old, a.idx, v.(*Term)))
			return
		case 'l':
			if t, ok := v.(*Term); ok && !e.isMade(st, a.ref) {
				e.checkElems(a.key, t)
			}
			old := e.read(st.heap, a.key, leafList, a.ref)
			e.write(st, a.key, a.ref, c.Update(old, a.idx, v.(*Term)))
			return
		}
	case *Term:
		e.nonNil(a, "nil pointer dereference")
		if isStruct(t) {
			e.store(st, "", a, t, v)
			return
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			e.store(st, "", a, t, v)
			return
		}
		if a.isFA() {
			e.store(st, a.name[3:], a.args[0], t, v)
			return
		}
		e.store(st, "cell:"+typeName(t), a, t, v)
		return
	}
	unsupported("store through %T", addr)
}

func (e *Eng) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	c := e.c
	i := e.term(fr, x.Index)
	switch b := e.val(fr, x.X).(type) {
	case *SliceV:
		e.safe(c.And(c.Le(c.Zero, i), c.Lt(i, b.n)), "index in range")
		return e.elemAddr(b.elem, b.arr, c.Add(b.off, i))
	case *Term:
		a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		e.nonNil(b, "nil array")
		e.safe(c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(a.Len()))), "index in range")
		return e.elemAddr(a.Elem(), b, i)
	}
	unsupported("indexing %T", e.val(fr, x.X))
	return nil
}

func (e *Eng) elemAddr(et types.Type, arr, i *Term) Val {
	if isByte(et) {
		return &AddrV{kind: 'b', ref: arr, idx: i, t: et}
	}
	if listElem(et) {
		return &AddrV{kind: 'l', key: listKey(et), ref: arr, idx: i, t: et}
	}
	// the array of this iteration of a loop is as good as a constant one
	here := arr.op == OConst
	if n := len(e.loopK); !here && n == 1 && i.op == OConst {
		bk := bucketOf(arr)
		here = bk != nil && arr == e.c.Add(e.c.Big(bk), e.loopK[0])
	}
	if i.op != OConst || !here {
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			// some string: it can be read, not written
			return &AddrV{kind: 's', ref: arr, idx: i, t: et}
		}
		unsupported("element of []%s", et)
	}
	k := fmt.Sprintf("%d/%d", arr.id, i.id)
	r := e.elRefs[k]
	if r == nil {
		r = e.allocZeroed()
		e.elRefs[k] = r
	}
	if isStruct(et) {
		return r
	}
	return &AddrV{kind: 'c', key: "cell:" + typeName(et), ref: r, t: et}
}

func (e *Eng) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	c := e.c
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(fr, v)
	}
	switch b := e.val(fr, x.X).(type) {
	case *Term:
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			lo, hi := opt(x.Low, c.Zero), opt(x.High, c.Len(b))
			e.safe(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, c.Len(b))), "slice bounds")
			return c.Extract(b, lo, c.Sub(hi, lo))
		}
		a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.Int(a.Len())
		e.nonNil(b, "nil array")
		lo, hi, mx := opt(x.Low, c.Zero), opt(x.High, n), opt(x.Max, n)
		e.safe(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "slice bounds")
		return &SliceV{b, lo, c.Sub(hi, lo), c.Sub(mx, lo), a.Elem()}
	case *SliceV:
		lo, hi, mx := opt(x.Low, c.Zero), opt(x.High, b.n), opt(x.Max, b.cap)
		e.safe(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, b.cap)), "slice bounds")
		if listElem(b.elem) && e.P.spec.elems[strings.TrimPrefix(listKey(b.elem), "A:*")] && !e.quick(c.Le(hi, b.n)) {
			unsupported("slice beyond the length of a pointer list")
		}
		return &SliceV{b.arr, c.Add(b.off, lo), c.Sub(hi, lo), c.Sub(mx, lo), b.elem}
	}
	unsupported("slice of %T", e.val(fr, x.X))
	return nil
}

func (e *Eng) makeIface(fr *Frame, st *State, x *ssa.MakeInterface) Val {
	c := e.c
	v := e.val(fr, x.X)
	t := x.X.Type()
	tag := c.Int(int64(e.P.tagOf(t)))
	switch t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*Term)
		if !ok {
			p = e.toLeaves(t, v)[0]
		}
		if closedImpl(t) {
			e.safe(c.Not(c.Eq(p, c.Zero)), "no nil pointer inside a key interface")
		}
		return &IfaceV{tag, p}
	}
	if isErrorIface(x.Type()) {
		r := e.newRef()
		return &IfaceV{tag, r}
	}
	// boxed value
	r := e.allocZeroed()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(unsup); !ok {
					panic(p)
				}
			}
		}()
		if f, ok := v.(*ClosV); ok {
			_ = f
			return
		}
		e.store(st, "box:"+typeName(t), r, t, v)
	}()
	return &IfaceV{tag, r}
}

func closedImpl(t types.Type) bool {
	n := strings.TrimPrefix(typeName(t), "*")
	for _, v := range closedWorld {
		if v == n {
			return true
		}
	}
	return false
}

func isErrorIface(t types.Type) bool { return typeName(t) == "error" }

func (e *Eng) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, k func(*State, Val)) {
	c := e.c
	iv, ok := e.val(fr, x.X).(*IfaceV)
	if !ok {
		unsupported("type assertion on %T", e.val(fr, x.X))
	}
	if isIface(x.AssertedType) {
		unsupported("assertion to interface %s", x.AssertedType)
	}
	cond := c.Eq(iv.tag, c.Int(int64(e.P.tagOf(x.AssertedType))))
	payload := func(st *State) Val {
		if _, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
			return iv.ref
		}
		return e.load(st, st.heap, "box:"+typeName(x.AssertedType), iv.ref, x.AssertedType)
	}
	if !x.CommaOk {
		e.safe(cond, "type assertion")
		k(st, payload(st))
		return
	}
	if cond == c.T || e.known(cond) {
		k(st, Tuple{payload(st), c.T})
		return
	}
	e.branch(cond, func() { s2 := st.clone(); k(s2, Tuple{payload(s2), c.T}) })
	e.branch(c.Not(cond), func() { k(st.clone(), Tuple{e.zero(x.AssertedType), c.F}) })
}

// ---- operators ------------------------------------------------------------

func (e *Eng) wrap(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	c := e.c
	in := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	if in == c.T || !t.hasBV && e.quick(in) {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bi(1))
	return c.Add(c.Mod(c.Sub(t, c.Big(lo)), c.Big(size)), c.Big(lo))
}

func pow2(b *big.Int) (uint, bool) {
	if b.Sign() <= 0 {
		return 0, false
	}
	n := uint(b.BitLen() - 1)
	return n, new(big.Int).Lsh(bi(1), n).Cmp(b) == 0
}

func (e *Eng) binop(fr *Frame, st *State, op token.Token, xv, yv Val, xt, rt types.Type) Val {
	c := e.c
	switch op {
	case token.EQL:
		return e.valEq(st, xv, yv, xt)
	case token.NEQ:
		return c.Not(e.valEq(st, xv, yv, xt))
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %T", op, xv)
	}
	if x.sort == SSeq {
		switch op {
		case token.ADD:
			return c.Concat(x, y)
		case token.LSS:
			return e.lexlt(x, y)
		case token.GTR:
			return e.lexlt(y, x)
		case token.LEQ:
			return c.Not(e.lexlt(y, x))
		case token.GEQ:
			return c.Not(e.lexlt(x, y))
		}
		unsupported("string operator %s", op)
	}
	switch op {
	case token.ADD:
		return e.wrap(c.Add(x, y), rt)
	case token.SUB:
		return e.wrap(c.Sub(x, y), rt)
	case token.MUL:
		return e.wrap(c.Mul(x, y), rt)
	case token.QUO, token.REM:
		e.safe(c.Not(c.Eq(y, c.Zero)), "division by zero")
		ge := c.And(c.Ge(x, c.Zero), c.Gt(y, c.Zero))
		if ge != c.T && !e.quick(ge) {
			unsupported("signed division")
		}
		if op == token.QUO {
			return c.Div(x, y)
		}
		return c.Mod(x, y)
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Gt(x, y)
	case token.GEQ:
		return c.Ge(x, y)
	case token.LAND:
		return c.And(x, y)
	case token.LOR:
		return c.Or(x, y)
	case token.SHL:
		if y.op == OConst && y.k.Cmp(bi(63)) <= 0 {
			return e.wrap(c.MulK(x, new(big.Int).Lsh(bi(1), uint(y.k.Int64()))), rt)
		}
	case token.SHR:
		if y.op == OConst && y.k.Cmp(bi(63)) <= 0 && x.lo != nil && x.lo.Sign() >= 0 {
			return c.Div(x, c.Big(new(big.Int).Lsh(bi(1), uint(y.k.Int64()))))
		}
	case token.AND, token.OR, token.AND_NOT, token.XOR:
		if op == token.AND && x.op == OConst || op == token.OR && x.op == OConst {
			x, y = y, x
		}
		if x.op == OConst && y.op == OConst {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(x.k, y.k)
			case token.OR:
				r.Or(x.k, y.k)
			case token.AND_NOT:
				r.AndNot(x.k, y.k)
			case token.XOR:
				r.Xor(x.k, y.k)
			}
			return c.Big(r)
		}
		if x.lo != nil && x.lo.Sign() >= 0 && y.op == OConst && y.k.Sign() >= 0 {
			if n, ok := pow2(new(big.Int).Add(y.k, bi(1))); ok {
				_ = n
				m := c.Big(new(big.Int).Add(y.k, bi(1)))
				switch op {
				case token.AND:
					return c.Mod(x, m)
				case token.AND_NOT:
					return c.Sub(x, c.Mod(x, m))
				case token.OR:
					return c.Add(c.Sub(x, c.Mod(x, m)), c.Big(y.k))
				}
			}
			// mask of high bits in range of x: x & ~(2^k-1)
			if op == token.AND && x.hi != nil {
				full := bi(1)
				for full.Cmp(x.hi) <= 0 {
					full.Lsh(full, 1)
				}
				low := new(big.Int).Sub(full, y.k)
				if n, ok := pow2(low); ok {
					_ = n
					return c.Sub(x, c.Mod(x, c.Big(low)))
				}
			}
			// single bit set
			if n, ok := pow2(y.k); ok && op == token.OR {
				b := c.Big(y.k)
				_ = n
				bit := c.Mod(c.Div(x, b), c.Int(2))
				return c.Add(x, c.Sub(b, c.Mul(b, bit)))
			}
		}
		if op == token.OR && disjointBits(x, y) {
			return c.Add(x, y)
		}
		if op == token.XOR && y == x {
			return c.Zero
		}
	}
	if xv, ok := xv.(*Term); ok && xv.sort == SBool {
		switch op {
		case token.AND:
			return c.And(x, y)
		case token.OR:
			return c.Or(x, y)
		}
	}
	lo, hi, ok := intRange(rt)
	if !ok {
		unsupported("operator %s", op)
	}
	if x.id > y.id && (op == token.AND || op == token.OR || op == token.XOR) {
		x, y = y, x
	}
	if op != token.AND_NOT && (op == token.AND || op == token.OR || op == token.XOR) {
		e.assumeOnce(c.Eq(c.AppRange("op:"+op.String(), lo, hi, x, y), c.AppRange("op:"+op.String(), lo, hi, y, x)))
	}
	return c.AppRange("op:"+op.String(), lo, hi, x, y)
}

// disjointBits: x is a multiple of 2^k and 0 <= y < 2^k.
func disjointBits(x, y *Term) bool {
	try := func(x, y *Term) bool {
		if y.lo == nil || y.lo.Sign() < 0 || y.hi == nil {
			return false
		}
		k := uint(y.hi.BitLen())
		m := new(big.Int).Lsh(bi(1), k)
		div := func(b *big.Int) bool { return new(big.Int).Mod(b, m).Sign() == 0 }
		if x.op == OSum {
			if !div(x.k) {
				return false
			}
			for _, co := range x.coefs {
				if !div(co) {
					return false
				}
			}
			return true
		}
		return x.op == OConst && div(x.k)
	}
	return try(x, y) || try(y, x)
}

// lexlt: strict lexicographic order, as an uninterpreted total order.
func (e *Eng) lexlt(a, b *Term) *Term {
	c := e.c
	if a == b {
		return c.F
	}
	if a.op == OLit && b.op == OLit {
		return c.Bool(a.name < b.name)
	}
	if a.id < b.id {
		return c.And(c.Not(c.Eq(a, b)), c.App("LEXLT", SBool, a, b))
	}
	return c.And(c.Not(c.Eq(a, b)), c.Not(c.App("LEXLT", SBool, b, a)))
}

func (e *Eng) valEq(st *State, a, b Val, t types.Type) *Term {
	c := e.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return e.refEq(x, y)
		}
		if y, ok := b.(*ClosV); ok {
			_ = y
			if x == c.Zero {
				return c.F
			}
		}
		if y, ok := b.(*AddrV); ok && x == c.Zero {
			_ = y
			return c.F
		}
	case *ClosV:
		if y, ok := b.(*Term); ok && y == c.Zero {
			return c.F
		}
	case *AddrV:
		if y, ok := b.(*Term); ok && y == c.Zero {
			return c.F
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if y.arr == c.Zero {
				return e.refEq(x.arr, c.Zero)
			}
			if x.arr == c.Zero {
				return e.refEq(y.arr, c.Zero)
			}
			// the same slice (struct values in specifications)
			return c.And(c.Eq(x.n, y.n), c.Or(c.Eq(x.n, c.Zero), c.And(e.refEq(x.arr, y.arr), c.Eq(x.off, y.off))))
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if y.ref == c.Zero || x.ref == c.Zero {
				z := x
				if x.ref == c.Zero {
					z = y
				}
				return e.refEq(z.ref, c.Zero)
			}
			return c.And(c.Eq(x.tag, y.tag), e.refEq(x.ref, y.ref))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			s := x.t.Underlying().(*types.Struct)
			r := c.T
			for i := range x.f {
				r = c.And(r, e.valEq(st, x.f[i], y.f[i], s.Field(i).Type()))
			}
			return r
		}
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (e *Eng) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	c := e.c
	v := e.val(fr, x.X)
	from, to := x.X.Type(), x.Type()
	if _, _, ok := intRange(from); ok {
		if _, _, ok := intRange(to); ok {
			return e.wrap(v.(*Term), to)
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			t := v.(*Term)
			if t.op == OConst && t.k.IsInt64() {
				return c.Lit([]byte(string(rune(t.k.Int64()))))
			}
			return c.App("rune2str", SSeq, t)
		}
	}
	fs, ts := from.Underlying(), to.Underlying()
	if b, ok := fs.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := ts.(*types.Slice); ok && isByte(s.Elem()) {
			return e.bytesSlice(st, v.(*Term))
		}
		if b, ok := ts.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return v
		}
	}
	if s, ok := fs.(*types.Slice); ok && isByte(s.Elem()) {
		if b, ok := ts.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return e.content(st.heap, v.(*SliceV))
		}
	}
	if types.Identical(fs, ts) {
		return v
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

// ---- globals ---------------------------------------------------------------

func (e *Eng) loadGlobal(st *State, a *AddrV, t types.Type) Val {
	c := e.c
	g := e.P.globByKey(a.key)
	if g == nil {
		// a global of another package (rand.Reader, base64.StdEncoding, ...)
		if isIface(t) {
			return &IfaceV{c.Int(int64(e.P.externTag(a.key))), a.ref}
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return a.ref
		}
		unsupported("external variable %s", a.key)
	}
	if !e.P.constG[g] {
		e.notes["variable "+a.key[5:]+" treated as unknown"] = true
		return e.symbolicGlobal(st, a, t)
	}
	return e.initValue(st, g, t)
}

func (e *Eng) symbolicGlobal(st *State, a *AddrV, t types.Type) Val {
	if isErrorIface(t) {
		return &IfaceV{e.c.Int(int64(e.P.externTag("error"))), a.ref}
	}
	return e.symbolic(st, a.key, t, true)
}

// initValue evaluates the initialiser of a constant package variable.
func (e *Eng) initValue(st *State, g *ssa.Global, t types.Type) Val {
	c := e.c
	id := int64(e.P.globID[g])
	ref := c.Int(globBase + 1000 + id)
	lit, kind := e.P.initLit(g)
	switch kind {
	case "bytes":
		e.globRead[ref] = c.Lit([]byte(lit))
		n := c.Int(int64(len(lit)))
		return &SliceV{ref, c.Zero, n, n, types.Typ[types.Uint8]}
	case "error":
		return &IfaceV{c.Int(int64(e.P.externTag("error"))), ref}
	case "func":
		return c.Int(int64(e.P.externID(lit)))
	}
	e.notes["variable "+g.String()+" treated as unknown"] = true
	return e.symbolic(st, g.String(), t, true)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- numbering of things outside the repository ---------------------------------

func (P *Program) externID(n string) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	if id, ok := P.ext[n]; ok {
		return id
	}
	id := 1<<19 + len(P.ext) + 1
	P.ext[n] = id
	P.extName[id] = n
	return id
}

func (P *Program) externName(id int) string {
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.extName[id]
}

func (P *Program) externTag(n string) int { return P.externID("tag " + n) }

func (P *Program) globByKey(k string) *ssa.Global {
	k = strings.TrimPrefix(k, "glob:")
	for g := range P.globID {
		if g.String() == k {
			return g
		}
	}
	return nil
}

// initLit recognises simple initialisers: byte slices, errors.New, functions.
func (P *Program) initLit(g *ssa.Global) (string, string) {
	init := g.Pkg.Func("init")
	if init == nil {
		return "", ""
	}
	var stores []*ssa.Store
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				stores = append(stores, s)
			}
		}
	}
	if len(stores) != 1 {
		return "", ""
	}
	switch v := stores[0].Val.(type) {
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return "", ""
		}
		n, ok := byteArray(al.Type().Underlying().(*types.Pointer).Elem())
		if !ok {
			return "", ""
		}
		buf := make([]byte, n)
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.IndexAddr:
				ix, ok := x.Index.(*ssa.Const)
				if !ok {
					return "", ""
				}
				for _, r2 := range *x.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok {
						return "", ""
					}
					cv, ok := s.Val.(*ssa.Const)
					if !ok {
						return "", ""
					}
					buf[ix.Int64()] = byte(cv.Int64())
				}
			case *ssa.Slice:
			default:
				return "", ""
			}
		}
		return string(buf), "bytes"
	case *ssa.Convert:
		if cv, ok := v.X.(*ssa.Const); ok && cv.Value != nil && cv.Value.Kind() == constant.String {
			return constant.StringVal(cv.Value), "bytes"
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
			return "", "error"
		}
	case *ssa.MakeClosure:
		return "method " + v.Fn.Name(), "func"
	case *ssa.Function:
		return funcName(v), "func"
	}
	return "", ""
}

// afterGo: what the parent of a goroutine does after starting it that the
// goroutine could observe, or that could observe the goroutine ("" for nothing).
func afterGo(g *ssa.Go) string {
	bad := func(ins []ssa.Instruction) string {
		for _, in := range ins {
			switch x := in.(type) {
			case *ssa.Return, *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.RunDefers, *ssa.MakeInterface, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType:
			case *ssa.Alloc, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi:
			case *ssa.Store:
				a := x.Addr
				for {
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if al, ok := a.(*ssa.Alloc); !ok || al.Comment != "varargs" {
					return in.String()
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(funcName(f), "logger.") {
					continue
				}
				return in.String()
			default:
				return in.String()
			}
		}
		return ""
	}
	b := g.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(g) {
			if w := bad(b.Instrs[i+1:]); w != "" {
				return w
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) string
	walk = func(b *ssa.BasicBlock) string {
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if w := bad(s.Instrs); w != "" {
				return w
			}
			if w := walk(s); w != "" {
				return w
			}
		}
		return ""
	}
	return walk(b)
}
