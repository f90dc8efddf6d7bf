package main

// Contracts of the arithmetic back end: what the clauses of an "arith"
// contract mean, how they are assumed at calls and how they are proved.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type aenv struct {
	vars map[string]AVal
	old  map[string]AVal
	mac  map[string]abind
}

type abind struct {
	x   ast.Expr
	env *aenv
}

func (e *aenv) oldEnv() *aenv { return &aenv{vars: e.old, old: e.old, mac: e.mac} }

func callName(x ast.Expr) (string, []ast.Expr) {
	c, ok := x.(*ast.CallExpr)
	if !ok {
		return "", nil
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		return "", nil
	}
	return id.Name, c.Args
}

func (a *arith) unmac(x ast.Expr, env *aenv) (ast.Expr, *aenv) {
	for {
		if p, ok := x.(*ast.ParenExpr); ok {
			x = p.X
			continue
		}
		if id, ok := x.(*ast.Ident); ok {
			if b, ok := env.mac[id.Name]; ok {
				x, env = b.x, b.env
				continue
			}
		}
		n, args := callName(x)
		m := a.P.spec.macros[n]
		if m == nil || n == "" {
			return x, env
		}
		e := &aenv{vars: env.vars, old: env.old, mac: map[string]abind{}}
		for i, p := range m.params {
			e.mac[p] = abind{args[i], env}
		}
		x, env = m.body, e
	}
}

// loc is the memory a clause speaks of.
func (a *arith) loc(x ast.Expr, env *aenv) *anode {
	x, env = a.unmac(x, env)
	switch x := x.(type) {
	case *ast.StarExpr:
		return a.loc(x.X, env)
	case *ast.Ident:
		switch v := env.vars[x.Name].(type) {
		case *aptr:
			return v.n
		case *anode:
			return v
		}
	case *ast.SelectorExpr:
		n := a.loc(x.X, env)
		if n == nil {
			return nil
		}
		if x.Sel.Name == "all" {
			return n
		}
		if st, ok := n.t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x.Sel.Name {
					return n.kids[i]
				}
			}
		}
	case *ast.CallExpr:
		if n, args := callName(x); n == "old" {
			return a.loc(args[0], env.oldEnv())
		}
	}
	return nil
}

func (a *arith) fv(n *anode) Poly {
	for p := n.parent; p != nil; p = p.parent {
		a.open(p)
	}
	if n.abs != nil {
		if n.abs.kind != "fe" {
			unsupported("I_FV of %s", n.abs.kind)
		}
		return n.abs.val
	}
	if len(n.kids) != 10 {
		unsupported("I_FV")
	}
	s := Poly{}
	for i, k := range n.kids {
		s = paddm(s, k.v.(*aint).p, feWeight[i])
	}
	return a.norm(s, feP)
}

func (a *arith) bytesOf(n *anode) []*aint {
	for p := n; p != nil; p = p.parent {
		a.open(p)
	}
	var r []*aint
	for _, k := range n.kids {
		v, ok := k.v.(*aint)
		if !ok {
			unsupported("bytes")
		}
		r = append(r, v)
	}
	return r
}

func le(bs []*aint) Poly {
	s := Poly{}
	for i, v := range bs {
		s = paddm(s, v.p, bpow(uint(8*i)))
	}
	return s
}

// sint is an integer term: a literal, an integer parameter, a field value.
func (a *arith) sint(x ast.Expr, env *aenv) *aint {
	x, env = a.unmac(x, env)
	switch x := x.(type) {
	case *ast.BasicLit:
		c, ok := new(big.Int).SetString(x.Value, 0)
		if ok {
			return a.cst(c)
		}
	case *ast.UnaryExpr:
		if x.Op == token.SUB {
			v := a.sint(x.X, env)
			return a.mk(pscale(v.p, big.NewInt(-1)), v.iv.neg())
		}
	case *ast.Ident:
		if v, ok := env.vars[x.Name].(*aint); ok {
			return v
		}
	case *ast.BinaryExpr:
		p, q := a.sint(x.X, env), a.sint(x.Y, env)
		switch x.Op {
		case token.ADD:
			return a.mk(padd(p.p, q.p), p.iv.add(q.iv))
		case token.SUB:
			return a.mk(psub(p.p, q.p), p.iv.add(q.iv.neg()))
		case token.MUL:
			return a.mk(pmul(p.p, q.p), p.iv.mul(q.iv))
		case token.AND, token.OR, token.XOR:
			if r, ok := a.binop(x.Op, p, q, types.Typ[types.Uint8]).(*aint); ok {
				return r
			}
		}
	case *ast.CallExpr:
		n, args := callName(x)
		switch n {
		case "nth":
			bs := a.sseq(args[0], env)
			k, ok := a.sint(args[1], env).p.isConst()
			if ok && k.IsInt64() && k.Int64() < int64(len(bs)) && k.Sign() >= 0 {
				return bs[k.Int64()]
			}
		case "I_POW2":
			k, ok := a.sint(args[0], env).p.isConst()
			if ok && k.IsInt64() && k.Int64() < 4096 && k.Sign() >= 0 {
				return a.cst(bpow(uint(k.Int64())))
			}
		case "I_LE":
			p := le(a.sseq(args[0], env))
			return &aint{p, a.polyIval(p)}
		case "old":
			return a.sint(args[0], env.oldEnv())
		case "I_SC":
			h := bpow(600)
			return &aint{a.scalar(args, env), ival{new(big.Int).Neg(h), h}}
		}
	}
	unsupported("integer term %s", exprStr(x))
	return nil
}

func (a *arith) scalar(args []ast.Expr, env *aenv) Poly {
	n := a.structOf(args, env)
	if n == nil {
		unsupported("I_SC")
	}
	if n.abs != nil && n.abs.kind == "pt" {
		return n.abs.val
	}
	if n.sc != nil {
		return n.sc
	}
	unsupported("a point that is not known as a multiple of the base point")
	return nil
}

// structOf is the struct whose fields are listed.
func (a *arith) structOf(args []ast.Expr, env *aenv) *anode {
	var s *anode
	for _, x := range args {
		y, e := a.unmac(x, env)
		if n, as := callName(y); n == "old" {
			y, e = a.unmac(as[0], e.oldEnv())
		}
		sel, ok := y.(*ast.SelectorExpr)
		if !ok {
			return nil
		}
		n := a.loc(sel.X, e)
		if n == nil || s != nil && s != n {
			return nil
		}
		s = n
	}
	return s
}

// sfield is a term of the field, modulo p.
func (a *arith) sfield(x ast.Expr, env *aenv) Poly {
	x, env = a.unmac(x, env)
	if b, ok := x.(*ast.BasicLit); ok {
		c, ok := new(big.Int).SetString(b.Value, 0)
		if ok {
			return pconst(modP(c))
		}
	}
	n, args := callName(x)
	var p, q Poly
	switch n {
	case "I_FADD", "I_FSUB", "I_FMUL":
		p, q = a.sfield(args[0], env), a.sfield(args[1], env)
	}
	switch n {
	case "old":
		return a.sfield(args[0], env.oldEnv())
	case "I_FADD":
		return pmod(padd(p, q), feP)
	case "I_FSUB":
		return pmod(psub(p, q), feP)
	case "I_FMUL":
		return a.norm(pmul(p, q), feP)
	case "I_FINV":
		return a.finv(a.sfield(args[0], env))
	case "I_FV":
		if len(args) == 1 {
			return a.fv(a.need(args[0], env))
		}
	case "I_LE255":
		bs := append([]*aint(nil), a.sseq(args[0], env)...)
		bs[31] = a.mod2(bs[31], 7)
		return a.norm(le(bs), feP)
	}
	unsupported("field term %s", exprStr(x))
	return nil
}

func (a *arith) need(x ast.Expr, env *aenv) *anode {
	n := a.loc(x, env)
	if n == nil {
		unsupported("location %s", exprStr(x))
	}
	return n
}

// finv is e^(p-2).
func (a *arith) finv(e Poly) Poly {
	e = a.norm(e, feP)
	if len(e) <= 1 {
		return a.norm(a.power(e, new(big.Int).Sub(feP, big.NewInt(2))), feP)
	}
	return a.fieldAtom("inv:"+e.key(), false)
}

// sseq is a byte string.
func (a *arith) sseq(x ast.Expr, env *aenv) []*aint {
	x, env = a.unmac(x, env)
	switch x := x.(type) {
	case *ast.SliceExpr:
		bs := a.sseq(x.X, env)
		lo, hi := 0, len(bs)
		if x.Low != nil {
			c, _ := a.sint(x.Low, env).p.isConst()
			lo = int(c.Int64())
		}
		if x.High != nil {
			c, _ := a.sint(x.High, env).p.isConst()
			hi = int(c.Int64())
		}
		return bs[lo:hi]
	case *ast.CallExpr:
		n, args := callName(x)
		switch n {
		case "cat":
			var r []*aint
			for _, y := range args {
				r = append(r, a.sseq(y, env)...)
			}
			return r
		case "unit":
			return []*aint{a.sint(args[0], env)}
		case "old":
			return a.sseq(args[0], env.oldEnv())
		case "FENC":
			return a.bytesOf(a.enc(a.sfield(args[0], env)))
		case "EDENC":
			// y with the lowest bit of x on top
			g := a.affineOf(a.sint(args[0], env).p)
			one := pconst(bigOne)
			if len(psub(g.dx, one)) != 0 || len(psub(g.dy, one)) != 0 {
				unsupported("EDENC of a sum")
			}
			bs := append([]*aint(nil), a.bytesOf(a.enc(g.ny))...)
			l := a.mod2(a.bytesOf(a.enc(g.nx))[0], 1)
			bs[31] = a.mk(paddm(bs[31].p, l.p, big.NewInt(128)), ival{bigZero, big.NewInt(255)})
			return bs
		}
	}
	if n := a.loc(x, env); n != nil && isBytes(n.t) {
		return a.bytesOf(n)
	}
	unsupported("byte string %s", exprStr(x))
	return nil
}

// enc is the canonical encoding of a field value.
func (a *arith) enc(v Poly) *anode {
	n := a.newNode(types.NewArray(types.Typ[types.Uint8], 32), nil)
	n.abs = &aabs{kind: "bytes", val: v}
	return n
}

// sbool: 1 true, -1 false, 0 not known.
func (a *arith) sbool(x ast.Expr, env *aenv) int {
	x, env = a.unmac(x, env)
	switch x := x.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return -a.sbool(x.X, env)
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND, token.LOR:
			p, q := a.sbool(x.X, env), a.sbool(x.Y, env)
			if x.Op == token.LOR {
				p, q = -p, -q
			}
			r := 0
			if p == -1 || q == -1 {
				r = -1
			} else if p == 1 && q == 1 {
				r = 1
			}
			if x.Op == token.LOR {
				r = -r
			}
			return r
		case token.LEQ, token.LSS, token.GEQ, token.GTR:
			p, q := a.sint(x.X, env), a.sint(x.Y, env)
			op := x.Op
			if op == token.GEQ || op == token.GTR {
				p, q = q, p
				op = map[token.Token]token.Token{token.GEQ: token.LEQ, token.GTR: token.LSS}[op]
			}
			d := p.iv.add(q.iv.neg())
			if op == token.LSS {
				d = d.add(ival{bigOne, bigOne})
			}
			if d.hi.Sign() <= 0 {
				return 1
			}
			if d.lo.Sign() > 0 {
				return -1
			}
			return 0
		}
	case *ast.CallExpr:
		n, args := callName(x)
		switch n {
		case "B_LIM":
			node := a.need(args[0], env)
			k, _ := a.sint(args[1], env).p.isConst()
			if a.lim(node) <= int(k.Int64()) {
				return 1
			}
			return -1
		case "B_EXT", "B_CMP", "B_PROJ", "B_PRE":
			node := a.structOf(args, env)
			if node == nil {
				break
			}
			if node.abs != nil && node.abs.kind == "pt" && node.abs.rep == n || node.sc != nil && node.rep == n {
				return 1
			}
			return 0
		}
	}
	unsupported("condition %s", exprStr(x))
	return 0
}

// lim is the bound on the limbs.
func (a *arith) lim(n *anode) int {
	for p := n.parent; p != nil; p = p.parent {
		a.open(p)
	}
	if n.abs != nil {
		if n.abs.lim == 0 {
			return 99
		}
		return n.abs.lim
	}
	for l := 1; l <= 4; l++ {
		ok := true
		for i, k := range n.kids {
			h := limIval(i, l)
			if !k.v.(*aint).iv.within(h.lo, h.hi) {
				ok = false
				break
			}
		}
		if ok {
			return l
		}
	}
	return 99
}

// ---- calls by contract ----

func (a *arith) freshAbs(kind string, v Poly, lim int) *aabs {
	a.ids++
	return &aabs{kind: kind, val: v, lim: lim, id: a.ids}
}

func conjuncts(x ast.Expr) []ast.Expr {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return conjuncts(y.X)
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			return append(conjuncts(y.X), conjuncts(y.Y)...)
		}
	}
	return []ast.Expr{x}
}

func (con *Contract) applicable(a *arith, env *aenv) []Clause {
	es := append([]Clause(nil), con.body.ensures...)
	for _, c := range con.cases {
		g, e := a.unmac(c.guard.expr, env)
		if a.sbool(g, e) == 1 {
			es = append(es, c.ensures...)
		}
	}
	return es
}

func (a *arith) mods(con *Contract, env *aenv) map[*anode]bool {
	m := map[*anode]bool{}
	for _, c := range con.body.modifies {
		if exprStr(c.expr) == "nothing" {
			continue
		}
		m[a.need(c.expr, env)] = true
	}
	return m
}

func (a *arith) apply(con *Contract, f *ssa.Function, args []AVal) []AVal {
	env := &aenv{vars: map[string]AVal{}, old: map[string]AVal{}}
	seen := map[*anode]*anode{}
	for i, n := range con.params {
		if args[i] == nil {
			unsupported("nil argument of %s", con.name)
		}
		env.vars[n] = args[i]
		env.old[n] = args[i]
		if p, ok := args[i].(*aptr); ok {
			for q := p.n.parent; q != nil; q = q.parent {
				a.open(q)
			}
			if seen[p.n] == nil {
				seen[p.n] = p.n.copy(nil)
			}
			env.old[n] = &aptr{seen[p.n]}
		}
	}
	// overlapping but different arguments
	for p := range seen {
		for q := p.parent; q != nil; q = q.parent {
			if seen[q] != nil {
				unsupported("arguments of %s overlap", con.name)
			}
		}
	}
	for _, c := range con.requires {
		ok := a.sbool(c.expr, env) == 1
		a.obl("requires "+con.name, "requires", c.text, ok, "the precondition does not follow")
		if !ok {
			unsupported("the precondition %s of %s does not follow", c.text, con.name)
		}
	}
	es := con.applicable(a, env)
	for n := range a.mods(con, env) {
		for q := n; q != nil; q = q.parent {
			if q.frozen && !a.initing {
				unsupported("a package variable is written")
			}
		}
		a.reach(n)
		a.havoc(n)
	}
	var res AVal
	type fact struct {
		val Poly
		lim int
	}
	fes := map[*anode]*fact{}
	get := func(n *anode) *fact {
		if fes[n] == nil {
			fes[n] = &fact{}
		}
		return fes[n]
	}
	reps, scs := map[*anode]string{}, map[*anode]Poly{}
	top := env
	for _, c := range es {
		y, env := a.unmac(c.expr, top)
		for _, x := range conjuncts(y) {
			x, env := a.unmac(x, env)
			if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.EQL {
				lx, env1 := a.unmac(b.X, env)
				n, as := callName(lx)
				switch {
				case n == "I_FV":
					get(a.need(as[0], env1)).val = a.sfield(b.Y, env)
					continue
				case n == "I_SC":
					s := a.structOf(as, env1)
					if s == nil {
						unsupported("I_SC")
					}
					scs[s] = a.sint(b.Y, env).p
					continue
				}
				if id, ok := b.X.(*ast.Ident); ok && len(con.results) == 1 && con.results[0] == id.Name {
					res = a.sint(b.Y, env)
					continue
				}
				if l := a.loc(b.X, env); l != nil && isBytes(l.t) {
					if n, as := callName(b.Y); n == "FENC" {
						l.abs = a.freshAbs("bytes", a.sfield(as[0], env), 0)
						continue
					}
					if n, _ := callName(b.Y); n == "SCRED" || n == "SCMULADD" {
						continue // nothing is known of the value
					}
					bs := a.sseq(b.Y, env)
					for i, k := range l.kids {
						k.v = bs[i]
					}
					continue
				}
			}
			n, as := callName(x)
			switch n {
			case "B_LIM":
				k, _ := a.sint(as[1], env).p.isConst()
				get(a.need(as[0], env)).lim = int(k.Int64())
				continue
			case "B_EXT", "B_CMP", "B_PROJ", "B_PRE":
				s := a.structOf(as, env)
				if s == nil {
					unsupported("%s", n)
				}
				reps[s] = n
				continue
			}
			unsupported("the clause %s of %s", c.text, con.name)
		}
	}
	for n, f := range fes {
		v := f.val
		if v == nil {
			a.ids++
			v = a.fieldAtom(fmt.Sprint("any", a.ids), false)
		}
		n.abs = a.freshAbs("fe", v, f.lim)
	}
	for n, r := range reps {
		sc := scs[n]
		if sc == nil {
			a.ids++
			sc = a.fieldAtom(fmt.Sprint("anysc", a.ids), false)
		}
		n.abs = a.freshAbs("pt", sc, 0)
		n.abs.rep = r
	}
	if len(con.results) == 0 {
		return nil
	}
	if len(con.results) > 1 || res == nil {
		unsupported("results of %s", con.name)
	}
	return []AVal{res}
}

func (a *arith) havoc(n *anode) {
	n.abs, n.sc = nil, nil
	if n.kids != nil {
		for _, k := range n.kids {
			a.havoc(k)
		}
		return
	}
	bits, signed, ok := intBits(n.t)
	if !ok {
		unsupported("unknown contents of %v", n.t)
	}
	a.ids++
	t := typeIval(bits, signed)
	n.v = a.input(fmt.Sprint("any", a.ids), t.lo, t.hi)
}

// ---- verification ----

func verifyArith(P *Program, con *Contract) *FuncResult {
	t0 := time.Now()
	res := &FuncResult{Name: con.name}
	f := P.funcs[con.name]
	if f == nil {
		res.Status, res.Msg = "missing", "no such function in the current source"
		return res
	}
	a := newArith(P, con)
	res.Status, res.Msg = a.verify(f)
	bad := map[string]int{}
	for _, o := range a.obls {
		if !o.OK && res.Status != "undecided" {
			res.Status = "failed"
		}
		if !o.OK {
			bad[o.Name]++
			if bad[o.Name] > 3 {
				continue
			}
		}
		res.Obls = append(res.Obls, o)
	}
	res.Seconds, res.Solver, res.Paths = time.Since(t0).Seconds(), a.solver, a.runs
	res.Used, res.Inlined, res.Trusted = sortedKeys(a.used), sortedKeys(a.inlined), sortedKeys(a.trust)
	return res
}

func (a *arith) verify(f *ssa.Function) (status, msg string) {
	defer func() {
		if p := recover(); p != nil {
			status = "undecided"
			if u, ok := p.(unsup); ok {
				msg = u.msg + " [" + a.site + "] " + a.tag
				for _, o := range a.obls {
					if !o.OK {
						status = "failed"
					}
				}
			} else {
				if os.Getenv("GOVER_STACK") != "" {
					panic(p)
				}
				msg = fmt.Sprint("internal: ", p, " [", a.site, "] ", a.tag)
			}
		}
	}()
	if len(a.con.params) != len(f.Params) {
		unsupported("the parameters have changed")
	}
	a.initing = true
	if ini := f.Pkg.Func("init"); ini != nil {
		a.exec(ini, nil, 0)
	}
	a.initing = false
	a.checkGlobals(f.Pkg)

	// integer parameters with a bounded range are enumerated
	type rng struct{ lo, hi int64 }
	ranges := map[int]rng{}
	for i, p := range f.Params {
		if _, _, ok := intBits(p.Type()); !ok {
			continue
		}
		r := rng{1 << 40, -1 << 40}
		okl, okh := false, false
		for _, c := range a.con.requires {
			for _, x := range conjuncts(c.expr) {
				b, ok := x.(*ast.BinaryExpr)
				if !ok || b.Op != token.LEQ {
					continue
				}
				env := &aenv{}
				if id, ok := b.Y.(*ast.Ident); ok && id.Name == a.con.params[i] {
					c, _ := a.sint(b.X, env).p.isConst()
					r.lo, okl = c.Int64(), true
				}
				if id, ok := b.X.(*ast.Ident); ok && id.Name == a.con.params[i] {
					c, _ := a.sint(b.Y, env).p.isConst()
					r.hi, okh = c.Int64(), true
				}
			}
		}
		if okl && okh && r.hi-r.lo < 4096 {
			ranges[i] = r
		}
	}
	// alias partitions of the pointer parameters
	var parts [][]int
	var rec func(i int, p []int)
	rec = func(i int, p []int) {
		if i == len(f.Params) {
			parts = append(parts, append([]int(nil), p...))
			return
		}
		rec(i+1, append(p, i))
		if _, ok := f.Params[i].Type().(*types.Pointer); !ok {
			return
		}
		for j := 0; j < i; j++ {
			if p[j] == j && types.Identical(f.Params[i].Type(), f.Params[j].Type()) {
				rec(i+1, append(append([]int(nil), p...), j))
			}
		}
	}
	rec(0, nil)
	vals := [][]int64{nil}
	for i := range f.Params {
		r, ok := ranges[i]
		var n [][]int64
		for _, v := range vals {
			if !ok {
				n = append(n, append(append([]int64(nil), v...), 0))
				continue
			}
			for k := r.lo; k <= r.hi; k++ {
				n = append(n, append(append([]int64(nil), v...), k))
			}
		}
		vals = n
	}
	// byte restrictions out of case guards
	restr := []map[string]ival{{}}
	for _, c := range a.con.cases {
		if r := byteGuard(c.guard.expr); r != nil {
			if len(restr[0]) == 0 {
				restr = nil
			}
			restr = append(restr, r)
		}
	}
	for _, part := range parts {
		for _, r := range restr {
			for _, v := range vals {
				if !a.run(f, part, v, ranges2(len(f.Params), func(i int) bool { _, k := ranges[i]; return k }), r) {
					a.compact()
					return "failed", ""
				}
				if len(a.obls) > 400 {
					a.compact()
				}
			}
		}
	}
	a.compact()
	return "proved", ""
}

func ranges2(n int, f func(int) bool) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

// compact joins the discharged obligations of the same clause.
func (a *arith) compact() {
	var out []*Obl
	seen := map[string]bool{}
	for _, o := range a.obls {
		if o.OK {
			if seen[o.Name+"\x00"+o.Text] {
				continue
			}
			seen[o.Name+"\x00"+o.Text] = true
		}
		out = append(out, o)
	}
	a.obls = out
}

// byteGuard: nth(*a, 31) <= 127 and the like.
func byteGuard(x ast.Expr) map[string]ival {
	b, ok := x.(*ast.BinaryExpr)
	if !ok {
		return nil
	}
	n, args := callName(b.X)
	if n != "nth" {
		return nil
	}
	st, ok := args[0].(*ast.StarExpr)
	if !ok {
		return nil
	}
	lit, ok := b.Y.(*ast.BasicLit)
	k, ok2 := new(big.Int).SetString(lit.Value, 0)
	if !ok || !ok2 {
		return nil
	}
	iv := ival{bigZero, big.NewInt(255)}
	switch b.Op {
	case token.LEQ:
		iv.hi = k
	case token.GEQ:
		iv.lo = k
	default:
		return nil
	}
	return map[string]ival{exprStr(st.X) + "[" + exprStr(args[1]) + "]": iv}
}

func (a *arith) checkGlobals(pkg *ssa.Package) {
	for n, f := range a.P.funcs {
		if f.Pkg == nil || f.Name() == "init" || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				x := st.Addr
				for {
					if y, ok := x.(*ssa.IndexAddr); ok {
						x = y.X
					} else if y, ok := x.(*ssa.FieldAddr); ok {
						x = y.X
					} else {
						break
					}
				}
				if g, ok := x.(*ssa.Global); ok && g.Pkg == pkg {
					unsupported("%s writes the package variable %s", n, g.Name())
				}
			}
		}
	}
}

// reset forgets everything about the last run.
func (a *arith) reset() {
	a.atoms, a.keys, a.hints, a.curve = nil, map[string]int{}, map[string]ival{}, nil
	a.points = map[int]*gval{}
}

func (a *arith) run(f *ssa.Function, part []int, vals []int64, isEnum []bool, restr map[string]ival) bool {
	a.reset()
	a.runs++
	a.restr = restr
	n0 := len(a.obls)
	var tags []string
	env := &aenv{vars: map[string]AVal{}, old: map[string]AVal{}}
	var args []AVal
	var nodes []*anode
	for i, p := range f.Params {
		name := a.con.params[i]
		var v AVal
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if part[i] != i {
				v = args[part[i]]
				tags = append(tags, name+" is "+a.con.params[part[i]])
				nodes = append(nodes, nil)
			} else {
				n := a.newNode(t.Elem(), nil)
				a.fill(n, name)
				v = &aptr{n}
				nodes = append(nodes, n)
			}
		default:
			bits, signed, ok := intBits(p.Type())
			if !ok {
				unsupported("parameter %s", name)
			}
			if isEnum[i] {
				v = a.cst(big.NewInt(vals[i]))
				tags = append(tags, fmt.Sprintf("%s = %d", name, vals[i]))
			} else {
				ti := typeIval(bits, signed)
				v = a.input(name, ti.lo, ti.hi)
			}
			nodes = append(nodes, nil)
		}
		args = append(args, v)
		env.vars[name] = v
	}
	for k, r := range restr {
		tags = append(tags, k+" in "+r.String())
	}
	a.tag = strings.Join(tags, ", ")
	// preconditions build the parameters
	for _, c := range a.con.requires {
		for _, x := range conjuncts(c.expr) {
			a.assume(x, env)
		}
	}
	// snapshot
	olds := map[*anode]*anode{}
	for name, v := range env.vars {
		env.old[name] = v
		if p, ok := v.(*aptr); ok {
			if olds[p.n] == nil {
				olds[p.n] = p.n.copy(nil)
			}
			env.old[name] = &aptr{olds[p.n]}
		}
	}
	rs := a.exec(f, args, 0)
	for i, r := range a.con.results {
		env.vars[r] = rs[i]
	}
	oldenv := &aenv{vars: env.old, old: env.old}
	for _, c := range a.con.applicable2(a, oldenv) {
		for _, x := range conjuncts(c.expr) {
			a.prove(c, x, env)
		}
	}
	// frame
	mod := a.mods(a.con, env)
	for i, n := range nodes {
		if n == nil || mod[n] {
			continue
		}
		ok := a.same(n, olds[n], mod)
		a.obl("frame", "frame", a.con.params[i]+" is left as it was", ok, "the parameter is changed")
	}
	for _, o := range a.obls[n0:] {
		if !o.OK {
			return false
		}
	}
	return true
}

// applicable2 looks at the guards in the state before.
func (con *Contract) applicable2(a *arith, old *aenv) []Clause { return con.applicable(a, old) }

func (a *arith) same(n, o *anode, mod map[*anode]bool) bool {
	if mod[n] {
		return true
	}
	if n.abs != nil && o.abs != nil {
		return n.abs.id == o.abs.id
	}
	a.open(n)
	a.open(o)
	if n.kids != nil {
		for i := range n.kids {
			if !a.same(n.kids[i], o.kids[i], mod) {
				return false
			}
		}
		return true
	}
	p, ok1 := n.v.(*aint)
	q, ok2 := o.v.(*aint)
	return ok1 && ok2 && len(a.norm(psub(p.p, q.p), nil)) == 0
}

// fill gives a parameter unknown contents.
func (a *arith) fill(n *anode, name string) {
	if isFE(n.t) {
		// unbounded limbs of an unknown element
		for i, k := range n.kids {
			ti := typeIval(32, true)
			k.v = a.input(fmt.Sprintf("%s[%d]", name, i), ti.lo, ti.hi)
		}
		return
	}
	switch u := n.t.Underlying().(type) {
	case *types.Struct:
		for i, k := range n.kids {
			a.fill(k, name+"."+u.Field(i).Name())
		}
	case *types.Array:
		for i, k := range n.kids {
			a.fill(k, fmt.Sprintf("%s[%d]", name, i))
		}
	default:
		bits, signed, ok := intBits(n.t)
		if !ok {
			unsupported("parameter of type %v", n.t)
		}
		ti := typeIval(bits, signed)
		n.v = a.input(name, ti.lo, ti.hi)
	}
}

func maxLim(a *arith, x ast.Expr, env *aenv, node **anode) int {
	x, env = a.unmac(x, env)
	if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.LOR {
		k, l := maxLim(a, b.X, env, node), maxLim(a, b.Y, env, node)
		if k < 0 || l < 0 {
			return -1
		}
		if l > k {
			return l
		}
		return k
	}
	n, args := callName(x)
	if n != "B_LIM" {
		return -1
	}
	l := a.need(args[0], env)
	if *node != nil && *node != l {
		return -1
	}
	*node = l
	k, _ := a.sint(args[1], env).p.isConst()
	return int(k.Int64())
}

// assume makes a precondition true of the parameters.
func (a *arith) assume(x ast.Expr, env *aenv) {
	x, env = a.unmac(x, env)
	if cs := conjuncts(x); len(cs) > 1 {
		for _, c := range cs {
			a.assume(c, env)
		}
		return
	}
	var node *anode
	if k := maxLim(a, x, env, &node); k > 0 {
		if node.abs != nil {
			if node.abs.lim > k {
				node.abs.lim = k
			}
			return
		}
		a.ids++
		node.abs = a.freshAbs("fe", a.fieldAtom(fmt.Sprint("e", a.ids), false), k)
		return
	}
	n, args := callName(x)
	switch n {
	case "B_EXT", "B_CMP", "B_PROJ", "B_PRE":
		s := a.structOf(args, env)
		if s == nil {
			unsupported("%s", n)
		}
		a.buildPoint(s, n)
		return
	}
	if a.sbool(x, env) != 1 {
		unsupported("the precondition %s", exprStr(x))
	}
}

func (a *arith) buildPoint(s *anode, rep string) {
	a.ids++
	id := fmt.Sprint(a.ids)
	x, y := a.fieldAtom("x"+id, false), a.fieldAtom("y"+id, false)
	a.curve = append(a.curve, [2]int{a.keys["f:x"+id], a.keys["f:y"+id]})
	sc := a.fieldAtom("sc"+id, false)
	a.points[a.keys["f:sc"+id]] = &gval{x, pconst(bigOne), y, pconst(bigOne)}
	set := func(i int, v Poly, lim int) { s.kids[i].abs = a.freshAbs("fe", pmod(v, feP), lim) }
	switch rep {
	case "B_EXT":
		z := a.fieldAtom("z"+id, true)
		set(0, pmul(x, z), 1)
		set(1, pmul(y, z), 1)
		set(2, z, 1)
		set(3, pmul(pmul(x, y), z), 1)
	case "B_PROJ":
		z := a.fieldAtom("z"+id, true)
		set(0, pmul(x, z), 1)
		set(1, pmul(y, z), 1)
		set(2, z, 1)
	case "B_CMP":
		z, t := a.fieldAtom("z"+id, true), a.fieldAtom("t"+id, true)
		set(0, pmul(x, z), 3)
		set(1, pmul(y, t), 3)
		set(2, z, 3)
		set(3, t, 3)
	case "B_PRE":
		set(0, padd(y, x), 1)
		set(1, psub(y, x), 1)
		set(2, pscale(pmul(x, y), new(big.Int).Mul(big.NewInt(2), edD)), 1)
	}
	s.sc, s.rep = sc, rep
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// prove checks one conjunct of a postcondition.
func (a *arith) prove(c Clause, x ast.Expr, env *aenv) {
	y, e := a.unmac(x, env)
	if cs := conjuncts(y); len(cs) > 1 {
		for _, z := range cs {
			a.prove(c, z, e)
		}
		return
	}
	done := func(ok bool, detail string) { a.obl("ensures", "ensures", exprStr(x), ok, short(detail)) }
	if b, ok := y.(*ast.BinaryExpr); ok && b.Op == token.EQL {
		lx, e1 := a.unmac(b.X, e)
		n, args := callName(lx)
		switch n {
		case "I_FV":
			l, r := a.fv(a.need(args[0], e1)), a.sfield(b.Y, e)
			ok, why := a.congruent(l, r, feP)
			done(ok, why)
			return
		case "I_SC":
			s := a.structOf(args, e1)
			if s == nil {
				unsupported("I_SC")
			}
			if m, _ := callName(b.Y); m == "I_SCX" {
				// a name for the multiple: what is executed depends on the arguments only
				done(s.abs != nil && s.abs.kind == "pt", "the point is not a multiple of the base point")
				return
			}
			k := a.sint(b.Y, e).p
			if s.abs != nil && s.abs.kind == "pt" {
				d := a.norm(psub(s.abs.val, k), nil)
				if len(d) == 0 {
					done(true, "")
					return
				}
				if a.tryAffine(k) == nil {
					done(false, "the point is another multiple: by "+a.show(d))
					return
				}
			}
			g := a.tryAffine(k)
			if g == nil {
				done(false, "the point is another multiple")
				return
			}
			ok, why := a.isPoint(s, "", g)
			done(ok, why)
			return
		}
		if l := a.loc(b.X, e); l != nil && isBytes(l.t) {
			n, args := callName(b.Y)
			got := a.bytesOf(l)
			switch n {
			case "FENC":
				ok, why := a.canonical(le(got), a.sfield(args[0], e), feP)
				done(ok, why)
			case "SCRED":
				ok, why := a.canonical(le(got), le(a.sseq(args[0], e)), scL)
				done(ok, why)
			case "SCMULADD":
				v := padd(pmul(le(a.sseq(args[0], e)), le(a.sseq(args[1], e))), le(a.sseq(args[2], e)))
				ok, why := a.canonical(le(got), v, scL)
				done(ok, why)
			default:
				want := a.sseq(b.Y, e)
				if len(want) != len(got) {
					done(false, fmt.Sprintf("%d bytes, not %d", len(got), len(want)))
					return
				}
				for i := range got {
					if d := a.norm(psub(got[i].p, want[i].p), nil); len(d) != 0 {
						done(false, fmt.Sprintf("byte %d differs by %s", i, a.show(d)))
						return
					}
				}
				done(true, "")
			}
			return
		}
		l, r := a.sint(b.X, e), a.sint(b.Y, e)
		d := a.norm(psub(l.p, r.p), nil)
		done(len(d) == 0, "the difference of both sides is "+a.show(d))
		return
	}
	n, args := callName(y)
	switch n {
	case "B_EXT", "B_CMP", "B_PROJ", "B_PRE":
		s := a.structOf(args, e)
		if s == nil {
			unsupported("%s", n)
		}
		if s.abs != nil && s.abs.kind == "pt" {
			done(s.abs.rep == n, "another representation")
			return
		}
		// the point is the one an I_SC clause names
		g := a.scGoal(s, env)
		if g == nil {
			unsupported("%s without I_SC", n)
		}
		ok, why := a.isPoint(s, n, g)
		done(ok, why)
		return
	case "B_LIM":
		k, _ := a.sint(args[1], e).p.isConst()
		l := a.lim(a.need(args[0], e))
		done(l <= int(k.Int64()), fmt.Sprintf("the limbs are bounded by %d only", l))
		return
	}
	r := a.sbool(y, e)
	done(r == 1, "it does not follow")
}

// scGoal is the point that the contract says s is.
func (a *arith) scGoal(s *anode, env *aenv) *gval {
	old := &aenv{vars: env.old, old: env.old}
	for _, c := range a.con.applicable(a, old) {
		for _, x := range conjuncts(c.expr) {
			if b, ok := x.(*ast.BinaryExpr); ok && b.Op == token.EQL {
				lx, env1 := a.unmac(b.X, env)
				if n, args := callName(lx); n == "I_SC" && a.structOf(args, env1) == s {
					return a.affineOf(a.sint(b.Y, env).p)
				}
			}
		}
	}
	return nil
}

var baseMul = map[string]affine{}

func edMulMemo(k *big.Int) affine {
	key := k.String()
	if r, ok := baseMul[key]; ok {
		return r
	}
	var r affine
	if k.Sign() > 0 && k.BitLen() > 8 && k.TrailingZeroBits() > 0 {
		h := edMulMemo(new(big.Int).Rsh(k, 1))
		r = edAdd(h, h)
	} else {
		r = edMul(k)
	}
	baseMul[key] = r
	return r
}

// affineOf is the affine point of a sum of multiples.
func (a *arith) affineOf(k Poly) *gval {
	one := pconst(bigOne)
	r := &gval{Poly{}, one, one, one}
	first := true
	addp := func(g *gval) {
		if first {
			r, first = g, false
			return
		}
		r = a.addPoints(r, g)
	}
	ms := make([]string, 0, len(k))
	for m := range k {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		c := k[m]
		if m == "" {
			neg := c.Sign() < 0
			p := edMulMemo(new(big.Int).Abs(c))
			if neg {
				p.x = modP(new(big.Int).Neg(p.x))
			}
			addp(&gval{pconst(p.x), one, pconst(p.y), one})
			continue
		}
		fs := factors(m)
		g := a.points[fs[0].atom]
		if len(fs) != 1 || g == nil || c.Sign() < 0 || c.Cmp(big.NewInt(8)) > 0 {
			unsupported("a multiple of the base point that is not a small combination of points")
		}
		for i := int64(0); i < c.Int64(); i++ {
			addp(g)
		}
	}
	return r
}

// addPoints is the addition law of the curve.
func (a *arith) addPoints(p, q *gval) *gval {
	m := func(x ...Poly) Poly {
		r := pconst(bigOne)
		for _, y := range x {
			r = pmod(pmul(r, y), feP)
		}
		return r
	}
	// t = d x1 x2 y1 y2 over dx1 dx2 dy1 dy2
	den := m(p.dx, q.dx, p.dy, q.dy)
	num := pscale(m(p.nx, q.nx, p.ny, q.ny), edD)
	// x3 = (x1 y2 + y1 x2) / (1 + t), y3 = (y1 y2 + x1 x2) / (1 - t)
	nx := padd(m(p.nx, q.ny, p.dy, q.dx), m(p.ny, q.nx, p.dx, q.dy))
	ny := padd(m(p.ny, q.ny, p.dx, q.dx), m(p.nx, q.nx, p.dy, q.dy))
	red := func(x Poly) Poly { return a.curveRed(pmod(x, feP)) }
	return &gval{red(nx), red(padd(den, num)), red(ny), red(psub(den, num))}
}

// curveRed replaces x^2 y^2 by (y^2 - x^2 - 1)/d for the coordinates of points.
func (a *arith) curveRed(p Poly) Poly {
	if len(a.curve) == 0 {
		return p
	}
	di := invP(edD)
	for {
		out := Poly{}
		changed := false
		for m, c := range p {
			fs := factors(m)
			done := false
			for _, xy := range a.curve {
				ix, iy := -1, -1
				for i, f := range fs {
					if f.exp.Cmp(big.NewInt(2)) >= 0 {
						if f.atom == xy[0] {
							ix = i
						}
						if f.atom == xy[1] {
							iy = i
						}
					}
				}
				if ix < 0 || iy < 0 {
					continue
				}
				gs := append([]factor(nil), fs...)
				gs[ix].exp = new(big.Int).Sub(gs[ix].exp, big.NewInt(2))
				gs[iy].exp = new(big.Int).Sub(gs[iy].exp, big.NewInt(2))
				k := mulP(c, di)
				base := Poly{monoOf(gs): k}
				two := big.NewInt(2)
				f := Poly{monoOf([]factor{{xy[1], two}}): bigOne, monoOf([]factor{{xy[0], two}}): big.NewInt(-1), "": big.NewInt(-1)}
				out = padd(out, pmul(base, f))
				done, changed = true, true
				break
			}
			if !done {
				out = padd(out, Poly{m: c})
			}
		}
		p = pmod(out, feP)
		if !changed {
			return p
		}
	}
}

// nonzero: p is a constant times unknowns that are not zero times one of the
// denominators of the addition law, which the completeness of the law says are
// not zero.
func (a *arith) nonzero(p Poly, ds ...Poly) bool {
	if len(p) == 0 {
		return false
	}
	for _, d := range append([]Poly{pconst(bigOne)}, ds...) {
		if len(d) != len(p) {
			continue
		}
		for m, c := range p {
			for n, k := range d {
				q, ok := a.monoDiv(m, n)
				if !ok {
					continue
				}
				f := Poly{q: mulP(c, invP(k))}
				if len(pmod(psub(pmul(f, d), p), feP)) == 0 {
					return true
				}
			}
			break
		}
	}
	return false
}

// monoDiv is m/n if that is a product of unknowns that are not zero.
func (a *arith) monoDiv(m, n string) (string, bool) {
	e := map[int]*big.Int{}
	for _, f := range factors(m) {
		e[f.atom] = f.exp
	}
	for _, f := range factors(n) {
		if e[f.atom] == nil {
			return "", false
		}
		e[f.atom] = new(big.Int).Sub(e[f.atom], f.exp)
	}
	var fs []factor
	for i, x := range e {
		if x.Sign() < 0 || x.Sign() > 0 && !a.atoms[i].nz {
			return "", false
		}
		fs = append(fs, factor{i, x})
	}
	return monoOf(fs), true
}

// isPoint: the coordinates of s stand for the point g; rep == "" asks for the
// representation that the type has.
func (a *arith) isPoint(s *anode, rep string, g *gval) (bool, string) {
	if s.abs != nil && s.abs.kind == "pt" {
		// a multiple that is known
		if rep != "" && s.abs.rep != rep {
			return false, "another representation"
		}
		h := a.tryAffine(s.abs.val)
		if h == nil {
			return false, "the point is not known"
		}
		z := func(p Poly) bool { return len(a.curveRed(a.norm(p, feP))) == 0 }
		return z(psub(pmul(h.nx, g.dx), pmul(g.nx, h.dx))) && z(psub(pmul(h.ny, g.dy), pmul(g.ny, h.dy))), "another point"
	}
	c := make([]Poly, len(s.kids))
	for i, k := range s.kids {
		c[i] = a.fv(k)
	}
	if os.Getenv("GOVER_PT") != "" {
		for i := range c {
			fmt.Println(i, a.show(c[i]))
		}
		fmt.Println("nx", a.show(g.nx), "dx", a.show(g.dx), "ny", a.show(g.ny), "dy", a.show(g.dy))
	}
	lims := 1
	if rep == "" {
		st := s.t.(*types.Named).Obj().Name()
		switch {
		case len(c) == 3 && strings.Contains(st, "PreComputed"):
			rep = "B_PRE"
		case len(c) == 3:
			rep = "B_PROJ"
		case strings.Contains(st, "Completed"):
			rep = "B_CMP"
		default:
			rep = "B_EXT"
		}
	}
	zero := func(p, q Poly, what string) string {
		d := a.curveRed(a.norm(psub(p, q), feP))
		if len(d) != 0 {
			return what + " does not hold: off by " + a.show(d)
		}
		return ""
	}
	nz := func(p Poly, what string) string {
		if !a.nonzero(a.curveRed(a.norm(p, feP)), a.curveRed(g.dx), a.curveRed(g.dy)) {
			return what + " may be zero"
		}
		return ""
	}
	var whys []string
	switch rep {
	case "B_EXT", "B_PROJ":
		whys = append(whys, zero(pmul(c[0], g.dx), pmul(c[2], g.nx), "X/Z = x"), zero(pmul(c[1], g.dy), pmul(c[2], g.ny), "Y/Z = y"), nz(c[2], "Z"))
		if rep == "B_EXT" {
			whys = append(whys, zero(pmul(c[0], c[1]), pmul(c[2], c[3]), "XY = ZT"))
		}
	case "B_CMP":
		lims = 3
		whys = append(whys, zero(pmul(c[0], g.dx), pmul(c[2], g.nx), "X/Z = x"), zero(pmul(c[1], g.dy), pmul(c[3], g.ny), "Y/T = y"), nz(c[2], "Z"), nz(c[3], "T"))
	case "B_PRE":
		x, ok1 := g.nx, len(psub(g.dx, pconst(bigOne))) == 0
		y, ok2 := g.ny, len(psub(g.dy, pconst(bigOne))) == 0
		if !ok1 || !ok2 {
			return false, "a precomputed point that is not affine"
		}
		whys = append(whys, zero(c[0], padd(y, x), "y+x"), zero(c[1], psub(y, x), "y-x"), zero(c[2], pscale(pmul(x, y), new(big.Int).Mul(big.NewInt(2), edD)), "2dxy"))
	}
	for i, k := range s.kids {
		if l := a.lim(k); l > lims {
			whys = append(whys, fmt.Sprintf("the limbs of coordinate %d are bounded by %d only", i, l))
		}
	}
	for _, w := range whys {
		if w != "" {
			return false, w
		}
	}
	return true, ""
}

func (a *arith) tryAffine(k Poly) (g *gval) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(unsup); !ok {
				panic(p)
			}
			g = nil
		}
	}()
	return a.affineOf(k)
}

func (a *arith) show(p Poly) string {
	ms := make([]string, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	var out []string
	for i, m := range ms {
		if i > 5 {
			out = append(out, fmt.Sprintf("... (%d terms)", len(ms)))
			break
		}
		c := p[m]
		if c.Cmp(new(big.Int).Rsh(feP, 1)) > 0 {
			c = new(big.Int).Sub(c, feP)
		}
		s := c.String()
		for _, f := range factors(m) {
			at := a.atoms[f.atom]
			s += fmt.Sprintf("*%s#%d", at.name, f.atom)
			if f.exp.Cmp(bigOne) != 0 {
				s += "^" + f.exp.String()
			}
		}
		out = append(out, s)
	}
	return strings.Join(out, " + ")
}

// ---- canonical results: linear integer arithmetic ----

// congruent: got is want modulo n.
func (a *arith) congruent(got, want Poly, n *big.Int) (bool, string) {
	d := a.curveRed(a.norm(psub(got, want), n))
	if len(d) != 0 {
		// what is left may be zero all the same
		if a.curve != nil {
			return false, "not congruent: off by " + a.show(d)
		}
		h := new(big.Int).Rsh(n, 1)
		z := Poly{}
		for m, c := range d {
			if c.Cmp(h) > 0 {
				c = new(big.Int).Sub(c, n)
			}
			z[m] = c
		}
		if !z.linear() || len(z) > 12 {
			return false, "not congruent: off by " + a.show(d)
		}
		if !a.lia(z, bigZero, bigZero) {
			return false, "not shown congruent: off by " + a.show(d)
		}
	}
	return true, ""
}

// canonical: got is want modulo n, and 0 <= got < n.
func (a *arith) canonical(got, want Poly, n *big.Int) (bool, string) {
	if ok, why := a.congruent(got, want, n); !ok {
		return false, why
	}
	top := new(big.Int).Sub(n, bigOne)
	for _, r := range a.forms(got) {
		if a.polyIval(r).within(bigZero, top) {
			return true, ""
		}
	}
	for _, r := range a.forms(got) {
		if a.lia(r, bigZero, top) {
			return true, ""
		}
	}
	return false, "not shown to be the least representative: " + a.show(got)
}

// forms writes a sum in other unknowns: out of the numerators of its quotients.
func (a *arith) forms(p Poly) []Poly {
	full := a.norm(p, nil)
	out := []Poly{}
	for m := range full {
		fs := factors(m)
		if len(fs) != 1 || a.atoms[fs[0].atom].shD == nil {
			continue
		}
		d := a.atoms[fs[0].atom].shD
		t := psub(full, a.norm(d, nil))
		if len(t) <= 6 {
			out = append(out, padd(d, t))
		}
	}
	return append(out, full)
}

// lia asks z3 whether lo <= p <= hi follows from what the unknowns are.
func (a *arith) lia(p Poly, lo, hi *big.Int) bool {
	for _, n := range []int{12, 60, 400} {
		if a.liaDepth(p, lo, hi, n) {
			return true
		}
	}
	return false
}

func (a *arith) liaDepth(p Poly, lo, hi *big.Int, max int) bool {
	t0 := time.Now()
	defer func() { a.solver += time.Since(t0).Seconds() }()
	var sb strings.Builder
	sb.WriteString("(set-logic QF_LIA)\n")
	names := map[string]string{}
	var pend []int
	seen := map[int]bool{}
	var decl strings.Builder
	var facts strings.Builder
	mono := func(m string) string {
		if s, ok := names[m]; ok {
			return s
		}
		s := fmt.Sprintf("v%d", len(names))
		names[m] = s
		iv := a.monoIval(m)
		fmt.Fprintf(&decl, "(declare-const %s Int)\n", s)
		fmt.Fprintf(&facts, "(assert (<= %s %s %s))\n", smtInt(iv.lo), s, smtInt(iv.hi))
		fs := factors(m)
		if len(fs) == 1 && fs[0].exp.Cmp(bigOne) == 0 {
			pend = append(pend, fs[0].atom)
		}
		return s
	}
	term := func(p Poly) string {
		ms := make([]string, 0, len(p))
		for m := range p {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		var out []string
		for _, m := range ms {
			if m == "" {
				out = append(out, smtInt(p[m]))
				continue
			}
			out = append(out, fmt.Sprintf("(* %s %s)", smtInt(p[m]), mono(m)))
		}
		switch len(out) {
		case 0:
			return "0"
		case 1:
			return out[0]
		}
		return "(+ " + strings.Join(out, " ") + ")"
	}
	goal := term(p)
	for depth := 0; len(pend) > 0 && len(seen) < max; depth++ {
		i := pend[0]
		pend = pend[1:]
		if seen[i] {
			continue
		}
		seen[i] = true
		at := a.atoms[i]
		v := mono(fmt.Sprint(i))
		if at.def != nil && at.def.linear() {
			fmt.Fprintf(&facts, "(assert (= %s %s))\n", v, term(at.def))
		}
		if at.shD != nil && at.shD.linear() {
			d := term(at.shD)
			n := smtInt(bpow(at.shN))
			fmt.Fprintf(&facts, "(assert (<= 0 (- %s (* %s %s)) (- %s 1)))\n", d, n, v, n)
			fmt.Fprintf(&facts, "(assert (<= %s %s %s))\n", smtInt(at.shI.lo), d, smtInt(at.shI.hi))
		}
	}
	sb.WriteString(decl.String())
	sb.WriteString(facts.String())
	fmt.Fprintf(&sb, "(assert (not (<= %s %s %s)))\n(check-sat)\n", smtInt(lo), goal, smtInt(hi))
	if fn := os.Getenv("GOVER_LIA"); fn != "" {
		os.WriteFile(fn, []byte(sb.String()), 0644)
	}
	for _, z := range [][]string{{"cvc5", "--tlimit=3000", "-q", "-"}, {"z3", "-in", "-T:3"}} {
		cmd := exec.Command(z[0], z[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		out, _ := cmd.Output()
		r := strings.TrimSpace(string(out))
		if r == "unsat" {
			return true
		}
		if r == "sat" {
			return false
		}
	}
	return false
}

func smtInt(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}
