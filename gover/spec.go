package main

// Contracts: a line-based file format whose expressions are Go expressions over
// parameters, results, fields (exported or not) and a few mathematical
// functions. The same contract is checked against the body of its function and
// used at its call sites.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	labels []string
	expr   ast.Expr
	text   string
	where  string
}

type Case struct {
	guard    Clause
	ensures  []Clause
	modifies []Clause
	fresh    []Clause
}

type LoopInv struct {
	loop   int // ordinal of the loop in the function (0-based, source order)
	clause Clause
}

// LoopVar names a loop variable by its type, whatever the code calls it.
type LoopVar struct{ name, typ string }

type Contract struct {
	name        string
	params      []string
	results     []string
	labels      []string
	requires    []Clause
	nilable     map[string]bool
	inline      bool
	expand      map[string]bool // callees executed in place here
	merge       bool            // join the paths of an if where they meet
	trusted     bool
	arith       bool // verified by the arithmetic back end
	arithInline bool // which runs the body at calls of its own
	reveal      map[string]bool
	verify      bool // inline contracts are still verified standalone
	pure        bool
	body        Case // common clauses
	cases       []Case
	loopinv     []LoopInv
	loopvars    []LoopVar
	ghosts      []string
	lets        []struct {
		name string
		expr ast.Expr
	}
	where      string
	modLabels  []string
	noFrame    bool // modifies anything: no frame is checked, and nothing can be called by this contract
	deadline   int
	arbitrary  map[string]bool // results unconstrained in frame terms
	fn         *ssa.Function
	callLabels []string
	emits      []string
	givens     []Given
	maycall    bool
	aux        bool
}

// Given is an assumption on what a caller-supplied store returns.
type Given struct {
	event  string
	clause Clause
}

type Macro struct {
	params []string
	body   ast.Expr
	opaque bool // a symbol of its own, unfolded only where a contract reveals it
}

type Spec struct {
	contracts map[string]*Contract
	order     []string
	nonnil    map[string]bool   // field keys
	fixed     map[string]string // field keys -> function
	atmost    map[string]int64  // greatest lengths of lists in stored objects
	elems     map[string]bool   // element types of pointer lists that are non-nil
	macros    map[string]*Macro
	invs      []Clause // printable list of type invariants
	structInv map[string][]string
	mu        sync.Mutex
}

func parseExpr(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

func loadSpec(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, nonnil: map[string]bool{}, fixed: map[string]string{}, elems: map[string]bool{}, atmost: map[string]int64{}, macros: map[string]*Macro{}, structInv: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Spec) parse(file, src string) error {
	var lines []string
	var nums []int
	cont := ""
	start := 0
	for i, l := range strings.Split(src, "\n") {
		if t := strings.TrimSpace(l); strings.HasPrefix(t, "#") {
			continue
		}
		l = strings.TrimRight(l, " \t")
		if cont == "" {
			start = i + 1
		}
		if strings.HasSuffix(l, "\\") {
			cont += strings.TrimSuffix(l, "\\") + " "
			continue
		}
		l = cont + l
		cont = ""
		lines = append(lines, strings.TrimSpace(l))
		nums = append(nums, start)
	}
	var con *Contract
	var cur *Case
	for i, l := range lines {
		if l == "" {
			continue
		}
		where := fmt.Sprintf("%s:%d", file, nums[i])
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s: %s: %s", where, fmt.Sprintf(f, a...), l)
		}
		word, rest := l, ""
		if j := strings.IndexAny(l, " \t"); j >= 0 {
			word, rest = l[:j], strings.TrimSpace(l[j:])
		}
		labels := func() []string {
			if !strings.HasPrefix(rest, "[") {
				return nil
			}
			j := strings.IndexByte(rest, ']')
			ls := strings.Fields(strings.ReplaceAll(rest[1:j], ",", " "))
			rest = strings.TrimSpace(rest[j+1:])
			return ls
		}
		clause := func() (Clause, error) {
			ls := labels()
			e, err := parseExpr(rest)
			return Clause{ls, e, rest, where}, err
		}
		switch word {
		case "func":
			// name(params) (results)
			depth := 0
			p := -1
			for k := 0; k < len(rest); k++ {
				if rest[k] == '(' {
					if k > 0 && rest[k-1] != '.' && depth == 0 {
						p = k
						break
					}
					depth++
				}
				if rest[k] == ')' {
					depth--
				}
			}
			if p < 0 {
				return fail("bad function header")
			}
			con = &Contract{name: strings.TrimSpace(rest[:p]), nilable: map[string]bool{}, arbitrary: map[string]bool{}, where: where}
			q := strings.IndexByte(rest[p:], ')') + p
			con.params = splitNames(rest[p+1 : q])
			r := strings.TrimSpace(rest[q+1:])
			r = strings.Trim(r, "()")
			con.results = splitNames(r)
			cur = &con.body
			if sp.contracts[con.name] != nil {
				return fail("duplicate contract")
			}
			sp.contracts[con.name] = con
			sp.order = append(sp.order, con.name)
		case "labels":
			con.labels = append(con.labels, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "requires":
			c, err := clause()
			if err != nil {
				return fail("%v", err)
			}
			con.requires = append(con.requires, c)
		case "nilable":
			for _, n := range splitNames(rest) {
				con.nilable[n] = true
			}
		case "emits":
			con.emits = append(con.emits, splitNames(rest)...)
		case "given": // given Store.Method expr, with res for the result
			ev, x, ok := strings.Cut(rest, " ")
			if !ok {
				return fail("given needs a call and a condition")
			}
			rest = strings.TrimSpace(x)
			c, err := clause()
			if err != nil {
				return fail("%v", err)
			}
			con.givens = append(con.givens, Given{ev, c})
		case "inline":
			con.inline = true
		case "expand":
			con.expand = map[string]bool{}
			for _, n := range splitNames(rest) {
				con.expand[n] = true
			}
		case "merge":
			con.merge = true
		case "reveal":
			con.reveal = map[string]bool{}
			for _, n := range splitNames(rest) {
				con.reveal[n] = true
			}
		case "trusted":
			con.trusted = true
		case "arith":
			con.arith = true
			con.arithInline = rest == "inline"
		case "deadline":
			con.deadline, _ = strconv.Atoi(rest)
		case "case":
			c, err := clause()
			if err != nil {
				return fail("%v", err)
			}
			con.cases = append(con.cases, Case{guard: c})
			cur = &con.cases[len(con.cases)-1]
		case "ensures":
			c, err := clause()
			if err != nil {
				return fail("%v", err)
			}
			cur.ensures = append(cur.ensures, c)
		case "modifies":
			ls := labels()
			con.modLabels = append(con.modLabels, ls...)
			if rest == "nothing" {
				continue
			}
			if rest == "anything" {
				con.noFrame = true
				continue
			}
			for _, part := range splitTop(rest) {
				rest = part
				c, err := clause()
				if err != nil {
					return fail("%v", err)
				}
				cur.modifies = append(cur.modifies, c)
			}
		case "fresh":
			for _, part := range splitTop(rest) {
				rest = part
				c, err := clause()
				if err != nil {
					return fail("%v", err)
				}
				cur.fresh = append(cur.fresh, c)
			}
		case "let", "ghost":
			// ghost: a sequence that callers know only by what is said of it
			j := strings.Index(rest, "=")
			e, err := parseExpr(strings.TrimSpace(rest[j+1:]))
			if err != nil {
				return fail("%v", err)
			}
			con.lets = append(con.lets, struct {
				name string
				expr ast.Expr
			}{strings.TrimSpace(rest[:j]), e})
			if word == "ghost" {
				con.ghosts = append(con.ghosts, strings.TrimSpace(rest[:j]))
			}
		case "loopvar":
			f := strings.Fields(rest)
			if len(f) != 2 {
				return fail("loopvar NAME TYPE")
			}
			con.loopvars = append(con.loopvars, LoopVar{f[0], f[1]})
		case "loopinv":
			n := 0
			if strings.HasPrefix(rest, "#") {
				j := strings.IndexByte(rest, ' ')
				n, _ = strconv.Atoi(rest[1:j])
				rest = strings.TrimSpace(rest[j:])
			}
			c, err := clause()
			if err != nil {
				return fail("%v", err)
			}
			con.loopinv = append(con.loopinv, LoopInv{n, c})
		case "inv":
			con, cur = nil, nil
			f := strings.Fields(rest)
			switch {
			case len(f) == 2 && f[1] == "nonnil":
				sp.nonnil[f[0]] = true
				j := strings.LastIndexByte(f[0], '.')
				sp.structInv[f[0][:j]] = append(sp.structInv[f[0][:j]], f[0][j+1:])
			case len(f) == 3 && f[1] == "==":
				sp.fixed[f[0]] = f[2]
				j := strings.LastIndexByte(f[0], '.')
				sp.structInv[f[0][:j]] = append(sp.structInv[f[0][:j]], f[0][j+1:])
			default:
				return fail("bad inv")
			}
		case "atmost":
			con, cur = nil, nil
			f := strings.Fields(rest)
			n, err := strconv.ParseInt(f[len(f)-1], 10, 64)
			if len(f) != 2 || err != nil {
				return fail("bad atmost")
			}
			sp.atmost[f[0]] = n
		case "elems":
			con, cur = nil, nil
			sp.elems[strings.Fields(rest)[0]] = true
		case "def", "odef":
			con, cur = nil, nil
			p := strings.IndexByte(rest, '(')
			q := strings.IndexByte(rest, ')')
			eq := strings.Index(rest[q:], "=") + q
			e, err := parseExpr(strings.TrimSpace(rest[eq+1:]))
			if err != nil {
				return fail("%v", err)
			}
			sp.macros[strings.TrimSpace(rest[:p])] = &Macro{splitNames(rest[p+1 : q]), e, word == "odef"}
		default:
			return fail("unknown keyword %q", word)
		}
	}
	return nil
}

func splitNames(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			r = append(r, x)
		}
	}
	return r
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

func (c *Contract) allLabels() map[string]bool {
	m := map[string]bool{}
	add := func(ls []string) {
		for _, l := range ls {
			m[l] = true
		}
	}
	add(c.labels)
	add(c.modLabels)
	for _, cl := range c.body.ensures {
		add(cl.labels)
	}
	for _, cs := range c.cases {
		for _, cl := range cs.ensures {
			add(cl.labels)
		}
	}
	return m
}

// ---- evaluation --------------------------------------------------------------

type TV struct {
	v Val
	t types.Type // nil: mathematical
}

type SEnv struct {
	e      *Eng
	vars   map[string]TV
	st     *State // assumptions made while reading
	heap   *Heap
	old    *Heap
	oldv   map[string]TV // values of variables under old()
	pkg    *types.Package
	events []*Event
	lazy   func(name string) (TV, bool)
	bound  map[string]bool
	lets   map[string]ast.Expr
	post   *Heap
	loop   *loopPlan
	caller bool // a callee's clause, read at the call: its events are not known
}

type specErr struct{ msg string }

func sfail(f string, a ...interface{}) { panic(unsup{"spec: " + fmt.Sprintf(f, a...)}) }

func (s *SEnv) term(x ast.Expr) *Term {
	tv := s.ev(x)
	return s.asTerm(tv, x)
}

func (s *SEnv) asTerm(tv TV, x ast.Expr) *Term {
	switch v := tv.v.(type) {
	case *Term:
		return v
	case *IfaceV:
		return v.ref
	case *SliceV:
		return s.e.content(s.heap, v)
	}
	sfail("scalar expected: %s (%T)", exprStr(x), tv.v)
	return nil
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (s *SEnv) boolean(x ast.Expr) *Term {
	t := s.term(x)
	if t.sort != SBool {
		sfail("boolean expected: %s", exprStr(x))
	}
	return t
}

func (s *SEnv) with(name string, tv TV) *SEnv {
	n := *s
	n.vars = map[string]TV{}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	n.vars[name] = tv
	return &n
}

func (s *SEnv) seq(x ast.Expr) *Term {
	tv := s.ev(x)
	return s.seqOf(tv, x)
}

func (s *SEnv) seqOf(tv TV, x ast.Expr) *Term {
	switch v := tv.v.(type) {
	case *Term:
		if v.sort.isSeq() {
			return v
		}
		if p, ok := ptrTo(tv.t); ok {
			if _, ok := p.Underlying().(*types.Array); ok {
				return s.e.load(s.st, s.heap, "", v, p).(*Term)
			}
		}
	case *SliceV:
		return s.e.content(s.heap, v)
	}
	sfail("sequence expected: %s (%T)", exprStr(x), tv.v)
	return nil
}

func ptrTo(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func (s *SEnv) ev(x ast.Expr) TV {
	c := s.e.c
	switch n := x.(type) {
	case *ast.ParenExpr:
		return s.ev(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(strings.ReplaceAll(n.Value, "_", ""), 0)
			if !ok {
				sfail("bad integer %s", n.Value)
			}
			return TV{c.Big(b), nil}
		case token.STRING:
			v, err := strconv.Unquote(n.Value)
			if err != nil {
				sfail("bad string %s", n.Value)
			}
			return TV{c.Lit([]byte(v)), nil}
		case token.CHAR:
			v, _, _, err := strconv.UnquoteChar(n.Value[1:], '\'')
			if err != nil {
				sfail("bad char")
			}
			return TV{c.Int(int64(v)), nil}
		}
	case *ast.Ident:
		return s.ident(n)
	case *ast.SelectorExpr:
		return s.selector(n)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return TV{c.Not(s.boolean(n.X)), nil}
		case token.SUB:
			return TV{c.Sub(c.Zero, s.term(n.X)), nil}
		}
	case *ast.StarExpr:
		tv := s.ev(n.X)
		if p, ok := ptrTo(tv.t); ok {
			return TV{s.e.loadAt(nil, &State{heap: s.heap}, tv.v, p), p}
		}
	case *ast.IndexExpr:
		tv := s.ev(n.X)
		i := s.term(n.Index)
		switch v := tv.v.(type) {
		case *SliceV:
			if !isByte(v.elem) && !listElem(v.elem) {
				return TV{s.e.loadAt(nil, &State{heap: s.heap}, s.e.elemAddr(v.elem, v.arr, c.Add(v.off, i)), v.elem), v.elem}
			}
			r := c.Nth(s.e.content(s.heap, v), i)
			if !r.hasBV && !isByte(v.elem) {
				s.e.assumeElem(listKey(v.elem), r)
			}
			return TV{r, v.elem}
		case *Term:
			if v.sort.isSeq() {
				return TV{c.Nth(v, i), elemTypeOf(tv.t)}
			}
		}
		sfail("index of %s", exprStr(n.X))
	case *ast.SliceExpr:
		q := s.seq(n.X)
		lo, hi := c.Zero, c.Len(q)
		if n.Low != nil {
			lo = s.term(n.Low)
		}
		if n.High != nil {
			hi = s.term(n.High)
		}
		tv := s.ev(n.X)
		var et types.Type
		if sl, ok := tv.v.(*SliceV); ok {
			et = types.NewSlice(sl.elem)
		} else {
			et = tv.t
		}
		if et != nil {
			if _, ok := et.Underlying().(*types.Array); ok {
				et = nil
			}
		}
		return TV{c.Extract(q, lo, c.Sub(hi, lo)), ghostSeq(et)}
	case *ast.BinaryExpr:
		return TV{s.binary(n), nil}
	case *ast.CallExpr:
		return s.call(n)
	}
	sfail("expression %s", exprStr(x))
	return TV{}
}

// gseq is the type of a ghost sequence with a known element type.
type gseq struct{ types.Type }

func ghostSeq(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.(*types.Slice); ok {
		return &gseqT{s}
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return &gseqT{s}
	}
	return t
}

type gseqT struct{ s *types.Slice }

func (g *gseqT) Underlying() types.Type { return g.s }
func (g *gseqT) String() string         { return "seq of " + g.s.Elem().String() }

func elemTypeOf(t types.Type) types.Type {
	if g, ok := t.(*gseqT); ok {
		return g.s.Elem()
	}
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (s *SEnv) ident(n *ast.Ident) TV {
	c := s.e.c
	if tv, ok := s.vars[n.Name]; ok {
		return tv
	}
	if s.lets != nil {
		if x, ok := s.lets[n.Name]; ok {
			return s.ev(x)
		}
	}
	if s.lazy != nil {
		if tv, ok := s.lazy(n.Name); ok {
			return tv
		}
	}
	switch n.Name {
	case "nil":
		return TV{c.Zero, types.Typ[types.UntypedNil]}
	case "true":
		return TV{c.T, nil}
	case "false":
		return TV{c.F, nil}
	}
	if s.pkg != nil {
		if tv, ok := s.pkgMember(s.pkg, n.Name); ok {
			return tv
		}
	}
	sfail("unknown name %s", n.Name)
	return TV{}
}

func (s *SEnv) pkgMember(p *types.Package, name string) (TV, bool) {
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return TV{s.e.constant(o.Val(), o.Type()), o.Type()}, true
	case *types.Func:
		f := s.e.P.prog.FuncValue(o)
		if id, ok := s.e.P.fnID[f]; ok {
			return TV{s.e.c.Int(int64(id)), o.Type()}, true
		}
	}
	return TV{}, false
}

var _ = constant.Int

func (s *SEnv) selector(n *ast.SelectorExpr) TV {
	if id, ok := n.X.(*ast.Ident); ok {
		_, isVar := s.vars[id.Name]
		isLet := s.lets != nil && s.lets[id.Name] != nil
		if !isVar && !isLet {
			lazyHit := false
			if s.lazy != nil {
				_, lazyHit = s.lazy(id.Name)
			}
			if !lazyHit {
				for _, p := range s.e.P.pkgs {
					if pkgAlias(shortPkg(p.Types)) == id.Name {
						if tv, ok := s.pkgMember(p.Types, n.Sel.Name); ok {
							return tv
						}
					}
				}
			}
		}
	}
	tv := s.ev(n.X)
	return s.field(tv, n.Sel.Name, n)
}

func (s *SEnv) field(tv TV, name string, n ast.Expr) TV {
	if tv.t == nil {
		sfail("field %s of untyped value", exprStr(n))
	}
	ref, t, sv := s.base(tv)
	if sv != nil {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return TV{sv.f[i], st.Field(i).Type()}
			}
		}
		sfail("no field %s in %s", name, t)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		sfail("%s is not a struct (%s)", exprStr(n), t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			k, r, ft := s.e.fieldCell(t, ref, i)
			if isStruct(ft) {
				return TV{r, types.NewPointer(ft)}
			}
			return TV{s.e.load(s.st, s.heap, k, r, ft), ft}
		}
	}
	sfail("no field %s in %s", name, t)
	return TV{}
}

// base resolves the object a field is selected from.
func (s *SEnv) base(tv TV) (*Term, types.Type, *StructV) {
	switch v := tv.v.(type) {
	case *StructV:
		return nil, v.t, v
	case *IfaceV:
		ct := s.e.closed(tv.t)
		if ct == nil {
			sfail("field of interface %s", tv.t)
		}
		p, _ := ptrTo(ct)
		return v.ref, p, nil
	case *Term:
		if p, ok := ptrTo(tv.t); ok {
			return v, p, nil
		}
		if ct := s.e.closed(tv.t); ct != nil {
			p, _ := ptrTo(ct)
			return v, p, nil
		}
	}
	sfail("not an object: %T of type %v", tv.v, tv.t)
	return nil, nil, nil
}

func (s *SEnv) binary(n *ast.BinaryExpr) *Term {
	c := s.e.c
	switch n.Op {
	case token.LAND:
		a := s.boolean(n.X)
		if a == c.F {
			return c.F
		}
		return c.And(a, s.boolean(n.Y))
	case token.LOR:
		a := s.boolean(n.X)
		if a == c.T {
			return c.T
		}
		return c.Or(a, s.boolean(n.Y))
	case token.EQL:
		return s.eq(n.X, n.Y)
	case token.NEQ:
		return c.Not(s.eq(n.X, n.Y))
	}
	x, y := s.term(n.X), s.term(n.Y)
	switch n.Op {
	case token.ADD:
		if x.sort.isSeq() {
			return c.Concat(x, y)
		}
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO:
		return c.Div(x, y)
	case token.REM:
		return c.Mod(x, y)
	case token.LSS:
		if x.sort.isSeq() {
			return s.e.lexlt(x, y)
		}
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Gt(x, y)
	case token.GEQ:
		return c.Ge(x, y)
	}
	switch n.Op {
	case token.AND, token.OR:
		if r, ok := s.e.binop(nil, nil, n.Op, x, y, types.Typ[types.Int64], types.Typ[types.Int64]).(*Term); ok {
			return r
		}
	}
	sfail("operator %s", n.Op)
	return nil
}

func (s *SEnv) eq(x, y ast.Expr) *Term {
	return s.eqTV(s.ev(x), s.ev(y), x)
}

func (s *SEnv) eqTV(a, b TV, x ast.Expr) *Term {
	c := s.e.c
	isNil := func(t TV) bool { return t.t == types.Typ[types.UntypedNil] }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch v := a.v.(type) {
		case *Term:
			return s.e.refEq(v, c.Zero)
		case *IfaceV:
			return s.e.refEq(v.ref, c.Zero)
		case *SliceV:
			return s.e.refEq(v.arr, c.Zero)
		case *AddrV, *ClosV:
			return c.F
		}
	}
	switch v := a.v.(type) {
	case *Term:
		switch w := b.v.(type) {
		case *Term:
			if v.sort == SInt {
				return s.e.refEq(v, w)
			}
			return c.Eq(v, w)
		case *IfaceV:
			return s.e.refEq(v, w.ref)
		case *SliceV:
			return c.Eq(v, s.e.content(s.heap, w))
		}
	case *IfaceV:
		switch w := b.v.(type) {
		case *Term:
			return s.e.refEq(v.ref, w)
		case *IfaceV:
			return s.e.refEq(v.ref, w.ref)
		}
	case *SliceV:
		switch w := b.v.(type) {
		case *SliceV:
			return c.And(s.e.refEq(v.arr, w.arr), c.Eq(v.n, w.n), c.Or(c.Eq(v.n, c.Zero), c.Eq(v.off, w.off)))
		case *Term:
			return c.Eq(s.e.content(s.heap, v), w)
		}
	case *StructV:
		if w, ok := b.v.(*StructV); ok {
			return s.e.valEq(s.st, v, w, v.t)
		}
	}
	sfail("comparison %s: %T and %T", exprStr(x), a.v, b.v)
	return nil
}

var funSort = map[string]Sort{
	"HMAC": SSeq, "HKDF": SSeq, "DH": SSeq, "PUB": SSeq, "ITER": SSeq, "CBCENC": SSeq, "CBCDEC": SSeq,
	"XVERIFY": SBool, "EDVERIFY": SBool,
}

func (s *SEnv) call(n *ast.CallExpr) TV {
	c := s.e.c
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		sfail("call %s", exprStr(n))
	}
	arg := func(i int) ast.Expr {
		if i >= len(n.Args) {
			sfail("%s: missing argument", exprStr(n))
		}
		return n.Args[i]
	}
	bindv := func(lo, hi *Term) (*Term, *SEnv) {
		name := arg(0).(*ast.Ident).Name
		v := c.BoundIn(name, lo, hi)
		return v, s.with(name, TV{v, types.Typ[types.Int]})
	}
	expand := func(m *Macro) TV {
		if len(m.params) != len(n.Args) {
			sfail("macro %s: %d arguments", id.Name, len(n.Args))
		}
		in := *s
		in.vars = map[string]TV{}
		in.lets = nil
		in.lazy = nil
		for k, v := range s.vars {
			if strings.HasPrefix(k, "$") {
				in.vars[k] = v
			}
		}
		for i, p := range m.params {
			in.vars[p] = s.ev(n.Args[i])
		}
		if in.oldv != nil {
			in.oldv = in.vars
		}
		return in.ev(m.body)
	}
	macro := s.e.P.spec.macros[id.Name]
	if macro != nil && !macro.opaque {
		return expand(macro)
	}
	switch id.Name {
	case "old":
		in := *s
		in.heap = s.old
		if s.oldv != nil {
			in.vars = map[string]TV{}
			for k, v := range s.vars {
				in.vars[k] = v
			}
			for k, v := range s.oldv {
				in.vars[k] = v
			}
		}
		return in.ev(arg(0))
	case "new": // in a modifies clause: the value after the call
		in := *s
		if s.post != nil {
			in.heap = s.post
		}
		return in.ev(arg(0))
	case "len":
		tv := s.ev(arg(0))
		switch v := tv.v.(type) {
		case *SliceV:
			return TV{v.n, types.Typ[types.Int]}
		}
		return TV{c.Len(s.seqOf(tv, n)), types.Typ[types.Int]}
	case "cap":
		return TV{s.ev(arg(0)).v.(*SliceV).cap, nil}
	case "arr":
		return TV{s.ev(arg(0)).v.(*SliceV).arr, nil}
	case "off":
		return TV{s.ev(arg(0)).v.(*SliceV).off, nil}
	case "sub": // sub(s, a, b): the Go slice s[a:b]
		tv := s.ev(arg(0))
		v := tv.v.(*SliceV)
		lo, hi := s.term(arg(1)), s.term(arg(2))
		return TV{&SliceV{v.arr, c.Add(v.off, lo), c.Sub(hi, lo), c.Sub(v.cap, lo), v.elem}, tv.t}
	case "whole":
		v := s.ev(arg(0)).v.(*SliceV)
		return TV{s.e.arrContent(s.heap, v.elem, v.arr), nil}
	case "b":
		return TV{s.seq(arg(0)), nil}
	case "list":
		tv := s.ev(arg(0))
		return TV{s.seqOf(tv, n), ghostSeq(tv.t)}
	case "cat":
		var ps []*Term
		var et types.Type
		for _, a := range n.Args {
			tv := s.ev(a)
			if tv.t != nil && et == nil {
				et = ghostSeq(tv.t)
			}
			ps = append(ps, s.seqOf(tv, a))
		}
		return TV{c.Concat(ps...), et}
	case "ext":
		tv := s.ev(arg(0))
		return TV{c.Extract(s.seqOf(tv, n), s.term(arg(1)), s.term(arg(2))), ghostSeq(tv.t)}
	case "nth":
		tv := s.ev(arg(0))
		ct, ix := s.seqOf(tv, n), s.term(arg(1))
		r, et := c.Nth(ct, ix), elemTypeOf(tv.t)
		if et != nil && !r.hasBV && oldList(ct) {
			if _, ok := et.Underlying().(*types.Pointer); ok && s.e.P.spec.elems[strings.TrimPrefix(listKey(et), "A:*")] {
				s.e.assumeOnce(c.Imp(c.And(c.Le(c.Zero, ix), c.Lt(ix, c.Len(ct))), c.Ge(r, c.One)))
			}
		}
		return TV{r, et}
	case "unit":
		return TV{c.Unit(s.term(arg(0))), nil}
	case "wunit":
		tv := s.ev(arg(0))
		var et types.Type
		if tv.t != nil {
			et = &gseqT{types.NewSlice(tv.t)}
		}
		return TV{c.UnitW(s.asTerm(tv, n)), et}
	case "wempty":
		return TV{c.EmptyW, nil}
	case "rep":
		return TV{c.Repeat(s.term(arg(0)), s.term(arg(1))), nil}
	case "imp":
		a := s.boolean(arg(0))
		if a == c.F {
			return TV{c.T, nil}
		}
		return TV{s.implied(a, arg(1)), nil}
	case "iff":
		return TV{c.Eq(s.boolean(arg(0)), s.boolean(arg(1))), nil}
	case "ite":
		a, b := s.ev(arg(1)), s.ev(arg(2))
		t := a.t
		if t == nil || t == types.Typ[types.UntypedNil] {
			t = b.t
		}
		return TV{c.Ite(s.boolean(arg(0)), s.asTerm(a, n), s.asTerm(b, n)), t}
	case "min":
		a, b := s.term(arg(0)), s.term(arg(1))
		return TV{c.Ite(c.Le(a, b), a, b), nil}
	case "max":
		a, b := s.term(arg(0)), s.term(arg(1))
		return TV{c.Ite(c.Le(a, b), b, a), nil}
	case "forall":
		v, in := bindv(s.term(arg(1)), s.term(arg(2)))
		return TV{c.Forall(v, s.term(arg(1)), s.term(arg(2)), in.boolean(arg(3))), nil}
	case "exists":
		v, in := bindv(s.term(arg(1)), s.term(arg(2)))
		return TV{c.Not(c.Forall(v, s.term(arg(1)), s.term(arg(2)), c.Not(in.boolean(arg(3))))), nil}
	case "first":
		v, in := bindv(s.term(arg(1)), s.term(arg(2)))
		fs := c.First(v, s.term(arg(1)), s.term(arg(2)), in.boolean(arg(3)))
		if q := s.e.firstEq[fs]; q != nil {
			return TV{q, nil}
		}
		return TV{fs, nil}
	case "seqfn":
		v, in := bindv(c.Zero, s.term(arg(1)))
		return TV{c.SeqFn(SSeq, v, s.term(arg(1)), in.term(arg(2))), nil}
	case "wseqfn":
		v, in := bindv(c.Zero, s.term(arg(1)))
		return TV{c.SeqFn(SSeqW, v, s.term(arg(1)), in.term(arg(2))), nil}
	case "pushed": // pushed(i): the object iteration i of the loop leaves at the end of its list
		if s.loop == nil {
			sfail("pushed outside a loop invariant")
		}
		return TV{s.loop.pushedAt(s.e, s.term(arg(0))), nil}
	case "u32":
		return TV{c.Mod(s.term(arg(0)), c.Big(new(big.Int).Lsh(bi(1), 32))), nil}
	case "u8":
		return TV{c.Mod(s.term(arg(0)), c.Int(256)), nil}
	case "u24":
		return TV{c.Mod(s.term(arg(0)), c.Int(1<<24)), nil}
	case "be":
		// be(x, n): n big-endian bytes of x
		x := s.term(arg(0))
		k, _ := strconv.Atoi(exprStr(arg(1)))
		var ps []*Term
		for i := k - 1; i >= 0; i-- {
			d := new(big.Int).Lsh(bi(1), uint(8*i))
			ps = append(ps, c.Unit(c.Mod(c.Div(x, c.Big(d)), c.Int(256))))
		}
		return TV{c.Concat(ps...), nil}
	case "clamp":
		q := s.seq(arg(0))
		b0, b31 := c.Nth(q, c.Zero), c.Nth(q, c.Int(31))
		n0 := c.Sub(b0, c.Mod(b0, c.Int(8)))
		n31 := c.Add(c.Mod(b31, c.Int(64)), c.Int(64))
		return TV{c.Concat(c.Unit(n0), c.Extract(q, c.One, c.Int(30)), c.Unit(n31)), nil}
	case "nev":
		return TV{c.Int(int64(len(s.evs(arg(0))))), nil}
	case "evarg":
		ev := s.ev1(arg(0), arg(1))
		i := s.intc(arg(2))
		return TV{ev.args[i], ev.argT[i]}
	case "evres":
		ev := s.ev1(arg(0), arg(1))
		i := s.intc(arg(2))
		return TV{ev.res[i], ev.resT[i]}
	case "before":
		a, b := s.evs(arg(0)), s.evs(arg(1))
		return TV{c.Bool(len(a) == 0 || len(b) == 0 || a[len(a)-1] < b[0]), nil}
	case "at":
		ev := s.ev1(arg(0), arg(1))
		in := *s
		in.heap = ev.heap
		return in.ev(arg(2))
	case "fresh":
		tv := s.ev(arg(0))
		switch v := tv.v.(type) {
		case *SliceV:
			return TV{c.Or(c.Eq(v.n, c.Zero), s.e.freshRef(v.arr)), nil}
		}
		return TV{s.e.freshRef(s.asTerm(tv, n)), nil}
	case "ok":
		return TV{c.Eq(s.term(arg(0)), c.Zero), nil}
	case "nilseq":
		return TV{c.App("NILSEQ", SSeq), nil}
	case "opt", "oseq":
		tv := s.ev(arg(0))
		return TV{s.e.flatVal(s.st, s.heap, tv.v, tv.t), nil}
	case "ser":
		tv := s.ev(arg(0))
		iv, ok := tv.v.(*IfaceV)
		if !ok {
			sfail("ser of a non-interface")
		}
		var fl []*Term
		if len(n.Args) == 2 {
			p := s.ev(arg(1))
			pt, ok := ptrTo(p.t)
			if ok {
				fl, ok = s.e.flatArgs(s.st, s.heap, pt, p.v.(*Term))
			}
			if !ok {
				sfail("ser of %s", exprStr(arg(1)))
			}
		} else {
			for _, a := range n.Args[1:] {
				t := s.ev(a)
				fl = append(fl, s.e.flatVal(s.st, s.heap, t.v, t.t))
			}
		}
		return TV{s.e.serTerm(iv, typeName(tv.t), fl), nil}
	case "des", "desnil", "desok":
		// des(serializer, bytes, Field)
		tv := s.ev(arg(0))
		iv, ok := tv.v.(*IfaceV)
		if !ok {
			sfail("des of a non-interface")
		}
		in, nm := s.seq(arg(1)), typeName(tv.t)
		if id.Name == "desok" {
			return TV{s.e.desTerm(iv, nm, in, "ok", SBool), nil}
		}
		f := exprStr(arg(2))
		it := tv.t.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != "Deserialize" {
				continue
			}
			pt, _ := ptrTo(it.Method(i).Type().(*types.Signature).Results().At(0).Type())
			ft := fieldType(pt, f)
			if ft == nil {
				break
			}
			if id.Name == "desnil" {
				return TV{s.e.desNil(iv, nm, in, f), nil}
			}
			v := s.e.desField(iv, nm, in, f, ft)
			if _, ok := ft.Underlying().(*types.Slice); ok {
				v = c.Ite(s.e.desNil(iv, nm, in, f), c.Empty, v)
			}
			return TV{v, nil}
		}
		sfail("no field %s", f)
	case "pm":
		// pm("pkg.Message", fields...): the protobuf encoding
		tn := s.str(arg(0))
		t := s.e.P.namedType(tn)
		if t == nil {
			sfail("unknown type %s", tn)
		}
		fs := pbFields(t)
		if len(fs) != len(n.Args)-1 {
			sfail("%s has %d fields", tn, len(fs))
		}
		var as []*Term
		for i := range fs {
			tv := s.ev(arg(i + 1))
			switch v := tv.v.(type) {
			case *SliceV:
				as = append(as, c.Not(c.Eq(v.arr, c.Zero)), s.e.content(s.heap, v))
				continue
			case *Term:
				if p, ok := ptrTo(tv.t); ok && typeName(p) == "optional.Uint32" {
					o := s.e.flatVal(s.st, s.heap, v, tv.t)
					has := c.Ge(o, c.Zero)
					as = append(as, has, c.Ite(has, o, c.Zero))
					continue
				}
				as = append(as, c.T, v)
				continue
			}
			sfail("pm field %s", exprStr(arg(i+1)))
		}
		return TV{c.App("PM:"+typeName(t), SSeq, as...), nil}
	case "pbok", "pbhas", "pbval":
		// pbval("pkg.Message", Field, bytes)
		tn := s.str(arg(0))
		t := s.e.P.namedType(tn)
		if t == nil {
			sfail("unknown type %s", tn)
		}
		if id.Name == "pbok" {
			return TV{s.e.pbOK(t, s.seq(arg(1))), nil}
		}
		fn := exprStr(arg(1))
		key := structKey(t) + "." + fn
		for i, f := range pbFields(t) {
			if f.name != fn {
				continue
			}
			has, val := s.e.pbGet(t, i, f, s.seq(arg(2)))
			if id.Name == "pbhas" {
				return TV{has, nil}
			}
			if _, ok := f.t.Underlying().(*types.Slice); ok {
				return TV{c.Ite(has, val, c.Empty), nil}
			}
			return TV{c.Ite(has, val, c.Zero), nil}
		}
		sfail("field %s", key)
	case "lexlt":
		return TV{s.e.lexlt(s.seq(arg(0)), s.seq(arg(1))), nil}
	case "typed":
		// typed(x, "pkg.T"): the pointer inside an interface or an untyped term
		tn := s.str(arg(1))
		t := s.e.P.namedType(strings.TrimPrefix(tn, "*"))
		if t == nil {
			sfail("unknown type %s", tn)
		}
		tv := s.ev(arg(0))
		return TV{s.asTerm(tv, n), types.NewPointer(t)}
	case "boxed":
		// boxed(x, "bool"), boxed(x, "[64]byte"): the value in an interface
		iv, ok := s.ev(arg(0)).v.(*IfaceV)
		if !ok {
			sfail("boxed of a non-interface")
		}
		t := map[string]types.Type{"bool": types.Typ[types.Bool], "[64]byte": types.NewArray(types.Universe.Lookup("byte").Type(), 64)}[s.str(arg(1))]
		if t == nil {
			sfail("boxed: unknown type")
		}
		return TV{s.e.load(s.st, s.heap, "box:"+typeName(t), iv.ref, t), t}
	case "isboxed":
		iv, ok := s.ev(arg(0)).v.(*IfaceV)
		if !ok {
			sfail("isboxed of a non-interface")
		}
		t := map[string]types.Type{"bool": types.Typ[types.Bool], "[64]byte": types.NewArray(types.Universe.Lookup("byte").Type(), 64)}[s.str(arg(1))]
		if t == nil {
			sfail("isboxed: unknown type")
		}
		return TV{c.Eq(iv.tag, c.Int(int64(s.e.P.tagOf(t)))), nil}
	case "tag":
		tv := s.ev(arg(0))
		if iv, ok := tv.v.(*IfaceV); ok {
			return TV{iv.tag, nil}
		}
	case "jsonable":
		// every exported field has a name of its own in JSON, at every depth
		t := s.ev(arg(0)).t
		if pt, ok := ptrTo(t); ok {
			t = pt
		}
		if t == nil {
			sfail("jsonable of an untyped value")
		}
		if jsonable(t, map[types.Type]bool{}) {
			return TV{c.T, nil}
		}
		return TV{c.F, nil}
	case "hastype":
		iv, ok := s.ev(arg(0)).v.(*IfaceV)
		if !ok {
			sfail("hastype on non-interface")
		}
		tn := s.str(arg(1))
		star := strings.HasPrefix(tn, "*")
		t := s.e.P.namedType(strings.TrimPrefix(tn, "*"))
		if t == nil {
			sfail("unknown type %s", tn)
		}
		if star {
			t = types.NewPointer(t)
		}
		return TV{c.Eq(iv.tag, c.Int(int64(s.e.P.tagOf(t)))), nil}
	}
	if r := id.Name[0]; r >= 'A' && r <= 'Z' {
		var as []*Term
		for _, a := range n.Args {
			tv := s.ev(a)
			as = append(as, s.asTerm(tv, a))
		}
		so, ok := funSort[id.Name]
		if !ok {
			so = SSeq
			if strings.HasPrefix(id.Name, "I_") {
				so = SInt
			}
			if strings.HasPrefix(id.Name, "B_") {
				so = SBool
			}
			if strings.HasPrefix(id.Name, "W_") {
				so = SSeqW
			}
		}
		if id.Name == "DEC5" && len(as) == 1 {
			return TV{s.e.dec5(as[0]), nil}
		}
		if id.Name == "ITOA" && len(as) == 1 {
			return TV{s.e.itoa(as[0]), nil}
		}
		t := s.e.app(id.Name, so, as...)
		if macro != nil && s.e.con != nil && s.e.con.reveal[id.Name] {
			if d, ok := expand(macro).v.(*Term); ok {
				s.e.assumeOnce(s.e.c.Eq(t, d))
			}
		}
		return TV{t, nil}
	}
	sfail("unknown function %s", id.Name)
	return TV{}
}

func (s *SEnv) str(x ast.Expr) string {
	l, ok := x.(*ast.BasicLit)
	if !ok {
		sfail("string literal expected")
	}
	v, _ := strconv.Unquote(l.Value)
	return v
}

func (s *SEnv) intc(x ast.Expr) int {
	t := s.term(x)
	if t.op != OConst {
		sfail("constant expected")
	}
	return int(t.k.Int64())
}

func (s *SEnv) evs(x ast.Expr) []int {
	name := s.str(x)
	if s.caller {
		panic(noEvent{})
	}
	var r []int
	for i, ev := range s.events {
		if ev.name == name || strings.HasSuffix(ev.name, "."+name) {
			if ev.maybe {
				sfail("%s may be called by a callee", name)
			}
			r = append(r, i)
		}
	}
	return r
}

func (s *SEnv) ev1(name, idx ast.Expr) *Event {
	l := s.evs(name)
	i := s.intc(idx)
	if i < 0 || i >= len(l) {
		panic(noEvent{})
	}
	return s.events[l[i]]
}

type noEvent struct{}

// implied: a consequent about a call that was not made holds when a does not.
func (s *SEnv) implied(a *Term, x ast.Expr) (r *Term) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(noEvent); ok && !s.caller {
				r = s.e.c.Not(a)
				return
			}
			panic(p)
		}
	}()
	return s.e.c.Imp(a, s.boolean(x))
}

func (e *Eng) app(name string, so Sort, as ...*Term) *Term {
	return e.c.App(name, so, as...)
}

// freshRef: the reference was created by the verified call.
func (e *Eng) freshRef(r *Term) *Term {
	c := e.c
	if r.op == OIte {
		return c.Ite(r.args[0], e.freshRef(r.args[1]), e.freshRef(r.args[2]))
	}
	if r.isFA() {
		return e.freshRef(r.args[0])
	}
	if bk := bucketOf(r); bk != nil {
		return c.Bool(!e.notOwned[bk.String()])
	}
	return c.Gt(r, c.Int(globMax))
}

// jsonable reports whether encoding/json writes every exported field of t under
// a name of its own, so that reading back restores it.
func jsonable(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m); o != nil {
			sfail("%s has a method %s", t, m)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
	case *types.Pointer:
		return jsonable(u.Elem(), seen)
	case *types.Slice:
		return jsonable(u.Elem(), seen)
	case *types.Array:
		return jsonable(u.Elem(), seen)
	case *types.Struct:
		names := map[string]bool{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				sfail("%s has an embedded field", t)
			}
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			n, opts, _ := strings.Cut(tag, ",")
			if tag == "-" {
				return false
			}
			if opts != "" && opts != "string" {
				if _, ok := f.Type().Underlying().(*types.Pointer); !ok || opts != "omitempty" {
					sfail("json option %s", opts)
				}
			}
			if n == "" {
				n = f.Name()
			}
			n = strings.ToLower(n)
			if names[n] || !jsonable(f.Type(), seen) {
				return false
			}
			names[n] = true
		}
		return true
	}
	return false
}
