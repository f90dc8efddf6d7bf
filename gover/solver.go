package main

// The solver back end: an incremental z3 process per verified function, with
// byte sequences encoded as an uninterpreted sort whose lengths and literals
// are axiomatised, and a portfolio of fresh solver runs (other versions, native
// sequence theory) for goals the incremental process does not settle.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Enc struct {
	native bool
	out    func(string)
	decl   map[string]bool
	defs   map[*Term]string
	facts  []map[*Term]bool    // per scope
	exts   []map[*Term][]*Term // per scope: the parts taken of a sequence
	lits   map[string]string
}

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	rd      *bufio.Reader
	enc     *Enc
	stack   [][]*Term // asserted terms per scope, for the portfolio
	queries int
	time    time.Duration
	backend map[string]int
	dead    bool
	log     *strings.Builder
}

func NewEnc(native bool, out func(string)) *Enc {
	return &Enc{native: native, out: out, decl: map[string]bool{}, defs: map[*Term]string{}, facts: []map[*Term]bool{{}}, exts: []map[*Term][]*Term{{}}, lits: map[string]string{}}
}

const preamble = `(set-option :global-declarations true)
(set-option :smt.mbqi false)
(set-option :auto_config false)
(set-option :smt.arith.solver 6)
`
const seqPreamble = `(declare-sort Sq 0)
(declare-fun sq.len (Sq) Int)
(declare-fun sq.nth (Sq Int) Int)
(declare-fun sq.cat (Sq Sq) Sq)
(declare-fun sq.ext (Sq Int Int) Sq)
(declare-fun sq.unit (Int) Sq)
(declare-fun sq.unitval (Sq) Int)
(declare-fun sq.rep (Int Int) Sq)
(declare-fun sq.lit (Sq) Int)
`

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, backend: map[string]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.rd = bufio.NewReader(out)
	s.enc = NewEnc(false, s.send)
	s.stack = [][]*Term{{}}
	s.send(preamble + seqPreamble)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) Push() {
	s.send("(push)\n")
	s.enc.facts = append(s.enc.facts, map[*Term]bool{})
	s.enc.exts = append(s.enc.exts, map[*Term][]*Term{})
	s.stack = append(s.stack, nil)
}

func (s *Solver) Pop() {
	s.send("(pop)\n")
	s.enc.facts = s.enc.facts[:len(s.enc.facts)-1]
	s.enc.exts = s.enc.exts[:len(s.enc.exts)-1]
	s.stack = s.stack[:len(s.stack)-1]
}

func (s *Solver) Assert(t *Term) {
	if t.op == OTrue {
		return
	}
	n := len(s.stack) - 1
	s.stack[n] = append(s.stack[n], t)
	s.enc.assert(t)
}

func (s *Solver) Check(timeoutMs int) Result {
	if s.dead {
		return Unknown
	}
	t0 := time.Now()
	s.queries++
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n", timeoutMs))
	r := s.readResult(time.Duration(timeoutMs)*time.Millisecond*3 + 5*time.Second)
	s.time += time.Since(t0)
	return r
}

func (s *Solver) readResult(limit time.Duration) Result {
	type lr struct {
		l   string
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		for {
			l, err := s.rd.ReadString('\n')
			if err != nil {
				ch <- lr{l, err}
				return
			}
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				ch <- lr{l, nil}
				return
			}
			if strings.HasPrefix(l, "(error") {
				ch <- lr{l, fmt.Errorf("%s", l)}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.dead = true
			if s.log != nil || os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver error:", r.l, r.err)
			}
			return Unknown
		}
		switch r.l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
		return Unknown
	case <-time.After(limit):
		s.dead = true
		s.cmd.Process.Kill()
		return Unknown
	}
}

// ---- encoding ----------------------------------------------------------

func (e *Enc) sort(s Sort) string {
	switch s {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	}
	if e.native {
		return "(Seq Int)"
	}
	return "Sq"
}

func quote(n string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func num(t *Term) string {
	if t.k.Sign() < 0 {
		return "(- " + t.k.String()[1:] + ")"
	}
	return t.k.String()
}

func (e *Enc) declare(name string, args []Sort, ret Sort) {
	if e.decl[name] {
		return
	}
	e.decl[name] = true
	var p []string
	for _, a := range args {
		p = append(p, e.sort(a))
	}
	e.out(fmt.Sprintf("(declare-fun %s (%s) %s)\n", quote(name), strings.Join(p, " "), e.sort(ret)))
}

func (e *Enc) hasFact(t *Term) bool {
	for _, m := range e.facts {
		if m[t] {
			return true
		}
	}
	return false
}

func (e *Enc) assert(t *Term) {
	str := e.term(t)
	e.out("(assert " + str + ")\n")
}

// term prints a term; ground compound terms become global definitions.
func (e *Enc) term(t *Term) string {
	if !t.hasBV {
		e.addFacts(t)
	}
	if d, ok := e.defs[t]; ok {
		return d
	}
	b := e.body(t)
	if t.hasBV || len(t.args) == 0 {
		return b
	}
	n := fmt.Sprintf("t%d", t.id)
	e.out(fmt.Sprintf("(define-fun %s () %s %s)\n", n, e.sort(t.sort), b))
	e.defs[t] = n
	return n
}

func (e *Enc) addFacts(t *Term) {
	if e.hasFact(t) {
		return
	}
	e.facts[len(e.facts)-1][t] = true
	if t.op == OForall {
		// facts for ground subterms inside are added when printed
	}
	for _, a := range t.args {
		if !a.hasBV {
			e.addFacts(a)
		}
	}
	ranged := t.sort == SInt && (t.op == OVar || t.op == OApp || t.op == OLen || t.op == ONth || t.op == OFirst)
	if ranged && (t.lo != nil || t.hi != nil) {
		d := e.term1(t)
		if t.lo != nil {
			e.out("(assert (<= " + numB(t.lo.String()) + " " + d + "))\n")
		}
		if t.hi != nil {
			e.out("(assert (<= " + d + " " + numB(t.hi.String()) + "))\n")
		}
	}
	if t.op == OApp && (t.name == "I_FMUL" || t.name == "I_FADD") && len(t.args) == 2 {
		// sum and product of the field commute
		d := e.term1(t)
		e.out(fmt.Sprintf("(assert (= %s (%s %s %s)))\n", d, quote(t.name), e.term1(t.args[1]), e.term1(t.args[0])))
	}
	if t.op == OApp && t.name == "DH" && len(t.args) == 2 && t.args[0].op == OApp && t.args[0].name == "PUB" {
		// both sides of an agreement, also for keys that are only known to be equal
		d := e.term1(t)
		e.declare("PUB", []Sort{SSeq}, SSeq)
		e.out(fmt.Sprintf("(assert (= %s (%s (%s %s) %s)))\n", d, quote("DH"), quote("PUB"), e.term1(t.args[1]), e.term1(t.args[0].args[0])))
	}
	if t.op == OApp && t.name == "CBCENC" && len(t.args) == 3 {
		// decryption inverts encryption, also for keys that are only known to be equal
		d := e.term1(t)
		e.declare("CBCDEC", []Sort{SSeq, SSeq, SSeq}, SSeq)
		e.out(fmt.Sprintf("(assert (= (%s %s %s %s) %s))\n", quote("CBCDEC"), e.term1(t.args[0]), e.term1(t.args[1]), d, e.term1(t.args[2])))
	}
	if t.isFA() {
		e.declare("inv:"+t.name, []Sort{SInt}, SInt)
		e.out(fmt.Sprintf("(assert (= (%s %s) %s))\n", quote("inv:"+t.name), e.term1(t), e.term1(t.args[0])))
	}
	if t.sort.isSeq() && !e.native {
		c := theCtxOf(t)
		d := e.term1(t)
		l := c.Len(t)
		if l.op == OLen {
			e.out(fmt.Sprintf("(assert (>= (sq.len %s) 0))\n", d))
		} else if l.op == OConst {
			e.out(fmt.Sprintf("(assert (= (sq.len %s) %s))\n", d, num(l)))
		} else if t.op == OExtract || t.op == ORepeat {
			ls := e.term(l)
			e.out(fmt.Sprintf("(assert (=> (>= %s 0) (= (sq.len %s) %s)))\n", ls, d, ls))
		} else {
			e.out(fmt.Sprintf("(assert (= (sq.len %s) %s))\n", d, e.term(l)))
		}
		// first elements, so that equal sequences have equal ones
		if t.op == OExtract && t.args[2] != c.Zero {
			e.out(fmt.Sprintf("(assert (=> (> %s 0) (= (sq.nth %s 0) (sq.nth %s %s))))\n", e.term(t.args[2]), d, e.term1(t.args[0]), e.term(t.args[1])))
		}
		if t.op == OExtract && !t.args[0].hasBV {
			base := t.args[0]
			for _, m := range e.exts {
				for _, u := range m[base] {
					e.nested(c, t, u)
					e.nested(c, u, t)
				}
			}
			top := e.exts[len(e.exts)-1]
			top[base] = append(top[base], t)
		}
		if t.op == OConcat {
			if n := c.Nth(t, c.Zero); n.op == OConst {
				e.out(fmt.Sprintf("(assert (= (sq.nth %s 0) %s))\n", d, e.term(n)))
			}
		}
		switch t.op {
		case OLit:
			e.out(fmt.Sprintf("(assert (= (sq.lit %s) %d))\n", d, t.id))
		case OUnit:
			e.out(fmt.Sprintf("(assert (= (sq.unitval %s) %s))\n", d, e.term1(t.args[0])))
		case OConcat:
			// boundary facts used for cancellation
			if len(t.args) == 2 {
				a, b := t.args[0], t.args[1]
				e.out(fmt.Sprintf("(assert (= (sq.ext %s 0 %s) %s))\n", d, e.term(c.Len(a)), e.term1(a)))
				e.out(fmt.Sprintf("(assert (= (sq.ext %s %s %s) %s))\n", d, e.term(c.Len(a)), e.term(c.Len(b)), e.term1(b)))
			} else {
				off := c.Zero
				for _, a := range t.args {
					e.out(fmt.Sprintf("(assert (= (sq.ext %s %s %s) %s))\n", d, e.term(off), e.term(c.Len(a)), e.term1(a)))
					off = c.Add(off, c.Len(a))
				}
			}
		}
	}
	if t.sort.isSeq() && e.native {
		d := e.term1(t)
		c := theCtxOf(t)
		l := c.Len(t)
		if l.op != OLen && t.op != OConcat && t.op != OLit && t.op != OUnit {
			ls := e.term(l)
			e.out(fmt.Sprintf("(assert (=> (>= %s 0) (= (seq.len %s) %s)))\n", ls, d, ls))
		}
	}
	if t.op == OSeqFn {
		c := theCtxOf(t)
		d := e.term1(t)
		f := "sq.nth"
		if e.native {
			f = "seq.nth"
		}
		vn := quote(t.bound.name)
		pat := ""
		if !e.native {
			pat = " :pattern ((" + f + " " + d + " " + vn + "))"
		}
		body := "(=> (and (<= 0 " + vn + ") (< " + vn + " " + e.term(t.args[0]) + ")) (= (" + f + " " + d + " " + vn + ") " + e.term(t.args[1]) + "))"
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		e.out("(assert (forall ((" + vn + " Int)) " + body + "))\n")
		_ = c
	}
	if t.op == OFirst {
		c := theCtxOf(t)
		lo, hi, b := t.args[0], t.args[1], t.args[2]
		e.assert(c.Imp(c.Le(lo, hi), c.And(c.Le(lo, t), c.Le(t, hi))))
		e.assert(c.Imp(c.And(c.Le(lo, t), c.Lt(t, hi)), c.Subst(b, map[*Term]*Term{t.bound: t})))
		e.assert(c.Forall(t.bound, lo, t, c.Not(b)))
	}
}

// nested: the part u of the same sequence, when it lies a known distance inside
// the part t, is a part of t.
func (e *Enc) nested(c *Ctx, t, u *Term) {
	d := c.Sub(u.args[1], t.args[1])
	if d.op != OConst || d.k.Sign() < 0 || u.args[2].op != OConst {
		return
	}
	e.out(fmt.Sprintf("(assert (=> (<= %s %s) (= (sq.ext %s %s %s) %s)))\n", e.term(c.Add(d, u.args[2])), e.term(t.args[2]),
		e.term1(t), e.term(d), e.term(u.args[2]), e.term1(u)))
}

func (e *Enc) term1(t *Term) string { return e.term(t) }

func theCtxOf(t *Term) *Ctx { return t.ctx }

func numB(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (e *Enc) app(f string, args ...string) string {
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func (e *Enc) body(t *Term) string {
	switch t.op {
	case OConst:
		return num(t)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		if !t.hasBV {
			e.declare(t.name, nil, t.sort)
		}
		return quote(t.name)
	case OSum:
		var p []string
		for i, a := range t.args {
			x := e.term(a)
			co := t.coefs[i]
			if co.IsInt64() && co.Int64() == 1 {
				p = append(p, x)
			} else {
				p = append(p, "(* "+numB(co.String())+" "+x+")")
			}
		}
		if t.k.Sign() != 0 {
			p = append(p, numB(t.k.String()))
		}
		if len(p) == 1 {
			return p[0]
		}
		return e.app("+", p...)
	case OMul:
		return e.app("*", e.terms(t)...)
	case ODiv:
		return e.app("div", e.terms(t)...)
	case OMod:
		return e.app("mod", e.terms(t)...)
	case OIte:
		return e.app("ite", e.terms(t)...)
	case OEq:
		return e.app("=", e.terms(t)...)
	case OLe:
		return e.app("<=", e.term(t.args[0]), "0")
	case ONot:
		return e.app("not", e.term(t.args[0]))
	case OAnd:
		return e.app("and", e.terms(t)...)
	case OOr:
		return e.app("or", e.terms(t)...)
	case OApp:
		var so []Sort
		for _, a := range t.args {
			so = append(so, a.sort)
		}
		e.declare(t.name, so, t.sort)
		if len(t.args) == 0 {
			return quote(t.name)
		}
		return e.app(quote(t.name), e.terms(t)...)
	case OForall:
		return e.forall(t)
	case OSeqFn, OFirst:
		n := fmt.Sprintf("bind:%d", t.id)
		e.declare(n, nil, t.sort)
		return quote(n)
	}
	if e.native {
		switch t.op {
		case OLit:
			if t.name == "" && t.sort.isSeq() {
				return "(as seq.empty (Seq Int))"
			}
			var p []string
			for i := 0; i < len(t.name); i++ {
				p = append(p, fmt.Sprintf("(seq.unit %d)", t.name[i]))
			}
			if len(p) == 1 {
				return p[0]
			}
			return e.app("seq.++", p...)
		case OConcat:
			return e.app("seq.++", e.terms(t)...)
		case OExtract:
			return e.app("seq.extract", e.terms(t)...)
		case OUnit:
			return e.app("seq.unit", e.terms(t)...)
		case OLen:
			return e.app("seq.len", e.terms(t)...)
		case ONth:
			return e.app("seq.nth", e.terms(t)...)
		case ORepeat:
			e.declare("sq.rep", []Sort{SInt, SInt}, SSeq)
			return e.app("|sq.rep|", e.terms(t)...)
		}
	}
	switch t.op {
	case OLit:
		n := fmt.Sprintf("lit:%d", t.id)
		e.declare(n, nil, t.sort)
		return quote(n)
	case OConcat:
		ts := e.terms(t)
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = e.app("sq.cat", ts[i], r)
		}
		return r
	case OExtract:
		return e.app("sq.ext", e.terms(t)...)
	case OUnit:
		return e.app("sq.unit", e.terms(t)...)
	case OLen:
		return e.app("sq.len", e.terms(t)...)
	case ONth:
		return e.app("sq.nth", e.terms(t)...)
	case ORepeat:
		return e.app("sq.rep", e.terms(t)...)
	}
	panic("enc: " + t.String())
}

func (e *Enc) terms(t *Term) []string {
	var p []string
	for _, a := range t.args {
		p = append(p, e.term(a))
	}
	return p
}

// forall prints a bounded quantifier once per distinct offset at which the
// bound variable occurs as an argument of an uninterpreted function.
func (e *Enc) forall(t *Term) string {
	c := t.ctx
	v := t.bound
	lo, hi, body := t.args[0], t.args[1], t.args[2]
	type trig struct{ t *Term }
	shifts := map[string]*Term{} // offset -> shifted
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !x.hasBV {
			return
		}
		seen[x] = true
		if x.op == OApp || x.op == ONth {
			for _, a := range x.args {
				if a == v {
					if shifts["0"] == nil {
						shifts["0"] = c.Zero
						order = append(order, c.Zero)
					}
				} else if a.op == OSum {
					d := c.Sub(a, v)
					if !containsTerm(d, v) && len(a.args) >= 1 {
						if shifts[fmt.Sprint(d.id)] == nil {
							shifts[fmt.Sprint(d.id)] = d
							order = append(order, d)
						}
					}
				}
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(body)
	mk := func(sh *Term) string {
		// v = u - sh
		b, l, h := body, lo, hi
		if sh != c.Zero {
			u := c.Sub(v, sh)
			b = c.Subst(body, map[*Term]*Term{v: u})
			l, h = c.Add(lo, sh), c.Add(hi, sh)
		}
		var pats []string
		seenp := map[*Term]bool{}
		var pw func(x *Term)
		pw = func(x *Term) {
			if seenp[x] || !x.hasBV {
				return
			}
			seenp[x] = true
			if x.op == OApp || x.op == ONth && !e.native {
				direct := false
				okp := true
				for _, a := range x.args {
					if a == v {
						direct = true
					} else if a.hasBV {
						okp = false
					}
				}
				if direct && okp {
					pats = append(pats, ":pattern ("+e.term(x)+")")
				}
			}
			for _, a := range x.args {
				pw(a)
			}
		}
		pw(b)
		bs := e.term(b)
		rng := "(and (<= " + e.term(l) + " " + quote(v.name) + ") (< " + quote(v.name) + " " + e.term(h) + "))"
		q := "(=> " + rng + " " + bs + ")"
		if len(pats) > 0 {
			if len(pats) > 6 {
				pats = pats[:6]
			}
			q = "(! " + q + " " + strings.Join(pats, " ") + ")"
		}
		return "(forall ((" + quote(v.name) + " Int)) " + q + ")"
	}
	if len(order) == 0 {
		return mk(c.Zero)
	}
	var ps []string
	for _, o := range order {
		ps = append(ps, mk(o))
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return "(and " + strings.Join(ps, " ") + ")"
}

func containsTerm(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.hasBV && v.hasBV {
		return false
	}
	for _, a := range t.args {
		if containsTerm(a, v) {
			return true
		}
	}
	return false
}

// Portfolio runs the current assertions plus the negated goal in fresh solvers.
func (s *Solver) Portfolio(neg *Term, timeout int) (Result, string, string) {
	mkScript := func(native bool) string {
		var sb strings.Builder
		e := NewEnc(native, func(x string) { sb.WriteString(x) })
		if !native {
			sb.WriteString(seqPreamble)
		}
		for _, f := range s.stack {
			for _, t := range f {
				e.assert(t)
			}
		}
		e.assert(neg)
		sb.WriteString("(check-sat)\n")
		return sb.String()
	}
	uf := mkScript(false)
	nat := mkScript(true)
	type job struct {
		name string
		args []string
		src  string
	}
	jobs := []job{
		{"z3-5.3/uf", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", timeout)}, uf},
		{"z3-5.3/seq", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", timeout)}, nat},
		{"cvc5/uf", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout*1000)}, "(set-logic ALL)\n" + uf},
		{"z3-4.8/seq", []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", timeout)}, nat},
	}
	type res struct {
		r    Result
		name string
		out  string
	}
	ch := make(chan res, len(jobs))
	var cmds []*exec.Cmd
	t0 := time.Now()
	for _, j := range jobs {
		cmd := exec.Command(j.args[0], j.args[1:]...)
		cmd.Stdin = strings.NewReader(j.src)
		cmds = append(cmds, cmd)
		go func(j job, cmd *exec.Cmd) {
			out, _ := cmd.Output()
			o := string(out)
			r := Unknown
			for _, l := range strings.Split(o, "\n") {
				l = strings.TrimSpace(l)
				if l == "unsat" {
					r = Unsat
				} else if l == "sat" {
					r = Sat
				}
				if strings.HasPrefix(l, "(error") {
					r = Unknown
					break
				}
			}
			ch <- res{r, j.name, o}
		}(j, cmd)
	}
	best := res{Unknown, "", ""}
	for range jobs {
		r := <-ch
		if r.r == Unsat {
			best = r
			break
		}
		if r.r == Sat && best.r == Unknown {
			best = r
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	s.time += time.Since(t0)
	s.queries++
	return best.r, best.name, uf
}
