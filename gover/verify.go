package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type FuncResult struct {
	Name      string
	Status    string // proved, failed, undecided, trusted, missing
	Msg       string
	Obls      []*Obl
	Seconds   float64
	Solver    float64
	Paths     int
	Used      []string
	Inlined   []string
	Trusted   []string
	Notes     []string
	Unreached []string
}

func verify(P *Program, con *Contract) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Name: con.name}
	f := P.funcs[con.name]
	if con.trusted {
		res.Status = "trusted"
		return
	}
	if f == nil {
		res.Status = "missing"
		res.Msg = "no such function in the current source"
		return
	}
	if con.arith {
		return verifyArith(P, con)
	}
	e := newEng(P)
	e.debug = *flagDebug
	e.con = con
	e.rootName = con.name
	if con.deadline > 0 {
		e.deadline = time.Now().Add(time.Duration(con.deadline) * time.Second)
	}
	defer func() {
		e.s.Close()
		res.Seconds = time.Since(t0).Seconds()
		res.Obls = e.obls
		res.Solver = e.s.time.Seconds()
		res.Paths = e.paths
		res.Used, res.Inlined, res.Trusted, res.Notes = sortedKeys(e.used), sortedKeys(e.inlined), sortedKeys(e.trusted), sortedKeys(e.notes)
		if p := recover(); p != nil {
			if u, ok := p.(unsup); ok {
				res.Status = "undecided"
				res.Msg = u.msg + " [" + e.site + "]"
			} else {
				res.Status = "undecided"
				if os.Getenv("GOVER_STACK") != "" {
					debug.PrintStack()
				}
				res.Msg = fmt.Sprint("internal: ", p)
				if e.debug {
					fmt.Println(string(debug.Stack()))
				}
			}
			return
		}
		res.Status = "proved"
		for _, b := range f.Blocks {
			if !e.visited[b] {
				w := "block " + fmt.Sprint(b.Index)
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						w = P.prog.Fset.Position(in.Pos()).String()
						break
					}
				}
				res.Unreached = append(res.Unreached, b.Comment+" "+w)
			}
		}
		for _, o := range e.obls {
			if !o.OK {
				res.Status = "failed"
			}
		}
		if e.paths == 0 {
			res.Status = "undecided"
			res.Msg = "no path reaches the end of the function"
		}
	}()
	e.checkFunc(con)
	return
}

func (e *Eng) checkFunc(con *Contract) {
	c := e.c
	f := e.P.funcs[con.name]
	pts := sigParams(f)
	if len(con.params) != len(pts) || len(con.results) != f.Signature.Results().Len() {
		unsupported("contract does not match the signature of %s", con.name)
	}
	st := &State{heap: &Heap{map[string]*Entry{}}}
	e.entry = &Heap{map[string]*Entry{}}
	vars := map[string]TV{}
	var args []Val
	for i, p := range con.params {
		var v Val
		if e.needNonNil(con, p, pts[i]) {
			if _, ok := pts[i].Underlying().(*types.Pointer); ok {
				v = c.FreshRange(p, bi(1), bi(OldMax))
			} else if ct := e.closed(pts[i]); ct != nil {
				v = &IfaceV{c.Int(int64(e.P.tagOf(ct))), c.FreshRange(p, bi(1), bi(OldMax))}
			} else {
				v = &IfaceV{c.FreshRange(p+".tag", bi(1), bi(1<<30)), c.FreshRange(p, bi(1), bi(OldMax))}
			}
		} else {
			v = e.symbolic(st, p, pts[i], true)
		}
		vars[p] = TV{v, pts[i]}
		args = append(args, v)
	}
	e.topFn, e.topArgs = f, args
	env := &SEnv{e: e, vars: vars, st: st, heap: e.entry, old: e.entry, pkg: pkgOf(f), lets: e.letMap(con)}
	for _, r := range con.requires {
		e.assume(env.boolean(r.expr))
	}
	if !e.feasible() {
		unsupported("the precondition is unsatisfiable")
	}
	e.site = con.name
	e.callBody(f, args, nil, st, 0, []string{con.name}, func(s2 *State, rs []Val) {
		e.atReturn(con, vars, s2, rs)
	})
}

func (e *Eng) atReturn(con *Contract, vars map[string]TV, st *State, rs []Val) {
	c := e.c
	f := e.P.funcs[con.name]
	e.paths++
	if e.paths > 4000 {
		unsupported("too many paths")
	}
	site := e.site
	defer func() { e.site = site }()
	roots := append([]Val{}, rs...)
	for _, ev := range st.events {
		roots = append(roots, ev.args...)
	}
	e.checkEscaping(st, roots)
	all := map[string]TV{}
	for k, v := range vars {
		all[k] = v
	}
	for i, r := range con.results {
		all[r] = TV{rs[i], f.Signature.Results().At(i).Type()}
	}
	e.checkEmits(con, st)
	genv := &SEnv{e: e, vars: all, st: st, heap: e.entry, old: e.entry, pkg: pkgOf(f), lets: e.letMap(con), events: st.events, post: st.heap}
	env := &SEnv{e: e, vars: all, st: st, heap: st.heap, old: e.entry, pkg: pkgOf(f), lets: e.letMap(con), events: st.events, oldv: vars}
	run := func(cs *Case) {
		ens := con.body.ensures
		mods := con.body.modifies
		fr := con.body.fresh
		if cs != nil {
			ens = append(ens[:len(ens):len(ens)], cs.ensures...)
			mods = append(mods[:len(mods):len(mods)], cs.modifies...)
			fr = append(fr[:len(fr):len(fr)], cs.fresh...)
		}
		type fresh struct {
			t   types.Type
			ref *Term
			cl  Clause
		}
		var prev []fresh
		for _, cl := range fr {
			tv := env.ev(cl.expr)
			var g *Term
			// callers take the fresh objects of one call to be different objects
			var me *Term
			some := c.T
			if v, ok := tv.v.(*SliceV); ok {
				me, some = v.arr, c.Not(c.Eq(v.cap, c.Zero))
			} else {
				me = env.asTerm(tv, cl.expr)
			}
			for _, p := range prev {
				if p.t != nil && tv.t != nil && types.Identical(p.t.Underlying(), tv.t.Underlying()) {
					e.oblige("ensures", con.name+" fresh", e.labelsOf(con, cl.labels, []string{"C20"}), c.Imp(some, c.Not(e.refEq(p.ref, me))), "fresh "+p.cl.text+" and "+cl.text+" are different objects")
				}
			}
			prev = append(prev, fresh{tv.t, me, cl})
			switch v := tv.v.(type) {
			case *SliceV:
				g = c.Or(c.Eq(v.cap, c.Zero), e.freshRef(v.arr))
			default:
				g = e.freshRef(env.asTerm(tv, cl.expr))
			}
			e.oblige("ensures", con.name+" fresh", e.labelsOf(con, cl.labels, []string{"C20"}), g, "fresh "+cl.text)
		}
		for i := range ens {
			cl := &ens[i]
			e.ensure(con, env, cl)
		}
		if !con.noFrame {
			e.frame(con, genv, st, mods)
		}
	}
	if len(con.cases) == 0 {
		run(nil)
		return
	}
	rest := c.T
	for i := range con.cases {
		cs := &con.cases[i]
		gd := genv.boolean(cs.guard.expr)
		rest = c.And(rest, c.Not(gd))
		e.branch(gd, func() { run(cs) })
	}
	e.branch(rest, func() { run(nil) })
}

func (e *Eng) labelsOf(con *Contract, ls, def []string) []string {
	if len(ls) > 0 {
		return ls
	}
	if def != nil {
		return append(append([]string{}, def...), con.labels...)
	}
	return con.labels
}

func (e *Eng) ensure(con *Contract, env *SEnv, cl *Clause) {
	var g *Term
	miss := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(noEvent); ok {
					miss = true
					return
				}
				panic(p)
			}
		}()
		g = env.boolean(cl.expr)
	}()
	if miss {
		g = e.c.F
	}
	e.oblige("ensures", con.name+" ensures "+cl.where, e.labelsOf(con, cl.labels, nil), g, cl.text)
}

func (e *Eng) checkEmits(con *Contract, st *State) {
	for _, ev := range st.events {
		if strings.HasSuffix(ev.name, "Serialize") || strings.HasSuffix(ev.name, "Deserialize") || ev.name == "rand.Read" || strings.HasPrefix(ev.name, "json.") {
			continue
		}
		ok := false
		for _, n := range con.emits {
			if ev.name == n || strings.HasSuffix(ev.name, "."+n) {
				ok = true
			}
		}
		if !ok {
			e.oblige("frame", con.name+" calls", con.labels, e.c.F, "no call of "+ev.name)
		}
	}
}

// frame: every cell outside the modifies clause and outside objects made by
// this call keeps its value.
func (e *Eng) frame(con *Contract, genv *SEnv, st *State, mods []Clause) {
	c := e.c
	type loc struct {
		key string
		ref *Term
	}
	allowed := map[string][]*Term{}
	havoc := map[string]bool{}
	for _, m := range mods {
		for _, l := range genv.locations(m.expr) {
			if l.ref == nil {
				havoc[l.key] = true
				continue
			}
			allowed[l.key] = append(allowed[l.key], l.ref)
		}
	}
	var keys = map[string]bool{}
	for k := range st.heap.m {
		keys[k] = true
	}
	for _, key := range sortedKeys(keys) {
		if strings.HasPrefix(key, "ghost:") || strings.HasPrefix(key, "box:") || havoc[key] {
			continue
		}
		seen := map[*Term]bool{}
		for en := st.heap.m[key]; en != nil; en = en.prev {
			if en.kind == 'h' {
				e.oblige("frame", con.name+" frame", e.frameLabels(con, key), c.F, "frame: "+key+" unchanged")
				break
			}
			if en.kind != 'w' || en.def || seen[en.ref] {
				continue
			}
			seen[en.ref] = true
			g := e.freshRef(en.ref)
			if g == c.T {
				continue
			}
			ok := false
			for _, r := range allowed[key] {
				q := e.refEq(en.ref, r)
				if q == c.T {
					ok = true
					break
				}
				g = c.Or(g, q)
			}
			if ok || g == c.T {
				continue
			}
			l := e.leafOfKey(key, st, en.ref)
			same := c.Eq(e.read(st.heap, key, l, en.ref), e.read(e.entry, key, l, en.ref))
			save := e.site
			e.site = en.site
			e.oblige("frame", con.name+" frame", e.frameLabels(con, key), c.Or(g, same), "frame: "+key+" unchanged outside the modifies clause")
			e.site = save
		}
	}
}

func (e *Eng) frameLabels(con *Contract, key string) []string {
	ls := append([]string{}, con.modLabels...)
	if key == "bytes" {
		ls = append(ls, "C20")
	}
	if len(con.modLabels) == 0 {
		ls = append(ls, con.labels...)
	}
	return ls
}
