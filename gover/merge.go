package main

import (
	"golang.org/x/tools/go/ssa"
	"math/big"
)

// Joining paths: in a contract that says `merge`, the paths through an if that
// meet again are joined into one: the facts of each become implications of a
// fresh condition, and what differs becomes a conditional value.

type joinCtx struct {
	block *ssa.BasicBlock
	loops int
	got   func(fr *Frame, prev *ssa.BasicBlock, st *State)
}

type arrival struct {
	fr    *Frame
	prev  *ssa.BasicBlock
	st    *State
	facts []*Term
	phis  []Val
}

// joinOf is the block in which all paths from the if in b meet again, if none
// of them leaves the function or the loop before.
func joinOf(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		w := []*ssa.BasicBlock{from}
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if m[x] {
				continue
			}
			m[x] = true
			w = append(w, x.Succs...)
		}
		return m
	}
	ok := func(j *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{j: true}
		w := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			if x == b || len(x.Succs) == 0 || fr.info.byHeader[x] != nil {
				return false
			}
			if n := len(fr.loops); n > 0 && !fr.loops[n-1].body[x] {
				return false
			}
			w = append(w, x.Succs...)
		}
		return true
	}
	a, c := reach(b.Succs[0]), reach(b.Succs[1])
	for _, j := range b.Parent().Blocks {
		if j == b || !a[j] || !c[j] || fr.info.byHeader[j] != nil {
			continue
		}
		if n := len(fr.loops); n > 0 && !fr.loops[n-1].body[j] {
			continue
		}
		if ok(j) {
			return j
		}
	}
	return nil
}

func (e *Eng) joinIf(fr *Frame, b *ssa.BasicBlock, cond *Term, st *State) bool {
	j := joinOf(fr, b)
	if j == nil {
		return false
	}
	var arr []*arrival
	n := len(e.pc)
	serial := e.serial
	joins := fr.joins
	side := func(i int) {
		f := fr.clone()
		f.joins = append(joins[:len(joins):len(joins)], joinCtx{j, len(fr.loops), func(g *Frame, prev *ssa.BasicBlock, s *State) {
			a := &arrival{g, prev, s, append([]*Term(nil), e.pc[n:]...), nil}
			for _, in := range j.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if prev == nil {
					a.phis = append(a.phis, g.env[p])
				}
				for k, pr := range j.Preds {
					if pr == prev {
						a.phis = append(a.phis, e.val(g, p.Edges[k]))
					}
				}
			}
			arr = append(arr, a)
		}})
		e.runBlock(f, b.Succs[i], b, st.clone())
	}
	e.branch(cond, func() { side(0) })
	e.branch(e.c.Not(cond), func() { side(1) })
	var groups [][]*arrival
	for _, a := range arr {
		// paths with different store calls stay apart
		placed := false
		for i, g := range groups {
			if sameEvents(g[0].st.events, a.st.events) {
				groups[i] = append(g, a)
				placed = true
				break
			}
		}
		if !placed {
			groups = append(groups, []*arrival{a})
		}
	}
	for _, g := range groups {
		e.scope(func() { e.resume(fr, j, g, st, serial, joins) })
	}
	return true
}

func sameEvents(a, b []*Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Eng) resume(fr *Frame, j *ssa.BasicBlock, g []*arrival, pre *State, serial int, joins []joinCtx) {
	c := e.c
	m := g[len(g)-1]
	out := &arrival{st: m.st, phis: m.phis}
	rest := c.And(m.facts...)
	for i := len(g) - 2; i >= 0; i-- {
		a := g[i]
		var sel *Term
		if a.facts != nil && i == 0 && len(g) == 2 && complementary(c, a.facts[0], m.facts) {
			sel = a.facts[0]
		} else {
			sel = c.Fresh("join", SBool)
		}
		rest = c.And(c.Or(c.Not(sel), c.And(a.facts...)), c.Or(sel, rest))
		out = &arrival{st: e.mergeStates(sel, a.st, out.st, pre, serial)}
		for k := range a.phis {
			out.phis = append(out.phis, e.mergeVals(sel, a.phis[k], m.phis[k]))
		}
		m = out
	}
	e.assume(rest)
	f := fr.clone()
	f.joins = joins
	k := 0
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		f.env[p] = out.phis[k]
		k++
	}
	e.visited[j] = true
	// an outer join may be the same block
	if n := len(joins); n > 0 && joins[n-1].block == j && len(f.loops) == joins[n-1].loops {
		joins[n-1].got(f, nil, out.st)
		return
	}
	e.run(f, j, k, out.st)
}

func complementary(c *Ctx, x *Term, facts []*Term) bool {
	return len(facts) > 0 && facts[0] == c.Not(x)
}

func (e *Eng) mergeVals(sel *Term, a, b Val) Val {
	c := e.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Ite(sel, x, y)
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return &SliceV{c.Ite(sel, x.arr, y.arr), c.Ite(sel, x.off, y.off), c.Ite(sel, x.n, y.n), c.Ite(sel, x.cap, y.cap), x.elem}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			return &IfaceV{c.Ite(sel, x.tag, y.tag), c.Ite(sel, x.ref, y.ref)}
		}
	}
	if a == b {
		return a
	}
	unsupported("join of %T and %T", a, b)
	return nil
}

func (e *Eng) mergeStates(sel *Term, a, b, pre *State, serial int) *State {
	s := b.clone()
	c := e.c
	and := func(g, x *Term) *Term {
		if g == nil {
			return x
		}
		return c.And(g, x)
	}
	s.allocs = append([]allocRec(nil), pre.allocs...)
	s.made = append([]madeRec(nil), pre.made...)
	s.appended = append([]string(nil), pre.appended...)
	for _, x := range []struct {
		st *State
		on *Term
	}{{a, sel}, {b, c.Not(sel)}} {
		for _, r := range x.st.allocs[len(pre.allocs):] {
			r.grd = and(r.grd, x.on)
			s.allocs = append(s.allocs, r)
		}
		for _, r := range x.st.made[len(pre.made):] {
			r.grd = and(r.grd, x.on)
			s.made = append(s.made, r)
		}
		s.appended = append(s.appended, x.st.appended[len(pre.appended):]...)
	}
	first := new(big.Int).Mul(big.NewInt(int64(serial)), bucket)
	keys := map[string]bool{}
	for k := range a.heap.m {
		keys[k] = true
	}
	for k := range b.heap.m {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x, y := a.heap.m[k], b.heap.m[k]
		if x == y {
			continue
		}
		p := pre.heap.m[k]
		list := func(en *Entry) []*Entry {
			var r []*Entry
			for ; en != p; en = en.prev {
				if en == nil || en.kind != 'w' {
					unsupported("join over a change of %s that is not a write", k)
				}
				r = append(r, en)
			}
			return r
		}
		xs, ys := list(x), list(y)
		isNew := func(r *Term) bool {
			bk := bucketOf(rootOf(r))
			return bk != nil && bk.Cmp(first) >= 0
		}
		s.heap.m[k] = p
		var old []*Entry
		push := func(en *Entry, ref, val *Term) {
			s.heap.m[k] = &Entry{kind: 'w', ref: ref, val: val, prev: s.heap.m[k], site: en.site, def: en.def}
		}
		seen := map[*Term]bool{}
		for _, l := range [][]*Entry{xs, ys} {
			for i := len(l) - 1; i >= 0; i-- {
				if isNew(l[i].ref) {
					push(l[i], l[i].ref, l[i].val)
				} else if !seen[l[i].ref] {
					seen[l[i].ref] = true
					old = append(old, l[i])
				}
			}
		}
		for _, en := range old {
			var lf leaf
			if x != nil {
				lf = e.leafOfKey(k, a, en.ref)
			} else {
				lf = e.leafOfKey(k, b, en.ref)
			}
			v := e.c.Ite(sel, e.readFrom(x, k, lf, en.ref), e.readFrom(y, k, lf, en.ref))
			push(en, en.ref, v)
		}
	}
	return s
}
