package main

// Which objects made by the function under analysis can be seen by someone
// else: type invariants are due for those when a call is made or returned from.

import (
	"go/types"
	"strings"
)

type reach struct {
	e    *Eng
	bk   map[string]bool
	seen map[*Term]bool
	more bool
}

func (r *reach) term(t *Term) {
	if t == nil || r.seen[t] {
		return
	}
	r.seen[t] = true
	if t.sort == SInt {
		if b := bucketOf(t); b != nil {
			if s := b.String(); !r.bk[s] {
				r.bk[s] = true
				r.more = true
			}
			return
		}
	}
	for _, a := range t.args {
		r.term(a)
	}
}

func (r *reach) val(v Val) {
	switch x := v.(type) {
	case *Term:
		r.term(x)
	case *IfaceV:
		r.term(x.ref)
	case *SliceV:
		r.term(x.arr)
	case *StructV:
		for _, f := range x.f {
			r.val(f)
		}
	case *AddrV:
		r.term(x.ref)
	case Tuple:
		for _, f := range x {
			r.val(f)
		}
	case *ClosV:
		for _, f := range x.bind {
			r.val(f)
		}
	}
}

func rootOf(t *Term) *Term {
	for t.isFA() {
		t = t.args[0]
	}
	return t
}

func (e *Eng) reachable(st *State, roots []Val) map[string]bool {
	r := &reach{e: e, bk: map[string]bool{}, seen: map[*Term]bool{}}
	for _, v := range roots {
		r.val(v)
	}
	for {
		r.more = false
		for key, en := range st.heap.m {
			if strings.HasPrefix(key, "ghost:") {
				continue
			}
			for ; en != nil; en = en.prev {
				switch en.kind {
				case 'w':
					b := bucketOf(rootOf(en.ref))
					if b == nil || r.bk[b.String()] {
						r.term(en.val)
					}
				case 'c':
					if r.bk[en.n.String()] {
						r.term(en.val)
					}
				}
			}
		}
		if !r.more {
			return r.bk
		}
	}
}

// checkEscaping proves the type invariants of the objects made by this function
// that are reachable from the given values or from old memory.
func (e *Eng) checkEscaping(st *State, roots []Val) {
	var bk map[string]bool
	for _, m := range st.made {
		if bk == nil {
			bk = e.reachable(st, roots)
		}
		if b := bucketOf(m.ref); b == nil || bk[b.String()] {
			e.where(m.grd, func() {
				e.checkList(m.key, e.c.Extract(e.read(st.heap, m.key, leafList, m.ref), e.c.Zero, m.n))
			})
		}
	}
	for _, a := range st.allocs {
		fs := e.P.spec.structInv[typeName(a.t)]
		if len(fs) == 0 {
			continue
		}
		if bk == nil {
			bk = e.reachable(st, roots)
		}
		if b := bucketOf(a.ref); b != nil && !bk[b.String()] {
			continue
		}
		e.where(a.grd, func() { e.checkInvAt(st, a.ref, a.t, fs) })
	}
}

// checkStore: a field under a type invariant of an object that was not made
// here keeps the invariant at every store.
func (e *Eng) checkStore(st *State, a *AddrV, v Val) {
	sp := e.P.spec
	_, fixed := sp.fixed[a.key]
	if !fixed && !sp.nonnil[a.key] {
		return
	}
	if b := bucketOf(rootOf(a.ref)); b != nil {
		return
	}
	var r *Term
	switch x := v.(type) {
	case *Term:
		r = x
	case *IfaceV:
		r = x.ref
	case *SliceV:
		r = x.arr
	default:
		return
	}
	if want, ok := e.fixedField(a.key); ok {
		e.oblige("invariant", a.key, nil, e.c.Eq(r, e.c.Big(want)), "type invariant: "+a.key+" is "+sp.fixed[a.key])
	} else {
		e.oblige("invariant", a.key, []string{"C13"}, e.c.Not(e.c.Eq(r, e.c.Zero)), "type invariant: "+a.key+" is not nil")
	}
}

var _ types.Type
