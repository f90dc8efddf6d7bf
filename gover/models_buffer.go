package main

// bytes.Buffer and strings.Builder as objects that only grow, and joining a
// known number of parts.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// growing returns the content of a buffer and a function that replaces it.
func (e *Eng) growing(st *State, v Val, com *ssa.CallCommon) (*SliceV, func(*Term)) {
	ref, ok := v.(*Term)
	if !ok {
		unsupported("buffer %T", v)
	}
	e.safe(e.c.Not(e.c.Eq(ref, e.c.Zero)), "method call on nil buffer")
	t := com.Args[0].Type().Underlying().(*types.Pointer).Elem()
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "buf" {
			continue
		}
		key, r, ft := e.fieldCell(t, ref, i)
		return e.load(st, st.heap, key, r, ft).(*SliceV), func(content *Term) {
			e.store(st, key, r, ft, e.fresh(st, content))
		}
	}
	unsupported("buffer %s", t)
	return nil, nil
}

// parts lists the elements of a slice whose length is known.
func (e *Eng) parts(st *State, v Val) []*Term {
	s, ok := v.(*SliceV)
	if !ok || s.n.op != OConst || s.arr.op != OConst || s.off.op != OConst || s.n.k.Int64() > 64 {
		unsupported("joined list of unknown length")
	}
	var out []*Term
	for i := int64(0); i < s.n.k.Int64(); i++ {
		x := e.loadAt(nil, st, e.elemAddr(s.elem, s.arr, e.c.Add(s.off, e.c.Int(i))), s.elem)
		if t, ok := x.(*Term); ok {
			out = append(out, t)
		} else {
			out = append(out, e.bytesOf(st, x))
		}
	}
	return out
}

func (e *Eng) joined(xs []*Term, sep *Term) *Term {
	r := e.c.Empty
	for i, x := range xs {
		if i > 0 {
			r = e.c.Concat(r, sep)
		}
		r = e.c.Concat(r, x)
	}
	return r
}

func init() {
	models["bytes.Join"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		st = st.clone()
		x := e.joined(e.parts(st, args[0]), e.bytesOf(st, args[1]))
		k(st, []Val{e.fresh(st, x)})
	}
	models["strings.Join"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		st = st.clone()
		k(st, []Val{e.joined(e.parts(st, args[0]), e.str(args[1]))})
	}
	models["strings.Repeat"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		c := e.c
		a, n := e.str(args[0]), args[1].(*Term)
		e.safe(c.Ge(n, c.Zero), "strings.Repeat count")
		if c.Len(a) != c.One {
			unsupported("strings.Repeat of more than one byte")
		}
		k(st, []Val{c.Repeat(c.Nth(a, c.Zero), n)})
	}
	for _, t := range []string{"bytes.(*Buffer).", "strings.(*Builder)."} {
		models[t+"Write"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			st = st.clone()
			old, set := e.growing(st, args[0], com)
			x := e.bytesOf(st, args[1])
			set(e.c.Concat(e.content(st.heap, old), x))
			k(st, []Val{e.c.Len(x), e.nilIface()})
		}
		models[t+"WriteString"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			st = st.clone()
			old, set := e.growing(st, args[0], com)
			x := e.str(args[1])
			set(e.c.Concat(e.content(st.heap, old), x))
			k(st, []Val{e.c.Len(x), e.nilIface()})
		}
		models[t+"WriteByte"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			st = st.clone()
			old, set := e.growing(st, args[0], com)
			set(e.c.Concat(e.content(st.heap, old), e.c.Repeat(args[1].(*Term), e.c.One)))
			k(st, []Val{e.nilIface()})
		}
		models[t+"Len"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			old, _ := e.growing(st, args[0], com)
			k(st, []Val{old.n})
		}
		models[t+"String"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			old, _ := e.growing(st, args[0], com)
			k(st, []Val{e.content(st.heap, old)})
		}
		models[t+"Grow"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			e.safe(e.c.Ge(args[1].(*Term), e.c.Zero), "negative count of Grow")
			k(st, nil)
		}
	}
	models["bytes.(*Buffer).Bytes"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		old, _ := e.growing(st, args[0], com)
		k(st, []Val{old})
	}
	newBuffer := func(e *Eng, st *State, com *ssa.CallCommon, content *SliceV, k Cont) {
		c := e.c
		if content.arr != c.Zero && !exclusive(com.Args[0]) && !e.quick(c.Eq(content.n, content.cap)) {
			unsupported("buffer that may write to another's array")
		}
		t := com.Signature().Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		st = st.clone()
		r := e.allocZeroed()
		e.zeroArrays(st, t, r)
		st.allocs = append(st.allocs, allocRec{r, t, nil})
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "buf" {
				key, ref, ft := e.fieldCell(t, r, i)
				e.store(st, key, ref, ft, content)
			}
		}
		k(st, []Val{r})
	}
	models["bytes.NewBuffer"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		newBuffer(e, st, com, args[0].(*SliceV), k)
	}
	models["bytes.NewBufferString"] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		st = st.clone()
		newBuffer(e, st, com, e.fresh(st, e.str(args[0])), k)
	}
}
