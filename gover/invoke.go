package main

// Interface calls: hash.Hash, cipher.Block, cipher.BlockMode, errors, loggers,
// and the caller-supplied stores and serializers, which are recorded as events.

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaCommon = ssa.CallCommon

// ghost cells of library objects
func (e *Eng) gread(st *State, key string, ref *Term) *Term {
	return e.read(st.heap, "ghost:"+key, leafBytes, ref)
}
func (e *Eng) gwrite(st *State, key string, ref, v *Term) { e.write(st, "ghost:"+key, ref, v) }

func (e *Eng) errVal() *IfaceV {
	return &IfaceV{e.c.Int(int64(e.P.externTag("error"))), e.newRef()}
}

func (e *Eng) nilIface() *IfaceV { return &IfaceV{e.c.Zero, e.c.Zero} }

func (e *Eng) str(v Val) *Term {
	t, ok := v.(*Term)
	if !ok || t.sort != SSeq {
		unsupported("string expected, got %T", v)
	}
	return t
}

func (e *Eng) bytesOf(st *State, v Val) *Term {
	s, ok := v.(*SliceV)
	if !ok {
		unsupported("byte slice expected, got %T", v)
	}
	return e.content(st.heap, s)
}

func (e *Eng) fresh(st *State, content *Term) *SliceV { return e.bytesSlice(st, content) }

// writeSlice overwrites the first len(v) bytes of a slice.
func (e *Eng) writeSlice(st *State, d *SliceV, v *Term) {
	if e.c.Len(v) == e.c.Zero {
		return
	}
	old := e.arrContent(st.heap, d.elem, d.arr)
	e.write(st, e.arrKey(d.elem), d.arr, e.c.Splice(old, d.off, v))
}

func (e *Eng) tagName(t *Term) string {
	if t.op != OConst {
		return ""
	}
	n := e.P.externName(int(t.k.Int64()))
	return strings.TrimPrefix(n, "tag ")
}

func (e *Eng) constOf(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	return t
}

func (e *Eng) invoke(fr *Frame, st *State, iv *IfaceV, it types.Type, com *ssa.CallCommon, args []Val, k Cont) {
	c := e.c
	tn := typeName(it)
	m := com.Method.Name()
	name := tn + "." + m
	// a known concrete type of this repository
	if iv.tag.op == OConst {
		id := int(iv.tag.k.Int64())
		e.P.mu.Lock()
		ct := e.P.typeByID[id]
		e.P.mu.Unlock()
		if ct != nil {
			if _, isPtr := ct.(*types.Pointer); isPtr {
				if mf := e.P.prog.LookupMethod(ct, com.Method.Pkg(), m); mf != nil {
					if _, ok := e.P.fnID[mf]; ok {
						e.callFn(fr, st, mf, append([]Val{iv.ref}, args...), nil, com, k)
						return
					}
				}
			}
		}
	}
	switch {
	case tn == "error":
		e.safe(c.Not(c.Eq(iv.ref, c.Zero)), "method call on nil error")
		k(st, []Val{c.Fresh("error.text", SSeq)})
		return
	case strings.HasPrefix(tn, "logger."):
		k(st, nil)
		return
	case tn == "hash.Hash":
		e.hashCall(st, iv, m, args, k)
		return
	case tn == "crypto/cipher.Block" && m == "BlockSize":
		k(st, []Val{c.Int(16)})
		return
	case tn == "crypto/cipher.BlockMode" && m == "BlockSize":
		k(st, []Val{c.Int(16)})
		return
	case tn == "crypto/cipher.BlockMode" && m == "CryptBlocks":
		dst, src := args[0].(*SliceV), args[1].(*SliceV)
		in := e.content(st.heap, src)
		e.safe(c.Eq(c.Mod(src.n, c.Int(16)), c.Zero), "CryptBlocks: input is whole blocks")
		e.safe(c.Le(src.n, dst.n), "CryptBlocks: output is large enough")
		key, iv0 := e.gread(st, "key", iv.ref), e.gread(st, "iv", iv.ref)
		var out *Term
		switch e.tagName(iv.tag) {
		case "cbcenc":
			out = c.App("CBCENC", SSeq, key, iv0, in)
		case "cbcdec":
			out = c.App("CBCDEC", SSeq, key, iv0, in)
		default:
			unsupported("cipher mode")
		}
		e.writeSlice(st, dst, out)
		e.gwrite(st, "iv", iv.ref, c.Fresh("iv#16", SSeq))
		k(st, nil)
		return
	case strings.HasSuffix(tn, "/complete.Completionable"):
		e.safe(c.Not(c.Eq(iv.ref, c.Zero)), "method call on nil completion")
		e.notes["completion callbacks do not change memory of the library"] = true
		e.event(st, iv, name, com, args, k)
		return
	case strings.HasSuffix(tn, "Serializer") && (m == "Serialize" || m == "Deserialize"),
		strings.HasPrefix(tn, "store."), strings.HasPrefix(tn, "gstore."), strings.HasPrefix(tn, "serialize."):
		e.notes["caller-supplied "+tn+" is not nil and does not change memory of the library"] = true
		e.event(st, iv, name, com, args, k)
		return
	}
	unsupported("interface call %s", name)
}

// event records a call to caller-supplied code.
func (e *Eng) event(st *State, iv *IfaceV, name string, com *ssa.CallCommon, args []Val, k Cont) {
	c := e.c
	sig := com.Method.Type().(*types.Signature)
	var at, rt []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		at = append(at, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt = append(rt, sig.Results().At(i).Type())
	}
	i := strings.LastIndexByte(name, '.')
	m := name[i+1:]
	emit := func(st *State, res []Val) {
		st.events = append(st.events[:len(st.events):len(st.events)], &Event{name: name, args: args, argT: at, res: res, resT: rt, heap: st.heap.clone()})
		k(st, res)
	}
	given := func(res Val) {
		for _, g := range e.con.givens {
			if name != g.event && !strings.HasSuffix(name, "."+g.event) {
				continue
			}
			e.notes["assumed of what "+name+" returns to "+e.con.name+": "+g.clause.text] = true
			vars := map[string]TV{"res": {res, rt[0]}}
			for i, a := range args {
				vars[fmt.Sprintf("arg%d", i)] = TV{a, at[i]}
			}
			env := &SEnv{e: e, vars: vars, st: st, heap: st.heap, old: e.entry, pkg: pkgOf(e.P.funcs[e.con.name]), lets: map[string]ast.Expr{}}
			e.assume(env.boolean(g.clause.expr))
		}
	}
	switch m {
	case "Serialize":
		st = st.clone()
		if ref, ok := args[0].(*Term); ok {
			if pt, ok := ptrTo(at[0]); ok {
				if fl, ok := e.flatArgs(st, st.heap, pt, ref); ok {
					e.notes["Serialize of a message serializer is a function of the serializer and of the fields of the message"] = true
					emit(st, []Val{e.fresh(st, e.serTerm(iv, strings.TrimSuffix(name, ".Serialize"), fl))})
					return
				}
			}
		}
		r := e.freshResult(st, "serialized", rt[0])
		emit(st, []Val{r})
		return
	case "Deserialize":
		if pt, ok := ptrTo(rt[0]); ok && isFlat(pt) {
			e.notes["Deserialize of a message serializer is a function of the serializer and of its input"] = true
			nm := strings.TrimSuffix(name, ".Deserialize")
			in := e.bytesOf(st, args[0])
			st = st.clone()
			p := e.desObj(st, iv, nm, in, pt)
			ok := e.desTerm(iv, nm, in, "ok", SBool)
			e.branch(ok, func() { emit(st.clone(), []Val{p, e.nilIface()}) })
			e.branch(c.Not(ok), func() { emit(st.clone(), []Val{e.c.Zero, e.errVal()}) })
			return
		}
		p := c.FreshRange("deserialized", bi(1), bi(OldMax))
		ok := c.Fresh("deserialize.ok", SBool)
		e.branch(ok, func() { given(p); emit(st.clone(), []Val{p, e.nilIface()}) })
		e.branch(c.Not(ok), func() { emit(st.clone(), []Val{e.c.Zero, e.errVal()}) })
		return
	}
	var res []Val
	for i, t := range rt {
		v := e.symbolic(st, m, t, true)
		if p, ok := t.Underlying().(*types.Pointer); ok && i == 0 {
			_ = p
			if m == "LoadSession" || m == "GetIdentityKeyPair" {
				v = c.FreshRange(m, bi(1), bi(OldMax))
			}
		}
		res = append(res, v)
	}
	if len(res) > 0 {
		given(res[0])
	}
	emit(st.clone(), res)
}

func (e *Eng) hashCall(st *State, iv *IfaceV, m string, args []Val, k Cont) {
	c := e.c
	e.safe(c.Not(c.Eq(iv.ref, c.Zero)), "method call on nil hash")
	kind := e.tagName(iv.tag)
	data := e.gread(st, "data", iv.ref)
	switch m {
	case "Write":
		b := e.bytesOf(st, args[0])
		st = st.clone()
		e.gwrite(st, "data", iv.ref, c.Concat(data, b))
		k(st, []Val{c.Len(b), e.nilIface()})
		return
	case "Reset":
		st = st.clone()
		e.gwrite(st, "data", iv.ref, c.Empty)
		k(st, nil)
		return
	case "Size", "BlockSize":
		n := map[string]map[string]int64{"Size": {"hmac:crypto/sha256.New": 32, "crypto/sha256.New": 32, "crypto/sha512.New": 64}, "BlockSize": {"hmac:crypto/sha256.New": 64, "crypto/sha256.New": 64, "crypto/sha512.New": 128}}[m][kind]
		if n != 0 {
			k(st, []Val{c.Int(n)})
			return
		}
	case "Sum":
		in := args[0].(*SliceV)
		var d *Term
		switch kind {
		case "hmac:crypto/sha256.New":
			d = c.App("HMAC", SSeq, e.gread(st, "key", iv.ref), data)
		case "crypto/sha256.New":
			d = c.App("SHA256", SSeq, data)
		case "crypto/sha512.New":
			d = c.App("SHA512", SSeq, data)
		default:
			unsupported("hash %s", kind)
		}
		n := c.Add(in.n, c.Len(d))
		fits := c.Le(n, in.cap)
		e.fork(fits, func() {
			s2 := st.clone()
			old := e.arrContent(s2.heap, in.elem, in.arr)
			e.write(s2, "bytes", in.arr, c.Splice(old, c.Add(in.off, in.n), d))
			k(s2, []Val{&SliceV{in.arr, in.off, n, in.cap, in.elem}})
		}, func() {
			s2 := st.clone()
			k(s2, []Val{e.fresh(s2, c.Concat(e.content(s2.heap, in), d))})
		})
		return
	}
	unsupported("hash method %s on %s", m, kind)
}

// serTerm is what a message serializer returns for a message with the given
// field values.
func (e *Eng) serTerm(iv *IfaceV, name string, fields []*Term) *Term {
	return e.c.App("SER:"+name, SSeq, append([]*Term{iv.tag, iv.ref}, fields...)...)
}

// flatArgs lists the field values of a structure that has only integers, byte
// slices and optional integers.
func (e *Eng) flatArgs(st *State, h *Heap, t types.Type, ref *Term) ([]*Term, bool) {
	if !isFlat(t) {
		return nil, false
	}
	s := t.Underlying().(*types.Struct)
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		k, r, ft := e.fieldCell(t, ref, i)
		out = append(out, e.flatVal(st, h, e.load(st, h, k, r, ft), ft))
	}
	return out, true
}

func (e *Eng) flatVal(st *State, h *Heap, v Val, t types.Type) *Term {
	c := e.c
	switch x := v.(type) {
	case *SliceV:
		return c.Ite(c.Eq(x.arr, c.Zero), c.App("NILSEQ", SSeq), e.content(h, x))
	case *Term:
		if p, ok := ptrTo(t); ok && typeName(p) == "optional.Uint32" {
			if x == c.Zero {
				return c.Int(-2)
			}
			sv := e.load(st, h, "", x, p).(*StructV)
			s := p.Underlying().(*types.Struct)
			var val, emp *Term
			for i := 0; i < s.NumFields(); i++ {
				switch s.Field(i).Name() {
				case "Value":
					val = sv.f[i].(*Term)
				case "IsEmpty":
					emp = sv.f[i].(*Term)
				}
			}
			return c.Ite(c.Eq(x, c.Zero), c.Int(-2), c.Ite(emp, c.Int(-1), val))
		}
		return x
	}
	unsupported("field value %T", v)
	return nil
}

// isFlat: a structure of integers, byte slices and optional integers.
func isFlat(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			continue
		}
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			continue
		}
		if p, ok := ptrTo(ft); ok && typeName(p) == "optional.Uint32" {
			continue
		}
		return false
	}
	return true
}

// desTerm is a property of what a deserializer makes of an input.
func (e *Eng) desTerm(iv *IfaceV, name string, in *Term, what string, so Sort) *Term {
	return e.c.App("DES:"+name+":"+what, so, iv.tag, iv.ref, in)
}

// desField is the value of a field of a deserialized message.
func (e *Eng) desField(iv *IfaceV, name string, in *Term, f string, ft types.Type) *Term {
	c := e.c
	switch ft.Underlying().(type) {
	case *types.Slice:
		return e.desTerm(iv, name, in, f, SSeq)
	case *types.Pointer:
		t := e.desTerm(iv, name, in, f, SInt)
		if t.op == OApp && t.lo == nil {
			t.lo, t.hi = bi(-2), bi(1<<32-1)
		}
		return t
	}
	t := e.desTerm(iv, name, in, f, SInt)
	if lo, hi, ok := intRange(ft); ok && t.op == OApp && t.lo == nil {
		t.lo, t.hi = lo, hi
	}
	_ = c
	return t
}

func (e *Eng) desNil(iv *IfaceV, name string, in *Term, f string) *Term {
	return e.desTerm(iv, name, in, f+".nil", SBool)
}

// desObj builds the message a deserializer returns.  Its byte slices may share
// memory with the input, so they are not owned by the caller.
func (e *Eng) desObj(st *State, iv *IfaceV, name string, in *Term, t types.Type) *Term {
	c := e.c
	p := e.newRef()
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		k, r, ft := e.fieldCell(t, p, i)
		f := s.Field(i).Name()
		v := e.desField(iv, name, in, f, ft)
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			a := e.newRef()
			e.notOwned[bucketOf(a).String()] = true
			isnil := e.desNil(iv, name, in, f)
			content := c.Ite(isnil, c.Empty, v)
			n := c.Len(content)
			cp := c.FreshRange("cap", bi(0), nil)
			e.assume(c.Le(n, cp))
			e.assume(c.Imp(isnil, c.Eq(cp, c.Zero)))
			whole := c.Concat(content, c.Fresh("spare", SSeq))
			e.assume(c.Le(cp, c.Len(whole)))
			e.assume(c.Le(c.Len(whole), c.Int(1<<40)))
			e.write(st, "bytes", a, whole)
			st.heap.m["bytes"].def = true
			e.store(st, k, r, ft, &SliceV{c.Ite(isnil, c.Zero, a), c.Zero, n, cp, u.Elem()})
		case *types.Pointer:
			o := e.newRef()
			ot := u.Elem()
			os := ot.Underlying().(*types.Struct)
			for j := 0; j < os.NumFields(); j++ {
				ok2, or, oft := e.fieldCell(ot, o, j)
				switch os.Field(j).Name() {
				case "Value":
					w := e.desTerm(iv, name, in, f+".rest", SInt)
					if w.op == OApp && w.lo == nil {
						w.lo, w.hi = bi(0), bi(1<<32-1)
					}
					e.store(st, ok2, or, oft, c.Ite(c.Lt(v, c.Zero), w, v))
				case "IsEmpty":
					e.store(st, ok2, or, oft, c.Eq(v, c.Int(-1)))
				}
			}
			e.store(st, k, r, ft, c.Ite(c.Eq(v, c.Int(-2)), c.Zero, o))
		default:
			e.store(st, k, r, ft, v)
		}
	}
	return p
}
