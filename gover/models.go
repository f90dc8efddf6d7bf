package main

// Models of the library functions the repository calls. Every entry is an
// assumption listed in the evidence as trusted.

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont)

var models map[string]modelFn

func (e *Eng) useModel(n string) { e.trusted["library model: "+n] = true }

// jsonArg is the structure a value handed to encoding/json holds or points to.
func (e *Eng) jsonArg(st *State, v Val) (Val, types.Type) {
	iv, ok := v.(*IfaceV)
	if !ok || iv.tag.op != OConst {
		unsupported("json.Marshal of an unknown type")
	}
	e.P.mu.Lock()
	t := e.P.typeByID[int(iv.tag.k.Int64())]
	e.P.mu.Unlock()
	if t == nil {
		unsupported("json.Marshal of an unknown type")
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && isStruct(p.Elem()) {
		e.nonNil(iv.ref, "json.Marshal of a nil pointer")
		return e.load(st, st.heap, "", iv.ref, p.Elem()), p.Elem()
	}
	if isStruct(t) {
		return e.load(st, st.heap, "", iv.ref, t), t
	}
	unsupported("json.Marshal of %s", t)
	return nil, nil
}

// funcConst names a function value.
func (e *Eng) funcConst(v Val) string {
	t, ok := v.(*Term)
	if !ok || t.op != OConst {
		unsupported("unknown function value")
	}
	n := e.P.externName(int(t.k.Int64()))
	if n == "" {
		unsupported("unknown function value")
	}
	return n
}

// varargs returns the (boxed) values behind a ...interface{} slice with constant length.
func (e *Eng) varargs(st *State, v Val) []Val {
	s, ok := v.(*SliceV)
	if !ok || s.n.op != OConst || s.arr.op != OConst {
		return nil
	}
	var out []Val
	for i := int64(0); i < s.n.k.Int64(); i++ {
		a, ok := e.elemAddr(s.elem, s.arr, e.c.Add(s.off, e.c.Int(i))).(*AddrV)
		if !ok {
			return nil
		}
		iv, ok := e.load(st, st.heap, a.key, a.ref, s.elem).(*IfaceV)
		if !ok {
			return nil
		}
		out = append(out, iv)
	}
	return out
}

// unbox returns the scalar inside an interface whose dynamic type is known.
func (e *Eng) unbox(st *State, v Val) (*Term, types.Type) {
	iv, ok := v.(*IfaceV)
	if !ok || iv.tag.op != OConst {
		return nil, nil
	}
	e.P.mu.Lock()
	t := e.P.typeByID[int(iv.tag.k.Int64())]
	e.P.mu.Unlock()
	if t == nil {
		return nil, nil
	}
	if _, ok := t.Underlying().(*types.Basic); !ok {
		return nil, nil
	}
	x, _ := e.load(st, st.heap, "box:"+typeName(t), iv.ref, t).(*Term)
	return x, t
}

func init() {
	newErr := func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		k(st, []Val{e.errVal()})
	}
	models = map[string]modelFn{
		"errors.New": newErr,
		"fmt.Errorf": newErr,
		"fmt.Sprint": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			if vs := e.varargs(st, args[0]); len(vs) == 1 {
				if x, _ := e.unbox(st, vs[0]); x != nil && x.sort == SInt {
					k(st, []Val{e.itoa(x)})
					return
				} else if x != nil && x.sort == SSeq {
					k(st, []Val{x})
					return
				}
			}
			k(st, []Val{e.c.Fresh("sprint", SSeq)})
		},
		"bytes.HasPrefix": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			a, b := e.bytesOf(st, args[0]), e.bytesOf(st, args[1])
			k(st, []Val{c.And(c.Le(c.Len(b), c.Len(a)), c.Eq(c.Extract(a, c.Zero, c.Len(b)), b))})
		},
		"bytes.HasSuffix": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			a, b := e.bytesOf(st, args[0]), e.bytesOf(st, args[1])
			k(st, []Val{c.And(c.Le(c.Len(b), c.Len(a)), c.Eq(c.Extract(a, c.Sub(c.Len(a), c.Len(b)), c.Len(b)), b))})
		},
		"fmt.Sprintf": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			f, ok := args[0].(*Term)
			if ok && f.op == OLit {
				vs := e.varargs(st, args[1])
				if len(vs) == 1 {
					if x, _ := e.unbox(st, vs[0]); x != nil {
						if f.name == "%d" || f.name == "%v" && x.sort == SInt {
							k(st, []Val{e.itoa(x)})
							return
						}
						if f.name == "%05d" {
							k(st, []Val{e.dec5(x)})
							return
						}
						k(st, []Val{e.c.App("SPRINTF:"+f.name, SSeq, x)})
						return
					}
				}
			}
			k(st, []Val{e.c.Fresh("sprintf", SSeq)})
		},
		"log.Println": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) { k(st, nil) },
		"strconv.Itoa": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.itoa(args[0].(*Term))})
		},
		"strconv.FormatUint": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			if b, ok := args[1].(*Term); ok && b == e.c.Int(10) {
				k(st, []Val{e.itoa(args[0].(*Term))})
				return
			}
			k(st, []Val{e.c.Fresh("formatuint", SSeq)})
		},
		"strconv.FormatInt": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			if b, ok := args[1].(*Term); ok && b == e.c.Int(10) {
				k(st, []Val{e.itoa(args[0].(*Term))})
				return
			}
			k(st, []Val{e.c.Fresh("formatint", SSeq)})
		},
		"bytes.Equal": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.Eq(e.bytesOf(st, args[0]), e.bytesOf(st, args[1]))})
		},
		"crypto/subtle.ConstantTimeCompare": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.Ite(e.c.Eq(e.bytesOf(st, args[0]), e.bytesOf(st, args[1])), e.c.One, e.c.Zero)})
		},
		"crypto/hmac.Equal": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.Eq(e.bytesOf(st, args[0]), e.bytesOf(st, args[1]))})
		},
		"bytes.Compare": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			a, b := e.bytesOf(st, args[0]), e.bytesOf(st, args[1])
			k(st, []Val{c.Ite(c.Eq(a, b), c.Zero, c.Ite(e.lexlt(a, b), c.Int(-1), c.One))})
		},
		"bytes.Repeat": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			a := e.bytesOf(st, args[0])
			n := args[1].(*Term)
			e.safe(c.Ge(n, c.Zero), "bytes.Repeat count")
			if c.Len(a) != c.One {
				unsupported("bytes.Repeat of more than one byte")
			}
			st = st.clone()
			k(st, []Val{e.fresh(st, c.Repeat(c.Nth(a, c.Zero), n))})
		},
		"crypto/hmac.New": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			h := e.funcConst(args[0])
			st = st.clone()
			r := e.newRef()
			e.gwrite(st, "key", r, e.bytesOf(st, args[1]))
			e.gwrite(st, "data", r, e.c.Empty)
			k(st, []Val{&IfaceV{e.c.Int(int64(e.P.externTag("hmac:" + h))), r}})
		},
		"golang.org/x/crypto/hkdf.New": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			if e.funcConst(args[0]) != "crypto/sha256.New" {
				unsupported("hkdf with another hash")
			}
			st = st.clone()
			r := e.newRef()
			e.gwrite(st, "secret", r, e.bytesOf(st, args[1]))
			e.gwrite(st, "salt", r, e.bytesOf(st, args[2]))
			e.gwrite(st, "info", r, e.bytesOf(st, args[3]))
			e.write(st, "ghost:pos", r, e.c.Zero)
			k(st, []Val{&IfaceV{e.c.Int(int64(e.P.externTag("hkdf"))), r}})
		},
		"io.ReadFull": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			iv := args[0].(*IfaceV)
			buf := args[1].(*SliceV)
			switch e.tagName(iv.tag) {
			case "hkdf":
				pos := e.read(st.heap, "ghost:pos", leaf{"", SInt, bi(0), nil, false}, iv.ref)
				end := c.Add(pos, buf.n)
				ok := c.Le(end, c.Int(8160))
				e.fork(ok, func() {
					s2 := st.clone()
					v := c.App("HKDF", SSeq, e.gread(s2, "secret", iv.ref), e.gread(s2, "salt", iv.ref), e.gread(s2, "info", iv.ref), end)
					e.writeSlice(s2, buf, c.Extract(v, pos, buf.n))
					e.write(s2, "ghost:pos", iv.ref, end)
					k(s2, []Val{buf.n, e.nilIface()})
				}, func() {
					s2 := st.clone()
					n := c.FreshRange("readfull.n", bi(0), nil)
					k(s2, []Val{n, e.errVal()})
				})
				return
			case "glob:crypto/rand.Reader":
				e.randRead(st, buf, "io.ReadFull", k)
				return
			}
			unsupported("io.ReadFull from an unknown reader")
		},
		"github.com/RadicalApp/complete.NewResult": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			iv := args[0].(*IfaceV)
			e.safe(e.c.Not(e.c.Eq(iv.tag, e.c.Zero)), "complete.NewResult of a nil interface")
			t := com.StaticCallee().Signature.Results().At(0).Type()
			k(st, []Val{&StructV{t, []Val{e.c.App("TYPENAME", SSeq, iv.tag), iv}}})
		},
		"encoding/binary.(littleEndian).Uint16": orderGet(2, true),
		"encoding/binary.(littleEndian).Uint32": orderGet(4, true),
		"encoding/binary.(littleEndian).Uint64": orderGet(8, true),
		"encoding/binary.(bigEndian).Uint16":    orderGet(2, false),
		"encoding/binary.(bigEndian).Uint32":    orderGet(4, false),
		"encoding/binary.(bigEndian).Uint64":    orderGet(8, false),
		"encoding/binary.Read": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			mi, ok := com.Args[2].(*ssa.MakeInterface)
			if !ok {
				unsupported("binary.Read into an unknown value")
			}
			pt, ok := mi.X.Type().Underlying().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem().Underlying(), types.Typ[types.Uint32]) {
				unsupported("binary.Read into %s", mi.X.Type())
			}
			if g := e.tagName(args[0].(*IfaceV).tag); g != "glob:crypto/rand.Reader" {
				unsupported("binary.Read from an unknown reader")
			}
			om, ok := com.Args[1].(*ssa.MakeInterface)
			if !ok {
				unsupported("binary.Read with an unknown byte order")
			}
			le := strings.HasSuffix(om.X.Type().String(), "littleEndian")
			if !le && !strings.HasSuffix(om.X.Type().String(), "bigEndian") {
				unsupported("binary.Read with an unknown byte order")
			}
			addr, ok := e.val(fr, mi.X).(*AddrV)
			if !ok {
				unsupported("binary.Read into %T", e.val(fr, mi.X))
			}
			buf := e.newSlice(st, types.Typ[types.Uint8], c.RepeatOf(SSeq, c.Zero, c.Int(4)), c.Int(4), c.Int(4))
			e.randRead(st, buf, "binary.Read", func(s2 *State, r []Val) {
				ev := s2.events[len(s2.events)-1]
				v := ev.args[0].(*Term)
				er := r[1].(*IfaceV)
				if er.tag == c.Zero {
					n := c.Zero
					for i := 0; i < 4; i++ {
						j := i
						if le {
							j = 3 - i
						}
						n = c.Add(c.Mul(n, c.Int(256)), c.Nth(v, c.Int(int64(j))))
					}
					e.write(s2, addr.key, addr.ref, n)
				}
				k(s2, []Val{er})
			})
		},
		"crypto/rand.Read": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			e.randRead(st, args[0].(*SliceV), "rand.Read", k)
		},
		"golang.org/x/crypto/curve25519.ScalarMult": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			d := args[0].(*Term)
			e.nonNil(d, "nil array")
			st = st.clone()
			e.write(st, "bytes", d, e.c.App("DH", SSeq, e.readBytes(st.heap, args[2].(*Term)), e.readBytes(st.heap, args[1].(*Term))))
			k(st, nil)
		},
		"golang.org/x/crypto/curve25519.ScalarBaseMult": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			d := args[0].(*Term)
			e.nonNil(d, "nil array")
			st = st.clone()
			e.write(st, "bytes", d, e.c.App("PUB", SSeq, e.readBytes(st.heap, args[1].(*Term))))
			k(st, nil)
		},
		"crypto/aes.NewCipher": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			key := e.bytesOf(st, args[0])
			n := c.Len(key)
			ok := c.Or(c.Eq(n, c.Int(16)), c.Eq(n, c.Int(24)), c.Eq(n, c.Int(32)))
			e.fork(ok, func() {
				s2 := st.clone()
				r := e.newRef()
				e.gwrite(s2, "key", r, key)
				k(s2, []Val{&IfaceV{c.Int(int64(e.P.externTag("aes"))), r}, e.nilIface()})
			}, func() {
				k(st.clone(), []Val{e.nilIface(), e.errVal()})
			})
		},
		"strings.Contains": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.App("CONTAINS", SBool, e.str(args[0]), e.str(args[1]))})
		},
		"time.Now": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.symbolic(st, "now", com.Signature().Results().At(0).Type(), true)})
		},
		"time.(Time).Unix": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.symbolic(st, "unix", types.Typ[types.Int64], true)})
		},
		"encoding/hex.EncodeToString": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.App("HEX", SSeq, e.bytesOf(st, args[0]))})
		},
		"encoding/base64.(*Encoding).EncodeToString": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.App("B64", SSeq, e.bytesOf(st, args[1]))})
		},
		"encoding/base64.(*Encoding).DecodeString": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			in := e.str(args[1])
			ok := c.App("B_B64OK", SBool, in)
			e.branch(ok, func() {
				s2 := st.clone()
				k(s2, []Val{e.fresh(s2, c.App("B64DEC", SSeq, in)), e.nilIface()})
			})
			e.branch(c.Not(ok), func() {
				s2 := st.clone()
				k(s2, []Val{e.freshResult(s2, "b64.decoded", types.NewSlice(types.Typ[types.Uint8])), e.errVal()})
			})
		},
		// Into a structure of byte slices, strings and numbers; each field is a
		// function of the input.
		"encoding/json.Unmarshal": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			c := e.c
			et, p := e.pbArg(args[1])
			su, isS := et.Underlying().(*types.Struct)
			if !isS {
				unsupported("json.Unmarshal target")
			}
			in := e.bytesOf(st, args[0])
			valid := c.App("B_JSON", SBool, in)
			plain := true
			for i := 0; i < su.NumFields(); i++ {
				switch u := su.Field(i).Type().Underlying().(type) {
				case *types.Slice:
					plain = plain && types.Identical(u.Elem(), types.Typ[types.Uint8])
				case *types.Basic:
					plain = plain && u.Info()&types.IsString != 0
				default:
					plain = false
				}
			}
			fill := func(st *State) {
				if !plain {
					// what is read back was written by the library: its type
					// invariants hold
					e.store(st, structKey(et), p, et, e.symbolic(st, "json", et, false))
					for i := 0; i < su.NumFields(); i++ {
						key := structKey(et) + "." + su.Field(i).Name()
						if e.P.spec.nonnil[key] {
							e.assume(c.Not(c.Eq(e.read(st.heap, key, leaf{sort: SInt, ptr: true}, p), c.Zero)))
						}
					}
					return
				}
				for i := 0; i < su.NumFields(); i++ {
					f := su.Field(i)
					if !f.Exported() {
						continue
					}
					key := structKey(et) + "." + f.Name()
					switch u := f.Type().Underlying().(type) {
					case *types.Slice:
						if !types.Identical(u.Elem(), types.Typ[types.Uint8]) {
							unsupported("json.Unmarshal into %s", f.Type())
						}
						r := e.newRef()
						v := c.App("J_"+f.Name(), SSeq, in)
						e.write(st, "bytes", r, v)
						e.assume(c.Le(c.Len(v), c.Big(new(big.Int).Lsh(bi(1), 40))))
						has := c.App("B_HAS_"+f.Name(), SBool, in)
						e.assume(c.Imp(c.Not(has), c.Eq(c.Len(v), c.Zero)))
						e.store(st, key, p, f.Type(), &SliceV{c.Ite(has, r, c.Zero), c.Zero, c.Len(v), c.Len(v), u.Elem()})
					case *types.Basic:
						if u.Info()&types.IsString == 0 {
							unsupported("json.Unmarshal into %s", f.Type())
						}
						e.store(st, key, p, f.Type(), c.App("J_"+f.Name(), SSeq, in))
					default:
						unsupported("json.Unmarshal into %s", f.Type())
					}
				}
			}
			done := func(er Val) {
				s2 := st.clone()
				fill(s2)
				s2.events = append(s2.events[:len(s2.events):len(s2.events)], &Event{name: "json.Unmarshal", args: []Val{e.fresh(s2, in), p}, argT: []types.Type{types.NewSlice(types.Typ[types.Uint8]), types.NewPointer(et)}, res: []Val{er}, resT: []types.Type{types.Universe.Lookup("error").Type()}, heap: s2.heap.clone()})
				k(s2, []Val{er})
			}
			e.branch(valid, func() { done(e.nilIface()) })
			e.branch(c.Not(valid), func() { done(e.errVal()) })
		},
		"crypto/ed25519.Verify": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			e.safe(e.c.Eq(args[0].(*SliceV).n, e.c.Int(32)), "ed25519 public key length")
			k(st, []Val{e.c.App("EDVERIFY", SBool, e.bytesOf(st, args[0]), e.bytesOf(st, args[1]), e.bytesOf(st, args[2]))})
		},
		"github.com/golang/protobuf/proto.Marshal":   protoMarshal,
		"github.com/golang/protobuf/proto.Unmarshal": protoUnmarshal,
		// json.Marshal and json.Unmarshal are events: what was handed over and
		// what came back.
		"encoding/json.Marshal": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			v, t := e.jsonArg(st, args[0])
			by := types.NewSlice(types.Typ[types.Uint8])
			out := func(st *State, r Val, er Val) {
				st.events = append(st.events[:len(st.events):len(st.events)], &Event{name: "json.Marshal", args: []Val{v}, argT: []types.Type{t}, res: []Val{r, er}, resT: []types.Type{by, types.Universe.Lookup("error").Type()}, heap: st.heap.clone()})
				k(st, []Val{r, er})
			}
			ok := e.c.Fresh("json.ok", SBool)
			e.branch(ok, func() {
				st := st.clone()
				out(st, e.freshResult(st, "json", by), e.nilIface())
			})
			e.branch(e.c.Not(ok), func() { out(st.clone(), e.zero(by), e.errVal()) })
		},
		"strings.Split": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			v := e.symbolic(st, "split", types.NewSlice(types.Typ[types.String]), true)
			if sep := e.str(args[1]); e.c.Len(sep).op == OConst && e.c.Len(sep) != e.c.Zero {
				e.assume(e.c.Le(e.c.Int(1), v.(*SliceV).n))
			}
			k(st, []Val{v})
		},
		"runtime.Caller": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			sig := com.Signature()
			var rs []Val
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, e.symbolic(st, "caller", sig.Results().At(i).Type(), true))
			}
			k(st, rs)
		},
		"time.(Time).Format": func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.Fresh("time", SSeq)})
		},
	}
	for _, enc := range []string{"NewCBCEncrypter", "NewCBCDecrypter"} {
		tag := map[string]string{"NewCBCEncrypter": "cbcenc", "NewCBCDecrypter": "cbcdec"}[enc]
		models["crypto/cipher."+enc] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			b := args[0].(*IfaceV)
			if e.tagName(b.tag) != "aes" {
				unsupported("block cipher")
			}
			iv := e.bytesOf(st, args[1])
			e.safe(e.c.Eq(e.c.Len(iv), e.c.Int(16)), "iv is one block")
			st = st.clone()
			r := e.newRef()
			e.gwrite(st, "key", r, e.gread(st, "key", b.ref))
			e.gwrite(st, "iv", r, iv)
			k(st, []Val{&IfaceV{e.c.Int(int64(e.P.externTag(tag))), r}})
		}
	}
	for _, h := range []string{"crypto/sha256.New", "crypto/sha512.New"} {
		h := h
		models[h] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			st = st.clone()
			r := e.newRef()
			e.gwrite(st, "data", r, e.c.Empty)
			k(st, []Val{&IfaceV{e.c.Int(int64(e.P.externTag(h))), r}})
		}
	}
	for _, h := range []struct {
		n, f string
	}{{"crypto/sha256.Sum256", "SHA256"}, {"crypto/sha512.Sum512", "SHA512"}} {
		h := h
		models[h.n] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			k(st, []Val{e.c.App(h.f, SSeq, e.bytesOf(st, args[0]))})
		}
	}
	for n, m := range models {
		n, m := n, m
		models[n] = func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
			e.useModel(n)
			m(e, fr, st, args, com, k)
		}
	}
}

// randRead: the operating system may fail; then the buffer is unspecified.
func (e *Eng) randRead(st *State, buf *SliceV, what string, k Cont) {
	c := e.c
	emit := func(ok bool) {
		s2 := st.clone()
		v := c.Fresh("random", SSeq)
		if buf.n.op == OConst {
			v = c.Fresh("random#"+buf.n.k.String(), SSeq)
		} else {
			e.assume(c.Eq(c.Len(v), buf.n))
		}
		e.writeSlice(s2, buf, v)
		er := e.nilIface()
		n := buf.n
		if !ok {
			er = e.errVal()
			n = c.FreshRange("rand.n", bi(0), nil)
		}
		rd := &SliceV{}
		_ = rd
		s2.events = append(s2.events[:len(s2.events):len(s2.events)], &Event{name: "rand.Read", args: []Val{v}, argT: []types.Type{nil}, res: []Val{n, er}, resT: []types.Type{types.Typ[types.Int], types.Universe.Lookup("error").Type()}, heap: s2.heap.clone()})
		k(s2, []Val{n, er})
	}
	b := c.Fresh("rand.ok", SBool)
	e.branch(b, func() { emit(true) })
	e.branch(c.Not(b), func() { emit(false) })
}

// protobuf messages: Marshal is an injective function of the set fields.
type pbField struct {
	name string
	t    types.Type
}

func pbFields(t types.Type) []pbField {
	var out []pbField
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasPrefix(s.Field(i).Name(), "XXX_") {
			continue
		}
		out = append(out, pbField{s.Field(i).Name(), s.Field(i).Type()})
	}
	return out
}

func (e *Eng) pbArg(v Val) (types.Type, *Term) {
	iv, ok := v.(*IfaceV)
	if !ok || iv.tag.op != OConst {
		unsupported("protobuf message of unknown type")
	}
	e.P.mu.Lock()
	t := e.P.typeByID[int(iv.tag.k.Int64())]
	e.P.mu.Unlock()
	if t == nil {
		unsupported("protobuf message of unknown type")
	}
	p, ok := t.(*types.Pointer)
	if !ok {
		unsupported("protobuf message of unknown type")
	}
	return p.Elem(), iv.ref
}

func protoMarshal(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
	c := e.c
	t, ref := e.pbArg(args[0])
	var as []*Term
	for _, f := range pbFields(t) {
		key := structKey(t) + "." + f.name
		switch u := f.t.Underlying().(type) {
		case *types.Pointer:
			p := e.load(st, st.heap, key, ref, f.t).(*Term)
			if _, _, ok := intRange(u.Elem()); !ok {
				if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsBoolean) == 0 {
					unsupported("protobuf field %s", f.t)
				}
			}
			has := c.Not(c.Eq(p, c.Zero))
			v := e.loadCell(st, p, u.Elem())
			z := e.zero(u.Elem()).(*Term)
			as = append(as, has, c.Ite(has, v, z))
		case *types.Slice:
			if !isByte(u.Elem()) {
				unsupported("protobuf field %s", f.t)
			}
			s := e.load(st, st.heap, key, ref, f.t).(*SliceV)
			as = append(as, c.Not(c.Eq(s.arr, c.Zero)), e.content(st.heap, s))
		default:
			unsupported("protobuf field %s", f.t)
		}
	}
	v := c.App("PM:"+typeName(t), SSeq, as...)
	e.assumeOnce(c.Le(c.Len(v), c.Int(1<<40)))
	e.notes["proto.Marshal of messages with optional integer and bytes fields does not fail"] = true
	s2 := st.clone()
	k(s2, []Val{e.fresh(s2, v), e.nilIface()})
}

// itoa is the decimal text of an integer.
// dec5 is the "%05d" rendering: for 0 <= x < 100000 exactly five decimal
// digits, of which it is the value.
func (e *Eng) dec5(x *Term) *Term {
	c := e.c
	t := c.App("DEC5", SSeq, x)
	in := c.And(c.Le(c.Zero, x), c.Lt(x, c.Int(100000)))
	val := c.Zero
	fs := []*Term{c.Eq(c.Len(t), c.Int(5))}
	for i := int64(0); i < 5; i++ {
		d := c.Nth(t, c.Int(i))
		fs = append(fs, c.Le(c.Int(48), d), c.Le(d, c.Int(57)))
		val = c.Add(c.Mul(val, c.Int(10)), c.Sub(d, c.Int(48)))
	}
	fs = append(fs, c.Eq(val, x))
	if e.decimals {
		// the same as the decimal text after as many zeros as are missing
		dec := e.itoa(x)
		for i := int64(0); i < 5; i++ {
			d := c.Nth(dec, c.Int(i))
			fs = append(fs, c.Imp(c.Lt(c.Int(i), c.Len(dec)), c.And(c.Le(c.Int(48), d), c.Le(d, c.Int(57)))))
		}
		fs = append(fs, c.Eq(t, c.Concat(c.Repeat(c.Int(48), c.Sub(c.Int(5), c.Len(dec))), dec)))
		for i := int64(1); i <= 5; i++ {
			fs = append(fs, c.Imp(c.Eq(c.Len(dec), c.Int(i)), c.Eq(t, c.Concat(c.Repeat(c.Int(48), c.Int(5-i)), dec))))
		}
	}
	e.assumeOnce(c.Imp(in, c.And(fs...)))
	return t
}

func (e *Eng) itoa(x *Term) *Term {
	c := e.c
	if x.op == OConst {
		return c.Lit([]byte(x.k.String()))
	}
	e.decimals = true
	t := c.App("ITOA", SSeq, x)
	e.assumeOnce(c.And(c.Ge(c.Len(t), c.One), c.Le(c.Len(t), c.Int(20))))
	e.assumeOnce(c.Imp(c.And(c.Le(c.Zero, x), c.Lt(x, c.Int(100000))), c.Le(c.Len(t), c.Int(5))))
	e.assumeOnce(c.Imp(c.And(c.Le(c.Zero, x), c.Le(x, c.Int(9))), c.And(c.Eq(c.Len(t), c.One), c.Eq(c.Nth(t, c.Zero), c.Add(x, c.Int(48))))))
	return t
}

func (e *Eng) pbKnown(t types.Type, in *Term) bool {
	return in.op == OApp && in.name == "PM:"+typeName(t)
}

// pbOK: the bytes are an encoding of a message of this type.
func (e *Eng) pbOK(t types.Type, in *Term) *Term {
	if e.pbKnown(t, in) {
		return e.c.T
	}
	return e.c.App("B_PBOK:"+typeName(t), SBool, in)
}

// pbGet: whether field i is present in the decoded message, and its value.
func (e *Eng) pbGet(t types.Type, i int, f pbField, in *Term) (has, val *Term) {
	c := e.c
	if e.pbKnown(t, in) {
		return in.args[2*i], in.args[2*i+1]
	}
	key := structKey(t) + "." + f.name
	has = c.App("B_PBHAS:"+key, SBool, in)
	switch u := f.t.Underlying().(type) {
	case *types.Pointer:
		if lo, hi, ok := intRange(u.Elem()); ok {
			return has, c.AppRange("I_PB:"+key, lo, hi, in)
		}
		return has, c.App("PB:"+key, e.zero(u.Elem()).(*Term).sort, in)
	case *types.Slice:
		if isByte(u.Elem()) {
			return has, c.App("PB:"+key, SSeq, in)
		}
	}
	unsupported("protobuf field %s", f.t)
	return nil, nil
}

func protoUnmarshal(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
	c := e.c
	t, ref := e.pbArg(args[1])
	in := e.bytesOf(st, args[0])
	valid := e.pbOK(t, in)
	fill := func(st *State) {
		for i, f := range pbFields(t) {
			key := structKey(t) + "." + f.name
			has, val := e.pbGet(t, i, f, in)
			switch u := f.t.Underlying().(type) {
			case *types.Pointer:
				r := e.newRef()
				e.store(st, "cell:"+typeName(u.Elem()), r, u.Elem(), val)
				e.store(st, key, ref, f.t, c.Ite(has, r, c.Zero))
			case *types.Slice:
				r := e.newRef()
				e.write(st, "bytes", r, val)
				n := c.Ite(has, c.Len(val), c.Zero)
				e.assume(c.Le(c.Len(val), c.Big(new(big.Int).Lsh(bi(1), 40))))
				e.store(st, key, ref, f.t, &SliceV{c.Ite(has, r, c.Zero), c.Zero, n, n, u.Elem()})
			}
		}
	}
	e.branch(valid, func() {
		s2 := st.clone()
		fill(s2)
		k(s2, []Val{e.nilIface()})
	})
	e.branch(c.Not(valid), func() {
		s2 := st.clone()
		fill(s2)
		k(s2, []Val{e.errVal()})
	})
}

// loadCell reads an integer or string through a pointer, which may point into a
// structure.
func (e *Eng) loadCell(st *State, p *Term, t types.Type) *Term {
	if p.op == OIte {
		return e.c.Ite(p.args[0], e.loadCell(st, p.args[1], t), e.loadCell(st, p.args[2], t))
	}
	if p.isFA() {
		return e.load(st, st.heap, p.name[3:], p.args[0], t).(*Term)
	}
	return e.load(st, st.heap, "cell:"+typeName(t), p, t).(*Term)
}

// orderGet reads an unsigned integer from the first n bytes of a slice.
func orderGet(n int, little bool) modelFn {
	return func(e *Eng, fr *Frame, st *State, args []Val, com *ssa.CallCommon, k Cont) {
		c := e.c
		sv := args[len(args)-1].(*SliceV)
		e.safe(c.Ge(sv.n, c.Int(int64(n))), "reading an integer from a short slice")
		b := e.content(st.heap, sv)
		v := c.Zero
		for i := 0; i < n; i++ {
			j := i
			if little {
				j = n - 1 - i
			}
			v = c.Add(c.Mul(v, c.Int(256)), c.Nth(b, c.Int(int64(j))))
		}
		k(st, []Val{v})
	}
}
