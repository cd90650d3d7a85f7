package main

// Models of library functions.

import (
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

type model func(ip *Interp, st *State, c *Call) ([]Outcome, bool)

var models map[string]model

var interpStd = map[string]bool{"encoding/binary": true, "math/bits": true}
var interpFn = map[string]bool{}

var purePrefix = []string{
	"crypto/ed25519.", "(crypto/ed25519.", "strconv.", "strings.", "bytes.", "encoding/hex.", "(*encoding/base32.", "(encoding/base32.", "encoding/base32.",
	"golang.org/x/crypto/", "math/bits.", "math.", "unicode", "fmt.Sprint", "errors.Is", "errors.Unwrap", "(net.IP)", "net.IPv4", "(reflect.Kind)", "(reflect.StructTag)",
	"invoke:error.Error", "(*fmt.wrapError)", "(*errors.errorString)", "(time.Duration)",
}

func pureFn(name string) bool {
	for _, p := range purePrefix {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func ret1(st *State, vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }

var errType = types.Universe.Lookup("error").Type()

var errCount int

// newErr is a fresh non-nil error.
func newErr(kind string) IfaceV {
	errCount++
	return IfaceV{sym: mkSym("err:"+kind, IntV{cLin(int64(errCount))}), ityp: errType}
}

var nilErr = IfaceV{ityp: errType}

func kindOf(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func kindV(k reflect.Kind) Val { return IntV{cLin(int64(k))} }

// refLoad is the value a reflect.Value holds.
func refLoad(st *State, r RefV, pos token.Pos) Val {
	if r.ptr != nil {
		return nodeVal(st.load(*r.ptr, pos), r.typ)
	}
	return r.val
}

func refPanic(ip *Interp, st *State, c *Call, what string) ([]Outcome, bool) {
	return []Outcome{{st: st, pan: ip.panicInfo(c.pos, what)}}, true
}

func asRef(c *Call, i int) RefV {
	r, ok := c.args[i].(RefV)
	if !ok {
		unsupported(c.pos, "reflect value %T", c.args[i])
	}
	return r
}

func constStr(v Val) (string, bool) {
	q, ok := v.(SeqV)
	if !ok {
		return "", false
	}
	b, ok := q.S.constBytes()
	return string(b), ok
}

func strV(s string) Val { return SeqV{constSeq([]byte(s))} }

func (ip *Interp) seqArg(st *State, v Val, pos token.Pos) Seq {
	switch x := v.(type) {
	case SeqV:
		return x.S
	case SliceV:
		return st.bytesOf(x, pos)
	}
	unsupported(pos, "byte sequence expected, got %T", v)
	return Seq{}
}

// fromAlts converts the result of an instruction helper.
func fromAlts(as []alt, ps []panAlt) ([]Outcome, bool) {
	var out []Outcome
	for _, a := range as {
		o := Outcome{st: a.st}
		if a.v != nil {
			o.ret = []Val{a.v}
		}
		out = append(out, o)
	}
	for _, p := range ps {
		out = append(out, Outcome{st: p.st, pan: p.pan})
	}
	return out, true
}

func mkByteSlice(st *State, q Seq, where string) SliceV {
	n := q.length()
	o := freshArr(types.Typ[types.Uint8], n, where)
	st.set(o, BytesN{q})
	return SliceV{obj: o, off: cLin(0), len: n, cap: n}
}

func init() {
	models = map[string]model{
		"errors.New": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) { return ret1(st, newErr("New")) },
		"fmt.Errorf": errorfModel,
		"fmt.Println": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ret1(st, IntV{cLin(0)}, nilErr)
		},
		"fmt.Printf": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ret1(st, IntV{cLin(0)}, nilErr)
		},
		"fmt.Sprintf": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) { return ip.sprintf(st, c) },
		"os.Exit": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return []Outcome{{st: st, pan: ip.panicInfo(c.pos, "exit")}}, true
		},
		"bytes.Equal": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ret1(st, BoolV{seqEqBool(st.f, ip.seqArg(st, c.args[0], c.pos), ip.seqArg(st, c.args[1], c.pos))})
		},
		"bytes.HasPrefix": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			a, b := ip.seqArg(st, c.args[0], c.pos), ip.seqArg(st, c.args[1], c.pos)
			ts, fs := split(st, bGe0(a.length().sub(b.length())), c.pos)
			var out []Outcome
			for _, s := range fs {
				out = append(out, Outcome{st: s, ret: []Val{BoolV{bFalse}}})
			}
			for _, s := range ts {
				q, ok := a.slice(s.f, cLin(0), b.length())
				if !ok {
					q = rawSeq(mkSym("cut", SeqV{a}, IntV{cLin(0)}), cLin(0), b.length())
				}
				out = append(out, Outcome{st: s, ret: []Val{BoolV{seqEqBool(s.f, q, b)}}})
			}
			return out, true
		},
		"bytes.Compare": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			a, b := ip.seqArg(st, c.args[0], c.pos), ip.seqArg(st, c.args[1], c.pos)
			eq := seqEqBool(st.f, a, b)
			t, f := split(st, eq, c.pos)
			var out []Outcome
			for _, s := range t {
				out = append(out, Outcome{st: s, ret: []Val{IntV{cLin(0)}}})
			}
			for _, s := range f {
				at := mkAtom("bytescmp", []Val{SeqV{a}, SeqV{b}}, bigM1, big1).lin()
				for _, g := range s.f.assume(bEq0(at), false) {
					s2 := s.clone()
					s2.f = g
					out = append(out, Outcome{st: s2, ret: []Val{IntV{at}}})
				}
			}
			return out, true
		},
		"strings.Split": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			s, ok1 := constStr(c.args[0])
			sep, ok2 := constStr(c.args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			parts := strings.Split(s, sep)
			o := freshArr(types.Typ[types.String], cLin(int64(len(parts))), P.pos(c.pos))
			an := o.init.(ArrN)
			for i, p := range parts {
				an.ups = append(an.ups, upd{idx: cLin(int64(i)), node: LeafN{strV(p)}})
			}
			o.init = an
			n := cLin(int64(len(parts)))
			return ret1(st, SliceV{obj: o, off: cLin(0), len: n, cap: n})
		},
		"strings.HasPrefix": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ip.hasPrefix(st, c)
		},
		"strings.TrimPrefix": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			a, ok1 := constStr(c.args[0])
			b, ok2 := constStr(c.args[1])
			if ok1 && ok2 {
				return ret1(st, strV(strings.TrimPrefix(a, b)))
			}
			return nil, false
		},
		"encoding/hex.EncodeToString": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			q := ip.seqArg(st, c.args[0], c.pos)
			return ret1(st, SeqV{rawSeq(mkSym("hex", SeqV{q}), cLin(0), q.length().mulc64(2))})
		},
		"golang.org/x/crypto/blake2b.Sum256": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ret1(st, NodeV{BytesN{hashSeq("blake2b256", ip.seqArg(st, c.args[0], c.pos), 32)}})
		},
		"golang.org/x/crypto/blake2b.New256": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			key := ip.seqArg(st, c.args[0], c.pos)
			alg := "blake2b256"
			if len(key.segs) > 0 {
				alg = "blake2b256:" + key.Key()
			}
			return ret1(st, newHash(alg, 32), nilErr)
		},
		"crypto/sha256.New": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) { return ret1(st, newHash("sha256", 32)) },
		"crypto/sha256.Sum256": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ret1(st, NodeV{BytesN{hashSeq("sha256", ip.seqArg(st, c.args[0], c.pos), 32)}})
		},
		"crypto/ed25519.Sign": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			key, msg := ip.seqArg(st, c.args[0], c.pos), ip.seqArg(st, c.args[1], c.pos)
			st.emit(Event{kind: "ed25519.Sign", args: []Val{SeqV{key}, SeqV{msg}}, pos: c.pos})
			oks, ps := ip.require(st, bEq0(key.length().addc(-64)), c.pos, "ed25519: bad private key length")
			var out []Outcome
			for _, s := range oks {
				out = append(out, Outcome{st: s, ret: []Val{mkByteSlice(s, rawSeq(mkSym("ed25519sig", SeqV{key}, SeqV{msg}), cLin(0), cLin(64)), "ed25519.Sign")}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		},
		"(crypto/ed25519.PrivateKey).Sign": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			// plain Ed25519 if the options name no hash
			key, msg := ip.seqArg(st, c.args[0], c.pos), ip.seqArg(st, c.args[2], c.pos)
			st.emit(Event{kind: "ed25519.Sign", args: []Val{SeqV{key}, SeqV{msg}, c.args[3]}, pos: c.pos})
			oks, ps := ip.require(st, bEq0(key.length().addc(-64)), c.pos, "ed25519: bad private key length")
			var out []Outcome
			for _, s := range oks {
				h, isI := c.args[3].(IfaceV)
				plain := false
				if isI && h.typ != nil && namedPath(h.typ) == "crypto.Hash" {
					if iv, ok := h.v.(IntV); ok && iv.L.isZero() {
						plain = true
					}
				}
				if !plain {
					return nil, false
				}
				out = append(out, Outcome{st: s, ret: []Val{mkByteSlice(s, rawSeq(mkSym("ed25519sig", SeqV{key}, SeqV{msg}), cLin(0), cLin(64)), "ed25519.Sign"), nilErr}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		},
		"crypto/ed25519.NewKeyFromSeed": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			seed := ip.seqArg(st, c.args[0], c.pos)
			oks, ps := ip.require(st, bEq0(seed.length().addc(-32)), c.pos, "ed25519: bad seed length")
			var out []Outcome
			for _, s := range oks {
				out = append(out, Outcome{st: s, ret: []Val{mkByteSlice(s, rawSeq(mkSym("ed25519key", SeqV{seed.resolve(s.f)}), cLin(0), cLin(64)), "ed25519 key")}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		},
		"crypto/ed25519.GenerateKey": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			errCount++
			k := mkSym("ed25519newkey", IntV{cLin(int64(errCount))})
			st.emit(Event{kind: "ed25519.GenerateKey", args: c.args, pos: c.pos})
			bad := st.clone()
			none := zeroVal(types.NewSlice(types.Typ[types.Byte]))
			return []Outcome{
				{st: st, ret: []Val{mkByteSlice(st, rawSeq(k, cLin(32), cLin(32)), "ed25519 public key"), mkByteSlice(st, rawSeq(k, cLin(0), cLin(64)), "ed25519 key"), nilErr}},
				{st: bad, ret: []Val{none, none, newErr("GenerateKey")}},
			}, true
		},
		"(crypto/ed25519.PrivateKey).Public": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			key := ip.seqArg(st, c.args[0], c.pos)
			oks, ps := ip.require(st, bGe0(key.length().addc(-64)), c.pos, "ed25519: private key too short")
			var out []Outcome
			for _, s := range oks {
				pub, ok := key.slice(s.f, cLin(32), cLin(64))
				if !ok {
					return nil, false
				}
				t := P.typ("crypto/ed25519", "PublicKey")
				out = append(out, Outcome{st: s, ret: []Val{IfaceV{typ: t, v: mkByteSlice(s, pub, "ed25519 public key"), ityp: c.res.At(0).Type()}}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		},
		"crypto/ed25519.Verify": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			var qs []Val
			for _, a := range c.args {
				qs = append(qs, SeqV{ip.seqArg(st, a, c.pos)})
			}
			st.emit(Event{kind: "ed25519.Verify", args: qs, pos: c.pos})
			oks, ps := ip.require(st, bEq0(qs[0].(SeqV).S.length().addc(-32)), c.pos, "ed25519: bad public key length")
			var out []Outcome
			for _, s := range oks {
				out = append(out, Outcome{st: s, ret: []Val{BoolV{bPred("ed25519.Verify", qs...)}}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		},
		"(*sync.Mutex).Lock":     lockEvent("lock"),
		"(*sync.Mutex).Unlock":   lockEvent("unlock"),
		"(*sync.RWMutex).Lock":   lockEvent("lock"),
		"(*sync.RWMutex).Unlock": lockEvent("unlock"),
		"encoding/binary.Write": func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			return ip.binaryWrite(st, c)
		},
	}
	// byte orders
	for _, w := range []int{16, 32, 64} {
		w := w
		n := w / 8
		s := map[int]string{16: "16", 32: "32", 64: "64"}[w]
		models["(encoding/binary.bigEndian).Uint"+s] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			sv := c.args[len(c.args)-1].(SliceV)
			oks, ps := ip.require(st, bGe0(sv.len.addc(int64(-n))), c.pos, "index out of range")
			var out []Outcome
			for _, s := range oks {
				q := s.bytesOf(sv, c.pos)
				h, ok := q.slice(s.f, cLin(0), cLin(int64(n)))
				var v *Lin
				if ok {
					v = h.num(n)
				}
				if v == nil {
					v = mkAtom("beof", []Val{SeqV{q}}, big0, bLin(pow2(uint(w))).addc(-1).k).lin()
				}
				out = append(out, Outcome{st: s, ret: []Val{IntV{v}}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		}
		models["(encoding/binary.bigEndian).PutUint"+s] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			sv := c.args[len(c.args)-2].(SliceV)
			v := c.args[len(c.args)-1].(IntV)
			oks, ps := ip.require(st, bGe0(sv.len.addc(int64(-n))), c.pos, "index out of range")
			var out []Outcome
			for _, s := range oks {
				s.writeBytes(sv, cLin(0), intSeq(v.L, n), c.pos)
				out = append(out, Outcome{st: s})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		}
		models["(encoding/binary.bigEndian).AppendUint"+s] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			v := c.args[len(c.args)-1].(IntV)
			return ip.append(st, c.args[len(c.args)-2], SeqV{intSeq(v.L, n)}, types.NewSlice(types.Typ[types.Uint8]), c.pos), true
		}
	}
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		for _, m := range []string{"WriteString", "Write", "WriteByte", "WriteRune", "String", "Bytes", "Len", "Reset", "Grow"} {
			m := m
			models[t+m] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
				return ip.bufMethod(st, m, c.args, c.pos)
			}
		}
	}
	reflectModels()
}

func lockEvent(k string) model {
	return func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		st.emit(Event{kind: k, args: []Val{c.args[0]}, pos: c.pos})
		return []Outcome{{st: st}}, true
	}
}

// bufMethod models growing byte buffers.
func (ip *Interp) bufMethod(st *State, m string, args []Val, pos token.Pos) ([]Outcome, bool) {
	p, ok := args[0].(PtrV)
	if !ok || p.obj == nil {
		return []Outcome{{st: st, pan: ip.panicInfo(pos, "nil dereference")}}, true
	}
	var q Seq
	if l, ok := st.load(p, pos).(LeafN); ok {
		if s, ok := l.V.(SeqV); ok {
			q = s.S
		} else {
			return nil, false
		}
	} else {
		n := expand(st.load(p, pos))
		l, ok := n.(LeafN)
		if !ok {
			return nil, false
		}
		q = l.V.(SeqV).S
	}
	put := func(d Seq) { st.store(p, LeafN{SeqV{q.concat(d)}}, pos) }
	switch m {
	case "WriteString", "Write":
		d := ip.seqArg(st, args[1], pos)
		put(d)
		return ret1(st, IntV{d.length()}, nilErr)
	case "WriteByte":
		put(byteSeq(args[1].(IntV).L))
		return ret1(st, nilErr)
	case "WriteRune":
		r := args[1].(IntV).L
		t, f := split(st, bAnd2(bGe0(r), bGe0(cLin(127).sub(r))), pos)
		var out []Outcome
		for _, s := range t {
			s.store(p, LeafN{SeqV{q.concat(byteSeq(r))}}, pos)
			out = append(out, Outcome{st: s, ret: []Val{IntV{cLin(1)}, nilErr}})
		}
		for _, s := range f {
			n := mkAtom("utf8len", []Val{IntV{r}}, big1, bi(4)).lin()
			s.store(p, LeafN{SeqV{q.concat(rawSeq(mkSym("utf8", IntV{r}), cLin(0), n))}}, pos)
			out = append(out, Outcome{st: s, ret: []Val{IntV{n}, nilErr}})
		}
		return out, true
	case "String":
		return ret1(st, SeqV{q})
	case "Bytes":
		return ret1(st, mkByteSlice(st, q, "buffer bytes"))
	case "Len":
		return ret1(st, IntV{q.length()})
	case "Reset":
		st.store(p, LeafN{SeqV{}}, pos)
		return []Outcome{{st: st}}, true
	case "Grow":
		return []Outcome{{st: st}}, true
	}
	return nil, false
}

// ---- hashes

var hashNamed = types.NewNamed(types.NewTypeName(token.NoPos, nil, "hashState", nil), types.NewStruct(nil, nil), nil)
var hashPtr = types.NewPointer(hashNamed)

func hashSeq(alg string, content Seq, n int64) Seq {
	return rawSeq(mkSym(alg, SeqV{content}), cLin(0), cLin(n))
}

type hashInfo struct {
	alg string
	n   int64
}

var hashObjs = map[*Obj]hashInfo{}

func newHash(alg string, n int64) IfaceV {
	o := freshObj(types.Typ[types.String], "hash")
	o.init = LeafN{SeqV{}}
	hashObjs[o] = hashInfo{alg, n}
	return IfaceV{typ: hashPtr, v: PtrV{obj: o}, ityp: types.NewInterfaceType(nil, nil)}
}

// specialRecv handles method calls on modelled receivers.
func (ip *Interp) specialRecv(st *State, r IfaceV, m string, args []Val, pos token.Pos) ([]Outcome, bool) {
	p, ok := r.v.(PtrV)
	if !ok || p.obj == nil {
		return nil, false
	}
	h, ok := hashObjs[p.obj]
	if !ok {
		return nil, false
	}
	q := st.content(p.obj).(LeafN).V.(SeqV).S
	switch m {
	case "Write", "WriteString":
		d := ip.seqArg(st, args[0], pos)
		st.set(p.obj, LeafN{SeqV{q.concat(d)}})
		return ret1(st, IntV{d.length()}, nilErr)
	case "Sum":
		return ip.append(st, args[0], SeqV{hashSeq(h.alg, q, h.n)}, types.NewSlice(types.Typ[types.Uint8]), pos), true
	case "Reset":
		st.set(p.obj, LeafN{SeqV{}})
		return []Outcome{{st: st}}, true
	case "Size":
		return ret1(st, IntV{cLin(h.n)})
	}
	return nil, false
}

func (ip *Interp) binaryWrite(st *State, c *Call) ([]Outcome, bool) {
	w, ok := c.args[0].(IfaceV)
	d, ok2 := c.args[2].(IfaceV)
	if !ok || !ok2 || w.typ == nil || d.typ == nil {
		return nil, false
	}
	o, ok := c.args[1].(IfaceV)
	if !ok || o.typ == nil || !strings.HasSuffix(namedPath(o.typ), "binary.bigEndian") {
		return nil, false
	}
	bits, _, isInt := intInfo(d.typ)
	iv, isV := d.v.(IntV)
	if !isInt || !isV {
		return nil, false
	}
	q := SeqV{intSeq(iv.L, int(bits/8))}
	if r, ok := ip.specialRecv(st, w, "Write", []Val{q}, c.pos); ok {
		for i := range r {
			r[i].ret = []Val{nilErr}
		}
		return r, true
	}
	switch w.typ.String() {
	case "*bytes.Buffer", "*strings.Builder":
		r, ok := ip.bufMethod(st, "Write", []Val{w.v, q}, c.pos)
		for i := range r {
			r[i].ret = []Val{nilErr}
		}
		return r, ok
	}
	return nil, false
}

func (ip *Interp) hasPrefix(st *State, c *Call) ([]Outcome, bool) {
	a, b := ip.seqArg(st, c.args[0], c.pos), ip.seqArg(st, c.args[1], c.pos)
	x, ok1 := a.constBytes()
	y, ok2 := b.constBytes()
	if ok1 && ok2 {
		return ret1(st, BoolV{cBool(strings.HasPrefix(string(x), string(y)))})
	}
	t, f := split(st, bGe0(a.length().sub(b.length())), c.pos)
	var out []Outcome
	for _, s := range f {
		out = append(out, Outcome{st: s, ret: []Val{BoolV{bFalse}}})
	}
	for _, s := range t {
		h, ok := a.slice(s.f, cLin(0), b.length())
		if !ok {
			h = rawSeq(mkSym("cut", SeqV{a}, IntV{cLin(0)}), cLin(0), b.length())
		}
		out = append(out, Outcome{st: s, ret: []Val{BoolV{seqEqBool(s.f, h, b)}}})
	}
	return out, true
}

// sprintf understands plain decimal and hexadecimal verbs.
func (ip *Interp) sprintf(st *State, c *Call) ([]Outcome, bool) {
	args := contentArgs(st, c.args, c.pos)
	f, ok := constStr(c.args[0])
	if !ok {
		return nil, false
	}
	var vs []Val
	if sl, ok := c.args[1].(SliceV); ok && sl.obj != nil {
		n, isC := sl.len.constVal()
		if !isC {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			e := nodeVal(st.readNode(st.content(sl.obj), sliceElem(sl, cLin(i)).path, c.pos), nil)
			vs = append(vs, contentArgs(st, []Val{e}, c.pos)[0])
		}
	}
	_ = args
	sy := mkSym("sprintf", append([]Val{StrLit(f)}, vs...)...)
	// a format with fixed-width verbs only has a known length
	if f == "%02d" && len(vs) == 1 {
		if i, ok := vs[0].(IfaceV); ok && i.typ != nil {
			if iv, ok := i.v.(IntV); ok && st.f.entails(iv.L) && st.f.entails(cLin(99).sub(iv.L)) {
				hi := mkDiv(iv.L, bi(10))
				lo := iv.L.sub(hi.mulc64(10))
				return ret1(st, SeqV{byteSeq(hi.addc('0')).concat(byteSeq(lo.addc('0')))})
			}
		}
	}
	return ret1(st, SeqV{rawSeq(sy, cLin(0), symLen(sy))})
}

// ---- reflection

func reflectModels() {
	rv := func(name string, f func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool)) {
		models["(reflect.Value)."+name] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			r, ok := c.args[0].(RefV)
			if !ok {
				if o, isO := c.args[0].(OpaqueV); isO {
					_ = o
					return nil, false
				}
				return nil, false
			}
			if r.typ == nil && name != "IsValid" && name != "Kind" && name != "CanAddr" && name != "CanInterface" && name != "String" {
				return refPanic(ip, st, c, "reflect: call of "+name+" on zero Value")
			}
			return f(ip, st, c, r)
		}
	}
	models["reflect.ValueOf"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		i, ok := c.args[0].(IfaceV)
		if !ok {
			return nil, false
		}
		var out []Outcome
		if i.typ == nil && i.sym != nil {
			for _, k := range ip.ifaceCases(st, i, c.pos) {
				if k.v.typ == nil && k.v.sym != nil {
					return nil, false
				}
				out = append(out, Outcome{st: k.st, ret: []Val{RefV{typ: k.v.typ, val: k.v.v}}})
			}
			return out, true
		}
		return ret1(st, RefV{typ: i.typ, val: i.v})
	}
	models["reflect.TypeOf"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		i, ok := c.args[0].(IfaceV)
		if !ok || i.typ == nil && i.sym != nil {
			return ret1(st, TypV{})
		}
		return ret1(st, TypV{i.typ})
	}
	models["reflect.New"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		t := c.args[0].(TypV).typ
		o := freshObj(t, P.pos(c.pos))
		return ret1(st, RefV{typ: types.NewPointer(t), val: PtrV{obj: o}})
	}
	models["reflect.Zero"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		t := c.args[0].(TypV).typ
		return ret1(st, RefV{typ: t, val: zeroVal(t)})
	}
	models["reflect.Indirect"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		r := asRef(c, 0)
		if kindOf(r.typ) != reflect.Ptr {
			return ret1(st, r)
		}
		return models["(reflect.Value).Elem"](ip, st, c)
	}
	models["reflect.MakeSlice"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		t := c.args[0].(TypV).typ
		u := under(t).(*types.Slice)
		n, k := c.args[1].(IntV).L, c.args[2].(IntV).L
		as, ps := ip.makeSlice(st, u.Elem(), n, k, c.pos, "reflect.MakeSlice")
		for i := range as {
			as[i].v = RefV{typ: t, val: as[i].v}
		}
		return fromAlts(as, ps)
	}
	models["reflect.Copy"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		d, s := asRef(c, 0), asRef(c, 1)
		dv, ok := refSlice(st, d, c.pos)
		if !ok {
			return refPanic(ip, st, c, "reflect.Copy: not a slice or addressable array")
		}
		sv := refLoad(st, s, c.pos)
		if a, ok := refSlice(st, s, c.pos); ok {
			sv = a
			if !types.Identical(elemOf(d.typ), elemOf(s.typ)) {
				return refPanic(ip, st, c, "reflect.Copy: different element types")
			}
		}
		return ip.copy(st, dv, sv, c.pos), true
	}
	models["reflect.Append"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) { return nil, false }
	models["reflect.PtrTo"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		return ret1(st, TypV{types.NewPointer(c.args[0].(TypV).typ)})
	}
	models["reflect.PointerTo"] = models["reflect.PtrTo"]

	rv("Kind", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		if r.typ == nil {
			return ret1(st, kindV(reflect.Invalid))
		}
		return ret1(st, kindV(kindOf(r.typ)))
	})
	rv("IsValid", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		return ret1(st, BoolV{cBool(r.typ != nil)})
	})
	rv("CanAddr", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		return ret1(st, BoolV{cBool(r.ptr != nil)})
	})
	rv("CanSet", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		return ret1(st, BoolV{cBool(r.ptr != nil && !r.roExp)})
	})
	rv("CanInterface", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		if r.typ == nil {
			return refPanic(ip, st, c, "reflect: CanInterface on zero Value")
		}
		return ret1(st, BoolV{cBool(!r.roExp)})
	})
	rv("Addr", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		if r.ptr == nil {
			return refPanic(ip, st, c, "reflect: Addr of unaddressable value")
		}
		return ret1(st, RefV{typ: types.NewPointer(r.typ), val: *r.ptr, roExp: r.roExp})
	})
	rv("Type", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) { return ret1(st, TypV{r.typ}) })
	rv("Interface", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		if r.roExp {
			return refPanic(ip, st, c, "reflect: Interface of unexported field")
		}
		return ret1(st, mkIface(refLoad(st, r, c.pos), r.typ, c.res.At(0).Type()))
	})
	rv("IsNil", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		switch kindOf(r.typ) {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return ret1(st, BoolV{isNilVal(refLoad(st, r, c.pos))})
		}
		return refPanic(ip, st, c, "reflect: IsNil on "+kindOf(r.typ).String())
	})
	rv("IsZero", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		return ret1(st, BoolV{eqVal(st, refLoad(st, r, c.pos), zeroVal(r.typ), r.typ, r.typ)})
	})
	rv("Elem", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		switch u := under(r.typ).(type) {
		case *types.Pointer:
			p, ok := refLoad(st, r, c.pos).(PtrV)
			if !ok {
				return nil, false
			}
			t, f := split(st, isNilVal(p), c.pos)
			var out []Outcome
			for _, s := range t {
				out = append(out, Outcome{st: s, ret: []Val{RefV{}}})
			}
			for _, s := range f {
				q := p
				q.null = nil
				out = append(out, Outcome{st: s, ret: []Val{RefV{typ: u.Elem(), ptr: &q, roExp: r.roExp}}})
			}
			return out, true
		case *types.Interface:
			i, ok := refLoad(st, r, c.pos).(IfaceV)
			if !ok {
				return nil, false
			}
			if i.typ != nil || i.sym == nil {
				return ret1(st, RefV{typ: i.typ, val: i.v, roExp: r.roExp})
			}
			var out []Outcome
			for _, k := range ip.ifaceCases(st, i, c.pos) {
				if k.v.typ == nil && k.v.sym != nil {
					return nil, false
				}
				out = append(out, Outcome{st: k.st, ret: []Val{RefV{typ: k.v.typ, val: k.v.v, roExp: r.roExp}}})
			}
			return out, true
		}
		return refPanic(ip, st, c, "reflect: Elem on "+kindOf(r.typ).String())
	})
	setter := func(name string, conv func(ip *Interp, st *State, c *Call, r RefV) Node) {
		rv(name, func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
			if r.ptr == nil || r.roExp {
				return refPanic(ip, st, c, "reflect: "+name+" using unaddressable or unexported value")
			}
			n := conv(ip, st, c, r)
			if n == nil {
				return refPanic(ip, st, c, "reflect: "+name+" on "+kindOf(r.typ).String())
			}
			st.store(*r.ptr, n, c.pos)
			return []Outcome{{st: st}}, true
		})
	}
	isKind := func(t types.Type, ks ...reflect.Kind) bool {
		for _, k := range ks {
			if kindOf(t) == k {
				return true
			}
		}
		return false
	}
	setter("Set", func(ip *Interp, st *State, c *Call, r RefV) Node {
		x := asRef(c, 1)
		if x.typ == nil || x.roExp || !types.AssignableTo(x.typ, r.typ) {
			return nil
		}
		v := refLoad(st, x, c.pos)
		if types.IsInterface(r.typ) && !types.IsInterface(x.typ) {
			v = mkIface(v, x.typ, r.typ)
		}
		return valNode(v)
	})
	setter("SetInt", func(ip *Interp, st *State, c *Call, r RefV) Node {
		if !isKind(r.typ, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64) {
			return nil
		}
		return LeafN{IntV{fit(st.f, c.args[1].(IntV).L, r.typ)}}
	})
	setter("SetUint", func(ip *Interp, st *State, c *Call, r RefV) Node {
		if !isKind(r.typ, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr) {
			return nil
		}
		return LeafN{IntV{fit(st.f, c.args[1].(IntV).L, r.typ)}}
	})
	setter("SetBool", func(ip *Interp, st *State, c *Call, r RefV) Node {
		if !isKind(r.typ, reflect.Bool) {
			return nil
		}
		return LeafN{c.args[1]}
	})
	setter("SetString", func(ip *Interp, st *State, c *Call, r RefV) Node {
		if !isKind(r.typ, reflect.String) {
			return nil
		}
		return LeafN{c.args[1]}
	})
	setter("SetBytes", func(ip *Interp, st *State, c *Call, r RefV) Node {
		if !isKind(r.typ, reflect.Slice) || !isByte(under(r.typ).(*types.Slice).Elem()) {
			return nil
		}
		return LeafN{c.args[1]}
	})
	getter := func(name string, ks ...reflect.Kind) {
		rv(name, func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
			if !isKind(r.typ, ks...) {
				return refPanic(ip, st, c, "reflect: "+name+" on "+kindOf(r.typ).String())
			}
			return ret1(st, refLoad(st, r, c.pos))
		})
	}
	getter("Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	getter("Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	getter("Bool", reflect.Bool)
	rv("String", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		if r.typ == nil || !isKind(r.typ, reflect.String) {
			return ret1(st, strV("<value>"))
		}
		return ret1(st, refLoad(st, r, c.pos))
	})
	rv("Bytes", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		sv, ok := refSlice(st, r, c.pos)
		if !ok || !isByte(elemOf(r.typ)) {
			return refPanic(ip, st, c, "reflect: Bytes on "+kindOf(r.typ).String())
		}
		return ret1(st, sv)
	})
	rv("Len", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		switch u := under(r.typ).(type) {
		case *types.Array:
			return ret1(st, IntV{cLin(u.Len())})
		case *types.Slice:
			lv := refLoad(st, r, c.pos)
			if _, ok := lv.(SliceV); !ok {
				unsupported(c.pos, "Len of %T %s type %s", lv, lv.Key(), r.typ)
			}
			return ret1(st, IntV{lv.(SliceV).len})
		case *types.Basic:
			if q, ok := refLoad(st, r, c.pos).(SeqV); ok {
				return ret1(st, IntV{q.S.length()})
			}
		}
		return refPanic(ip, st, c, "reflect: Len on "+kindOf(r.typ).String())
	})
	rv("Index", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		i := c.args[1].(IntV).L
		switch u := under(r.typ).(type) {
		case *types.Array:
			oks, ps := ip.require(st, bAnd2(bGe0(i), bGe0(cLin(u.Len()-1).sub(i))), c.pos, "reflect: array index out of range")
			var as []alt
			for _, s := range oks {
				if r.ptr != nil {
					q := ptrIndex(*r.ptr, i)
					as = append(as, alt{s, RefV{typ: u.Elem(), ptr: &q, roExp: r.roExp}})
					continue
				}
				n := s.readNode(r.val.(NodeV).N, []PE{{idx: i}}, c.pos)
				as = append(as, alt{s, RefV{typ: u.Elem(), val: nodeVal(n, u.Elem()), roExp: r.roExp}})
			}
			return fromAlts(as, ps)
		case *types.Slice:
			sv := refLoad(st, r, c.pos).(SliceV)
			oks, ps := ip.require(st, bAnd2(bGe0(i), bGe0(sv.len.sub(i).addc(-1))), c.pos, "reflect: slice index out of range")
			var as []alt
			for _, s := range oks {
				if sv.obj == nil {
					continue
				}
				q := sliceElem(sv, i)
				as = append(as, alt{s, RefV{typ: u.Elem(), ptr: &q, roExp: r.roExp}})
			}
			return fromAlts(as, ps)
		}
		return nil, false
	})
	rv("NumField", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		if u, ok := under(r.typ).(*types.Struct); ok {
			return ret1(st, IntV{cLin(int64(u.NumFields()))})
		}
		return refPanic(ip, st, c, "reflect: NumField on "+kindOf(r.typ).String())
	})
	rv("NumMethod", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		return ret1(st, IntV{cLin(int64(numMethods(r.typ)))})
	})
	rv("Field", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		u, ok := under(r.typ).(*types.Struct)
		i, isC := c.args[1].(IntV).L.constVal()
		if !ok {
			return refPanic(ip, st, c, "reflect: Field on "+kindOf(r.typ).String())
		}
		if !isC {
			return nil, false
		}
		if i < 0 || int(i) >= u.NumFields() {
			return refPanic(ip, st, c, "reflect: Field index out of range")
		}
		ft := u.Field(int(i)).Type()
		ro := r.roExp || !u.Field(int(i)).Exported()
		if r.ptr != nil {
			q := ptrField(*r.ptr, int(i))
			return ret1(st, RefV{typ: ft, ptr: &q, roExp: ro})
		}
		n := st.readNode(r.val.(NodeV).N, []PE{{field: int(i)}}, c.pos)
		return ret1(st, RefV{typ: ft, val: nodeVal(n, ft), roExp: ro})
	})
	rv("Slice", func(ip *Interp, st *State, c *Call, r RefV) ([]Outcome, bool) {
		lo, hi := c.args[1].(IntV).L, c.args[2].(IntV).L
		sv, ok := refSlice(st, r, c.pos)
		if !ok {
			if q, isQ := refLoad(st, r, c.pos).(SeqV); isQ {
				as, ps := ip.sliceVal(st, q, types.Typ[types.String], lo, hi, nil, c.pos)
				for i := range as {
					as[i].v = RefV{typ: r.typ, val: as[i].v}
				}
				return fromAlts(as, ps)
			}
			return refPanic(ip, st, c, "reflect: Slice of unaddressable array")
		}
		t := types.Type(types.NewSlice(elemOf(r.typ)))
		if _, isS := under(r.typ).(*types.Slice); isS {
			t = r.typ
		}
		as, ps := ip.sliceVal(st, sv, t, lo, hi, nil, c.pos)
		for i := range as {
			as[i].v = RefV{typ: t, val: as[i].v, roExp: r.roExp}
		}
		return fromAlts(as, ps)
	})
	models["(reflect.Kind).String"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if k, ok := c.args[0].(IntV).L.constVal(); ok {
			return ret1(st, strV(reflect.Kind(k).String()))
		}
		return nil, false
	}
	tag := func(ip *Interp, st *State, c *Call) (string, bool, bool) {
		a, ok1 := constStr(c.args[0])
		b, ok2 := constStr(c.args[1])
		if !ok1 || !ok2 {
			return "", false, false
		}
		v, has := reflect.StructTag(a).Lookup(b)
		return v, has, true
	}
	models["(reflect.StructTag).Lookup"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		v, has, ok := tag(ip, st, c)
		if !ok {
			return nil, false
		}
		return ret1(st, strV(v), BoolV{cBool(has)})
	}
	models["(reflect.StructTag).Get"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		v, _, ok := tag(ip, st, c)
		if !ok {
			return nil, false
		}
		return ret1(st, strV(v))
	}
}

func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return t
}

// refSlice is a reflect.Value seen as a slice (an addressable array is sliced in full).
func refSlice(st *State, r RefV, pos token.Pos) (SliceV, bool) {
	switch u := under(r.typ).(type) {
	case *types.Slice:
		s, ok := refLoad(st, r, pos).(SliceV)
		return s, ok
	case *types.Array:
		if r.ptr == nil {
			return SliceV{}, false
		}
		n := cLin(u.Len())
		return SliceV{obj: r.ptr.obj, path: r.ptr.path, off: cLin(0), len: n, cap: n}, true
	}
	return SliceV{}, false
}

func numMethods(t types.Type) int {
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

// structField builds a reflect.StructField value.
func structField(u *types.Struct, i int, t types.Type) Val {
	st := under(t).(*types.Struct)
	fs := make([]Node, st.NumFields())
	for j := range fs {
		ft := st.Field(j).Type()
		switch st.Field(j).Name() {
		case "Name":
			fs[j] = LeafN{strV(u.Field(i).Name())}
		case "Tag":
			fs[j] = LeafN{strV(u.Tag(i))}
		case "Type":
			fs[j] = LeafN{TypV{u.Field(i).Type()}}
		case "Anonymous":
			fs[j] = LeafN{BoolV{cBool(u.Field(i).Embedded())}}
		case "PkgPath":
			s := ""
			if !u.Field(i).Exported() && u.Field(i).Pkg() != nil {
				s = u.Field(i).Pkg().Path()
			}
			fs[j] = LeafN{strV(s)}
		default:
			fs[j] = zeroNode(ft)
		}
	}
	return NodeV{StructN{t, fs}}
}

func reflectTypeMethod(ip *Interp, st *State, t TypV, m string, args []Val, sig *types.Signature, pos token.Pos) ([]Outcome, bool) {
	if t.typ == nil {
		return []Outcome{{st: st, pan: ip.panicInfo(pos, "method call on nil interface")}}, true
	}
	switch m {
	case "Kind":
		return ret1(st, kindV(kindOf(t.typ)))
	case "Elem":
		switch u := under(t.typ).(type) {
		case *types.Pointer:
			return ret1(st, TypV{u.Elem()})
		case *types.Slice:
			return ret1(st, TypV{u.Elem()})
		case *types.Array:
			return ret1(st, TypV{u.Elem()})
		case *types.Map:
			return ret1(st, TypV{u.Elem()})
		}
		return []Outcome{{st: st, pan: ip.panicInfo(pos, "reflect: Elem of invalid type")}}, true
	case "Len":
		if u, ok := under(t.typ).(*types.Array); ok {
			return ret1(st, IntV{cLin(u.Len())})
		}
		return []Outcome{{st: st, pan: ip.panicInfo(pos, "reflect: Len of non-array type")}}, true
	case "NumField":
		if u, ok := under(t.typ).(*types.Struct); ok {
			return ret1(st, IntV{cLin(int64(u.NumFields()))})
		}
	case "NumMethod":
		return ret1(st, IntV{cLin(int64(numMethods(t.typ)))})
	case "Field":
		u, ok := under(t.typ).(*types.Struct)
		i, isC := args[0].(IntV).L.constVal()
		if ok && isC && i >= 0 && int(i) < u.NumFields() {
			return ret1(st, structField(u, int(i), sig.Results().At(0).Type()))
		}
	case "String":
		return ret1(st, strV(t.typ.String()))
	case "Name":
		if n, ok := types.Unalias(t.typ).(*types.Named); ok {
			return ret1(st, strV(n.Obj().Name()))
		}
		return ret1(st, strV(""))
	case "PkgPath":
		if n, ok := types.Unalias(t.typ).(*types.Named); ok && n.Obj().Pkg() != nil {
			return ret1(st, strV(n.Obj().Pkg().Path()))
		}
		return ret1(st, strV(""))
	case "Bits":
		if b, _, ok := intInfo(t.typ); ok {
			return ret1(st, IntV{cLin(int64(b))})
		}
	case "Size":
		if b, _, ok := intInfo(t.typ); ok {
			return ret1(st, IntV{cLin(int64(b / 8))})
		}
	case "Implements":
		if u, ok := args[0].(TypV); ok {
			if it, ok := under(u.typ).(*types.Interface); ok {
				return ret1(st, BoolV{cBool(types.Implements(t.typ, it))})
			}
		}
	}
	return nil, false
}

var _ = big.NewInt
