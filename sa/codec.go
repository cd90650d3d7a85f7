package main

// Compositional treatment of the custom wire codecs: inside another type, the codec of a
// wire type is replaced by its contract, and every wire type is analysed as a root of its own.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// wireTypes lists the wire types of the library.
var wireTypes = []string{
	"Block", "BlockHeader", "BlockBody", "BlockInterlink", "BitSet", "MerklePath", "SignatureProof", "Hash",
	"WrapTx", "BasicTx", "ExtendedTx", "TxContent",
	"WrapAccount", "BasicAccount", "VestingAccount", "HTLCAccount", "AccountPruned",
	"NetAddress", "PeerAddress", "PeerAddressHeader", "PeerAddressSrv",
	"VersionMessage", "VerAckMessage", "BasePingMessage", "InvMessage", "InvVector", "AddrMessage", "TxMessage",
	"GetAddrMessage", "GetBlocksMessage", "GetTxProofMessage", "GetTxReceiptsMessage",
	"BlockMessage", "HeadMessage", "HeaderMessage", "StakingTxData",
}

// minSize is the least number of bytes an item of a custom type takes.
var minSize = map[string]int64{"BlockInterlink": 1, "BitSet": 1, "MerklePath": 1, "Hash": 33, "WrapTx": 1, "WrapAccount": 1, "NetAddress": 1, "PeerAddress": 1, "InvMessage": 2, "BasePingMessage": 4}

const wirePath = modPath + "/wire"

// wireName is the name of a wire type in the table.
func wireName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != wirePath {
		return ""
	}
	for _, w := range wireTypes {
		if w == n.Obj().Name() {
			return w
		}
	}
	return ""
}

func methodOf(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

// customWire reports the wire types that bring their own codec.
func customWire(t types.Type) string {
	n := wireName(t)
	if n == "" || methodOf(t, "UnmarshalBESerial") == nil {
		return ""
	}
	return n
}

func dszAtom(T string, src *Sym, off *Lin) *Lin {
	return mkAtom("dsz", []Val{StrLit(T), SymV{src}, IntV{off}}, bi(minSize[T]), maxLen).lin()
}
func validPred(T string, src *Sym, off *Lin) *Bool {
	return bPred("valid", StrLit(T), SymV{src}, IntV{off})
}
func decSym(T string, src *Sym, off *Lin) *Sym {
	return mkSym("dec", StrLit(T), SymV{src}, IntV{off})
}
func eszAtom(T string, s *Sym) *Lin {
	if src, off, ok := decParts(T, s); ok {
		return dszAtom(T, src, off)
	}
	return mkAtom("esz", []Val{StrLit(T), SymV{s}}, big0, maxLen).lin()
}
func encSeq(T string, s *Sym) Seq {
	if src, off, ok := decParts(T, s); ok {
		return rawSeq(src, off, dszAtom(T, src, off))
	}
	return rawSeq(mkSym("enc", StrLit(T), SymV{s}), cLin(0), eszAtom(T, s))
}
func encOK(T string, s *Sym) *Bool {
	if _, _, ok := decParts(T, s); ok {
		return bTrue
	}
	return bPred("encok", StrLit(T), SymV{s})
}
func decParts(T string, s *Sym) (*Sym, *Lin, bool) {
	if s.head == "dec" && s.args[0].Key() == T {
		return s.args[1].(SymV).S, s.args[2].(IntV).L, true
	}
	return nil, nil, false
}

// inputOf names the byte sequence of a buffer and the offset of the buffer in it.
func inputOf(st *State, buf SliceV, c *Call) (src *Sym, off, n *Lin) {
	q := st.bytesOf(buf, c.pos).resolve(st.f)
	if len(q.segs) == 1 && q.segs[0].kind == sRaw {
		g := q.segs[0]
		if st.f.entailsEq(g.off.add(g.n), symLen(g.src)) {
			return g.src, g.off, g.n
		}
	}
	s := mkSym("bytes", SeqV{q})
	return s, cLin(0), q.length()
}

// codecContracts replaces the codecs of wire types other than the root by their contracts.
func codecContracts(root string) func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	return func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		fn := c.fn
		switch fn.Name() {
		case "UnmarshalBESerial", "MarshalBESerial", "SizeBESerial":
		default:
			return nil, false
		}
		if fn.Signature.Recv() == nil || len(c.args) == 0 {
			return nil, false
		}
		p, ok := c.args[0].(PtrV)
		if !ok || p.obj == nil || p.null != nil && st.f.decide(p.null) != 0 {
			return nil, false
		}
		pt, ok := fn.Signature.Recv().Type().(*types.Pointer)
		if !ok {
			// wrapper of a value method
			if len(fn.Params) == 0 {
				return nil, false
			}
			if pt, ok = fn.Params[0].Type().(*types.Pointer); !ok {
				return nil, false
			}
		}
		T := customWire(pt.Elem())
		if T == "" || T == root {
			return nil, false
		}
		if ip.loopDepth == 0 && (T == "BitSet" || T == "Hash" || T == "NetAddress") {
			return nil, false // small enough to be analysed in place
		}
		switch fn.Name() {
		case "UnmarshalBESerial":
			buf, ok := c.args[1].(SliceV)
			if !ok {
				return nil, false
			}
			src, off, n := inputOf(st, buf, c)
			d := dszAtom(T, src, off)
			v := validPred(T, src, off)
			var out []Outcome
			s1 := st.clone()
			for _, f := range s1.f.assume(v, true) {
				f.addGE(n.sub(d))
				if f.dead {
					continue
				}
				s1.f = f
				s1.conds = append(s1.conds, cond{v, true, c.pos})
				s1.store(p, LazyN{pt.Elem(), decSym(T, src, off)}, c.pos)
				out = append(out, Outcome{st: s1, ret: []Val{IntV{d}, IfaceV{}}})
				break
			}
			for _, f := range st.f.assume(v, false) {
				s2 := st.clone()
				s2.f = f
				s2.conds = append(s2.conds, cond{v, false, c.pos})
				e := mkAtom("derr", []Val{StrLit(T), SymV{src}, IntV{off}}, big0, maxLen).lin()
				s2.f.addGE(n.sub(e))
				s2.store(p, LazyN{pt.Elem(), mkSym("partial", StrLit(T), SymV{src}, IntV{off})}, c.pos)
				out = append(out, Outcome{st: s2, ret: []Val{IntV{e}, newErr("codec:" + T)}})
			}
			return out, true
		case "MarshalBESerial", "SizeBESerial":
			n := st.load(p, c.pos)
			l, ok := foldLazy(n).(LazyN)
			if !ok {
				return nil, false
			}
			okP := encOK(T, l.s)
			var out []Outcome
			yes, no := split(st, okP, c.pos)
			for _, s := range yes {
				if fn.Name() == "SizeBESerial" {
					out = append(out, Outcome{st: s, ret: []Val{IntV{eszAtom(T, l.s)}, IfaceV{}}})
					continue
				}
				b, ok := c.args[1].(SliceV)
				if !ok {
					return nil, false
				}
				q := encSeq(T, l.s)
				tmp := mkByteSlice(s, q, "encoding of "+T)
				for _, o := range ip.append(s, b, tmp, types.NewSlice(types.Typ[types.Byte]), c.pos) {
					o.ret = append(o.ret, IfaceV{})
					out = append(out, o)
				}
			}
			for _, s := range no {
				if fn.Name() == "SizeBESerial" {
					any := mkAtom("esz?", []Val{StrLit(T), SymV{l.s}}, big0, maxLen).lin()
					s2 := s.clone()
					out = append(out, Outcome{st: s2, ret: []Val{IntV{any}, IfaceV{}}})
					out = append(out, Outcome{st: s, ret: []Val{IntV{cLin(0)}, newErr("codec:" + T)}})
					continue
				}
				out = append(out, Outcome{st: s, ret: []Val{SliceV{off: cLin(0), len: cLin(0), cap: cLin(0)}, newErr("codec:" + T)}})
			}
			return out, true
		}
		return nil, false
	}
}

// foldLazy recognises a struct whose fields are all those of one symbolic value.
func foldLazy(n Node) Node {
	x, ok := n.(StructN)
	if !ok || len(x.fs) == 0 {
		return n
	}
	var s *Sym
	switch f := foldLazy(x.fs[0]).(type) {
	case LazyN:
		s = f.s
	case BytesN:
		if len(f.S.segs) == 1 && f.S.segs[0].kind == sRaw {
			s = f.S.segs[0].src
		}
	case ArrN:
		s = f.sym
	case LeafN:
		s = symOf(f.V)
	}
	if s == nil || s.head != "fld" {
		return n
	}
	p := s.args[0].(SymV).S
	e := LazyN{x.typ, p}
	if nodeKeyDeep(e) == nodeKeyDeep(x) {
		return e
	}
	return n
}

// nodeKeyDeep is the key of a node with all symbolic structs expanded.
func nodeKeyDeep(n Node) string {
	n = expand(n)
	if x, ok := n.(StructN); ok {
		s := "{"
		for i, f := range x.fs {
			if i > 0 {
				s += ";"
			}
			s += nodeKeyDeep(f)
		}
		return s + "}"
	}
	return n.Key()
}

func symOf(v Val) *Sym {
	switch x := v.(type) {
	case IntV:
		if len(x.L.ts) == 1 && x.L.ts[0].a.head == "v" {
			if s, ok := x.L.ts[0].a.args[0].(SymV); ok {
				return s.S
			}
		}
	case BoolV:
		if x.B.op == bAtom && x.B.head == "v" {
			if s, ok := x.B.args[0].(SymV); ok {
				return s.S
			}
		}
	case SeqV:
		if len(x.S.segs) == 1 && x.S.segs[0].kind == sRaw {
			return x.S.segs[0].src
		}
	case PtrV:
		if x.obj != nil && x.obj.sym != nil && x.obj.sym.head == "deref" && len(x.path) == 0 {
			return x.obj.sym.args[0].(SymV).S
		}
	case SliceV:
		if x.obj != nil && len(x.path) == 0 {
			return x.obj.sym
		}
	case IfaceV:
		return x.sym
	case MapV:
		if x.obj != nil {
			return x.obj.sym
		}
	case OpaqueV:
		return x.s
	}
	return nil
}

// symSlice is a symbolic byte slice argument.
func symSlice(name string) SliceV {
	v := symVal(types.NewSlice(types.Typ[types.Byte]), mkSym(name)).(SliceV)
	return v
}

// ifacePtr boxes a pointer as interface{}.
func ifacePtr(p PtrV, elem types.Type) IfaceV {
	return mkIface(p, types.NewPointer(elem), types.NewInterfaceType(nil, nil)).(IfaceV)
}

func repoFn(rel, name string) *ssa.Function {
	fn := P.fnByName(rel, "", name)
	if fn == nil {
		unsupported(0, "function %s.%s is missing", rel, name)
	}
	P.body(fn)
	return fn
}

// decodeRoot decodes a symbolic input into a zero value of type T.
func decodeRoot(ip *Interp, T types.Type, entry string) (obj *Obj, outs []Outcome) {
	st := newState()
	obj = freshObj(T, "decoded value")
	outs = ip.exec(st, repoFn("beserial", entry), []Val{symSlice("In"), ifacePtr(PtrV{obj: obj}, T)}, nil, 0)
	return
}
