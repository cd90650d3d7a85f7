package main

// The Nimiq wire layout, written down independently of the code, and its comparison with
// the result of an abstract decode or encode.

import (
	"fmt"
	"go/types"
	"strings"
)

type Spec struct {
	k  string // u, bool, arr, bytes, str, vec, opt, st, ref, fix, or the name of a special layout
	w  int64  // width in bytes (u, arr), width of the length prefix (bytes, str, vec)
	el *Spec
	fs []FSpec
	T  string
	sg bool // signed integer
}
type FSpec struct {
	name string
	sp   *Spec
}

func u(w int64) *Spec            { return &Spec{k: "u", w: w} }
func s(w int64) *Spec            { return &Spec{k: "u", w: w, sg: true} }
func arr(n int64) *Spec          { return &Spec{k: "arr", w: n} }
func bvec(w int64) *Spec         { return &Spec{k: "bytes", w: w} }
func str(w int64) *Spec          { return &Spec{k: "str", w: w} }
func vec(w int64, e *Spec) *Spec { return &Spec{k: "vec", w: w, el: e} }
func fix(n int64, e *Spec) *Spec { return &Spec{k: "fix", w: n, el: e} }
func opt(e *Spec) *Spec          { return &Spec{k: "opt", el: e} }
func ptrTo(e *Spec) *Spec        { return &Spec{k: "ptr", el: e} }
func ref(T string) *Spec         { return &Spec{k: "ref", T: T} }
func st(fs ...interface{}) *Spec {
	sp := &Spec{k: "st"}
	for i := 0; i < len(fs); i += 2 {
		sp.fs = append(sp.fs, FSpec{fs[i].(string), fs[i+1].(*Spec)})
	}
	return sp
}

var specBool = &Spec{k: "bool"}

// grammar is the wire layout of every wire type.
var grammar = map[string]*Spec{
	"BlockHeader": st("Version", u(2), "PrevHash", arr(32), "InterlinkHash", arr(32), "BodyHash", arr(32), "AccountsHash", arr(32),
		"NBits", u(4), "Height", u(4), "Timestamp", u(4), "Nonce", u(4)),
	"Block":          st("Header", ref("BlockHeader"), "Interlink", ref("BlockInterlink"), "Body", opt(ref("BlockBody"))),
	"BlockBody":      st("MinerAddr", arr(20), "ExtraData", bvec(1), "Txs", vec(2, ref("WrapTx")), "Pruned", vec(2, ref("AccountPruned"))),
	"AccountPruned":  st("Address", arr(20), "Account", ref("WrapAccount")),
	"BlockInterlink": {k: "interlink"},
	"BitSet":         {k: "bitset"},
	"MerklePath":     {k: "merkle"},
	"SignatureProof": st("PublicKey", arr(32), "MerklePath", ref("MerklePath"), "Signature", arr(64)),
	"Hash":           st("Algorithm", u(1), "Bytes", arr(32)),
	"WrapTx":         {k: "union", T: "Tx", fs: []FSpec{{"0", ref("BasicTx")}, {"1", ref("ExtendedTx")}}},
	"BasicTx": st("SenderPubKey", arr(32), "Recipient", arr(20), "Value", u(8), "Fee", u(8), "ValidityStartHeight", u(4),
		"NetworkID", u(1), "Signature", arr(64)),
	"ExtendedTx": st("Data", bvec(2), "Sender", arr(20), "SenderType", u(1), "Recipient", arr(20), "RecipientType", u(1),
		"Value", u(8), "Fee", u(8), "ValidityStartHeight", u(4), "NetworkID", u(1), "Flags", u(1), "Proof", bvec(2)),
	"TxContent": st("Data", bvec(2), "Sender", arr(20), "SenderType", u(1), "Recipient", arr(20), "RecipientType", u(1),
		"Value", u(8), "Fee", u(8), "ValidityStartHeight", u(4), "NetworkID", u(1), "Flags", u(1)),
	"WrapAccount":  {k: "union", T: "Account", fs: []FSpec{{"0", ref("BasicAccount")}, {"1", ref("VestingAccount")}, {"2", ref("HTLCAccount")}}},
	"BasicAccount": st("Value", u(8)),
	"VestingAccount": st("Value", u(8), "Owner", arr(20), "VestingStart", u(4), "VestingStepBlocks", u(4),
		"VestingStepAmount", u(8), "VestingTotalAmount", u(8)),
	"HTLCAccount": st("Value", u(8), "Sender", arr(20), "Recipient", arr(20), "Hash", ref("Hash"), "HashCount", u(1),
		"Timeout", u(4), "TotalAmount", u(8)),
	"NetAddress":  {k: "net"},
	"PeerAddress": {k: "peer"},
	"PeerAddressHeader": st("Protocol", u(1), "Services", u(4), "Timestamp", u(8), "NetAddress", ref("NetAddress"),
		"PublicKey", arr(32), "Distance", u(1), "Signature", arr(64)),
	"PeerAddressSrv": st("Host", str(1), "Port", u(2), "TLS", specBool),
	"VersionMessage": st("Version", u(4), "PeerAddress", ref("PeerAddress"), "GenesisHash", arr(32), "HeadHash", arr(32),
		"ChallengeNonce", arr(32), "UserAgent", str(1)),
	"VerAckMessage":        st("PublicKey", arr(32), "Signature", arr(64)),
	"BasePingMessage":      st("Nonce", u(4)),
	"InvMessage":           st("Vectors", vec(2, ref("InvVector"))),
	"InvVector":            st("Type", u(4), "Hash", arr(32)),
	"AddrMessage":          st("Addresses", vec(2, ref("PeerAddress"))),
	"TxMessage":            st("Tx", ref("WrapTx")),
	"GetAddrMessage":       st("ProtocolMask", u(1), "ServiceMask", u(4), "MaxResults", u(2)),
	"GetBlocksMessage":     st("Locators", vec(2, arr(32)), "MaxInvSize", u(2), "Direction", u(1)),
	"GetTxProofMessage":    st("BlockHash", arr(32), "Addresses", vec(2, arr(20))),
	"GetTxReceiptsMessage": st("Address", arr(20), "Offset", u(4)),
	"BlockMessage":         st("Block", ref("Block")),
	"HeadMessage":          st("BlockHeader", ref("BlockHeader")),
	"HeaderMessage":        st("BlockHeader", ref("BlockHeader")),
	"StakingTxData":        st("ValidatorKey", arr(96), "RewardAddress", opt(arr(20)), "ProofOfKnowledge", arr(48)),
	"EmptyMessage":         st(),
}

// walker compares an item of the input with the layout.
type walker struct {
	c      *Ctx
	src    *Sym // the input
	n      *Lin // its length
	root   string
	where  string
	assume bool // assume the layout instead of proving it
	values bool // compare decoded values
	layout bool // report layout violations
	loops  []*Atom
	used   bool // the target held something before
	inner  int  // inside a sequence element: the end of the sequence covers it
}

func (w *walker) at(off *Lin, n int64) *Lin { return mkBE(SymV{w.src}, off, int(n)) }

func (w *walker) bad(st *State, rule, path, format string, args ...interface{}) {
	w.c.mustSt(false, st, rule, w.where, "%s%s: %s", w.root, path, fmt.Sprintf(format, args...))
}
func (w *walker) good(rule, path string) { w.c.must(true, rule, w.where, "%s%s", w.root, path) }

// check records an obligation on a value.
func (w *walker) check(ok bool, st *State, path, format string, args ...interface{}) {
	if !w.values {
		return
	}
	if ok {
		w.good("field", path)
	} else {
		w.bad(st, "field", path, format, args...)
	}
}

// need is a condition of the layout.
func (w *walker) need(st *State, b *Bool, path, what string, k func(*State)) {
	if w.assume {
		for _, f := range st.f.assume(b, true) {
			s2 := st.clone()
			s2.f = f
			k(s2)
		}
		return
	}
	if st.f.decide(b) == 1 {
		if w.layout {
			w.good("layout", path)
		}
	} else if w.layout {
		w.bad(st, "layout", path, "accepted although not shown: %s (%s)", what, b.Key())
	}
	k(st)
}

func (w *walker) room(st *State, end *Lin, path string, k func(*State)) {
	if w.inner > 0 && !w.assume {
		k(st)
		return
	}
	w.need(st, bGe0(w.n.sub(end)), path, "the item lies inside the input", k)
}

// elemSize is the size of an item at off, if it does not depend on a case distinction.
func (w *walker) elemSize(sp *Spec, off *Lin) (*Lin, bool) {
	switch sp.k {
	case "u", "arr":
		return cLin(sp.w), true
	case "bool":
		return cLin(1), true
	case "bytes", "str":
		return w.at(off, sp.w).addc(sp.w), true
	case "mark":
		n, ok := w.elemSize(sp.el, off.addc(1))
		if !ok {
			return nil, false
		}
		return n.addc(1), true
	case "ptr":
		return w.elemSize(sp.el, off)
	case "st":
		o := off
		for _, f := range sp.fs {
			n, ok := w.elemSize(f.sp, o)
			if !ok {
				return nil, false
			}
			o = o.add(n)
		}
		return o.sub(off), true
	case "fix", "vec":
		cnt := cLin(sp.w)
		o := off
		if sp.k == "vec" {
			cnt = w.at(off, sp.w)
			o = off.addc(sp.w)
		}
		e, ok := w.elemOff(sp.el, o, cnt)
		if !ok {
			return nil, false
		}
		return e.sub(off), true
	case "ref":
		if t := P.typ("wire", sp.T); t != nil && customWire(t) != "" && sp.T != w.root {
			return dszAtom(sp.T, w.src, off), true
		}
		return w.elemSize(grammar[sp.T], off)
	}
	return nil, false
}

// elemOff is the offset of element j of a sequence starting at off.
func (w *walker) elemOff(sp *Spec, off, j *Lin) (*Lin, bool) {
	self := mkAtom("k", []Val{StrLit("self")}, nil, nil)
	n, ok := w.elemSize(sp, self.lin())
	if !ok {
		return nil, false
	}
	if n.isConst() {
		return off.add(j.mulc(n.k)), true
	}
	kA := mkAtom("k", []Val{StrLit("iter")}, big0, nil)
	return mkRec(recFun(kA, self, self.lin().add(n)), off, j), true
}

func seqByteCount(a types.Type) (int64, bool) {
	at, ok := under(a).(*types.Array)
	if !ok {
		return 0, false
	}
	return at.Len(), true
}

// sameField finds a field of a struct value, following embedded structs.
func fieldNode(n Node, t types.Type, name string) (Node, types.Type, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	v, ok := obj.(*types.Var)
	if !ok {
		if nt, isN := types.Unalias(t).(*types.Named); isN && nt.Obj().Pkg() != nil {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, nt.Obj().Pkg(), name)
			v, ok = obj.(*types.Var)
		}
		if !ok {
			return nil, nil, false
		}
	}
	for _, i := range idx {
		st, ok := under(t).(*types.Struct)
		if !ok {
			return nil, nil, false
		}
		sn, ok := expand(n).(StructN)
		if !ok {
			return nil, nil, false
		}
		n, t = sn.fs[i], st.Field(i).Type()
	}
	_ = v
	return n, t, true
}

// item compares one item at off; k continues with the offset behind it.
func (w *walker) item(st *State, n Node, t types.Type, sp *Spec, off *Lin, path string, k func(*State, *Lin)) {
	val := n != nil
	intIs := func(st *State, want *Lin) {
		if !val {
			return
		}
		iv, ok := nodeVal(n, t).(IntV)
		if !ok {
			w.check(false, st, path, "not an integer")
			return
		}
		bits, _, _ := intInfo(t)
		w.check(st.f.entailsEq(iv.L, want), st, path, "holds %s, the wire bytes are %s", iv.L.Key(), want.Key())
		_ = bits
	}
	bytesIs := func(st *State, q Seq, want Seq) {
		w.check(seqEqual(st.f, q, want), st, path, "holds %s, the wire bytes are %s", q.Key(), want.Key())
	}
	switch sp.k {
	case "u":
		w.room(st, off.addc(sp.w), path, func(st *State) {
			v := w.at(off, sp.w)
			if sp.sg {
				v = wrapS(v, uint(8*sp.w))
			}
			intIs(st, v)
			k(st, off.addc(sp.w))
		})
	case "bool":
		w.room(st, off.addc(1), path, func(st *State) {
			w.tag(st, off, []int64{0, 1}, path, func(st *State, tag int64) {
				if val {
					bv, ok := nodeVal(n, t).(BoolV)
					w.check(ok && st.f.decide(bv.B) == int(tag), st, path, "the marker %d is not read as %v", tag, tag == 1)
				}
				k(st, off.addc(1))
			})
		})
	case "arr":
		w.room(st, off.addc(sp.w), path, func(st *State) {
			if val {
				b, ok := expand(n).(BytesN)
				if cnt, isArr := seqByteCount(t); !ok || !isArr || cnt != sp.w {
					w.check(false, st, path, "not an array of %d bytes", sp.w)
				} else {
					bytesIs(st, b.S, rawSeq(w.src, off, cLin(sp.w)))
				}
			}
			k(st, off.addc(sp.w))
		})
	case "bytes", "str":
		w.room(st, off.addc(sp.w), path, func(st *State) {
			cnt := w.at(off, sp.w)
			end := off.addc(sp.w).add(cnt)
			w.room(st, end, path, func(st *State) {
				if val {
					switch v := nodeVal(n, t).(type) {
					case SliceV:
						bytesIs(st, st.bytesOf(v, 0), rawSeq(w.src, off.addc(sp.w), cnt))
					case SeqV:
						bytesIs(st, v.S, rawSeq(w.src, off.addc(sp.w), cnt))
					default:
						w.check(false, st, path, "not a byte sequence")
					}
				}
				k(st, end)
			})
		})
	case "vec":
		w.room(st, off.addc(sp.w), path, func(st *State) {
			w.elems(st, n, t, sp.el, off.addc(sp.w), w.at(off, sp.w), path, k)
		})
	case "fix":
		w.fixed(st, n, t, sp, 0, off, path, k)
	case "opt":
		w.room(st, off.addc(1), path, func(st *State) {
			w.tag(st, off, []int64{0, 1}, path, func(st *State, tag int64) {
				var p PtrV
				var pt types.Type
				if val {
					var ok bool
					if p, ok = nodeVal(n, t).(PtrV); !ok {
						w.check(false, st, path, "not a pointer")
						n, val = nil, false
					} else {
						pt = under(t).(*types.Pointer).Elem()
					}
				}
				if tag == 0 {
					if val {
						w.check(st.f.decide(isNilVal(p)) == 1, st, path, "absent item does not give nil")
					}
					k(st, off.addc(1))
					return
				}
				var en Node
				if val {
					ok := st.f.decide(isNilVal(p)) == 0
					w.check(ok, st, path, "present item gives nil")
					if ok {
						en = st.load(p, 0)
					}
				}
				w.item(st, en, pt, sp.el, off.addc(1), path, k)
			})
		})
	case "ptr":
		var en Node
		var pt types.Type
		if val {
			p, ok := nodeVal(n, t).(PtrV)
			ok = ok && st.f.decide(isNilVal(p)) == 0
			w.check(ok, st, path, "nil pointer for an item that is always present")
			if ok {
				en, pt = st.load(p, 0), under(t).(*types.Pointer).Elem()
			}
		}
		w.item(st, en, pt, sp.el, off, path, k)
	case "mark":
		w.room(st, off.addc(1), path, func(st *State) {
			w.tag(st, off, []int64{sp.w}, path, func(st *State, _ int64) {
				w.item(st, n, t, sp.el, off.addc(1), path, k)
			})
		})
	case "st":
		w.fields(st, n, t, sp.fs, off, path, k)
	case "ref":
		w.ref(st, n, t, sp.T, off, path, k)
	case "bitset":
		w.room(st, off.addc(1), path, func(st *State) {
			cnt := w.at(off, 1)
			sz := mkDiv(cnt.addc(7), bi(8))
			end := off.addc(1).add(sz)
			w.room(st, end, path, func(st *State) {
				w.sub(st, n, t, "Len", path, func(f Node, ft types.Type) {
					iv, ok := nodeVal(f, ft).(IntV)
					w.check(ok && st.f.entailsEq(iv.L, cnt), st, path+".Len", "is not the bit count of the wire")
				})
				w.sub(st, n, t, "Bits", path, func(f Node, ft types.Type) {
					sl, ok := nodeVal(f, ft).(SliceV)
					w.check(ok && seqEqual(st.f, st.bytesOf(sl, 0), rawSeq(w.src, off.addc(1), sz)), st, path+".Bits", "are not the bit bytes of the wire")
				})
				k(st, end)
			})
		})
	case "merkle":
		bn, bt := w.get(st, n, t, "Branches", path)
		w.item(st, bn, bt, ref("BitSet"), off, path+".Branches", func(st *State, o *Lin) {
			hn, ht := w.get(st, n, t, "Hashes", path)
			w.elems(st, hn, ht, arr(32), o, w.at(off, 1), path+".Hashes", k)
		})
	case "interlink":
		bn, bt := w.get(st, n, t, "Repeats", path)
		w.item(st, bn, bt, ref("BitSet"), off, path+".Repeats", func(st *State, o *Lin) {
			cnt := w.at(off, 1)
			kA := mkAtom("k", []Val{StrLit("iter")}, big0, nil)
			bit := func(j *Lin) *Bool {
				q := mkDiv(j, bi(8))
				return bitTest(mkBE(SymV{w.src}, off.addc(1).add(q), 1), cLin(7).sub(j.sub(q.mulc64(8))))
			}
			num := cnt.sub(mkSum(kA, b2i(bit(kA.lin())), cnt))
			if w.assume {
				// the hash of a clear bit lies inside the input
				for _, a := range w.loops {
					j := a.lin()
					if st.f.entails(cnt.sub(j).addc(-1)) {
						e := o.add(j.addc(1).sub(mkSum(kA, b2i(bit(kA.lin())), j)).sub(b2i(bit(j))).mulc64(32))
						st.f.addGE(w.n.sub(e))
					}
				}
				if st.f.dead {
					return
				}
			}
			// count of clear bits is never negative
			st = st.clone()
			st.f.addGE(num)
			cn, ct := w.get(st, n, t, "Compressed", path)
			w.elems(st, cn, ct, arr(32), o, num, path+".Compressed", func(st *State, e *Lin) {
				w.sub(st, n, t, "PrevHash", path, func(f Node, ft types.Type) {
					b, ok := expand(f).(BytesN)
					before := zeroSeq(cLin(32))
					if w.used {
						before = rawSeq(mkSym("Old"+w.root+".PrevHash"), cLin(0), cLin(32))
					}
					w.check(ok && seqEqual(st.f, b.S, before), st, path+".PrevHash", "is changed although it is not on the wire")
				})
				w.sub(st, n, t, "Hashes", path, func(f Node, ft types.Type) {
					sl, ok := nodeVal(f, ft).(SliceV)
					w.check(ok && st.f.entailsEq(sl.len, cnt), st, path+".Hashes", "does not have one entry per level")
				})
				k(st, e)
			})
		})
	case "union":
		w.room(st, off.addc(1), path, func(st *State) {
			var tags []int64
			for _, f := range sp.fs {
				tags = append(tags, int64(f.name[0]-'0'))
			}
			w.tag(st, off, tags, path, func(st *State, tag int64) {
				for i, f := range sp.fs {
					if tags[i] != tag {
						continue
					}
					fn, ft := w.get(st, n, t, sp.T, path)
					en, et := w.boxed(st, fn, ft, f.sp.T, path)
					w.item(st, en, et, f.sp, off.addc(1), path+"."+f.sp.T, k)
				}
			})
		})
	case "net":
		w.room(st, off.addc(1), path, func(st *State) {
			w.tag(st, off, []int64{0, 1}, path, func(st *State, tag int64) {
				sz := int64(4)
				if tag == 1 {
					sz = 16
				}
				w.room(st, off.addc(1+sz), path, func(st *State) {
					w.sub(st, n, t, "Type", path, func(f Node, ft types.Type) {
						iv, ok := nodeVal(f, ft).(IntV)
						w.check(ok && st.f.entailsEq(iv.L, cLin(tag)), st, path+".Type", "is not the type on the wire")
					})
					w.sub(st, n, t, "IP", path, func(f Node, ft types.Type) {
						sl, ok := nodeVal(f, ft).(SliceV)
						w.check(ok && seqEqual(st.f, st.bytesOf(sl, 0), rawSeq(w.src, off.addc(1), cLin(sz))), st, path+".IP", "is not the address on the wire")
					})
					k(st, off.addc(1+sz))
				})
			})
		})
	case "peer":
		hn, ht := w.get(st, n, t, "PeerAddressHeader", path)
		w.item(st, hn, ht, ref("PeerAddressHeader"), off, path, func(st *State, o *Lin) {
			w.tag(st, off, []int64{0, 1, 4}, path+".Protocol", func(st *State, tag int64) {
				fn, ft := w.get(st, n, t, "Detail", path)
				if tag == 0 {
					if fn != nil {
						w.check(st.f.decide(isNilVal(nodeVal(fn, ft))) == 1, st, path+".Detail", "is set for a protocol without details")
					}
					k(st, o)
					return
				}
				en, et := w.boxed(st, fn, ft, "PeerAddressSrv", path+".Detail")
				w.item(st, en, et, ref("PeerAddressSrv"), o, path+".Detail", k)
			})
		})
	default:
		unsupported(0, "layout %s", sp.k)
	}
}

// boxed is the content behind an interface holding *T.
func (w *walker) boxed(st *State, n Node, t types.Type, T, path string) (Node, types.Type) {
	if n == nil {
		return nil, nil
	}
	iv, ok := nodeVal(n, t).(IfaceV)
	if ok && iv.typ != nil {
		if pt, isP := iv.typ.(*types.Pointer); isP && wireName(pt.Elem()) == T {
			if p, isP := iv.v.(PtrV); isP && st.f.decide(isNilVal(p)) == 0 {
				w.check(true, st, path, "")
				return st.load(p, 0), pt.Elem()
			}
		}
	}
	w.check(false, st, path, "does not hold a *%s", T)
	return nil, nil
}

// get is a field's node, if values are compared.
func (w *walker) get(st *State, n Node, t types.Type, name, path string) (Node, types.Type) {
	if n == nil {
		return nil, nil
	}
	f, ft, ok := fieldNode(n, t, name)
	if !ok {
		w.check(false, st, path+"."+name, "field is missing")
		return nil, nil
	}
	return f, ft
}

func (w *walker) sub(st *State, n Node, t types.Type, name, path string, f func(Node, types.Type)) {
	if fn, ft := w.get(st, n, t, name, path); fn != nil && w.values {
		f(fn, ft)
	}
}

func (w *walker) fields(st *State, n Node, t types.Type, fs []FSpec, off *Lin, path string, k func(*State, *Lin)) {
	if len(fs) == 0 {
		k(st, off)
		return
	}
	fn, ft := w.get(st, n, t, fs[0].name, path)
	w.item(st, fn, ft, fs[0].sp, off, path+"."+fs[0].name, func(st *State, o *Lin) {
		w.fields(st, n, t, fs[1:], o, path, k)
	})
}

func (w *walker) fixed(st *State, n Node, t types.Type, sp *Spec, i int64, off *Lin, path string, k func(*State, *Lin)) {
	if i == sp.w {
		k(st, off)
		return
	}
	var en Node
	var et types.Type
	if n != nil {
		if ar, isA := under(t).(*types.Array); isA {
			n = asElems(st, n, ar.Elem(), sp.w)
		}
		a, ok := expand(n).(ArrN)
		at, isA := under(t).(*types.Array)
		w.check(ok && isA && at.Len() == sp.w, st, path, "not an array of %d elements", sp.w)
		if ok {
			en, et = arrRead(st.f, a, cLin(i)), a.elem
		}
	}
	w.item(st, en, et, sp.el, off, fmt.Sprintf("%s[%d]", path, i), func(st *State, o *Lin) {
		w.fixed(st, n, t, sp, i+1, o, path, k)
	})
}

// tag distinguishes the admissible values of a marker byte.
func (w *walker) tag(st *State, off *Lin, tags []int64, path string, k func(*State, int64)) {
	b := w.at(off, 1)
	rest := []*Facts{st.f}
	for _, v := range tags {
		is := bEq0(b.addc(-v))
		for _, f := range st.f.assume(is, true) {
			s2 := st.clone()
			s2.f = f
			k(s2, v)
		}
		var next []*Facts
		for _, f := range rest {
			next = append(next, f.assume(is, false)...)
		}
		rest = next
	}
	if w.assume || !w.layout {
		return
	}
	for _, f := range rest {
		if !infeasible(f) {
			w.bad(st, "layout", path, "a marker other than %v is accepted", tags)
			return
		}
	}
	w.good("layout", path)
}

// infeasible reports that no execution satisfies the facts.
func infeasible(f *Facts) bool { return f.dead || f.infeasibleWith(cLin(0), 3) }

// instAll makes the facts that hold for all loop iterations available at index j.
func instAll(st *State, j *Lin) []*State {
	var out []*State
	for _, f := range instFacts(st.f, j) {
		if f == st.f {
			out = append(out, st)
			continue
		}
		s := st.clone()
		s.f = f
		out = append(out, s)
	}
	return out
}

func instFacts(f *Facts, j *Lin) []*Facts {
	var all []*Bool
	for _, k := range sortedKeys(f.preds) {
		p := f.preds[k]
		if p.b != nil && p.b.head == "all" && p.val {
			all = append(all, p.b)
		}
	}
	cur := []*Facts{f}
	for _, b := range all {
		fun := b.args[0].(FunV)
		n := b.args[1].(IntV).L
		var next []*Facts
		for _, g := range cur {
			if !(g.entails(j) && g.entails(n.sub(j).addc(-1))) {
				next = append(next, g)
				continue
			}
			next = append(next, g.assume(fun.apply(j).(BoolV).B, true)...)
		}
		cur = next
	}
	return cur
}

// elems compares a sequence of cnt elements starting at off.
func (w *walker) elems(st *State, n Node, t types.Type, sp *Spec, off, cnt *Lin, path string, k func(*State, *Lin)) {
	end, ok := w.elemOff(sp, off, cnt)
	if !ok {
		unsupported(0, "layout of the elements of %s%s", w.root, path)
	}
	st = st.clone()
	w.recMono(st.f, sp, off, cnt)
	if w.assume {
		var rec func(st *State, as []*Atom)
		rec = func(st *State, as []*Atom) {
			if len(as) == 0 {
				w.room(st, end, path, func(st *State) { k(st, end) })
				return
			}
			j := as[0].lin()
			if !st.f.entails(cnt.sub(j).addc(-1)) {
				rec(st, as[1:])
				return
			}
			o, _ := w.elemOff(sp, off, j)
			w.item(st, nil, nil, sp, o, path+"[k]", func(st *State, _ *Lin) { rec(st, as[1:]) })
		}
		rec(st, w.loops)
		return
	}
	// a generic element
	j := mkAtom("k", []Val{StrLit("elem." + path)}, big0, maxLen)
	var arrN ArrN
	var base *Lin
	var bytesOf *Seq
	var bytesElem types.Type
	if n != nil {
		sl, ok := nodeVal(n, t).(SliceV)
		w.check(ok && st.f.entailsEq(sl.len, cnt), st, path, "has %s elements, the wire announces %s", lenKey(nodeVal(n, t)), cnt.Key())
		if !ok {
			n = nil
		} else if sl.obj != nil {
			cn := st.readNode(st.content(sl.obj), sl.path, 0)
			if st, isS := under(t).(*types.Slice); isS {
				bytesElem = st.Elem()
			}
			a, isA := expand(cn).(ArrN)
			if b, isB := expand(cn).(BytesN); isB && bytesElem != nil {
				bytesOf, a, isA = &b.S, ArrN{elem: bytesElem}, true
			}
			if !isA {
				w.check(false, st, path, "elements are not analysable")
				n = nil
			} else {
				arrN, base = a, sl.off
			}
		}
	}
	for _, f := range st.f.assume(bGe0(cnt.sub(j.lin()).addc(-1)), true) {
		s2 := st.clone()
		s2.f = f
		for _, s3 := range instAll(s2, j.lin()) {
			o, _ := w.elemOff(sp, off, j.lin())
			var en Node
			var et types.Type
			if n != nil && base != nil {
				et = arrN.elem
				if bytesOf != nil {
					en = LeafN{IntV{s3.byteAt(*bytesOf, base.add(j.lin()))}}
				} else {
					en = arrRead(s3.f, arrN, base.add(j.lin()))
				}
			} else if n != nil {
				w.check(false, s3, path, "elements are missing")
			}
			w.recMono(s3.f, sp, off, j.lin())
			w.inner++
			w.item(s3, en, et, sp, o, path+"[j]", func(st *State, _ *Lin) {})
			w.inner--
		}
	}
	w.room(st, end, path, func(st *State) { k(st, end) })
}

func lenKey(v Val) string {
	if s, ok := v.(SliceV); ok {
		return s.len.Key()
	}
	return "?"
}

// recMono adds that offsets of later elements are not smaller.
func (w *walker) recMono(f *Facts, sp *Spec, off, j *Lin) {
	o, ok := w.elemOff(sp, off, j)
	if ok && o.sub(off).isConst() == false {
		f.addGE(o.sub(off).sub(j.mulc64(minOf(sp))))
	}
}

// minOf is the least size of an item.
func minOf(sp *Spec) int64 {
	switch sp.k {
	case "u", "arr":
		return sp.w
	case "bytes", "str", "vec":
		return sp.w
	case "fix":
		return sp.w * minOf(sp.el)
	case "mark":
		return 1 + minOf(sp.el)
	case "ptr":
		return minOf(sp.el)
	case "st":
		n := int64(0)
		for _, f := range sp.fs {
			n += minOf(f.sp)
		}
		return n
	case "ref":
		if m, ok := minSize[sp.T]; ok {
			return m
		}
		return minOf(grammar[sp.T])
	}
	return 1
}

// ref compares an item of a named wire type.
func (w *walker) ref(st *State, n Node, t types.Type, T string, off *Lin, path string, k func(*State, *Lin)) {
	sp := grammar[T]
	custom := false
	if tt := P.typ("wire", T); tt != nil {
		custom = customWire(tt) != "" && T != w.root
		if n != nil && wireName(t) != T {
			w.check(false, st, path, "is a %s, not a %s", t, T)
			n = nil
		}
	}
	if !custom {
		w.item(st, n, t, sp, off, path, k)
		return
	}
	inline := T == "BitSet" || T == "Hash" || T == "NetAddress"
	vp, d := validPred(T, w.src, off), dszAtom(T, w.src, off)
	if w.assume {
		w.need(st, vp, path, "", func(st *State) {
			w.room(st, off.add(d), path, func(st *State) {
				if !inline {
					k(st, off.add(d))
					return
				}
				w.item(st, nil, nil, sp, off, path, func(st *State, o *Lin) {
					for _, f := range st.f.assume(bEq0(o.sub(off).sub(d)), true) {
						s2 := st.clone()
						s2.f = f
						k(s2, o)
					}
				})
			})
		})
		return
	}
	if n != nil {
		n = foldLazy(n)
	}
	lz, isLazy := n.(LazyN)
	if inline && !(isLazy && lz.s.head == "dec") && st.f.decide(vp) != 1 {
		w.item(st, n, t, sp, off, path, k)
		return
	}
	if n != nil {
		ok := isLazy && lz.s.head == "dec" && lz.s.args[0].Key() == T && lz.s.args[1].(SymV).S.Key() == w.src.Key() && st.f.entailsEq(lz.s.args[2].(IntV).L, off)
		w.check(ok, st, path, "is not the %s decoded at its place: %s", T, clip(n.Key(), 300))
	}
	w.need(st, vp, path, "a valid "+T, func(st *State) {
		w.room(st, off.add(d), path, func(st *State) { k(st, off.add(d)) })
	})
}

// loopAtoms are the iteration counters the path talks about.
func loopAtoms(st *State) []*Atom {
	seen := map[*Atom]bool{}
	var out []*Atom
	add := func(as []*Atom) {
		for _, a := range as {
			if a.head == "k" && !seen[a] && len(a.args) == 1 && strings.HasPrefix(a.args[0].Key(), "L") {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	for _, c := range st.conds {
		add(c.b.free())
	}
	for _, l := range st.f.ge {
		add(l.free())
	}
	for _, k := range sortedKeys(st.f.preds) {
		if b := st.f.preds[k].b; b != nil {
			add(b.free())
		}
	}
	return out
}

// asElems views bytes as an array of elements.
func asElems(st *State, n Node, elem types.Type, cnt int64) Node {
	b, ok := expand(n).(BytesN)
	if !ok {
		return n
	}
	a := ArrN{elem: elem, base: baseZero}
	for i := int64(0); i < cnt; i++ {
		a.ups = append(a.ups, upd{idx: cLin(i), node: LeafN{IntV{st.byteAt(b.S, cLin(i))}}})
	}
	return a
}
