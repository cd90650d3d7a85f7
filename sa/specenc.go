package main

// The wire layout of a symbolic value: the expected encoding.

import (
	"fmt"
	"go/types"
	"math/big"
)

type encoder struct {
	c     *Ctx
	ip    *Interp
	root  string
	where string
	fits  bool // report length prefixes that do not fit
	quiet bool
}

func (e *encoder) bad(st *State, rule, path, format string, args ...interface{}) {
	if e.quiet {
		return
	}
	e.c.mustSt(false, st, rule, e.where, "%s%s: %s", e.root, path, fmt.Sprintf(format, args...))
}

func maxU(w int64) *Lin { return bLin(new(big.Int).Sub(pow2(uint(8*w)), big1)) }

func (e *encoder) prefix(st *State, n *Lin, w int64, path string) Seq {
	if e.fits {
		ok := st.f.entails(maxU(w).sub(n))
		if ok {
			e.c.must(true, "length fits", e.where, "%s%s", e.root, path)
		} else {
			e.bad(st, "length fits", path, "%s elements are encoded with a %d byte length prefix that may be too small", n.Key(), w)
		}
	} else if !st.f.entails(maxU(w).sub(n)) {
		st.f.addGE(maxU(w).sub(n))
	}
	return intSeq(n, int(w))
}

// enc continues with the encoding of the value in n, for every case.
func (e *encoder) enc(st *State, n Node, t types.Type, sp *Spec, path string, k func(*State, Seq)) {
	switch sp.k {
	case "u":
		iv, ok := nodeVal(n, t).(IntV)
		if !ok {
			e.bad(st, "layout", path, "not an integer")
			return
		}
		l := iv.L
		if sp.sg {
			l = wrapU(l, uint(8*sp.w))
		}
		k(st, intSeq(l, int(sp.w)))
	case "bool":
		bv, ok := nodeVal(n, t).(BoolV)
		if !ok {
			e.bad(st, "layout", path, "not a boolean")
			return
		}
		yes, no := split(st, bv.B, 0)
		for _, s := range yes {
			k(s, constSeq([]byte{1}))
		}
		for _, s := range no {
			k(s, constSeq([]byte{0}))
		}
	case "arr":
		b, ok := expand(n).(BytesN)
		if cnt, isA := seqByteCount(t); !ok || !isA || cnt != sp.w {
			e.bad(st, "layout", path, "not an array of %d bytes", sp.w)
			return
		}
		k(st, b.S)
	case "bytes", "str":
		var q Seq
		switch v := nodeVal(n, t).(type) {
		case SliceV:
			q = intSeq(v.len, int(sp.w))
			st = st.clone()
			q = e.prefix(st, v.len, sp.w, path).concat(st.bytesOf(v, 0))
		case SeqV:
			st = st.clone()
			q = e.prefix(st, v.S.length(), sp.w, path).concat(v.S)
		default:
			e.bad(st, "layout", path, "not a byte sequence")
			return
		}
		k(st, q)
	case "vec":
		sl, ok := nodeVal(n, t).(SliceV)
		if !ok {
			e.bad(st, "layout", path, "not a slice")
			return
		}
		st = st.clone()
		p := e.prefix(st, sl.len, sp.w, path)
		q := e.elems(st, sl, t, sp.el, path)
		k(st, p.concat(q))
	case "fix":
		e.fixed(st, n, t, sp, 0, path, Seq{}, k)
	case "opt":
		p, ok := nodeVal(n, t).(PtrV)
		if !ok {
			e.bad(st, "layout", path, "not a pointer")
			return
		}
		yes, no := split(st, isNilVal(p), 0)
		for _, s := range yes {
			k(s, constSeq([]byte{0}))
		}
		for _, s := range no {
			q := p
			q.null = nil
			e.enc(s, s.load(q, 0), under(t).(*types.Pointer).Elem(), sp.el, path, func(st *State, b Seq) {
				k(st, constSeq([]byte{1}).concat(b))
			})
		}
	case "ptr":
		p, ok := nodeVal(n, t).(PtrV)
		if !ok {
			e.bad(st, "layout", path, "not a pointer")
			return
		}
		_, no := split(st, isNilVal(p), 0)
		for _, s := range no {
			q := p
			q.null = nil
			e.enc(s, s.load(q, 0), under(t).(*types.Pointer).Elem(), sp.el, path, k)
		}
	case "mark":
		e.enc(st, n, t, sp.el, path, func(st *State, b Seq) { k(st, constSeq([]byte{byte(sp.w)}).concat(b)) })
	case "st":
		e.fields(st, n, t, sp.fs, path, Seq{}, k)
	case "ref":
		tt := P.typ("wire", sp.T)
		if tt != nil && wireName(t) != sp.T && e.root != sp.T {
			e.bad(st, "layout", path, "is a %s, not a %s", t, sp.T)
			return
		}
		if l, ok := foldLazy(n).(LazyN); ok && sp.T != e.root && tt != nil && customWire(tt) != "" && sp.T != "BitSet" && sp.T != "Hash" && sp.T != "NetAddress" {
			for _, f := range st.f.assume(encOK(sp.T, l.s), true) {
				s2 := st.clone()
				s2.f = f
				k(s2, encSeq(sp.T, l.s))
			}
			return
		}
		e.enc(st, n, t, grammar[sp.T], path, k)
	case "bitset":
		e.parts(st, n, t, path, []string{"Len", "Bits"}, func(ns []Node, ts []types.Type) {
			l, ok := nodeVal(ns[0], ts[0]).(IntV)
			sl, ok2 := nodeVal(ns[1], ts[1]).(SliceV)
			if !ok || !ok2 {
				e.bad(st, "layout", path, "unexpected fields")
				return
			}
			k(st, intSeq(l.L, 1).concat(st.bytesOf(sl, 0)))
		})
	case "merkle", "interlink":
		fs := []string{"Branches", "Hashes"}
		if sp.k == "interlink" {
			fs = []string{"Repeats", "Compressed"}
		}
		e.parts(st, n, t, path, fs, func(ns []Node, ts []types.Type) {
			e.enc(st, ns[0], ts[0], ref("BitSet"), path+"."+fs[0], func(st *State, b Seq) {
				sl, ok := nodeVal(ns[1], ts[1]).(SliceV)
				if !ok {
					e.bad(st, "layout", path, "unexpected fields")
					return
				}
				st = st.clone()
				k(st, b.concat(e.elems(st, sl, ts[1], arr(32), path+"."+fs[1])))
			})
		})
	case "union":
		e.parts(st, n, t, path, []string{sp.T}, func(ns []Node, ts []types.Type) {
			iv, ok := nodeVal(ns[0], ts[0]).(IfaceV)
			if !ok {
				e.bad(st, "layout", path, "not an interface")
				return
			}
			for _, ic := range e.cases(st, iv) {
				hit := false
				if ic.v.typ == nil {
					continue
				}
				if pt, isP := ic.v.typ.(*types.Pointer); isP {
					for _, f := range sp.fs {
						if f.sp.T != wireName(pt.Elem()) {
							continue
						}
						hit = true
						tag := f.name[0] - '0'
						e.enc(ic.st, ic.st.load(ic.v.v.(PtrV), 0), pt.Elem(), f.sp, path, func(st *State, b Seq) {
							k(st, constSeq([]byte{tag}).concat(b))
						})
					}
				}
				if !hit {
					e.bad(ic.st, "layout", path, "%s has no tag on the wire", ic.v.typ)
				}
			}
		})
	case "net":
		e.parts(st, n, t, path, []string{"Type", "IP"}, func(ns []Node, ts []types.Type) {
			l, ok := nodeVal(ns[0], ts[0]).(IntV)
			sl, ok2 := nodeVal(ns[1], ts[1]).(SliceV)
			if !ok || !ok2 {
				e.bad(st, "layout", path, "unexpected fields")
				return
			}
			k(st, intSeq(l.L, 1).concat(st.bytesOf(sl, 0)))
		})
	case "peer":
		e.parts(st, n, t, path, []string{"PeerAddressHeader", "Detail"}, func(ns []Node, ts []types.Type) {
			e.enc(st, ns[0], ts[0], ref("PeerAddressHeader"), path, func(st *State, b Seq) {
				iv, ok := nodeVal(ns[1], ts[1]).(IfaceV)
				if !ok {
					e.bad(st, "layout", path, "not an interface")
					return
				}
				if iv.typ == nil {
					yes, _ := split(st, isNilVal(iv), 0)
					for _, s := range yes {
						k(s, b)
					}
					return
				}
				pt, isP := iv.typ.(*types.Pointer)
				if !isP || wireName(pt.Elem()) != "PeerAddressSrv" {
					return
				}
				e.enc(st, st.load(iv.v.(PtrV), 0), pt.Elem(), ref("PeerAddressSrv"), path+".Detail", func(st *State, d Seq) {
					k(st, b.concat(d))
				})
			})
		})
	default:
		unsupported(0, "encoding of %s", sp.k)
	}
}

func (e *encoder) cases(st *State, iv IfaceV) []ifaceCase {
	if iv.typ != nil {
		return []ifaceCase{{st, iv}}
	}
	if iv.sym == nil {
		return nil
	}
	return e.ip.ifaceCases(st, iv, 0)
}

func (e *encoder) parts(st *State, n Node, t types.Type, path string, names []string, k func([]Node, []types.Type)) {
	var ns []Node
	var ts []types.Type
	for _, name := range names {
		f, ft, ok := fieldNode(n, t, name)
		if !ok {
			e.bad(st, "layout", path+"."+name, "field is missing")
			return
		}
		ns, ts = append(ns, f), append(ts, ft)
	}
	k(ns, ts)
}

func (e *encoder) fields(st *State, n Node, t types.Type, fs []FSpec, path string, acc Seq, k func(*State, Seq)) {
	if len(fs) == 0 {
		k(st, acc)
		return
	}
	e.parts(st, n, t, path, []string{fs[0].name}, func(ns []Node, ts []types.Type) {
		e.enc(st, ns[0], ts[0], fs[0].sp, path+"."+fs[0].name, func(st *State, b Seq) {
			e.fields(st, n, t, fs[1:], path, acc.concat(b), k)
		})
	})
}

func (e *encoder) fixed(st *State, n Node, t types.Type, sp *Spec, i int64, path string, acc Seq, k func(*State, Seq)) {
	if i == sp.w {
		k(st, acc)
		return
	}
	if ar, isA := under(t).(*types.Array); isA {
		n = asElems(st, n, ar.Elem(), sp.w)
	}
	a, ok := expand(n).(ArrN)
	if !ok {
		e.bad(st, "layout", path, "not an array")
		return
	}
	e.enc(st, arrRead(st.f, a, cLin(i)), a.elem, sp.el, path, func(st *State, b Seq) {
		e.fixed(st, n, t, sp, i+1, path, acc.concat(b), k)
	})
}

// elems is the concatenated encoding of all elements of a slice.
func (e *encoder) elems(st *State, sl SliceV, t types.Type, sp *Spec, path string) Seq {
	if sl.obj == nil {
		return Seq{}
	}
	cn := expand(st.readNode(st.content(sl.obj), sl.path, 0))
	b, isB := cn.(BytesN)
	a, ok := cn.(ArrN)
	if isB {
		us, isS := under(t).(*types.Slice)
		if ok = isS; ok {
			a.elem = us.Elem()
		}
	}
	if !ok {
		unsupported(0, "elements of %s%s", e.root, path)
	}
	j := mkAtom("k", []Val{StrLit("elem." + path)}, big0, maxLen)
	var out []Seq
	for _, f := range st.f.assume(bGe0(sl.len.sub(j.lin()).addc(-1)), true) {
		s2 := st.clone()
		s2.f = f
		for _, s3 := range instAll(s2, j.lin()) {
			var en Node
			if isB {
				en = LeafN{IntV{s3.byteAt(b.S, sl.off.add(j.lin()))}}
			} else {
				en = arrRead(s3.f, a, sl.off.add(j.lin()))
			}
			e.enc(s3, en, a.elem, sp, path+"[j]", func(_ *State, b Seq) { out = append(out, b) })
		}
	}
	if len(out) == 0 {
		return Seq{}
	}
	for _, o := range out[1:] {
		if o.Key() != out[0].Key() {
			unsupported(0, "case distinction in the elements of %s%s", e.root, path)
		}
	}
	return repSeq(j, out[0], sl.len)
}
