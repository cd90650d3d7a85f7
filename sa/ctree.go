package main

// T02 and T04: nibble paths and node hashes of the state tree.

import (
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["T02"] = checkT02
	checks["T04"] = checkT04
}

const hexDigits = "0123456789abcdef"

// belowSixteen states that every byte of the symbolic sequence is a nibble.
func belowSixteen(st *State, s *Sym, n *Lin) {
	k := kappa(9)
	b := bGe0(bLin(bi(15)).sub(mkBE(SymV{s}, k.lin(), 1)))
	fs := st.f.assume(bPred("all", abstract(k, BoolV{b}), IntV{n}), true)
	if len(fs) == 1 {
		st.f = fs[0]
	}
	if c, ok := n.constVal(); ok {
		for i := int64(0); i < c; i++ {
			st.f.addGE(bLin(bi(15)).sub(mkBE(SymV{s}, cLin(i), 1)))
		}
	}
}

// nibbleSlice is a symbolic nibble list of fixed length n.
func nibbleSlice(st *State, name string, n int64) (SliceV, *Sym) {
	s := mkSym(name)
	o := lazyObj(s, types.NewArray(types.Typ[types.Uint8], n))
	belowSixteen(st, s, cLin(n))
	return SliceV{obj: o, off: cLin(0), len: cLin(n), cap: cLin(n)}, s
}

func nibbleMethods(rel string) (types.Type, func(name string) *ssa.Function) {
	T := P.typ(rel, "Nibbles")
	return T, func(name string) *ssa.Function {
		if T == nil {
			return nil
		}
		fn := methodSel(T, name)
		if fn != nil {
			P.body(fn)
		}
		return fn
	}
}

func be1(s *Sym, i *Lin) *Lin { return mkBE(SymV{s}, i, 1) }

func checkT04(c *Ctx) {
	c.explained = "KeyToNibbles, ToKey, Compress, HexBytes, String, CommonPrefix and PrefixOf of both nibble types are analysed: the conversions of keys for a symbolic key; ToKey for 40 symbolic nibbles; Compress for every length from 0 to 40 with symbolic nibbles; the others for lists of every length, their loops summarised with the facts known for all iterations. Results are compared position by position with the definition, and no path may panic for nibbles below 16."
	for _, rel := range []string{"tree", "wire"} {
		T, method := nibbleMethods(rel)
		if !c.must(T != nil, "anchored", rel, "type Nibbles") {
			continue
		}
		for _, n := range []string{"ToKey", "Compress", "HexBytes", "String", "CommonPrefix", "PrefixOf"} {
			c.must(method(n) != nil, "anchored", rel, "method Nibbles.%s", n)
		}
		c.t04Keys(rel, method)
		c.t04Compress(rel, method)
		c.t04Hex(rel, method)
		c.t04Prefix(rel, method)
	}
}

func (c *Ctx) t04Keys(rel string, method func(string) *ssa.Function) {
	expand := P.fnByName(rel, "", "KeyToNibbles")
	toKey := method("ToKey")
	if !c.must(expand != nil && P.body(expand), "anchored", rel, "KeyToNibbles") || toKey == nil {
		return
	}
	key := mkSym("key")
	ip := newInterp()
	where := fnPos(expand)
	outs := c.run(ip, rel+".KeyToNibbles", func() []Outcome {
		return ip.exec(newState(), expand, []Val{PtrV{obj: lazyObj(key, types.NewArray(types.Typ[types.Byte], 20))}}, nil, 0)
	})
	c.noPanics(rel+".KeyToNibbles", outs)
	c.must(len(outs) > 0, "vacuous", where, "%d paths", len(outs))
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		c.unmodified(o, "key unchanged", where, "KeyToNibbles")
		sl, ok := o.ret[0].(SliceV)
		if !c.mustSt(ok && sl.obj != nil && sl.obj.isNew() && o.st.f.entailsEq(sl.len, cLin(40)), o.st, "40 nibbles", where, "the result is %s", o.ret[0].Key()) {
			continue
		}
		q := o.st.bytesOf(sl, 0)
		for i := int64(0); i < 20; i++ {
			b := be1(key, cLin(i))
			hi, lo := o.st.byteAt(q, cLin(2*i)), o.st.byteAt(q, cLin(2*i+1))
			w := mkDiv(b, bi(16))
			c.mustSt(o.st.f.entailsEq(hi, w), o.st, "high half first", where, "nibble %d is %s, expected %s", 2*i, hi.Key(), w.Key())
			c.mustSt(o.st.f.entailsEq(lo, b.sub(w.mulc(bi(16)))), o.st, "low half second", where, "nibble %d is %s, expected %s", 2*i+1, lo.Key(), b.sub(w.mulc(bi(16))).Key())
		}
		// and back
		back := c.run(ip, rel+".ToKey∘KeyToNibbles", func() []Outcome { return ip.exec(o.st.clone(), toKey, []Val{sl}, nil, 0) })
		c.noPanics(rel+".ToKey∘KeyToNibbles", back)
		for _, p := range back {
			if p.pan == nil {
				got, ok := retBytes(p.ret[0])
				c.mustSt(ok && seqEqual(p.st.f, got, rawSeq(key, cLin(0), cLin(20))), p.st, "round trip", fnPos(toKey), "packing the nibbles of a key gives %s", clip(p.ret[0].Key(), 300))
			}
		}
	}
	// packing
	for _, n := range []int64{0, 39, 40, 41} {
		st := newState()
		in, s := nibbleSlice(st, "nbs"+cLin(n).Key(), n)
		ip := newInterp()
		where := fnPos(toKey)
		outs := c.run(ip, rel+".ToKey", func() []Outcome { return ip.exec(st, toKey, []Val{in}, nil, 0) })
		c.must(len(outs) > 0, "vacuous", where, "%d paths", len(outs))
		for _, o := range outs {
			if n != 40 {
				c.mustSt(o.pan != nil, o.st, "only 40 nibbles", where, "%d nibbles are packed to a key", n)
				continue
			}
			if !c.mustSt(o.pan == nil, o.st, "no panic", where, "packing 40 nibbles panics: %v", o.pan) {
				continue
			}
			c.unmodified(o, "nibbles unchanged", where, "ToKey")
			got, ok := retBytes(o.ret[0])
			if !c.mustSt(ok && o.st.f.entailsEq(got.length(), cLin(20)), o.st, "packed key", where, "the key is %s", o.ret[0].Key()) {
				continue
			}
			for i := int64(0); i < 20; i++ {
				w := be1(s, cLin(2*i)).mulc(bi(16)).add(be1(s, cLin(2*i+1)))
				g := o.st.byteAt(got, cLin(i))
				c.mustSt(o.st.f.entailsEq(g, w), o.st, "packed key", where, "byte %d of the key is %s, expected %s", i, g.Key(), w.Key())
			}
		}
	}
}

func (c *Ctx) t04Compress(rel string, method func(string) *ssa.Function) {
	fn := method("Compress")
	if fn == nil {
		return
	}
	where := fnPos(fn)
	for n := int64(0); n <= 40; n++ {
		st := newState()
		in, s := nibbleSlice(st, "nbs"+cLin(n).Key(), n)
		ip := newInterp()
		outs := c.run(ip, rel+".Compress", func() []Outcome { return ip.exec(st, fn, []Val{in}, nil, 0) })
		c.noPanics(rel+".Compress", outs)
		for _, o := range outs {
			if o.pan != nil {
				continue
			}
			c.unmodified(o, "nibbles unchanged", where, "Compress")
			sl, ok := o.ret[0].(SliceV)
			if !c.mustSt(ok && o.st.f.entailsEq(sl.len, cLin((n+1)/2)), o.st, "compressed length", where, "%d nibbles are compressed to %s", n, o.ret[0].Key()) {
				continue
			}
			q := o.st.bytesOf(sl, 0)
			for i := int64(0); 2*i < n; i++ {
				w := be1(s, cLin(2*i)).mulc(bi(16))
				if 2*i+1 < n {
					w = w.add(be1(s, cLin(2*i+1)))
				}
				g := o.st.byteAt(q, cLin(i))
				c.mustSt(o.st.f.entailsEq(g, w), o.st, "compressed byte", where, "byte %d of %d compressed nibbles is %s, expected %s", i, n, g.Key(), w.Key())
			}
		}
	}
}

func (c *Ctx) t04Hex(rel string, method func(string) *ssa.Function) {
	for _, name := range []string{"HexBytes", "String"} {
		fn := method(name)
		if fn == nil {
			continue
		}
		where := fnPos(fn)
		st := newState()
		in := symSlice("nbs")
		s := mkSym("nbs")
		belowSixteen(st, s, in.len)
		ip := newInterp()
		outs := c.run(ip, rel+"."+name, func() []Outcome { return ip.exec(st, fn, []Val{in}, nil, 0) })
		c.noPanics(rel+"."+name, outs)
		done := 0
		for _, o := range outs {
			if o.pan != nil || infeasible(o.st.f) {
				continue
			}
			c.unmodified(o, "nibbles unchanged", where, name)
			var q Seq
			switch r := o.ret[0].(type) {
			case SliceV:
				q = o.st.bytesOf(r, 0)
			case SeqV:
				q = r.S
			default:
				c.mustSt(false, o.st, "hex text", where, "the result is %s", r.Key())
				continue
			}
			q = q.resolve(o.st.f)
			if !c.mustSt(o.st.f.entailsEq(q.length(), in.len), o.st, "every nibble", where, "the text has %s characters, expected one per nibble", q.length().Key()) {
				continue
			}
			s2 := o.st.clone()
			j := freshInt("j", cLin(0), bLin(maxLen))
			s2.f.addGE(in.len.sub(j).addc(-1))
			if infeasible(s2.f) {
				continue
			}
			done++
			for v := int64(0); v < 16; v++ {
				for _, f := range s2.f.clone().assume(bEq0(be1(s, j).addc(-v)), true) {
					if infeasible(f) {
						continue
					}
					s3 := s2.clone()
					s3.f = f
					g := f.reduceAt(s3.byteAt(q, j), be1(s, j), v)
					c.mustSt(f.entailsEq(g, cLin(int64(hexDigits[v]))), s3, "hex digit", where, "nibble %d is written as %s", v, g.Key())
				}
			}
		}
		c.must(done > 0, "vacuous", where, "%d paths with nibbles", done)
	}
}

// reduceAt evaluates table lookups in l at positions the facts determine.
func (f *Facts) reduceAt(l, b *Lin, v int64) *Lin {
	r := bLin(l.k)
	for _, t := range l.ts {
		x := t.a.lin()
		if t.a.head == "at" && f.entailsEq(t.a.args[1].(IntV).L, cLin(v)) {
			x = atomRebuild["at"]([]Val{t.a.args[0], IntV{cLin(v)}})
		}
		r = r.add(x.mulc(t.c))
	}
	return r
}

func (c *Ctx) t04Prefix(rel string, method func(string) *ssa.Function) {
	a, b := symSlice("a"), symSlice("b")
	as, bs := mkSym("a"), mkSym("b")
	same := func(st *State, n *Lin) bool {
		if n.isZero() {
			return true
		}
		if seqEqual(st.f, rawSeq(as, cLin(0), n), rawSeq(bs, cLin(0), n)) {
			return true
		}
		if st.f.decide(seqEqBool(st.f, rawSeq(as, cLin(0), n), rawSeq(bs, cLin(0), n))) == 1 {
			return true
		}
		s2 := st.clone()
		j := freshInt("j", cLin(0), bLin(maxLen))
		s2.f.addGE(n.sub(j).addc(-1))
		for _, s3 := range instAll(s2, j) {
			if h := s3.f; !infeasible(h) && !h.entailsEq(be1(as, j), be1(bs, j)) {
				return false
			}
		}
		return true
	}
	// differ: some position below both lengths differs
	differ := func(st *State) bool {
		seen := map[string]bool{}
		try := func(i *Lin) bool {
			if seen[i.Key()] {
				return false
			}
			seen[i.Key()] = true
			return st.f.entails(i) && st.f.entails(a.len.sub(i).addc(-1)) && st.f.entails(b.len.sub(i).addc(-1)) &&
				st.f.decide(bEq0(be1(as, i).sub(be1(bs, i)))) == 0
		}
		for _, x := range loopAtoms(st) {
			if try(x.lin()) {
				return true
			}
		}
		for i := int64(0); i <= 40; i++ {
			if try(cLin(i)) {
				return true
			}
		}
		return st.f.decide(seqEqBool(st.f, rawSeq(as, cLin(0), a.len), rawSeq(bs, cLin(0), a.len))) == 0
	}
	if fn := method("PrefixOf"); fn != nil {
		where := fnPos(fn)
		ip := newInterp()
		outs := c.run(ip, rel+".PrefixOf", func() []Outcome { return ip.exec(newState(), fn, []Val{a, b}, nil, 0) })
		c.noPanics(rel+".PrefixOf", outs)
		yes, no := 0, 0
		for _, o := range outs {
			if o.pan != nil {
				continue
			}
			c.unmodified(o, "nibbles unchanged", where, "PrefixOf")
			r, _ := o.ret[0].(BoolV)
			ts, fs := split(o.st, r.B, 0)
			for _, s := range ts {
				if infeasible(s.f) {
					continue
				}
				yes++
				c.mustSt(s.f.entails(b.len.sub(a.len)), s, "prefix", where, "a longer list may count as prefix")
				c.mustSt(same(s, a.len), s, "prefix", where, "a list may count as prefix without agreeing at every position")
			}
			for _, s := range fs {
				if infeasible(s.f) {
					continue
				}
				no++
				c.mustSt(s.f.entails(a.len.sub(b.len).addc(-1)) || differ(s), s, "no prefix", where, "a prefix may not be recognised")
			}
		}
		c.must(yes > 0 && no > 0, "vacuous", where, "%d positive and %d negative paths", yes, no)
	}
	if fn := method("CommonPrefix"); fn != nil {
		where := fnPos(fn)
		ip := newInterp()
		outs := c.run(ip, rel+".CommonPrefix", func() []Outcome { return ip.exec(newState(), fn, []Val{a, b}, nil, 0) })
		c.noPanics(rel+".CommonPrefix", outs)
		n := 0
		for _, o := range outs {
			if o.pan != nil {
				continue
			}
			c.unmodified(o, "nibbles unchanged", where, "CommonPrefix")
			r, ok := o.ret[0].(SliceV)
			if !c.mustSt(ok, o.st, "common prefix", where, "the result is %s", o.ret[0].Key()) {
				continue
			}
			n++
			f := o.st.f
			c.mustSt(f.entails(a.len.sub(r.len)) && f.entails(b.len.sub(r.len)), o.st, "common", where, "the common prefix %s may be longer than a list", r.Key())
			q := Seq{}
			if r.obj != nil {
				q = o.st.bytesOf(r, 0)
			}
			c.mustSt(r.len.isZero() || seqEqual(f, q, rawSeq(as, cLin(0), r.len)) || seqEqual(f, q, rawSeq(bs, cLin(0), r.len)), o.st, "common", where, "the common prefix %s is not the start of a list", r.Key())
			c.mustSt(same(o.st, r.len), o.st, "common", where, "the lists may differ within the common prefix %s", r.Key())
			unequalAt := func(i *Lin) bool {
				for _, x := range append([]*Lin{i}, lins(loopAtoms(o.st))...) {
					if f.entailsEq(x, i) && f.decide(bEq0(be1(as, x).sub(be1(bs, x)))) == 0 {
						return true
					}
				}
				return false
			}
			longest := f.entailsEq(r.len, a.len) || f.entailsEq(r.len, b.len) ||
				f.entails(a.len.sub(r.len).addc(-1)) && f.entails(b.len.sub(r.len).addc(-1)) && unequalAt(r.len)
			c.mustSt(longest, o.st, "longest", where, "the common prefix %s may end early", r.Key())
		}
		c.must(n > 0, "vacuous", where, "%d paths", n)
	}
}

// hexSeq is the hex text of n symbolic nibbles.
func hexSeq(s *Sym, n *Lin) Seq {
	k := kappa(kappaLevel(IntV{be1(s, cLin(0))}, nil))
	q := constSeq([]byte(hexDigits))
	at := newState().byteAt(q, be1(s, k.lin()))
	return repSeq(k, intSeq(at, 1), n)
}

func checkT02(c *Ctx) {
	c.explained = "Leaf.Hash and Branch.Hash are analysed for symbolic nodes: a leaf with a path of 40 nibbles and a value of every length, a branch with a path of every length and 16 symbolic children with suffixes of every length. The result must be the Blake2b hash of exactly the specified content. A branch that is not decided at once is decided separately for each of the 65536 sets of children that exist. Paths where a nibble is 16 or more are excluded (T04)."
	for _, kind := range []string{"Leaf", "Branch"} {
		h := newHashCase(c, kind)
		if h == nil {
			continue
		}
		sub := newCtx(c.id)
		sub.onOut = c.onOut
		h.decide(sub, h.st)
		if kind == "Branch" && len(sub.viol) > 0 && !endlessOn {
			c.branchPatterns(sub)
		}
		c.merge(sub)
	}
}

// hashCase is a symbolic node with the content its hash commits to.
type hashCase struct {
	kind   string
	fn     *ssa.Function
	T      types.Type
	ns     *Sym
	st     *State
	exists []*Bool
	// the content before the number of children, and the parts of the children
	head  Seq
	parts []Seq
	memo  map[string]*Seq
}

// once analyses what makes bytes of the bytes of the node a single time for all sets of children: the facts
// about the sets play no part in it. Only calls with one result of a single path and without effects count.
func (h *hashCase) once(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	sig := c.fn.Signature
	if len(c.args) != 1 || sig.Results().Len() != 1 || !P.body(c.fn) {
		return nil, false
	}
	if t, ok := under(sig.Results().At(0).Type()).(*types.Slice); !ok || !isByte(t.Elem()) {
		return nil, false
	}
	arg, ok := c.args[0].(SliceV)
	if !ok || arg.obj == nil || arg.obj.isNew() || st.h[arg.obj] != nil {
		return nil, false
	}
	k := c.fn.String() + " " + arg.Key()
	q, ok := h.memo[k]
	if !ok {
		h.memo[k] = nil
		pre := ip.preHook
		ip.preHook = nil
		outs := ip.exec(h.st.clone(), c.fn, c.args, nil, c.pos)
		ip.preHook = pre
		var res []Seq
		for _, o := range outs {
			if infeasible(o.st.f) {
				continue
			}
			good := o.pan == nil
			for ob := range o.st.h {
				good = good && (ob.isNew() || h.st.h[ob] != nil && h.st.h[ob].Key() == o.st.h[ob].Key())
			}
			var r SliceV
			if good {
				r, good = o.ret[0].(SliceV)
			}
			if !good || r.obj == nil || !r.obj.isNew() || !r.cap.eqSyn(r.len) {
				return nil, false
			}
			res = append(res, o.st.bytesOf(r, c.pos))
		}
		if len(res) == 1 {
			q = &res[0]
			h.memo[k] = q
		}
	}
	if q == nil {
		return nil, false
	}
	return []Outcome{{st: st, ret: []Val{mkByteSlice(st, *q, c.fn.Name())}}}, true
}

func newHashCase(c *Ctx, kind string) *hashCase {
	T := P.typ("tree", kind)
	if !c.must(T != nil, "anchored", "tree", "type %s", kind) {
		return nil
	}
	fn := methodSel(types.NewPointer(T), "Hash")
	if !c.must(fn != nil && P.body(fn), "anchored", "tree", "method %s.Hash", kind) {
		return nil
	}
	st := newState()
	ns := mkSym("node:" + kind)
	h := &hashCase{kind: kind, fn: fn, T: T, ns: ns, st: st, memo: map[string]*Seq{}}
	sliceOf := func(n Node, t types.Type) (*Lin, *Sym) {
		v, ok := nodeVal(n, t).(SliceV)
		if !ok || v.obj == nil || v.obj.sym == nil {
			unsupported(0, "a symbolic slice is expected")
		}
		return v.len, v.obj.sym
	}
	pn, pt := lazyAt(T, ns, "Prefix")
	plen, psym := sliceOf(pn, pt)
	belowSixteen(st, psym, plen)
	if kind == "Leaf" {
		st.f.addGE(plen.addc(-40))
		st.f.addGE(plen.neg().addc(40))
		vn, vt := lazyAt(T, ns, "Value")
		vlen, vsym := sliceOf(vn, vt)
		h.head = constSeq([]byte{0xff, 40}).concat(hexSeq(psym, cLin(40))).concat(rawSeq(vsym, cLin(0), vlen))
		return h
	}
	st.f.addGE(plen.neg().addc(40))
	cn, ct := lazyAt(T, ns, "Children")
	at, ok := under(ct).(*types.Array)
	if !c.must(ok && at.Len() == 16, "anchored", "tree.Branch", "16 children") {
		return nil
	}
	for i := int64(0); i < 16; i++ {
		child := st.readNode(cn, []PE{{idx: cLin(i)}}, 0)
		f := func(n string) (Node, types.Type) {
			x, t, _ := fieldNode(child, at.Elem(), n)
			return x, t
		}
		en, et := f("Exists")
		h.exists = append(h.exists, nodeVal(en, et).(BoolV).B)
		sn, stt := f("Suffix")
		slen, ssym := sliceOf(sn, stt)
		belowSixteen(st, ssym, slen)
		st.f.addGE(slen.neg().addc(40))
		hn, ht := f("Hash")
		hs, ok := retBytes(nodeVal(hn, ht))
		if !ok {
			unsupported(0, "hash of a child: %s", hn.Key())
		}
		h.parts = append(h.parts, intSeq(slen, 1).concat(hexSeq(ssym, slen)).concat(hs))
	}
	h.head = constSeq([]byte{0}).concat(intSeq(plen, 1)).concat(hexSeq(psym, plen))
	return h
}

// want is the content; set tells which children exist (nil: any).
func (h *hashCase) want(set *int) Seq {
	if h.kind == "Leaf" {
		return h.head
	}
	cnt := cLin(0)
	var body Seq
	for i, ex := range h.exists {
		switch {
		case set == nil:
			cnt = cnt.add(b2i(ex))
			body = body.concat(Seq{}.appendSeg(Seg{kind: sOpt, cond: ex, body: h.parts[i].segs}))
		case *set>>i&1 == 1:
			cnt = cnt.addc(1)
			body = body.concat(h.parts[i])
		}
	}
	return h.head.concat(intSeq(cnt, 1)).concat(body)
}

func (h *hashCase) decide(c *Ctx, st *State) { h.decideSet(c, st, nil) }

func (h *hashCase) decideSet(c *Ctx, st *State, set *int) {
	where := fnPos(h.fn)
	want := blake(h.want(set))
	root, name := "tree."+h.kind+".Hash", h.kind
	if set != nil {
		name = fmt.Sprintf("%s with the children %016b", h.kind, *set)
	}
	ip := newInterp()
	if set != nil {
		ip.preHook = h.once
	}
	outs := c.run(ip, root, func() []Outcome { return ip.exec(st, h.fn, []Val{PtrV{obj: lazyObj(h.ns, h.T)}}, nil, 0) })
	n := 0
	for _, o := range outs {
		if infeasible(o.st.f) || o.pan != nil {
			continue
		}
		n++
		c.unmodified(o, "node unchanged", where, h.kind+".Hash")
		got, ok := retBytes(o.ret[0])
		c.mustSt(ok && seqEqual(o.st.f, got, want), o.st, "committed content", where, "the hash of a %s is %s, expected %s", name, clip(o.ret[0].Key(), 1500), clip(want.Key(), 1500))
	}
	c.must(n > 0, "vacuous", where, "%d paths", n)
}

// runBranch decides the hash of a branch for the sets of children lo..hi-1, in a process of its own.
func runBranch(lo, hi int) int {
	dir := "/repo"
	if d := os.Getenv("NIMCHECK_REPO"); d != "" {
		dir = d
	}
	var err error
	if P, err = load(dir); err != nil {
		fmt.Println(err)
		return 2
	}
	c := newCtx("T02")
	var r endsResult
	_, u := newInterp().try(func() []Outcome {
		h := newHashCase(c, "Branch")
		if h == nil {
			return nil
		}
		for set := lo; set < hi && len(c.viol) == 0; set++ {
			st := h.st.clone()
			for i, ex := range h.exists {
				fs := st.f.assume(ex, set>>i&1 == 1)
				if len(fs) != 1 {
					unsupported(0, "presence of a child: %s", ex.Key())
				}
				st.f = fs[0]
			}
			s := set
			h.decideSet(c, st, &s)
			r.Summed++
		}
		return nil
	})
	if u != nil {
		c.fail("analysable", P.pos(u.pos), nil, "undecided: %s", u.msg)
	}
	r.Open, r.Funcs, r.Paths, r.Oblig = c.viol, sortedKeys(c.funcs), c.paths, c.oblig
	if err := json.NewEncoder(os.Stdout).Encode(r); err != nil {
		return 2
	}
	return 0
}

// branchPatterns decides the hash of a branch for every set of children by itself. Where all are decided, the
// violations of sub, in which the set is symbolic, are dropped; the first one found replaces them.
func (c *Ctx) branchPatterns(sub *Ctx) {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	const step = 4096
	var mu sync.Mutex
	var wg sync.WaitGroup
	ctx, stop := context.WithTimeout(context.Background(), 600*time.Second)
	defer stop()
	var bad []violation
	done, oblig := 0, 0
	sem := make(chan bool, 8)
	for lo := 0; lo < 1<<16; lo += step {
		lo := lo
		sem <- true
		if ctx.Err() != nil {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			cmd := exec.CommandContext(ctx, exe, "branch", strconv.Itoa(lo), strconv.Itoa(lo+step))
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOMAXPROCS=1", "GOGC=400")
			b, err := cmd.Output()
			var r endsResult
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			mu.Lock()
			defer mu.Unlock()
			oblig += r.Oblig
			if err != nil || len(r.Open) > 0 {
				if err == nil {
					bad = append(bad, r.Open...)
				}
				stop()
				return
			}
			done += r.Summed
		}()
	}
	wg.Wait()
	sub.oblig, sub.done = sub.oblig+oblig, sub.done+oblig
	if done == 1<<16 {
		sub.viol, sub.done = nil, sub.oblig
		sub.must(true, "every set of children", fnPos(methodSel(types.NewPointer(P.typ("tree", "Branch")), "Hash")), "%d sets", done)
	} else if len(bad) > 0 {
		sub.viol = bad[:1]
	}
}

func lins(as []*Atom) []*Lin {
	var r []*Lin
	for _, a := range as {
		r = append(r, a.lin())
	}
	return r
}

// merge adds what another context did.
func (c *Ctx) merge(o *Ctx) {
	for f := range o.funcs {
		c.funcs[f] = true
	}
	for r, n := range o.rules {
		c.rules[r] += n
	}
	c.oblig, c.done = c.oblig+o.oblig, c.done+o.done
	c.roots, c.samples, c.viol = append(c.roots, o.roots...), append(c.samples, o.samples...), append(c.viol, o.viol...)
	c.notes, c.assume = append(c.notes, o.notes...), append(c.assume, o.assume...)
	c.paths, c.sites, c.loopsSum, c.loopsUnr = c.paths+o.paths, c.sites+o.sites, c.loopsSum+o.loopsSum, c.loopsUnr+o.loopsUnr
}
