package main

// A14: addresses of keys and signature proofs.

import (
	"go/types"
)

func init() { checks["A14"] = checkA14 }

// concreteProof is a state with a symbolic decoded Merkle path: as many hashes as branches.
func pathFacts(st *State, T types.Type, s *Sym) {
	n := lazyInt(T, s, "Branches", "Len")
	bits, _ := lazyAt(T, s, "Branches", "Bits")
	hashes, _ := lazyAt(T, s, "Hashes")
	lb := sliceLen(bits)
	lh := sliceLen(hashes)
	for _, b := range []*Bool{bEq0(lh.sub(n)), bEq0(lb.sub(mkDiv(n.addc(7), bi(8))))} {
		fs := st.f.assume(b, true)
		if len(fs) != 1 {
			unsupported(0, "cannot state the shape of a Merkle path")
		}
		st.f = fs[0]
	}
}

func sliceLen(n Node) *Lin {
	if l, ok := expand(n).(LeafN); ok {
		if sl, ok := l.V.(SliceV); ok {
			return sl.len
		}
	}
	unsupported(0, "a slice is expected: %s", n.Key())
	return nil
}

func blake(q Seq) Seq { return hashSeq("blake2b256", q, 32) }

func checkA14(c *Ctx) {
	c.explained = "PublicKeyToAddress, MerklePath.ComputeRoot and SignatureProof.SignerAddress are analysed for symbolic keys and decoded Merkle paths of every length. The loop over the path nodes is summarised as a recurrence; its start must be the hash of the leaf, its step the hash of node and previous root in the order given by the step's branch bit, its length the number of nodes."
	fn := repoFn("wire", "PublicKeyToAddress")
	key := mkSym("key")
	ip := newInterp()
	outs := c.run(ip, "wire.PublicKeyToAddress", func() []Outcome {
		return ip.exec(newState(), fn, []Val{PtrV{obj: lazyObj(key, types.NewArray(types.Typ[types.Byte], 32))}}, nil, 0)
	})
	c.noPanics("wire.PublicKeyToAddress", outs)
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		got, ok := retBytes(o.ret[0])
		want, _ := blake(rawSeq(key, cLin(0), cLin(32))).slice(o.st.f, cLin(0), cLin(20))
		c.mustSt(ok && seqEqual(o.st.f, got, want), o.st, "key address", fnPos(fn), "the address of a key is %s", o.ret[0].Key())
	}
	// Merkle root
	T := wireT("MerklePath")
	cr := methodSel(types.NewPointer(T), "ComputeRoot")
	if c.must(cr != nil, "anchored", "wire.MerklePath", "method ComputeRoot") {
		P.body(cr)
		s := mkSym("path")
		leaf := symSlice("leaf")
		st := newState()
		pathFacts(st, T, s)
		ip := newInterp()
		outs := c.run(ip, "MerklePath.ComputeRoot", func() []Outcome {
			return ip.exec(st, cr, []Val{PtrV{obj: lazyObj(s, T)}, leaf}, nil, 0)
		})
		c.noPanics("MerklePath.ComputeRoot", outs)
		for _, o := range outs {
			if o.pan != nil || infeasible(o.st.f) {
				continue
			}
			got, ok := retBytes(o.ret[0])
			if !c.mustSt(ok, o.st, "Merkle root", fnPos(cr), "the root is %s", o.ret[0].Key()) {
				continue
			}
			c.merkleRoot(o.st, T, s, newState().bytesOf(leaf, 0), got, fnPos(cr))
			c.unmodified(o, "unmodified", fnPos(cr), "ComputeRoot")
		}
	}
	// signer
	S := wireT("SignatureProof")
	sa := methodSel(types.NewPointer(S), "SignerAddress")
	if c.must(sa != nil, "anchored", "wire.SignatureProof", "method SignerAddress") {
		P.body(sa)
		s := mkSym("proof")
		st := newState()
		pathFacts(st, T, s.fld("MerklePath"))
		ip := newInterp()
		ip.preHook = rootContract
		outs := c.run(ip, "SignatureProof.SignerAddress", func() []Outcome {
			return ip.exec(st, sa, []Val{PtrV{obj: lazyObj(s, S)}}, nil, 0)
		})
		c.noPanics("SignatureProof.SignerAddress", outs)
		for _, o := range outs {
			if o.pan != nil || infeasible(o.st.f) {
				continue
			}
			got, ok := retBytes(o.ret[0])
			if !c.mustSt(ok, o.st, "signer", fnPos(sa), "the signer is %s", o.ret[0].Key()) {
				continue
			}
			pk := lazySeq(S, s, "PublicKey")
			root := mkSym("merkleRoot", NodeV{LazyN{T, s.fld("MerklePath")}}, SeqV{pk})
			if seqEqual(o.st.f, got, rawSeq(root, cLin(0), cLin(20))) {
				c.must(true, "signer", fnPos(sa), "the signer is the start of the root over the key")
				c.unmodified(o, "unmodified", fnPos(sa), "SignerAddress")
				continue
			}
			// computed in place
			c.merkleRoot(o.st, T, s.fld("MerklePath"), pk, got, fnPos(sa))
		}
	}
}

func retBytes(v Val) (Seq, bool) {
	switch x := v.(type) {
	case NodeV:
		if b, ok := expand(x.N).(BytesN); ok {
			return b.S, true
		}
	case SeqV:
		return x.S, true
	}
	return Seq{}, false
}

// merkleRoot compares bytes (a prefix of the root) with the recurrence over the path s.
func (c *Ctx) merkleRoot(st *State, T types.Type, s *Sym, leaf, got Seq, where string) {
	hashes, _ := lazyAt(T, s, "Hashes")
	n := sliceLen(hashes)
	bits := lazySeq(T, s, "Branches", "Bits")
	got = got.resolve(st.f)
	if st.f.entailsEq(n, cLin(0)) {
		want, _ := blake(leaf).slice(st.f, cLin(0), got.length())
		c.mustSt(seqEqual(st.f, got, want), st, "Merkle root", where, "the root of an empty path is %s", clip(got.Key(), 300))
		return
	}
	if len(got.segs) != 1 || got.segs[0].kind != sRaw || got.segs[0].src.head != "rec" || !st.f.entailsEq(got.segs[0].off, cLin(0)) {
		c.mustSt(false, st, "Merkle root", where, "undecided: the root is not a recurrence over the path: %s", clip(got.Key(), 300))
		return
	}
	r := got.segs[0].src
	f, x0, cnt := r.args[0].(FunV), r.args[1].(SeqV), r.args[2].(IntV)
	c.mustSt(st.f.entailsEq(cnt.L, n), st, "Merkle root", where, "%s of the path's nodes are used", cnt.L.Key())
	c.mustSt(seqEqual(st.f, x0.S, blake(leaf)), st, "Merkle root", where, "the computation starts with %s", clip(x0.S.Key(), 200))
	j := mkAtom("j", nil, big0, maxLen).lin()
	st = st.clone()
	st.f.addGE(n.sub(j).addc(-1))
	body, ok := f.apply(j).(SeqV)
	if !c.mustSt(ok, st, "Merkle root", where, "step is %s", f.Key()) {
		return
	}
	self := rawSeq(recSelf, cLin(0), cLin(32))
	hs, _ := expand(hashes).(LeafN).V.(SliceV)
	node, ok := expand(newState().load(sliceElem(hs, j), 0)).(BytesN)
	if !c.mustSt(ok, st, "Merkle root", where, "path nodes are bytes") {
		return
	}
	at := mkDiv(j, bi(8))
	bit := bitTest(mkBE(SymV{bits.segs[0].src}, at, 1), at.mulc64(8).sub(j).addc(7))
	for _, left := range []bool{true, false} {
		want := blake(self.concat(node.S))
		if left {
			want = blake(node.S.concat(self))
		}
		for _, g := range st.f.assume(bit, left) {
			s2 := st.clone()
			s2.f = g
			c.mustSt(infeasible(g) || seqEqual(g, body.S.resolve(g), want), s2, "Merkle step", where, "with branch bit %v the next root is %s, expected is %s", left, clip(body.S.resolve(g).Key(), 400), clip(want.Key(), 300))
		}
	}
}
