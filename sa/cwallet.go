package main

// W01-W03: what is signed, by the wallet and for peer addresses.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["W01"] = checkW01
	checks["W02"] = checkW02
	checks["W03"] = checkW03
}

// txView is the content of a transaction as it takes effect.
type txView struct {
	seqs map[string]Seq
	nums map[string]*Lin
}

var txContentOrder = []struct {
	name string
	w    int
}{{"Data", -1}, {"Sender", 0}, {"SenderType", 1}, {"Recipient", 0}, {"RecipientType", 1}, {"Value", 8}, {"Fee", 8}, {"ValidityStartHeight", 4}, {"NetworkID", 1}, {"Flags", 1}}

// viewOf is the content of the symbolic transaction s of the kind.
func viewOf(kind string, s *Sym) *txView {
	T := wireT(kind)
	v := &txView{map[string]Seq{}, map[string]*Lin{}}
	for _, n := range []string{"Value", "Fee", "ValidityStartHeight", "NetworkID"} {
		v.nums[n] = lazyInt(T, s, n)
	}
	v.seqs["Recipient"] = lazySeq(T, s, "Recipient")
	switch kind {
	case "BasicTx":
		h := blake(lazySeq(T, s, "SenderPubKey"))
		a, _ := h.slice(newState().f, cLin(0), cLin(20))
		v.seqs["Sender"] = a
		v.seqs["Data"] = Seq{}
		v.seqs["Proof"] = lazySeq(T, s, "Signature")
		for _, n := range []string{"SenderType", "RecipientType", "Flags"} {
			v.nums[n] = cLin(0)
		}
	default: // ExtendedTx, TxContent
		v.seqs["Sender"] = lazySeq(T, s, "Sender")
		v.seqs["Data"] = lazySeq(T, s, "Data")
		for _, n := range []string{"SenderType", "RecipientType", "Flags"} {
			v.nums[n] = lazyInt(T, s, n)
		}
		if kind == "ExtendedTx" {
			v.seqs["Proof"] = lazySeq(T, s, "Proof")
		}
	}
	return v
}

// encoded is the layout that is signed.
func (v *txView) encoded() Seq {
	var q Seq
	for _, f := range txContentOrder {
		switch {
		case f.w > 0:
			q = q.concat(intSeq(v.nums[f.name], f.w))
		case f.w < 0:
			q = q.concat(intSeq(v.seqs[f.name].length(), 2)).concat(v.seqs[f.name])
		default:
			q = q.concat(v.seqs[f.name])
		}
	}
	return q
}

// bytesAt is the content of a field holding bytes.
func bytesAt(st *State, n Node, t types.Type) (Seq, bool) {
	switch x := expand(n).(type) {
	case BytesN:
		return x.S, true
	case LeafN:
		switch y := x.V.(type) {
		case SliceV:
			return st.bytesOf(y, 0), true
		case SeqV:
			return y.S, true
		}
	}
	switch y := nodeVal(n, t).(type) {
	case SliceV:
		return st.bytesOf(y, 0), true
	case NodeV:
		if b, ok := expand(y.N).(BytesN); ok {
			return b.S, true
		}
	}
	return Seq{}, false
}

// compareView compares a returned content with the view.
func (c *Ctx) compareView(st *State, what, where string, n Node, T types.Type, v *txView) {
	var names []string
	for k := range v.seqs {
		names = append(names, k)
	}
	for k := range v.nums {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, nm := range names {
		if nm == "Proof" && shortType(T) == "TxContent" {
			continue
		}
		f, ft, ok := fieldNode(n, T, nm)
		if !c.mustSt(ok, st, "view", where, "%s has no field %s", what, nm) {
			continue
		}
		if w, isSeq := v.seqs[nm]; isSeq {
			q, ok := bytesAt(st, f, ft)
			c.mustSt(ok && seqEqual(st.f, q, w), st, "view", where, "%s: %s is %s, not %s", what, nm, clip(f.Key(), 120), clip(w.Key(), 120))
			continue
		}
		x, ok := nodeVal(f, ft).(IntV)
		c.mustSt(ok && st.f.entailsEq(x.L, v.nums[nm]), st, "view", where, "%s: %s is %s, not %s", what, nm, clip(f.Key(), 120), v.nums[nm].Key())
	}
}

// unmodifiedBut is unmodified, apart from some fields of an object.
func (c *Ctx) unmodifiedBut(o Outcome, rule, where, what string, obj *Obj, names ...string) bool {
	was := newState().content(obj)
	is := o.st.content(obj)
	st := o.st.clone()
	for _, nm := range names {
		path := fieldPath(obj.typ, nm)
		if path == nil {
			unsupported(0, "field %s of %s is missing", nm, obj.typ)
		}
		is = setPath(is, path, getPath(was, path))
	}
	if len(names) > 0 {
		st.set(obj, is)
	}
	return c.unmodified(Outcome{st: st, ret: o.ret, pan: o.pan}, rule, where, what)
}

// fieldPath is the index path of a (possibly promoted) field.
func fieldPath(t types.Type, name string) []int {
	_, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if idx == nil {
		if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil {
			_, idx, _ = types.LookupFieldOrMethod(t, true, nt.Obj().Pkg(), name)
		}
	}
	return idx
}

// assuming adds facts to a state; the facts must be satisfiable.
func assuming(st *State, bs ...*Bool) *State {
	for _, b := range bs {
		fs := st.f.assume(b, true)
		if len(fs) != 1 {
			unsupported(0, "cannot state a precondition")
		}
		st.f = fs[0]
	}
	return st
}

// method finds a method of *T and checks that it is there.
func (c *Ctx) method(T types.Type, name string) *ssa.Function {
	fn := methodSel(types.NewPointer(T), name)
	if !c.must(fn != nil, "anchored", shortType(T), "method %s of %s", name, shortType(T)) {
		return nil
	}
	P.body(fn)
	return fn
}

// call runs a method on a symbolic receiver and calls f for the feasible outcomes without panic.
func (c *Ctx) call(st *State, fn *ssa.Function, args []Val, hook func(ip *Interp, st *State, cl *Call) ([]Outcome, bool), f func(o Outcome)) {
	ip := newInterp()
	ip.preHook = hook
	name := fn.String()
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	outs := c.run(ip, name, func() []Outcome { return ip.exec(st, fn, args, nil, 0) })
	c.noPanics(name, outs)
	n := 0
	for _, o := range outs {
		if o.pan != nil || infeasible(o.st.f) {
			continue
		}
		n++
		f(o)
	}
	c.must(n > 0, "anchored", fnPos(fn), "%s has a path that returns", name)
}

func txPointerKinds(c *Ctx) []string {
	it, _ := wireT("Tx").Underlying().(*types.Interface)
	if !c.must(it != nil, "anchored", "wire.Tx", "the transaction interface") {
		return nil
	}
	var out []string
	for _, t := range P.implementers(it) {
		n := shortType(t)
		if pt, ok := t.(*types.Pointer); ok {
			n = shortType(pt.Elem())
		}
		out = append(out, n)
	}
	sort.Strings(out)
	var uniq []string
	for i, n := range out {
		if i == 0 || out[i-1] != n {
			uniq = append(uniq, n)
		}
	}
	return uniq
}

func checkW01(c *Ctx) {
	c.explained = "Every accessor of every transaction kind (AsTxContent, AsExtendedTx, GetSender, GetRecipient, Amount, Type) is analysed for a symbolic transaction and its result compared field by field with the content of that transaction; the encoding of a symbolic TxContent must be the signed layout with every field; the methods must change nothing."
	kinds := txPointerKinds(c)
	for _, k := range kinds {
		if !c.must(k == "BasicTx" || k == "ExtendedTx", "known kind", "wire."+k, "%s is a known transaction kind", k) {
			continue
		}
		T := wireT(k)
		s := mkSym("tx:" + k)
		v := viewOf(k, s)
		recv := func() []Val { return []Val{PtrV{obj: lazyObj(s, T)}} }
		if fn := c.method(T, "AsTxContent"); fn != nil {
			c.call(newState(), fn, recv(), nil, func(o Outcome) {
				c.compareView(o.st, k+".AsTxContent", fnPos(fn), nodeOf(o.ret[0]), wireT("TxContent"), v)
				c.unmodified(o, "unmodified", fnPos(fn), k+".AsTxContent")
			})
		}
		if fn := c.method(T, "AsExtendedTx"); fn != nil {
			c.call(newState(), fn, recv(), nil, func(o Outcome) {
				c.compareView(o.st, k+".AsExtendedTx", fnPos(fn), nodeOf(o.ret[0]), wireT("ExtendedTx"), v)
				c.unmodified(o, "unmodified", fnPos(fn), k+".AsExtendedTx")
			})
		}
		for _, m := range []string{"Sender", "Recipient"} {
			fn := c.method(T, "Get"+m)
			if fn == nil {
				continue
			}
			c.call(newState(), fn, recv(), nil, func(o Outcome) {
				p, ok := o.ret[0].(PtrV)
				if !c.mustSt(ok && o.st.f.decide(isNilVal(p)) == 0, o.st, "view", fnPos(fn), "Get%s returns no address", m) {
					return
				}
				q, ok := bytesAt(o.st, o.st.load(p, 0), types.NewArray(types.Typ[types.Byte], 20))
				c.mustSt(ok && seqEqual(o.st.f, q, v.seqs[m]), o.st, "view", fnPos(fn), "%s.Get%s gives %s, not %s", k, m, clip(q.Key(), 120), clip(v.seqs[m].Key(), 120))
				x, ok := o.ret[1].(IntV)
				c.mustSt(ok && o.st.f.entailsEq(x.L, v.nums[m+"Type"]), o.st, "view", fnPos(fn), "%s.Get%s gives type %s, not %s", k, m, o.ret[1].Key(), v.nums[m+"Type"].Key())
				c.unmodified(o, "unmodified", fnPos(fn), k+".Get"+m)
			})
		}
		if fn := c.method(T, "Amount"); fn != nil {
			c.call(newState(), fn, recv(), nil, func(o Outcome) {
				for i, n := range []string{"Value", "Fee"} {
					x, ok := o.ret[i].(IntV)
					c.mustSt(ok && o.st.f.entailsEq(x.L, v.nums[n]), o.st, "view", fnPos(fn), "%s.Amount gives %s as %s", k, o.ret[i].Key(), n)
				}
				c.unmodified(o, "unmodified", fnPos(fn), k+".Amount")
			})
		}
		if fn := c.method(T, "Type"); fn != nil {
			want := int64(0)
			if k == "ExtendedTx" {
				want = 1
			}
			c.call(newState(), fn, recv(), nil, func(o Outcome) {
				x, ok := o.ret[0].(IntV)
				c.mustSt(ok && o.st.f.entailsEq(x.L, cLin(want)), o.st, "view", fnPos(fn), "%s.Type is %s", k, o.ret[0].Key())
			})
		}
	}
	c.must(len(kinds) >= 2, "anchored", "wire.Tx", "%d transaction kinds", len(kinds))
	// encoding of the content
	fn := repoFn("beserial", "Marshal")
	T := wireT("TxContent")
	s := mkSym("content")
	v := viewOf("TxContent", s)
	st := assuming(newState(), bGe0(cLin(65535).sub(v.seqs["Data"].length())))
	c.call(st, fn, []Val{zeroVal(types.NewSlice(types.Typ[types.Byte])), ifacePtr(PtrV{obj: lazyObj(s, T)}, T)}, nil, func(o Outcome) {
		if !c.mustSt(o.st.f.decide(isNilVal(o.ret[1])) == 1, o.st, "layout", "wire.TxContent", "encoding a content fails") {
			return
		}
		q, ok := bytesAt(o.st, LeafN{o.ret[0]}, types.NewSlice(types.Typ[types.Byte]))
		c.mustSt(ok && seqEqual(o.st.f, q, v.encoded()), o.st, "layout", "wire.TxContent", "a content is encoded as %s, not %s", clip(q.Key(), 400), clip(v.encoded().Key(), 400))
		c.unmodified(o, "unmodified", "wire.TxContent", "encoding")
	})
}

func nodeOf(v Val) Node {
	if n, ok := v.(NodeV); ok {
		return n.N
	}
	return LeafN{v}
}

func checkW02(c *Ctx) {
	c.explained = "SignBasicTx and SignExtendedTx are analysed for a symbolic wallet (keys of the Ed25519 lengths) and transaction. Ed25519 signing is an uninterpreted function of key and message, so a stored signature names the exact key and bytes it was made over: on every path the transaction either is refused (only basic transactions of another sender) and unchanged, or holds the signature by the wallet's private key over the content of this transaction, with the wallet's public key, and nothing else changed. Key derivation must store the public half of the private key, and GetAddress the address of the public key."
	T := P.typ("wallet", "Basic")
	if !c.must(T != nil, "anchored", "wallet.Basic", "the wallet type") {
		return
	}
	w := mkSym("wallet")
	priv, pub := lazySeq(T, w, "PrivateKey"), lazySeq(T, w, "PublicKey")
	pre := func(extra ...*Bool) *State {
		pk, _ := lazyAt(T, w, "PublicKey")
		bs := []*Bool{bNeg(isNilVal(expand(pk).(LeafN).V)), bEq0(priv.length().addc(-64)), bEq0(pub.length().addc(-32))}
		return assuming(newState(), append(bs, extra...)...)
	}
	for _, k := range []string{"BasicTx", "ExtendedTx"} {
		m := "Sign" + k
		fn := c.method(T, m)
		if fn == nil {
			continue
		}
		s := mkSym("tx:" + k)
		X := wireT(k)
		v := viewOf(k, s)
		obj := lazyObj(s, X)
		st := pre(bGe0(cLin(65535).sub(v.seqs["Data"].length())))
		sig := rawSeq(mkSym("ed25519sig", SeqV{priv.resolve(st.f)}, SeqV{v.encoded().resolve(st.f)}), cLin(0), cLin(64))
		kinds := map[bool]int{}
		c.call(st, fn, []Val{PtrV{obj: lazyObj(w, T)}, PtrV{obj: obj}}, nil, func(o Outcome) {
			sts := []*State{o.st}
			if k == "BasicTx" {
				key := lazySeq(X, s, "SenderPubKey")
				a, b := split(o.st, seqEqBool(o.st.f, pub, key), 0)
				for _, x := range b {
					if infeasible(x.f) {
						continue
					}
					kinds[false]++
					c.mustSt(x.f.decide(isNilVal(o.ret[0])) == 0, x, "refused", fnPos(fn), "a transaction of another sender is signed")
					c.unmodified(Outcome{st: x, ret: o.ret}, "refused", fnPos(fn), m+" of another sender's transaction")
				}
				sts = a
			}
			for _, x := range sts {
				if infeasible(x.f) {
					continue
				}
				kinds[true]++
				c.mustSt(x.f.decide(isNilVal(o.ret[0])) == 1, x, "signed", fnPos(fn), "an own transaction is not signed")
				want, field := sig, "Signature"
				if k == "ExtendedTx" {
					want, field = pub.concat(constSeq([]byte{0})).concat(sig), "Proof"
				}
				f, ft, _ := fieldNode(x.content(obj), X, field)
				q, ok := bytesAt(x, f, ft)
				c.mustSt(ok && seqEqual(x.f, q, want), x, "signed", fnPos(fn), "%s leaves %s %s, not %s", m, field, clip(q.Key(), 500), clip(want.Key(), 500))
				c.unmodifiedBut(Outcome{st: x, ret: o.ret}, "nothing else changes", fnPos(fn), m, obj, field)
			}
		})
		c.must(kinds[true] > 0, "anchored", fnPos(fn), "%s has a path that signs", m)
		c.must(k != "BasicTx" || kinds[false] > 0, "anchored", fnPos(fn), "%s has a path that refuses", m)
	}
	if fn := c.method(T, "GetPublicKey"); fn != nil {
		c.call(pre(), fn, []Val{PtrV{obj: lazyObj(w, T)}}, nil, func(o Outcome) {
			q, ok := retBytes(o.ret[0])
			c.mustSt(ok && seqEqual(o.st.f, q, pub), o.st, "public key", fnPos(fn), "GetPublicKey gives %s", clip(o.ret[0].Key(), 200))
			c.unmodified(o, "public key", fnPos(fn), "GetPublicKey")
		})
	}
	if fn := c.method(T, "GetAddress"); fn != nil {
		addr, _ := blake(pub).slice(newState().f, cLin(0), cLin(20))
		obj := lazyObj(w, T)
		caches := addressCaches(T)
		// a cached address is absent or that of the public key
		var states []*State
		states = append(states, pre())
		for _, f := range caches {
			var next []*State
			q := lazySeq(T, w, f)
			for _, st := range states {
				a, b := split(st, seqEqBool(st.f, q, zeroSeq(cLin(20))), 0)
				next = append(next, a...)
				for _, x := range b {
					next = append(next, x)
				}
			}
			states = next
		}
		for _, st := range states {
			c.call(st, fn, []Val{PtrV{obj: obj}}, nil, func(o Outcome) {
				right := func(q Seq) bool {
					if seqEqual(o.st.f, q, addr) {
						return true
					}
					for _, f := range caches {
						was := lazySeq(T, w, f)
						if seqEqual(o.st.f, q, was) && o.st.f.decide(seqEqBool(o.st.f, was, zeroSeq(cLin(20)))) == 0 {
							return true
						}
					}
					return false
				}
				q, ok := retBytes(o.ret[0])
				c.mustSt(ok && right(q), o.st, "address", fnPos(fn), "GetAddress gives %s", clip(o.ret[0].Key(), 200))
				for _, f := range caches {
					n, ft, _ := fieldNode(o.st.content(obj), T, f)
					q, ok := bytesAt(o.st, n, ft)
					was := lazySeq(T, w, f)
					c.mustSt(ok && (right(q) || seqEqual(o.st.f, q, was)), o.st, "address", fnPos(fn), "GetAddress caches %s", clip(n.Key(), 200))
				}
				c.unmodifiedBut(o, "address", fnPos(fn), "GetAddress", obj, caches...)
			})
		}
	}
	for _, nm := range []string{"DeriveBasic", "GenerateBasic"} {
		fn := P.fnByName("wallet", "", nm)
		if !c.must(fn != nil, "anchored", "wallet."+nm, "key constructor %s", nm) {
			continue
		}
		P.body(fn)
		st := newState()
		var args []Val
		seed := symSlice("seed")
		if nm == "DeriveBasic" {
			args = []Val{seed}
			st = assuming(st, bEq0(newState().bytesOf(seed, 0).length().addc(-32)))
		}
		ip := newInterp()
		outs := c.run(ip, "wallet."+nm, func() []Outcome { return ip.exec(st, fn, args, nil, 0) })
		n := 0
		for _, o := range outs {
			if o.pan != nil || infeasible(o.st.f) {
				continue
			}
			n++
			p, ok := o.ret[0].(PtrV)
			if !c.mustSt(ok && o.st.f.decide(isNilVal(p)) == 0, o.st, "own keys", fnPos(fn), "%s returns no wallet", nm) {
				continue
			}
			x := o.st.load(p, 0)
			get := func(f string) Seq {
				n, ft, ok := fieldNode(x, T, f)
				if !ok {
					unsupported(0, "field %s", f)
				}
				q, ok := bytesAt(o.st, n, ft)
				if !ok {
					unsupported(0, "field %s is not a byte string", f)
				}
				return q.resolve(o.st.f)
			}
			k := get("PrivateKey")
			half, ok := k.slice(o.st.f, cLin(32), cLin(64))
			c.mustSt(ok && o.st.f.entailsEq(k.length(), cLin(64)) && seqEqual(o.st.f, half, get("PublicKey")), o.st, "own keys", fnPos(fn), "%s stores the public key %s with the private key %s", nm, clip(get("PublicKey").Key(), 150), clip(k.Key(), 150))
			if nm == "DeriveBasic" {
				want := rawSeq(mkSym("ed25519key", SeqV{newState().bytesOf(seed, 0).resolve(o.st.f)}), cLin(0), cLin(64))
				c.mustSt(seqEqual(o.st.f, k, want), o.st, "own keys", fnPos(fn), "%s stores the private key %s", nm, clip(k.Key(), 150))
			}
			for _, f := range addressCaches(T) {
				q := get(f)
				half2, _ := blake(get("PublicKey")).slice(o.st.f, cLin(0), cLin(20))
				c.mustSt(seqEqual(o.st.f, q, zeroSeq(cLin(20))) || seqEqual(o.st.f, q, half2), o.st, "own keys", fnPos(fn), "%s caches the address %s", nm, clip(q.Key(), 150))
			}
			c.unmodified(o, "own keys", fnPos(fn), nm)
		}
		c.must(n > 0, "anchored", fnPos(fn), "%s has a path that returns", nm)
	}
}

// addressCaches are the 20-byte fields of the wallet.
func addressCaches(T types.Type) (out []string) {
	st, _ := T.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if a, ok := st.Field(i).Type().Underlying().(*types.Array); ok && a.Len() == 20 {
			out = append(out, st.Field(i).Name())
		}
	}
	return
}

func checkW03(c *Ctx) {
	c.explained = "PeerAddress.Sign and PeerAddress.VerifySignature are analysed for a symbolic address and a key of the Ed25519 length. Signing and verification are uninterpreted functions of key, message and signature, which must be called with exactly protocol, services and timestamp (13 bytes, big-endian) of this address; Sign must store the public half of the key and the signature and change nothing else, VerifySignature must return the outcome of the verification with the address's key and signature."
	T := wireT("PeerAddress")
	s := mkSym("addr")
	msg := intSeq(lazyInt(T, s, "Protocol"), 1).concat(intSeq(lazyInt(T, s, "Services"), 4)).concat(intSeq(lazyInt(T, s, "Timestamp"), 8))
	if fn := c.method(T, "Sign"); fn != nil {
		key := symSlice("key")
		kq := newState().bytesOf(key, 0)
		obj := lazyObj(s, T)
		st := assuming(newState(), bEq0(kq.length().addc(-64)))
		c.call(st, fn, []Val{PtrV{obj: obj}, key}, nil, func(o Outcome) {
			sig := rawSeq(mkSym("ed25519sig", SeqV{kq.resolve(o.st.f)}, SeqV{msg.resolve(o.st.f)}), cLin(0), cLin(64))
			half, _ := kq.slice(o.st.f, cLin(32), cLin(64))
			for f, want := range map[string]Seq{"Signature": sig, "PublicKey": half} {
				n, ft, _ := fieldNode(o.st.content(obj), T, f)
				q, ok := bytesAt(o.st, n, ft)
				c.mustSt(ok && seqEqual(o.st.f, q, want), o.st, "signed", fnPos(fn), "Sign stores %s %s, not %s", f, clip(q.Key(), 300), clip(want.Key(), 300))
			}
			c.unmodifiedBut(o, "nothing else changes", fnPos(fn), "Sign", obj, "Signature", "PublicKey")
		})
	}
	if fn := c.method(T, "VerifySignature"); fn != nil {
		obj := lazyObj(s, T)
		c.call(newState(), fn, []Val{PtrV{obj: obj}}, nil, func(o Outcome) {
			want := bPred("ed25519.Verify", SeqV{lazySeq(T, s, "PublicKey")}, SeqV{msg}, SeqV{lazySeq(T, s, "Signature")})
			b, ok := o.ret[0].(BoolV)
			if !c.mustSt(ok, o.st, "verified", fnPos(fn), "VerifySignature returns %s", o.ret[0].Key()) {
				return
			}
			t, f := split(o.st.clone(), want, 0)
			for i, xs := range [][]*State{t, f} {
				for _, x := range xs {
					c.mustSt(x.f.decide(b.B) == 1-i, x, "verified", fnPos(fn), "VerifySignature is not the verification of protocol, services and timestamp with the key and signature of the address")
				}
			}
			c.unmodified(o, "verified", fnPos(fn), "VerifySignature")
		})
	}
}
