package main

// A01-A06, A15: the rules of the account kinds.

import (
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["A01"] = checkA01
	checks["A02"] = checkA02
	checks["A03"] = checkA03
	checks["A04"] = checkA04
	checks["A05"] = checkA05
	checks["A06"] = checkA06
	checks["A15"] = checkA15
}

var acctKinds = []string{"BasicAccount", "VestingAccount", "HTLCAccount"}
var acctTags = map[string]int64{"BasicAccount": 0, "VestingAccount": 1, "HTLCAccount": 2}
var txKinds = []string{"BasicTx", "ExtendedTx"}

// rootContract makes the Merkle root of a path an uninterpreted function of the path and the leaf.
func rootContract(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	if c.fn.Name() != "ComputeRoot" || c.fn.Signature.Recv() == nil || shortType(c.fn.Signature.Recv().Type()) != "MerklePath" {
		return nil, false
	}
	p, ok := c.args[0].(PtrV)
	leaf, ok2 := c.args[1].(SliceV)
	if !ok || !ok2 || p.obj == nil {
		return nil, false
	}
	s := mkSym("merkleRoot", NodeV{foldLazy(st.load(p, c.pos))}, SeqV{st.bytesOf(leaf, c.pos).resolve(st.f)})
	return []Outcome{{st: st, ret: []Val{NodeV{BytesN{rawSeq(s, cLin(0), cLin(32))}}}}}, true
}

// acctHook is the set of contracts used for the account rules.
func acctHook() func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	h := codecContracts("")
	return func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if o, ok := rootContract(ip, st, c); ok {
			return o, true
		}
		return h(ip, st, c)
	}
}

// acctRun is one analysed method of an account kind for one transaction kind.
type acctRun struct {
	c          *Ctx
	ip         *Interp
	kind, tx   string
	accT, txT  types.Type
	accS, txS  *Sym
	acc, txObj *Obj
	height     *Lin
	extra      *Lin
	fn         *ssa.Function
	where      string
	outs       []Outcome
}

func wireT(name string) types.Type {
	t := P.typ("wire", name)
	if t == nil {
		unsupported(0, "type wire.%s is missing", name)
	}
	return t
}

func (c *Ctx) acctCall(kind, tx, method string) *acctRun {
	r := &acctRun{c: c, kind: kind, tx: tx, accT: wireT(kind), txT: wireT(tx)}
	r.fn = methodSel(types.NewPointer(r.accT), method)
	if r.fn == nil {
		c.must(false, "anchored", kind, "method %s of %s is missing", method, kind)
		return nil
	}
	P.body(r.fn)
	r.where = fnPos(r.fn)
	r.accS, r.txS = mkSym(kind), mkSym(tx)
	r.acc, r.txObj = lazyObj(r.accS, r.accT), lazyObj(r.txS, r.txT)
	if method == "Init" {
		r.acc = freshObj(r.accT, "new account")
	}
	r.ip = newInterp()
	r.ip.preHook = acctHook()
	args := []Val{PtrV{obj: r.acc}}
	sig := r.fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case i == 0:
			args = append(args, mkIface(PtrV{obj: r.txObj}, types.NewPointer(r.txT), t))
		case i == 1:
			r.height = symInt(mkSym("height"), t)
			args = append(args, IntV{r.height})
		default:
			r.extra = symInt(mkSym("balance"), t)
			args = append(args, IntV{r.extra})
		}
	}
	r.outs = c.run(r.ip, kind+"."+method+"("+tx+")", func() []Outcome {
		return r.ip.exec(newState(), r.fn, args, nil, 0)
	})
	return r
}

// results visits the feasible successes and failures; the error is result errAt.
func (r *acctRun) results(errAt int, ok, fail func(o Outcome, st *State)) {
	for _, o := range r.outs {
		if o.pan != nil {
			if !infeasible(o.st.f) {
				r.c.mustSt(false, o.st, "no panic", P.pos(o.pan.pos), "%s can panic: %s", r.fn, o.pan)
			}
			continue
		}
		yes, no := split(o.st, isNilVal(o.ret[errAt]), 0)
		for _, s := range yes {
			if !infeasible(s.f) && ok != nil {
				ok(o, s)
			}
		}
		for _, s := range no {
			if !infeasible(s.f) && fail != nil {
				fail(o, s)
			}
		}
	}
}

func lazyAt(T types.Type, s *Sym, names ...string) (Node, types.Type) {
	var n Node = LazyN{T, s}
	t := T
	for _, nm := range names {
		var ok bool
		n, t, ok = fieldNode(n, t, nm)
		if !ok {
			unsupported(0, "field %s of %s is missing", nm, T)
		}
	}
	return n, t
}

func lazyInt(T types.Type, s *Sym, names ...string) *Lin {
	n, t := lazyAt(T, s, names...)
	v, ok := nodeVal(n, t).(IntV)
	if !ok {
		unsupported(0, "field %v of %s is not a number", names, T)
	}
	return v.L
}

func lazySeq(T types.Type, s *Sym, names ...string) Seq {
	n, t := lazyAt(T, s, names...)
	switch x := expand(n).(type) {
	case BytesN:
		return x.S
	case LeafN:
		if sl, ok := x.V.(SliceV); ok {
			return newState().bytesOf(sl, 0)
		}
		if q, ok := x.V.(SeqV); ok {
			return q.S
		}
	}
	unsupported(0, "field %v of %s (%s) is not a byte string", names, T, t)
	return Seq{}
}

func (r *acctRun) accInt(n ...string) *Lin { return lazyInt(r.accT, r.accS, n...) }
func (r *acctRun) txInt(n ...string) *Lin  { return lazyInt(r.txT, r.txS, n...) }
func (r *acctRun) accSeq(n ...string) Seq  { return lazySeq(r.accT, r.accS, n...) }

// sameNode decides the equality of two contents of type t.
func sameNode(st *State, a, b Node, t types.Type) bool {
	if nodeKeyDeep(a) == nodeKeyDeep(b) {
		return true
	}
	return st.f.decide(nodeEq(st, a, b, t)) == 1
}

// rule holds conditions that are either shown or assumed.
type rule struct {
	*walker
	name string
}

func (r *rule) need(st *State, b *Bool, what string, k func(*State)) {
	if r.assume {
		for _, f := range st.f.assume(b, true) {
			if f.dead {
				continue
			}
			s2 := st.clone()
			s2.f = f
			k(s2)
		}
		return
	}
	r.c.mustSt(st.f.decide(b) == 1 || r.proveBy(st, b), st, r.name, r.where, "%s succeeds without: %s (%s)", r.root, what, clip(b.Key(), 300))
	k(st)
}

// proveBy refutes the negation.
func (r *rule) proveBy(st *State, b *Bool) bool {
	for _, f := range st.f.assume(b, false) {
		if !infeasible(f) {
			return false
		}
	}
	return true
}

// iff checks that a method succeeds exactly under a rule.
func (r *acctRun) iff(name string, cond func(w *rule, st *State, k func(*State))) {
	mk := func(assume bool) *rule {
		return &rule{&walker{c: r.c, root: r.kind + "." + r.fn.Name() + "(" + r.tx + ")", where: r.where, assume: assume, layout: !assume}, name}
	}
	r.results(len(r.outs[0].ret)-1, func(o Outcome, st *State) {
		cond(mk(false), st, func(*State) {})
	}, func(o Outcome, st *State) {
		bad := (*State)(nil)
		cond(mk(true), st, func(s *State) {
			if bad == nil && !infeasible(s.f) {
				bad = s
			}
		})
		r.c.mustSt(bad == nil, firstSt(bad, st), name, r.where, "%s.%s(%s) fails although every condition holds (error %s)", r.kind, r.fn.Name(), r.tx, clip(o.ret[len(o.ret)-1].Key(), 120))
	})
}

func firstSt(a, b *State) *State {
	if a != nil {
		return a
	}
	return b
}

func (r *acctRun) ok() bool {
	if r == nil {
		return false
	}
	for _, o := range r.outs {
		if o.pan == nil {
			r.outs[0], r.outs = o, append(append([]Outcome{}, o), removeOut(r.outs, o)...)
			return true
		}
	}
	return r.c.must(false, "analysable", r.where, "no result of %s.%s(%s)", r.kind, r.fn.Name(), r.tx)
}

func removeOut(l []Outcome, o Outcome) (out []Outcome) {
	skipped := false
	for _, x := range l {
		if !skipped && x.st == o.st {
			skipped = true
			continue
		}
		out = append(out, x)
	}
	return
}

// resultAcc is the account returned by an Apply method.
func (r *acctRun) resultAcc(o Outcome, st *State, rule string) (n Node, p PtrV, ok bool) {
	i, isI := o.ret[0].(IfaceV)
	if !r.c.mustSt(isI && i.typ != nil && shortType(i.typ) == r.kind, st, rule, r.where, "%s.%s(%s) returns a %s", r.kind, r.fn.Name(), r.tx, i.Key()) {
		return nil, PtrV{}, false
	}
	p, isP := i.v.(PtrV)
	if !r.c.mustSt(isP && p.obj != nil && (p.null == nil || st.f.decide(p.null) == 0), st, rule, r.where, "%s.%s(%s) returns no account", r.kind, r.fn.Name(), r.tx) {
		return nil, PtrV{}, false
	}
	return st.load(p, 0), p, true
}

// otherFields checks all fields of the result but Value.
func (r *acctRun) otherFields(st *State, n Node, rule string) {
	u := under(r.accT).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		nm := u.Field(i).Name()
		if nm == "Value" {
			continue
		}
		got, _, _ := fieldNode(n, r.accT, nm)
		want, ft := lazyAt(r.accT, r.accS, nm)
		r.c.mustSt(got != nil && sameNode(st, got, want, ft), st, rule, r.where, "%s.%s(%s) changes %s to %s", r.kind, r.fn.Name(), r.tx, nm, clip(nodeStr(got), 200))
	}
}

func nodeStr(n Node) string {
	if n == nil {
		return "nothing"
	}
	return n.Key()
}

func nodeInt(n Node, t types.Type, name string) *Lin {
	f, ft, ok := fieldNode(n, t, name)
	if !ok {
		return nil
	}
	if v, ok := nodeVal(f, ft).(IntV); ok {
		return v.L
	}
	return nil
}

func checkA01(c *Ctx) {
	c.explained = "ApplyOutgoingTx of each account kind is analysed for symbolic accounts, transactions of each kind and heights: on every successful path the result has the same kind, Value is the old one minus value minus fee as an exact integer (hence without wrap-around), and every other field is the old one; a basic account fails only if value plus fee exceeds the balance."
	for _, k := range acctKinds {
		any := 0
		for _, t := range txKinds {
			r := c.acctCall(k, t, "ApplyOutgoingTx")
			if !r.ok() {
				continue
			}
			left := r.accInt("Value").sub(r.txInt("Value")).sub(r.txInt("Fee"))
			r.results(1, func(o Outcome, st *State) {
				any++
				c.mustSt(st.f.entails(left), st, "overspend", r.where, "%s.ApplyOutgoingTx(%s) succeeds although value plus fee may exceed the balance", k, t)
				n, _, ok := r.resultAcc(o, st, "same kind")
				if !ok {
					return
				}
				got := nodeInt(n, r.accT, "Value")
				c.mustSt(got != nil && st.f.entailsEq(got, left), st, "debit", r.where, "%s.ApplyOutgoingTx(%s) leaves a balance of %v", k, t, got)
				r.otherFields(st, n, "unchanged")
			}, func(o Outcome, st *State) {
				if k != "BasicAccount" {
					return
				}
				for _, f := range st.f.assume(bGe0(left), true) {
					c.mustSt(infeasible(f), st, "affordable", r.where, "%s.ApplyOutgoingTx(%s) fails although the balance suffices", k, t)
				}
			})
		}
		c.must(any > 0, "can pay", k, "%s.ApplyOutgoingTx succeeds on %d paths", k, any)
	}
}

func checkA02(c *Ctx) {
	c.explained = "ApplyIncomingTx of each account kind is analysed for symbolic accounts and transactions: a basic account succeeds exactly if the sum fits 64 bits, with Value equal to the exact sum and no other change; contracts never succeed. Push is analysed for symbolic blocks: the last state change credits the miner address with a transaction worth the block reward at the block's height plus the sum of all fees, and nothing else credits it."
	for _, k := range acctKinds {
		for _, t := range txKinds {
			r := c.acctCall(k, t, "ApplyIncomingTx")
			if !r.ok() {
				continue
			}
			sum := r.accInt("Value").add(r.txInt("Value"))
			room := bLin(new(big.Int).Sub(pow2(64), big1)).sub(sum)
			r.results(1, func(o Outcome, st *State) {
				if k != "BasicAccount" {
					c.mustSt(false, st, "contract refuses", r.where, "%s.ApplyIncomingTx(%s) succeeds", k, t)
					return
				}
				n, _, ok := r.resultAcc(o, st, "same kind")
				if !ok {
					return
				}
				got := nodeInt(n, r.accT, "Value")
				c.mustSt(got != nil && st.f.entailsEq(got, sum), st, "credit", r.where, "%s.ApplyIncomingTx(%s) leaves a balance of %v", k, t, got)
				r.otherFields(st, n, "unchanged")
			}, func(o Outcome, st *State) {
				if k != "BasicAccount" {
					c.must(true, "contract refuses", r.where, "%s.ApplyIncomingTx(%s) fails", k, t)
					return
				}
				for _, f := range st.f.assume(bGe0(room), true) {
					c.mustSt(infeasible(f), st, "receivable", r.where, "%s.ApplyIncomingTx(%s) fails although the sum fits", k, t)
				}
			})
		}
	}
	minerCredit(c)
}

// pureRun checks that no object existing before the call was changed.
func (c *Ctx) unmodified(o Outcome, rule, where, what string) bool {
	ok := true
	st0 := newState()
	var objs []*Obj
	for ob := range o.st.h {
		objs = append(objs, ob)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].key < objs[j].key })
	for _, ob := range objs {
		if ob.isNew() {
			continue
		}
		was, is := st0.content(ob), o.st.content(ob)
		if nodeKeyDeep(was) == nodeKeyDeep(is) {
			continue
		}
		if ob.typ != nil && o.st.f.decide(nodeEq(o.st, was, is, ob.typ)) == 1 {
			continue
		}
		ok = false
		c.mustSt(false, o.st, rule, where, "%s changes %s to %s", what, clip(ob.key, 80), clip(is.Key(), 200))
	}
	if ok {
		c.must(true, rule, where, "%s changes nothing that existed before", what)
	}
	return ok
}

func checkA03(c *Ctx) {
	c.explained = "Every path of ApplyOutgoingTx, ApplyIncomingTx, Balance, Type and IsEmpty of each account kind is analysed with its effects: every object that existed before the call (account, transaction, its byte slices, package variables) has its old content, and a returned account is a new object."
	for _, k := range acctKinds {
		for _, m := range []string{"ApplyOutgoingTx", "ApplyIncomingTx"} {
			for _, t := range txKinds {
				r := c.acctCall(k, t, m)
				if !r.ok() {
					continue
				}
				for _, o := range r.outs {
					if o.pan != nil || infeasible(o.st.f) {
						continue
					}
					c.unmodified(o, "unmodified", r.where, k+"."+m+"("+t+")")
				}
				r.results(1, func(o Outcome, st *State) {
					_, p, ok := r.resultAcc(o, st, "new account")
					if ok {
						c.mustSt(p.obj.isNew(), st, "new account", r.where, "%s.%s(%s) returns an existing account", k, m, t)
					}
				}, nil)
			}
		}
		for _, m := range []string{"Balance", "Type", "IsEmpty"} {
			for _, g := range c.getter(k, m) {
				c.unmodified(g, "unmodified", k+"."+m, k+"."+m)
			}
		}
	}
}

// getter runs a method without arguments on a symbolic account.
func (c *Ctx) getter(kind, m string) (out []Outcome) {
	T := wireT(kind)
	fn := methodSel(types.NewPointer(T), m)
	if !c.must(fn != nil, "anchored", kind, "method %s of %s", m, kind) {
		return nil
	}
	P.body(fn)
	ip := newInterp()
	for _, o := range c.run(ip, kind+"."+m, func() []Outcome {
		return ip.exec(newState(), fn, []Val{PtrV{obj: lazyObj(mkSym(kind), T)}}, nil, 0)
	}) {
		if infeasible(o.st.f) {
			continue
		}
		if o.pan != nil {
			c.mustSt(false, o.st, "no panic", P.pos(o.pan.pos), "%s.%s can panic: %s", kind, m, o.pan)
			continue
		}
		out = append(out, o)
	}
	return
}

// affordable: value plus fee do not exceed the balance.
func (r *acctRun) affordable(w *rule, st *State, k func(*State, *Lin)) {
	left := r.accInt("Value").sub(r.txInt("Value")).sub(r.txInt("Fee"))
	w.need(st, bGe0(left), "value plus fee within the balance", func(st *State) { k(st, left) })
}

// bytesRule prepares the walker for a byte field of the transaction.
func (r *acctRun) over(w *rule, field string) {
	q := lazySeq(r.txT, r.txS, field)
	if len(q.segs) != 1 || q.segs[0].kind != sRaw {
		unsupported(0, "field %s is not a byte string", field)
	}
	w.src, w.n = q.segs[0].src, q.segs[0].n
}

// signer is the address a signature proof at off names.
func (w *rule) signer(off *Lin) Seq {
	T := wireT("MerklePath")
	s := mkSym("merkleRoot", NodeV{LazyN{T, decSym("MerklePath", w.src, off.addc(32))}}, SeqV{rawSeq(w.src, off, cLin(32))})
	return rawSeq(s, cLin(0), cLin(20))
}

// proof: a signature proof at off that names addr; k continues behind it.
func (w *rule) proof(st *State, off *Lin, addr Seq, who string, k func(*State, *Lin)) {
	w.item(st, nil, nil, ref("SignatureProof"), off, "proof of the "+who, func(st *State, end *Lin) {
		w.need(st, seqEqBool(st.f, w.signer(off), addr), "the proof names the "+who, func(st *State) { k(st, end) })
	})
}

func (w *rule) end(st *State, off *Lin, k func(*State)) {
	w.need(st, bEq0(w.n.sub(off)), "nothing follows the last item", k)
}

func checkA04(c *Ctx) {
	c.explained = "ApplyOutgoingTx of an HTLC is analysed for symbolic contract, transaction and height: every successful path implies one of the three documented proof forms over the bytes of the transaction's proof (the rule is written down separately in sa/cacct.go), every failing path is inconsistent with all of them. The signer of a proof is an uninterpreted function of its key and Merkle path (see A14)."
	c.assume = append(c.assume, "a transaction's signature itself is not verified by this library; a proof naming a signer is taken as given")
	r := c.acctCall("HTLCAccount", "BasicTx", "ApplyOutgoingTx")
	if r.ok() {
		r.results(1, func(o Outcome, st *State) {
			c.mustSt(false, st, "needs proof", r.where, "an HTLC pays a basic transaction")
		}, nil)
	}
	r = c.acctCall("HTLCAccount", "ExtendedTx", "ApplyOutgoingTx")
	if !r.ok() {
		return
	}
	timeout := r.accInt("Timeout")
	r.iff("HTLC rule", func(w *rule, st *State, k func(*State)) {
		r.over(w, "Proof")
		r.affordable(w, st, func(st *State, _ *Lin) {
			w.need(st, bGe0(w.n.addc(-1)), "proof present", func(st *State) {
				w.tag(st, cLin(0), []int64{1, 2, 3}, "proof form", func(st *State, v int64) {
					if infeasible(st.f) {
						return
					}
					switch v {
					case 1:
						w.need(st, bGe0(timeout.sub(r.height)), "height up to the timeout", func(st *State) {
							w.need(st, bGe0(w.n.addc(-67)), "67 bytes before the signature proof", func(st *State) {
								w.need(st, bEq0(w.at(cLin(1), 1).sub(r.accInt("Hash", "Algorithm"))), "the contract's hash algorithm", func(st *State) {
									w.need(st, seqEqBool(st.f, rawSeq(w.src, cLin(3), cLin(32)), r.accSeq("Hash", "Bytes")), "the contract's hash root", func(st *State) {
										w.proof(st, cLin(67), r.accSeq("Recipient"), "recipient", func(st *State, e *Lin) { w.end(st, e, k) })
									})
								})
							})
						})
					case 2:
						w.proof(st, cLin(1), r.accSeq("Recipient"), "recipient", func(st *State, e *Lin) {
							w.proof(st, e, r.accSeq("Sender"), "sender", func(st *State, e *Lin) { w.end(st, e, k) })
						})
					case 3:
						w.need(st, bGe0(r.height.sub(timeout).addc(-1)), "height after the timeout", func(st *State) {
							w.proof(st, cLin(1), r.accSeq("Sender"), "sender", func(st *State, e *Lin) { w.end(st, e, k) })
						})
					}
				})
			})
		})
	})
}

func checkA05(c *Ctx) {
	c.explained = "ApplyOutgoingTx of a vesting contract is analysed for symbolic contract, transaction and height: every successful path implies, and every failing path contradicts, the conjunction of: balance suffices; one signature proof naming the owner fills the proof bytes; the rest is at least the locked amount by the documented schedule, computed over unbounded integers."
	c.assume = append(c.assume, "a transaction's signature itself is not verified by this library; a proof naming a signer is taken as given")
	r := c.acctCall("VestingAccount", "BasicTx", "ApplyOutgoingTx")
	if r.ok() {
		r.results(1, func(o Outcome, st *State) {
			c.mustSt(false, st, "needs proof", r.where, "a vesting contract pays a basic transaction")
		}, nil)
	}
	r = c.acctCall("VestingAccount", "ExtendedTx", "ApplyOutgoingTx")
	if !r.ok() {
		return
	}
	since := r.height.sub(r.accInt("VestingStart"))
	blocks, amount, total := r.accInt("VestingStepBlocks"), r.accInt("VestingStepAmount"), r.accInt("VestingTotalAmount")
	r.iff("vesting rule", func(w *rule, st *State, k func(*State)) {
		r.over(w, "Proof")
		r.affordable(w, st, func(st *State, left *Lin) {
			w.proof(st, cLin(0), r.accSeq("Owner"), "owner", func(st *State, e *Lin) {
				w.end(st, e, func(st *State) {
					cases := func(b *Bool, st *State, t, f func(*State)) {
						yes, no := split(st, b, 0)
						for _, s := range yes {
							if !infeasible(s.f) {
								t(s)
							}
						}
						for _, s := range no {
							if !infeasible(s.f) {
								f(s)
							}
						}
					}
					cases(bGe0(since.neg()), st, func(st *State) {
						w.need(st, bGe0(left.sub(r.accInt("Value"))), "nothing is released up to the start height", k)
					}, func(st *State) {
						cases(bEq0(blocks), st, k, func(st *State) {
							cases(bEq0(amount), st, k, func(st *State) {
								steps := mkSDiv(since, blocks)
								p := steps.mul(amount)
								mulFacts(st.f, steps, amount)
								mulFacts(st.f, amount, steps)
								w.need(st, bGe0(left.add(p).sub(total)), "the amount of the remaining steps stays", k)
							})
						})
					})
				})
			})
		})
	})
}

// mulFacts relates x*y with quotients t/y: x <= t/y iff x*y <= t.
func mulFacts(f *Facts, x, y *Lin) {
	p := x.mul(y)
	for _, a := range append([]*Atom{}, atomList...) {
		if a.head != "sdiv" || len(a.fv) > 0 || a.args[1].(IntV).L.Key() != y.Key() {
			continue
		}
		t := a.args[0].(IntV).L
		if f.entails(a.lin().sub(x)) {
			f.addGE(t.sub(p))
		}
		if f.entails(x.sub(a.lin()).addc(-1)) {
			f.addGE(p.sub(t).addc(-1))
		}
	}
}

func checkA06(c *Ctx) {
	c.explained = "Init of each account kind is analysed on a zero account for symbolic transactions, heights and balances: every successful path implies one of the documented creation data layouts, and every field of the account is the stated field of data or transaction; every failing path contradicts all layouts."
	for _, t := range txKinds {
		r := c.acctCall("BasicAccount", t, "Init")
		if r.ok() {
			r.results(0, func(o Outcome, st *State) {
				c.mustSt(false, st, "basic account", r.where, "a basic account is created by a transaction")
			}, func(o Outcome, st *State) { c.must(true, "basic account", r.where, "refused") })
		}
	}
	for _, k := range acctKinds[1:] {
		r := c.acctCall(k, "BasicTx", "Init")
		if r.ok() {
			r.results(0, func(o Outcome, st *State) {
				c.mustSt(false, st, "basic transaction", r.where, "%s is created by a basic transaction", k)
			}, func(o Outcome, st *State) { c.must(true, "basic transaction", r.where, "refused") })
		}
	}
	r := c.acctCall("VestingAccount", "ExtendedTx", "Init")
	if r.ok() {
		val := r.txInt("Value")
		r.iff("vesting creation", func(w *rule, st *State, k func(*State)) {
			r.over(w, "Data")
			be := func(off, n int64) *Lin { return w.at(cLin(off), n) }
			done := func(st *State, start, amount, total *Lin, blocksAt int64) {
				r.fieldIs(w, st, "Owner", nil, rawSeq(w.src, cLin(0), cLin(20)))
				r.fieldIs(w, st, "VestingStart", start, Seq{})
				r.fieldIs(w, st, "VestingStepBlocks", be(blocksAt, 4), Seq{})
				r.fieldIs(w, st, "VestingStepAmount", amount, Seq{})
				r.fieldIs(w, st, "VestingTotalAmount", total, Seq{})
				r.fieldIs(w, st, "Value", r.extra, Seq{})
				k(st)
			}
			rest := []*State{st}
			for _, n := range []int64{24, 36, 44} {
				var next []*State
				for _, s := range rest {
					yes, no := split(s, bEq0(w.n.addc(-n)), 0)
					next = append(next, no...)
					for _, s := range yes {
						if infeasible(s.f) {
							continue
						}
						switch n {
						case 24:
							done(s, cLin(0), val, val, 20)
						case 36:
							done(s, be(20, 4), be(28, 8), val, 24)
						case 44:
							done(s, be(20, 4), be(28, 8), be(36, 8), 24)
						}
					}
				}
				rest = next
			}
			if w.assume {
				return
			}
			for _, s := range rest {
				c.mustSt(infeasible(s.f), s, "vesting creation", r.where, "creation data of a length other than 24, 36 or 44 is accepted")
			}
		})
	}
	r = c.acctCall("HTLCAccount", "ExtendedTx", "Init")
	if r.ok() {
		r.iff("HTLC creation", func(w *rule, st *State, k func(*State)) {
			r.over(w, "Data")
			w.need(st, bEq0(w.n.addc(-78)), "78 bytes of creation data", func(st *State) {
				w.need(st, bNeg(bEq0(w.at(cLin(73), 1))), "hash count above zero", func(st *State) {
					r.fieldIs(w, st, "Sender", nil, rawSeq(w.src, cLin(0), cLin(20)))
					r.fieldIs(w, st, "Recipient", nil, rawSeq(w.src, cLin(20), cLin(20)))
					r.fieldIs(w, st, "Hash.Algorithm", w.at(cLin(40), 1), Seq{})
					r.fieldIs(w, st, "Hash.Bytes", nil, rawSeq(w.src, cLin(41), cLin(32)))
					r.fieldIs(w, st, "HashCount", w.at(cLin(73), 1), Seq{})
					r.fieldIs(w, st, "Timeout", w.at(cLin(74), 4), Seq{})
					r.fieldIs(w, st, "TotalAmount", r.txInt("Value"), Seq{})
					r.fieldIs(w, st, "Value", r.extra, Seq{})
					k(st)
				})
			})
		})
	}
	createRule(c)
}

// fieldIs checks a field of the initialised account.
func (r *acctRun) fieldIs(w *rule, st *State, name string, want *Lin, seq Seq) {
	if w.assume {
		return
	}
	n, t := st.content(r.acc), r.accT
	for _, p := range splitDots(name) {
		var ok bool
		n, t, ok = fieldNode(n, t, p)
		if !r.c.mustSt(ok, st, "created field", r.where, "field %s of %s is missing", name, r.kind) {
			return
		}
	}
	if want != nil {
		v, ok := nodeVal(n, t).(IntV)
		r.c.mustSt(ok && st.f.entailsEq(v.L, want), st, "created field", r.where, "%s.Init sets %s to %s, expected is %s", r.kind, name, clip(n.Key(), 200), want.Key())
		return
	}
	b, ok := expand(n).(BytesN)
	r.c.mustSt(ok && seqEqual(st.f, b.S, seq), st, "created field", r.where, "%s.Init sets %s to %s, expected is %s", r.kind, name, clip(n.Key(), 200), seq.Key())
}

func splitDots(s string) (out []string) {
	cur := ""
	for _, r := range s {
		if r == '.' {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(r)
	}
	return append(out, cur)
}

func checkA15(c *Ctx) {
	c.explained = "AccountEq is analysed for every pair of account kinds (and missing accounts) with independent symbolic content: a true result implies the same kind and equality of every field, a false result contradicts it. Balance, Type and IsEmpty of each kind are compared with the Value field and the kind's tag."
	fn := repoFn("wire", "AccountEq")
	where := fnPos(fn)
	it := fn.Params[0].Type()
	kinds := append([]string{""}, acctKinds...)
	for _, a := range kinds {
		for _, b := range kinds {
			mk := func(k, s string) (Val, Node) {
				if k == "" {
					return IfaceV{}, nil
				}
				T := wireT(k)
				o := lazyObj(mkSym(s+":"+k), T)
				return mkIface(PtrV{obj: o}, types.NewPointer(T), it), LazyN{T, mkSym(s + ":" + k)}
			}
			x, nx := mk(a, "acc1")
			y, ny := mk(b, "acc2")
			ip := newInterp()
			for _, o := range c.run(ip, "wire.AccountEq("+a+","+b+")", func() []Outcome {
				return ip.exec(newState(), fn, []Val{x, y}, nil, 0)
			}) {
				if infeasible(o.st.f) {
					continue
				}
				if o.pan != nil {
					c.mustSt(false, o.st, "no panic", P.pos(o.pan.pos), "AccountEq(%s, %s) panics: %s", a, b, o.pan)
					continue
				}
				r, ok := o.ret[0].(BoolV)
				if !c.mustSt(ok, o.st, "account equality", where, "no result for %s and %s", a, b) {
					continue
				}
				yes, no := split(o.st, r.B, 0)
				if a == "" || b == "" || a != b {
					for _, s := range yes {
						c.mustSt(infeasible(s.f), s, "account equality", where, "accounts %q and %q compare equal", a, b)
					}
					for range no {
						c.must(true, "account equality", where, "%q and %q differ", a, b)
					}
					continue
				}
				T := wireT(a)
				u := under(T).(*types.Struct)
				for _, s := range yes {
					for i := 0; i < u.NumFields(); i++ {
						nm := u.Field(i).Name()
						fx, ft, _ := fieldNode(nx, T, nm)
						fy, _, _ := fieldNode(ny, T, nm)
						c.mustSt(infeasible(s.f) || sameNode(s, fx, fy, ft), s, "account equality", where, "two %s accounts compare equal although %s may differ", a, nm)
					}
				}
				for _, s := range no {
					for _, f := range s.f.assume(nodeEq(s, nx, ny, T), true) {
						c.mustSt(infeasible(f), s, "account equality", where, "two equal %s accounts compare unequal", a)
					}
				}
			}
		}
	}
	for _, k := range acctKinds {
		T := wireT(k)
		val := lazyInt(T, mkSym(k), "Value")
		for _, o := range c.getter(k, "Balance") {
			v, ok := o.ret[0].(IntV)
			c.mustSt(ok && o.st.f.entailsEq(v.L, val), o.st, "own balance", k+".Balance", "%s.Balance is %s", k, o.ret[0].Key())
		}
		for _, o := range c.getter(k, "Type") {
			v, ok := o.ret[0].(IntV)
			c.mustSt(ok && o.st.f.entailsEq(v.L, cLin(acctTags[k])), o.st, "own type", k+".Type", "%s.Type is %s", k, o.ret[0].Key())
		}
		for _, o := range c.getter(k, "IsEmpty") {
			v, ok := o.ret[0].(BoolV)
			good := ok
			if ok {
				yes, no := split(o.st, v.B, 0)
				for _, s := range yes {
					good = good && (infeasible(s.f) || s.f.entailsEq(val, cLin(0)))
				}
				for _, s := range no {
					for _, f := range s.f.assume(bEq0(val), true) {
						good = good && infeasible(f)
					}
				}
			}
			c.mustSt(good, o.st, "own emptiness", k+".IsEmpty", "%s.IsEmpty is %s", k, o.ret[0].Key())
		}
	}
}
