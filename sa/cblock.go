package main

// A07-A11 and parts of A02, A06: the rules of block application over the summary of Accounts.Push.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	checks["A07"] = checkA07
	checks["A08"] = checkA08
	checks["A09"] = checkA09
	checks["A10"] = checkA10
	checks["A11"] = checkA11
}

var two64 = new(big.Int).Lsh(big1, 64)

// terms of the block

func (r *pushRun) header(name string) *Lin { return lazyInt(wireT("Block"), r.block, "Header", name) }

func (r *pushRun) bodyPtr() PtrV {
	n, t := lazyAt(wireT("Block"), r.block, "Body")
	p, ok := nodeVal(n, t).(PtrV)
	if !ok || p.obj == nil {
		unsupported(0, "Block.Body is not a pointer")
	}
	return p
}

func (r *pushRun) body(name string) (Node, types.Type) {
	n, t, ok := fieldNode(newState().load(r.bodyPtr(), 0), wireT("BlockBody"), name)
	if !ok {
		unsupported(0, "field %s of BlockBody is missing", name)
	}
	return n, t
}

func (r *pushRun) list(name string) SliceV {
	n, t := r.body(name)
	s, ok := nodeVal(n, t).(SliceV)
	if !ok {
		unsupported(0, "BlockBody.%s is not a slice", name)
	}
	return s
}

func (r *pushRun) elem(name string, k *Lin, fields ...string) (Node, types.Type) {
	s := r.list(name)
	_, t := r.body(name)
	et := under(t).(*types.Slice).Elem()
	n := newState().load(ptrIndex(PtrV{obj: s.obj, path: s.path}, s.off.add(k)), 0)
	for _, f := range fields {
		var ok bool
		n, et, ok = fieldNode(n, et, f)
		if !ok {
			unsupported(0, "field %s of %s is missing", f, et)
		}
	}
	return n, et
}

func (r *pushRun) tx(k *Lin) IfaceV {
	n, t := r.elem("Txs", k, "Tx")
	i, ok := nodeVal(n, t).(IfaceV)
	if !ok || i.sym == nil {
		unsupported(0, "Txs[k].Tx is not a symbolic transaction")
	}
	return i
}

func (r *pushRun) txSym(k *Lin) *Sym           { return mkSym("content", SymV{r.tx(k).sym}) }
func (r *pushRun) txInt(k *Lin, n string) *Lin { return lazyInt(wireT("TxContent"), r.txSym(k), n) }
func (r *pushRun) txAddr(k *Lin, n string) Seq { return lazySeq(wireT("TxContent"), r.txSym(k), n) }
func (r *pushRun) creates(k *Lin) *Bool {
	fl := r.txInt(k, "Flags")
	return bEq0(fl.sub(mkDiv(fl, bi(2)).mulc(bi(2))).addc(-1))
}
func (r *pushRun) miner() Seq {
	n, _ := r.body("MinerAddr")
	b, ok := expand(n).(BytesN)
	if !ok {
		unsupported(0, "MinerAddr is not a byte array")
	}
	return b.S
}
func (r *pushRun) reward() *Lin {
	return symInt(mkSym("reward", IntV{r.header("Height")}), types.Typ[types.Uint64])
}

// fees is the sum of the fees of the first n transactions.
func (r *pushRun) fees(n *Lin) *Lin {
	k := mkAtom("k", []Val{StrLit("fee")}, big0, maxLen)
	return mkSum(k, r.txInt(k.lin(), "Fee"), n)
}

func typeOf(s *Sym) *Lin   { return symInt(mkSym("type", SymV{s}), types.Typ[types.Uint8]) }
func emptyOf(s *Sym) *Bool { return bPred("empty", SymV{s}) }

// acctEqB mirrors the contract of AccountEq in pushHooks.
func acctEqB(a, b Val) *Bool {
	if b.Key() < a.Key() {
		a, b = b, a
	}
	return bAnd2(bAnd2(bNeg(isNilVal(a)), bNeg(isNilVal(b))), bPred("acctEq", a, b))
}

func holds(f *Facts, b *Bool) bool {
	if f.decide(b) == 1 {
		return true
	}
	for _, g := range f.assume(b, false) {
		if !infeasible(g) {
			return false
		}
	}
	return true
}

// steps

type phase struct {
	ev   Event
	evs  []Event // without loop: the single step with its reads
	kind string
}

var effectKinds = map[string]bool{"out": true, "in": true, "init": true, "put": true, "flush": true}

func hasEffect(evs []Event) bool {
	for _, e := range evs {
		if e.loop != nil {
			for _, a := range e.loop.alts {
				if hasEffect(a.ev) {
					return true
				}
			}
		} else if effectKinds[e.kind] {
			return true
		}
	}
	return false
}

func effectsOf(evs []Event) (out []Event) {
	for _, e := range evs {
		if e.loop != nil {
			if hasEffect([]Event{e}) {
				out = append(out, e)
			}
		} else if effectKinds[e.kind] {
			out = append(out, e)
		}
	}
	return
}

func kindsOf(evs []Event) string {
	var ks []string
	for _, e := range evs {
		if e.loop != nil {
			m := map[string]bool{}
			for _, a := range e.loop.alts {
				for _, x := range a.ev {
					if effectKinds[x.kind] {
						m[x.kind] = true
					}
				}
			}
			var l []string
			for _, k := range []string{"out", "in", "init", "put", "flush"} {
				if m[k] {
					l = append(l, k)
				}
			}
			ks = append(ks, "loop("+strings.Join(l, ",")+")")
			continue
		}
		ks = append(ks, e.kind)
	}
	return strings.Join(ks, " ")
}

// loopOf finds the loop of a phase, by the kind of its application step.
func loopOf(evs []Event, kind string) *Event {
	for i, e := range evs {
		if e.loop == nil {
			continue
		}
		for _, a := range e.loop.alts {
			for _, x := range a.ev {
				if x.kind == kind {
					return &evs[i]
				}
			}
		}
	}
	return nil
}

// gotten is the address and store an account symbol was read from, in the given events.
func gotten(evs []Event, v Val) (store Val, addr Seq, at int, ok bool) {
	i, isI := v.(IfaceV)
	if !isI || i.sym == nil {
		return nil, Seq{}, 0, false
	}
	for j, e := range evs {
		if e.loop == nil && e.kind == "get" && e.args[2].(SymV).S.Key() == i.sym.Key() {
			return e.args[0], e.args[1].(SeqV).S, j, true
		}
	}
	return nil, Seq{}, 0, false
}

// readHere reports whether the account was read at addr with no write between the read and event number to.
func readHere(f *Facts, evs []Event, v Val, addr Seq, to int) bool {
	_, a, at, ok := gotten(evs, v)
	if !ok || !seqEqual(f, a, addr) || at > to {
		return false
	}
	for _, e := range evs[at:to] {
		if e.loop != nil && hasEffect([]Event{e}) || e.kind == "put" {
			return false
		}
	}
	return true
}

func sameVal(f *Facts, a, b Val) bool {
	if a.Key() == b.Key() {
		return true
	}
	x, ok := a.(IntV)
	y, ok2 := b.(IntV)
	return ok && ok2 && f.entailsEq(x.L, y.L)
}

// success visits the feasible accepted blocks, reject the rejected ones.
func (r *pushRun) each(success, reject func(o Outcome, st *State)) {
	for _, o := range r.outs {
		if o.pan != nil {
			continue
		}
		yes, no := split(o.st, isNilVal(o.ret[len(o.ret)-1]), 0)
		for _, s := range yes {
			if !infeasible(s.f) && success != nil {
				success(o, s)
			}
		}
		for _, s := range no {
			if !infeasible(s.f) && reject != nil {
				reject(o, s)
			}
		}
	}
}

func (r *pushRun) ok(c *Ctx) bool {
	if r == nil {
		return false
	}
	n := 0
	r.each(func(Outcome, *State) { n++ }, nil)
	return c.must(n > 0, "analysable", r.where, "Push can succeed")
}

// noTxs: an accepted path on which the block has no transactions needs no loops.
func (r *pushRun) noTxs(st *State) bool { return holds(st.f, bEq0(r.list("Txs").len)) }

// phases splits the effects of an accepted path into the five steps and the final flush.
type plan struct {
	send, recv, create, prune *Event
	tail                      []Event // effects after the loops
	all                       []Event
}

func (r *pushRun) plan(c *Ctx, st *State, rule string) *plan {
	p := &plan{}
	ef := effectsOf(st.ev)
	p.all = ef
	// loops in order
	i := 0
	take := func(kind string) *Event {
		if i < len(ef) && ef[i].loop != nil {
			l := loopKind(ef[i])
			if l == kind {
				i++
				return &ef[i-1]
			}
		}
		return nil
	}
	p.send, p.recv, p.create, p.prune = take("out"), take("in"), take("init"), take("put")
	p.tail = ef[i:]
	for _, e := range p.tail {
		if e.loop != nil {
			c.mustSt(false, st, rule, P.pos(e.pos), "the steps of an accepted block are %q, expected: debit all senders, credit all recipients, create contracts, prune, pay the miner", kindsOf(ef))
			return nil
		}
	}
	missing := p.send == nil || p.recv == nil || p.create == nil || p.prune == nil
	if missing && !r.noTxs(st) {
		c.mustSt(false, st, rule, r.where, "the steps of an accepted block are %q, expected: debit all senders, credit all recipients, create contracts, prune, pay the miner", kindsOf(ef))
		return nil
	}
	return p
}

// loopKind is the application step a loop performs.
func loopKind(e Event) string {
	ks := map[string]bool{}
	for _, a := range e.loop.alts {
		for _, x := range a.ev {
			if x.loop != nil {
				if hasEffect([]Event{x}) {
					ks["nested"] = true
				}
				continue
			}
			if effectKinds[x.kind] {
				ks[x.kind] = true
			}
		}
	}
	n := 0
	k := ""
	for _, x := range []string{"out", "in", "init", "flush", "nested"} {
		if ks[x] {
			n++
			k = x
		}
	}
	if n == 1 {
		return k
	}
	if n == 0 && ks["put"] {
		return "put"
	}
	return "mixed"
}

// altsOf visits the feasible alternatives of a loop over all transactions.
func (r *pushRun) altsOf(c *Ctx, st *State, e *Event, what string, list string, visit func(a Alt, s *State, k *Lin)) {
	if e == nil {
		return
	}
	c.mustSt(st.f.entailsEq(e.loop.n, r.list(list).len), st, "all of the list", P.pos(e.pos), "%s covers %s of %s entries", what, e.loop.n.Key(), r.list(list).len.Key())
	for _, a := range e.loop.alts {
		if a.f != nil && infeasible(a.f) {
			continue
		}
		s := st.clone()
		s.f = a.f
		visit(a, s, e.loop.k.lin())
	}
}

// applied checks one application step followed by storing its result at the same address.
func (r *pushRun) applied(c *Ctx, s *State, evs []Event, kind string, tx Val, addr Seq, what string) (*Event, bool) {
	ef := effectsOf(evs)
	if !c.mustSt(len(ef) == 2 && ef[0].kind == kind && ef[1].kind == "put", s, "each step once", r.where, "%s: the steps are %q, expected one %s and one put", what, kindsOf(ef), kind) {
		return nil, false
	}
	var at int
	for i, e := range evs {
		if e.loop == nil && e.kind == kind {
			at = i
		}
	}
	a, p := ef[0], ef[1]
	ok := c.mustSt(readHere(s.f, evs, a.args[0], addr, at), s, "current account", P.pos(a.pos), "%s: the account is %s, expected the one read at %s just before", what, clip(a.args[0].Key(), 200), clip(addr.Key(), 200))
	if tx != nil {
		ok = c.mustSt(a.args[1].Key() == tx.Key(), s, "right transaction", P.pos(a.pos), "%s: the transaction is %s, expected %s", what, clip(a.args[1].Key(), 200), clip(tx.Key(), 200)) && ok
	}
	ok = c.mustSt(sameVal(s.f, a.args[2], IntV{r.header("Height")}), s, "block height", P.pos(a.pos), "%s: the height is %s, not the height of the block", what, a.args[2].Key()) && ok
	ok = c.mustSt(seqEqual(s.f, p.args[1].(SeqV).S, addr), s, "stored at its address", P.pos(p.pos), "%s: the result is stored at %s, expected %s", what, clip(p.args[1].Key(), 200), clip(addr.Key(), 200)) && ok
	res, isI := p.args[2].(IfaceV)
	ok = c.mustSt(isI && res.sym != nil && res.sym.Key() == a.args[3].(SymV).S.Key(), s, "result stored", P.pos(p.pos), "%s: stores %s instead of the resulting account", what, clip(p.args[2].Key(), 200)) && ok
	return &a, ok
}

func checkA09(c *Ctx) {
	c.explained = "Accounts.Push is analysed for a symbolic block with any number of transactions; loops become summaries of one iteration each. On every accepted path the state-changing steps must be, in this order: a loop over all transactions applying each transaction to its sender and storing the result at the sender, the same for recipients, a loop creating a contract for exactly the transactions with the creation flag, the prune loop, one credit of the miner, the flush; each step uses the k-th transaction in iteration k, the account currently stored at that address, and the height in the header. On every rejected path one of the specified reasons for rejection must hold."
	r := c.push()
	if !r.ok(c) {
		return
	}
	r.each(func(o Outcome, st *State) {
		p := r.plan(c, st, "step order")
		if p == nil {
			return
		}
		c.mustSt(kindsOf(p.tail) == "in put flush", st, "step order", r.where, "after the transactions an accepted block performs %q, expected the miner's credit and the flush", kindsOf(p.tail))
		r.altsOf(c, st, p.send, "debiting senders", "Txs", func(a Alt, s *State, k *Lin) {
			r.applied(c, s, a.ev, "out", r.tx(k), r.txAddr(k, "Sender"), "debiting the sender")
		})
		r.altsOf(c, st, p.recv, "crediting recipients", "Txs", func(a Alt, s *State, k *Lin) {
			r.applied(c, s, a.ev, "in", r.tx(k), r.txAddr(k, "Recipient"), "crediting the recipient")
		})
		r.altsOf(c, st, p.create, "creating contracts", "Txs", func(a Alt, s *State, k *Lin) {
			n := len(effectsOf(a.ev))
			if n == 0 {
				c.mustSt(holds(s.f, bNeg(r.creates(k))), s, "every contract", r.where, "a transaction may have the creation flag without a contract being created")
				return
			}
			c.mustSt(holds(s.f, r.creates(k)), s, "only contracts", r.where, "a contract may be created for a transaction without the creation flag")
			r.created(c, a, s, k, false)
		})
	}, func(o Outcome, st *State) {
		r.justified(c, o, st)
	})
}

// justified checks that a rejected block violates one of the rules.
func (r *pushRun) justified(c *Ctx, o Outcome, st *State) {
	h := r.header("Height")
	reasons := []*Bool{isNilVal(r.bodyPtr()), bEq0(h)}
	ks := []*Lin{cLin(0)}
	for _, e := range st.ev {
		if e.loop != nil {
			ks = append(ks, e.loop.n)
		}
	}
	// unfinished loops without effects
	for _, a := range loopAtoms(st) {
		ks = append(ks, a.lin())
	}
	body := !holds(st.f, isNilVal(r.bodyPtr()))
	for i, e := range st.ev {
		if e.loop != nil || !body {
			continue
		}
		switch e.kind {
		case "failed":
			reasons = append(reasons, bNeg(e.args[0].(BoolV).B))
		case "get":
			s, addr := e.args[2].(SymV).S, e.args[1].(SeqV).S
			if seqEqual(st.f, addr, r.miner()) {
				reasons = append(reasons, bNeg(bEq0(typeOf(s))))
			}
			for _, k := range ks {
				if seqEqual(st.f, addr, r.txAddr(k, "Sender")) {
					reasons = append(reasons, bNeg(bEq0(typeOf(s).sub(r.txInt(k, "SenderType")))))
					for _, g := range st.ev[i:] {
						if g.loop == nil && g.kind == "mapget" && byAddress(g.args[0]) {
							wrong := bTrue
							if g.args[2].(BoolV).B.val {
								wrong = bNeg(acctEqB(g.args[3], IfaceV{sym: s, ityp: wireT("Account")}))
							}
							reasons = append(reasons, bAnd2(bAnd2(emptyOf(s), bNeg(bEq0(typeOf(s)))), wrong))
						}
					}
				}
				if seqEqual(st.f, addr, r.txAddr(k, "Recipient")) {
					reasons = append(reasons, bAnd2(bNeg(r.creates(k)), bNeg(bEq0(typeOf(s).sub(r.txInt(k, "RecipientType"))))))
				}
			}
		}
	}
	if body {
		for _, k := range ks {
			t := r.txInt(k, "RecipientType")
			reasons = append(reasons, bAnd2(r.creates(k), bAnd2(bNeg(bEq0(t.addc(-1))), bNeg(bEq0(t.addc(-2))))))
			// the fees do not fit
			reasons = append(reasons, bGe0(r.reward().add(r.fees(k.addc(1))).sub(bLin(two64))))
		}
		for _, m := range pruneMaps(st.ev) {
			if n, ok := expand(st.content(m.obj)).(MapN); ok {
				reasons = append(reasons, bGe0(mapNodeLen(n).addc(-1)))
			}
		}
	}
	fs := []*Facts{st.f}
	for _, b := range reasons {
		var next []*Facts
		for _, f := range fs {
			for _, g := range f.assume(b, false) {
				if !infeasible(g) {
					next = append(next, g)
				}
			}
		}
		fs = next
	}
	c.mustSt(len(fs) == 0, st, "justified rejection", r.where, "a block may be rejected without breaking a rule (error %s)", clip(o.ret[len(o.ret)-1].Key(), 200))
}

func pruneMaps(evs []Event) (out []MapV) {
	seen := map[string]bool{}
	var walk func(evs []Event)
	walk = func(evs []Event) {
		for _, e := range evs {
			if e.loop != nil {
				for _, a := range e.loop.alts {
					walk(a.ev)
				}
				continue
			}
			if e.kind == "mapset" || e.kind == "mapdel" {
				if m, ok := e.args[0].(MapV); ok && m.obj != nil && !seen[m.obj.key] {
					seen[m.obj.key] = true
					out = append(out, m)
				}
			}
		}
	}
	walk(evs)
	return
}

// created checks the creation of one contract.
func (r *pushRun) created(c *Ctx, a Alt, s *State, k *Lin, params bool) {
	ef := effectsOf(a.ev)
	if !c.mustSt(len(ef) == 2 && ef[0].kind == "init" && ef[1].kind == "put", s, "each step once", r.where, "creating a contract: the steps are %q", kindsOf(ef)) {
		return
	}
	in, put := ef[0], ef[1]
	addr := r.txAddr(k, "Recipient")
	kind := string(in.args[0].(StrLit))
	if !params {
		c.mustSt(in.args[1].Key() == r.tx(k).Key(), s, "right transaction", P.pos(in.pos), "the contract is created from %s", clip(in.args[1].Key(), 200))
		c.mustSt(sameVal(s.f, in.args[2], IntV{r.header("Height")}), s, "block height", P.pos(in.pos), "the contract is created at height %s", in.args[2].Key())
		c.mustSt(seqEqual(s.f, put.args[1].(SeqV).S, addr), s, "stored at its address", P.pos(put.pos), "the contract is stored at %s, expected %s", clip(put.args[1].Key(), 200), clip(addr.Key(), 200))
		return
	}
	tag, known := acctTags[kind]
	c.mustSt(known && kind != "BasicAccount" && holds(s.f, bEq0(r.txInt(k, "RecipientType").addc(-tag))), s, "kind of the contract", P.pos(in.pos), "a %s is created although the transaction may name another type", kind)
	// balance of the account at the recipient
	bal := false
	for i, e := range a.ev {
		if e.loop == nil && e.kind == "get" {
			v := IfaceV{sym: e.args[2].(SymV).S, ityp: wireT("Account")}
			want := symInt(mkSym("balance", SymV{v.sym}), types.Typ[types.Uint64])
			if sameVal(s.f, in.args[3], IntV{want}) && readHere(s.f, a.ev, v, addr, i+1) {
				bal = true
			}
		}
	}
	c.mustSt(bal, s, "balance of the contract", P.pos(in.pos), "the contract is created with balance %s, expected the balance at the recipient", clip(in.args[3].Key(), 200))
	id := in.args[len(in.args)-1].(SymV).S
	i, isI := put.args[2].(IfaceV)
	same := isI && i.typ != nil && shortType(i.typ) == kind && put.args[3] != nil
	if same {
		same = sameNode(s, put.args[3].(NodeV).N, LazyN{wireT(kind), id}, wireT(kind))
	}
	c.mustSt(same, s, "contract stored", P.pos(put.pos), "%s is stored instead of the created contract", clip(put.Key(), 300))
}

func createRule(c *Ctx) {
	r := c.push()
	if !r.ok(c) {
		return
	}
	n := 0
	r.each(func(o Outcome, st *State) {
		if p := r.plan(c, st, "step order"); p != nil {
			r.altsOf(c, st, p.create, "creating contracts", "Txs", func(a Alt, s *State, k *Lin) {
				if len(effectsOf(a.ev)) > 0 {
					n++
					r.created(c, a, s, k, true)
				}
			})
		}
	}, nil)
	c.must(n >= 2, "vacuous", r.where, "contracts are created for %d kinds of transactions", n)
}

func checkA07(c *Ctx) {
	c.explained = "Over the summary of Accounts.Push: in every alternative of the sender loop the path condition implies that the sender type named by the transaction equals the type of the account it is applied to; in every alternative of the recipient loop that the transaction has the creation flag or names the type of the recipient account; in every alternative of the creation loop that no contract is created or the named type is vesting or HTLC."
	r := c.push()
	if !r.ok(c) {
		return
	}
	sends, recvs, creates := 0, 0, 0
	r.each(func(o Outcome, st *State) {
		p := r.plan(c, st, "step order")
		if p == nil {
			return
		}
		acctOf := func(a Alt, kind string) (*Sym, Event) {
			for _, e := range a.ev {
				if e.loop == nil && e.kind == kind {
					if i, ok := e.args[0].(IfaceV); ok {
						return i.sym, e
					}
				}
			}
			return nil, Event{}
		}
		r.altsOf(c, st, p.send, "debiting senders", "Txs", func(a Alt, s *State, k *Lin) {
			sends++
			y, e := acctOf(a, "out")
			c.mustSt(y != nil && holds(s.f, bEq0(typeOf(y).sub(r.txInt(k, "SenderType")))), s, "sender type", P.pos(e.pos), "a block may be accepted although a sender account does not have the type the transaction names")
		})
		r.altsOf(c, st, p.recv, "crediting recipients", "Txs", func(a Alt, s *State, k *Lin) {
			recvs++
			y, e := acctOf(a, "in")
			ok := y != nil
			if ok {
				for _, f := range s.f.assume(r.creates(k), false) {
					if !infeasible(f) && !holds(f, bEq0(typeOf(y).sub(r.txInt(k, "RecipientType")))) {
						ok = false
					}
				}
			}
			c.mustSt(ok, s, "recipient type", P.pos(e.pos), "a block may be accepted although a recipient account of a transaction without creation flag does not have the type the transaction names")
		})
		r.altsOf(c, st, p.create, "creating contracts", "Txs", func(a Alt, s *State, k *Lin) {
			creates++
			t := r.txInt(k, "RecipientType")
			bad := bAnd2(r.creates(k), bAnd2(bNeg(bEq0(t.addc(-1))), bNeg(bEq0(t.addc(-2)))))
			c.mustSt(holds(s.f, bNeg(bad)), s, "type of created contracts", r.where, "a block may be accepted although a contract-creating transaction names neither a vesting contract nor an HTLC")
		})
	}, nil)
	c.must(sends > 0 && recvs > 0 && creates > 0, "vacuous", r.where, "types are compared in %d/%d/%d alternatives", sends, recvs, creates)
}

func minerCredit(c *Ctx) {
	r := c.push()
	if !r.ok(c) {
		return
	}
	n := 0
	r.each(func(o Outcome, st *State) {
		var evs []Event
		for i, e := range st.ev {
			if e.loop != nil && hasEffect([]Event{e}) {
				evs = st.ev[i+1:]
			}
		}
		if evs == nil {
			if !r.noTxs(st) {
				return // reported by A09
			}
			evs = st.ev
		}
		var step []Event
		for _, e := range evs {
			if e.kind == "flush" {
				break
			}
			step = append(step, e)
		}
		a, ok := r.applied(c, st, step, "in", nil, r.miner(), "paying the miner")
		if !ok {
			return
		}
		n++
		tv, isT := a.args[1].(TupleV)
		if !c.mustSt(isT && strings.HasSuffix(tv.vs[0].Key(), ".BasicTx>"), st, "coinbase", P.pos(a.pos), "the miner is paid by %s, expected a basic transaction built for it", clip(a.args[1].Key(), 200)) {
			return
		}
		nd := tv.vs[1].(NodeV).N
		T := wireT("BasicTx")
		got := nodeInt(nd, T, "Value")
		want := r.reward().add(r.fees(r.list("Txs").len))
		c.mustSt(got != nil && st.f.entailsEq(got, want), st, "reward and fees", P.pos(a.pos), "the miner is paid %s, expected %s", clip(linKey(got), 300), clip(want.Key(), 300))
		rec, _, okf := fieldNode(nd, T, "Recipient")
		b, okb := expand(rec).(BytesN)
		c.mustSt(okf && okb && seqEqual(st.f, b.S, r.miner()), st, "coinbase recipient", P.pos(a.pos), "the coinbase names %s as recipient", clip(nodeStr(rec), 200))
	}, nil)
	c.must(n > 0, "vacuous", r.where, "the miner is paid on %d paths", n)
}

func linKey(l *Lin) string {
	if l == nil {
		return "nothing"
	}
	return l.Key()
}

func checkA08(c *Ctx) {
	c.explained = "Over the summary of Accounts.Push: the prune list becomes a fresh map from each listed address to its quoted account and nothing else is ever put into that map; an iteration of the prune loop either leaves everything alone and its path condition says that the sender account is not empty or is basic, or it removes the sender from the state and from the map and its path condition says that the account is an empty contract and equal to the quoted one; a block is accepted only with an empty map. Rejections are covered by A09 (justified rejection)."
	r := c.push()
	if !r.ok(c) {
		return
	}
	removed, kept := 0, 0
	r.each(func(o Outcome, st *State) {
		p := r.plan(c, st, "step order")
		if p == nil {
			return
		}
		ms := pruneMaps(st.ev)
		noList := holds(st.f, bEq0(r.list("Pruned").len))
		if !noList {
			if !c.mustSt(len(ms) == 1 && ms[0].obj.isNew(), st, "prune list", r.where, "%d maps are filled while applying a block, expected one for the prune list", len(ms)) {
				return
			}
		} else if len(ms) == 0 {
			return
		}
		m := ms[0]
		// filling
		fills := 0
		for i, e := range st.ev {
			if e.loop == nil || !mapTouched(e.loop.alts, "mapset") {
				if e.loop == nil {
					c.mustSt(e.kind != "mapset", st, "prune list", P.pos(e.pos), "an extra entry is put into the prune map")
				}
				continue
			}
			fills++
			c.mustSt(!hasEffect([]Event{e}), st, "prune list", P.pos(e.pos), "the prune map is filled while the state changes")
			for _, x := range st.ev[:i] {
				if x.loop != nil {
					c.mustSt(!mapTouched(x.loop.alts, "mapdel", m) && !mapTouched(x.loop.alts, "mapget", m), st, "prune list", P.pos(e.pos), "the prune map is used before it is filled")
				}
			}
			r.altsOf(c, st, &e, "collecting the prune list", "Pruned", func(a Alt, s *State, k *Lin) {
				var sets []Event
				for _, x := range a.ev {
					if strings.HasPrefix(x.kind, "map") && x.kind != "mapget" {
						sets = append(sets, x)
					}
				}
				ad, at := r.elem("Pruned", k, "Address")
				ac, act := r.elem("Pruned", k, "Account", "Account")
				ok := len(sets) == 1 && sets[0].kind == "mapset"
				if ok {
					ok = keyBytes(s.f, sets[0].args[1], nodeVal(ad, at)) && sets[0].args[2].Key() == nodeVal(ac, act).Key()
				}
				c.mustSt(ok, s, "prune list", P.pos(e.pos), "an entry of the prune list is not recorded as its address and account")
			})
		}
		if !noList {
			c.mustSt(fills == 1, st, "prune list", r.where, "the prune list is collected %d times", fills)
		}
		n, isM := expand(st.content(m.obj)).(MapN)
		c.mustSt(isM && (holds(st.f, bEq0(mapNodeLen(n))) || r.noneListed(st, m)), st, "no unjustified prunes", r.where, "a block may be accepted although entries of its prune list were not pruned")
		r.altsOf(c, st, p.prune, "pruning", "Txs", func(a Alt, s *State, k *Lin) {
			addr := r.txAddr(k, "Sender")
			var acct *Sym
			for i, e := range a.ev {
				if e.loop == nil && e.kind == "get" && seqEqual(s.f, e.args[1].(SeqV).S, addr) {
					v := IfaceV{sym: e.args[2].(SymV).S}
					if readHere(s.f, a.ev, v, addr, i+1) {
						acct = v.sym
						break
					}
				}
			}
			if !c.mustSt(acct != nil, s, "sender looked at", r.where, "an iteration of the prune loop does not look at the sender account") {
				return
			}
			emptied := bAnd2(emptyOf(acct), bNeg(bEq0(typeOf(acct))))
			ef := effectsOf(a.ev)
			dels := 0
			var get *Event
			for i, e := range a.ev {
				if e.kind == "mapdel" {
					dels++
					c.mustSt(keyBytes(s.f, e.args[1], SeqV{addr}) && e.args[0].Key() == m.Key(), s, "prune map", P.pos(e.pos), "another entry than the sender's is taken off the prune list")
				}
				if e.kind == "mapget" && e.args[0].Key() == m.Key() && keyBytes(s.f, e.args[1], SeqV{addr}) && dels == 0 {
					get = &a.ev[i]
				}
			}
			if len(ef) == 0 {
				kept++
				c.mustSt(dels == 0, s, "prune map", r.where, "an entry is taken off the prune list without pruning the account")
				c.mustSt(holds(s.f, bNeg(emptied)), s, "every emptied contract", r.where, "an emptied contract may stay in the state")
				return
			}
			removed++
			nilI := false
			if len(ef) == 1 && ef[0].kind == "put" {
				if i, ok := ef[0].args[2].(IfaceV); ok {
					nilI = i.typ == nil && i.sym == nil
				}
			}
			c.mustSt(nilI && seqEqual(s.f, ef[0].args[1].(SeqV).S, addr), s, "removal", P.pos(ef[0].pos), "pruning performs %q, expected the removal of the sender", kindsOf(ef))
			c.mustSt(dels == 1, s, "prune map", r.where, "a pruned account is taken off the prune list %d times", dels)
			c.mustSt(holds(s.f, emptied), s, "only emptied contracts", r.where, "an account which is basic or not empty may be pruned")
			ok := get != nil && get.args[2].(BoolV).B.val
			if ok {
				ok = holds(s.f, acctEqB(get.args[3], IfaceV{sym: acct, ityp: wireT("Account")}))
			}
			c.mustSt(ok, s, "quoted exactly", r.where, "an account may be pruned although the prune list does not quote its exact content")
		})
	}, nil)
	c.must(removed > 0 && kept > 0, "vacuous", r.where, "%d removing and %d keeping alternatives of the prune loop", removed, kept)
}

// byAddress: m maps addresses to accounts.
func byAddress(m Val) bool {
	v, ok := m.(MapV)
	if !ok || v.obj == nil {
		return true
	}
	t, ok := under(v.obj.typ).(*types.Map)
	return !ok || types.IsInterface(t.Elem())
}

// mapTouched looks for operations on one of the given maps, or on any map.
func mapTouched(alts []Alt, kind string, ms ...MapV) bool {
	for _, a := range alts {
		for _, e := range a.ev {
			if e.loop != nil && mapTouched(e.loop.alts, kind, ms...) {
				return true
			}
			if e.kind != kind {
				continue
			}
			if len(ms) == 0 {
				return true
			}
			for _, m := range ms {
				if x, ok := e.args[0].(MapV); !ok || x.obj == nil || x.obj == m.obj {
					return true
				}
			}
		}
	}
	return false
}

// keyBytes compares byte array values.
// noneListed reports that after the last change of the map the address of every entry of the prune list,
// the only keys it can have, has been looked up and was not there.
func (r *pushRun) noneListed(st *State, m MapV) bool {
	found := false
	for _, e := range st.ev {
		if e.loop == nil {
			if e.kind == "mapset" || e.kind == "mapdel" {
				found = false
			}
			continue
		}
		if mapTouched(e.loop.alts, "mapset") || mapTouched(e.loop.alts, "mapdel") {
			found = false
			continue
		}
		all := st.f.entailsEq(e.loop.n, r.list("Pruned").len)
		for _, a := range e.loop.alts {
			if a.f != nil && infeasible(a.f) {
				continue
			}
			ad, at := r.elem("Pruned", e.loop.k.lin(), "Address")
			absent := false
			for _, x := range a.ev {
				if x.loop == nil && x.kind == "mapget" && x.args[0].Key() == m.Key() && keyBytes(a.f, x.args[1], nodeVal(ad, at)) && holds(a.f, bNeg(x.args[2].(BoolV).B)) {
					absent = true
				}
			}
			all = all && absent
		}
		found = found || all && len(e.loop.alts) > 0
	}
	return found
}

func keyBytes(f *Facts, a, b Val) bool {
	x, ok := valSeq(a)
	y, ok2 := valSeq(b)
	return ok && ok2 && seqEqual(f, x, y)
}

func valSeq(v Val) (Seq, bool) {
	switch x := v.(type) {
	case SeqV:
		return x.S, true
	case NodeV:
		if b, ok := expand(x.N).(BytesN); ok {
			return b.S, true
		}
	}
	return Seq{}, false
}

func checkA10(c *Ctx) {
	c.explained = "Accounts.Push is analysed for a symbolic block (body possibly missing, any height, any transactions and prune list) over the contracts of the account methods; Push, and each account method for each kind of transaction, must have no feasible path to a panic (index, nil, type assertion, division, explicit panic)."
	r := c.push()
	if !r.ok(c) {
		return
	}
	c.noPanics("accounts.Push", r.outs)
	for _, k := range acctKinds {
		for _, t := range txKinds {
			for _, m := range []string{"ApplyOutgoingTx", "ApplyIncomingTx", "Init"} {
				a := c.acctCall(k, t, m)
				if a != nil {
					c.noPanics(k+"."+m+"("+t+")", a.outs)
				}
			}
		}
	}
	// Push relies on what the comparison of accounts is specified to do
	eq := newCtx(c.id)
	eq.onOut = c.onOut
	checkA15(eq)
	var pan []violation
	for _, v := range eq.viol {
		if v.Rule == "no panic" || v.Rule == "analysable" || v.Rule == "anchored" {
			pan = append(pan, v)
		}
	}
	eq.viol = pan
	c.merge(eq)
	c.rewardTotal()
}

// rewardTotal: the reward of every height from 1 on is computed without panicking.
func (c *Ctx) rewardTotal() {
	fn := policyFn("BlockReward")
	r := supplySetup(c)
	if fn == nil || r == nil {
		return
	}
	ip := newInterp()
	r.rewardHook(ip)
	st := r.state()
	h := symVal(fn.Params[0].Type(), mkSym("height"))
	st.f.addGE(h.(IntV).L.addc(-1))
	c.noPanics("policy.BlockReward", c.run(ip, "policy.BlockReward", func() []Outcome { return ip.exec(st, fn, []Val{h}, nil, 0) }))
}

func checkA11(c *Ctx) {
	c.explained = "Over the summary of Accounts.Push: every read and write of accounts on every path goes to a new overlay store whose lower store is the store of the tree and which starts empty; a rejected path never flushes; an accepted path flushes exactly that overlay exactly once, as its last effect; nothing else that existed before is changed. Together with T03 (overlay stores isolate until flushed) a rejected block leaves the state unchanged."
	r := c.push()
	if !r.ok(c) {
		return
	}
	T := P.typ("accounts", "Accounts")
	n, t := lazyAt(T, r.accs, "Tree")
	tp := nodeVal(n, t).(PtrV)
	sn, stp, _ := fieldNode(newState().load(tp, 0), P.typ("tree", "PMTree"), "Store")
	orig := nodeVal(sn, stp)
	O := P.typ("tree", "OverlayStore")
	if !c.must(O != nil, "anchored", "tree", "type OverlayStore") {
		return
	}
	checked := map[string]bool{}
	overlay := func(st *State, v Val, pos string) bool {
		i, ok := v.(IfaceV)
		var p PtrV
		if ok && i.typ != nil {
			p, ok = i.v.(PtrV)
			ok = ok && p.obj != nil && p.obj.isNew() && shortType(i.typ) == "OverlayStore" && len(p.path) == 0
		} else {
			ok = false
		}
		if !c.mustSt(ok, st, "works on the overlay", pos, "accounts are read from or written to %s instead of an overlay", clip(v.Key(), 120)) {
			return false
		}
		if k := v.Key(); !checked[k] {
			checked[k] = true
			nd := st.content(p.obj)
			low, lt, _ := fieldNode(nd, O, "Lower")
			c.mustSt(nodeVal(low, lt).Key() == orig.Key(), st, "overlay over the state", pos, "the overlay lies over %s, expected the store of the tree", clip(nodeStr(low), 200))
			u := under(O).(*types.Struct)
			for j := 0; j < u.NumFields(); j++ {
				f := u.Field(j)
				if _, isMap := under(f.Type()).(*types.Map); !isMap {
					continue
				}
				mn, mt, _ := fieldNode(nd, O, f.Name())
				mv, _ := nodeVal(mn, mt).(MapV)
				empty := mv.obj == nil
				if !empty {
					x, isM := expand(st.content(mv.obj)).(MapN)
					empty = isM && x.sym == nil && len(x.ups) == 0 && mv.obj.isNew()
				}
				c.mustSt(empty, st, "overlay starts empty", pos, "the overlay does not start empty")
			}
		}
		return true
	}
	var walk func(st *State, evs []Event, key *string, flushes *int, inLoop bool)
	walk = func(st *State, evs []Event, key *string, flushes *int, inLoop bool) {
		for _, e := range evs {
			if e.loop != nil {
				for _, a := range e.loop.alts {
					walk(st, a.ev, key, flushes, true)
				}
				continue
			}
			switch e.kind {
			case "get", "put":
				if !overlay(st, e.args[0], P.pos(e.pos)) {
					continue
				}
				k := e.args[0].Key()
				if *key == "" {
					*key = k
				}
				c.mustSt(k == *key, st, "one overlay", P.pos(e.pos), "accounts are kept in two different overlays")
				c.mustSt(*flushes == 0, st, "flush last", P.pos(e.pos), "accounts are read or written after the flush")
			case "flush":
				*flushes++
				p, _ := e.args[0].(PtrV)
				c.mustSt(!inLoop, st, "flush once", P.pos(e.pos), "the overlay is flushed in a loop")
				c.mustSt(p.obj != nil && *key != "" && strings.HasSuffix(*key, p.Key()), st, "flush of the overlay", P.pos(e.pos), "%s is flushed, the changes are in %s", e.args[0].Key(), *key)
			}
		}
	}
	run := func(o Outcome, st *State, want int, what string) {
		key, fl := "", 0
		walk(st, st.ev, &key, &fl, false)
		c.mustSt(fl == want, st, "flush exactly on success", r.where, "%s block flushes its changes %d times, expected %d", what, fl, want)
		c.unmodified(Outcome{st: st, ret: o.ret}, "nothing else changed", r.where, "pushing "+what+" block")
	}
	r.each(func(o Outcome, st *State) { run(o, st, 1, "an accepted") }, func(o Outcome, st *State) { run(o, st, 0, "a rejected") })
	for _, o := range r.outs {
		if o.pan != nil && !infeasible(o.st.f) {
			c.mustSt(false, o.st, "no panic", P.pos(o.pan.pos), "Push can panic: %s", o.pan)
		}
	}
}

var _ = fmt.Sprint
