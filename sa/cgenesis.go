package main

// G01: initialising the state from a genesis profile.

import (
	"go/types"
)

func init() {
	checks["G01"] = checkG01
}

// stateHooks makes the operations on the state uninterpreted and records them as events:
// put(accounts, address, account), push(accounts, block), pushfailed, and the root hash as a function of the operations before it.
func stateHooks(ip *Interp) {
	h := codecContracts("")
	ip.preHook = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if c.fn != nil && c.fn.Signature.Recv() != nil {
			switch shortType(c.fn.Signature.Recv().Type()) + "." + c.fn.Name() {
			case "Accounts.PutAccount":
				st.emit(Event{kind: "put", args: []Val{c.args[0], SeqV{addrSeq(st, c.args[1])}, c.args[2]}, pos: c.pos})
				return ret1(st)
			case "Accounts.Push":
				p, ok := c.args[1].(PtrV)
				if !ok || p.obj == nil {
					return nil, false
				}
				blk := NodeV{foldLazy(st.load(p, c.pos))}
				pass := bPred("pushok", c.args[0], blk, IntV{cLin(int64(len(st.ev)))})
				yes, no := split(st, pass, c.pos)
				var out []Outcome
				for _, s := range yes {
					s.emit(Event{kind: "push", args: []Val{c.args[0], blk, p}, pos: c.pos})
					out = append(out, Outcome{st: s, ret: []Val{IfaceV{ityp: errType}}})
				}
				for _, s := range no {
					s.emit(Event{kind: "pushfailed", args: []Val{c.args[0], blk}, pos: c.pos})
					out = append(out, Outcome{st: s, ret: []Val{newErr("Push")}})
				}
				return out, true
			case "PMTree.Hash":
				n := 0
				for i, e := range st.ev {
					if e.loop != nil || e.kind == "put" || e.kind == "push" || e.kind == "pushfailed" {
						n = i + 1
					}
				}
				s := mkSym("treehash", c.args[0], IntV{cLin(int64(n))})
				st.emit(Event{kind: "hash", args: []Val{c.args[0], SymV{s}}, pos: c.pos})
				return ret1(st, NodeV{BytesN{rawSeq(s, cLin(0), cLin(32))}})
			}
		}
		return h(ip, st, c)
	}
}

// stateOps are the events of stateHooks, loops included.
func stateOps(evs []Event) (out []Event) {
	for _, e := range evs {
		if e.loop != nil {
			use := false
			for _, a := range e.loop.alts {
				use = use || len(stateOps(a.ev)) > 0
			}
			if use {
				out = append(out, e)
			}
			continue
		}
		switch e.kind {
		case "put", "push", "pushfailed", "hash":
			out = append(out, e)
		}
	}
	return
}

func checkG01(c *Ctx) {
	c.explained = "Profile.InitAccounts is analysed for a symbolic profile. The operations on the state (PutAccount, Push, Hash) are recorded events; the root hash is an uninterpreted function of the operations before it. Success must be reported only on paths that put every genesis account (a loop over exactly the list, each with its own address and account), then push exactly the profile's block successfully, then find the root hash equal to the accounts hash of its header; a failure only after a failed push or with a different hash."
	T := P.typ("genesis", "Profile")
	if !c.must(T != nil, "anchored", "genesis.Profile", "the genesis profile") {
		return
	}
	fn := c.method(T, "InitAccounts")
	if fn == nil {
		return
	}
	A := P.typ("accounts", "Accounts")
	ps, as := mkSym("profile"), mkSym("accounts")
	st := newState()
	tn, tt := lazyAt(A, as, "Tree")
	tree := nodeVal(tn, tt).(PtrV)
	st = assuming(st, bNeg(isNilVal(tree)))
	pobj, aobj := lazyObj(ps, T), lazyObj(as, A)
	ln, _ := lazyAt(T, ps, "Accounts")
	n := sliceLen(ln)
	blk, _ := lazyAt(T, ps, "Block")
	want := lazySeq(T, ps, "Block", "Header", "AccountsHash")
	ip := newInterp()
	stateHooks(ip)
	outs := c.run(ip, "Profile.InitAccounts", func() []Outcome {
		return ip.exec(st, fn, []Val{PtrV{obj: pobj}, PtrV{obj: aobj}}, nil, 0)
	})
	c.noPanics("Profile.InitAccounts", outs)
	where := fnPos(fn)
	good, bad := 0, 0
	for _, o := range outs {
		if o.pan != nil || infeasible(o.st.f) {
			continue
		}
		ops := stateOps(o.st.ev)
		failed := false
		var last *Sym
		for _, e := range ops {
			if e.kind == "pushfailed" {
				failed = true
			}
			if e.kind == "hash" {
				last = e.args[1].(SymV).S
			}
		}
		yes, no := split(o.st.clone(), isNilVal(o.ret[0]), 0)
		for _, x := range no {
			if infeasible(x.f) {
				continue
			}
			bad++
			differs := last != nil && x.f.decide(seqEqBool(x.f, rawSeq(last, cLin(0), cLin(32)), want)) == 0
			c.mustSt(failed || differs, x, "justified", where, "a genesis profile is refused although its block was accepted and the hash matches")
		}
		for _, x := range yes {
			if infeasible(x.f) {
				continue
			}
			good++
			c.genesisOps(x, where, ops, PtrV{obj: aobj}, tree, T, ps, n, blk, want)
			c.unmodified(Outcome{st: x, ret: o.ret}, "unmodified", where, "InitAccounts")
		}
	}
	c.must(good > 0 && bad > 0, "anchored", where, "InitAccounts can succeed and fail")
}

func (c *Ctx) genesisOps(st *State, where string, ops []Event, accs, tree PtrV, T types.Type, ps *Sym, n *Lin, blk Node, want Seq) {
	i := 0
	if !st.f.entailsEq(n, cLin(0)) {
		if !c.mustSt(i < len(ops) && ops[i].loop != nil, st, "accounts", where, "the genesis accounts are not inserted first") {
			return
		}
		e := ops[i]
		i++
		pos := P.pos(e.pos)
		c.mustSt(st.f.entailsEq(e.loop.n, n), st, "accounts", pos, "%s of %s genesis accounts are inserted", e.loop.n.Key(), n.Key())
		k := e.loop.k.lin()
		alts := 0
		for _, a := range e.loop.alts {
			s := st.clone()
			if a.f != nil {
				s.f = a.f
			}
			if infeasible(s.f) {
				continue
			}
			alts++
			xs := stateOps(a.ev)
			if !c.mustSt(len(xs) == 1 && xs[0].kind == "put", s, "accounts", pos, "an iteration does not insert exactly its account") {
				continue
			}
			el, et := elemAt(T, ps, "Accounts", k)
			an, at, _ := fieldNode(el, et, "Address")
			addr, ok := bytesAt(s, an, at)
			c.mustSt(ok && seqEqual(s.f, xs[0].args[1].(SeqV).S, addr), s, "accounts", pos, "an account is inserted at %s, not at its address", xs[0].args[1].Key())
			wn, wt, _ := fieldNode(el, et, "Account")
			vn, vt, _ := fieldNode(wn, wt, "Account")
			c.mustSt(sameVal(s.f, xs[0].args[2], nodeVal(vn, vt)), s, "accounts", pos, "the account inserted is %s", clip(xs[0].args[2].Key(), 200))
			c.mustSt(xs[0].args[0].Key() == accs.Key(), s, "accounts", pos, "the account is inserted elsewhere: %s", xs[0].args[0].Key())
		}
		c.mustSt(alts > 0, st, "accounts", pos, "the loop inserts accounts")
	}
	if !c.mustSt(i < len(ops) && ops[i].kind == "push", st, "block", where, "the genesis block is not applied right after the accounts") {
		return
	}
	b := ops[i]
	i++
	c.mustSt(b.args[0].Key() == accs.Key() && sameNode(st, b.args[1].(NodeV).N, blk, wireT("Block")), st, "block", P.pos(b.pos), "the block applied is not the profile's block")
	var last *Event
	for ; i < len(ops); i++ {
		if !c.mustSt(ops[i].loop == nil && ops[i].kind == "hash", st, "root hash", where, "the state changes after the genesis block") {
			return
		}
		last = &ops[i]
	}
	if !c.mustSt(last != nil, st, "root hash", where, "success is reported without looking at the root hash") {
		return
	}
	c.mustSt(last.args[0].Key() == tree.Key(), st, "root hash", P.pos(last.pos), "the hash is that of %s", last.args[0].Key())
	c.mustSt(holds(st.f, seqEqBool(st.f, rawSeq(last.args[1].(SymV).S, cLin(0), cLin(32)), want)), st, "root hash", P.pos(last.pos), "success is reported with another root hash")
}

// elemAt is an element of a list field.
func elemAt(T types.Type, s *Sym, list string, k *Lin) (Node, types.Type) {
	n, t := lazyAt(T, s, list)
	sl, ok := nodeVal(n, t).(SliceV)
	if !ok {
		unsupported(0, "%s.%s is not a slice", T, list)
	}
	return newState().load(ptrIndex(PtrV{obj: sl.obj, path: sl.path}, sl.off.add(k)), 0), under(t).(*types.Slice).Elem()
}
