package main

// A12: accounts stored in and read from the tree.

import (
	"go/types"
)

func init() { checks["A12"] = checkA12 }

func checkA12(c *Ctx) {
	c.explained = "Accounts.GetAccount is analysed with the tree entry as a symbolic byte string: no entry gives a basic account with balance zero; an entry that is one complete account encoding gives exactly the decoded account (and can not panic). Accounts.PutAccount is analysed for a missing account and symbolic accounts of each kind: the tree entry becomes empty exactly for a missing account or a basic account with balance zero, otherwise the type byte and encoding of the account by the wire grammar; the key is the given address, exactly one entry is written, on the tree of the state."
	A := P.typ("accounts", "Accounts")
	if !c.must(A != nil, "anchored", "accounts", "type Accounts") {
		return
	}
	get, put := methodSel(types.NewPointer(A), "GetAccount"), methodSel(types.NewPointer(A), "PutAccount")
	if !c.must(get != nil && put != nil, "anchored", "accounts", "methods GetAccount and PutAccount") {
		return
	}
	P.body(get)
	P.body(put)
	setup := func(root string) (*Interp, *State, []Val, Val, *Sym) {
		ip := newInterp()
		st := newState()
		as, ad := mkSym("accounts"), mkSym("addr")
		ao := lazyObj(as, A)
		n, nt := lazyAt(A, as, "Tree")
		tp := nodeVal(n, nt)
		if fs := st.f.assume(bNeg(isNilVal(tp)), true); len(fs) == 1 {
			st.f = fs[0]
		}
		args := []Val{PtrV{obj: ao}, PtrV{obj: lazyObj(ad, types.NewArray(types.Typ[types.Byte], 20))}}
		codec := codecContracts(root)
		ip.preHook = func(ip *Interp, st *State, cl *Call) ([]Outcome, bool) {
			fn := cl.fn
			if fn.Signature.Recv() != nil && shortType(fn.Signature.Recv().Type()) == "PMTree" {
				switch fn.Name() {
				case "GetEntry":
					st.emit(Event{kind: "entry", args: []Val{cl.args[0], SeqV{addrSeq(st, cl.args[1])}}, pos: cl.pos})
					return ret1(st, symSlice("In"))
				case "PutEntry":
					v := SeqV{}
					if s, ok := cl.args[2].(SliceV); ok {
						v = SeqV{st.bytesOf(s, cl.pos).resolve(st.f)}
					}
					st.emit(Event{kind: "putentry", args: []Val{cl.args[0], SeqV{addrSeq(st, cl.args[1])}, v}, pos: cl.pos})
					return ret1(st, BoolV{bPred("changed")})
				}
			}
			return codec(ip, st, cl)
		}
		return ip, st, args, tp, ad
	}
	once := func(st *State, kind, where string, tree Val, ad *Sym) *Event {
		var found []Event
		eventsOf(st.ev, st.f, func(e Event, f *Facts) {
			if e.kind == "entry" && kind == "entry" || e.kind == "putentry" {
				found = append(found, e)
			}
		})
		if !c.mustSt(len(found) == 1 && found[0].kind == kind, st, "one entry", where, "%d tree entries are accessed", len(found)) {
			return nil
		}
		e := found[0]
		c.mustSt(e.args[0].Key() == tree.Key(), st, "own tree", P.pos(e.pos), "the entry is in another tree: %s", e.args[0].Key())
		c.mustSt(seqEqual(st.f, e.args[1].(SeqV).S, rawSeq(ad, cLin(0), cLin(20))), st, "own entry", P.pos(e.pos), "the entry is at %s, expected the given address", e.args[1].Key())
		return &e
	}
	// reading
	{
		ip, st, args, tree, ad := setup("")
		where := fnPos(get)
		outs := c.run(ip, "accounts.GetAccount", func() []Outcome { return ip.exec(st, get, args, nil, 0) })
		in := mkSym("In")
		none, some := 0, 0
		valid := bAnd2(validPred("WrapAccount", in, cLin(0)), bEq0(dszAtom("WrapAccount", in, cLin(0)).sub(symLen(in))))
		for _, o := range outs {
			if o.pan == nil {
				once(o.st, "entry", where, tree, ad)
				c.unmodified(o, "reading changes nothing", where, "GetAccount")
			}
			yes, no := split(o.st, bEq0(symLen(in)), 0)
			for _, s := range yes {
				if infeasible(s.f) {
					continue
				}
				if !c.mustSt(o.pan == nil, s, "no panic", where, "reading a missing entry panics") {
					continue
				}
				none++
				i, ok := o.ret[0].(IfaceV)
				ok = ok && i.typ != nil && shortType(i.typ) == "BasicAccount"
				if ok {
					p, isP := i.v.(PtrV)
					l := (*Lin)(nil)
					if isP && p.obj != nil {
						l = nodeInt(s.load(p, 0), wireT("BasicAccount"), "Value")
					}
					ok = l != nil && s.f.entailsEq(l, cLin(0))
				}
				c.mustSt(ok, s, "unknown is empty", where, "a missing entry reads as %s", o.ret[0].Key())
			}
			for _, s := range no {
				if o.pan == nil && !infeasible(s.f) {
					c.mustSt(holds(s.f, valid), s, "only complete entries", where, "an entry that is not exactly one encoded account may be read as %s", clip(o.ret[0].Key(), 100))
				}
				// the entry is one complete encoding
				for _, f := range s.f.assume(valid, true) {
					if infeasible(f) {
						continue
					}
					s := s.clone()
					s.f = f
					if !c.mustSt(o.pan == nil, s, "complete entries read", where, "reading a complete entry panics") {
						continue
					}
					some++
					n, t := lazyAt(wireT("WrapAccount"), decSym("WrapAccount", in, cLin(0)), "Account")
					c.mustSt(o.ret[0].Key() == nodeVal(n, t).Key(), s, "decoded account", where, "a complete entry reads as %s", clip(o.ret[0].Key(), 200))
				}
			}
		}
		c.must(none > 0 && some > 0, "vacuous", where, "%d paths for missing and %d for present entries", none, some)
	}
	// writing
	where := fnPos(put)
	kept, removed := 0, 0
	for _, kind := range append([]string{""}, acctKinds...) {
		ip, st, args, tree, ad := setup("WrapAccount")
		var acc Val = IfaceV{}
		iT := put.Signature.Params().At(1).Type()
		as := mkSym("acc:" + kind)
		if kind != "" {
			acc = mkIface(PtrV{obj: lazyObj(as, wireT(kind))}, types.NewPointer(wireT(kind)), iT)
		}
		outs := c.run(ip, "accounts.PutAccount("+kind+")", func() []Outcome { return ip.exec(st, put, append(args, acc), nil, 0) })
		for _, o := range outs {
			if infeasible(o.st.f) {
				continue
			}
			if !c.mustSt(o.pan == nil, o.st, "no panic", where, "storing an account panics: %v", o.pan) {
				continue
			}
			e := once(o.st, "putentry", where, tree, ad)
			c.unmodified(o, "writing changes nothing else", where, "PutAccount")
			if e == nil {
				continue
			}
			got := e.args[2].(SeqV).S
			none := bTrue
			if kind == "BasicAccount" {
				none = bEq0(lazyInt(wireT(kind), as, "Value"))
			} else if kind != "" {
				none = bFalse
			}
			yes, no := split(o.st, none, 0)
			for _, s := range yes {
				if !infeasible(s.f) {
					removed++
					c.mustSt(s.f.entailsEq(got.length(), cLin(0)), s, "empty accounts removed", P.pos(e.pos), "an empty account is stored as %s", got.Key())
				}
			}
			for _, s := range no {
				if infeasible(s.f) {
					continue
				}
				kept++
				en := &encoder{c: c, ip: ip, root: "WrapAccount", where: where}
				en.enc(s, StructN{wireT("WrapAccount"), []Node{LeafN{acc}}}, wireT("WrapAccount"), ref("WrapAccount"), "", func(s *State, want Seq) {
					if !infeasible(s.f) {
						c.mustSt(seqEqual(s.f, got, want), s, "complete encoding", P.pos(e.pos), "a %s is stored as %s, its encoding is %s", kind, got.Key(), want.Key())
					}
				})
			}
		}
	}
	c.must(kept >= 3 && removed >= 2, "vacuous", where, "%d kept and %d removed", kept, removed)
}
