package main

// E01: rejections name what was wrong.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["E01"] = checkE01 }

// errOf finds the error of a type in a chain: its content.
func (c *Ctx) errOf(st *State, v Val, rel, name string) (Node, types.Type, bool) {
	want := P.typ(rel, name)
	if want == nil {
		return nil, nil, false
	}
	for _, e := range c.causes(st, v, 0) {
		if e.typ == nil {
			continue
		}
		switch x := e.v.(type) {
		case PtrV:
			if pt, ok := e.typ.(*types.Pointer); ok && types.Identical(pt.Elem(), want) && x.obj != nil && len(x.path) == 0 {
				return expand(st.content(x.obj)), want, true
			}
		case NodeV:
			if types.Identical(e.typ, want) {
				return x.N, want, true
			}
		}
	}
	return nil, want, false
}

// addrField is the address in an error.
func addrField(n Node, t types.Type) (Seq, bool) {
	u, ok := under(t).(*types.Struct)
	if !ok {
		return Seq{}, false
	}
	for i := 0; i < u.NumFields(); i++ {
		a, ok := under(u.Field(i).Type()).(*types.Array)
		if !ok || a.Len() != 20 {
			continue
		}
		f, ft, ok := fieldNode(n, t, u.Field(i).Name())
		if !ok {
			continue
		}
		if b, ok := retBytes(nodeVal(f, ft)); ok {
			return b, true
		}
	}
	return Seq{}, false
}

func checkE01(c *Ctx) {
	c.explained = "Accounts.Push is analysed for a symbolic block: on every rejecting path the reason is read off the last step (account looked up and its type against the one named; entry of the prune list missing, altered or left over; contract type of a creation; failed account operation), and the chain of the returned error (fmt.Errorf with %w, Unwrap methods) must hold the matching error with the types, the address or the cause of exactly that step. ApplyOutgoingTx of each account kind: every overspend error names an available amount of at most the balance, and less than the amount attempted. Unwrap of every error type of the repository returns the error it was made with."
	c.whyPush()
	c.whyOverspend()
	c.whyUnwrap()
}

func (c *Ctx) whyPush() {
	r := c.push()
	if !r.ok(c) {
		return
	}
	seen := map[string]int{}
	r.each(func(o Outcome, st *State) {}, func(o Outcome, st *State) {
		if holds(st.f, isNilVal(r.bodyPtr())) || holds(st.f, bEq0(r.header("Height"))) {
			return
		}
		ev := o.ret[len(o.ret)-1]
		ks := []*Lin{cLin(0)}
		for _, a := range loopAtoms(st) {
			ks = append(ks, a.lin())
		}
		for _, e := range st.ev {
			if e.loop != nil {
				ks = append(ks, e.loop.n)
			}
		}
		// the steps after the last completed loop
		var tail []Event
		for _, e := range st.ev {
			if e.loop != nil {
				tail = nil
				continue
			}
			tail = append(tail, e)
		}
		var get, lookup, next, failed *Event
		for i := range tail {
			switch e := &tail[i]; e.kind {
			case "get":
				get = e
			case "mapget":
				if byAddress(e.args[0]) {
					lookup = e
				}
			case "mapnext":
				next = e
			case "failed":
				failed = e
			}
		}
		for _, n := range []string{"AccountTypeMismatchError", "InvalidPruneError", "InvalidForRecipientError"} {
			if !c.must(P.typ("accounts", n) != nil, "anchored", "accounts."+n, "the error type") {
				return
			}
		}
		mis, misT, isMis := c.errOf(st, ev, "accounts", "AccountTypeMismatchError")
		pru, pruT, isPru := c.errOf(st, ev, "accounts", "InvalidPruneError")
		rec, recT, isRec := c.errOf(st, ev, "accounts", "InvalidForRecipientError")
		if failed != nil {
			own := false
			for _, e := range c.causes(st, ev, 0) {
				own = own || e.sym != nil && (strings.HasPrefix(e.sym.head, "err:out") || strings.HasPrefix(e.sym.head, "err:in"))
			}
			seen["operation"]++
			c.mustSt(own, st, "operation", r.where, "an account operation fails, and the error %s does not hold its reason", clip(ev.Key(), 200))
			c.mustSt(!isMis && !isPru && !isRec, st, "operation", r.where, "an account operation fails, and the error is reported as another one")
			return
		}
		if get == nil {
			// only a left over entry of the prune list is rejected without looking at an account
			if isPru {
				ok := false
				a, okA := addrField(pru, pruT)
				if next != nil && okA {
					if b, okB := retBytes(next.args[1]); okB {
						ok = seqEqual(st.f, a, b)
					}
				}
				if lookup != nil && okA && holds(st.f, lookup.args[2].(BoolV).B) {
					if b, okB := retBytes(lookup.args[1]); okB {
						ok = ok || seqEqual(st.f, a, b)
					}
				}
				seen["left over"]++
				c.mustSt(ok, st, "left over", r.where, "the error about an entry of the prune list names %s, which is not one of the entries left", clip(a.Key(), 200))
			} else {
				c.mustSt(next == nil, st, "left over", r.where, "an entry is left in the prune list, and no InvalidPruneError is reported")
			}
			c.mustSt(!isMis && !isRec, st, "reason", r.where, "no account was looked at, and the error names one: %s", clip(ev.Key(), 200))
			return
		}
		s, addr := get.args[2].(SymV).S, get.args[1].(SeqV).S
		type named struct {
			k    *Lin
			want *Lin
			role string
		}
		var roles []named
		for _, k := range ks {
			if seqEqual(st.f, addr, r.txAddr(k, "Sender")) {
				roles = append(roles, named{k, r.txInt(k, "SenderType"), "sender"})
			}
			if seqEqual(st.f, addr, r.txAddr(k, "Recipient")) {
				roles = append(roles, named{k, r.txInt(k, "RecipientType"), "recipient"})
			}
		}
		if seqEqual(st.f, addr, r.miner()) {
			roles = append(roles, named{nil, cLin(0), "miner"})
		}
		if !c.mustSt(len(roles) > 0, st, "reason", r.where, "the account looked at last, %s, is not one of the block's", clip(addr.Key(), 200)) {
			return
		}
		if isMis {
			got, want := nodeInt(mis, misT, "Got"), nodeInt(mis, misT, "Expected")
			ok := false
			for _, n := range roles {
				ok = ok || want != nil && st.f.entailsEq(want, n.want)
			}
			seen["type mismatch"]++
			c.mustSt(ok, st, "named type", r.where, "the mismatch error expects type %v, which is not the one named for the account", want)
			c.mustSt(got != nil && st.f.entailsEq(got, typeOf(s)), st, "actual type", r.where, "the mismatch error gives %v as the type of the account, it is %s", got, typeOf(s).Key())
			c.mustSt(want != nil && got != nil && !feasibleEq(st.f, want, got), st, "mismatch", r.where, "the mismatch error may name the same type twice")
			return
		}
		// a wrong type is reported as such
		for _, n := range roles {
			if n.role == "recipient" && !holds(st.f, bNeg(r.creates(n.k))) {
				continue
			}
			c.mustSt(feasibleEq(st.f, typeOf(s), n.want) || lookup != nil, st, "mismatch", r.where, "the %s has another type than the one named, and no AccountTypeMismatchError is reported", n.role)
		}
		switch {
		case isPru:
			a, ok := addrField(pru, pruT)
			ok = ok && seqEqual(st.f, a, addr)
			sender := false
			for _, n := range roles {
				sender = sender || n.role == "sender"
			}
			seen["prune entry"]++
			c.mustSt(ok && sender, st, "pruned account", r.where, "the error about a pruned account names %s, the account is %s", clip(a.Key(), 200), clip(addr.Key(), 200))
		case isRec:
			a, ok := addrField(rec, recT)
			ok = ok && seqEqual(st.f, a, addr)
			creates := false
			for _, n := range roles {
				creates = creates || n.role == "recipient" && holds(st.f, r.creates(n.k))
			}
			seen["contract type"]++
			c.mustSt(ok && creates, st, "contract type", r.where, "the error about an impossible contract names %s, the recipient is %s", clip(a.Key(), 200), clip(addr.Key(), 200))
		default:
			c.mustSt(lookup == nil, st, "prune entry", r.where, "an entry of the prune list is missing or altered, and no InvalidPruneError is reported")
			for _, n := range roles {
				c.mustSt(n.role != "recipient" || !holds(st.f, r.creates(n.k)), st, "contract type", r.where, "a contract type is impossible, and no InvalidForRecipientError is reported")
			}
		}
	})
	for _, k := range []string{"operation", "left over", "type mismatch", "prune entry", "contract type"} {
		c.must(seen[k] > 0, "covered", r.where, "rejections of this kind (%s): %d", k, seen[k])
	}
}

func feasibleEq(f *Facts, a, b *Lin) bool {
	for _, g := range f.assume(bEq0(a.sub(b)), true) {
		if !infeasible(g) {
			return true
		}
	}
	return false
}

func (c *Ctx) whyOverspend() {
	if !c.must(P.typ("wire", "OverspendError") != nil, "anchored", "wire.OverspendError", "the error type") {
		return
	}
	for _, k := range acctKinds {
		n := 0
		for _, t := range txKinds {
			r := c.acctCall(k, t, "ApplyOutgoingTx")
			if !r.ok() {
				continue
			}
			r.results(1, func(o Outcome, st *State) {}, func(o Outcome, st *State) {
				e, et, ok := c.errOf(st, o.ret[1], "wire", "OverspendError")
				if !ok {
					return
				}
				n++
				av, sp := nodeInt(e, et, "Available"), nodeInt(e, et, "Spend")
				// a contract that holds less than it has to keep pays nothing, not even zero
				fs := st.f.assume(bEq0(r.txInt("Value").add(r.txInt("Fee"))), false)
				ok = av != nil && sp != nil && st.f.entails(sp.sub(av))
				for _, f := range fs {
					ok = ok && (infeasible(f) || f.entails(sp.sub(av).addc(-1)))
				}
				c.mustSt(ok, st, "overspend", r.where, "%s.ApplyOutgoingTx(%s) reports an overspend of %v with %v available", k, t, sp, av)
				c.mustSt(av != nil && st.f.entails(r.accInt("Value").sub(av)), st, "available", r.where, "%s.ApplyOutgoingTx(%s) reports %v as available, more than the balance", k, t, av)
			})
		}
		c.must(n > 0, "covered", k, "%s.ApplyOutgoingTx reports an overspend on %d paths", k, n)
	}
}

// whyUnwrap: what an error wraps is what it was made with.
func (c *Ctx) whyUnwrap() {
	n := 0
	for _, pk := range P.pkgs {
		sp := P.prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, name := range sortedKeys(sp.Members) {
			m, ok := sp.Members[name].(*ssa.Type)
			if !ok {
				continue
			}
			T := m.Type()
			pt := types.NewPointer(T)
			fn := methodSel(pt, "Unwrap")
			u, isStruct := under(T).(*types.Struct)
			if fn == nil || !isStruct || methodSel(pt, "Error") == nil {
				continue
			}
			n++
			x := lazyObj(mkSym("why:"+name), T)
			var errs []Val
			for i := 0; i < u.NumFields(); i++ {
				if types.Identical(u.Field(i).Type(), errType) {
					f, ft, _ := fieldNode(expand(newState().content(x)), T, u.Field(i).Name())
					errs = append(errs, nodeVal(f, ft))
				}
			}
			c.call(newState(), fn, []Val{PtrV{obj: x}}, nil, func(o Outcome) {
				ok := false
				for _, e := range errs {
					ok = ok || len(o.ret) == 1 && o.ret[0].Key() == e.Key()
				}
				c.mustSt(ok, o.st, "unwrap", fnPos(fn), "%s.Unwrap does not return the cause in the error", name)
			})
		}
	}
	c.must(n > 0, "covered", "Unwrap", "error types that wrap a cause: %d", n)
}
