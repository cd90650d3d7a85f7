package main

// A07-A11 and parts of A02, A06: applying a block.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const accountsPath = modPath + "/accounts"

// pushHooks makes the parts of a push that other properties cover uninterpreted functions and records them as events.
func pushHooks(ip *Interp) {
	acctT := wireT("Account")
	contentT := wireT("TxContent")
	ip.preHook = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		fn := c.fn
		if fn.Pkg == nil && fn.Signature.Recv() == nil {
			return nil, false
		}
		recv := ""
		if fn.Signature.Recv() != nil {
			recv = shortType(fn.Signature.Recv().Type())
		}
		switch recv + "." + fn.Name() {
		case "Accounts.GetAccount":
			store, ok := storeOf(st, c.args[0])
			if !ok {
				return nil, false
			}
			addr := addrSeq(st, c.args[1])
			s := mkSym("acct", SeqV{addr}, IntV{cLin(int64(len(st.ev)))}, StrLit(strings.Join(ip.loopCtx, " ")+" "+P.pos(c.pos)))
			st.emit(Event{kind: "get", args: []Val{store, SeqV{addr}, SymV{s}}, pos: c.pos})
			return ret1(st, IfaceV{sym: s, ityp: acctT})
		case "Accounts.PutAccount":
			store, ok := storeOf(st, c.args[0])
			if !ok {
				return nil, false
			}
			var content Val
			if i, ok := c.args[2].(IfaceV); ok && i.typ != nil {
				if q, ok := i.v.(PtrV); ok && q.obj != nil {
					content = NodeV{foldLazy(st.load(q, c.pos))}
				}
			}
			st.emit(Event{kind: "put", args: []Val{store, SeqV{addrSeq(st, c.args[1])}, c.args[2], content}, pos: c.pos})
			return ret1(st)
		case "OverlayStore.Flush":
			st.emit(Event{kind: "flush", args: c.args[:1], pos: c.pos})
			return ret1(st)
		case ".BlockReward":
			h := ip.intv(c.args[0], c.pos)
			oks, pans := ip.require(st, bGe0(h.addc(-1)), c.pos, "block reward of height zero")
			var out []alt
			for _, s := range oks {
				out = append(out, alt{s, IntV{symInt(mkSym("reward", IntV{h}), types.Typ[types.Uint64])}})
			}
			return fromAlts(out, pans)
		case ".AccountEq":
			a, b := c.args[0], c.args[1]
			if b.Key() < a.Key() {
				a, b = b, a
			}
			nn := bAnd2(bNeg(isNilVal(c.args[0])), bNeg(isNilVal(c.args[1])))
			return ret1(st, BoolV{bAnd2(nn, bPred("acctEq", a, b))})
		case "BasicAccount.Init", "VestingAccount.Init", "HTLCAccount.Init":
			p, ok := c.args[0].(PtrV)
			if !ok || p.obj == nil {
				return nil, false
			}
			return applyEvent(st, "init", []Val{StrLit(recv), c.args[1], c.args[2], c.args[3], c.args[0]}, c, func(s *State, id *Sym) Val {
				s.store(p, LazyN{wireT(recv), id}, c.pos)
				return nil
			})
		}
		return nil, false
	}
	acct := func(name, ev string) {
		ip.hooks["invoke:"+name] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			r := c.args[0].(IfaceV)
			if namedPath(r.ityp) != wirePath+".Account" {
				return nil, false
			}
			return applyEvent(st, ev, []Val{r, txVal(st, c.args[1]), c.args[2]}, c, func(s *State, id *Sym) Val {
				return IfaceV{sym: id, ityp: acctT}
			})
		}
	}
	acct("ApplyOutgoingTx", "out")
	acct("ApplyIncomingTx", "in")
	get := func(name string, f func(s *Sym, res types.Type) Val) {
		ip.hooks["invoke:"+name] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			r := c.args[0].(IfaceV)
			if r.sym == nil {
				return nil, false
			}
			switch namedPath(r.ityp) {
			case wirePath + ".Account", wirePath + ".Tx":
			default:
				return nil, false
			}
			var rt types.Type
			if c.res.Len() > 0 {
				rt = c.res.At(0).Type()
			}
			v := f(r.sym, rt)
			if v == nil {
				return nil, false
			}
			if t, ok := v.(TupleV); ok {
				return ret1(st, t.vs...)
			}
			return ret1(st, v)
		}
	}
	get("Balance", func(s *Sym, t types.Type) Val { return IntV{symInt(mkSym("balance", SymV{s}), t)} })
	get("IsEmpty", func(s *Sym, t types.Type) Val { return BoolV{bPred("empty", SymV{s})} })
	get("Type", func(s *Sym, t types.Type) Val { return IntV{symInt(mkSym("type", SymV{s}), t)} })
	content := func(s *Sym) *Sym { return mkSym("content", SymV{s}) }
	field := func(s *Sym, n string) Val {
		nd, t := lazyAt(contentT, content(s), n)
		return nodeVal(nd, t)
	}
	addr := func(s *Sym, n string) Val {
		_, t := lazyAt(contentT, content(s), n)
		return PtrV{obj: lazyObj(content(s).fld(n), t)}
	}
	get("AsTxContent", func(s *Sym, t types.Type) Val { return NodeV{LazyN{contentT, content(s)}} })
	get("Amount", func(s *Sym, t types.Type) Val { return TupleV{[]Val{field(s, "Value"), field(s, "Fee")}} })
	get("GetSender", func(s *Sym, t types.Type) Val { return TupleV{[]Val{addr(s, "Sender"), field(s, "SenderType")}} })
	get("GetRecipient", func(s *Sym, t types.Type) Val {
		return TupleV{[]Val{addr(s, "Recipient"), field(s, "RecipientType")}}
	})
	get("AsExtendedTx", func(s *Sym, t types.Type) Val {
		u := under(t).(*types.Struct)
		fs := make([]Node, u.NumFields())
		for i := range fs {
			f := u.Field(i)
			if n, _, ok := fieldNode(LazyN{contentT, content(s)}, contentT, f.Name()); ok {
				fs[i] = n
			} else {
				fs[i] = LazyN{f.Type(), mkSym("ext", SymV{s}).fld(f.Name())}
			}
		}
		return NodeV{StructN{t, fs}}
	})
}

// applyEvent records a fallible step; whether it succeeds is a predicate of its inputs.
func applyEvent(st *State, kind string, args []Val, c *Call, ok func(*State, *Sym) Val) ([]Outcome, bool) {
	n := len(args)
	if kind == "init" {
		n-- // the receiver is the result
	}
	id := mkSym(kind+":r", args[:n]...)
	pass := bPred(kind+"ok", SymV{id})
	yes, no := split(st, pass, c.pos)
	var out []Outcome
	for _, s := range yes {
		v := ok(s, id)
		s.emit(Event{kind: kind, args: append(append([]Val(nil), args...), SymV{id}), pos: c.pos})
		r := []Val{IfaceV{}}
		if v != nil {
			r = []Val{v, IfaceV{}}
		}
		out = append(out, Outcome{st: s, ret: r})
	}
	for _, s := range no {
		s.emit(Event{kind: "failed", args: []Val{BoolV{pass}}, pos: c.pos})
		r := []Val{newErr(kind)}
		if kind != "init" {
			r = []Val{IfaceV{}, newErr(kind)}
		}
		out = append(out, Outcome{st: s, ret: r})
	}
	return out, true
}

// txVal is a transaction argument: a symbolic one, or the content of one built in place.
func txVal(st *State, v Val) Val {
	if i, ok := v.(IfaceV); ok && i.typ != nil {
		if p, ok := i.v.(PtrV); ok && p.obj != nil {
			return TupleV{[]Val{TypV{i.typ}, NodeV{st.load(p, 0)}}}
		}
	}
	return v
}

// storeOf is the store behind an *Accounts value.
func storeOf(st *State, a Val) (Val, bool) {
	p, ok := a.(PtrV)
	if !ok || p.obj == nil {
		return nil, false
	}
	n, _, ok := fieldNode(st.load(p, 0), P.typ("accounts", "Accounts"), "Tree")
	if !ok {
		return nil, false
	}
	l, ok := expand(n).(LeafN)
	if !ok {
		return nil, false
	}
	t, ok := l.V.(PtrV)
	if !ok || t.obj == nil {
		return nil, false
	}
	n, _, ok = fieldNode(st.load(t, 0), P.typ("tree", "PMTree"), "Store")
	if !ok {
		return nil, false
	}
	l, ok = expand(n).(LeafN)
	if !ok {
		return nil, false
	}
	return l.V, true
}

func addrSeq(st *State, a Val) Seq {
	p, ok := a.(PtrV)
	if !ok || p.obj == nil {
		unsupported(0, "address is not a pointer: %s", a.Key())
	}
	b, ok := expand(st.load(p, 0)).(BytesN)
	if !ok {
		unsupported(0, "address has no bytes")
	}
	return b.S
}

type pushRun struct {
	c     *Ctx
	ip    *Interp
	fn    *ssa.Function
	where string
	block *Sym
	accs  *Sym
	outs  []Outcome
}

func (c *Ctx) push() *pushRun {
	T := P.typ("accounts", "Accounts")
	if !c.must(T != nil, "anchored", "accounts", "accounts.Accounts exists") {
		return nil
	}
	fn := methodSel(types.NewPointer(T), "Push")
	if !c.must(fn != nil, "anchored", "accounts", "Accounts.Push exists") {
		return nil
	}
	P.body(fn)
	r := &pushRun{c: c, fn: fn, where: fnPos(fn), block: mkSym("block"), accs: mkSym("accounts")}
	r.ip = newInterp()
	pushHooks(r.ip)
	st := newState()
	ao := lazyObj(r.accs, T)
	n, nt := lazyAt(T, r.accs, "Tree")
	tp := nodeVal(n, nt).(PtrV)
	for _, b := range []*Bool{bNeg(isNilVal(tp))} {
		if fs := st.f.assume(b, true); len(fs) == 1 {
			st.f = fs[0]
		}
	}
	r.outs = c.run(r.ip, "accounts.Push", func() []Outcome {
		return r.ip.exec(st, fn, []Val{PtrV{obj: ao}, PtrV{obj: lazyObj(r.block, wireT("Block"))}}, nil, 0)
	})
	return r
}

func debugPush() {
	c := newCtx("push")
	r := c.push()
	for i, o := range r.outs {
		fmt.Println("--- outcome", i)
		for _, x := range o.st.conds {
			fmt.Printf("  if %s = %v\n", clip(x.b.Key(), 300), x.truth)
		}
		for _, e := range o.st.ev {
			pe(e, "  ")
		}
		if o.pan != nil {
			fmt.Println("  PANIC", o.pan)
			continue
		}
		fmt.Println("  ret", o.ret[0].Key())
	}
	for _, v := range c.viol {
		fmt.Println("VIOL", v.What)
	}
}

func pe(e Event, ind string) {
	if e.loop == nil {
		fmt.Println(ind + clip(e.Key(), 400))
		return
	}
	fmt.Println(ind + "loop " + e.loop.k.key + " < " + e.loop.n.Key())
	for _, a := range e.loop.alts {
		fmt.Println(ind + " alt")
		for _, x := range a.ev {
			pe(x, ind+"   ")
		}
	}
}
