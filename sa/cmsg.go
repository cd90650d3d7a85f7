package main

// C06: the message registry.

import (
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// messageIDs is the message type each known ID stands for.
var messageIDs = map[int64]string{
	0: "VersionMessage", 1: "InvMessage", 2: "InvMessage", 3: "InvMessage", 4: "InvMessage", 5: "GetBlocksMessage",
	6: "BlockMessage", 7: "HeaderMessage", 8: "TxMessage", 9: "EmptyMessage", 20: "AddrMessage", 21: "GetAddrMessage",
	22: "BasePingMessage", 23: "BasePingMessage", 40: "EmptyMessage", 47: "GetTxProofMessage", 49: "GetTxReceiptsMessage",
	60: "EmptyMessage", 61: "HeadMessage", 90: "VerAckMessage",
}

func init() { checks["C06"] = checkC06 }

func (c *Ctx) runMessage() (*Interp, []Outcome) {
	ip := newInterp()
	ip.preHook = messageContracts()
	return ip, c.run(ip, "wire.UnmarshalMessage", func() []Outcome {
		fn := repoFn("wire", "UnmarshalMessage")
		return ip.exec(newState(), fn, []Val{symVal(fn.Params[0].Type(), mkSym("ID")), symSlice("In")}, nil, 0)
	})
}

// messageContracts abstracts the codecs of all types but the messages themselves.
func messageContracts() func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	h := codecContracts("")
	mi, _ := P.typ("wire", "Message").Underlying().(*types.Interface)
	return func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if r := c.fn.Signature.Recv(); r != nil && mi != nil && types.Implements(r.Type(), mi) {
			return nil, false
		}
		return h(ip, st, c)
	}
}

func msgID() *Lin { return symInt(mkSym("ID"), types.Typ[types.Uint64]) }

// idOf is the constant message ID on a path.
func idOf(f *Facts) (int64, bool) {
	for id := range messageIDs {
		if f.entailsEq(msgID(), cLin(id)) {
			return id, true
		}
	}
	return 0, false
}

func derefType(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func shortType(t types.Type) string {
	if n, ok := types.Unalias(derefType(t)).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func checkC06(c *Ctx) {
	c.explained = "UnmarshalMessage is analysed for a symbolic message ID: on every accepting path the ID is one of the known IDs, the message has the type of that ID, and its Type method (analysed on the decoded value) yields the ID; every other ID leads to the unknown-message error. Every implementation of Message with a constant ID must be the decoder's type of that ID. MarshalMessage is analysed for every message type of symbolic content; its result must lie in newly allocated memory."
	where := fnPos(repoFn("wire", "UnmarshalMessage"))
	ip, outs := c.runMessage()
	accepted := map[int64]bool{}
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		yes, no := split(o.st, isNilVal(o.ret[1]), 0)
		for _, st := range yes {
			if infeasible(st.f) {
				continue
			}
			id, ok := idOf(st.f)
			if !c.mustSt(ok && messageIDs[id] != "", st, "known ID", where, "a message is accepted under the ID %s", msgID().Key()) {
				continue
			}
			accepted[id] = true
			m, isI := o.ret[0].(IfaceV)
			if !c.mustSt(isI && m.typ != nil, st, "typed", where, "the message decoded for ID %d has no known type", id) {
				continue
			}
			c.mustSt(shortType(m.typ) == messageIDs[id], st, "type of ID", where, "a message with ID %d decodes to a %s", id, shortType(m.typ))
			for _, r := range c.callMethod(ip, st, m, "Type") {
				got := ip.intv(r.ret[0], 0)
				c.mustSt(r.st.f.entailsEq(got, cLin(id)), r.st, "reports its ID", where, "a message decoded under ID %d reports type %s", id, got.Key())
			}
		}
		for _, st := range no {
			if infeasible(st.f) {
				continue
			}
			e, _ := o.ret[1].(IfaceV)
			if e.typ != nil && shortType(e.typ) == "UnknownMessageError" {
				for id := range messageIDs {
					for _, g := range st.f.clone().assume(bEq0(msgID().addc(-id)), true) {
						c.mustSt(infeasible(g), st, "has decoder", where, "the known ID %d yields the unknown-message error", id)
					}
				}
				v, isInt := e.v.(IntV)
				d := (*Lin)(nil)
				if isInt {
					d = v.L.sub(msgID())
				}
				ok := d != nil && (st.f.entailsEq(d, cLin(0)) || isMultiple(st.f, d, 64))
				c.mustSt(ok, st, "error names ID", where, "the unknown-message error for an ID holds %s", e.Key())
				continue
			}
			_, ok := idOf(st.f)
			c.mustSt(ok, st, "unknown error", where, "an ID without a decoder is rejected with %s, not with the unknown-message error", clip(e.Key(), 100))
		}
	}
	for _, id := range sortedIDs() {
		c.must(accepted[id], "accepts", where, "messages with ID %d (%s) are accepted", id, messageIDs[id])
	}
	// implementations with a fixed ID
	for _, T := range c.messageTypes() {
		name := shortType(T)
		ip := newInterp()
		st := newState()
		m := symMessage(T)
		for _, r := range c.callMethod(ip, st, m, "Type") {
			if infeasible(r.st.f) {
				continue
			}
			got := ip.intv(r.ret[0], 0)
			if id, ok := got.constVal(); ok {
				c.must(messageIDs[id] == name || messageIDs[id] == "" && !declaredID(id), "own ID", typePos(derefType(T)), "%s reports the ID %d, which decodes as %q", name, id, messageIDs[id])
			}
		}
		c.marshalMessage(T)
	}
}

func sortedIDs() (out []int64) {
	for id := range messageIDs {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// declaredID reports whether id is one of the wire.Message* constants.
func declaredID(id int64) bool {
	pkg := P.pkg("wire").Pkg
	for _, n := range pkg.Scope().Names() {
		if k, ok := pkg.Scope().Lookup(n).(*types.Const); ok && len(n) > 7 && n[:7] == "Message" {
			if k.Val().ExactString() == big.NewInt(id).String() {
				return true
			}
		}
	}
	return false
}

// messageTypes are the types (or pointer types) implementing wire.Message.
func (c *Ctx) messageTypes() (out []types.Type) {
	mi := P.typ("wire", "Message")
	if mi == nil {
		c.must(false, "anchored", "wire", "wire.Message is missing")
		return nil
	}
	it := mi.Underlying().(*types.Interface)
	pkg := P.pkg("wire").Pkg
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		switch {
		case types.Implements(tn.Type(), it):
			out = append(out, tn.Type())
		case types.Implements(types.NewPointer(tn.Type()), it):
			out = append(out, types.NewPointer(tn.Type()))
		}
	}
	return
}

// symMessage is a message of the type with symbolic content.
func symMessage(T types.Type) IfaceV {
	it := P.typ("wire", "Message")
	if p, ok := T.(*types.Pointer); ok {
		return mkIface(PtrV{obj: lazyObj(mkSym(shortType(T)), p.Elem())}, T, it).(IfaceV)
	}
	return mkIface(symVal(T, mkSym(shortType(T))), T, it).(IfaceV)
}

// callMethod calls a method on an interface value; panicking paths are violations.
func (c *Ctx) callMethod(ip *Interp, st *State, recv IfaceV, name string, args ...Val) (ret []Outcome) {
	m := methodSel(recv.typ, name)
	if m == nil {
		c.must(false, "anchored", recv.typ.String(), "method %s of %s is missing", name, recv.typ)
		return nil
	}
	outs := c.run(ip, recv.typ.String()+"."+name, func() []Outcome {
		P.body(m)
		return ip.exec(st.clone(), m, append([]Val{recv.v}, args...), nil, 0)
	})
	for _, o := range outs {
		if o.pan != nil {
			if !infeasible(o.st.f) {
				c.mustSt(false, o.st, "no panic", P.pos(o.pan.pos), "%s of a %s panics: %s", name, shortType(recv.typ), o.pan)
			}
			continue
		}
		ret = append(ret, o)
	}
	return
}

// marshalMessage checks the encoding of messages of type T.
func (c *Ctx) marshalMessage(T types.Type) {
	name := shortType(T)
	where := fnPos(repoFn("wire", "MarshalMessage"))
	shapes := []func(*State) PtrV{nil}
	elem := derefType(T)
	if _, ok := T.(*types.Pointer); ok {
		shapes = symShapes(elem, name)
	}
	for _, mk := range shapes {
		ip := newInterp()
		ip.preHook = messageContracts()
		st := newState()
		m := symMessage(T)
		if mk != nil {
			p := mk(st)
			m = mkIface(p, T, P.typ("wire", "Message")).(IfaceV)
		}
		for _, e := range c.encodeOf(ip, st, m) {
			e := e
			outs := c.run(ip, "wire.MarshalMessage("+name+")", func() []Outcome {
				return ip.exec(e.st.clone(), repoFn("wire", "MarshalMessage"), []Val{m}, nil, 0)
			})
			for _, o := range outs {
				if infeasible(o.st.f) {
					continue
				}
				if o.pan != nil {
					c.mustSt(false, o.st, "no panic", P.pos(o.pan.pos), "encoding a %s panics: %s", name, o.pan)
					continue
				}
				yes, no := split(o.st, isNilVal(o.ret[1]), 0)
				for _, s := range no {
					c.mustSt(infeasible(s.f), s, "framing", where, "an encodable %s is not framed", name)
				}
				for _, s := range yes {
					sl, ok := o.ret[0].(SliceV)
					if !c.mustSt(ok, s, "framing", where, "no bytes returned for a %s", name) {
						continue
					}
					c.mustSt(sl.obj == nil || sl.obj.isNew(), s, "own buffer", where, "the encoding of a %s lies in memory that existed before", name)
					got := s.bytesOf(sl, 0)
					for _, r := range c.callMethod(ip, s, m, "Type") {
						want := intSeq(ip.intv(r.ret[0], 0), 8).concat(e.seq)
						c.mustSt(seqEqual(r.st.f, got, want), r.st, "framing", where, "a %s is framed as %s, expected is %s", name, got.Key(), want.Key())
					}
				}
			}
		}
	}
}

// methodSel is the implementation of a method on a concrete type.
func methodSel(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

type encRes struct {
	st  *State
	seq Seq
}

// encodeOf encodes a message on its own.
func (c *Ctx) encodeOf(ip *Interp, st *State, m IfaceV) (out []encRes) {
	any := types.NewInterfaceType(nil, nil)
	outs := c.run(ip, "beserial.Marshal("+shortType(m.typ)+")", func() []Outcome {
		return ip.exec(st.clone(), repoFn("beserial", "Marshal"), []Val{SliceV{off: cLin(0), len: cLin(0), cap: cLin(0)}, mkIface(m.v, m.typ, any)}, nil, 0)
	})
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		yes, _ := split(o.st, isNilVal(o.ret[1]), 0)
		for _, s := range yes {
			if sl, ok := o.ret[0].(SliceV); ok && !infeasible(s.f) {
				out = append(out, encRes{s, s.bytesOf(sl, 0)})
			}
		}
	}
	return
}

// isMultiple reports that d is a multiple of 2^w by construction.
func isMultiple(f *Facts, d *Lin, w uint) bool {
	m := pow2(w)
	for _, t := range d.ts {
		if new(big.Int).Mod(t.c, m).Sign() != 0 {
			return false
		}
	}
	return new(big.Int).Mod(d.k, m).Sign() == 0
}
