package main

// Maps and iteration.

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func shiftTop(x *Lin, op token.Token, hi, lo *big.Int) *big.Int {
	if x.k.Sign() < 0 {
		return nil
	}
	if op == token.SHL {
		return new(big.Int).Lsh(x.k, uint(hi.Uint64()))
	}
	return new(big.Int).Rsh(x.k, uint(lo.Uint64()))
}

// keyVal makes a map key a pure content value.
func keyVal(st *State, k Val, pos token.Pos) Val {
	if f, ok := k.(IfaceV); ok && f.typ != nil {
		return keyVal(st, f.v, pos)
	}
	if n, ok := k.(NodeV); ok {
		return NodeV{expand(n.N)}
	}
	return k
}

func (ip *Interp) mapNode(st *State, m MapV, pos token.Pos) MapN {
	if m.obj == nil {
		return MapN{}
	}
	n, ok := expand(st.content(m.obj)).(MapN)
	if !ok {
		unsupported(pos, "map content")
	}
	return n
}

type mapHit struct {
	st  *State
	has bool
	v   Val
}

// mapFind looks a key up, deciding where its entry comes from.
func (ip *Interp) mapFind(st *State, n MapN, key Val, kt, et types.Type, pos token.Pos) []mapHit {
	var out []mapHit
	cur := []*State{st}
	for i := len(n.ups) - 1; i >= 0; i-- {
		u := n.ups[i]
		var next []*State
		for _, s := range cur {
			t, f := split(s, eqVal(s, u.key, key, kt, kt), pos)
			for _, x := range t {
				if u.val == nil {
					out = append(out, mapHit{x, false, zeroVal(et)})
				} else {
					out = append(out, mapHit{x, true, u.val})
				}
			}
			next = append(next, f...)
		}
		cur = next
	}
	for _, s := range cur {
		if n.sym == nil {
			out = append(out, mapHit{s, false, zeroVal(et)})
			continue
		}
		if v, ok := currentEntry(n, key, et); ok {
			out = append(out, mapHit{s, true, v})
			continue
		}
		if v, ok := ownEntry(n, key, et); ok {
			out = append(out, mapHit{s, true, v})
			continue
		}
		has := bPred("has", SymV{n.sym}, key)
		t, f := split(s, has, pos)
		for _, x := range t {
			out = append(out, mapHit{x, true, symVal(et, mkSym("mval", SymV{n.sym}, key))})
		}
		for _, x := range f {
			out = append(out, mapHit{x, false, zeroVal(et)})
		}
	}
	return out
}

func (ip *Interp) lookup(st *State, base, idx Val, x *ssa.Lookup) ([]alt, []panAlt) {
	if s, ok := base.(SeqV); ok {
		return ip.index(st, s, idx, x.X.Type(), x.Type(), x.Pos())
	}
	m, ok := base.(MapV)
	if !ok {
		unsupported(x.Pos(), "lookup in %T", base)
	}
	mt := under(x.X.Type()).(*types.Map)
	key := keyVal(st, idx, x.Pos())
	var out []alt
	for _, h := range ip.mapFind(st, ip.mapNode(st, m, x.Pos()), key, mt.Key(), mt.Elem(), x.Pos()) {
		v := h.v
		h.st.emit(Event{kind: "mapget", args: []Val{m, key, BoolV{cBool(h.has)}, v}, pos: x.Pos()})
		if x.CommaOk {
			v = TupleV{[]Val{v, BoolV{cBool(h.has)}}}
		}
		out = append(out, alt{h.st, v})
	}
	return out, nil
}

func (ip *Interp) mapUpdate(st *State, mv, kv, v Val, pos token.Pos) ([]alt, []panAlt) {
	m := mv.(MapV)
	var oks []*State
	var pans []panAlt
	oks, pans = ip.require(st, bNeg(isNilVal(m)), pos, "assignment to entry in nil map")
	var out []alt
	for _, s := range oks {
		n := ip.mapNode(s, m, pos)
		key := keyVal(s, kv, pos)
		n = n.without(key)
		n.ups = append(n.ups, mupd{key, v})
		s.set(m.obj, n)
		s.emit(Event{kind: "mapset", args: []Val{m, key, v}, pos: pos})
		out = append(out, alt{s, nil})
	}
	return out, pans
}

// without drops earlier updates of the same key.
func (n MapN) without(key Val) MapN {
	r := n
	r.ups = nil
	for _, u := range n.ups {
		if u.key.Key() != key.Key() {
			r.ups = append(r.ups, u)
		}
	}
	return r
}

func (ip *Interp) mapDelete(st *State, mv, kv Val, pos token.Pos) ([]alt, []panAlt) {
	m := mv.(MapV)
	t, f := split(st, isNilVal(m), pos)
	var out []alt
	for _, s := range t {
		out = append(out, alt{s, nil})
	}
	for _, s := range f {
		n := ip.mapNode(s, m, pos)
		key := keyVal(s, kv, pos)
		n = n.without(key)
		n.ups = append(n.ups, mupd{key, nil})
		s.set(m.obj, n)
		s.emit(Event{kind: "mapdel", args: []Val{m, key}, pos: pos})
		out = append(out, alt{s, nil})
	}
	return out, nil
}

func (ip *Interp) mapLen(st *State, m MapV, pos token.Pos) *Lin {
	if m.obj == nil {
		return cLin(0)
	}
	return mapNodeLen(ip.mapNode(st, m, pos))
}

func mapNodeLen(n MapN) *Lin {
	if n.sym == nil && len(n.ups) == 0 {
		return cLin(0)
	}
	if n.sym == nil && len(n.ups) == 1 && n.ups[0].val != nil {
		return cLin(1)
	}
	a := mkAtom("maplen", []Val{NodeV{n}}, big0, maxLen)
	return a.lin()
}

// next advances a range iterator.
func (ip *Interp) next(fr *frame, st *State, x *ssa.Next) ([]alt, []panAlt) {
	it := ip.val(fr, x.Iter).(PtrV)
	tv := st.content(it.obj).(LeafN).V.(TupleV)
	at := tv.vs[1].(IntV).L
	set := func(s *State, p *Lin) {
		s.set(it.obj, LeafN{TupleV{[]Val{tv.vs[0], IntV{p}, tv.vs[2]}}})
	}
	tt := x.Type().(*types.Tuple)
	var out []alt
	if x.IsString {
		q := tv.vs[0].(SeqV).S
		t, f := split(st, bGe0(q.length().sub(at).addc(-1)), x.Pos())
		for _, s := range t {
			b := s.byteAt(q, at)
			a, w := split(s, bGe0(cLin(127).sub(b)), x.Pos())
			for _, s2 := range a {
				set(s2, at.addc(1))
				out = append(out, alt{s2, TupleV{[]Val{BoolV{bTrue}, IntV{at}, IntV{b}}}})
			}
			for _, s2 := range w {
				sy := mkSym("rune", SeqV{q}, IntV{at})
				r := mkAtom("runeval", []Val{SymV{sy}}, bi(128), bi(0x10ffff)).lin()
				n := mkAtom("runelen", []Val{SymV{sy}}, big1, bi(4)).lin()
				s2.f.addGE(q.length().sub(at).sub(n))
				set(s2, at.add(n))
				out = append(out, alt{s2, TupleV{[]Val{BoolV{bTrue}, IntV{at}, IntV{r}}}})
			}
		}
		for _, s := range f {
			out = append(out, alt{s, TupleV{[]Val{BoolV{bFalse}, IntV{cLin(0)}, IntV{cLin(0)}}}})
		}
		return out, nil
	}
	n := tv.vs[2].(NodeV).N.(MapN)
	if ent, ok := knownEntries(st, n); ok && len(n.ups) > 1 {
		if i, isC := at.constVal(); isC {
			return ip.nextKnown(st, tv, ent, i, x, set), nil
		}
	}
	t, f := split(st, bGe0(mapNodeLen(n).sub(at).addc(-1)), x.Pos())
	for _, s := range t {
		sy := mkSym("mapkey", NodeV{n}, IntV{at})
		mt := under(n.typ).(*types.Map)
		key := keyVal(s, symVal(mt.Key(), sy), x.Pos())
		var v Val
		if n.sym == nil && len(n.ups) == 1 && n.ups[0].val != nil {
			key, v = n.ups[0].key, n.ups[0].val
		} else {
			if n.sym != nil {
				_ = mt
			}
			v = symVal(mt.Elem(), mkSym("mapelem", NodeV{n}, IntV{at}))
		}
		set(s, at.addc(1))
		s.emit(Event{kind: "mapnext", args: []Val{tv.vs[0], key}, pos: x.Pos()})
		out = append(out, alt{s, TupleV{[]Val{BoolV{bTrue}, key, v}}})
	}
	for _, s := range f {
		var kv, vv Val
		if tt.Len() == 3 {
			mt := under(n.typ).(*types.Map)
			kv, vv = zeroVal(mt.Key()), zeroVal(mt.Elem())
		}
		out = append(out, alt{s, TupleV{[]Val{BoolV{bFalse}, kv, vv}}})
	}
	return out, nil
}

// knownEntries lists the entries of a map built in the analysis, if their keys are known to differ.
func knownEntries(st *State, n MapN) (out []mupd, ok bool) {
	if n.sym != nil {
		return nil, false
	}
	for i, u := range n.ups {
		x, ok := u.key.(SeqV)
		if !ok {
			return nil, false
		}
		for _, w := range n.ups[:i] {
			y, ok := w.key.(SeqV)
			if !ok || st.f.decide(seqEqBool(st.f, x.S, y.S)) != 0 {
				return nil, false
			}
		}
		if u.val != nil {
			out = append(out, u)
		}
	}
	return out, true
}

// nextKnown gives the next entry of a known list (the order is one of those possible) that is still in the map.
func (ip *Interp) nextKnown(st *State, tv TupleV, ent []mupd, i int64, x *ssa.Next, set func(*State, *Lin)) []alt {
	now, ok := knownEntries(st, ip.mapNode(st, tv.vs[0].(MapV), x.Pos()))
	if !ok {
		unsupported(x.Pos(), "the entries of the map become unknown")
	}
	at := map[string]Val{}
	for _, u := range now {
		at[u.key.Key()] = u.val
	}
	if i == 0 {
		for _, u := range ent {
			if at[u.key.Key()] == nil {
				unsupported(x.Pos(), "the map changes before the iteration")
			}
		}
	}
	was := map[string]bool{}
	for _, u := range ent {
		was[u.key.Key()] = true
	}
	for _, u := range now {
		if !was[u.key.Key()] {
			unsupported(x.Pos(), "entries are added to the map during the iteration")
		}
	}
	for ; i < int64(len(ent)); i++ {
		v := at[ent[i].key.Key()]
		if v == nil {
			continue
		}
		set(st, cLin(i+1))
		st.emit(Event{kind: "mapnext", args: []Val{tv.vs[0], ent[i].key}, pos: x.Pos()})
		return []alt{{st, TupleV{[]Val{BoolV{bTrue}, ent[i].key, v}}}}
	}
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	return []alt{{st, TupleV{[]Val{BoolV{bFalse}, zeroVal(mt.Key()), zeroVal(mt.Elem())}}}}
}

// ownEntry: a key met while iterating over the map has the entry met with it.
func ownEntry(n MapN, key Val, et types.Type) (Val, bool) {
	q, ok := key.(SeqV)
	if !ok || len(q.S.segs) != 1 || q.S.segs[0].kind != sRaw {
		return nil, false
	}
	s := q.S.segs[0].src
	if s.head != "mapkey" || len(s.args) != 2 || !holdsConst(q.S, s) {
		return nil, false
	}
	if b, ok := s.args[0].(NodeV); ok {
		if m, ok := b.N.(MapN); ok && m.sym == n.sym && len(m.ups) == 0 {
			return symVal(et, mkSym("mapelem", s.args[0], s.args[1])), true
		}
	}
	return nil, false
}
