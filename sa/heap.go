package main

// Abstract memory.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Event is an observable step recorded along a path.
type Event struct {
	kind string
	args []Val
	pos  token.Pos
	loop *LoopEvent
}

// LoopEvent is a summarised loop: n iterations, each performing one of the alternatives.
type LoopEvent struct {
	k    *Atom
	n    *Lin
	alts []Alt
}
type Alt struct {
	f  *Facts
	ev []Event
}

func (e Event) Key() string {
	if e.loop != nil {
		s := "loop " + e.loop.k.key + "<" + e.loop.n.Key() + "{"
		for _, a := range e.loop.alts {
			s += "["
			for _, x := range a.ev {
				s += x.Key() + ";"
			}
			s += "]"
		}
		return s + "}"
	}
	s := e.kind + "("
	for i, a := range e.args {
		if i > 0 {
			s += ", "
		}
		if a == nil {
			s += "_"
		} else {
			s += a.Key()
		}
	}
	return s + ")"
}

func evSubst(evs []Event, s Sub) []Event {
	out := make([]Event, len(evs))
	for i, e := range evs {
		n := e
		n.args = make([]Val, len(e.args))
		for j, a := range e.args {
			n.args[j] = substVal(a, s)
		}
		if e.loop != nil {
			l := *e.loop
			l.n = l.n.subst(s)
			l.alts = nil
			for _, a := range e.loop.alts {
				l.alts = append(l.alts, Alt{a.f, evSubst(a.ev, s)})
			}
			n.loop = &l
		}
		out[i] = n
	}
	return out
}

// State is the abstract state of one path.
type State struct {
	h     map[*Obj]Node
	f     *Facts
	ev    []Event
	conds []cond // branch decisions
	ghost map[string]Val
}

type cond struct {
	b     *Bool
	truth bool
	pos   token.Pos
}

func newState() *State { return &State{h: map[*Obj]Node{}, f: newFacts(), ghost: map[string]Val{}} }

func (s *State) clone() *State {
	n := &State{h: make(map[*Obj]Node, len(s.h)+4), f: s.f.clone(), ev: s.ev[:len(s.ev):len(s.ev)], conds: s.conds[:len(s.conds):len(s.conds)], ghost: s.ghost}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

func (s *State) setGhost(k string, v Val) {
	g := make(map[string]Val, len(s.ghost)+1)
	for a, b := range s.ghost {
		g[a] = b
	}
	g[k] = v
	s.ghost = g
}

func (s *State) emit(e Event) { s.ev = append(s.ev[:len(s.ev):len(s.ev)], e) }

func (s *State) content(o *Obj) Node {
	if n, ok := s.h[o]; ok {
		return n
	}
	if o.init == nil {
		o.init = globalInit(o)
	}
	return o.init
}

func (s *State) set(o *Obj, n Node) { s.h[o] = n }

// Unsupported aborts the analysis of a root: the construct is outside the analysed fragment.
type Unsupported struct {
	msg string
	pos token.Pos
}

func (u Unsupported) Error() string { return u.msg }

func unsupported(pos token.Pos, format string, args ...interface{}) {
	panic(Unsupported{fmt.Sprintf(format, args...), pos})
}

var objCount int

// isNew reports whether the object was allocated by the analysed code itself.
func (o *Obj) isNew() bool { return o.fresh && o.glob == nil && !o.start }

// shared reports whether the object is or belongs to a package-level variable.
func (o *Obj) shared() bool {
	if o.glob != nil {
		return true
	}
	if o.start {
		return !o.arr || o.alen == nil || !o.alen.isZero()
	}
	for s := o.sym; s != nil; {
		if strings.HasPrefix(s.head, "global:") {
			return true
		}
		var next *Sym
		if len(s.args) > 0 {
			if v, ok := s.args[0].(SymV); ok {
				next = v.S
			}
		}
		s = next
	}
	return false
}

func freshObj(t types.Type, where string) *Obj {
	objCount++
	o := &Obj{typ: t, where: where, fresh: true, seq: objCount, init: zeroNode(t)}
	o.key = fmt.Sprintf("o%d", objCount)
	objSeq++
	o.id = objSeq
	return o
}

func freshArr(elem types.Type, n *Lin, where string) *Obj {
	objCount++
	o := &Obj{typ: elem, arr: true, alen: n, where: where, fresh: true, seq: objCount}
	if isByte(elem) {
		o.init = BytesN{zeroSeq(n)}
	} else {
		o.init = ArrN{elem: elem, base: baseZero}
	}
	o.key = fmt.Sprintf("o%d", objCount)
	objSeq++
	o.id = objSeq
	return o
}

var symCount int

// freshSym names an unknown quantity.
func freshSym(what string) *Sym {
	symCount++
	return mkSym(fmt.Sprintf("%s#%d", what, symCount))
}

func freshInt(what string, lo, hi *Lin) *Lin {
	symCount++
	a := mkAtom(fmt.Sprintf("%s#%d", what, symCount), nil, nil, nil)
	if lo != nil && lo.isConst() {
		a.lo = lo.k
	}
	if hi != nil && hi.isConst() {
		a.hi = hi.k
	}
	return a.lin()
}

func expand(n Node) Node {
	if l, ok := n.(LazyN); ok {
		return lazyNode(l.typ, l.s)
	}
	return n
}

func fieldIdx(t types.Type, name string) int {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func arrRead(f *Facts, a ArrN, idx *Lin) Node {
	for i := len(a.ups) - 1; i >= 0; i-- {
		u := a.ups[i]
		if u.idx != nil {
			if f.entailsEq(u.idx, idx) {
				return u.node
			}
			d := idx.sub(u.idx)
			if f.entails(d.addc(-1)) || f.entails(d.neg().addc(-1)) || f.decide(bEq0(d)) == 0 {
				continue
			}
			return LazyN{a.elem, mkSym("sel", NodeV{a}, IntV{idx})}
		}
		if f.entails(idx.sub(u.lo)) && f.entails(u.hi.sub(idx).addc(-1)) {
			return substNode(u.node, Sub{u.v: idx})
		}
		if f.entails(u.lo.sub(idx).addc(-1)) || f.entails(idx.sub(u.hi)) {
			continue
		}
		return LazyN{a.elem, mkSym("sel", NodeV{a}, IntV{idx})}
	}
	if a.base == baseZero {
		return zeroNode(a.elem)
	}
	return LazyN{a.elem, a.sym.idx(idx)}
}

func arrWrite(f *Facts, a ArrN, idx *Lin, n Node) ArrN {
	ups := append([]upd(nil), a.ups...)
	for i := len(ups) - 1; i >= 0; i-- {
		u := ups[i]
		if u.idx == nil {
			break
		}
		if u.idx.eqSyn(idx) {
			ups = append(ups[:i], ups[i+1:]...)
			break
		}
		d := idx.sub(u.idx)
		if c, ok := d.constVal(); !ok || c == 0 {
			break
		}
	}
	a.ups = append(ups, upd{idx: idx, node: n})
	return a
}

// readNode follows path from node n.
func (s *State) readNode(n Node, path []PE, pos token.Pos) Node {
	for _, e := range path {
		n = expand(n)
		switch x := n.(type) {
		case StructN:
			if e.idx != nil {
				unsupported(pos, "index into struct")
			}
			n = x.fs[e.field]
		case ArrN:
			n = arrRead(s.f, x, e.idx)
		case BytesN:
			n = LeafN{IntV{s.byteAt(x.S, e.idx)}}
		default:
			unsupported(pos, "path into %T", n)
		}
	}
	return n
}

func (s *State) byteAt(q Seq, idx *Lin) *Lin {
	if len(q.segs) == 1 && q.segs[0].kind == sConst && !idx.isConst() && !allZero(q.segs[0].data) && !s.f.entails(idx.neg()) {
		return mkAtom("at", []Val{SeqV{q}, IntV{idx}}, big0, bi(255)).lin()
	}
	if sub, ok := q.slice(s.f, idx, idx.addc(1)); ok {
		if v := sub.num(1); v != nil {
			return v
		}
		if v := sub.resolve(s.f).num(1); v != nil {
			return v
		}
	}
	// a byte outside the sequence is never read: the bounds are an obligation of their own
	if len(q.segs) == 1 && q.segs[0].kind == sRaw && q.segs[0].src.head != "ite" {
		return mkBE(SymV{q.segs[0].src}, q.segs[0].off.add(idx), 1)
	}
	return mkAtom("at", []Val{SeqV{q}, IntV{idx}}, big0, bi(255)).lin()
}

func (s *State) writeNode(n Node, path []PE, v Node, pos token.Pos) Node {
	if len(path) == 0 {
		return v
	}
	n = expand(n)
	e := path[0]
	switch x := n.(type) {
	case StructN:
		fs := append([]Node(nil), x.fs...)
		fs[e.field] = s.writeNode(fs[e.field], path[1:], v, pos)
		return StructN{x.typ, fs}
	case ArrN:
		nv := v
		if len(path) > 1 {
			nv = s.writeNode(arrRead(s.f, x, e.idx), path[1:], v, pos)
		}
		return arrWrite(s.f, x, e.idx, nv)
	case BytesN:
		b, ok := nodeVal(v, nil).(IntV)
		if !ok {
			unsupported(pos, "non-integer byte store")
		}
		return BytesN{s.seqWrite(x.S, e.idx, byteSeq(b.L))}
	}
	unsupported(pos, "store path into %T", n)
	return nil
}

// seqWrite overwrites q at off with d.
func (s *State) seqWrite(q Seq, off *Lin, d Seq) Seq {
	dl := d.length()
	if dl.isZero() || s.f.entails(dl.neg()) {
		return q
	}
	head, rest, ok := q.cut(s.f, off)
	if ok {
		if _, tail, ok := rest.cut(s.f, dl); ok {
			return head.concat(d).concat(tail)
		}
	}
	return rawSeq(mkSym("upd", SeqV{q}, IntV{off}, SeqV{d}), cLin(0), q.length())
}

func (s *State) load(p PtrV, pos token.Pos) Node {
	return s.readNode(s.content(p.obj), p.path, pos)
}

func (s *State) store(p PtrV, v Node, pos token.Pos) {
	if p.obj.stale {
		unsupported(pos, "store through a pointer set in an earlier loop iteration")
	}
	s.set(p.obj, s.writeNode(s.content(p.obj), p.path, v, pos))
}

// bytesOf is the content of a byte slice.
func (s *State) bytesOf(v SliceV, pos token.Pos) Seq {
	if v.obj == nil || v.len.isZero() {
		return Seq{}
	}
	n := expand(s.readNode(s.content(v.obj), v.path, pos))
	b, ok := n.(BytesN)
	if !ok {
		unsupported(pos, "bytes of %T", n)
	}
	if q, ok := b.S.slice(s.f, v.off, v.off.add(v.len)); ok {
		return q
	}
	return rawSeq(mkSym("cut", SeqV{b.S}, IntV{v.off}), cLin(0), v.len)
}

func (s *State) writeBytes(v SliceV, off *Lin, d Seq, pos token.Pos) {
	if v.obj == nil {
		return
	}
	if v.obj.stale {
		unsupported(pos, "store through a pointer set in an earlier loop iteration")
	}
	n := expand(s.readNode(s.content(v.obj), v.path, pos))
	b, ok := n.(BytesN)
	if !ok {
		unsupported(pos, "byte store into %T", n)
	}
	nb := BytesN{s.seqWrite(b.S, v.off.add(off), d)}
	s.set(v.obj, s.writeNode(s.content(v.obj), v.path, nb, pos))
}

// sliceElem is the location of element i of a slice.
func sliceElem(v SliceV, i *Lin) PtrV {
	p := append(append([]PE(nil), v.path...), PE{idx: v.off.add(i)})
	return PtrV{obj: v.obj, path: p}
}

func ptrField(p PtrV, i int) PtrV {
	return PtrV{obj: p.obj, path: append(append([]PE(nil), p.path...), PE{field: i})}
}
func ptrIndex(p PtrV, i *Lin) PtrV {
	return PtrV{obj: p.obj, path: append(append([]PE(nil), p.path...), PE{idx: i})}
}

// substState applies a substitution to a whole state.
func (s *State) subst(sub Sub) {
	for o, n := range s.h {
		m := substNode(n, sub)
		if o2 := o.subst(sub); o2 != o {
			delete(s.h, o)
			s.h[o2] = m
		} else {
			s.h[o] = m
		}
	}
	g := make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		g[k] = substVal(v, sub)
	}
	s.ghost = g
	s.ev = evSubst(s.ev, sub)
	for i, c := range s.conds {
		if nb := c.b.subst(sub); nb != c.b {
			s.conds = append([]cond(nil), s.conds...)
			s.conds[i].b = nb
		}
	}
	s.f = s.f.subst(sub)
}

func (f *Facts) subst(sub Sub) *Facts {
	g := newFacts()
	g.log = f.log
	g.dead = f.dead
	for a, b := range f.bnd {
		if !sub.touches(a.fv) {
			g.bnd[a] = b
		}
	}
	for a, b := range f.bnd {
		if sub.touches(a.fv) {
			l := a.subst(sub)
			if b[0] != nil && (a.lo == nil || b[0].Cmp(a.lo) > 0) {
				g.addGE(l.sub(bLin(b[0])))
			}
			if b[1] != nil && (a.hi == nil || b[1].Cmp(a.hi) < 0) {
				g.addGE(bLin(b[1]).sub(l))
			}
		}
	}
	for _, l := range f.ge {
		g.addGE(l.subst(sub))
	}
	for _, l := range f.neq {
		g.neq = append(g.neq, l.subst(sub))
	}
	for k, v := range f.preds {
		if v.b != nil {
			nb := v.b.subst(sub)
			if nb != v.b {
				t := v.val
				for nb.op == bNot {
					nb, t = nb.a, !t
				}
				if nb.op == bAtom {
					g.preds[nb.Key()] = predFact{t, nb}
				}
				continue
			}
		}
		g.preds[k] = v
	}
	return g
}
