package main

// Loop discovery and summarisation.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopTab = map[*ssa.Function]map[*ssa.BasicBlock]*loop{}

// loopsOf finds the natural loops of a function, keyed by header.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if m, ok := loopTab[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	loopTab[fn] = m
	return m
}

type entry struct {
	fr   *frame
	st   *State
	from *ssa.BasicBlock
}

const maxUnroll = 300

// loop executes a loop entered from block from and returns the ways to leave it.
func (ip *Interp) loop(fr *frame, st *State, from *ssa.BasicBlock, L *loop) []res {
	ip.loopCtx = append(ip.loopCtx, fmt.Sprintf("%s:%d@%d", L.header.Parent(), L.header.Index, len(st.ev)))
	defer func() { ip.loopCtx = ip.loopCtx[:len(ip.loopCtx)-1] }()
	if ip.keepLoops != nil && loopCalls(L, ip.keepLoops) {
		ip.loopsSum++
		return ip.summarise(fr, st, from, L)
	}
	if out, ok := ip.unroll(fr.clone(), st.clone(), from, L); ok {
		ip.loopsUnr++
		return out
	}
	ip.loopsSum++
	return ip.summarise(fr, st, from, L)
}

// loopCalls: the loop calls the function, directly or through others of the module.
func loopCalls(L *loop, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var in func(b *ssa.BasicBlock) bool
	in = func(b *ssa.BasicBlock) bool {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || !isRepo(g) || seen[g] {
				continue
			}
			if g == fn {
				return true
			}
			seen[g] = true
			P.body(g)
			for _, b := range g.Blocks {
				if in(b) {
					return true
				}
			}
		}
		return false
	}
	for b := range L.blocks {
		if in(b) {
			return true
		}
	}
	return false
}

func (ip *Interp) unroll(fr *frame, st *State, from *ssa.BasicBlock, L *loop) ([]res, bool) {
	var out []res
	cur := []entry{{fr, st, from}}
	for it := 0; len(cur) > 0; it++ {
		if it > maxUnroll || len(cur) > 6 {
			return nil, false
		}
		var next []entry
		for _, e := range cur {
			ip.constEx[L], ip.softEx[L] = false, false
			ip.phis(e.fr, e.from, L.header)
			back := false
			for _, r := range ip.execFrom(e.fr, e.st, L.header, 0, L) {
				if r.kind == rBack {
					next = append(next, entry{r.fr, r.st, r.from})
					back = true
				} else {
					out = append(out, r)
				}
			}
			if back && !ip.unrollAll && (!ip.constEx[L] || ip.softEx[L]) {
				return nil, false
			}
		}
		cur = next
	}
	return out, true
}

// ---- summarisation

type slotKind int

const (
	slInt   slotKind = iota
	slSeq            // string or hash content
	slBytes          // byte array content
	slArr
	slSlice // slice with a changing backing array
	slBool
	slOther
)

type slot struct {
	id       int
	kind     slotKind
	name     string
	typ      types.Type
	at       *Atom    // slInt: placeholder
	tlo, thi *big.Int // range of its type
	sym      *Sym
	x0       Val // initial value (NodeV for contents)
	hv       Val
	ln       *slot // slSlice: its length
	capA     *Lin
	obj      *Obj // slSlice
	next     []Val
	nx       Val // merged next value
	tm       Val // value at iteration k
	tmN      Val // expected value after iteration k
	weak     int // 0: closed form, 1: counter, 2: opaque
	cond     []Val
	where    string
}

// SlotV marks a slot in a template.
type SlotV struct{ s *slot }

func (v SlotV) Key() string { return fmt.Sprintf("slot%d", v.s.id) }

type tmpl struct {
	guessed bool
	ip      *Interp
	L       *loop
	fr0     *frame
	st0     *State
	from    *ssa.BasicBlock
	k       *Atom
	id      int
	phi     map[*ssa.Phi]Val
	phis    []*ssa.Phi
	h       map[*Obj]Node
	slots   []*slot
	bySlot  map[*Atom]*slot
	seq0    int
	sym0    int
	inv     []*Lin // over slot atoms and k
	invKey  map[string]bool
}

var loopID int

func (t *tmpl) newSlot(kind slotKind, x0 Val, typ types.Type, name string) *slot {
	s := &slot{id: len(t.slots), kind: kind, x0: x0, typ: typ, name: name}
	t.slots = append(t.slots, s)
	nm := fmt.Sprintf("hv%d.%d", t.id, s.id)
	s.sym = mkSym(nm)
	switch kind {
	case slInt:
		var lo, hi *big.Int
		if typ != nil {
			if bits, signed, ok := intInfo(typ); ok {
				if signed {
					lo, hi = bLin(pow2(bits-1)).neg().k, bLin(pow2(bits-1)).addc(-1).k
				} else {
					lo, hi = big0, bLin(pow2(bits)).addc(-1).k
				}
			}
		}
		s.tlo, s.thi = lo, hi
		// the exploratory pass looks at values away from the ends of the 64-bit range;
		// the closed forms found are verified without this restriction
		if hi != nil && hi.BitLen() >= 63 {
			hi = pow2(61)
			if lo.Sign() < 0 {
				lo = bLin(hi).neg().k
			}
		}
		s.at = mkAtom(nm, nil, lo, hi)
		t.bySlot[s.at] = s
		s.hv = IntV{s.at.lin()}
	case slSeq:
		l := mkAtom("len", []Val{SymV{s.sym}}, big0, maxLen)
		s.hv = SeqV{rawSeq(s.sym, cLin(0), l.lin())}
	case slBytes:
		n := x0.(NodeV).N.(BytesN).S.length()
		s.hv = NodeV{BytesN{rawSeq(s.sym, cLin(0), n)}}
	case slArr:
		a := x0.(NodeV).N.(ArrN)
		s.hv = NodeV{ArrN{elem: a.elem, base: baseOpaque, sym: s.sym}}
	case slSlice:
		x := x0.(SliceV)
		s.ln = t.newSlot(slInt, IntV{x.len}, types.Typ[types.Int], name+".len")
		s.capA = mkAtom(nm+"cap", nil, big0, maxLen).lin()
		elem := under(typ).(*types.Slice).Elem()
		o := freshArr(elem, s.capA, "loop-carried slice")
		if isByte(elem) {
			o.init = BytesN{rawSeq(s.sym, cLin(0), s.capA)}
		} else {
			o.init = ArrN{elem: elem, base: baseOpaque, sym: s.sym}
		}
		s.obj = o
		s.hv = SliceV{obj: o, off: cLin(0), len: s.ln.at.lin(), cap: s.capA}
	case slBool:
		s.hv = BoolV{bPred("hv", SymV{s.sym})}
	default:
		s.hv = t.opaque(s, s.sym)
	}
	return s
}

func (t *tmpl) opaque(s *slot, sym *Sym) Val {
	if m, ok := s.x0.(NodeV); ok {
		switch n := m.N.(type) {
		case MapN:
			if n.sym != nil && len(n.ups) == 0 {
				if hvMaps == nil {
					hvMaps = map[string]*hvMap{}
				}
				hvMaps[sym.Key()] = &hvMap{base: n}
			}
			return NodeV{MapN{sym: sym, typ: n.typ}}
		case ArrN:
			return NodeV{ArrN{elem: n.elem, base: baseOpaque, sym: sym}}
		case BytesN:
			return NodeV{BytesN{rawSeq(sym, cLin(0), n.S.length())}}
		case StructN:
			return NodeV{LazyN{n.typ, sym}}
		case LazyN:
			return NodeV{LazyN{n.typ, sym}}
		}
	}
	switch x := s.x0.(type) {
	case SeqV:
		l := mkAtom("len", []Val{SymV{sym}}, big0, maxLen)
		return SeqV{rawSeq(sym, cLin(0), l.lin())}
	case OpaqueV:
		return OpaqueV{sym, x.typ}
	}
	if s.typ == nil {
		unsupported(token.NoPos, "loop-carried %T of unknown type", s.x0)
	}
	v := symVal(s.typ, sym)
	if p, ok := v.(PtrV); ok {
		p.obj = internObj("stale:"+sym.Key(), func() *Obj {
			return &Obj{typ: p.obj.typ, sym: sym.deref(), stale: true, init: LazyN{p.obj.typ, sym.deref()}}
		})
		return p
	}
	return v
}

// ---- template construction

func (t *tmpl) lggVal(a, b Val, typ types.Type, name string) Val {
	if _, ok := a.(SlotV); ok {
		return a
	}
	if a.Key() == b.Key() {
		return a
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return IntV{t.lggInt(x.L, y.L, typ, name)}
		}
	case BoolV:
		if _, ok := b.(BoolV); ok {
			return SlotV{t.newSlot(slBool, a, typ, name)}
		}
	case SeqV:
		if _, ok := b.(SeqV); ok {
			return SlotV{t.newSlot(slSeq, a, typ, name)}
		}
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			break
		}
		if x.obj == y.obj && x.obj != nil && pathKey(x.path) == pathKey(y.path) {
			r := x
			r.off = t.lggInt(x.off, y.off, types.Typ[types.Int], name+".off")
			r.len = t.lggInt(x.len, y.len, types.Typ[types.Int], name+".len")
			r.cap = t.lggInt(x.cap, y.cap, types.Typ[types.Int], name+".cap")
			if r.null != nil && (y.null == nil || y.null.Key() != r.null.Key()) {
				// a slice derived from a non-nil one stays non-nil once it was used
				r.null = bPred("hvnil", SymV{mkSym(fmt.Sprintf("hvn%d.%d", t.id, len(t.slots)))})
			}
			t.candSlice(r)
			return r
		}
		if typ != nil {
			if _, ok := under(typ).(*types.Slice); ok {
				return SlotV{t.newSlot(slSlice, a, typ, name)}
			}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			x.v = t.lggVal(x.v, y.v, x.typ, name)
			return x
		}
	case NodeV:
		if y, ok := b.(NodeV); ok {
			n := t.lggNode(x.N, y.N, typ, name)
			if l, ok := n.(LeafN); ok {
				if s, ok := l.V.(SlotV); ok {
					return s
				}
			}
			return NodeV{n}
		}
	case PtrV:
		y, ok := b.(PtrV)
		if ok && x.obj != nil && x.obj == y.obj && len(x.path) == len(y.path) {
			r := x
			r.path = append([]PE(nil), x.path...)
			for i := range r.path {
				if r.path[i].idx != nil && y.path[i].idx != nil {
					r.path[i].idx = t.lggInt(x.path[i].idx, y.path[i].idx, types.Typ[types.Int], name+".idx")
				} else if r.path[i].field != y.path[i].field {
					return SlotV{t.newSlot(slOther, a, typ, name)}
				}
			}
			return r
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(y.vs) == len(x.vs) {
			r := TupleV{make([]Val, len(x.vs))}
			for i := range x.vs {
				r.vs[i] = t.lggVal(x.vs[i], y.vs[i], nil, name)
			}
			return r
		}
	case FuncV:
		unsupported(token.NoPos, "loop-carried function value")
	}
	return SlotV{t.newSlot(slOther, a, typ, name)}
}

func (t *tmpl) lggInt(a, b *Lin, typ types.Type, name string) *Lin {
	if a.eqSyn(b) {
		return a
	}
	if len(a.ts) == 1 && a.k.Sign() == 0 && t.bySlot[a.ts[0].a] != nil {
		return a
	}
	s := t.newSlot(slInt, IntV{a}, typ, name)
	return s.at.lin()
}

func (t *tmpl) lggNode(a, b Node, typ types.Type, name string) Node {
	if l, ok := a.(LeafN); ok {
		if _, ok := l.V.(SlotV); ok {
			return a
		}
	}
	if a.Key() == b.Key() {
		return a
	}
	mk := func(k slotKind, n Node) Node {
		return LeafN{SlotV{t.newSlot(k, NodeV{n}, typ, name)}}
	}
	ax, bx := expand(a), expand(b)
	switch x := ax.(type) {
	case LeafN:
		if y, ok := bx.(LeafN); ok {
			return LeafN{t.lggVal(x.V, y.V, typ, name)}
		}
	case StructN:
		if y, ok := bx.(StructN); ok && len(x.fs) == len(y.fs) {
			st := under(x.typ).(*types.Struct)
			fs := make([]Node, len(x.fs))
			for i := range fs {
				fs[i] = t.lggNode(x.fs[i], y.fs[i], st.Field(i).Type(), name+"."+st.Field(i).Name())
			}
			return StructN{x.typ, fs}
		}
	case BytesN:
		if _, ok := bx.(BytesN); ok {
			return mk(slBytes, x)
		}
	case ArrN:
		if _, ok := bx.(ArrN); ok {
			return mk(slArr, x)
		}
	case MapN:
		if _, ok := bx.(MapN); ok {
			return mk(slOther, x)
		}
	}
	unsupported(token.NoPos, "loop-carried memory %T/%T", ax, bx)
	return nil
}

// gather records the next value of every slot.
func (t *tmpl) gatherVal(a, b Val, bs *State, put func(*slot, Val)) {
	switch x := a.(type) {
	case SlotV:
		put(x.s, b)
		if x.s.kind == slSlice {
			put(x.s.ln, IntV{b.(SliceV).len})
		}
	case IntV:
		t.gatherInt(x.L, b.(IntV).L, put)
	case SliceV:
		if y, ok := b.(SliceV); ok {
			t.gatherInt(x.off, y.off, put)
			t.gatherInt(x.len, y.len, put)
			t.gatherInt(x.cap, y.cap, put)
		}
	case PtrV:
		if y, ok := b.(PtrV); ok && len(x.path) == len(y.path) {
			for i := range x.path {
				if x.path[i].idx != nil && y.path[i].idx != nil {
					t.gatherInt(x.path[i].idx, y.path[i].idx, put)
				}
			}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok && x.typ != nil && y.typ != nil {
			t.gatherVal(x.v, y.v, bs, put)
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x.vs) == len(y.vs) {
			for i := range x.vs {
				t.gatherVal(x.vs[i], y.vs[i], bs, put)
			}
		}
	case NodeV:
		if y, ok := b.(NodeV); ok {
			t.gatherNode(x.N, y.N, bs, put)
		}
	}
}

func (t *tmpl) gatherInt(a, b *Lin, put func(*slot, Val)) {
	if len(a.ts) == 1 && a.k.Sign() == 0 {
		if s := t.bySlot[a.ts[0].a]; s != nil {
			put(s, IntV{b})
		}
	}
}

func (t *tmpl) gatherNode(a, b Node, bs *State, put func(*slot, Val)) {
	if l, ok := a.(LeafN); ok {
		if s, ok := l.V.(SlotV); ok {
			if y, ok := b.(LeafN); ok {
				put(s.s, y.V)
				if s.s.kind == slSlice {
					put(s.s.ln, IntV{y.V.(SliceV).len})
				}
				return
			}
			put(s.s, NodeV{expand(b)})
			return
		}
	}
	ax, bx := expand(a), expand(b)
	switch x := ax.(type) {
	case LeafN:
		if y, ok := bx.(LeafN); ok {
			t.gatherVal(x.V, y.V, bs, put)
		}
	case StructN:
		if y, ok := bx.(StructN); ok {
			for i := range x.fs {
				t.gatherNode(x.fs[i], y.fs[i], bs, put)
			}
		}
	}
}

// inst replaces the slots of a template by their values.
func (t *tmpl) instVal(a Val, f func(*slot) Val, sub Sub) Val {
	switch x := a.(type) {
	case SlotV:
		return f(x.s)
	case IfaceV:
		if x.typ != nil {
			x.v = t.instVal(x.v, f, sub)
		}
		return x
	case TupleV:
		r := TupleV{make([]Val, len(x.vs))}
		for i := range x.vs {
			r.vs[i] = t.instVal(x.vs[i], f, sub)
		}
		return r
	case NodeV:
		n := t.instNode(x.N, f, sub)
		if l, ok := n.(LeafN); ok {
			return l.V
		}
		return NodeV{n}
	}
	return substVal(a, sub)
}

func (t *tmpl) instNode(a Node, f func(*slot) Val, sub Sub) Node {
	switch x := a.(type) {
	case LeafN:
		return valNode(t.instVal(x.V, f, sub))
	case StructN:
		fs := make([]Node, len(x.fs))
		for i := range fs {
			fs[i] = t.instNode(x.fs[i], f, sub)
		}
		return StructN{x.typ, fs}
	}
	return substNode(a, sub)
}

type mode int

const (
	mHavoc mode = iota
	mTmpl
)

func (s *slot) value(m mode) Val {
	if m == mHavoc || s.tm == nil {
		return s.hv
	}
	if s.kind == slSlice && s.weak == 2 {
		// unknown elements, but the length may have a form
		if x, ok := s.tm.(SliceV); ok {
			if l, ok := s.ln.tm.(IntV); ok {
				x.len = l.L
				return x
			}
		}
	}
	return s.tm
}

// start builds the state at the head of iteration k.
func (t *tmpl) start(m mode) (*frame, *State) {
	fr, st := t.fr0.clone(), t.st0.clone()
	sub := Sub{}
	val := func(s *slot) Val { return s.value(m) }
	for _, s := range t.slots {
		if s.kind == slInt {
			l := s.value(m).(IntV).L
			if !l.eqSyn(s.at.lin()) {
				sub[s.at] = l
			}
		}
	}
	for p, v := range t.phi {
		fr.env[p] = t.instVal(v, val, sub)
	}
	for o, n := range t.h {
		st.h[o] = t.instNode(n, val, sub)
	}
	for _, s := range t.slots {
		if s.kind == slSlice {
			if m == mTmpl && s.cond != nil {
				st.h[s.obj] = s.cond[0].(NodeV).N
			}
			st.f.addGE(s.capA.sub(s.ln.value(m).(IntV).L))
		}
		if s.kind == slInt {
			l := s.value(m).(IntV).L
			if s.typ != nil && m == mTmpl {
				// machine arithmetic was checked not to wrap when the closed form was accepted
				if s.tlo != nil {
					st.f.addGE(l.sub(bLin(s.tlo)))
				}
				if s.thi != nil {
					st.f.addGE(bLin(s.thi).sub(l))
				}
			}
			if s.weak == 1 && m == mTmpl {
				for _, b := range s.cond {
					st.f.addGE(b.(IntV).L.subst(sub))
				}
			}
		}
	}
	for _, c := range t.inv {
		st.f.addGE(c.subst(sub))
	}
	st.ev = nil
	st.conds = nil
	return fr, st
}

func (t *tmpl) addInv(l *Lin) {
	if l.isConst() || len(t.inv) > 160 {
		return
	}
	l = normGE(l)
	if t.invKey[l.Key()] {
		return
	}
	t.invKey[l.Key()] = true
	// must hold initially
	if !t.st0.f.entails(l.subst(t.initSub())) {
		return
	}
	t.inv = append(t.inv, l)
}

func (t *tmpl) initSub() Sub {
	sub := Sub{t.k: cLin(0)}
	for _, s := range t.slots {
		if s.kind == slInt {
			sub[s.at] = s.x0.(IntV).L
		}
	}
	return sub
}

func (t *tmpl) candSlice(r SliceV) {
	t.addInv(r.len)
	t.addInv(r.off)
	t.addInv(r.cap.sub(r.len))
	if r.obj != nil {
		if r.obj.alen != nil {
			t.addInv(r.obj.alen.sub(r.off).sub(r.cap))
		}
	}
}

// run executes one iteration.
func (t *tmpl) run(m mode) []res {
	for _, s := range t.slots {
		if s.sym != nil && hvMaps[s.sym.Key()] != nil {
			hvMaps[s.sym.Key()].used = nil
		}
	}
	if debugLoops {
		fmt.Printf("run loop%d mode %d slots %d inv %d at %s\n", t.id, m, len(t.slots), len(t.inv), P.pos(t.L.header.Instrs[0].Pos()))
	}
	fr, st := t.start(m)
	if st.f.dead {
		return nil
	}
	return t.ip.execFrom(fr, st, t.L.header, 0, t.L)
}

// merge with a back edge; reports whether the template changed.
func (t *tmpl) absorb(r res) bool {
	n := len(t.slots)
	pi := -1
	for i, p := range t.L.header.Preds {
		if p == r.from {
			pi = i
		}
	}
	for _, ph := range t.phis {
		v := t.ip.val(r.fr, ph.Edges[pi])
		t.phi[ph] = t.lggVal(t.phi[ph], v, ph.Type(), ph.Comment+"/"+ph.Name())
	}
	for _, o := range sortedObjs(r.st.h) {
		if o.fresh && o.seq > t.seq0 && o.glob == nil {
			continue
		}
		cur, ok := t.h[o]
		if !ok {
			cur = t.st0.content(o)
		}
		nn := t.lggNode(cur, r.st.h[o], objType(o), o.Key())
		if ok || nn.Key() != cur.Key() {
			t.h[o] = nn
		}
	}
	return len(t.slots) != n
}

func objType(o *Obj) types.Type {
	if o.arr {
		return types.NewSlice(o.typ)
	}
	return o.typ
}

func sortedObjs(h map[*Obj]Node) []*Obj {
	var os []*Obj
	for o := range h {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	return os
}

type backVals struct {
	conds []cond
	vals  map[*slot]Val
	st    *State
	cond  *Bool // path condition
}

func (t *tmpl) collect(r res) backVals {
	bv := backVals{conds: r.st.conds, vals: map[*slot]Val{}, st: r.st}
	put := func(s *slot, v Val) {
		if i, ok := v.(IntV); ok {
			v = IntV{dropWraps(r.st.f, i.L)}
		}
		bv.vals[s] = v
	}
	pi := -1
	for i, p := range t.L.header.Preds {
		if p == r.from {
			pi = i
		}
	}
	for _, ph := range t.phis {
		t.gatherVal(t.phi[ph], t.ip.val(r.fr, ph.Edges[pi]), r.st, put)
	}
	for o, n := range t.h {
		t.gatherNode(n, r.st.content(o), r.st, put)
	}
	// slices with changing backing arrays: take their content along
	for _, s := range t.slots {
		if s.kind != slSlice {
			continue
		}
		v, ok := bv.vals[s].(SliceV)
		if !ok {
			continue
		}
		bv.vals[s] = TupleV{[]Val{v, t.sliceContent(r.st, v, s)}}
	}
	return bv
}

// dropWraps replaces the wrap-arounds in l that the facts decide.
func dropWraps(f *Facts, l *Lin) *Lin {
	for _, x := range l.ts {
		if x.a.head != "div" {
			continue
		}
		d, _ := x.a.args[1].(IntV)
		if n, ok := log2exact(d.L.k); !ok || n < 8 {
			continue
		}
		lo, hi := f.atomBounds(x.a)
		if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(big1) > 0 {
			continue
		}
		for _, v := range []*big.Int{lo, hi} {
			other := new(big.Int).Sub(new(big.Int).Add(lo, hi), v)
			if v.Cmp(other) == 0 || impossible(f, bEq0(x.a.lin().sub(bLin(v)))) {
				l = l.add(bLin(other).sub(x.a.lin()).mulc(x.c))
				break
			}
		}
	}
	return l
}

// impossible reports whether the facts exclude b.
func impossible(f *Facts, b *Bool) bool {
	for _, g := range f.clone().assume(b, true) {
		if !infeasible(g) {
			return false
		}
	}
	return true
}

// sliceContent is the content of the slice's elements as SeqV or ArrN starting at 0.
func (t *tmpl) sliceContent(st *State, v SliceV, s *slot) Val {
	elem := under(s.typ).(*types.Slice).Elem()
	if isByte(elem) {
		return SeqV{st.bytesOf(v, token.NoPos)}
	}
	if v.obj == nil {
		return NodeV{ArrN{elem: elem, base: baseZero}}
	}
	if !v.off.isZero() || len(v.path) > 0 {
		return OpaqueV{freshSym("slicecontent"), s.typ}
	}
	a, ok := expand(st.content(v.obj)).(ArrN)
	if !ok {
		return OpaqueV{freshSym("slicecontent"), s.typ}
	}
	return NodeV{a}
}

// famify turns references to objects allocated in iteration k into references to a family of objects.
func (t *tmpl) famify(st *State, n Node) Node {
	memo := map[*Obj]*Obj{}
	var obj func(o *Obj) *Obj
	var node func(n Node) Node
	var val func(v Val) Val
	obj = func(o *Obj) *Obj {
		if o == nil || !o.fresh || o.glob != nil || o.seq <= t.seq0 {
			return o
		}
		if o.fam != nil {
			if _, over := st.h[o]; !over {
				return o
			}
		}
		if m, ok := memo[o]; ok {
			return m
		}
		memo[o] = o // cycles stay as they are
		c := node(st.content(o))
		al := Val(IntV{cLin(0)})
		if o.arr {
			al = IntV{o.alen}
		}
		body := TupleV{[]Val{NodeV{c}, al}}
		fv := abstract(t.k, body)
		key := "fam:" + fv.Key()
		base := internObj(key, func() *Obj {
			return &Obj{typ: o.typ, arr: o.arr, fam: &fv, farg: cLin(0), where: o.where, fresh: true, seq: o.seq}
		})
		m := famObj(base, t.k.lin())
		memo[o] = m
		return m
	}
	val = func(v Val) Val {
		switch x := v.(type) {
		case PtrV:
			x.obj = obj(x.obj)
			return x
		case SliceV:
			x.obj = obj(x.obj)
			return x
		case MapV:
			x.obj = obj(x.obj)
			return x
		case IfaceV:
			if x.typ != nil {
				x.v = val(x.v)
			}
			return x
		case NodeV:
			return NodeV{node(x.N)}
		}
		return v
	}
	node = func(n Node) Node {
		switch x := n.(type) {
		case LeafN:
			return LeafN{val(x.V)}
		case StructN:
			fs := make([]Node, len(x.fs))
			for i := range fs {
				fs[i] = node(x.fs[i])
			}
			return StructN{x.typ, fs}
		case ArrN:
			ups := make([]upd, len(x.ups))
			for i, u := range x.ups {
				u.node = node(u.node)
				ups[i] = u
			}
			x.ups = ups
			return x
		}
		return n
	}
	return node(n)
}

// mergeBacks joins the back edges into one where they differ by decided conditions only.
func (t *tmpl) mergeBacks(bs []backVals, depth int) (map[*slot]Val, bool) {
	if len(bs) == 1 {
		return bs[0].vals, true
	}
	for d := depth; ; d++ {
		for _, b := range bs {
			if d >= len(b.conds) {
				return nil, false
			}
		}
		c := bs[0].conds[d]
		var yes, no []backVals
		same := true
		for _, b := range bs {
			if b.conds[d].b.Key() != c.b.Key() {
				same = false
			}
			if b.conds[d].truth {
				yes = append(yes, b)
			} else {
				no = append(no, b)
			}
		}
		if !same {
			return nil, false
		}
		if len(yes) == 0 || len(no) == 0 {
			continue
		}
		a, ok1 := t.mergeBacks(yes, d+1)
		b, ok2 := t.mergeBacks(no, d+1)
		if !ok1 || !ok2 {
			return nil, false
		}
		out := map[*slot]Val{}
		for _, s := range t.slots {
			x, ok1 := a[s]
			y, ok2 := b[s]
			if !ok1 || !ok2 {
				continue
			}
			if m := mergeVal(c.b, x, y); m != nil {
				out[s] = m
			} else if debugLoops {
				println("   no merge of slot", s.id, clip(x.Key(), 300), "AND", clip(y.Key(), 300))
			}
		}
		return out, true
	}
}

func mergeVal(p *Bool, x, y Val) Val {
	if x.Key() == y.Key() {
		return x
	}
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			d := a.L.sub(b.L)
			return IntV{b.L.add(b2i(p).mul(d))}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			return BoolV{bOr2(bAnd2(p, a.B), bAnd2(bNeg(p), b.B))}
		}
	case SeqV:
		if b, ok := y.(SeqV); ok {
			// common prefix
			i := 0
			for i < len(a.S.segs) && i < len(b.S.segs) && a.S.segs[i].Key() == b.S.segs[i].Key() {
				i++
			}
			out := Seq{segs: append([]Seg(nil), a.S.segs[:i]...)}
			out = out.appendSeg(Seg{kind: sOpt, cond: p, body: a.S.segs[i:]})
			out = out.appendSeg(Seg{kind: sOpt, cond: bNeg(p), body: b.S.segs[i:]})
			return SeqV{out}
		}
	case TupleV: // slice with content
		b := y.(TupleV)
		if len(a.vs) == 2 && len(b.vs) == 2 {
			c := mergeVal(p, a.vs[1], b.vs[1])
			if c == nil {
				return nil
			}
			sx, sy := a.vs[0].(SliceV), b.vs[0].(SliceV)
			sx.len = mergeVal(p, IntV{sx.len}, IntV{sy.len}).(IntV).L
			return TupleV{[]Val{sx, c}}
		}
	case NodeV:
		if b, ok := y.(NodeV); ok {
			if bx, ok := a.N.(BytesN); ok {
				if by, ok := b.N.(BytesN); ok && bx.S.length().eqSyn(by.S.length()) {
					// one place with a value of the same size
					p1, p2 := bx.S.segs, by.S.segs
					if n := len(p1); n == len(p2) {
						d := -1
						for i := range p1 {
							if p1[i].Key() != p2[i].Key() {
								if d >= 0 {
									d = -2
									break
								}
								d = i
							}
						}
						if d >= 0 {
							if w, ok := p1[d].length().constVal(); ok && p2[d].length().eqSyn(cLin(w)) && p1[d].kind != sOpt && p2[d].kind != sOpt {
								q := Seq{segs: append([]Seg(nil), p1[:d]...)}
								q = q.appendSeg(Seg{kind: sOpt, cond: p, body: []Seg{p1[d]}})
								q = q.appendSeg(Seg{kind: sOpt, cond: bNeg(p), body: []Seg{p2[d]}})
								for _, g := range p1[d+1:] {
									q = q.appendSeg(g)
								}
								if q.length().eqSyn(bx.S.length()) {
									return NodeV{BytesN{q}}
								}
							}
						}
					}
					return NodeV{BytesN{rawSeq(iteSym(p, SeqV{bx.S}, SeqV{by.S}), cLin(0), bx.S.length())}}
				}
			}
		}
	}
	return nil
}

// iteSym names a value chosen by a condition, in canonical orientation.
func iteSym(p *Bool, a, b Val) *Sym {
	if p.op == bNot {
		return iteSym(p.a, b, a)
	}
	return mkSym("ite", BoolV{p}, a, b)
}

// mkRec is the integer f^n(x0) with f(j, x) given by f over k and self.
func mkRec(f FunV, x0, n *Lin) *Lin {
	if r := recSupply(f, x0, n); r != nil {
		return r
	}
	base := &Lin{ts: n.ts, k: big0}
	if n.k.Sign() > 0 && n.k.IsInt64() && n.k.Int64() < 64 {
		cur := x0
		if len(base.ts) > 0 {
			cur = mkRec(f, x0, base)
		}
		for i := int64(0); i < n.k.Int64(); i++ {
			cur = f.apply(base.addc(i)).(FunV).apply(cur).(IntV).L
		}
		return cur
	}
	if n.isZero() {
		return x0
	}
	return mkAtom("rec", []Val{f, IntV{x0}, IntV{n}}, nil, nil).lin()
}

func recFun(k, self *Atom, next *Lin) FunV {
	return abstract(k, abstract(self, IntV{next}))
}

// solve computes closed forms for all slots from their next values.
func (t *tmpl) solve(bs []backVals) {
	merged, ok := t.mergeBacks(bs, 0)
	if debugLoops {
		for i, b := range bs {
			for _, c := range b.conds {
				println("   back", i, c.truth, clip(c.b.Key(), 200))
			}
			for _, s := range t.slots {
				if v := b.vals[s]; v != nil {
					println("   back", i, "slot", s.id, clip(v.Key(), 300))
				}
			}
		}
		println("   merged", ok)
	}
	k := t.k
	var ints []*slot
	for _, s := range t.slots {
		s.nx, s.next = nil, nil
		if s.weak == 2 {
			continue
		}
		s.tm, s.tmN, s.weak, s.cond = nil, nil, 0, nil
		for _, b := range bs {
			s.next = append(s.next, b.vals[s])
		}
		if ok {
			s.nx = merged[s]
		}
		if s.kind == slInt {
			ints = append(ints, s)
		}
	}
	hvFree := func(fv []*Atom) (own, other bool, which []*slot) {
		for _, a := range fv {
			if s := t.bySlot[a]; s != nil {
				which = append(which, s)
			}
		}
		return
	}
	sub := Sub{}
	accept := func(s *slot, l *Lin) {
		s.tm = IntV{l}
		sub[s.at] = l
	}
	for progress := true; progress; {
		progress = false
		// (a) increments that are the same on all edges and do not depend on unsolved slots
		for _, s := range ints {
			if s.tm != nil {
				continue
			}
			d := s.delta(sub)
			if d == nil {
				continue
			}
			_, _, w := hvFree(d.free())
			if len(w) > 0 || t.usesSlots(IntV{d}) {
				continue
			}
			accept(s, s.x0.(IntV).L.add(mkSum(k, d, k.lin())))
			progress = true
		}
		if progress {
			continue
		}
		// (b) proportional to another unsolved slot on every edge
		for _, s := range ints {
			if s.tm != nil {
				continue
			}
			for _, o := range ints {
				if o == s || o.id > s.id && o.tm == nil && o.prefers(s) {
					continue
				}
				if o.tm != nil || !o.positive(sub) {
					continue
				}
				if c := proportion(s, o, sub); c != 0 {
					// express s by o
					l := s.x0.(IntV).L.add(o.at.lin().sub(o.x0.(IntV).L).mulc64(c))
					sub[s.at] = l
					s.tm = IntV{l}
					progress = true
					break
				}
			}
			if progress {
				break
			}
		}
		if progress {
			continue
		}
		// (b') the value last set, which extends to the initial one
		for _, s := range ints {
			if s.tm != nil || s.nx == nil {
				continue
			}
			iv, ok := s.nx.(IntV)
			if !ok {
				continue
			}
			n := iv.L.subst(sub)
			_, _, w := hvFree(n.free())
			if len(w) > 0 || t.usesSlots(IntV{n}) {
				continue
			}
			prev := n.subst(Sub{k: k.lin().addc(-1)})
			if !prev.subst(Sub{k: cLin(0)}).eqSyn(s.x0.(IntV).L) {
				continue
			}
			accept(s, prev)
			progress = true
		}
		if progress {
			continue
		}
		// (c) recurrence on itself
		for _, s := range ints {
			if s.tm != nil {
				continue
			}
			d := s.delta(sub)
			if d == nil {
				continue
			}
			bad := false
			for _, a := range d.free() {
				if o := t.bySlot[a]; o != nil && o != s {
					bad = true
				}
			}
			if bad || t.usesSlots(IntV{d}) {
				continue
			}
			next := s.at.lin().add(d)
			accept(s, mkRec(recFun(k, s.at, next), s.x0.(IntV).L, k.lin()))
			progress = true
			break
		}
		if progress {
			continue
		}
		// (d) counters
		for _, s := range ints {
			if s.tm != nil {
				continue
			}
			s.weak = 2
			c := mkAtom("k", []Val{StrLit(fmt.Sprintf("c%d.%d", t.id, s.id))}, s.tlo, s.thi)
			s.cond = nil
			lo, hi, okc := s.deltaBounds(t, bs, sub)
			if okc {
				s.weak = 1
				if lo != nil {
					s.cond = append(s.cond, IntV{c.lin().sub(s.x0.(IntV).L).sub(k.lin().mulc(lo))})
				}
				if hi != nil {
					s.cond = append(s.cond, IntV{s.x0.(IntV).L.add(k.lin().mulc(hi)).sub(c.lin())})
				}
			}
			accept(s, c.lin())
			progress = true
			break
		}
	}
	// resolve chains (slot expressed by a slot solved later)
	for i := 0; i < 4; i++ {
		for _, s := range ints {
			if s.tm != nil {
				l := s.tm.(IntV).L.subst(sub)
				s.tm = IntV{l}
				sub[s.at] = l
			}
		}
	}
	for _, s := range ints {
		if s.weak != 0 {
			continue
		}
		if d := s.delta(sub); d != nil {
			s.tmN = IntV{s.tm.(IntV).L.add(d)}
		} else if s.tm != nil {
			s.tmN = IntV{s.tm.(IntV).L.subst(Sub{k: k.lin().addc(1)})}
		}
	}
	// contents
	for _, s := range t.slots {
		if s.kind == slInt || s.weak == 2 {
			continue
		}
		t.solveContent(s, sub, bs)
	}
}

// usesSlots reports whether v mentions a slot other than through solved integers.
func (t *tmpl) usesSlots(v Val) bool {
	k := v.Key()
	for _, s := range t.slots {
		if s.kind != slInt && contains(k, s.sym.Key()) {
			return true
		}
	}
	return false
}

func contains(s, sub string) bool {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			if i+n < len(s) && s[i+n] >= '0' && s[i+n] <= '9' {
				continue
			}
			return true
		}
	}
	return false
}

func (s *slot) prefers(o *slot) bool { return false }

func (s *slot) nexts() []Val {
	if s.nx != nil {
		return []Val{s.nx}
	}
	return s.next
}

// delta is the increment if all edges agree.
func (s *slot) delta(sub Sub) *Lin {
	var d *Lin
	for _, v := range s.nexts() {
		iv, ok := v.(IntV)
		if !ok {
			return nil
		}
		x := iv.L.sub(s.at.lin()).subst(sub)
		if d == nil {
			d = x
		} else if !d.eqSyn(x) {
			return nil
		}
	}
	return d
}

func (s *slot) positive(sub Sub) bool {
	for _, v := range s.nexts() {
		iv, ok := v.(IntV)
		if !ok {
			return false
		}
		d := iv.L.sub(s.at.lin()).subst(sub)
		for _, t := range d.ts {
			if t.c.Sign() < 0 {
				return false
			}
		}
	}
	return true
}

// proportion finds c with next_s - s = c*(next_o - o) on every edge.
func proportion(s, o *slot, sub Sub) int64 {
	sn, on := s.nexts(), o.nexts()
	if s.nx == nil || o.nx == nil {
		sn, on = s.next, o.next
	}
	if len(sn) != len(on) {
		return 0
	}
	for _, c := range []int64{1, -1, 2, -2, 20, 32, -32} {
		ok := true
		for i := range sn {
			a, ok1 := sn[i].(IntV)
			b, ok2 := on[i].(IntV)
			if !ok1 || !ok2 {
				return 0
			}
			da := a.L.sub(s.at.lin())
			db := b.L.sub(o.at.lin())
			if !da.eqSyn(db.mulc64(c)) && !da.subst(sub).eqSyn(db.mulc64(c).subst(sub)) {
				ok = false
				break
			}
		}
		if ok {
			return c
		}
	}
	return 0
}

func (s *slot) deltaBounds(t *tmpl, bs []backVals, sub Sub) (lo, hi *big.Int, ok bool) {
	first := true
	loInf, hiInf := false, false
	for _, b := range bs {
		iv, isInt := b.vals[s].(IntV)
		if !isInt {
			return nil, nil, false
		}
		l, h := b.st.f.bounds(iv.L.sub(s.at.lin()))
		if first {
			lo, hi = l, h
			first = false
		} else {
			if l == nil || lo != nil && l.Cmp(lo) < 0 {
				lo = l
			}
			if h == nil || hi != nil && h.Cmp(hi) > 0 {
				hi = h
			}
		}
		loInf = loInf || l == nil
		hiInf = hiInf || h == nil
	}
	if loInf {
		lo = nil
	}
	if hiInf {
		hi = nil
	}
	return lo, hi, lo != nil || hi != nil
}

func (t *tmpl) weaken(s *slot) {
	s.weak = 2
	s.cond = nil
	if s.kind == slInt {
		s.tm = IntV{mkAtom("k", []Val{StrLit(fmt.Sprintf("c%d.%d", t.id, s.id))}, s.tlo, s.thi).lin()}
		s.tmN = nil
		return
	}
	s.tm, s.tmN = s.hv, nil
}

// counterFill recognises an array filled at a counter: on some paths element c is set and c advances,
// on the others neither changes.
func (t *tmpl) counterFill(s *slot, sub Sub, bs []backVals) bool {
	x0n, ok := s.x0.(NodeV)
	if !ok {
		return false
	}
	x0, ok := x0n.N.(ArrN)
	if !ok {
		return false
	}
	for _, c := range t.slots {
		if c.kind != slInt || c.weak != 0 || c.tm == nil {
			continue
		}
		var el Node
		good := true
		for _, b := range bs {
			nv, ok := b.vals[s].(NodeV)
			cv, ok2 := b.vals[c].(IntV)
			if !ok || !ok2 {
				good = false
				break
			}
			a, ok := nv.N.(ArrN)
			if !ok || a.sym != s.sym || len(a.ups) > 1 {
				good = false
				break
			}
			d := cv.L.sub(c.at.lin())
			if len(a.ups) == 0 {
				if !d.isZero() {
					good = false
					break
				}
				continue
			}
			if a.ups[0].idx == nil || !a.ups[0].idx.eqSyn(c.at.lin()) || !d.addc(-1).isZero() {
				good = false
				break
			}
			n := t.famify(b.st, a.ups[0].node)
			// express the element by the counter
			es := Sub{}
			for _, o := range t.slots {
				if o.kind != slInt || o == c {
					continue
				}
				if m := proportion(o, c, Sub{}); m != 0 {
					es[o.at] = o.x0.(IntV).L.add(c.at.lin().sub(c.x0.(IntV).L).mulc64(m))
				}
			}
			n = substNode(n, es)
			for _, f := range nodeFree(n) {
				if f == t.k || t.bySlot[f] != nil && t.bySlot[f] != c {
					good = false
				}
			}
			if t.usesSlots(NodeV{n}) {
				good = false
			}
			if !good || el != nil && el.Key() != n.Key() {
				good = false
				break
			}
			el = n
		}
		if !good || el == nil {
			continue
		}
		kv := kappa(kappaLevel(NodeV{el}, c.at))
		lo, hi := c.x0.(IntV).L, c.tm.(IntV).L
		base := x0
		base.ups = append(append([]upd(nil), x0.ups...), upd{lo: lo, hi: hi, v: kv, node: substNode(el, Sub{c.at: kv.lin()})})
		s.tm = NodeV{base}
		s.tmN = NodeV{substNode(el, Sub{c.at: hi})}
		return true
	}
	return false
}

func (t *tmpl) solveContent(s *slot, sub Sub, bs []backVals) {
	k := t.k
	if s.kind == slArr && t.counterFill(s, sub, bs) {
		return
	}
	if s.nx == nil {
		t.weaken(s)
		return
	}
	nx := substVal(s.nx, sub)
	switch s.kind {
	case slSeq:
		n, ok := nx.(SeqV)
		if !ok {
			break
		}
		hvl := s.hv.(SeqV).S
		if len(n.S.segs) >= 1 && n.S.segs[0].Key() == hvl.segs[0].Key() {
			body := Seq{segs: n.S.segs[1:]}
			if !t.usesSlots(SeqV{body}) {
				r := s.x0.(SeqV).S.concat(repSeq(k, body, k.lin()))
				s.tm, s.tmN = SeqV{r}, SeqV{r.concat(body)}
				return
			}
		}
	case slSlice:
		tp, ok := nx.(TupleV)
		if !ok {
			break
		}
		// the slice last set, of a memory block the loop does not allocate
		if v, ok := tp.vs[0].(SliceV); ok && v.obj != nil && v.obj != s.obj && v.obj.seq <= t.seq0 && !t.usesSlots(v) && !t.usesSlots(tp.vs[1]) {
			c, isSeq := tp.vs[1].(SeqV)
			prev := Sub{k: k.lin().addc(-1)}
			pv := substVal(v, prev).(SliceV)
			x0 := s.x0.(SliceV)
			first := substVal(pv, Sub{k: cLin(0)}).(SliceV)
			if isSeq && first.len.eqSyn(x0.len) && (x0.len.isZero() || seqEqual(t.st0.f, t.st0.bytesOf(x0, token.NoPos), substVal(substVal(c, prev), Sub{k: cLin(0)}).(SeqV).S)) {
				if x0.obj == nil {
					pv.null = bEq0(k.lin())
				}
				s.tm, s.tmN = pv, c
				return
			}
		}
		lenTm, isInt := s.ln.tm.(IntV)
		if !isInt || s.ln.weak != 0 {
			break
		}
		switch c := tp.vs[1].(type) {
		case SeqV:
			segs := c.S.segs
			// prefix hv[0:len]
			if len(segs) >= 1 && segs[0].kind == sRaw && segs[0].src == s.sym && segs[0].off.isZero() && segs[0].n.eqSyn(lenTm.L) {
				body := Seq{segs: segs[1:]}
				if t.usesSlots(SeqV{body}) {
					break
				}
				x0 := t.st0.bytesOf(s.x0.(SliceV), token.NoPos)
				q := x0.concat(repSeq(k, body, k.lin()))
				full := q.concat(rawSeq(s.sym, lenTm.L, s.capA.sub(lenTm.L)))
				s.tm = SliceV{obj: s.obj, off: cLin(0), len: lenTm.L, cap: s.capA}
				s.cond = []Val{NodeV{BytesN{full}}}
				s.tmN = SeqV{q.concat(body)}
				return
			}
		case NodeV:
			a, ok := c.N.(ArrN)
			if !ok || len(a.ups) != 1 || a.base != baseOpaque || a.sym != s.sym || a.ups[0].idx == nil {
				break
			}
			x0 := s.x0.(SliceV)
			base := ArrN{elem: a.elem, base: baseZero}
			if x0.obj != nil && !x0.len.isZero() {
				b2, ok := expand(t.st0.content(x0.obj)).(ArrN)
				if !ok || !x0.off.isZero() || len(x0.path) > 0 {
					break
				}
				base = b2
			}
			if !a.ups[0].idx.eqSyn(x0.len.add(k.lin())) {
				break
			}
			el := t.famify(bs[0].st, a.ups[0].node)
			el = substNode(el, sub)
			if t.usesSlots(NodeV{el}) || strings.Contains(el.Key(), "k(c") {
				// the elements may continue the pattern of the elements already there
				if e, tm, ok := continuePattern(base, x0.len, k); ok {
					s.tm = SliceV{obj: s.obj, off: cLin(0), len: lenTm.L, cap: s.capA}
					s.cond = []Val{NodeV{tm}}
					s.tmN = NodeV{e}
					return
				}
				break
			}
			base.ups = append(append([]upd(nil), base.ups...), rangeUpd(k, x0.len, x0.len.add(k.lin()), el))
			s.tm = SliceV{obj: s.obj, off: cLin(0), len: lenTm.L, cap: s.capA}
			s.cond = []Val{NodeV{base}}
			s.tmN = NodeV{el}
			return
		}
	case slBytes:
		n, ok := nx.(NodeV)
		if !ok {
			break
		}
		b := n.N.(BytesN).S
		x0 := s.x0.(NodeV).N.(BytesN).S
		// hv[0:o] body hv[o+w:]
		segs := b.segs
		i := 0
		var off *Lin = cLin(0)
		isHv := func(g Seg) bool { return g.kind == sRaw && g.src == s.sym }
		if len(segs) > 0 && isHv(segs[0]) && segs[0].off.isZero() {
			off = segs[0].n
			i = 1
		}
		j := i
		for j < len(segs) && !isHv(segs[j]) {
			j++
		}
		body := Seq{segs: segs[i:j]}
		w := body.length()
		okForm := j >= len(segs)-1 && len(body.segs) > 0
		if j == len(segs)-1 {
			okForm = okForm && segs[j].off.eqSyn(off.add(w))
		}
		if okForm {
			wc, isC := w.constVal()
			if isC {
				b0 := off.subst(Sub{k: cLin(0)})
				if off.eqSyn(b0.add(k.lin().mulc64(wc))) && !t.usesSlots(SeqV{body}) {
					if head, rest, ok := x0.cut(t.st0.f, b0); ok {
						tail := Seq{}
						// the part not yet overwritten
						f := t.st0.f.clone()
						f.addGE(k.lin())
						f.addGE(rest.length().sub(k.lin().mulc64(wc)))
						if _, t2, ok := rest.cut(f, k.lin().mulc64(wc)); ok {
							tail = t2
						} else {
							tail = rawSeq(mkSym("cut", SeqV{rest}, IntV{k.lin().mulc64(wc)}), cLin(0), rest.length().sub(k.lin().mulc64(wc)))
						}
						s.tm = NodeV{BytesN{head.concat(repSeq(k, body, k.lin())).concat(tail)}}
						s.tmN = SeqV{head.concat(repSeq(k, body, k.lin())).concat(body)}
						t.addInvTm(rest.length().sub(k.lin().mulc64(wc)))
						return
					}
				}
			}
		}
		// recurrence on the whole content
		if f, ok := t.recContent(s, SeqV{b}); ok {
			sy := mkSym("rec", f, SeqV{x0}, IntV{k.lin()})
			s.tm = NodeV{BytesN{rawSeq(sy, cLin(0), x0.length())}}
			s.tmN = SeqV{substSym(b, s.sym, sy)}
			return
		}
	case slArr:
		n, ok := nx.(NodeV)
		if !ok {
			break
		}
		a, ok := n.N.(ArrN)
		if !ok || a.sym != s.sym || len(a.ups) != 1 || a.ups[0].idx == nil {
			break
		}
		x0 := s.x0.(NodeV).N.(ArrN)
		idx := a.ups[0].idx
		b0 := idx.subst(Sub{k: cLin(0)})
		if !idx.eqSyn(b0.add(k.lin())) {
			break
		}
		el := substNode(t.famify(bs[0].st, a.ups[0].node), sub)
		if t.usesSlotsExcept(NodeV{el}, nil) {
			break
		}
		base := x0
		base.ups = append(append([]upd(nil), x0.ups...), rangeUpd(k, b0, idx, el))
		s.tm = NodeV{base}
		s.tmN = NodeV{el}
		return
	}
	t.weaken(s)
}

func (t *tmpl) usesSlotsExcept(v Val, x *slot) bool { return t.usesSlots(v) }

func (t *tmpl) addInvTm(l *Lin) {
	t.addInv(l)
}

func rangeUpd(k *Atom, lo, hi *Lin, el Node) upd {
	// el is given for iteration k, index lo+k
	kv := kappa(kappaLevel(NodeV{el}, k))
	return upd{lo: lo, hi: hi, v: kv, node: substNode(el, Sub{k: kv.lin().sub(lo)})}
}

func repSeq(k *Atom, body Seq, n *Lin) Seq {
	if len(body.segs) == 0 {
		return Seq{}
	}
	kv := kappa(kappaLevel(SeqV{body}, k))
	b := body.subst(Sub{k: kv.lin()})
	return Seq{}.appendSeg(Seg{kind: sRep, n: n, kv: kv, body: b.segs})
}

var recSelf = mkSym("self")

// recContent abstracts a content recurrence over its own previous content and k.
func (t *tmpl) recContent(s *slot, next SeqV) (FunV, bool) {
	k := t.k
	b := substSym(next.S, s.sym, recSelf)
	if t.usesSlots(SeqV{b}) {
		return FunV{}, false
	}
	return abstract(k, SeqV{b}), true
}

// substSym replaces a symbol inside a sequence.
func substSym(q Seq, from, to *Sym) Seq {
	v := replSym(SeqV{q}, from, to)
	return v.(SeqV).S
}

// verify compares the back edges of a template run with the template.
func (t *tmpl) verify(bs []backVals) (bad []*slot) {
	for _, s := range t.slots {
		for _, b := range bs {
			v, have := b.vals[s]
			if !t.matches(s, v, have, b) {
				bad = append(bad, s)
				break
			}
		}
	}
	return
}

func (t *tmpl) matches(s *slot, v Val, have bool, b backVals) bool {
	if s.kind == slInt {
		switch s.weak {
		case 2:
			return true
		case 1:
			iv, ok := v.(IntV)
			if !ok {
				return false
			}
			c := s.tm.(IntV).L.ts[0].a
			for _, bd := range s.cond {
				l := bd.(IntV).L.subst(Sub{t.k: t.k.lin().addc(1), c: iv.L})
				if !b.st.f.entails(l) {
					return false
				}
			}
			return true
		}
		iv, ok := v.(IntV)
		if !ok || s.tmN == nil {
			return false
		}
		return b.st.f.entailsEq(iv.L, s.tmN.(IntV).L)
	}
	if s.weak == 2 {
		return true
	}
	if !have || s.tmN == nil {
		return false
	}
	switch s.kind {
	case slSeq:
		n, ok := v.(SeqV)
		return ok && seqEqual(b.st.f, n.S, s.tmN.(SeqV).S)
	case slSlice:
		tp, ok := v.(TupleV)
		if !ok {
			return false
		}
		switch want := s.tmN.(type) {
		case SeqV:
			c, ok := tp.vs[1].(SeqV)
			return ok && seqEqual(b.st.f, c.S, want.S)
		case NodeV:
			c, ok := tp.vs[1].(NodeV)
			if !ok {
				return false
			}
			return t.arrMatches(s.cond[0].(NodeV).N.(ArrN), c.N, want.N, b)
		}
	case slBytes:
		n, ok := v.(NodeV)
		if !ok {
			return false
		}
		q := n.N.(BytesN).S
		want := s.tmN.(SeqV).S
		if want.length().eqSyn(q.length()) {
			return seqEqual(b.st.f, q, want)
		}
		h, _, ok := q.cut(b.st.f, want.length())
		return ok && seqEqual(b.st.f, h, want)
	case slArr:
		n, ok := v.(NodeV)
		if !ok {
			return false
		}
		return t.arrMatches(s.tm.(NodeV).N.(ArrN), n.N, s.tmN.(NodeV).N, b)
	}
	return false
}

// continuePattern extends the last range of a up to n by k more elements.
func continuePattern(a ArrN, n *Lin, k *Atom) (Node, ArrN, bool) {
	if len(a.ups) == 0 {
		return nil, a, false
	}
	u := a.ups[len(a.ups)-1]
	if u.idx != nil || u.v == nil || !u.hi.eqSyn(n) {
		return nil, a, false
	}
	u.hi = n.add(k.lin())
	el := substNode(u.node, Sub{u.v: u.hi})
	a.ups = append(append([]upd(nil), a.ups[:len(a.ups)-1]...), u)
	return el, a, true
}

// arrMatches checks that next is the template array with one more element.
func (t *tmpl) arrMatches(tm ArrN, next Node, el Node, b backVals) bool {
	n, ok := next.(ArrN)
	if !ok || len(tm.ups) == 0 {
		return false
	}
	if n.Key() == tm.Key() {
		// nothing set in this iteration: the filled range must not grow
		hi := tm.ups[len(tm.ups)-1].hi
		return b.st.f.entailsEq(hi, hi.subst(Sub{t.k: t.k.lin().addc(1)}))
	}
	if len(n.ups) != len(tm.ups)+1 {
		return false
	}
	for i := range tm.ups {
		a, c := ArrN{ups: tm.ups[i : i+1]}, ArrN{ups: n.ups[i : i+1]}
		if a.Key() != c.Key() {
			return false
		}
	}
	u := n.ups[len(n.ups)-1]
	if u.idx == nil || !b.st.f.entailsEq(u.idx, tm.ups[len(tm.ups)-1].hi) {
		return false
	}
	got := t.famify(b.st, u.node)
	return got.Key() == el.Key()
}

func (ip *Interp) summarise(fr *frame, st *State, from *ssa.BasicBlock, L *loop) []res {
	loopID++
	t := &tmpl{ip: ip, L: L, fr0: fr.clone(), st0: st.clone(), from: from, id: loopID, phi: map[*ssa.Phi]Val{}, h: map[*Obj]Node{}, bySlot: map[*Atom]*slot{}, invKey: map[string]bool{}, seq0: objCount, sym0: symCount}
	t.k = mkAtom("k", []Val{StrLit(fmt.Sprintf("L%d", t.id))}, big0, maxLen)
	t.st0.ev, t.st0.conds = nil, nil
	ip.loopDepth++
	defer func() { ip.loopDepth-- }()
	pi := -1
	for i, p := range L.header.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range L.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t.phis = append(t.phis, ph)
		t.phi[ph] = ip.val(fr, ph.Edges[pi])
	}
	// discover what changes
	var rs []res
	for i := 0; ; i++ {
		if i > 12 {
			unsupported(L.header.Instrs[0].Pos(), "loop state does not stabilise in %s", fr.fn)
		}
		rs = t.run(mHavoc)
		ch := false
		for _, r := range rs {
			if r.kind == rBack && t.absorb(r) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	var backs []backVals
	collect := func() {
		backs = nil
		for _, r := range rs {
			if r.kind == rBack {
				backs = append(backs, t.collect(r))
			}
		}
	}
	collect()
	if len(backs) == 0 {
		// never repeats: a single pass from the initial state
		fr2, st2 := fr.clone(), st.clone()
		ip.phis(fr2, from, L.header)
		return ip.execFrom(fr2, st2, L.header, 0, L)
	}
	t.gatherInvs(backs)
	// an intermediate havoc run with invariants gives fewer spurious paths
	for i := 0; i < 8; i++ {
		rs = t.run(mHavoc)
		collect()
		if !t.dropInvs(backs, mHavoc) {
			break
		}
	}
	if len(backs) == 0 {
		fr2, st2 := fr.clone(), st.clone()
		ip.phis(fr2, from, L.header)
		return ip.execFrom(fr2, st2, L.header, 0, L)
	}
	if grs, gbs, ok := t.guess(backs); ok {
		return t.finish(st, grs, gbs)
	}
	if len(backs) > 1 && t.guessed {
		rs = t.run(mHavoc)
		collect()
	}
	t.solve(backs)
	for i := 0; ; i++ {
		if i > 20 {
			unsupported(L.header.Instrs[0].Pos(), "loop summary does not stabilise in %s", fr.fn)
		}
		rs = t.run(mTmpl)
		grown := false
		for _, r := range rs {
			if r.kind == rBack && t.absorb(r) {
				grown = true
			}
		}
		if grown {
			for _, s := range t.slots {
				if s.tm == nil {
					t.weaken(s)
				}
			}
			continue
		}
		collect()
		if t.dropInvs(backs, mTmpl) {
			continue
		}
		bad := t.verify(backs)
		if debugLoops {
			for _, s := range t.slots {
				fmt.Printf("  slot%d kind %d weak %d tm %v tmN %v\n", s.id, s.kind, s.weak, keyOf(s.tm), keyOf(s.tmN))
				for _, b := range backs {
					fmt.Printf("     next %v\n", keyOf(b.vals[s]))
				}
			}
			for _, b := range bad {
				fmt.Printf("  bad slot%d\n", b.id)
			}
		}
		if len(bad) == 0 {
			break
		}
		for _, s := range bad {
			if s.weak == 1 && len(s.cond) > 0 {
				s.weak = 2
				s.cond = nil
				continue
			}
			t.weaken(s)
		}
	}
	return t.finish(st, rs, backs)
}

// guess tries the summary that follows from a part of the back edges only, those on which a counter
// advances by a constant that it does not advance by on the others: it stands if with it no other back
// edge can be taken.
func (t *tmpl) guess(backs []backVals) (grs []res, gbs []backVals, good bool) {
	if len(backs) < 2 || len(backs) > 8 {
		return nil, nil, false
	}
	isConst := func(s *slot, b backVals) bool {
		v, ok := b.vals[s].(IntV)
		if !ok {
			return false
		}
		c, ok := v.L.sub(s.at.lin()).constVal()
		return ok && c != 0
	}
	var part []backVals
	for _, s := range t.slots {
		if s.kind != slInt {
			continue
		}
		var yes []backVals
		other := false
		for _, b := range backs {
			if isConst(s, b) {
				yes = append(yes, b)
			} else if v, ok := b.vals[s].(IntV); ok && !v.L.sub(s.at.lin()).isConst() {
				other = true
			}
		}
		if other && len(yes) > 0 && len(yes) < len(backs) {
			part = yes
			break
		}
	}
	if part == nil {
		return nil, nil, false
	}
	t.guessed = true
	old := map[*slot]slot{}
	for _, s := range t.slots {
		old[s] = *s
	}
	inv := append([]*Lin(nil), t.inv...)
	restore := func() {
		for s, o := range old {
			*s = o
		}
		t.inv = inv
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
			restore()
			grs, gbs, good = nil, nil, false
		}
	}()
	t.solve(part)
	for i := 0; i < 6; i++ {
		for _, s := range t.slots {
			if s.kind == slInt && (s.weak != 0 || s.tm == nil) {
				restore()
				return nil, nil, false
			}
			if s.tm == nil {
				t.weaken(s)
			}
		}
		rs := t.run(mTmpl)
		var bs []backVals
		for _, r := range rs {
			if r.kind == rBack {
				if t.absorb(r) {
					restore()
					return nil, nil, false
				}
				bs = append(bs, t.collect(r))
			}
		}
		if t.dropInvs(bs, mTmpl) {
			continue
		}
		bad := t.verify(bs)
		if len(bad) == 0 {
			return rs, bs, true
		}
		for _, s := range bad {
			if s.kind == slInt {
				restore()
				return nil, nil, false
			}
			t.weaken(s)
		}
	}
	restore()
	return nil, nil, false
}

// gatherInvs proposes linear invariants from the branch conditions of the loop.
func (t *tmpl) gatherInvs(bs []backVals) {
	for _, s := range t.slots {
		if s.kind == slInt {
			x0 := s.x0.(IntV).L
			t.addInv(s.at.lin().sub(x0))
			t.addInv(x0.sub(s.at.lin()))
			t.addInv(s.at.lin())
			if t.ip.slotMax != nil && s.typ != nil && isU64(s.typ) {
				t.addInv(bLin(t.ip.slotMax).sub(s.at.lin()))
			} else if t.ip.lenMax != nil {
				t.addInv(t.ip.lenMax.sub(s.at.lin()))
			}
		}
	}
	var is []*slot
	for _, s := range t.slots {
		if s.kind == slInt {
			is = append(is, s)
		}
	}
	if len(is) <= 10 {
		for i, s := range is {
			for _, o := range is[:i] {
				d := s.at.lin().sub(o.at.lin())
				d = d.sub(d.subst(t.initSub()))
				t.addInv(d)
				t.addInv(d.neg())
				e := s.at.lin().add(o.at.lin())
				e = e.sub(e.subst(t.initSub()))
				t.addInv(e)
				t.addInv(e.neg())
			}
		}
	}
	cand := func(l *Lin) {
		has := false
		for _, a := range l.free() {
			if t.bySlot[a] != nil {
				has = true
			} else if !strings.HasPrefix(a.head, "hv") && a.head != "v" && a.head != "len" && a.head != "cap" && a.head != "k" && a.head != "be" && a.head != "div" && a.head != "dsz" {
				return
			}
		}
		if !has {
			return
		}
		t.addInv(l)
		t.addInv(l.addc(1))
	}
	for _, b := range bs {
		for _, c := range b.conds {
			var walk func(x *Bool)
			walk = func(x *Bool) {
				if x == nil {
					return
				}
				if x.lin != nil {
					cand(x.lin)
					cand(x.lin.neg())
				}
				walk(x.a)
				walk(x.b)
			}
			walk(c.b)
		}
	}
}

// dropInvs removes the candidates that are not preserved.
func (t *tmpl) dropInvs(bs []backVals, m mode) bool {
	var keep []*Lin
	for _, c := range t.inv {
		ok := true
		for _, b := range bs {
			sub := Sub{t.k: t.k.lin().addc(1)}
			for s, v := range b.vals {
				if iv, isInt := v.(IntV); isInt && s.kind == slInt {
					sub[s.at] = iv.L
				}
			}
			if !b.st.f.entails(c.subst(sub)) {
				ok = false
				break
			}
		}
		if ok {
			keep = append(keep, c)
		}
	}
	ch := len(keep) != len(t.inv)
	t.inv = keep
	return ch
}

// finish turns the final run into the ways out of the loop.
func (t *tmpl) finish(st *State, rs []res, backs []backVals) []res {
	t.checkMaps(backs)
	k := t.k
	var alts []Alt
	var paths []*Bool
	// the iteration number is bound in the event
	it := mkAtom("k", []Val{StrLit(fmt.Sprintf("it%d", t.id))}, big0, maxLen)
	bind := Sub{k: it.lin()}
	for _, b := range backs {
		if len(b.st.ev) == 0 {
			alts = append(alts, Alt{f: b.st.f.subst(bind)})
		} else {
			alts = append(alts, Alt{b.st.f.subst(bind), evSubst(b.st.ev, bind)})
		}
		p := bTrue
		for _, c := range b.conds {
			x := c.b
			if !c.truth {
				x = bNeg(x)
			}
			p = bAnd2(p, x)
		}
		paths = append(paths, p)
	}
	phi := bFalse
	for _, p := range paths {
		phi = bOr2(phi, p)
	}
	any := false
	for _, a := range alts {
		if len(a.ev) > 0 {
			any = true
		}
	}
	allP := bPred("all", abstract(k, BoolV{phi}), IntV{k.lin()})
	var out []res
	for _, r := range rs {
		if r.kind == rBack {
			continue
		}
		evs := append([]Event(nil), st.ev...)
		if any {
			evs = append(evs, Event{kind: "loop", pos: t.L.header.Instrs[0].Pos(), loop: &LoopEvent{k: it, n: k.lin(), alts: alts}})
		}
		evs = append(evs, r.st.ev...)
		conds := append(append([]cond(nil), st.conds...), r.st.conds...)
		if phi.op != bConst {
			fs := r.st.f.assume(allP, true)
			if len(fs) == 0 {
				continue
			}
			r.st.f = fs[0]
			conds = append(conds, cond{allP, true, token.NoPos})
		}
		r.st.ev, r.st.conds = evs, conds
		// iteration count determined by the exit condition
		if e := t.exitCount(r.st, phi); e != nil {
			sub := Sub{k: e}
			r.st.subst(sub)
			fr := r.fr.clone()
			for v, x := range fr.env {
				fr.env[v] = substVal(x, sub)
			}
			r.fr = fr
			for i := range r.ret {
				r.ret[i] = substVal(r.ret[i], sub)
			}
		}
		out = append(out, r)
	}
	if endlessOn {
		out = append(out, t.endless(st, backs)...)
	}
	return out
}

// exitCount finds a loop-invariant expression equal to k.
func (t *tmpl) exitCount(st *State, phi *Bool) *Lin {
	k := t.k
	try := func(l *Lin) *Lin {
		c := l.coef(k)
		if c.Sign() == 0 || c.CmpAbs(big1) != 0 {
			return nil
		}
		rest := l.sub(k.lin().mulc(c))
		if (Sub{k: nil}).touches(rest.free()) {
			return nil
		}
		for _, a := range rest.free() {
			if t.bySlot[a] != nil {
				return nil
			}
			if a.head == "k" {
				if len(a.args) == 1 {
					if s, ok := a.args[0].(StrLit); ok && len(s) > 0 && s[0] == 'c' {
						return nil
					}
				}
			}
		}
		// c*k + rest >= 0; k = -rest/c ?
		e := rest.mulc(c).neg()
		if st.f.entailsEq(k.lin(), e) {
			return e
		}
		// at most e iterations: none, or the last one went on
		if phi != nil && phi.op != bConst && st.f.entails(k.lin().sub(e)) && st.f.entails(e) {
			last := phi.subst(Sub{k: k.lin().addc(-1)})
			g := st.f.clone()
			g.addGE(k.lin().addc(-1))
			for _, x := range g.assume(last, true) {
				if !x.entails(e.sub(k.lin())) {
					return nil
				}
			}
			return e
		}
		return nil
	}
	for _, l := range st.f.ge {
		if e := try(l); e != nil {
			return e
		}
	}
	lo, hi := st.f.bounds(k.lin())
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return bLin(lo)
	}
	return nil
}

// replSym replaces symbol from by to inside a value.
func replSym(v Val, from, to *Sym) Val {
	return symRepl{from, to}.val(v)
}

type symRepl struct{ from, to *Sym }

func (r symRepl) hit(v Val) bool { return v != nil && contains(v.Key(), r.from.Key()) }
func (r symRepl) sym(s *Sym) *Sym {
	if s == nil {
		return nil
	}
	if s == r.from || s.Key() == r.from.Key() {
		return r.to
	}
	if !contains(s.Key(), r.from.Key()) {
		return s
	}
	args := make([]Val, len(s.args))
	for i, a := range s.args {
		args[i] = r.val(a)
	}
	return mkSym(s.head, args...)
}
func (r symRepl) lin(l *Lin) *Lin {
	if l == nil || !contains(l.Key(), r.from.Key()) {
		return l
	}
	out := bLin(l.k)
	for _, t := range l.ts {
		if !contains(t.a.key, r.from.Key()) {
			out = out.add(t.a.lin().mulc(t.c))
			continue
		}
		args := make([]Val, len(t.a.args))
		for i, a := range t.a.args {
			args[i] = r.val(a)
		}
		na := mkAtom(t.a.head, args, t.a.lo, t.a.hi)
		out = out.add(na.lin().mulc(t.c))
	}
	return out
}
func (r symRepl) boolv(b *Bool) *Bool {
	if b == nil || !contains(b.Key(), r.from.Key()) {
		return b
	}
	n := *b
	n.lin = r.lin(b.lin)
	n.args = nil
	for _, a := range b.args {
		n.args = append(n.args, r.val(a))
	}
	n.a, n.b = r.boolv(b.a), r.boolv(b.b)
	return &Bool{op: n.op, val: n.val, lin: n.lin, head: n.head, args: n.args, a: n.a, b: n.b}
}
func (r symRepl) seq(q Seq) Seq {
	var out Seq
	for _, g := range q.segs {
		h := g
		h.v, h.off, h.n = r.lin(g.v), r.lin(g.off), r.lin(g.n)
		h.src = r.sym(g.src)
		if g.cond != nil {
			h.cond = r.boolv(g.cond)
		}
		if g.body != nil {
			h.body = r.seq(Seq{g.body}).segs
		}
		out = out.appendSeg(h)
	}
	return out
}
func (r symRepl) val(v Val) Val {
	if !r.hit(v) {
		return v
	}
	switch x := v.(type) {
	case IntV:
		return IntV{r.lin(x.L)}
	case BoolV:
		return BoolV{r.boolv(x.B)}
	case SymV:
		return SymV{r.sym(x.S)}
	case SeqV:
		return SeqV{r.seq(x.S)}
	case NodeV:
		switch n := x.N.(type) {
		case BytesN:
			return NodeV{BytesN{r.seq(n.S)}}
		case LeafN:
			return NodeV{LeafN{r.val(n.V)}}
		case StructN:
			fs := make([]Node, len(n.fs))
			for i, f := range n.fs {
				fs[i] = r.val(NodeV{f}).(NodeV).N
			}
			return NodeV{StructN{n.typ, fs}}
		case LazyN:
			return NodeV{LazyN{n.typ, r.sym(n.s)}}
		}
	case TupleV:
		var o TupleV
		for _, y := range x.vs {
			o.vs = append(o.vs, r.val(y))
		}
		return o
	case FunV:
		return FunV{x.v, r.val(x.body)}
	}
	return v
}

func keyOf(v Val) string {
	if v == nil {
		return "-"
	}
	return clip(v.Key(), 900)
}

// hvMap is a map changed by the loop: base without the entries of the iterations before.
type hvMap struct {
	base MapN
	used map[string]bool // keys looked up
}

var hvMaps map[string]*hvMap

// current: within an iteration over base, the current key still has its entry. That holds if
// each iteration deletes no entry but its own, which checkMaps decides.
func currentEntry(n MapN, key Val, et types.Type) (Val, bool) {
	h := hvMaps[n.sym.Key()]
	q, ok := key.(SeqV)
	if h == nil || !ok || len(q.S.segs) != 1 || q.S.segs[0].kind != sRaw {
		return nil, false
	}
	s := q.S.segs[0].src
	if s.head != "mapkey" || len(s.args) != 2 || !holdsConst(q.S, s) {
		return nil, false
	}
	b, ok := s.args[0].(NodeV)
	if !ok || b.Key() != (NodeV{h.base}).Key() {
		return nil, false
	}
	if h.used == nil {
		h.used = map[string]bool{}
	}
	h.used[key.Key()] = true
	return symVal(et, mkSym("mapelem", s.args[0], s.args[1])), true
}

// holdsConst: the sequence is all of the symbol.
func holdsConst(q Seq, s *Sym) bool {
	return SeqV{q}.Key() == SeqV{rawSeq(s, cLin(0), symLen(s))}.Key()
}

func (t *tmpl) checkMaps(backs []backVals) {
	for _, s := range t.slots {
		h := hvMaps[s.sym.Key()]
		if s.sym == nil || h == nil || len(h.used) == 0 {
			continue
		}
		for _, b := range backs {
			v, ok := b.vals[s].(NodeV)
			var n MapN
			if ok {
				n, ok = v.N.(MapN)
			}
			ok = ok && n.sym == s.sym
			for _, u := range n.ups {
				ok = ok && u.val == nil && h.used[u.key.Key()] && len(h.used) == 1
			}
			if !ok {
				unsupported(t.L.header.Instrs[0].Pos(), "entries of a map looked up while the loop changes others")
			}
		}
	}
}
