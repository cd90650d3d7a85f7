package main

// Abstract values and memory contents.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{ Key() string }

type IntV struct{ L *Lin }
type BoolV struct{ B *Bool }
type StrLit string

// SymV names symbolic data (a parameter, a field of one, a hash, ...).
type SymV struct{ S *Sym }

type Sym struct {
	head string
	args []Val
	key  string
	fv   []*Atom
}

// SeqV is a string or byte sequence value.
type SeqV struct{ S Seq }

type PE struct { // path element
	field int
	idx   *Lin // non-nil: index
}

type PtrV struct {
	obj  *Obj
	path []PE
	null *Bool // nil iff null holds; obj==nil means always nil
}

type SliceV struct {
	obj           *Obj
	path          []PE // array inside obj
	off, len, cap *Lin
	null          *Bool
}

// NodeV is a struct or array value.
type NodeV struct{ N Node }

type IfaceV struct {
	typ  types.Type // dynamic type, nil if symbolic or nil interface
	v    Val
	sym  *Sym // symbolic interface
	ityp types.Type
	null *Bool
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	recv Val // bound method receiver (for invoke-like closures)
	sym  *Sym
}

type MapV struct {
	obj  *Obj
	null *Bool
}

type TupleV struct{ vs []Val }

// OpaqueV is a value the analysis knows nothing about but its origin.
type OpaqueV struct {
	s   *Sym
	typ types.Type
}

// RefV is a reflect.Value, TypV a reflect.Type.
type RefV struct {
	typ   types.Type // nil: invalid
	ptr   *PtrV      // addressable location
	val   Val        // otherwise the value
	roExp bool       // obtained via unexported field
}
type TypV struct{ typ types.Type }

func sk(null *Bool) string {
	if null == nil {
		return ""
	}
	return "?" + null.Key()
}

func pathKey(p []PE) string {
	var sb strings.Builder
	for _, e := range p {
		if e.idx != nil {
			sb.WriteString("[" + e.idx.Key() + "]")
		} else {
			fmt.Fprintf(&sb, ".%d", e.field)
		}
	}
	return sb.String()
}

func (v IntV) Key() string   { return v.L.Key() }
func (v BoolV) Key() string  { return v.B.Key() }
func (v StrLit) Key() string { return string(v) }
func (v SymV) Key() string   { return v.S.Key() }
func (v SeqV) Key() string   { return v.S.Key() }
func (v PtrV) Key() string {
	if v.obj == nil {
		return "nil"
	}
	return "&" + v.obj.Key() + pathKey(v.path) + sk(v.null)
}
func (v SliceV) Key() string {
	if v.obj == nil {
		return "nil[]"
	}
	return v.obj.Key() + pathKey(v.path) + "[" + v.off.Key() + ":+" + v.len.Key() + ":" + v.cap.Key() + "]" + sk(v.null)
}
func (v NodeV) Key() string { return v.N.Key() }
func (v IfaceV) Key() string {
	if v.typ != nil {
		return "iface<" + v.typ.String() + ">" + v.v.Key()
	}
	if v.sym != nil {
		return "iface:" + v.sym.Key()
	}
	return "nil-iface"
}
func (v FuncV) Key() string {
	if v.fn != nil {
		s := "func:" + v.fn.String()
		for _, b := range v.bind {
			s += "," + b.Key()
		}
		return s
	}
	if v.sym != nil {
		return "func:" + v.sym.Key()
	}
	return "nil-func"
}
func (v MapV) Key() string {
	if v.obj == nil {
		return "nil-map"
	}
	return "map" + v.obj.Key() + sk(v.null)
}
func (v TupleV) Key() string {
	s := "("
	for _, x := range v.vs {
		s += x.Key() + ","
	}
	return s + ")"
}
func (v OpaqueV) Key() string { return "opq:" + v.s.Key() }
func (v RefV) Key() string {
	if v.typ == nil {
		return "rv0"
	}
	if v.ptr != nil {
		return "rv<" + v.typ.String() + ">*" + v.ptr.Key()
	}
	return "rv<" + v.typ.String() + ">" + v.val.Key()
}
func (v TypV) Key() string {
	if v.typ == nil {
		return "rt<nil>"
	}
	return "rt<" + v.typ.String() + ">"
}

func mkSym(head string, args ...Val) *Sym {
	s := &Sym{head: head, args: args}
	for _, a := range args {
		s.fv = unionFV(s.fv, freeVars(a))
	}
	return s
}
func (s *Sym) Key() string {
	if s.key == "" {
		switch s.head {
		case "fld":
			s.key = s.args[0].Key() + "." + s.args[1].Key()
		case "idx":
			s.key = s.args[0].Key() + "[" + s.args[1].Key() + "]"
		case "deref":
			s.key = "*" + s.args[0].Key()
		default:
			if len(s.args) == 0 {
				s.key = s.head
			} else {
				s.key = argsKey(s.head, s.args)
			}
		}
	}
	return s.key
}
func (s *Sym) fld(name string) *Sym { return mkSym("fld", SymV{s}, StrLit(name)) }
func (s *Sym) idx(i *Lin) *Sym      { return mkSym("idx", SymV{s}, IntV{i}) }
func (s *Sym) deref() *Sym          { return mkSym("deref", SymV{s}) }
func (s *Sym) subst(sub Sub) *Sym {
	if !sub.touches(s.fv) {
		return s
	}
	args := make([]Val, len(s.args))
	for i, a := range s.args {
		args[i] = substVal(a, sub)
	}
	return mkSym(s.head, args...)
}

// ---- objects

type Obj struct {
	id    int
	key   string
	typ   types.Type // content type (element type for array objects)
	arr   bool       // backing array of a slice
	alen  *Lin       // length of the backing array
	init  Node       // content if not overwritten in a state
	sym   *Sym       // lazily symbolic object
	fam   *FunV      // family object: content as function of iteration
	farg  *Lin
	where string
	glob  *ssa.Global
	mapo  bool // map object
	stale bool // pointer of an unknown earlier loop iteration
	fresh bool // allocated during the analysed execution
	start bool // allocated during package initialisation
	seq   int  // allocation order
	lctx  []*Atom
}

var objTab = map[string]*Obj{}
var objSeq int

func (o *Obj) Key() string { return o.key }

func internObj(key string, mk func() *Obj) *Obj {
	if o, ok := objTab[key]; ok {
		return o
	}
	o := mk()
	objSeq++
	o.key, o.id = key, objSeq
	objTab[key] = o
	return o
}

func lazyObj(s *Sym, t types.Type) *Obj {
	return internObj("sym:"+s.Key(), func() *Obj {
		return &Obj{typ: t, sym: s, init: LazyN{t, s}}
	})
}

func lazyArrObj(s *Sym, elem types.Type, n *Lin) *Obj {
	return internObj("symarr:"+s.Key(), func() *Obj {
		o := &Obj{typ: elem, arr: true, alen: n, sym: s}
		if isByte(elem) {
			o.init = BytesN{rawSeq(s, cLin(0), n)}
		} else {
			o.init = ArrN{elem: elem, base: baseLazy, sym: s}
		}
		return o
	})
}

func (o *Obj) free() []*Atom {
	if o == nil {
		return nil
	}
	var fv []*Atom
	if o.sym != nil {
		fv = unionFV(fv, o.sym.fv)
	}
	if o.farg != nil {
		fv = unionFV(fv, o.farg.free())
	}
	return fv
}

func (o *Obj) subst(s Sub) *Obj {
	if o == nil || !s.touches(o.free()) {
		return o
	}
	if o.fam != nil {
		return famObj(o, o.farg.subst(s))
	}
	ns := o.sym.subst(s)
	if o.mapo {
		return symVal(o.typ, ns).(MapV).obj
	}
	if o.arr {
		return lazyArrObj(ns, o.typ, o.alen.subst(s))
	}
	return lazyObj(ns, o.typ)
}

func famObj(o *Obj, arg *Lin) *Obj {
	base := strings.SplitN(o.key, "@", 2)[0]
	return internObj(base+"@"+arg.Key(), func() *Obj {
		n := &Obj{typ: o.typ, arr: o.arr, fam: o.fam, farg: arg, where: o.where, fresh: o.fresh, seq: o.seq}
		c := o.fam.apply(arg).(TupleV)
		n.init = c.vs[0].(NodeV).N
		if o.arr {
			n.alen = c.vs[1].(IntV).L
		}
		return n
	})
}

// ---- memory contents

type Node interface{ Key() string }

type LeafN struct{ V Val }
type StructN struct {
	typ types.Type
	fs  []Node
}
type BytesN struct{ S Seq }
type LazyN struct {
	typ types.Type
	s   *Sym
}
type baseKind int

const (
	baseZero baseKind = iota
	baseLazy
	baseOpaque
)

// ArrN is an array of non-byte elements: a base and updates, oldest first.
type ArrN struct {
	elem types.Type
	base baseKind
	sym  *Sym
	ups  []upd
}
type upd struct {
	idx    *Lin // single
	node   Node
	lo, hi *Lin  // range update: idx = v for lo <= v < hi
	v      *Atom // bound variable
}

// MapN is the content of a map: a base (empty if sym is nil) and updates, oldest first.
type MapN struct {
	typ types.Type
	sym *Sym
	ups []mupd
}
type mupd struct {
	key Val
	val Val // nil: deleted
}

func (n MapN) Key() string {
	s := "map"
	if n.sym != nil {
		s += ":" + n.sym.Key()
	}
	for _, u := range n.ups {
		if u.val == nil {
			s += "{-" + u.key.Key() + "}"
		} else {
			s += "{" + u.key.Key() + ":=" + u.val.Key() + "}"
		}
	}
	return s
}

func (n LeafN) Key() string { return n.V.Key() }
func (n StructN) Key() string {
	s := "{"
	for i, f := range n.fs {
		if i > 0 {
			s += ";"
		}
		s += f.Key()
	}
	return s + "}"
}
func (n BytesN) Key() string { return n.S.Key() }
func (n LazyN) Key() string  { return n.s.Key() }
func (n ArrN) Key() string {
	s := "arr"
	switch n.base {
	case baseZero:
		s += "0"
	default:
		s += ":" + n.sym.Key()
	}
	for _, u := range n.ups {
		if u.idx != nil {
			s += "{" + u.idx.Key() + ":=" + u.node.Key() + "}"
		} else {
			s += "{" + u.v.key + "∈[" + u.lo.Key() + "," + u.hi.Key() + "):=" + u.node.Key() + "}"
		}
	}
	return s
}

// ---- free variables and substitution

func freeVars(v Val) []*Atom {
	switch x := v.(type) {
	case nil:
		return nil
	case IntV:
		return x.L.free()
	case BoolV:
		return x.B.free()
	case SymV:
		return x.S.fv
	case SeqV:
		return x.S.free()
	case PtrV:
		fv := x.obj.free()
		for _, p := range x.path {
			if p.idx != nil {
				fv = unionFV(fv, p.idx.free())
			}
		}
		if x.null != nil {
			fv = unionFV(fv, x.null.free())
		}
		return fv
	case SliceV:
		if x.obj == nil {
			return nil
		}
		fv := x.obj.free()
		for _, p := range x.path {
			if p.idx != nil {
				fv = unionFV(fv, p.idx.free())
			}
		}
		fv = unionFV(fv, x.off.free())
		fv = unionFV(fv, x.len.free())
		fv = unionFV(fv, x.cap.free())
		if x.null != nil {
			fv = unionFV(fv, x.null.free())
		}
		return fv
	case NodeV:
		return nodeFree(x.N)
	case IfaceV:
		var fv []*Atom
		if x.typ != nil {
			fv = freeVars(x.v)
		}
		if x.sym != nil {
			fv = unionFV(fv, x.sym.fv)
		}
		return fv
	case FuncV:
		var fv []*Atom
		for _, b := range x.bind {
			fv = unionFV(fv, freeVars(b))
		}
		if x.sym != nil {
			fv = unionFV(fv, x.sym.fv)
		}
		return fv
	case MapV:
		return x.obj.free()
	case TupleV:
		var fv []*Atom
		for _, b := range x.vs {
			fv = unionFV(fv, freeVars(b))
		}
		return fv
	case OpaqueV:
		return x.s.fv
	case RefV:
		if x.ptr != nil {
			return freeVars(*x.ptr)
		}
		return freeVars(x.val)
	case FunV:
		var out []*Atom
		for _, a := range freeVars(x.body) {
			if a != x.v {
				out = append(out, a)
			}
		}
		return out
	}
	return nil
}

func nodeFree(n Node) []*Atom {
	switch x := n.(type) {
	case LeafN:
		return freeVars(x.V)
	case StructN:
		var fv []*Atom
		for _, f := range x.fs {
			fv = unionFV(fv, nodeFree(f))
		}
		return fv
	case BytesN:
		return x.S.free()
	case LazyN:
		return x.s.fv
	case MapN:
		var fv []*Atom
		if x.sym != nil {
			fv = x.sym.fv
		}
		for _, u := range x.ups {
			fv = unionFV(fv, freeVars(u.key))
			if u.val != nil {
				fv = unionFV(fv, freeVars(u.val))
			}
		}
		return fv
	case ArrN:
		var fv []*Atom
		if x.sym != nil {
			fv = unionFV(fv, x.sym.fv)
		}
		for _, u := range x.ups {
			if u.idx != nil {
				fv = unionFV(fv, u.idx.free())
				fv = unionFV(fv, nodeFree(u.node))
			} else {
				fv = unionFV(fv, u.lo.free())
				fv = unionFV(fv, u.hi.free())
				for _, a := range nodeFree(u.node) {
					if a != u.v {
						fv = unionFV(fv, []*Atom{a})
					}
				}
			}
		}
		return fv
	}
	return nil
}

func substPath(p []PE, s Sub) []PE {
	var out []PE
	for i, e := range p {
		if e.idx != nil {
			if n := e.idx.subst(s); n != e.idx {
				if out == nil {
					out = append([]PE(nil), p...)
				}
				out[i].idx = n
			}
		}
	}
	if out == nil {
		return p
	}
	return out
}

func substBool(b *Bool, s Sub) *Bool {
	if b == nil {
		return nil
	}
	return b.subst(s)
}

func substVal(v Val, s Sub) Val {
	if v == nil || !s.touches(freeVars(v)) {
		return v
	}
	switch x := v.(type) {
	case IntV:
		return IntV{x.L.subst(s)}
	case BoolV:
		return BoolV{x.B.subst(s)}
	case SymV:
		return SymV{x.S.subst(s)}
	case SeqV:
		return SeqV{x.S.subst(s)}
	case PtrV:
		return PtrV{x.obj.subst(s), substPath(x.path, s), substBool(x.null, s)}
	case SliceV:
		return SliceV{x.obj.subst(s), substPath(x.path, s), x.off.subst(s), x.len.subst(s), x.cap.subst(s), substBool(x.null, s)}
	case NodeV:
		return NodeV{substNode(x.N, s)}
	case IfaceV:
		r := x
		if x.typ != nil {
			r.v = substVal(x.v, s)
		}
		if x.sym != nil {
			r.sym = x.sym.subst(s)
		}
		r.null = substBool(x.null, s)
		return r
	case FuncV:
		r := x
		r.bind = nil
		for _, b := range x.bind {
			r.bind = append(r.bind, substVal(b, s))
		}
		if x.sym != nil {
			r.sym = x.sym.subst(s)
		}
		return r
	case MapV:
		return MapV{x.obj.subst(s), substBool(x.null, s)}
	case TupleV:
		var r TupleV
		for _, b := range x.vs {
			r.vs = append(r.vs, substVal(b, s))
		}
		return r
	case OpaqueV:
		return OpaqueV{x.s.subst(s), x.typ}
	case RefV:
		r := x
		if x.ptr != nil {
			p := substVal(*x.ptr, s).(PtrV)
			r.ptr = &p
		} else {
			r.val = substVal(x.val, s)
		}
		return r
	case FunV:
		return FunV{x.v, substVal(x.body, s)}
	}
	return v
}

func substNode(n Node, s Sub) Node {
	if !s.touches(nodeFree(n)) {
		return n
	}
	switch x := n.(type) {
	case LeafN:
		return LeafN{substVal(x.V, s)}
	case StructN:
		fs := make([]Node, len(x.fs))
		for i, f := range x.fs {
			fs[i] = substNode(f, s)
		}
		return StructN{x.typ, fs}
	case BytesN:
		return BytesN{x.S.subst(s)}
	case LazyN:
		return LazyN{x.typ, x.s.subst(s)}
	case MapN:
		r := x
		if x.sym != nil {
			r.sym = x.sym.subst(s)
		}
		r.ups = make([]mupd, len(x.ups))
		for i, u := range x.ups {
			r.ups[i].key = substVal(u.key, s)
			if u.val != nil {
				r.ups[i].val = substVal(u.val, s)
			}
		}
		return r
	case ArrN:
		r := x
		if x.sym != nil {
			r.sym = x.sym.subst(s)
		}
		r.ups = make([]upd, len(x.ups))
		for i, u := range x.ups {
			if u.idx != nil {
				r.ups[i] = upd{idx: u.idx.subst(s), node: substNode(u.node, s)}
			} else {
				r.ups[i] = upd{lo: u.lo.subst(s), hi: u.hi.subst(s), v: u.v, node: substNode(u.node, s)}
			}
		}
		return r
	}
	return n
}

// binderDepth is the number of canonical bound variables used by binders inside v.
func binderDepth(v Val) int {
	n := 0
	up := func(m int) {
		if m > n {
			n = m
		}
	}
	lvl := func(a *Atom) int {
		for i, k := range kappas {
			if k == a {
				return i + 1
			}
		}
		return 0
	}
	seen := map[*Atom]bool{}
	var wl func(l *Lin)
	var wv func(v Val)
	var wn func(n Node)
	var ws func(s Seq)
	wl = func(l *Lin) {
		for _, t := range l.ts {
			if seen[t.a] {
				continue
			}
			seen[t.a] = true
			for _, a := range t.a.args {
				wv(a)
			}
		}
	}
	wp := func(p []PE) {
		for _, e := range p {
			if e.idx != nil {
				wl(e.idx)
			}
		}
	}
	wv = func(v Val) {
		switch x := v.(type) {
		case IntV:
			wl(x.L)
		case BoolV:
			var wb func(b *Bool)
			wb = func(b *Bool) {
				if b == nil {
					return
				}
				if b.lin != nil {
					wl(b.lin)
				}
				for _, a := range b.args {
					wv(a)
				}
				wb(b.a)
				wb(b.b)
			}
			wb(x.B)
		case SymV:
			for _, a := range x.S.args {
				wv(a)
			}
		case SeqV:
			ws(x.S)
		case PtrV:
			if x.obj != nil && x.obj.sym != nil {
				wv(SymV{x.obj.sym})
			}
			wp(x.path)
		case SliceV:
			if x.obj != nil {
				if x.obj.sym != nil {
					wv(SymV{x.obj.sym})
				}
				wp(x.path)
				wl(x.off)
				wl(x.len)
				wl(x.cap)
			}
		case NodeV:
			wn(x.N)
		case IfaceV:
			if x.typ != nil {
				wv(x.v)
			}
			if x.sym != nil {
				wv(SymV{x.sym})
			}
		case TupleV:
			for _, y := range x.vs {
				wv(y)
			}
		case OpaqueV:
			wv(SymV{x.s})
		case FunV:
			up(lvl(x.v))
			wv(x.body)
		}
	}
	wn = func(nd Node) {
		switch x := nd.(type) {
		case LeafN:
			wv(x.V)
		case StructN:
			for _, f := range x.fs {
				wn(f)
			}
		case BytesN:
			ws(x.S)
		case LazyN:
			wv(SymV{x.s})
		case MapN:
			if x.sym != nil {
				wv(SymV{x.sym})
			}
			for _, u := range x.ups {
				wv(u.key)
				if u.val != nil {
					wv(u.val)
				}
			}
		case ArrN:
			if x.sym != nil {
				wv(SymV{x.sym})
			}
			for _, u := range x.ups {
				if u.idx != nil {
					wl(u.idx)
				} else {
					up(lvl(u.v))
					wl(u.lo)
					wl(u.hi)
				}
				wn(u.node)
			}
		}
	}
	ws = func(s Seq) {
		for _, g := range s.segs {
			switch g.kind {
			case sByte, sInt:
				wl(g.v)
			case sRaw:
				wv(SymV{g.src})
				wl(g.off)
				wl(g.n)
			case sZero:
				wl(g.n)
			case sRep:
				up(lvl(g.kv))
				wl(g.n)
				ws(Seq{segs: g.body})
			case sOpt:
				wv(BoolV{g.cond})
				ws(Seq{segs: g.body})
			}
		}
	}
	wv(v)
	return n
}

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intInfo(t types.Type) (bits uint, signed, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isReflectNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == name
}

func namedPath(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

var maxLen = pow2(40)

// symInt is the integer held at symbolic place s of type t.
func symInt(s *Sym, t types.Type) *Lin {
	bits, signed, _ := intInfo(t)
	lo, hi := big0, pow2(bits)
	if signed {
		lo, hi = pow2(bits-1), pow2(bits-1)
		lo = bLin(lo).neg().k
	}
	return mkAtom("v", []Val{SymV{s}}, lo, bLin(hi).addc(-1).k).lin()
}

func symLen(s *Sym) *Lin { return mkAtom("len", []Val{SymV{s}}, big0, maxLen).lin() }

func symCap(s *Sym) *Lin {
	n := len(atomList)
	a := mkAtom("cap", []Val{SymV{s}}, big0, maxLen)
	if len(atomList) > n {
		a.defs = []*Lin{a.lin().sub(symLen(s))}
	}
	return a.lin()
}

func isNilPred(s *Sym) *Bool { return bPred("isnil", SymV{s}) }

// symSlots lists extern opaque struct types handled as leaf values.
func opaqueStruct(t types.Type) bool {
	if isReflectNamed(t, "Value") {
		return true
	}
	switch namedPath(t) {
	case "strings.Builder", "bytes.Buffer", "math/big.Int", "sync.Mutex", "sync.RWMutex", "time.Time", "embed.FS", "bufio.Reader", "bufio.Writer", "sync.Once", "math/big.Rat":
		return true
	}
	return false
}

// lazyNode expands the symbolic content s of type t one level.
func lazyNode(t types.Type, s *Sym) Node {
	if opaqueStruct(t) {
		return LeafN{symVal(t, s)}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		fs := make([]Node, u.NumFields())
		for i := range fs {
			fs[i] = LazyN{u.Field(i).Type(), s.fld(u.Field(i).Name())}
		}
		return StructN{t, fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return BytesN{rawSeq(s, cLin(0), cLin(u.Len()))}
		}
		return ArrN{elem: u.Elem(), base: baseLazy, sym: s}
	}
	return LeafN{symVal(t, s)}
}

// symVal is the symbolic value s of type t.
func symVal(t types.Type, s *Sym) Val {
	if isReflectNamed(t, "Value") {
		return OpaqueV{s, t}
	}
	switch namedPath(t) {
	case "strings.Builder", "bytes.Buffer":
		return SeqV{rawSeq(s, cLin(0), symLen(s))}
	}
	if opaqueStruct(t) {
		return OpaqueV{s, t}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return IntV{symInt(s, t)}
		}
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{bPred("v", SymV{s})}
		}
		if u.Info()&types.IsString != 0 {
			return SeqV{rawSeq(s, cLin(0), symLen(s))}
		}
		return OpaqueV{s, t}
	case *types.Pointer:
		return PtrV{obj: lazyObj(s.deref(), u.Elem()), null: isNilPred(s)}
	case *types.Slice:
		c := symCap(s)
		return SliceV{obj: lazyArrObj(s, u.Elem(), c), off: cLin(0), len: symLen(s), cap: c, null: isNilPred(s)}
	case *types.Interface:
		return IfaceV{sym: s, ityp: t, null: isNilPred(s)}
	case *types.Map:
		return MapV{obj: internObj("symmap:"+s.Key(), func() *Obj {
			return &Obj{typ: t, sym: s, init: MapN{typ: t, sym: s}, mapo: true}
		}), null: isNilPred(s)}
	case *types.Signature:
		return FuncV{sym: s}
	case *types.Struct, *types.Array:
		return NodeV{LazyN{t, s}}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, symVal(u.At(i).Type(), mkSym("res", SymV{s}, IntV{cLin(int64(i))})))
		}
		return tv
	}
	return OpaqueV{s, t}
}

func zeroVal(t types.Type) Val {
	if isReflectNamed(t, "Value") {
		return RefV{}
	}
	switch namedPath(t) {
	case "strings.Builder", "bytes.Buffer":
		return SeqV{}
	}
	if opaqueStruct(t) {
		return OpaqueV{mkSym("zero:" + t.String()), t}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return IntV{cLin(0)}
		}
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{bFalse}
		}
		if u.Info()&types.IsString != 0 {
			return SeqV{}
		}
		return OpaqueV{mkSym("zero:" + t.String()), t}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{off: cLin(0), len: cLin(0), cap: cLin(0)}
	case *types.Interface:
		return IfaceV{ityp: t}
	case *types.Map:
		return MapV{}
	case *types.Signature:
		return FuncV{}
	case *types.Struct, *types.Array:
		return NodeV{zeroNode(t)}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return OpaqueV{mkSym("zero:" + t.String()), t}
}

func zeroNode(t types.Type) Node {
	if opaqueStruct(t) {
		return LeafN{zeroVal(t)}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		fs := make([]Node, u.NumFields())
		for i := range fs {
			fs[i] = zeroNode(u.Field(i).Type())
		}
		return StructN{t, fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return BytesN{zeroSeq(cLin(u.Len()))}
		}
		return ArrN{elem: u.Elem(), base: baseZero}
	}
	return LeafN{zeroVal(t)}
}

func valNode(v Val) Node {
	if n, ok := v.(NodeV); ok {
		return n.N
	}
	return LeafN{v}
}

func nodeVal(n Node, t types.Type) Val {
	switch x := n.(type) {
	case LeafN:
		return x.V
	case LazyN:
		e := lazyNode(x.typ, x.s)
		if l, ok := e.(LeafN); ok {
			return l.V
		}
		return NodeV{e}
	}
	return NodeV{n}
}

func isNilVal(v Val) *Bool {
	switch x := v.(type) {
	case PtrV:
		if x.obj == nil {
			return bTrue
		}
		if x.null != nil {
			return x.null
		}
		return bFalse
	case SliceV:
		if x.obj == nil {
			return bTrue
		}
		if x.null != nil {
			return x.null
		}
		return bFalse
	case IfaceV:
		if x.typ != nil {
			return bFalse
		}
		if x.sym != nil {
			if x.null != nil {
				return x.null
			}
			return bFalse
		}
		return bTrue
	case MapV:
		if x.obj == nil {
			return bTrue
		}
		if x.null != nil {
			return x.null
		}
		return bFalse
	case FuncV:
		if x.fn == nil && x.sym == nil {
			return bTrue
		}
		return bFalse
	case OpaqueV:
		return isNilPred(x.s)
	case TypV:
		return cBool(x.typ == nil)
	case RefV:
		return bFalse
	}
	return bPred("isnil?", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
