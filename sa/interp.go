package main

// Abstract interpretation of SSA functions with trace partitioning.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end.
type Outcome struct {
	st  *State
	ret []Val
	pan *PanicInfo
}

type PanicInfo struct {
	pos  token.Pos
	fn   string
	kind string
	// chain of call sites
	chain []string
}

func (p *PanicInfo) String() string {
	s := fmt.Sprintf("%s in %s at %s", p.kind, p.fn, P.pos(p.pos))
	if len(p.chain) > 0 {
		s += " (called via " + strings.Join(p.chain, " < ") + ")"
	}
	return s
}

type Call struct {
	fn   *ssa.Function
	name string
	args []Val
	pos  token.Pos
	res  *types.Tuple
	fr   *frame
}

type hook func(ip *Interp, st *State, c *Call) ([]Outcome, bool)

type Interp struct {
	loopCtx   []string // loops being analysed, outermost first
	hooks     map[string]hook
	keepLoops *ssa.Function                                          // loops calling this function are not unrolled
	slotMax   *big.Int                                               // candidate bound of 64-bit loop variables
	unrollAll bool                                                   // unroll loops whatever decides their end
	lenMax    *Lin                                                   // candidate bound of other loop variables
	preHook   func(ip *Interp, st *State, c *Call) ([]Outcome, bool) // consulted first for every static call
	steps     int
	maxSteps  int
	deadline  time.Time
	stack     []*frame
	funcs     map[*ssa.Function]bool
	sites     map[token.Pos]bool
	branches  int
	loopsSum  int
	loopsUnr  int
	undec     []string
	constEx   map[*loop]bool
	softEx    map[*loop]bool
	loopDepth int
	noPanic   bool // do not fork on implicit panics
}

func newInterp() *Interp {
	return &Interp{hooks: map[string]hook{}, maxSteps: 20_000_000, deadline: time.Now().Add(240 * time.Second),
		funcs: map[*ssa.Function]bool{}, sites: map[token.Pos]bool{}, constEx: map[*loop]bool{}, softEx: map[*loop]bool{}}
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	free   []Val
	defers []deferred
	site   token.Pos
}

type deferred struct {
	fn   Val
	args []Val
	inst *ssa.Defer
}

func (fr *frame) clone() *frame {
	n := &frame{fn: fr.fn, env: make(map[ssa.Value]Val, len(fr.env)+8), free: fr.free, defers: fr.defers[:len(fr.defers):len(fr.defers)], site: fr.site}
	for k, v := range fr.env {
		n.env[k] = v
	}
	return n
}

type resKind int

const (
	rRet resKind = iota
	rPanic
	rBack
	rExit
)

type res struct {
	kind     resKind
	st       *State
	fr       *frame
	from, to *ssa.BasicBlock
	ret      []Val
	pan      *PanicInfo
}

// ---- calls

func (ip *Interp) onStack(fn *ssa.Function) int {
	n := 0
	for _, f := range ip.stack {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// exec runs a function with a body.
func (ip *Interp) exec(st *State, fn *ssa.Function, args []Val, free []Val, site token.Pos) []Outcome {
	if !P.body(fn) {
		unsupported(site, "no body for %s", fn)
	}
	if len(ip.stack) > 120 {
		unsupported(site, "call depth exceeded in %s", fn)
	}
	ip.funcs[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, free: free, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	ip.stack = append(ip.stack, fr)
	defer func() { ip.stack = ip.stack[:len(ip.stack)-1] }()
	rs := ip.flow(fr, st, nil, fn.Blocks[0], nil)
	var out []Outcome
	for _, r := range rs {
		switch r.kind {
		case rRet:
			out = append(out, Outcome{st: r.st, ret: r.ret})
		case rPanic:
			// deferred calls run on panics as well
			out = append(out, ip.unwind(r)...)
		default:
			unsupported(site, "edge escaped function")
		}
	}
	return out
}

func (ip *Interp) unwind(r res) []Outcome {
	sts := []*State{r.st}
	if r.fr != nil {
		for i := len(r.fr.defers) - 1; i >= 0; i-- {
			d := r.fr.defers[i]
			var next []*State
			for _, s := range sts {
				for _, o := range ip.callVal(s, d.fn, d.args, &d.inst.Call, d.inst.Pos(), r.fr) {
					next = append(next, o.st)
				}
			}
			sts = next
		}
	}
	var out []Outcome
	for _, s := range sts {
		out = append(out, Outcome{st: s, pan: r.pan})
	}
	return out
}

func (ip *Interp) panicInfo(pos token.Pos, kind string) *PanicInfo {
	pi := &PanicInfo{pos: pos, kind: kind}
	if n := len(ip.stack); n > 0 {
		pi.fn = ip.stack[n-1].fn.String()
		for i := n - 1; i > 0; i-- {
			pi.chain = append(pi.chain, P.pos(ip.stack[i].site))
		}
	}
	return pi
}

// flow follows the edge from->to.
func (ip *Interp) flow(fr *frame, st *State, from, to *ssa.BasicBlock, region *loop) []res {
	if region != nil {
		if to == region.header {
			return []res{{kind: rBack, st: st, fr: fr, from: from, to: to}}
		}
		if !region.blocks[to] {
			return []res{{kind: rExit, st: st, fr: fr, from: from, to: to}}
		}
	}
	if l := loopsOf(fr.fn)[to]; l != nil {
		var out []res
		for _, r := range ip.loop(fr, st, from, l) {
			if r.kind == rExit {
				out = append(out, ip.flow(r.fr, r.st, r.from, r.to, region)...)
			} else {
				out = append(out, r)
			}
		}
		return out
	}
	ip.phis(fr, from, to)
	return ip.execFrom(fr, st, to, 0, region)
}

func (ip *Interp) phis(fr *frame, from, to *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, ip.val(fr, ph.Edges[pi]))
	}
	for i, ph := range ps {
		fr.env[ph] = vals[i]
	}
}

// counterCond reports whether a branch condition compares integers or asks an iterator for more.
func counterCond(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		_, _, ok := intInfo(x.X.Type())
		return ok
	case *ssa.UnOp:
		return x.Op == token.NOT && counterCond(x.X)
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	}
	return false
}

func (ip *Interp) execFrom(fr *frame, st *State, b *ssa.BasicBlock, i int, region *loop) []res {
	var out []res
	for ; i < len(b.Instrs); i++ {
		ip.steps++
		if ip.steps > ip.maxSteps || ip.steps&255 == 0 && time.Now().After(ip.deadline) {
			unsupported(b.Instrs[i].Pos(), "analysis budget exhausted in %s", fr.fn)
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return append(out, ip.flow(fr, st, b, b.Succs[0], region)...)
		case *ssa.If:
			c := ip.val(fr, in.Cond)
			bv, ok := c.(BoolV)
			if !ok {
				bv = BoolV{bPred("true", c)}
			}
			ip.branches++
			if region != nil && (!region.blocks[b.Succs[0]] || !region.blocks[b.Succs[1]]) {
				if counterCond(in.Cond) {
					if bv.B.op == bConst {
						ip.constEx[region] = true
					} else if b == region.header {
						ip.softEx[region] = true
					}
				}
			}
			cpos := in.Cond.Pos()
			if !cpos.IsValid() {
				cpos = in.Pos()
			}
			alts := []struct {
				t bool
				s *ssa.BasicBlock
			}{{true, b.Succs[0]}, {false, b.Succs[1]}}
			type next struct {
				f *Facts
				t bool
				s *ssa.BasicBlock
			}
			var ns []next
			for _, a := range alts {
				for _, f := range st.f.assume(bv.B, a.t) {
					ns = append(ns, next{f, a.t, a.s})
				}
			}
			for j, n := range ns {
				fr2, st2 := fr, st
				if j < len(ns)-1 {
					fr2, st2 = fr.clone(), st.clone()
				}
				n.f.pullAll(bv.B)
				if n.f.dead {
					continue
				}
				st2.f = n.f
				if len(ns) > 1 {
					st2.conds = append(st2.conds[:len(st2.conds):len(st2.conds)], cond{bv.B, n.t, cpos})
				}
				out = append(out, ip.flow(fr2, st2, b, n.s, region)...)
			}
			return out
		case *ssa.Return:
			var rv []Val
			for _, v := range in.Results {
				rv = append(rv, ip.val(fr, v))
			}
			return append(out, res{kind: rRet, st: st, fr: fr, ret: rv})
		case *ssa.Panic:
			kind := "explicit panic"
			return append(out, res{kind: rPanic, st: st, fr: fr, pan: ip.panicInfo(in.Pos(), kind)})
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			sts := []*State{st}
			for j := len(ds) - 1; j >= 0; j-- {
				var nx []*State
				for _, s := range sts {
					for _, o := range ip.callVal(s, ds[j].fn, ds[j].args, &ds[j].inst.Call, ds[j].inst.Pos(), fr) {
						if o.pan != nil {
							out = append(out, res{kind: rPanic, st: o.st, fr: fr, pan: o.pan})
							continue
						}
						nx = append(nx, o.st)
					}
				}
				sts = nx
			}
			if len(sts) == 0 {
				return out
			}
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			for j, s := range sts {
				f2 := fr
				if j < len(sts)-1 {
					f2 = fr.clone()
				}
				out = append(out, ip.execFrom(f2, s, b, i+1, region)...)
			}
			return out
		case *ssa.Defer:
			var args []Val
			for _, a := range in.Call.Args {
				args = append(args, ip.val(fr, a))
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{ip.val(fr, in.Call.Value), args, in})
			continue
		case *ssa.Go, *ssa.Select, *ssa.Send:
			unsupported(in.Pos(), "concurrency construct in %s", fr.fn)
		default:
			alts, pans := ip.instr(fr, st, in)
			for _, p := range pans {
				out = append(out, res{kind: rPanic, st: p.st, fr: fr, pan: p.pan})
			}
			if len(alts) == 0 {
				return out
			}
			if len(alts) == 1 {
				st = alts[0].st
				if v, ok := in.(ssa.Value); ok {
					fr.env[v] = alts[0].v
				}
				continue
			}
			for j, a := range alts {
				f2 := fr
				if j < len(alts)-1 {
					f2 = fr.clone()
				}
				if v, ok := in.(ssa.Value); ok {
					f2.env[v] = a.v
				}
				out = append(out, ip.execFrom(f2, a.st, b, i+1, region)...)
			}
			return out
		}
	}
	return out
}

type alt struct {
	st *State
	v  Val
}
type panAlt struct {
	st  *State
	pan *PanicInfo
}

// require splits on a safety condition: continuing states satisfy it, the others panic.
func (ip *Interp) require(st *State, b *Bool, pos token.Pos, kind string) (ok []*State, pans []panAlt) {
	switch st.f.decide(b) {
	case 1:
		return []*State{st}, nil
	}
	for _, f := range st.f.clone().assume(b, false) {
		s := st.clone()
		s.f = f
		pans = append(pans, panAlt{s, ip.panicInfo(pos, kind)})
	}
	fs := st.f.assume(b, true)
	for i, f := range fs {
		s := st
		if i < len(fs)-1 {
			s = st.clone()
		}
		s.f = f
		ok = append(ok, s)
	}
	return
}

// split continues with each alternative of b decided.
func split(st *State, b *Bool, pos token.Pos) (t, f []*State) {
	switch st.f.decide(b) {
	case 1:
		return []*State{st}, nil
	case 0:
		return nil, []*State{st}
	}
	for _, tr := range []bool{true, false} {
		for _, g := range st.f.clone().assume(b, tr) {
			s := st.clone()
			s.f = g
			s.conds = append(s.conds[:len(s.conds):len(s.conds)], cond{b, tr, pos})
			if tr {
				t = append(t, s)
			} else {
				f = append(f, s)
			}
		}
	}
	return
}

func (ip *Interp) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return PtrV{obj: globalObj(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{sym: mkSym("builtin:" + x.Name())}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported(v.Pos(), "no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	return goConst(c.Value, c.Type())
}

func goConst(cv constant.Value, t types.Type) Val {
	switch cv.Kind() {
	case constant.Bool:
		return BoolV{cBool(constant.BoolVal(cv))}
	case constant.String:
		return SeqV{constSeq([]byte(constant.StringVal(cv)))}
	case constant.Int:
		if _, _, ok := intInfo(t); ok {
			if i, exact := constant.Int64Val(cv); exact {
				return IntV{cLin(i)}
			}
			if u, exact := constant.Uint64Val(cv); exact {
				return IntV{bLin(bi(0).SetUint64(u))}
			}
		}
	}
	return OpaqueV{mkSym("const:" + cv.ExactString()), t}
}

// ---- instructions

func one(st *State, v Val) ([]alt, []panAlt) { return []alt{{st, v}}, nil }

func (ip *Interp) instr(fr *frame, st *State, in ssa.Instruction) ([]alt, []panAlt) {
	switch x := in.(type) {
	case *ssa.Alloc:
		o := freshObj(x.Type().Underlying().(*types.Pointer).Elem(), P.pos(x.Pos()))
		if o.where == "?" {
			o.where = fr.fn.String()
		}
		return one(st, PtrV{obj: o})
	case *ssa.Store:
		return ip.storeAt(st, ip.val(fr, x.Addr), valNode(ip.val(fr, x.Val)), x.Pos())
	case *ssa.UnOp:
		return ip.unop(fr, st, x)
	case *ssa.BinOp:
		return ip.binop(st, x.Op, ip.val(fr, x.X), ip.val(fr, x.Y), x.X.Type(), x.Y.Type(), x.Pos())
	case *ssa.FieldAddr:
		p := ip.val(fr, x.X)
		pt, ok := p.(PtrV)
		if !ok {
			unsupported(x.Pos(), "field address of %T", p)
		}
		return ip.derefThen(st, pt, x.Pos(), func(s *State) Val {
			return ptrField(pt, x.Field)
		})
	case *ssa.Field:
		v := ip.val(fr, x.X)
		nv, ok := v.(NodeV)
		if !ok {
			return one(st, symVal(x.Type(), mkSym("fieldof", v, StrLit(fmt.Sprint(x.Field)))))
		}
		n := expand(nv.N)
		sn, ok := n.(StructN)
		if !ok {
			unsupported(x.Pos(), "field of %T", n)
		}
		return one(st, nodeVal(sn.fs[x.Field], x.Type()))
	case *ssa.IndexAddr:
		return ip.indexAddr(st, ip.val(fr, x.X), ip.val(fr, x.Index), x.X.Type(), x.Pos())
	case *ssa.Index:
		return ip.index(st, ip.val(fr, x.X), ip.val(fr, x.Index), x.X.Type(), x.Type(), x.Pos())
	case *ssa.Lookup:
		return ip.lookup(st, ip.val(fr, x.X), ip.val(fr, x.Index), x)
	case *ssa.MapUpdate:
		return ip.mapUpdate(st, ip.val(fr, x.Map), ip.val(fr, x.Key), ip.val(fr, x.Value), x.Pos())
	case *ssa.MakeMap:
		o := freshObj(x.Type(), P.pos(x.Pos()))
		o.init = MapN{typ: x.Type()}
		return one(st, MapV{obj: o})
	case *ssa.MakeSlice:
		n := ip.intv(ip.val(fr, x.Len), x.Pos())
		c := ip.intv(ip.val(fr, x.Cap), x.Pos())
		return ip.makeSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c, x.Pos(), fr.fn.String())
	case *ssa.MakeInterface:
		return one(st, mkIface(ip.val(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, ip.val(fr, b))
		}
		return one(st, f)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := ip.val(fr, *in.Operands(nil)[0])
		if n, ok := v.(NodeV); ok {
			if s, ok := n.N.(StructN); ok {
				s.typ = in.(ssa.Value).Type()
				return one(st, NodeV{s})
			}
		}
		return one(st, v)
	case *ssa.Convert:
		return ip.convert(st, ip.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MultiConvert:
		return ip.convert(st, ip.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.SliceToArrayPointer:
		sv := ip.val(fr, x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		oks, pans := ip.require(st, bGe0(sv.len.addc(-n)), x.Pos(), "slice too short for array conversion")
		var out []alt
		for _, s := range oks {
			if n == 0 {
				out = append(out, alt{s, PtrV{obj: freshObj(x.Type().Underlying().(*types.Pointer).Elem(), "")}})
				continue
			}
			if sv.off.isZero() {
				if bn, ok := expand(s.readNode(s.content(sv.obj), sv.path, x.Pos())).(BytesN); ok {
					if l, okc := bn.S.length().constVal(); okc && l == n {
						out = append(out, alt{s, PtrV{obj: sv.obj, path: sv.path}})
						continue
					}
				}
			}
			unsupported(x.Pos(), "slice to array pointer conversion")
		}
		return out, pans
	case *ssa.Slice:
		return ip.slice(fr, st, x)
	case *ssa.TypeAssert:
		return ip.typeAssert(st, ip.val(fr, x.X), x.AssertedType, x.CommaOk, x.Pos())
	case *ssa.Extract:
		t := ip.val(fr, x.Tuple)
		tv, ok := t.(TupleV)
		if !ok {
			return one(st, symVal(x.Type(), mkSym("res", t, IntV{cLin(int64(x.Index))})))
		}
		return one(st, tv.vs[x.Index])
	case *ssa.Call:
		ip.sites[x.Pos()] = true
		outs := ip.call(fr, st, &x.Call, x.Pos())
		var as []alt
		var ps []panAlt
		for _, o := range outs {
			if o.pan != nil {
				ps = append(ps, panAlt{o.st, o.pan})
				continue
			}
			var v Val
			switch {
			case x.Call.Signature().Results().Len() == 1:
				if len(o.ret) != 1 {
					unsupported(x.Pos(), "result count of %s", x.Call.Value)
				}
				v = o.ret[0]
			default:
				v = TupleV{o.ret}
			}
			as = append(as, alt{o.st, v})
		}
		return as, ps
	case *ssa.Range:
		v := ip.val(fr, x.X)
		o := freshObj(x.X.Type(), P.pos(x.Pos()))
		snap := v
		if m, ok := v.(MapV); ok {
			snap = NodeV{MapN{typ: x.X.Type()}}
			if m.obj != nil {
				snap = NodeV{expand(st.content(m.obj))}
			}
		}
		o.init = LeafN{TupleV{[]Val{v, IntV{cLin(0)}, snap}}}
		return one(st, PtrV{obj: o})
	case *ssa.Next:
		return ip.next(fr, st, x)
	}
	unsupported(in.Pos(), "instruction %T in %s", in, fr.fn)
	return nil, nil
}

func (ip *Interp) intv(v Val, pos token.Pos) *Lin {
	switch x := v.(type) {
	case IntV:
		return x.L
	case OpaqueV:
		return mkAtom("opq", []Val{x}, nil, nil).lin()
	}
	unsupported(pos, "integer expected, got %T", v)
	return nil
}

func (ip *Interp) storeAt(st *State, addr Val, n Node, pos token.Pos) ([]alt, []panAlt) {
	p, ok := addr.(PtrV)
	if !ok {
		unsupported(pos, "store through %T", addr)
	}
	oks, pans := ip.require(st, bNeg(isNilVal(p)), pos, "nil pointer dereference")
	var out []alt
	for _, s := range oks {
		s.store(p, n, pos)
		out = append(out, alt{s, nil})
	}
	return out, pans
}

func (ip *Interp) derefThen(st *State, p PtrV, pos token.Pos, f func(*State) Val) ([]alt, []panAlt) {
	oks, pans := ip.require(st, bNeg(isNilVal(p)), pos, "nil pointer dereference")
	var out []alt
	for _, s := range oks {
		out = append(out, alt{s, f(s)})
	}
	return out, pans
}

func (ip *Interp) unop(fr *frame, st *State, x *ssa.UnOp) ([]alt, []panAlt) {
	v := ip.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(PtrV)
		if !ok {
			unsupported(x.Pos(), "load through %T", v)
		}
		oks, pans := ip.require(st, bNeg(isNilVal(p)), x.Pos(), "nil pointer dereference")
		var out []alt
		for _, s := range oks {
			for _, t := range s.tableCases(s.content(p.obj), p.path) {
				out = append(out, alt{t, nodeVal(t.load(p, x.Pos()), x.Type())})
			}
		}
		return out, pans
	case token.NOT:
		b, ok := v.(BoolV)
		if !ok {
			b = BoolV{bPred("true", v)}
		}
		return one(st, BoolV{bNeg(b.B)})
	case token.SUB:
		if _, _, ok := intInfo(x.Type()); ok {
			return one(st, IntV{fit(st.f, ip.intv(v, x.Pos()).neg(), x.Type())})
		}
	case token.XOR:
		bits, signed, ok := intInfo(x.Type())
		if ok {
			l := ip.intv(v, x.Pos()).neg().addc(-1) // -x-1
			if !signed {
				l = l.add(bLin(pow2(bits)))
			}
			return one(st, IntV{fit(st.f, l, x.Type())})
		}
	}
	return one(st, symVal(x.Type(), mkSym("unop:"+x.Op.String(), v)))
}

// fit reduces an exact result to the type's range.
func fit(f *Facts, l *Lin, t types.Type) *Lin {
	bits, signed, ok := intInfo(t)
	if !ok {
		return l
	}
	var lo, hi *Lin
	if signed {
		lo, hi = bLin(pow2(bits-1)).neg(), bLin(pow2(bits-1)).addc(-1)
	} else {
		lo, hi = cLin(0), bLin(pow2(bits)).addc(-1)
	}
	b0, b1 := l.bounds(nil)
	if inRange(b0, b1, lo.k, hi.k) {
		return l
	}
	if f != nil && f.entails(l.sub(lo)) && f.entails(hi.sub(l)) {
		return l
	}
	if signed {
		return wrapS(l, bits)
	}
	return wrapU(l, bits)
}

func (ip *Interp) indexAddr(st *State, base, idx Val, bt types.Type, pos token.Pos) ([]alt, []panAlt) {
	i := ip.intv(idx, pos)
	switch b := base.(type) {
	case SliceV:
		oks, pans := ip.require(st, bAnd2(bGe0(i), bGe0(b.len.sub(i).addc(-1))), pos, "index out of range")
		var out []alt
		for _, s := range oks {
			out = append(out, alt{s, sliceElem(b, i)})
		}
		return out, pans
	case PtrV:
		at := under(under(bt).(*types.Pointer).Elem()).(*types.Array)
		oks, pans := ip.require(st, bAnd2(bGe0(i), bGe0(cLin(at.Len()-1).sub(i))), pos, "index out of range")
		var out []alt
		for _, s := range oks {
			a, p := ip.derefThen(s, b, pos, func(*State) Val { return ptrIndex(b, i) })
			out = append(out, a...)
			pans = append(pans, p...)
		}
		return out, pans
	}
	unsupported(pos, "index address of %T", base)
	return nil, nil
}

func (ip *Interp) index(st *State, base, idx Val, bt, rt types.Type, pos token.Pos) ([]alt, []panAlt) {
	i := ip.intv(idx, pos)
	var n *Lin
	var get func(s *State) Val
	switch b := base.(type) {
	case SeqV:
		n = b.S.length()
		get = func(s *State) Val { return IntV{tableByte(s, b.S, i)} }
	case NodeV:
		at := under(bt).(*types.Array)
		n = cLin(at.Len())
		get = func(s *State) Val { return nodeVal(s.readNode(b.N, []PE{{idx: i}}, pos), rt) }
	default:
		unsupported(pos, "index of %T", base)
	}
	oks, pans := ip.require(st, bAnd2(bGe0(i), bGe0(n.sub(i).addc(-1))), pos, "index out of range")
	var out []alt
	for _, s := range oks {
		cases := []*State{s}
		switch b := base.(type) {
		case NodeV:
			cases = s.tableCases(b.N, []PE{{idx: i}})
		case SeqV:
			cases = s.tableCases(BytesN{b.S}, []PE{{idx: i}})
		}
		for _, t := range cases {
			out = append(out, alt{t, get(t)})
		}
	}
	return out, pans
}

// tableCases tells apart the entries of a small constant table that the
// unknown index on path may select.
func (s *State) tableCases(n Node, path []PE) []*State {
	for _, e := range path {
		n = expand(n)
		switch x := n.(type) {
		case StructN:
			if e.idx != nil {
				return []*State{s}
			}
			n = x.fs[e.field]
			continue
		case ArrN:
			if e.idx.isConst() {
				n = arrRead(s.f, x, e.idx)
				continue
			}
			if x.base != baseZero || len(x.ups) == 0 || len(x.ups) > 8 {
				return []*State{s}
			}
			var keys []*Lin
			for _, u := range x.ups {
				if u.idx == nil || !u.idx.isConst() {
					return []*State{s}
				}
				keys = append(keys, u.idx)
			}
			return s.casesOf(e.idx, keys)
		case BytesN:
			if e.idx.isConst() || len(x.S.segs) != 1 || x.S.segs[0].kind != sConst || len(x.S.segs[0].data) > 4 || allZero(x.S.segs[0].data) {
				return []*State{s}
			}
			var keys []*Lin
			for i := range x.S.segs[0].data {
				keys = append(keys, cLin(int64(i)))
			}
			return s.casesOf(e.idx, keys)
		}
		return []*State{s}
	}
	return []*State{s}
}

// casesOf continues with v equal to each key in turn, and to none of them.
func (s *State) casesOf(v *Lin, keys []*Lin) []*State {
	var out []*State
	rest := []*State{s}
	for _, k := range keys {
		b := bEq0(v.sub(k))
		var next []*State
		for _, r := range rest {
			t, f := split(r, b, token.NoPos)
			out = append(out, t...)
			next = append(next, f...)
		}
		rest = next
	}
	return append(out, rest...)
}

// tableByte reads byte i of a string.
func tableByte(s *State, q Seq, i *Lin) *Lin { return s.byteAt(q, i) }

func (ip *Interp) makeSlice(st *State, elem types.Type, n, c *Lin, pos token.Pos, where string) ([]alt, []panAlt) {
	oks, pans := ip.require(st, bAnd2(bGe0(n), bGe0(c.sub(n))), pos, "makeslice: len out of range")
	var out []alt
	for _, s := range oks {
		o := freshArr(elem, c, P.pos(pos))
		s.emit(Event{kind: "alloc", args: []Val{IntV{c}}, pos: pos})
		out = append(out, alt{s, SliceV{obj: o, off: cLin(0), len: n, cap: c}})
	}
	return out, pans
}

func mkIface(v Val, t, it types.Type) Val {
	switch x := v.(type) {
	case TypV:
		return x
	case IfaceV:
		if types.IsInterface(t) {
			return x
		}
	}
	if types.IsInterface(t) {
		return v
	}
	return IfaceV{typ: t, v: v, ityp: it}
}

func (ip *Interp) slice(fr *frame, st *State, x *ssa.Slice) ([]alt, []panAlt) {
	base := ip.val(fr, x.X)
	var lo, hi, max *Lin
	lo = cLin(0)
	if x.Low != nil {
		lo = ip.intv(ip.val(fr, x.Low), x.Pos())
	}
	if x.High != nil {
		hi = ip.intv(ip.val(fr, x.High), x.Pos())
	}
	if x.Max != nil {
		max = ip.intv(ip.val(fr, x.Max), x.Pos())
	}
	return ip.sliceVal(st, base, x.X.Type(), lo, hi, max, x.Pos())
}

func (ip *Interp) sliceVal(st *State, base Val, bt types.Type, lo, hi, max *Lin, pos token.Pos) ([]alt, []panAlt) {
	switch b := base.(type) {
	case SeqV: // string
		n := b.S.length()
		if hi == nil {
			hi = n
		}
		oks, pans := ip.require(st, bAnd2(bGe0(lo), bAnd2(bGe0(hi.sub(lo)), bGe0(n.sub(hi)))), pos, "slice bounds out of range")
		var out []alt
		for _, s := range oks {
			q, ok := b.S.slice(s.f, lo, hi)
			if !ok {
				q = rawSeq(mkSym("cut", SeqV{b.S}, IntV{lo}), cLin(0), hi.sub(lo))
			}
			out = append(out, alt{s, SeqV{q}})
		}
		return out, pans
	case SliceV:
		if hi == nil {
			hi = b.len
		}
		c := b.cap
		limit := c
		cond := bAnd2(bGe0(lo), bAnd2(bGe0(hi.sub(lo)), bGe0(limit.sub(hi))))
		if max != nil {
			cond = bAnd2(cond, bAnd2(bGe0(max.sub(hi)), bGe0(c.sub(max))))
			c = max
		}
		oks, pans := ip.require(st, cond, pos, "slice bounds out of range")
		var out []alt
		for _, s := range oks {
			out = append(out, alt{s, SliceV{obj: b.obj, path: b.path, off: b.off.add(lo), len: hi.sub(lo), cap: c.sub(lo), null: b.null}})
		}
		return out, pans
	case PtrV:
		at := under(under(bt).(*types.Pointer).Elem()).(*types.Array)
		n := cLin(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		cond := bAnd2(bGe0(lo), bAnd2(bGe0(hi.sub(lo)), bGe0(n.sub(hi))))
		if max != nil {
			cond = bAnd2(cond, bAnd2(bGe0(max.sub(hi)), bGe0(n.sub(max))))
			c = max
		}
		oks, pans := ip.require(st, cond, pos, "slice bounds out of range")
		var out []alt
		for _, s := range oks {
			a, p := ip.derefThen(s, b, pos, func(*State) Val {
				return SliceV{obj: b.obj, path: b.path, off: lo, len: hi.sub(lo), cap: c.sub(lo)}
			})
			out = append(out, a...)
			pans = append(pans, p...)
		}
		return out, pans
	}
	unsupported(pos, "slice of %T", base)
	return nil, nil
}

func (ip *Interp) convert(st *State, v Val, from, to types.Type, pos token.Pos) ([]alt, []panAlt) {
	fu, tu := under(from), under(to)
	if _, _, ok := intInfo(to); ok {
		if _, _, ok2 := intInfo(from); ok2 {
			return one(st, IntV{fit(st.f, ip.intv(v, pos), to)})
		}
		return one(st, symVal(to, mkSym("conv:"+to.String(), v)))
	}
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case SliceV:
			if isByte(fu.(*types.Slice).Elem()) {
				return one(st, SeqV{st.bytesOf(x, pos)})
			}
		case SeqV:
			return one(st, x)
		case IntV:
			if c, ok := x.L.constVal(); ok {
				return one(st, SeqV{constSeq([]byte(string(rune(c))))})
			}
		}
		return one(st, symVal(to, mkSym("string", v)))
	}
	if s, ok := tu.(*types.Slice); ok && isByte(s.Elem()) {
		if q, ok := v.(SeqV); ok {
			n := q.S.length()
			o := freshArr(s.Elem(), n, P.pos(pos))
			st.set(o, BytesN{q.S})
			return one(st, SliceV{obj: o, off: cLin(0), len: n, cap: n})
		}
	}
	switch v.(type) {
	case SliceV, PtrV, FuncV, MapV, SeqV, BoolV, NodeV:
		if types.Identical(fu, tu) {
			return one(st, v)
		}
	}
	return one(st, symVal(to, mkSym("conv:"+to.String(), v)))
}

// ---- binary operations

func (ip *Interp) binop(st *State, op token.Token, a, b Val, at, bt types.Type, pos token.Pos) ([]alt, []panAlt) {
	switch op {
	case token.EQL:
		return one(st, BoolV{eqVal(st, a, b, at, bt)})
	case token.NEQ:
		return one(st, BoolV{bNeg(eqVal(st, a, b, at, bt))})
	}
	if _, _, ok := intInfo(at); ok {
		x, y := ip.intv(a, pos), ip.intv(b, pos)
		switch op {
		case token.LSS:
			return one(st, BoolV{bGe0(y.sub(x).addc(-1))})
		case token.LEQ:
			return one(st, BoolV{bGe0(y.sub(x))})
		case token.GTR:
			if t := topBit(st.f, x, y.addc(1)); t != nil {
				x = t
			} else if t := topBit(st.f, y, x); t != nil {
				y = t
			}
			return one(st, BoolV{bGe0(x.sub(y).addc(-1))})
		case token.GEQ:
			if t := topBit(st.f, x, y); t != nil {
				x = t
			} else if t := topBit(st.f, y, x.addc(1)); t != nil {
				y = t
			}
			return one(st, BoolV{bGe0(x.sub(y))})
		case token.ADD:
			return one(st, IntV{fit(st.f, x.add(y), at)})
		case token.SUB:
			return one(st, IntV{fit(st.f, x.sub(y), at)})
		case token.MUL:
			p := x.mul(y)
			mulLemma(st.f, x, y)
			return one(st, IntV{fit(st.f, p, at)})
		case token.QUO, token.REM:
			_, signed, _ := intInfo(at)
			oks, pans := ip.require(st, bNeg(bEq0(y)), pos, "integer divide by zero")
			var out []alt
			for _, s := range oks {
				if signed && !(s.f.entails(x) && s.f.entails(y.addc(-1))) {
					if !s.f.entails(y.addc(-1)) || !y.isConst() {
						out = append(out, alt{s, symVal(at, mkSym("sop:"+op.String(), a, b))})
						continue
					}
					// truncated division of a possibly negative number by a positive constant
					t, f := split(s, bGe0(x), pos)
					for _, s2 := range t {
						q := mkSDiv(x, y)
						r := q
						if op == token.REM {
							r = x.sub(q.mul(y))
						}
						out = append(out, alt{s2, IntV{r}})
					}
					for _, s2 := range f {
						q := mkSDiv(x.neg(), y).neg()
						r := q
						if op == token.REM {
							r = x.sub(q.mul(y))
						}
						out = append(out, alt{s2, IntV{r}})
					}
					continue
				}
				q := mkSDiv(x, y)
				if y.isConst() && !q.isConst() && len(x.ts) > 1 && s.f.entails(x) && s.f.entails(y.sub(x).addc(-1)) {
					q = cLin(0)
				}
				if op == token.REM {
					q = x.sub(q.mul(y))
					if c, ok := y.constVal(); ok && c == 2 {
						if r := bitAnd(s.f, x, cLin(1)); r != nil {
							q = r
						}
					}
				}
				out = append(out, alt{s, IntV{q}})
			}
			return out, pans
		case token.SHL:
			if c, ok := y.constVal(); ok && c >= 0 {
				if c > 128 {
					return one(st, IntV{cLin(0)})
				}
				return one(st, IntV{fit(st.f, x.mulc(pow2(uint(c))), at)})
			}
			return ip.symShift(st, op, x, y, at, pos)
		case token.SHR:
			if c, ok := y.constVal(); ok && c >= 0 {
				if c > 128 {
					c = 128
				}
				if t := topBit(st.f, x, bLin(pow2(uint(c)))); t != nil {
					x = t
				}
				return one(st, IntV{mkDiv(x, pow2(uint(c)))})
			}
			return ip.symShift(st, op, x, y, at, pos)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return one(st, IntV{bitop(st.f, op, x, y, at)})
		}
	}
	if bt2, ok := under(at).(*types.Basic); ok && bt2.Info()&types.IsString != 0 {
		x, ok1 := a.(SeqV)
		y, ok2 := b.(SeqV)
		if ok1 && ok2 {
			if op == token.ADD {
				return one(st, SeqV{x.S.concat(y.S)})
			}
			xb, c1 := x.S.constBytes()
			yb, c2 := y.S.constBytes()
			if c1 && c2 {
				r := strings.Compare(string(xb), string(yb))
				switch op {
				case token.LSS:
					return one(st, BoolV{cBool(r < 0)})
				case token.LEQ:
					return one(st, BoolV{cBool(r <= 0)})
				case token.GTR:
					return one(st, BoolV{cBool(r > 0)})
				case token.GEQ:
					return one(st, BoolV{cBool(r >= 0)})
				}
			}
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return one(st, BoolV{bPred("op"+op.String(), a, b)})
	}
	return one(st, symVal(at, mkSym("op"+op.String(), a, b)))
}

// symShift resolves shifts by an amount known to be small by cases.
func (ip *Interp) symShift(st *State, op token.Token, x, y *Lin, t types.Type, pos token.Pos) ([]alt, []panAlt) {
	_, signed, _ := intInfo(t)
	var pans []panAlt
	if x.isConst() {
		// constant shifted by a bounded amount: keep as a power-of-two atom
		lo, hi := st.f.bounds(y)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(bi(63)) <= 0 && len(y.ts) == 1 {
			v := y.ts[0].a.lin()
			if l, h := st.f.bounds(v); l != nil && h != nil && new(big.Int).Sub(h, l).Cmp(bi(3)) <= 0 {
				var keys []*Lin
				for k := l; k.Cmp(h) <= 0; k = new(big.Int).Add(k, big1) {
					keys = append(keys, bLin(k))
				}
				var out []alt
				for _, s := range st.casesOf(v, keys) {
					c := new(big.Int)
					for k := l; k.Cmp(h) <= 0; k = new(big.Int).Add(k, big1) {
						if s.f.entailsEq(v, bLin(k)) {
							c.Add(new(big.Int).Mul(y.ts[0].c, k), y.k)
						}
					}
					r := x.mulc(pow2(uint(c.Int64())))
					if op == token.SHR {
						r = mkDiv(x, pow2(uint(c.Int64())))
					}
					out = append(out, alt{s, IntV{fit(s.f, r, t)}})
				}
				return out, nil
			}
		}
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(bi(63)) <= 0 {
			top := shiftTop(x, op, hi, lo)
			a := mkAtom("shift"+op.String(), []Val{IntV{x}, IntV{y}}, big0, top)
			l := a.lin()
			return []alt{{st, IntV{fit(st.f, l, t)}}}, nil
		}
	}
	bits, _, _ := intInfo(t)
	a := mkAtom("shift"+op.String()+fmt.Sprint(bits), []Val{IntV{x}, IntV{y}}, nil, nil)
	if !signed {
		a.lo, a.hi = big0, bLin(pow2(bits)).addc(-1).k
		if op == token.SHR {
			if lo, hi := x.bounds(nil); lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(a.hi) < 0 {
				a.hi = hi
			}
		}
	} else {
		a.lo, a.hi = bLin(pow2(bits-1)).neg().k, bLin(pow2(bits-1)).addc(-1).k
	}
	return []alt{{st, IntV{a.lin()}}}, pans
}

func mulLemma(f *Facts, x, y *Lin) {
	if x.isConst() || y.isConst() {
		return
	}
	// x <= floor(t/y)  =>  x*y <= t
	for _, pr := range [][2]*Lin{{x, y}, {y, x}} {
		for _, a := range atomList {
			if a.head != "sdiv" || len(a.fv) > 0 {
				continue
			}
			if a.args[1].(IntV).L.Key() == pr[1].Key() && f.entails(a.lin().sub(pr[0])) && f.entails(pr[0]) {
				f.addGE(a.args[0].(IntV).L.sub(x.mul(y)))
			}
		}
	}
}

// mask recognises 2^hi - 2^lo.
func mask(l *Lin) (lo, n uint, ok bool) {
	if !l.isConst() || l.k.Sign() <= 0 {
		return
	}
	for l.k.Bit(int(lo)) == 0 {
		lo++
	}
	m := l.k.BitLen()
	for i := int(lo); i < m; i++ {
		if l.k.Bit(i) == 0 {
			return 0, 0, false
		}
	}
	return lo, uint(m) - lo, true
}

func bitop(f *Facts, op token.Token, x, y *Lin, t types.Type) *Lin {
	if x.isConst() && y.isConst() && x.k.Sign() >= 0 && y.k.Sign() >= 0 {
		r := bi(0)
		switch op {
		case token.AND:
			r.And(x.k, y.k)
		case token.OR:
			r.Or(x.k, y.k)
		case token.XOR:
			r.Xor(x.k, y.k)
		case token.AND_NOT:
			r.AndNot(x.k, y.k)
		}
		return bLin(r)
	}
	if x.Key() == y.Key() {
		switch op {
		case token.AND, token.OR:
			return x
		default:
			return cLin(0)
		}
	}
	if x.isConst() && op != token.AND_NOT {
		x, y = y, x
	}
	bits, signed, _ := intInfo(t)
	if y.isConst() && y.isZero() {
		if op == token.AND {
			return cLin(0)
		}
		return x
	}
	nonneg := !signed || f.entails(x)
	if nonneg && op == token.AND_NOT && y.isConst() && y.k.Sign() >= 0 {
		m := bi(0).Sub(pow2(bits), big1)
		y = bLin(m.AndNot(m, y.k))
		op = token.AND
	}
	if nonneg && op == token.AND {
		if r := bitAnd(f, x, y); r != nil {
			return r
		}
		if r := bitAnd(f, y, x); r != nil {
			return r
		}
		if lo, n, ok := mask(y); ok {
			q := mkDiv(x, pow2(lo))
			r := q.sub(mkDiv(x, pow2(lo+n)).mulc(pow2(n)))
			return r.mulc(pow2(lo))
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint bits: one operand is a multiple of 2^n, the other below it
		for _, pr := range [][2]*Lin{{x, y}, {y, x}} {
			n := trailing(f, pr[0], bits)
			if n > 0 {
				lo, hi := f.bounds(pr[1])
				if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(pow2(n)) < 0 || n < 64 && f.entails(pr[1]) && f.entails(bLin(pow2(n)).addc(-1).sub(pr[1])) {
					return x.add(y)
				}
			}
		}
		// x|c with x a multiple pattern: split digits of constants
	}
	if x.Key() > y.Key() && op != token.AND_NOT {
		x, y = y, x
	}
	a := mkAtom("bit"+op.String(), []Val{IntV{x}, IntV{y}}, nil, nil)
	if a.lo == nil && a.hi == nil {
		if !signed {
			a.lo, a.hi = big0, bLin(pow2(bits)).addc(-1).k
			_, xh := x.bounds(nil)
			_, yh := y.bounds(nil)
			if op == token.AND {
				for _, h := range []*Lin{x, y} {
					if l, hh := h.bounds(nil); l != nil && l.Sign() >= 0 && hh != nil && hh.Cmp(a.hi) < 0 {
						a.hi = hh
					}
				}
			} else if xh != nil && yh != nil && xh.Sign() >= 0 && yh.Sign() >= 0 {
				m := xh.BitLen()
				if yh.BitLen() > m {
					m = yh.BitLen()
				}
				if h := bLin(pow2(uint(m))).addc(-1).k; h.Cmp(a.hi) < 0 {
					a.hi = h
				}
			}
		} else {
			a.lo, a.hi = bLin(pow2(bits-1)).neg().k, bLin(pow2(bits-1)).addc(-1).k
		}
	}
	return a.lin()
}

// shifted recognises the atom of a shift by a symbolic amount.
func shifted(l *Lin, op string) (x, s *Lin, bits uint, ok bool) {
	if len(l.ts) != 1 || l.k.Sign() != 0 || l.ts[0].c.Cmp(big1) != 0 || !strings.HasPrefix(l.ts[0].a.head, "shift"+op) {
		return
	}
	a := l.ts[0].a
	n, err := strconv.Atoi(strings.TrimPrefix(a.head, "shift"+op))
	if err != nil {
		n = 63
	}
	return a.args[0].(IntV).L, a.args[1].(IntV).L, uint(n), true
}

// pow2Of recognises 2^p with symbolic p.
func pow2Of(f *Facts, l *Lin) *Lin {
	for _, op := range []string{"<<", ">>"} {
		x, s, bits, ok := shifted(l, op)
		if !ok || !x.isConst() {
			continue
		}
		m, ok := log2exact(x.k)
		if !ok || !f.entails(s) {
			continue
		}
		if op == ">>" && f.entails(cLin(int64(m)).sub(s)) {
			return cLin(int64(m)).sub(s)
		}
		if op == "<<" && f.entails(cLin(int64(bits)-1-int64(m)).sub(s)) {
			return s.addc(int64(m))
		}
	}
	return nil
}

// topBit is the highest bit of x, a value shifted left out of its type, if
// only that bit decides whether x reaches t.
func topBit(f *Facts, x, t *Lin) *Lin {
	_, _, bits, ok := shifted(x, "<<")
	if !ok || !t.isConst() || x.ts[0].a.head == "shift<<" || t.k.Cmp(pow2(bits-1)) != 0 {
		return nil
	}
	return bitAnd(f, x, t)
}

// bitTest states that bit p of x is set.
func bitTest(x, p *Lin) *Bool {
	if len(x.ts) == 1 && x.k.Sign() == 0 && x.ts[0].c.Cmp(big1) == 0 && x.ts[0].a.head == "rev8" {
		return bitTest(x.ts[0].a.args[0].(IntV).L, cLin(7).sub(p))
	}
	if c, ok := p.constVal(); ok && c >= 0 && c < 64 {
		q := mkDiv(x, pow2(uint(c)))
		return bNeg(bEq0(q.sub(mkDiv(x, pow2(uint(c)+1)).mulc64(2))))
	}
	return bPred("bitset", IntV{x}, IntV{p})
}

// bitAnd is x&y where one operand selects a single bit at a symbolic position.
func bitAnd(f *Facts, x, y *Lin) *Lin {
	if p := pow2Of(f, y); p != nil {
		return mkAtom("bit2p", []Val{IntV{x}, IntV{p}}, big0, bLin(pow2(63)).k).lin()
	}
	if !y.isConst() {
		return nil
	}
	m, ok := log2exact(y.k)
	if !ok {
		return nil
	}
	if v, s, _, ok := shifted(x, ">>"); ok && f.entails(s) && f.entails(v) && !v.isConst() {
		return b2i(bitTest(v, s.addc(int64(m)))).mulc(y.k)
	}
	if v, s, _, ok := shifted(x, "<<"); ok && f.entails(s) && f.entails(cLin(int64(m)).sub(s)) && !v.isConst() {
		return b2i(bitTest(v, cLin(int64(m)).sub(s))).mulc(y.k)
	}
	return nil
}

// trailing is the number of low zero bits every value of l has.
func trailing(f *Facts, l *Lin, bits uint) uint {
	n := bits
	upd := func(c *Lin) {
		if c.k.Sign() == 0 {
			return
		}
		t := uint(0)
		for c.k.Bit(int(t)) == 0 {
			t++
		}
		if t < n {
			n = t
		}
	}
	for _, t := range l.ts {
		upd(bLin(t.c))
	}
	upd(bLin(l.k))
	return n
}

// ---- equality

func eqVal(st *State, a, b Val, at, bt types.Type) *Bool {
	f := st.f
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return bEq0(x.L.sub(y.L))
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if x.B.op == bConst {
				if x.B.val {
					return y.B
				}
				return bNeg(y.B)
			}
			if y.B.op == bConst {
				if y.B.val {
					return x.B
				}
				return bNeg(x.B)
			}
			return bOr2(bAnd2(x.B, y.B), bAnd2(bNeg(x.B), bNeg(y.B)))
		}
	case SeqV:
		if y, ok := b.(SeqV); ok {
			return seqEqBool(f, x.S, y.S)
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			return ptrEq(f, x, y)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			if y.obj == nil {
				return isNilVal(x)
			}
			if x.obj == nil {
				return isNilVal(y)
			}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			if y.obj == nil {
				return isNilVal(x)
			}
			return isNilVal(y)
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if y.fn == nil && y.sym == nil {
				return isNilVal(x)
			}
			return isNilVal(y)
		}
	case TypV:
		if y, ok := b.(TypV); ok {
			if x.typ == nil || y.typ == nil {
				return cBool(x.typ == nil && y.typ == nil)
			}
			return cBool(types.Identical(x.typ, y.typ))
		}
		if y, ok := b.(IfaceV); ok && y.typ == nil && y.sym == nil {
			return cBool(x.typ == nil)
		}
	case NodeV:
		if y, ok := b.(NodeV); ok {
			return nodeEq(st, x.N, y.N, at)
		}
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			return ifaceEq(st, x, y)
		case TypV:
			if x.typ == nil && x.sym == nil {
				return cBool(y.typ == nil)
			}
		case OpaqueV:
			if x.typ == nil && x.sym == nil {
				return isNilVal(y)
			}
		}
		if !types.IsInterface(bt) {
			return ifaceEq(st, x, IfaceV{typ: bt, v: b})
		}
	}
	if y, ok := b.(IfaceV); ok && !types.IsInterface(at) {
		if _, isOp := a.(OpaqueV); !isOp {
			return ifaceEq(st, IfaceV{typ: at, v: a}, y)
		}
	}
	if y, ok := b.(IfaceV); ok && y.typ == nil && y.sym == nil {
		return isNilVal(a)
	}
	if a.Key() == b.Key() {
		return bTrue
	}
	if b.Key() < a.Key() {
		a, b = b, a
	}
	return bPred("eq", a, b)
}

func seqEqBool(f *Facts, a, b Seq) *Bool {
	if seqEqual(f, a, b) {
		return bTrue
	}
	la, lb := a.length(), b.length()
	if d := la.sub(lb); f.decide(bEq0(d)) == 0 {
		return bFalse
	}
	ca, ok1 := a.constBytes()
	cb, ok2 := b.constBytes()
	if ok1 && ok2 {
		return cBool(string(ca) == string(cb))
	}
	if apart(a, b) {
		return bFalse
	}
	n, okn := la.constVal()
	if lb.eqSyn(la) && okn && n <= 8 {
		x, y := a.num(int(n)), b.num(int(n))
		if x != nil && y != nil {
			return bEq0(x.sub(y))
		}
	}
	// empty comparison
	if len(b.segs) == 0 {
		return bEq0(la)
	}
	if len(a.segs) == 0 {
		return bEq0(lb)
	}
	x, y := SeqV{a}, SeqV{b}
	if y.Key() < x.Key() {
		x, y = y, x
	}
	p := bPred("seqeq", x, y)
	if !la.eqSyn(lb) && !f.entailsEq(la, lb) {
		return bAnd2(bEq0(la.sub(lb)), p)
	}
	return p
}

// apart: the sequences have different constant bytes at one position.
func apart(a, b Seq) bool {
	type cb struct {
		at int64
		d  []byte
	}
	list := func(q Seq) (out []cb) {
		at := int64(0)
		for _, g := range q.segs {
			if g.kind == sConst {
				out = append(out, cb{at, g.data})
			}
			n, ok := g.length().constVal()
			if !ok {
				return
			}
			at += n
		}
		return
	}
	x, y := list(a), list(b)
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		lo, hi := p.at, p.at+int64(len(p.d))
		if q.at > lo {
			lo = q.at
		}
		e := q.at + int64(len(q.d))
		if e < hi {
			hi = e
		}
		for i := lo; i < hi; i++ {
			if p.d[i-p.at] != q.d[i-q.at] {
				return true
			}
		}
		if p.at+int64(len(p.d)) <= e {
			x = x[1:]
		} else {
			y = y[1:]
		}
	}
	return false
}

func ptrEq(f *Facts, x, y PtrV) *Bool {
	if y.obj == nil {
		return isNilVal(x)
	}
	if x.obj == nil {
		return isNilVal(y)
	}
	if x.obj == y.obj {
		if pathKey(x.path) == pathKey(y.path) {
			return bTrue
		}
		if len(x.path) == len(y.path) {
			eq := bTrue
			for i := range x.path {
				if (x.path[i].idx == nil) != (y.path[i].idx == nil) {
					return bFalse
				}
				if x.path[i].idx == nil {
					if x.path[i].field != y.path[i].field {
						return bFalse
					}
				} else {
					eq = bAnd2(eq, bEq0(x.path[i].idx.sub(y.path[i].idx)))
				}
			}
			return eq
		}
		return bFalse
	}
	if x.obj.fresh != y.obj.fresh || x.obj.fresh && y.obj.fresh && x.obj.fam == nil && y.obj.fam == nil || x.obj.glob != nil && y.obj.glob != nil {
		return bFalse
	}
	var a, b Val = x, y
	if b.Key() < a.Key() {
		a, b = b, a
	}
	return bPred("eq", a, b)
}

func ifaceEq(st *State, x, y IfaceV) *Bool {
	if y.typ == nil && y.sym == nil {
		return isNilVal(x)
	}
	if x.typ == nil && x.sym == nil {
		return isNilVal(y)
	}
	if x.typ != nil && y.typ != nil {
		if !types.Identical(x.typ, y.typ) {
			return bFalse
		}
		return eqVal(st, x.v, y.v, x.typ, y.typ)
	}
	var a, b Val = x, y
	if b.Key() < a.Key() {
		a, b = b, a
	}
	if a.Key() == b.Key() {
		return bTrue
	}
	return bPred("eq", a, b)
}

func nodeEq(st *State, a, b Node, t types.Type) *Bool {
	if a.Key() == b.Key() {
		return bTrue
	}
	a, b = expand(a), expand(b)
	switch x := a.(type) {
	case BytesN:
		if y, ok := b.(BytesN); ok {
			return seqEqBool(st.f, x.S, y.S)
		}
	case StructN:
		if y, ok := b.(StructN); ok {
			ut := under(t).(*types.Struct)
			r := bTrue
			for i := range x.fs {
				if ut.Field(i).Name() == "_" {
					continue
				}
				r = bAnd2(r, nodeEq(st, x.fs[i], y.fs[i], ut.Field(i).Type()))
			}
			return r
		}
	case LeafN:
		if y, ok := b.(LeafN); ok {
			return eqVal(st, x.V, y.V, t, t)
		}
	case ArrN:
		if at, ok := under(t).(*types.Array); ok && at.Len() <= 64 {
			r := bTrue
			for i := int64(0); i < at.Len(); i++ {
				p := []PE{{idx: cLin(i)}}
				r = bAnd2(r, nodeEq(st, st.readNode(a, p, 0), st.readNode(b, p, 0), at.Elem()))
			}
			return r
		}
	}
	var p, q Val = NodeV{a}, NodeV{b}
	if q.Key() < p.Key() {
		p, q = q, p
	}
	return bPred("eq", p, q)
}

// ---- type assertions

func (ip *Interp) typeAssert(st *State, v Val, t types.Type, commaOk bool, pos token.Pos) ([]alt, []panAlt) {
	var out []alt
	var pans []panAlt
	yes := func(s *State, r Val) {
		if commaOk {
			r = TupleV{[]Val{r, BoolV{bTrue}}}
		}
		out = append(out, alt{s, r})
	}
	no := func(s *State) {
		if commaOk {
			out = append(out, alt{s, TupleV{[]Val{zeroVal(t), BoolV{bFalse}}}})
		} else {
			pans = append(pans, panAlt{s, ip.panicInfo(pos, "type assertion fails")})
		}
	}
	it, isI := under(t).(*types.Interface)
	switch x := v.(type) {
	case IfaceV:
		if x.typ != nil {
			if isI {
				if types.Implements(x.typ, it) {
					yes(st, x)
				} else {
					no(st)
				}
			} else if types.Identical(x.typ, t) {
				yes(st, x.v)
			} else {
				no(st)
			}
			return out, pans
		}
		if x.sym == nil {
			no(st)
			return out, pans
		}
		// symbolic interface: enumerate the module's implementations
		for _, c := range ip.ifaceCases(st, x, pos) {
			if c.v.typ == nil && c.v.sym == nil {
				no(c.st)
				continue
			}
			if c.v.typ == nil { // still symbolic
				tt, ff := split(c.st, bPred("hastype:"+t.String(), SymV{c.v.sym}), pos)
				for _, s := range tt {
					if isI {
						yes(s, c.v)
					} else {
						yes(s, symVal(t, mkSym("as:"+t.String(), SymV{c.v.sym})))
					}
				}
				for _, s := range ff {
					no(s)
				}
				continue
			}
			if isI && types.Implements(c.v.typ, it) {
				yes(c.st, c.v)
			} else if !isI && types.Identical(c.v.typ, t) {
				yes(c.st, c.v.v)
			} else {
				no(c.st)
			}
		}
		return out, pans
	case TypV:
		if x.typ == nil {
			no(st)
		} else {
			yes(st, x)
		}
		return out, pans
	}
	if types.IsInterface(t) {
		yes(st, v)
		return out, pans
	}
	tt, ff := split(st, bPred("hastype:"+t.String(), v), pos)
	for _, s := range tt {
		yes(s, symVal(t, mkSym("as:"+t.String(), v)))
	}
	for _, s := range ff {
		no(s)
	}
	return out, pans
}

type ifaceCase struct {
	st *State
	v  IfaceV
}

// closedIfaces are the module's own interfaces whose values always are one of the module's types.
var closedIfaces = map[string]bool{
	modPath + "/wire.Tx": true, modPath + "/wire.Account": true, modPath + "/tree.Node": true, modPath + "/wire.Message": true,
}

// ifaceCases splits a symbolic interface value into nil and its possible dynamic types.
func (ip *Interp) ifaceCases(st *State, x IfaceV, pos token.Pos) []ifaceCase {
	var out []ifaceCase
	nilB := isNilVal(x)
	t, f := split(st, nilB, pos)
	for _, s := range t {
		out = append(out, ifaceCase{s, IfaceV{ityp: x.ityp}})
	}
	if !closedIfaces[namedPath(x.ityp)] {
		for _, s := range f {
			y := x
			y.null = nil
			out = append(out, ifaceCase{s, y})
		}
		return out
	}
	impls := P.implementers(under(x.ityp).(*types.Interface))
	for _, s := range f {
		// one tag per symbolic interface
		tag := mkAtom("dyn", []Val{SymV{x.sym}}, big0, bi(int64(len(impls)-1))).lin()
		for i, it := range impls {
			for _, g := range s.f.clone().assume(bEq0(tag.addc(-int64(i))), true) {
				s2 := s.clone()
				s2.f = g
				s2.conds = append(s2.conds[:len(s2.conds):len(s2.conds)], cond{bEq0(tag.addc(-int64(i))), true, pos})
				v := symVal(it, mkSym("as:"+it.String(), SymV{x.sym}))
				if p, ok := v.(PtrV); ok {
					p.null = nil // typed nil pointers are not considered
					v = p
				}
				out = append(out, ifaceCase{s2, IfaceV{typ: it, v: v, ityp: x.ityp}})
			}
		}
	}
	return out
}

// ---- calls

func (ip *Interp) call(fr *frame, st *State, c *ssa.CallCommon, pos token.Pos) []Outcome {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ip.val(fr, a))
	}
	if c.IsInvoke() {
		recv := ip.val(fr, c.Value)
		return ip.invoke(fr, st, recv, c.Method, args, c.Signature(), pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ip.builtin(fr, st, b.Name(), args, c, pos)
	}
	return ip.callVal(st, ip.val(fr, c.Value), args, c, pos, fr)
}

func (ip *Interp) callVal(st *State, fv Val, args []Val, c *ssa.CallCommon, pos token.Pos, fr *frame) []Outcome {
	if c != nil && c.IsInvoke() {
		return ip.invoke(fr, st, fv, c.Method, args, c.Signature(), pos)
	}
	f, ok := fv.(FuncV)
	if !ok {
		unsupported(pos, "call of %T", fv)
	}
	if f.fn != nil {
		return ip.callFn(st, f.fn, args, f.bind, pos, fr)
	}
	if f.sym == nil {
		return []Outcome{{st: st, pan: ip.panicInfo(pos, "call of nil function")}}
	}
	if strings.HasPrefix(f.sym.head, "builtin:") {
		return ip.builtin(fr, st, strings.TrimPrefix(f.sym.head, "builtin:"), args, c, pos)
	}
	return ip.opaqueCall(st, "dyn:"+f.sym.Key(), args, c.Signature().Results(), pos)
}

func funcKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().String()
	}
	return fn.String()
}

func (ip *Interp) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, fr *frame) []Outcome {
	// unwrap synthetic wrappers' names for hooks
	c := &Call{fn: fn, name: funcKey(fn), args: args, pos: pos, res: fn.Signature.Results(), fr: fr}
	if ip.preHook != nil {
		if o, ok := ip.preHook(ip, st, c); ok {
			return o
		}
	}
	if h, ok := ip.hooks[c.name]; ok {
		if o, ok := h(ip, st, c); ok {
			return o
		}
	}
	if m, ok := models[c.name]; ok {
		if o, ok := m(ip, st, c); ok {
			return o
		}
	}
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	inRepo := false
	if pk != nil {
		inRepo = P.isRep[pk.Pkg]
	} else if fn.Synthetic != "" {
		inRepo = true // wrappers and bound methods
	}
	if inRepo || pk != nil && interpStd[pk.Pkg.Path()] || interpFn[c.name] {
		if P.body(fn) {
			return ip.exec(st, fn, args, bind, pos)
		}
	}
	return ip.opaqueCall(st, c.name, args, fn.Signature.Results(), pos)
}

// opaqueCall models an unknown function: its results depend on its arguments only if it is known to be pure;
// memory reachable from its arguments becomes unknown.
func (ip *Interp) opaqueCall(st *State, name string, args []Val, results *types.Tuple, pos token.Pos) []Outcome {
	pure := pureFn(name)
	var rs []Val
	var base *Sym
	if pure {
		base = mkSym("call:"+name, contentArgs(st, args, pos)...)
	} else {
		base = freshSym("call:" + name)
		for _, a := range args {
			ip.havoc(st, a, map[*Obj]bool{}, pos)
		}
		st.emit(Event{kind: "ext:" + name, args: args, pos: pos})
	}
	for i := 0; i < results.Len(); i++ {
		s := base
		if results.Len() > 1 {
			s = mkSym("res", SymV{base}, IntV{cLin(int64(i))})
		}
		v := symVal(results.At(i).Type(), s)
		rs = append(rs, v)
	}
	return []Outcome{{st: st, ret: rs}}
}

// contentArgs replaces references by what they refer to, so that equal contents give equal results.
func contentArgs(st *State, args []Val, pos token.Pos) []Val {
	out := make([]Val, len(args))
	for i, a := range args {
		out[i] = a
		if s, ok := a.(SliceV); ok && s.obj != nil && isByte(s.obj.elemType()) {
			out[i] = SeqV{st.bytesOf(s, pos)}
		}
		if p, ok := a.(PtrV); ok && p.obj != nil && !p.obj.stale {
			n := st.load(p, pos)
			if _, isLazy := n.(LazyN); isLazy || !hasRefs(n) {
				out[i] = NodeV{n}
			}
		}
		if f, ok := a.(IfaceV); ok && f.typ != nil {
			r := contentArgs(st, []Val{f.v}, pos)
			out[i] = IfaceV{typ: f.typ, v: r[0], ityp: f.ityp}
		}
	}
	return out
}

func hasRefs(n Node) bool {
	switch x := n.(type) {
	case LeafN:
		switch x.V.(type) {
		case IntV, BoolV, SeqV, OpaqueV:
			return false
		}
		return true
	case StructN:
		for _, f := range x.fs {
			if hasRefs(f) {
				return true
			}
		}
		return false
	case BytesN:
		return false
	}
	return true
}

func (o *Obj) elemType() types.Type {
	if o.arr {
		return o.typ
	}
	if a, ok := under(o.typ).(*types.Array); ok {
		return a.Elem()
	}
	return o.typ
}

// havoc makes the memory reachable from v unknown.
func (ip *Interp) havoc(st *State, v Val, seen map[*Obj]bool, pos token.Pos) {
	hv := func(o *Obj) {
		if o == nil || seen[o] || o.stale {
			return
		}
		seen[o] = true
		ip.havocNode(st, st.content(o), seen, pos)
		switch {
		case o.arr:
			if isByte(o.typ) {
				st.set(o, BytesN{rawSeq(freshSym("havoc"), cLin(0), o.alen)})
			} else {
				st.set(o, ArrN{elem: o.typ, base: baseLazy, sym: freshSym("havoc")})
			}
		default:
			if _, ok := under(o.typ).(*types.Map); ok {
				st.set(o, MapN{typ: o.typ, sym: freshSym("havoc")})
			} else {
				st.set(o, LazyN{o.typ, freshSym("havoc")})
			}
		}
	}
	switch x := v.(type) {
	case PtrV:
		hv(x.obj)
	case SliceV:
		hv(x.obj)
	case MapV:
		hv(x.obj)
	case IfaceV:
		if x.typ != nil {
			ip.havoc(st, x.v, seen, pos)
		}
	case NodeV:
		ip.havocNode(st, x.N, seen, pos)
	case FuncV:
		for _, b := range x.bind {
			ip.havoc(st, b, seen, pos)
		}
	}
}

func (ip *Interp) havocNode(st *State, n Node, seen map[*Obj]bool, pos token.Pos) {
	switch x := n.(type) {
	case LeafN:
		ip.havoc(st, x.V, seen, pos)
	case StructN:
		for _, f := range x.fs {
			ip.havocNode(st, f, seen, pos)
		}
	case ArrN:
		for _, u := range x.ups {
			ip.havocNode(st, u.node, seen, pos)
		}
	}
}

func (ip *Interp) invoke(fr *frame, st *State, recv Val, m *types.Func, args []Val, sig *types.Signature, pos token.Pos) []Outcome {
	switch r := recv.(type) {
	case TypV:
		if o, ok := reflectTypeMethod(ip, st, r, m.Name(), args, sig, pos); ok {
			return o
		}
		unsupported(pos, "reflect.Type method %s", m.Name())
	case IfaceV:
		if r.typ != nil {
			if o, ok := ip.specialRecv(st, r, m.Name(), args, pos); ok {
				return o
			}
			fn := P.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
			if fn == nil {
				unsupported(pos, "method %s of %s", m.Name(), r.typ)
			}
			return ip.callFn(st, fn, append([]Val{r.v}, args...), nil, pos, fr)
		}
		if r.sym == nil {
			return []Outcome{{st: st, pan: ip.panicInfo(pos, "method call on nil interface")}}
		}
		if h, ok := ip.hooks["invoke:"+m.Name()]; ok {
			c := &Call{name: "invoke:" + m.Name(), args: append([]Val{r}, args...), pos: pos, res: sig.Results(), fr: fr}
			if o, ok := h(ip, st, c); ok {
				return o
			}
		}
		var out []Outcome
		for _, c := range ip.ifaceCases(st, r, pos) {
			if c.v.typ == nil && c.v.sym == nil {
				out = append(out, Outcome{st: c.st, pan: ip.panicInfo(pos, "method call on nil interface")})
				continue
			}
			if c.v.typ != nil {
				out = append(out, ip.invoke(fr, c.st, c.v, m, args, sig, pos)...)
				continue
			}
			name := "invoke:" + namedPath(r.ityp) + "." + m.Name()
			out = append(out, ip.opaqueCall(c.st, name, append([]Val{c.v}, args...), sig.Results(), pos)...)
		}
		return out
	case OpaqueV:
		return ip.opaqueCall(st, "invoke:"+m.FullName(), append([]Val{recv}, args...), sig.Results(), pos)
	}
	unsupported(pos, "method call %s on %T", m.Name(), recv)
	return nil
}

// ---- builtins

func (ip *Interp) builtin(fr *frame, st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) []Outcome {
	ret := func(s *State, vs ...Val) []Outcome { return []Outcome{{st: s, ret: vs}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return ret(st, IntV{x.cap})
			}
			return ret(st, IntV{x.len})
		case SeqV:
			return ret(st, IntV{x.S.length()})
		case MapV:
			return ret(st, IntV{ip.mapLen(st, x, pos)})
		case NodeV, PtrV:
			t := under(c.Args[0].Type())
			if p, ok := t.(*types.Pointer); ok {
				t = under(p.Elem())
			}
			return ret(st, IntV{cLin(t.(*types.Array).Len())})
		}
	case "append":
		return ip.append(st, args[0], args[1], c.Args[0].Type(), pos)
	case "copy":
		return ip.copy(st, args[0], args[1], pos)
	case "delete":
		as, ps := ip.mapDelete(st, args[0], args[1], pos)
		var out []Outcome
		for _, a := range as {
			out = append(out, Outcome{st: a.st})
		}
		for _, p := range ps {
			out = append(out, Outcome{st: p.st, pan: p.pan})
		}
		return out
	case "print", "println":
		return ret(st)
	case "min", "max":
		if x, ok := args[0].(IntV); ok && len(args) == 2 {
			y := args[1].(IntV)
			t, f := split(st, bGe0(y.L.sub(x.L)), pos) // x <= y
			a, b := Val(x), Val(y)
			if name == "max" {
				a, b = b, a
			}
			var out []Outcome
			for _, s := range t {
				out = append(out, Outcome{st: s, ret: []Val{a}})
			}
			for _, s := range f {
				out = append(out, Outcome{st: s, ret: []Val{b}})
			}
			return out
		}
	case "clear":
		if m, ok := args[0].(MapV); ok && m.obj != nil {
			st.set(m.obj, MapN{typ: m.obj.typ})
			return ret(st)
		}
	case "recover":
		unsupported(pos, "recover")
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		as, ps := ip.derefThen(st, p, pos, func(*State) Val { return p })
		var out []Outcome
		for _, a := range as {
			out = append(out, Outcome{st: a.st, ret: []Val{a.v}})
		}
		for _, p := range ps {
			out = append(out, Outcome{st: p.st, pan: p.pan})
		}
		return out
	}
	unsupported(pos, "builtin %s", name)
	return nil
}

func (ip *Interp) append(st *State, a, b Val, t types.Type, pos token.Pos) []Outcome {
	elem := under(t).(*types.Slice).Elem()
	x := a.(SliceV)
	var l2 *Lin
	var bs Seq
	byt := isByte(elem)
	switch y := b.(type) {
	case SeqV:
		bs, l2 = y.S, y.S.length()
	case SliceV:
		l2 = y.len
		if byt {
			bs = st.bytesOf(y, pos)
		}
	default:
		unsupported(pos, "append of %T", b)
	}
	if l2.isZero() {
		return []Outcome{{st: st, ret: []Val{x}}}
	}
	n := x.len.add(l2)
	if x.obj != nil && !st.f.entailsEq(x.len, x.cap) {
		st.emit(Event{kind: "append-inplace", args: []Val{x, IntV{l2}}, pos: pos})
	}
	if _, fixed := x.cap.constVal(); fixed && byt && x.obj != nil && st.f.entails(x.cap.sub(n)) {
		// the spare capacity of a buffer of fixed size suffices: written in place
		v := x
		v.len = n
		st.writeBytes(v, x.len, bs, pos)
		return []Outcome{{st: st, ret: []Val{v}}}
	}
	var capA *Lin
	if n.isConst() {
		capA = freshInt("cap", n, bLin(maxLen))
	} else {
		capA = freshInt("cap", cLin(0), bLin(maxLen))
		st.f.addGE(capA.sub(n))
	}
	o := freshArr(elem, capA, P.pos(pos))
	if byt {
		q := st.bytesOf(x, pos).concat(bs)
		full := q
		if sp := capA.sub(n); !sp.isZero() {
			full = q.concat(rawSeq(freshSym("spare"), cLin(0), sp))
		}
		st.set(o, BytesN{full})
	} else {
		y := b.(SliceV)
		an := ArrN{elem: elem, base: baseZero}
		if x.obj != nil && !x.len.isZero() {
			src := expand(st.readNode(st.content(x.obj), x.path, pos)).(ArrN)
			if x.off.isZero() {
				an = src
			} else {
				an = ip.copyRange(st, an, cLin(0), x, x.len, pos)
			}
		}
		if c, ok := l2.constVal(); ok && c <= 64 {
			for i := int64(0); i < c; i++ {
				e := st.readNode(st.content(y.obj), sliceElem(y, cLin(i)).path, pos)
				an = arrWrite(st.f, an, x.len.addc(i), e)
			}
		} else {
			an = ip.copyRange(st, an, x.len, y, l2, pos)
		}
		st.set(o, an)
	}
	r := SliceV{obj: o, off: cLin(0), len: n, cap: capA}
	if !st.f.entails(l2.addc(-1)) {
		if nx := isNilVal(x); nx.op != bConst || nx.val {
			r.null = bAnd2(nx, bEq0(l2))
		}
	}
	return []Outcome{{st: st, ret: []Val{r}}}
}

// copyRange records dst[at+j] = src[j] for 0 <= j < n.
func (ip *Interp) copyRange(st *State, an ArrN, at *Lin, src SliceV, n *Lin, pos token.Pos) ArrN {
	arr, ok := expand(st.readNode(st.content(src.obj), src.path, pos)).(ArrN)
	if !ok {
		unsupported(pos, "copy of %T", src)
	}
	kv := kappa(20)
	g := st.f.clone()
	j := kv.lin().sub(at)
	g.addGE(j)
	g.addGE(n.sub(j).addc(-1))
	e := arrRead(g, arr, src.off.add(j))
	an.ups = append(append([]upd(nil), an.ups...), upd{lo: at, hi: at.add(n), v: kv, node: e})
	return an
}

func (ip *Interp) copy(st *State, a, b Val, pos token.Pos) []Outcome {
	x := a.(SliceV)
	var l2 *Lin
	switch y := b.(type) {
	case SeqV:
		l2 = y.S.length()
	case SliceV:
		l2 = y.len
	default:
		unsupported(pos, "copy from %T", b)
	}
	t, f := split(st, bGe0(l2.sub(x.len)), pos) // enough source
	var out []Outcome
	do := func(s *State, n *Lin) {
		if x.obj != nil && !n.isZero() {
			if isByte(x.obj.elemTypeAt(x.path)) {
				var q Seq
				switch y := b.(type) {
				case SeqV:
					q = y.S
				case SliceV:
					q = s.bytesOf(y, pos)
				}
				d, ok := q.slice(s.f, cLin(0), n)
				if !ok {
					d = rawSeq(mkSym("cut", SeqV{q}, IntV{cLin(0)}), cLin(0), n)
				}
				s.writeBytes(x, cLin(0), d, pos)
			} else {
				y := b.(SliceV)
				an := expand(s.readNode(s.content(x.obj), x.path, pos)).(ArrN)
				if c, ok := n.constVal(); ok && c <= 64 {
					src := s.content(y.obj)
					for i := int64(0); i < c; i++ {
						e := s.readNode(src, sliceElem(y, cLin(i)).path, pos)
						an = arrWrite(s.f, an, x.off.addc(i), e)
					}
				} else {
					an = ip.copyRange(s, an, x.off, y, n, pos)
				}
				s.set(x.obj, s.writeNode(s.content(x.obj), x.path, an, pos))
			}
		}
		out = append(out, Outcome{st: s, ret: []Val{IntV{n}}})
	}
	for _, s := range t {
		do(s, x.len)
	}
	for _, s := range f {
		do(s, l2)
	}
	return out
}

// elemTypeAt is the element type of the array at path inside o.
func (o *Obj) elemTypeAt(path []PE) types.Type {
	if len(path) == 0 {
		return o.elemType()
	}
	t := o.typ
	for i, e := range path {
		if e.idx != nil {
			if i == 0 && o.arr {
				continue
			}
			t = under(t).(*types.Array).Elem()
		} else {
			t = under(t).(*types.Struct).Field(e.field).Type()
		}
	}
	if a, ok := under(t).(*types.Array); ok {
		return a.Elem()
	}
	return t
}

// ---- globals

var globObjs = map[*ssa.Global]*Obj{}
var globInit = map[*Obj]Node{}

func globalObj(g *ssa.Global) *Obj {
	if o, ok := globObjs[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := &Obj{typ: t, glob: g, key: "global:" + g.String(), fresh: true, where: P.pos(g.Pos())}
	objSeq++
	o.id = objSeq
	globObjs[g] = o
	return o
}

var initsDone = map[*ssa.Package]bool{}
var mutableGlobals map[*ssa.Global]bool

// globalInit gives a global's content after package initialisation.
func globalInit(o *Obj) Node {
	if o.glob == nil {
		return zeroNode(o.typ)
	}
	pk := o.glob.Pkg
	lazy := func() Node {
		n := lazyNode(o.typ, mkSym(o.key))
		if l, ok := n.(LeafN); ok {
			if f, ok := l.V.(IfaceV); ok && namedPath(f.ityp) == "error" {
				f.null = nil
				return LeafN{f}
			}
		}
		return n
	}
	if !P.isRep[pk.Pkg] {
		return lazy()
	}
	if mutableGlobals == nil {
		mutableGlobals = findMutableGlobals()
	}
	if mutableGlobals[o.glob] {
		return lazy()
	}
	runInit(pk)
	if n, ok := globInit[o]; ok {
		return n
	}
	return lazy()
}

func runInit(pk *ssa.Package) {
	if initsDone[pk] {
		return
	}
	initsDone[pk] = true
	fn := pk.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
		}
	}()
	ip := newInterp()
	for _, q := range P.prog.AllPackages() {
		if q != pk {
			ip.hooks[q.Pkg.Path()+".init"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
				return []Outcome{{st: st}}, true
			}
		}
	}
	st := newState()
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			o := globalObj(g)
			st.h[o] = zeroNode(o.typ)
		}
	}
	outs := ip.exec(st, fn, nil, nil, token.NoPos)
	var live []Outcome
	for _, o := range outs {
		if o.pan == nil {
			live = append(live, o)
		}
	}
	if len(live) != 1 {
		return
	}
	for o, n := range live[0].st.h {
		if o.glob != nil {
			globInit[o] = n
		} else {
			o.init = n
		}
	}
	seen := map[*Obj]bool{}
	for o, n := range live[0].st.h {
		if o.glob != nil && o.glob.Pkg == pk {
			reachable(live[0].st, n, seen)
		}
	}
	for o := range seen {
		o.start = o.fresh && o.glob == nil
	}
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func isInitFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			return f.Signature.Recv() == nil
		}
	}
	return false
}

func findMutableGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, fn := range P.allFuncs() {
		if isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := rootOf(s.Addr).(*ssa.Global); ok {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// sortStates keeps results deterministic.
func sortOutcomes(o []Outcome) {
	sort.SliceStable(o, func(i, j int) bool { return o[i].pan == nil && o[j].pan != nil })
}
