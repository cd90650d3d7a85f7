package main

// S02 and S03: the emission schedule and the supply cache.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S02"] = checkS02
	checks["S03"] = checkS03
	atomRebuild["supply"] = func(args []Val) *Lin { return mkSupply(args[0].(IntV).L) }
	atomRebuild["rw"] = func(args []Val) *Lin { return mkRw(args[0].(IntV).L, args[1].(IntV).L) }
}

// Parameters of the emission schedule of the Nimiq main chain.
const (
	totalSupply     = 2_100_000_000_000_000
	initialSupply   = 252_000_000_000_000
	tailStart       = 48_692_960
	tailReward      = 4000
	emissionSpeed   = 4_194_304
	maxRewardBySpec = 1 << 42
)

// mkSupply is the supply just before height e: the initial supply plus the rewards of
// all heights below e.
func mkSupply(e *Lin) *Lin {
	return mkAtom("supply", []Val{IntV{e}}, bi(initialSupply), bi(totalSupply)).lin()
}

// asSupply recognises a supply and gives its height.
func asSupply(l *Lin) *Lin {
	if c, ok := l.constVal(); ok && c == initialSupply {
		return cLin(0)
	}
	if len(l.ts) == 1 && l.k.Sign() == 0 && l.ts[0].c.Cmp(big1) == 0 && l.ts[0].a.head == "supply" {
		return l.ts[0].a.args[0].(IntV).L
	}
	return nil
}

// mkRw is the reward at height h given supply s.
func mkRw(s, h *Lin) *Lin {
	if e := asSupply(s); e != nil && e.eqSyn(h) {
		return mkSupply(e.addc(1)).sub(s)
	}
	return mkAtom("rw", []Val{IntV{s}, IntV{h}}, big0, bi(maxRewardBySpec)).lin()
}

// recSupply gives the n-th iterate of a step that advances a supply by a fixed number of
// heights: f(j, S(h0+c*j)) = S(h0+c*(j+1)), starting at S(h0).
func recSupply(f FunV, x0, n *Lin) *Lin {
	h0 := asSupply(x0)
	if h0 == nil {
		return nil
	}
	step := func(j, h *Lin) *Lin {
		g, ok := f.apply(j).(FunV)
		if !ok {
			return nil
		}
		r, ok := g.apply(mkSupply(h)).(IntV)
		if !ok {
			return nil
		}
		return asSupply(r.L)
	}
	h1 := step(cLin(0), h0)
	if h1 == nil {
		return nil
	}
	c := h1.sub(h0)
	if _, ok := c.constVal(); !ok {
		return nil
	}
	k := kappa(17)
	at := func(j *Lin) *Lin { return h0.add(j.mul(c)) }
	if e := step(k.lin(), at(k.lin())); e == nil || !e.eqSyn(at(k.lin().addc(1))) {
		return nil
	}
	return mkSupply(at(n))
}

func policyFn(name string) *ssa.Function { return repoFn("policy", name) }

// isSupplyInt: an integer of 64 bits, the type of supplies.
func isU64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// rewardHook replaces the reward formula (S03) by its meaning.
func (r *supplyRun) rewardHook(ip *Interp) {
	fn := policyFn("BlockRewardBySupply")
	ip.keepLoops = fn
	ip.lenMax = r.max()
	ip.slotMax = bi(totalSupply)
	ip.hooks[funcKey(fn)] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		s, h := c.args[0].(IntV).L, c.args[1].(IntV).L
		if e := asSupply(s); e != nil && !e.eqSyn(h) && st.f.entailsEq(e, h) {
			h = e
		}
		rw := mkRw(s, h)
		if st.f.entails(cLin(totalSupply).sub(s)) {
			// S03: no more than what remains
			st.f.addGE(cLin(totalSupply).sub(s).sub(rw))
		}
		return []Outcome{{st: st, ret: []Val{IntV{rw}}}}, true
	}
}

// cachePath finds the supply cache in the value of a package-level variable.
func cachePaths(t types.Type, path []int) (out [][]int) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isU64(u.Elem()) {
			return [][]int{path}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, cachePaths(u.Field(i).Type(), append(append([]int{}, path...), i))...)
		}
	}
	return
}

func getPath(n Node, path []int) Node {
	for _, i := range path {
		n = expand(n).(StructN).fs[i]
	}
	return n
}

func setPath(n Node, path []int, v Node) Node {
	if len(path) == 0 {
		return v
	}
	s := expand(n).(StructN)
	fs := append([]Node{}, s.fs...)
	fs[path[0]] = setPath(fs[path[0]], path[1:], v)
	return StructN{s.typ, fs}
}

func nodeSlice(n Node) (SliceV, bool) {
	l, ok := expand(n).(LeafN)
	if !ok {
		return SliceV{}, false
	}
	s, ok := l.V.(SliceV)
	return s, ok
}

type supplyRun struct {
	g      *ssa.Global
	path   []int
	stride int64
	len0   *Lin
	min    int64
}

// state is the start state: a cache of any length whose entries hold the supply before
// the heights they stand for.
func (r *supplyRun) state() *State {
	st := newState()
	if r.g == nil {
		return st
	}
	n := freshInt("len(cache)", cLin(r.min), bLin(maxLen))
	// an entry for each multiple of the interval that is a height
	st.f.addGE(r.max().sub(n))
	cp := freshInt("cap(cache)", cLin(r.min), bLin(maxLen))
	st.f.addGE(cp.sub(n))
	o := freshArr(types.Typ[types.Uint64], cp, "supply cache")
	k := kappa(18)
	a := ArrN{elem: types.Typ[types.Uint64], base: baseLazy, sym: mkSym("cache")}
	a.ups = append(a.ups, upd{lo: cLin(0), hi: n, v: k, node: LeafN{IntV{mkSupply(k.lin().mulc64(r.stride))}}})
	st.set(o, a)
	go_ := globalObj(r.g)
	init := globInit[go_]
	if init == nil {
		init = lazyNode(go_.typ, mkSym(go_.key))
	}
	st.set(go_, setPath(init, r.path, LeafN{SliceV{obj: o, off: cLin(0), len: n, cap: cp}}))
	r.len0 = n
	return st
}

func (r *supplyRun) max() *Lin { return cLin((1<<32-1)/r.stride + 1) }

// keeps checks the invariant of the cache after a call.
func (r *supplyRun) keeps(c *Ctx, o Outcome, where string) {
	if r.g == nil {
		return
	}
	n := getPath(o.st.content(globalObj(r.g)), r.path)
	sl, ok := nodeSlice(n)
	if !c.mustSt(ok && sl.off.isZero() && len(sl.path) == 0, o.st, "cache entries", where, "the cache is %s", n.Key()) {
		return
	}
	st := o.st.clone()
	st.f = o.st.f.clone()
	c.mustSt(st.f.entails(sl.len.addc(-r.min)), o.st, "cache entries", where, "the cache shrinks below %d entries to %s", r.min, sl.len.Key())
	c.mustSt(st.f.entails(r.max().sub(sl.len)), o.st, "cache entries", where, "the cache grows beyond the heights to %s", sl.len.Key())
	if sl.obj == nil {
		return
	}
	an, ok := expand(st.content(sl.obj)).(ArrN)
	if !c.mustSt(ok, o.st, "cache entries", where, "the cache is %s", n.Key()) {
		return
	}
	j := mkAtom("j!entry", nil, big0, bi(1<<40)).lin()
	st.f.addGE(sl.len.sub(j).addc(-1))
	entryAt(st.f, an, j, len(an.ups)-1, func(f *Facts, got Node) {
		if infeasible(f) {
			return
		}
		l, ok := expand(got).(LeafN)
		good := false
		if ok {
			if iv, ok := l.V.(IntV); ok {
				if e := asSupply(iv.L); e != nil {
					good = f.entailsEq(e, j.mulc64(r.stride))
				}
			}
		}
		c.mustSt(good, o.st, "cache entries", where, "entry j of the cache becomes %s, expected the supply before height %d*j", got.Key(), r.stride)
	})
}

// entryAt visits the possible contents of element idx, newest update first.
func entryAt(f *Facts, a ArrN, idx *Lin, i int, k func(*Facts, Node)) {
	if i < 0 {
		b := a
		b.ups = nil
		k(f, arrRead(f, b, idx))
		return
	}
	u := a.ups[i]
	lo, hi := u.lo, u.hi
	if u.idx != nil {
		lo, hi = u.idx, u.idx.addc(1)
	}
	in := f.clone()
	in.addGE(idx.sub(lo))
	in.addGE(hi.sub(idx).addc(-1))
	if !infeasible(in) {
		if u.idx != nil {
			k(in, u.node)
		} else {
			k(in, substNode(u.node, Sub{u.v: idx}))
		}
	}
	below := f.clone()
	below.addGE(lo.sub(idx).addc(-1))
	if !infeasible(below) && !f.entails(idx.sub(lo)) {
		entryAt(below, a, idx, i-1, k)
	}
	above := f.clone()
	above.addGE(idx.sub(hi))
	if !infeasible(above) && !f.entails(hi.sub(idx).addc(-1)) {
		entryAt(above, a, idx, i-1, k)
	}
}

// supplySetup finds the cache and its start state.
func supplySetup(c *Ctx) *supplyRun {
	r := &supplyRun{stride: 5000}
	sp := P.pkg("policy")
	if !c.must(sp != nil, "anchored", "policy", "package policy") {
		return nil
	}
	if k, ok := sp.Members["SupplyCacheInterval"].(*ssa.NamedConst); ok {
		r.stride = k.Value.Int64()
	}
	la := newLockAna(newCtx("S02"))
	la.runAll(newCtx("S02"))
	for _, g := range sortedGlobals(la.mutable()) {
		if g.Pkg != sp {
			continue
		}
		ps := cachePaths(g.Type().Underlying().(*types.Pointer).Elem(), nil)
		if !c.must(len(ps) == 1 && r.g == nil, "only state", P.pos(g.Pos()), "%s is modified after start-up and is not the one list of cached supplies", g.Name()) {
			return nil
		}
		r.g, r.path = g, ps[0]
	}
	if r.g == nil {
		return r
	}
	runInit(sp)
	o := globalObj(r.g)
	n, ok := globInit[o]
	if !c.must(ok, "initial cache", P.pos(r.g.Pos()), "the initial content of the cache is known") {
		return nil
	}
	sl, ok := nodeSlice(getPath(n, r.path))
	if !c.must(ok, "initial cache", P.pos(r.g.Pos()), "the cache starts as %s", n.Key()) {
		return nil
	}
	if isNilVal(sl).val || sl.len.isZero() {
		return r
	}
	m, ok := sl.len.constVal()
	st := newState()
	good := ok && m == 1
	if good {
		e := expand(st.load(PtrV{obj: sl.obj, path: sliceElem(sl, cLin(0)).path}, 0))
		l, _ := e.(LeafN)
		iv, ok := l.V.(IntV)
		good = ok && iv.L.eqSyn(cLin(initialSupply))
	}
	c.must(good, "initial cache", P.pos(r.g.Pos()), "the cache starts with the initial supply for height 0")
	r.min = m
	return r
}

// supplyOf: the result is the supply before the given height.
func (c *Ctx) supplyOf(o Outcome, v Val, h *Lin, rule, where, what string) {
	iv, ok := v.(IntV)
	good := false
	if ok {
		if e := asSupply(iv.L); e != nil {
			good = o.st.f.entailsEq(e, h)
		}
	}
	c.mustSt(good, o.st, rule, where, "%s is %s, expected the supply before height %s", what, v.Key(), h.Key())
}

func checkS02(c *Ctx) {
	c.explained = "SupplyAfter, SupplyBetween and BlockReward are analysed for every height over a cache of any length whose entry j holds S(j*interval), where S(h) is the supply just before height h (S(0) the initial supply, S(h+1) = S(h) + reward(S(h), h), the reward formula being S03's). Loops are solved as iterations of S. On every path the results must be S(height+1), S(end) and S(height+1)-S(height), independent of the cache's length, the cache must hold S(j*interval) at every j again, no path may panic, and the cache starts with S(0)."
	if policyFn("BlockRewardBySupply") == nil {
		return
	}
	r := supplySetup(c)
	if r == nil {
		return
	}
	h := mkSym("height")
	// SupplyAfter
	fn := policyFn("SupplyAfter")
	ip := newInterp()
	r.rewardHook(ip)
	hv := symVal(fn.Params[0].Type(), h)
	outs := c.run(ip, "policy.SupplyAfter", func() []Outcome { return ip.exec(r.state(), fn, []Val{hv}, nil, 0) })
	c.noPanics("policy.SupplyAfter", outs)
	c.must(len(outs) > 0, "supply", fnPos(fn), "SupplyAfter has outcomes")
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		c.supplyOf(o, o.ret[0], hv.(IntV).L.addc(1), "supply", fnPos(fn), "the supply after a height")
		r.keeps(c, o, fnPos(fn))
	}
	// SupplyBetween
	fb := policyFn("SupplyBetween")
	ip = newInterp()
	r.rewardHook(ip)
	a := symVal(fb.Params[1].Type(), mkSym("start"))
	b := symVal(fb.Params[2].Type(), mkSym("end"))
	al, bl := a.(IntV).L, b.(IntV).L
	outs = c.run(ip, "policy.SupplyBetween", func() []Outcome {
		return ip.exec(r.state(), fb, []Val{IntV{mkSupply(al)}, a, b}, nil, 0)
	})
	c.noPanics("policy.SupplyBetween", outs)
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		// loops ran either not at all or up to a last iteration
		sts := []*State{o.st}
		for _, k := range loopAtoms(o.st) {
			var next []*State
			for _, st := range sts {
				for _, f := range st.f.assume(bEq0(k.lin()), true) {
					s2 := st.clone()
					s2.f = f
					next = append(next, s2)
				}
				for _, f := range st.f.assume(bEq0(k.lin()), false) {
					s2 := st.clone()
					s2.f = f
					next = append(next, instAll(s2, k.lin().addc(-1))...)
				}
			}
			sts = next
		}
		for _, s1 := range sts {
			for _, up := range []bool{true, false} {
				for _, f := range s1.f.assume(bGe0(bl.sub(al)), up) {
					if infeasible(f) {
						continue
					}
					st := s1.clone()
					st.f = f
					want := al
					if up {
						want = bl
					}
					c.supplyOf(Outcome{st: st}, o.ret[0], want, "supply between", fnPos(fb), "the supply between two heights")
				}
			}
		}
		r.keeps(c, o, fnPos(fb))
	}
	// BlockReward
	fr := policyFn("BlockReward")
	ip = newInterp()
	r.rewardHook(ip)
	st := r.state()
	hl := hv.(IntV).L
	st.f.addGE(hl.addc(-1))
	outs = c.run(ip, "policy.BlockReward", func() []Outcome { return ip.exec(st, fr, []Val{hv}, nil, 0) })
	c.noPanics("policy.BlockReward", outs)
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		iv, ok := o.ret[0].(IntV)
		c.mustSt(ok && o.st.f.entailsEq(iv.L, mkSupply(hl.addc(1)).sub(mkSupply(hl))), o.st, "reward", fnPos(fr), "the reward at a height is %s, expected the difference of the supplies before and after it", o.ret[0].Key())
		r.keeps(c, o, fnPos(fr))
	}
	c.assume = append(c.assume, "supplies stay between the initial and the total supply (S03: a reward never exceeds the remaining supply)")
}

func checkS03(c *Ctx) {
	c.explained = "BlockRewardBySupply is analysed for every height and every supply up to the total supply. Each path must return the value of the emission formula: 0 at height 0, 4000 at heights from 48692960 on while at least that much remains, and otherwise floor(remaining / 4194304); from this, the reward never exceeds the remaining supply. The initial supply and total supply constants are those of the chain."
	fn := policyFn("BlockRewardBySupply")
	if fn == nil {
		return
	}
	st := newState()
	s := symVal(fn.Params[0].Type(), mkSym("supply")).(IntV)
	h := symVal(fn.Params[1].Type(), mkSym("height")).(IntV)
	st.f.addGE(cLin(totalSupply).sub(s.L))
	ip := newInterp()
	outs := c.run(ip, "policy.BlockRewardBySupply", func() []Outcome { return ip.exec(st, fn, []Val{s, h}, nil, 0) })
	c.noPanics("policy.BlockRewardBySupply", outs)
	c.must(len(outs) > 0, "formula", fnPos(fn), "BlockRewardBySupply has outcomes")
	rem := cLin(totalSupply).sub(s.L)
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		iv, ok := o.ret[0].(IntV)
		if !c.mustSt(ok, o.st, "formula", fnPos(fn), "the reward is %s", o.ret[0].Key()) {
			continue
		}
		type cse struct {
			name string
			bs   []*Bool
			ts   []bool
			want *Lin
		}
		zero := bEq0(h.L)
		tail := bGe0(h.L.addc(-tailStart))
		left := bGe0(rem.addc(-tailReward))
		div := mkDiv(rem, bi(emissionSpeed))
		for _, cs := range []cse{
			{"height 0", []*Bool{zero}, []bool{true}, cLin(0)},
			{"a tail height with enough supply left", []*Bool{zero, tail, left}, []bool{false, true, true}, cLin(tailReward)},
			{"a tail height with little supply left", []*Bool{zero, tail, left}, []bool{false, true, false}, div},
			{"a height before the tail", []*Bool{zero, tail}, []bool{false, false}, div},
		} {
			fs := []*Facts{o.st.f}
			for i, b := range cs.bs {
				var next []*Facts
				for _, f := range fs {
					next = append(next, f.assume(b, cs.ts[i])...)
				}
				fs = next
			}
			for _, f := range fs {
				if infeasible(f) {
					continue
				}
				c.mustSt(f.entailsEq(iv.L, cs.want), o.st, "formula", fnPos(fn), "the reward at %s is %s, expected %s", cs.name, iv.L.Key(), cs.want.Key())
			}
		}
		c.mustSt(o.st.f.entails(rem.sub(iv.L)), o.st, "no more than remains", fnPos(fn), "the reward %s may exceed the remaining supply", iv.L.Key())
	}
	for n, v := range map[string]int64{"TotalSupply": totalSupply, "InitialSupply": initialSupply} {
		if k, ok := P.pkg("policy").Members[n].(*ssa.NamedConst); ok {
			c.must(k.Value.Uint64() == uint64(v), "constants", P.pos(k.Pos()), "%s is %d", n, v)
		}
	}
}
