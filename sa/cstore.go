package main

// T03: the overlay store.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["T03"] = checkT03 }

func treeT(name string) types.Type { return P.typ("tree", name) }

// nibblesOf is the content of a nibble list value.
func nibblesOf(st *State, v Val) (Seq, bool) {
	switch x := v.(type) {
	case SliceV:
		if x.obj == nil {
			return constSeq(nil), true
		}
		return st.bytesOf(x, 0), true
	case SeqV:
		return x.S, true
	}
	return Seq{}, false
}

// storeHooks makes the operations of a store uninterpreted events: get(path, node), put(path, node), del(path).
func storeHooks(ip *Interp) {
	ip.hooks["invoke:GetNode"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		q, ok := nibblesOf(st, c.args[1])
		if !ok {
			return nil, false
		}
		n := 0
		for _, e := range st.ev {
			if e.loop != nil || e.kind == "put" || e.kind == "del" {
				n++
			}
		}
		r := symVal(treeT("Node"), mkSym("node", c.args[0], SeqV{q}, IntV{cLin(int64(n))}))
		st.emit(Event{kind: "get", args: []Val{c.args[0], SeqV{q}, r}, pos: c.pos})
		return ret1(st, r)
	}
	ip.hooks["invoke:PutNode"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		q, ok := nibblesOf(st, c.args[1])
		if !ok {
			return nil, false
		}
		st.emit(Event{kind: "put", args: []Val{c.args[0], SeqV{q}, c.args[2]}, pos: c.pos})
		return []Outcome{{st: st}}, true
	}
	ip.hooks["invoke:DelNode"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		q, ok := nibblesOf(st, c.args[1])
		if !ok {
			return nil, false
		}
		st.emit(Event{kind: "del", args: []Val{c.args[0], SeqV{q}}, pos: c.pos})
		return []Outcome{{st: st}}, true
	}
}

func storeOps(evs []Event) (out []Event) {
	for _, e := range evs {
		if e.loop != nil {
			for _, a := range e.loop.alts {
				if len(storeOps(a.ev)) > 0 {
					out = append(out, e)
					break
				}
			}
			continue
		}
		switch e.kind {
		case "get", "put", "del":
			out = append(out, e)
		default:
			if len(e.kind) > 4 && e.kind[:4] == "ext:" {
				out = append(out, e)
			}
		}
	}
	return
}

// mapField finds the one map field of a struct type.
func mapField(T types.Type) (string, bool) {
	name, n := "", 0
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			name, n = s.Field(i).Name(), n+1
		}
	}
	return name, n == 1
}

// changedTo: the map in the field holds what it held before but for the given entry (val nil: removed; entry nil: unchanged).
func (c *Ctx) mapNow(st *State, o *Obj, field string) (MapN, *Sym, bool) {
	path := fieldPath(o.typ, field)
	was, ok := nodeVal(getPath(newState().content(o), path), fieldType(o.typ, field)).(MapV)
	if !ok {
		return MapN{}, nil, false
	}
	is, ok := nodeVal(getPath(st.content(o), path), fieldType(o.typ, field)).(MapV)
	if !ok {
		return MapN{}, nil, false
	}
	s := was.obj.sym
	if is.obj == nil {
		return MapN{}, s, true
	}
	n, ok := expand(st.content(is.obj)).(MapN)
	if ok && n.sym == s && is.obj != was.obj {
		ok = false
	}
	return n, s, ok
}

func fieldType(T types.Type, name string) types.Type {
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// keeps: the map still is the one it was, or it was nil and a new one took its place.
func keeps(st *State, n MapN, s *Sym, was MapV) bool {
	return n.sym == s || n.sym == nil && holds(st.f, isNilVal(was))
}

func checkT03(c *Ctx) {
	c.explained = "The methods of OverlayStore are analysed for a symbolic overlay, path and node, with the lower store's operations as uninterpreted events. Reading: what the overlay holds wins; otherwise the lower store's node for the same path is returned, a branch as a fresh equal copy which is recorded in the overlay. Put and delete only change the one entry of the overlay. Flush is decided on its summarised loops over the entries: exactly one put of the node for each entry with a node, exactly one deletion for each entry without, and no entry remains. No path but Flush's writes to the lower store, and no path writes memory of the lower store's nodes. In addition the operations of the state tree are analysed on an overlay over MemStore for the shapes of T01 with up to two places where other entries leave the path: nothing the lower store holds may change before the flush, and after it the lower store must hold exactly the expected tree."
	T := treeT("OverlayStore")
	if !c.must(T != nil, "anchored", "tree", "type OverlayStore") {
		return
	}
	field, ok := mapField(T)
	if !c.must(ok, "anchored", "tree", "OverlayStore holds its changes in one map") {
		return
	}
	get, put, del, flush := c.method(T, "GetNode"), c.method(T, "PutNode"), c.method(T, "DelNode"), c.method(T, "Flush")
	if get == nil || put == nil || del == nil || flush == nil {
		return
	}
	c.t03New(T, field)
	// reading
	run := func(fn *ssa.Function, st *State, args []Val, f func(o Outcome, obj *Obj, was MapV)) {
		obj := lazyObj(mkSym("ov"), T)
		was, _ := nodeVal(getPath(newState().content(obj), fieldPath(T, field)), fieldType(T, field)).(MapV)
		lower := nodeVal(getPath(newState().content(obj), fieldPath(T, "Lower")), fieldType(T, "Lower"))
		st = assuming(st, bNeg(isNilVal(lower)))
		ip := newInterp()
		storeHooks(ip)
		outs := c.run(ip, "OverlayStore."+fn.Name(), func() []Outcome { return ip.exec(st, fn, append([]Val{PtrV{obj: obj}}, args...), nil, 0) })
		c.noPanics("OverlayStore."+fn.Name(), outs)
		n := 0
		for _, o := range outs {
			if o.pan == nil && !infeasible(o.st.f) {
				n++
				f(o, obj, was)
			}
		}
		c.must(n > 0, "vacuous", fnPos(fn), "%d returning paths", n)
	}
	isLower := func(v Val) bool {
		obj := lazyObj(mkSym("ov"), T)
		w := nodeVal(getPath(newState().content(obj), fieldPath(T, "Lower")), fieldType(T, "Lower"))
		return v.Key() == w.Key() || sameIface(v, w)
	}
	nbs := symSlice("nbs")
	q := newState().bytesOf(nbs, 0)
	where := fnPos(get)
	seen := map[string]int{}
	run(get, newState(), []Val{nbs}, func(o Outcome, obj *Obj, was MapV) {
		has := bPred("has", SymV{was.obj.sym}, SeqV{q})
		yes, no := split(o.st.clone(), has, 0)
		ops := storeOps(o.st.ev)
		for _, e := range ops {
			c.mustSt(e.loop == nil && e.kind == "get", o.st, "reads only", P.pos(e.pos), "reading through the overlay performs %s on the lower store", e.kind)
		}
		for _, st := range yes {
			if holds(st.f, isNilVal(was)) {
				continue
			}
			seen["own"]++
			w := symVal(treeT("Node"), mkSym("mval", SymV{was.obj.sym}, SeqV{q}))
			c.mustSt(sameIface(o.ret[0], w), st, "own changes first", where, "the overlay holds the path but %s is returned", clip(o.ret[0].Key(), 200))
			n, _, ok := c.mapNow(o.st, obj, field)
			c.mustSt(ok && keeps(st, n, was.obj.sym, was) && len(n.ups) == 0, st, "own changes first", where, "reading an entry of the overlay changes it")
		}
		for _, st := range no {
			if infeasible(st.f) {
				continue
			}
			var low *Event
			for i, e := range ops {
				if e.loop == nil && e.kind == "get" && isLower(e.args[0]) && seqEqual(st.f, e.args[1].(SeqV).S, q) {
					low = &ops[i]
				}
			}
			if !c.mustSt(low != nil, st, "lower store next", where, "a path the overlay does not hold is not looked up in the lower store") {
				continue
			}
			ip := newInterp()
			for _, cs := range ip.ifaceCases(st, low.args[2].(IfaceV), 0) {
				if infeasible(cs.st.f) {
					continue
				}
				n, _, ok := c.mapNow(o.st, obj, field)
				c.mustSt(ok && keeps(cs.st, n, was.obj.sym, was), cs.st, "overlay kept", where, "reading replaces the overlay's entries")
				rec := len(n.ups) == 1 && n.ups[0].val != nil && keyIs(cs.st, n.ups[0].key, q) && sameIface(n.ups[0].val, o.ret[0])
				c.mustSt(len(n.ups) == 0 || rec, cs.st, "overlay kept", where, "reading records %d entries in the overlay, or another than the node returned", len(n.ups))
				switch {
				case cs.v.typ == nil:
					seen["none"]++
					c.mustSt(holds(cs.st.f, isNilVal(o.ret[0])), cs.st, "absent", where, "the lower store has no node but %s is returned", clip(o.ret[0].Key(), 200))
				case types.Identical(cs.v.typ, types.NewPointer(treeT("Branch"))):
					seen["branch"]++
					got, isI := o.ret[0].(IfaceV)
					var p PtrV
					if isI {
						p, _ = got.v.(PtrV)
					}
					if !c.mustSt(isI && p.obj != nil && p.obj.isNew() && types.Identical(got.typ, cs.v.typ), cs.st, "isolated", where, "a branch of the lower store is handed out: %s", clip(o.ret[0].Key(), 200)) {
						continue
					}
					was, is := newState().content(cs.v.v.(PtrV).obj), cs.st.load(p, 0)
					B := treeT("Branch")
					c.mustSt(nodeKeyDeep(is) == nodeKeyDeep(was) || cs.st.f.decide(nodeEq(cs.st, was, is, B)) == 1, cs.st, "equal copy", where, "the branch returned differs from the lower store's: %s", clip(is.Key(), 300))
					c.mustSt(rec, cs.st, "changes are kept", where, "the copy of a branch is not recorded in the overlay, so changes to it are lost")
				default:
					seen["leaf"]++
					c.mustSt(o.st.sameNodeIface(cs.st, o.ret[0], cs.v), cs.st, "leaf", where, "the lower store's leaf is returned as %s", clip(o.ret[0].Key(), 200))
				}
			}
		}
		c.unmodifiedBut(o2(o, obj, was), "lower store untouched", where, "GetNode", obj, field)
	})
	for _, k := range []string{"own", "none", "branch", "leaf"} {
		c.must(seen[k] > 0, "vacuous", where, "case %s is reached %d times", k, seen[k])
	}
	// writing
	node := symVal(treeT("Node"), mkSym("newnode")).(IfaceV)
	for _, fn := range []*ssa.Function{put, del} {
		fn := fn
		st := newState()
		args := []Val{nbs}
		if fn == put {
			args = append(args, node)
			st = assuming(st, bNeg(isNilVal(node)))
		}
		run(fn, st, args, func(o Outcome, obj *Obj, was MapV) {
			where := fnPos(fn)
			for _, e := range storeOps(o.st.ev) {
				c.mustSt(e.loop == nil && e.kind == "get", o.st, "lower store untouched", P.pos(e.pos), "%s performs %s on the lower store", fn.Name(), e.kind)
			}
			n, _, ok := c.mapNow(o.st, obj, field)
			ok = ok && keeps(o.st, n, was.obj.sym, was) && len(n.ups) == 1 && n.ups[0].val != nil && keyIs(o.st, n.ups[0].key, q)
			if c.mustSt(ok, o.st, "recorded", where, "%s leaves the overlay with %s", fn.Name(), clip(n.Key(), 300)) {
				v := n.ups[0].val
				if fn == put {
					c.mustSt(sameIface(v, node), o.st, "recorded", where, "the overlay records %s", clip(v.Key(), 200))
				} else {
					c.mustSt(holds(o.st.f, isNilVal(v)), o.st, "recorded", where, "a deletion is recorded as %s", clip(v.Key(), 200))
				}
			}
			c.unmodifiedBut(o2(o, obj, was), "lower store untouched", where, fn.Name(), obj, field)
		})
	}
	c.t03Flush(flush, T, field, run, isLower)
	c.overlayTrie()
}

// o2 drops the overlay's own map from what is compared.
func o2(o Outcome, obj *Obj, was MapV) Outcome {
	st := o.st.clone()
	st.set(was.obj, newState().content(was.obj))
	return Outcome{st: st, ret: o.ret, pan: o.pan}
}

func keyIs(st *State, k Val, q Seq) bool {
	s, ok := k.(SeqV)
	return ok && seqEqual(st.f, s.S, q)
}

func sameIface(a, b Val) bool {
	x, ok := a.(IfaceV)
	y, ok2 := b.(IfaceV)
	if !ok || !ok2 {
		return a.Key() == b.Key()
	}
	if x.sym != nil || y.sym != nil {
		if x.sym != nil && y.sym != nil && x.sym.Key() == y.sym.Key() {
			return true
		}
		// a case of the other
		as := func(s *Sym, v IfaceV) bool {
			if v.typ == nil {
				return false
			}
			p, ok := v.v.(PtrV)
			return ok && p.obj == symVal(v.typ, mkSym("as:"+v.typ.String(), SymV{s})).(PtrV).obj
		}
		return x.sym != nil && as(x.sym, y) || y.sym != nil && as(y.sym, x)
	}
	if (x.typ == nil) != (y.typ == nil) {
		return false
	}
	if x.typ == nil {
		return true
	}
	p, ok := x.v.(PtrV)
	r, ok2 := y.v.(PtrV)
	return ok && ok2 && types.Identical(x.typ, y.typ) && p.obj == r.obj && len(p.path) == len(r.path)
}

// sameNodeIface: the value is the given node, or a fresh copy with equal content.
func (st *State) sameNodeIface(at *State, got Val, want IfaceV) bool {
	if sameIface(got, want) {
		return true
	}
	g, ok := got.(IfaceV)
	if !ok || g.typ == nil || !types.Identical(g.typ, want.typ) {
		return false
	}
	p, ok := g.v.(PtrV)
	if !ok || p.obj == nil || !p.obj.isNew() {
		return false
	}
	T := want.typ.(*types.Pointer).Elem()
	return at.f.decide(nodeEq(at, at.load(p, 0), newState().content(want.v.(PtrV).obj), T)) == 1
}

func (c *Ctx) t03New(T types.Type, field string) {
	fn := P.fnByName("tree", "", "NewOverlayStore")
	if fn == nil || !P.body(fn) {
		return
	}
	low := symVal(treeT("Store"), mkSym("lowstore"))
	c.call(newState(), fn, []Val{low}, nil, func(o Outcome) {
		p, ok := o.ret[0].(PtrV)
		if !c.mustSt(ok && p.obj != nil && p.obj.isNew(), o.st, "new overlay", fnPos(fn), "the overlay is %s", o.ret[0].Key()) {
			return
		}
		n := o.st.load(p, 0)
		m, ok := nodeVal(getPath(n, fieldPath(T, field)), fieldType(T, field)).(MapV)
		if ok && m.obj != nil {
			mn, ok2 := expand(o.st.content(m.obj)).(MapN)
			ok = ok2 && mn.sym == nil && len(mn.ups) == 0
		}
		c.mustSt(ok, o.st, "new overlay", fnPos(fn), "a new overlay is not empty")
		c.mustSt(sameIface(nodeVal(getPath(n, fieldPath(T, "Lower")), fieldType(T, "Lower")), low), o.st, "new overlay", fnPos(fn), "a new overlay uses another lower store")
	})
}

func (c *Ctx) t03Flush(fn *ssa.Function, T types.Type, field string, run func(*ssa.Function, *State, []Val, func(Outcome, *Obj, MapV)), isLower func(Val) bool) {
	where := fnPos(fn)
	applied := 0
	run(fn, newState(), nil, func(o Outcome, obj *Obj, was MapV) {
		if holds(o.st.f, isNilVal(was)) {
			return // nothing recorded
		}
		full := mapNodeLen(MapN{typ: was.obj.typ, sym: was.obj.sym})
		// what the loops over the entries do, for an entry with a node and one without
		total := map[bool][]string{}
		emptied := false
		for _, e := range o.st.ev {
			if e.loop == nil {
				if e.kind == "put" || e.kind == "del" || len(e.kind) > 4 && e.kind[:4] == "ext:" {
					c.mustSt(false, o.st, "only its entries", P.pos(e.pos), "flushing performs %s apart from the entries", e.kind)
				}
				continue
			}
			touches := len(storeOps([]Event{e})) > 0
			if touches && !c.mustSt(o.st.f.entailsEq(e.loop.n, full), o.st, "every entry", P.pos(e.pos), "flushing stops after %s of %s entries", e.loop.n.Key(), full.Key()) {
				return
			}
			dels := true
			for _, pol := range []bool{true, false} {
				set := map[string]bool{}
				calls := ""
				for _, a := range e.loop.alts {
					f := a.f.clone()
					el := symVal(treeT("Node"), mkSym("mapelem", NodeV{MapN{typ: was.obj.typ, sym: was.obj.sym}}, IntV{e.loop.k.lin()}))
					fs := f.assume(isNilVal(el), pol)
					live := false
					for _, g := range fs {
						for _, h := range g.assume(isNilVal(was), false) {
							live = live || !infeasible(h)
						}
					}
					if !live {
						continue
					}
					key := mkSym("mapkey", NodeV{MapN{typ: was.obj.typ, sym: was.obj.sym}}, IntV{e.loop.k.lin()})
					k := rawSeq(key, cLin(0), symLen(key))
					calls = ""
					own := false
					for _, x := range a.ev {
						switch {
						case x.loop != nil:
							if len(storeOps([]Event{x})) > 0 {
								c.mustSt(false, o.st, "only its entries", P.pos(x.pos), "an entry is flushed in a loop")
							}
						case x.kind == "mapdel":
							if x.args[0].(MapV).obj == was.obj {
								s, ok := x.args[1].(SeqV)
								own = own || ok && seqEqual(a.f, s.S, k)
							}
						case x.kind == "mapset":
							own = false
							dels = false
						case x.kind == "put" || x.kind == "del":
							s, ok := x.args[1].(SeqV)
							ok = ok && isLower(x.args[0]) && seqEqual(a.f, s.S, k)
							c.mustSt(ok, o.st, "its own path", P.pos(x.pos), "the entry for %s is flushed to %s", clip(SeqV{k}.Key(), 80), clip(x.args[1].Key(), 120))
							if x.kind == "put" {
								c.mustSt(sameIface(x.args[2], el), o.st, "its own node", P.pos(x.pos), "the node %s is flushed for the entry %s", clip(x.args[2].Key(), 120), clip(el.Key(), 120))
							}
							calls += x.kind + " "
						case len(x.kind) > 4 && x.kind[:4] == "ext:":
							calls += x.kind + " "
						}
					}
					set[calls] = true
					dels = dels && own
				}
				if len(set) > 0 {
					c.mustSt(len(set) == 1, o.st, "decided by the entry", P.pos(e.pos), "what is done for an entry varies: %v", sortedKeys(set))
					if calls != "" {
						total[pol] = append(total[pol], calls)
					}
				}
			}
			if dels && o.st.f.entailsEq(e.loop.n, full) {
				emptied = true
			}
		}
		if holds(o.st.f, bEq0(full)) && len(total) == 0 {
			emptied = true
		} else {
			applied++
			c.mustSt(len(total[true]) == 1 && total[true][0] == "del ", o.st, "deletions", where, "an entry without a node is flushed as %q, expected one deletion", total[true])
			c.mustSt(len(total[false]) == 1 && total[false][0] == "put ", o.st, "puts", where, "an entry with a node is flushed as %q, expected one put", total[false])
		}
		n, s, ok := c.mapNow(o.st, obj, field)
		if ok && n.sym == nil {
			live := 0
			for _, u := range n.ups {
				if u.val != nil {
					live++
				}
			}
			emptied = emptied || live == 0
		} else if !ok || n.sym != s && !emptied {
			emptied = emptied && ok
		}
		for _, u := range n.ups {
			if u.val != nil {
				emptied = false
			}
		}
		c.mustSt(emptied, o.st, "emptied", where, "entries stay in the overlay after flushing: %s", clip(n.Key(), 200))
		st := o2(o, obj, was)
		c.unmodifiedBut(st, "nodes unchanged", where, "Flush", obj, field)
	})
	c.must(applied > 0, "vacuous", where, "%d paths flush entries", applied)
}
