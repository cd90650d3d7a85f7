package main

// Sorting. The keys met while iterating over a map come in an arbitrary order,
// of which the sorted order is one: sorting them leaves them as they are.

func init() {
	m := func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		v := c.args[0]
		if i, ok := v.(IfaceV); ok && i.v != nil {
			v = i.v
		}
		s, ok := v.(SliceV)
		if !ok {
			return nil, false
		}
		if s.obj == nil || holds(st.f, bGe0(cLin(1).sub(s.len))) || anyOrder(st, s) {
			return ret1(st)
		}
		return nil, false
	}
	for _, n := range []string{"sort.Strings", "sort.Sort", "sort.Stable"} {
		models[n] = m
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		models[n] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			v := c.args[0]
			if i, ok := v.(IfaceV); ok && i.v != nil {
				v = i.v
			}
			if s, ok := v.(SliceV); ok && (s.obj == nil || anyOrder(st, s)) {
				return ret1(st)
			}
			return nil, false
		}
	}
}

// anyOrder reports whether s holds the keys of a map in the order of an iteration.
func anyOrder(st *State, s SliceV) bool {
	if len(s.path) != 0 || !s.off.isZero() {
		return false
	}
	a, ok := expand(st.content(s.obj)).(ArrN)
	if !ok {
		return false
	}
	if n, ok := s.len.constVal(); ok {
		return knownKeys(st, a, n)
	}
	for i := len(a.ups) - 1; i >= 0; i-- {
		u := a.ups[i]
		if u.idx != nil {
			return false
		}
		q, ok := nodeVal(u.node, a.elem).(SeqV)
		if !ok || len(q.S.segs) != 1 || q.S.segs[0].kind != sRaw {
			return false
		}
		k := q.S.segs[0].src
		if k.head != "mapkey" || len(k.args) != 2 || !holdsConst(q.S, k) {
			return false
		}
		m, ok := k.args[0].(NodeV)
		at, ok2 := k.args[1].(IntV)
		if !ok || !ok2 || !at.L.eqSyn(u.v.lin()) {
			return false
		}
		mn, ok := m.N.(MapN)
		return ok && u.lo.isZero() && st.f.entailsEq(u.hi, s.len) && st.f.entailsEq(mapNodeLen(mn), s.len)
	}
	return false
}

// knownKeys reports whether a holds the keys of a map with known entries, whose order is one of those possible.
func knownKeys(st *State, a ArrN, n int64) bool {
	at := map[int64]string{}
	for _, u := range a.ups {
		i, ok := int64(0), u.idx != nil
		if ok {
			i, ok = u.idx.constVal()
		}
		if !ok {
			return false
		}
		at[i] = nodeVal(u.node, a.elem).Key()
	}
	keys := map[string]bool{}
	for i := int64(0); i < n; i++ {
		k, ok := at[i]
		if !ok {
			return false
		}
		keys[k] = true
	}
	if int64(len(keys)) != n {
		return false
	}
	for o := range st.h {
		m, ok := expand(st.content(o)).(MapN)
		if !ok {
			continue
		}
		ent, ok := knownEntries(st, m)
		if !ok || int64(len(ent)) != n {
			continue
		}
		for _, e := range ent {
			ok = ok && keys[e.key.Key()]
		}
		if ok {
			return true
		}
	}
	return false
}
