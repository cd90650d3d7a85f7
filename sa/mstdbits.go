package main

// Models of math/bits: sums and products with carry.

func init() {
	for _, w := range []struct {
		suf  string
		bits uint
	}{{"", 64}, {"32", 32}, {"64", 64}} {
		w := w
		m := bLin(pow2(w.bits))
		three := func(c *Call) (x, y, z *Lin, ok bool) {
			a, ok1 := c.args[0].(IntV)
			b, ok2 := c.args[1].(IntV)
			d, ok3 := c.args[2].(IntV)
			if !ok1 || !ok2 || !ok3 {
				return nil, nil, nil, false
			}
			return a.L, b.L, d.L, true
		}
		// the carry is 0 or 1 by contract
		both := func(st *State, c *Call, v, fits, wrap *Lin) ([]Outcome, bool) {
			t, f := split(st, bGe0(fits), c.pos)
			var out []Outcome
			for _, s := range t {
				out = append(out, Outcome{st: s, ret: []Val{IntV{v}, IntV{cLin(0)}}})
			}
			for _, s := range f {
				out = append(out, Outcome{st: s, ret: []Val{IntV{v.add(wrap)}, IntV{cLin(1)}}})
			}
			return out, true
		}
		isCarry := func(st *State, l *Lin) bool { return st.f.entails(l) && st.f.entails(cLin(1).sub(l)) }
		models["math/bits.Add"+w.suf] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			x, y, z, ok := three(c)
			if !ok || !isCarry(st, z) {
				return nil, false
			}
			v := x.add(y).add(z)
			return both(st, c, v, m.addc(-1).sub(v), m.neg())
		}
		models["math/bits.Sub"+w.suf] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			x, y, z, ok := three(c)
			if !ok || !isCarry(st, z) {
				return nil, false
			}
			v := x.sub(y).sub(z)
			return both(st, c, v, v, m)
		}
		models["math/bits.Mul"+w.suf] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			a, ok1 := c.args[0].(IntV)
			b, ok2 := c.args[1].(IntV)
			if !ok1 || !ok2 {
				return nil, false
			}
			p := a.L.mul(b.L)
			mulLemma(st.f, a.L, b.L)
			h := mkDiv(p, pow2(w.bits))
			if st.f.entails(m.addc(-1).sub(p)) {
				h = cLin(0)
			}
			return ret1(st, IntV{h}, IntV{p.sub(h.mul(m))})
		}
	}
}
