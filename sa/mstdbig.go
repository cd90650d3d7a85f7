package main

// Models of math/big.Int: constants are computed, quotients are uninterpreted functions
// of their operands.

import (
	"go/types"
	"math/big"
)

func bigT() types.Type { return P.typ("math/big", "Int") }

func bigConst(v *big.Int) Val {
	return OpaqueV{mkSym("bigconst", StrLit(v.String())), bigT()}
}

// bigOf gives the value a pointer to a big.Int refers to.
func bigOf(st *State, v Val, c *Call) (Val, bool) {
	p, ok := v.(PtrV)
	if !ok || p.obj == nil || isNilVal(p).val {
		return nil, false
	}
	l, ok := st.load(p, c.pos).(LeafN)
	if !ok {
		return nil, false
	}
	o, ok := l.V.(OpaqueV)
	if !ok {
		return nil, false
	}
	if k := constBig(o); k != nil {
		return bigConst(k), true
	}
	return o, true
}

func constBig(v Val) *big.Int {
	o, ok := v.(OpaqueV)
	if !ok || o.s == nil {
		return nil
	}
	if o.s.head == "zero:math/big.Int" {
		return new(big.Int)
	}
	if o.s.head != "bigconst" {
		return nil
	}
	k, ok := new(big.Int).SetString(string(o.s.args[0].(StrLit)), 10)
	if !ok {
		return nil
	}
	return k
}

func bigDiv(head string, x, y Val) Val { return OpaqueV{mkSym(head, x, y), bigT()} }

// bigSign is the sign of a big integer.
func bigSign(v Val) *Lin {
	if k := constBig(v); k != nil {
		return cLin(int64(k.Sign()))
	}
	return mkAtom("bigsign", []Val{v}, bi(-1), bi(1)).lin()
}

func init() {
	def := func(name string, f func(st *State, c *Call) ([]Outcome, bool)) {
		models["(*math/big.Int)."+name] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) { return f(st, c) }
	}
	// store sets the receiver and returns it
	store := func(st *State, c *Call, v Val) ([]Outcome, bool) {
		p, ok := c.args[0].(PtrV)
		if !ok || p.obj == nil || isNilVal(p).val {
			return nil, false
		}
		st.store(p, LeafN{v}, c.pos)
		return ret1(st, p)
	}
	constInt := func(v Val) (*big.Int, bool) {
		i, ok := v.(IntV)
		if !ok || len(i.L.ts) > 0 {
			return nil, false
		}
		return i.L.k, true
	}
	models["math/big.NewInt"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		k, ok := constInt(c.args[0])
		if !ok {
			return nil, false
		}
		o := freshObj(bigT(), "big.NewInt")
		st.h[o] = LeafN{bigConst(k)}
		return ret1(st, PtrV{obj: o})
	}
	for _, n := range []string{"SetInt64", "SetUint64"} {
		def(n, func(st *State, c *Call) ([]Outcome, bool) {
			k, ok := constInt(c.args[1])
			if !ok {
				return nil, false
			}
			return store(st, c, bigConst(k))
		})
	}
	def("SetBytes", func(st *State, c *Call) ([]Outcome, bool) {
		s, ok := c.args[1].(SliceV)
		if !ok {
			return nil, false
		}
		b, ok := st.bytesOf(s, c.pos).constBytes()
		if !ok {
			return nil, false
		}
		return store(st, c, bigConst(new(big.Int).SetBytes(b)))
	})
	def("SetString", func(st *State, c *Call) ([]Outcome, bool) {
		s, ok := c.args[1].(SeqV)
		base, ok2 := constInt(c.args[2])
		if !ok || !ok2 {
			return nil, false
		}
		b, ok := s.S.constBytes()
		if !ok || !base.IsInt64() || base.Int64() != 0 && (base.Int64() < 2 || base.Int64() > 62) {
			return nil, false
		}
		k, good := new(big.Int).SetString(string(b), int(base.Int64()))
		if !good {
			return nil, false
		}
		p, ok := c.args[0].(PtrV)
		if !ok || p.obj == nil {
			return nil, false
		}
		st.store(p, LeafN{bigConst(k)}, c.pos)
		return ret1(st, p, BoolV{bTrue})
	})
	def("Set", func(st *State, c *Call) ([]Outcome, bool) {
		v, ok := bigOf(st, c.args[1], c)
		if !ok {
			return nil, false
		}
		return store(st, c, v)
	})
	for _, n := range []string{"Lsh", "Rsh"} {
		n := n
		def(n, func(st *State, c *Call) ([]Outcome, bool) {
			v, ok := bigOf(st, c.args[1], c)
			s, ok2 := constInt(c.args[2])
			k := constBig(v)
			if !ok || !ok2 || k == nil || !s.IsInt64() || s.Int64() > 1<<12 {
				return nil, false
			}
			if n == "Lsh" {
				return store(st, c, bigConst(new(big.Int).Lsh(k, uint(s.Int64()))))
			}
			return store(st, c, bigConst(new(big.Int).Rsh(k, uint(s.Int64()))))
		})
	}
	def("SetBit", func(st *State, c *Call) ([]Outcome, bool) {
		v, ok := bigOf(st, c.args[1], c)
		i, ok2 := constInt(c.args[2])
		b, ok3 := constInt(c.args[3])
		k := constBig(v)
		if !ok || !ok2 || !ok3 || k == nil || i.Sign() < 0 || i.BitLen() > 12 || b.Sign() < 0 || b.BitLen() > 1 {
			return nil, false
		}
		return store(st, c, bigConst(new(big.Int).SetBit(k, int(i.Int64()), uint(b.Int64()))))
	})
	for n, op := range map[string]func(z, x, y *big.Int) *big.Int{
		"Add": (*big.Int).Add, "Sub": (*big.Int).Sub, "Mul": (*big.Int).Mul,
	} {
		n, op := n, op
		def(n, func(st *State, c *Call) ([]Outcome, bool) {
			x, ok := bigOf(st, c.args[1], c)
			y, ok2 := bigOf(st, c.args[2], c)
			if !ok || !ok2 {
				return nil, false
			}
			a, b := constBig(x), constBig(y)
			if a != nil && b != nil {
				return store(st, c, bigConst(op(new(big.Int), a, b)))
			}
			return store(st, c, bigDiv("big"+n, x, y))
		})
	}
	def("Exp", func(st *State, c *Call) ([]Outcome, bool) {
		x, ok := bigOf(st, c.args[1], c)
		y, ok2 := bigOf(st, c.args[2], c)
		if !ok || !ok2 || !isNilVal(c.args[3]).val {
			return nil, false
		}
		a, b := constBig(x), constBig(y)
		if a == nil || b == nil || b.Sign() < 0 || b.BitLen() > 12 || a.BitLen() > 8 {
			return nil, false
		}
		return store(st, c, bigConst(new(big.Int).Exp(a, b, nil)))
	})
	for _, n := range []string{"Div", "Quo"} {
		n := n
		def(n, func(st *State, c *Call) ([]Outcome, bool) {
			x, ok := bigOf(st, c.args[1], c)
			y, ok2 := bigOf(st, c.args[2], c)
			if !ok || !ok2 || !st.f.entails(bigSign(y).addc(-1)) {
				return nil, false
			}
			if a := constBig(x); a == nil || a.Sign() < 0 {
				return store(st, c, bigDiv("big"+n, x, y))
			}
			// both are rounding down for these operands
			return store(st, c, bigDiv("bigquotient", x, y))
		})
	}
	def("Sign", func(st *State, c *Call) ([]Outcome, bool) {
		x, ok := bigOf(st, c.args[0], c)
		if !ok {
			return nil, false
		}
		return ret1(st, IntV{bigSign(x)})
	})
	def("Cmp", func(st *State, c *Call) ([]Outcome, bool) {
		x, ok := bigOf(st, c.args[0], c)
		y, ok2 := bigOf(st, c.args[1], c)
		if !ok || !ok2 {
			return nil, false
		}
		a, b := constBig(x), constBig(y)
		switch {
		case a != nil && b != nil:
			return ret1(st, IntV{cLin(int64(a.Cmp(b)))})
		case b != nil && b.Sign() == 0:
			return ret1(st, IntV{bigSign(x)})
		case a != nil && a.Sign() == 0:
			return ret1(st, IntV{bigSign(y).neg()})
		}
		return ret1(st, IntV{mkAtom("bigcmp", []Val{x, y}, bi(-1), bi(1)).lin()})
	})
}
