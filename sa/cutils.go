package main

// U01: the compact form of a target.

import (
	"math/big"

	"go/types"
	"golang.org/x/tools/go/ssa"
)

func init() { checks["U01"] = checkU01 }

// magContract makes the bytes of a big integer an uninterpreted function of its content.
// The length is n, or symbolic if n < 0.
func magContract(n int64) func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	return func(ip *Interp, st *State, c *Call) ([]Outcome, bool) { return magnitude(n, st, c) }
}

func magnitude(n int64, st *State, c *Call) ([]Outcome, bool) {
	p, ok := c.args, c.fn.String() == "(*math/big.Int).Bytes"
	if !ok {
		return nil, false
	}
	r, ok := p[0].(PtrV)
	if !ok || r.obj == nil {
		return nil, false
	}
	s := mkSym("magnitude", NodeV{foldLazy(st.load(r, c.pos))})
	l := symLen(s)
	if n >= 0 {
		l = cLin(n)
	}
	return []Outcome{{st: st, ret: []Val{mkByteSlice(st, rawSeq(s, cLin(0), l), "big.Int.Bytes")}}}, true
}

func checkU01(c *Ctx) {
	c.explained = "TargetToCompact is analysed for a symbolic target whose big-endian bytes are an uninterpreted string without leading zero: of length 0, 1, 2, and 3 to 254 (so that the length with a prepended zero fits a byte). On every path the result must be the length in the top byte and the three leading bytes below it, with a zero byte prepended and counted exactly if the leading byte is 128 or more. DifficultyToTarget must give the quotient of 2^240 and the difficulty (rounded down) for every positive difficulty, and DifficultyToCompact the compact form of that quotient; the difficulty and all package variables stay unchanged."
	if !c.must(bigT() != nil, "anchored", "math/big.Int", "big integers") {
		return
	}
	t := mkSym("target")
	target := symVal(bigT(), t)
	c.compact(repoFn("wire", "TargetToCompact"), t, target, nil)

	d := mkSym("difficulty")
	dv := symVal(bigT(), d)
	positive := []*Bool{bGe0(bigSign(dv).addc(-1))}
	quotient := bigDiv("bigquotient", bigConst(new(big.Int).Lsh(big1, 240)), dv)
	c.compact(repoFn("wire", "DifficultyToCompact"), d, quotient, positive)

	fn := repoFn("wire", "DifficultyToTarget")
	c.call(assuming(newState(), positive...), fn, []Val{bigArg(fn, d)}, nil, func(o Outcome) {
		var got Val = o.ret[0]
		if p, ok := got.(PtrV); ok && p.obj != nil {
			got = NodeV{o.st.load(p, 0)}
		}
		if n, ok := got.(NodeV); ok {
			if l, ok := n.N.(LeafN); ok {
				got = l.V
			}
		}
		c.mustSt(got.Key() == quotient.Key(), o.st, "target", fnPos(fn), "the target of a difficulty is %s, expected the quotient of 2^240 and the difficulty", got.Key())
		c.unmodified(o, "unmodified", fnPos(fn), "DifficultyToTarget")
	})
}

// bigArg is a symbolic big integer as the first argument of fn, by value or by pointer.
func bigArg(fn *ssa.Function, s *Sym) Val {
	if _, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer); ok {
		return PtrV{obj: lazyObj(s, bigT())}
	}
	return symVal(bigT(), s)
}

// compact checks that fn gives the compact form of the target when called with arg.
func (c *Ctx) compact(fn *ssa.Function, arg *Sym, target Val, given []*Bool) {
	name := fn.Name()
	s := mkSym("magnitude", NodeV{LeafN{target}})
	q := rawSeq(s, cLin(0), symLen(s))
	for n := int64(0); n <= 3; n++ {
		pre := append([]*Bool{}, given...)
		L := cLin(n)
		hook := magContract(n)
		if n == 3 {
			L, hook = symLen(s), magContract(-1)
			pre = append(pre, bGe0(L.addc(-3)), bGe0(cLin(254).sub(L)))
		}
		st := assuming(newState(), pre...)
		at := func(f *Facts, i int64) *Lin {
			if i >= n {
				return cLin(0)
			}
			return byteAtSeq(f, q, i)
		}
		if n > 0 {
			st = assuming(st, bGe0(at(st.f, 0).addc(-1)))
		}
		c.call(st, fn, []Val{bigArg(fn, arg)}, hook, func(o Outcome) {
			r, ok := o.ret[0].(IntV)
			if !c.mustSt(ok, o.st, "compact", fnPos(fn), "the result is %s", o.ret[0].Key()) {
				return
			}
			big, small := split(o.st.clone(), bGe0(at(o.st.f, 0).addc(-128)), 0)
			for _, x := range big {
				want := L.addc(1).mulc(bi(1 << 24)).add(at(x.f, 0).mulc(bi(1 << 8))).add(at(x.f, 1))
				c.mustSt(x.f.entailsEq(r.L, want), x, "compact", fnPos(fn), "%s of a %d-byte target with a leading byte of 128 or more: %s", name, n, r.L.Key())
			}
			for _, x := range small {
				want := L.mulc(bi(1 << 24)).add(at(x.f, 0).mulc(bi(1 << 16))).add(at(x.f, 1).mulc(bi(1 << 8))).add(at(x.f, 2))
				c.mustSt(x.f.entailsEq(r.L, want), x, "compact", fnPos(fn), "%s of a %d-byte target: %s", name, n, r.L.Key())
			}
			c.unmodified(o, "unmodified", fnPos(fn), name)
		})
	}
}

func byteAtSeq(f *Facts, q Seq, i int64) *Lin { return mkBE(SymV{q.segs[0].src}, cLin(i), 1) }
