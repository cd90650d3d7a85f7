package main

// Models of number formatting and of base 32.

import (
	"go/types"
	"math/big"
)

// decimal is the decimal text of a non-negative number.
func decimal(f *Facts, v *Lin) Seq {
	if v.isConst() && v.k.Sign() >= 0 {
		return constSeq([]byte(v.k.String()))
	}
	switch {
	case f.entails(v) && f.entails(cLin(9).sub(v)):
		return byteSeq(v.addc('0'))
	case f.entails(v.addc(-10)) && f.entails(cLin(99).sub(v)):
		h := mkDiv(v, bi(10))
		return byteSeq(h.addc('0')).concat(byteSeq(v.sub(h.mulc64(10)).addc('0')))
	case f.entails(v):
		s := mkSym("decimal", IntV{v})
		return rawSeq(s, cLin(0), symLen(s))
	}
	return Seq{}
}

// number is the value of a decimal text.
func number(st *State, q Seq) (*Lin, bool) {
	v := cLin(0)
	for i, g := range q.segs {
		if g.kind == sRaw && i == 0 && g.src.head == "decimal" && g.off.isZero() && g.n.eqSyn(symLen(g.src)) {
			v = g.src.args[0].(IntV).L
			continue
		}
		n, ok := g.length().constVal()
		if !ok || n > 64 {
			return nil, false
		}
		for j := int64(0); j < n; j++ {
			d := st.byteAt(Seq{[]Seg{g}}, cLin(j)).addc(-'0')
			if !st.f.entails(d) || !st.f.entails(cLin(9).sub(d)) {
				return nil, false
			}
			v = v.mulc64(10).add(d)
		}
	}
	return v, true
}

// b32Class gives the characters of an encoding a shape: 'D' a digit, 'L' a letter.
var b32Class string

// b32Of are the encodings produced so far.
var b32Of = map[string]b32Enc{}

type b32Enc struct {
	alpha string
	src   Seq
}

var b32Chars = [][2]int64{{'0', '9'}, {'A', 'H'}, {'J', 'N'}, {'P', 'V'}, {'X', 'Y'}}

func b32Encode(alpha string, src Seq) (Seq, bool) {
	n, ok := src.length().constVal()
	if !ok || n%5 != 0 {
		return Seq{}, false
	}
	n = n / 5 * 8
	var q Seq
	if int64(len(b32Class)) != n {
		q = rawSeq(mkSym("base32", StrLit(alpha), SeqV{src}), cLin(0), cLin(n))
	} else {
		for i := int64(0); i < n; i++ {
			lo, hi := int64('0'), int64('9')
			if b32Class[i] == 'L' {
				lo, hi = 'A', 'Z'
			}
			q = q.concat(byteSeq(mkAtom("base32"+string(b32Class[i]), []Val{StrLit(alpha), SeqV{src}, IntV{cLin(i)}}, bi(lo), bi(hi)).lin()))
		}
	}
	b32Of[q.Key()] = b32Enc{alpha, src}
	return q, true
}

// b32Decode is the result of decoding q: the bytes, the condition of success.
func b32Decode(st *State, alpha string, q Seq) (Seq, *Bool, bool) {
	if e, ok := b32Of[q.Key()]; ok && e.alpha == alpha {
		return e.src, bTrue, true
	}
	n, ok := q.length().constVal()
	if !ok || n%8 != 0 {
		return Seq{}, nil, false
	}
	good := bTrue
	for i := int64(0); i < n; i++ {
		b := st.byteAt(q, cLin(i))
		in := bFalse
		for j := 0; j < len(alpha); {
			k := j
			for k+1 < len(alpha) && alpha[k+1] == alpha[k]+1 {
				k++
			}
			in = bOr2(in, bAnd2(bGe0(b.addc(-int64(alpha[j]))), bGe0(cLin(int64(alpha[k])).sub(b))))
			j = k + 1
		}
		for _, c := range []int64{'\n', '\r', '='} {
			if st.f.decide(bEq0(b.addc(-c))) != 0 {
				return Seq{}, nil, false // ignored or padding
			}
		}
		switch st.f.decide(in) {
		case 1:
		case 0:
			return Seq{}, bFalse, true
		default:
			good = bAnd2(good, in)
		}
	}
	return rawSeq(mkSym("unbase32", StrLit(alpha), SeqV{q}), cLin(0), cLin(n/8*5)), good, true
}

func b32Alpha(v Val) (string, bool) {
	var s *Sym
	switch x := v.(type) {
	case PtrV:
		if x.obj == nil || len(x.path) > 0 {
			return "", false
		}
		s = x.obj.sym
	case NodeV:
		if l, ok := foldLazy(x.N).(LazyN); ok {
			s = l.s
		}
	}
	if s == nil || s.head != "base32.Encoding" {
		return "", false
	}
	return string(s.args[0].(StrLit)), true
}

func init() { strModels() }

func strModels() {
	base10 := func(v Val) bool {
		i, ok := v.(IntV)
		if !ok {
			return false
		}
		n, ok := i.L.constVal()
		return ok && n == 10
	}
	for _, nm := range []string{"FormatUint", "FormatInt", "Itoa"} {
		nm := nm
		models["strconv."+nm] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			if nm != "Itoa" && !base10(c.args[1]) {
				return nil, false
			}
			q := decimal(st.f, c.args[0].(IntV).L)
			if len(q.segs) == 0 {
				return nil, false
			}
			return ret1(st, SeqV{q})
		}
		ap := map[string]string{"FormatUint": "AppendUint", "FormatInt": "AppendInt"}[nm]
		if ap == "" {
			continue
		}
		models["strconv."+ap] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			if !base10(c.args[2]) {
				return nil, false
			}
			q := decimal(st.f, c.args[1].(IntV).L)
			if len(q.segs) == 0 {
				return nil, false
			}
			return ip.append(st, c.args[0], SeqV{q}, types.NewSlice(types.Typ[types.Uint8]), c.pos), true
		}
	}
	for _, nm := range []string{"ParseUint", "ParseInt", "Atoi"} {
		nm := nm
		models["strconv."+nm] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			bits := int64(64)
			if nm != "Atoi" {
				if !base10(c.args[1]) {
					return nil, false
				}
				b, ok := c.args[2].(IntV).L.constVal()
				if !ok {
					return nil, false
				}
				if b != 0 {
					bits = b
				}
			}
			if nm != "ParseUint" {
				bits--
			}
			q := ip.seqArg(st, c.args[0], c.pos)
			v, ok := number(st, q)
			if !ok || len(q.segs) == 0 {
				return nil, false
			}
			if !st.f.entails(bLin(new(big.Int).Sub(pow2(uint(bits)), big1)).sub(v)) {
				return nil, false
			}
			return ret1(st, IntV{v}, nilErr)
		}
	}
	replaceAll := func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		old, ok1 := constStr(c.args[1])
		if len(c.args) == 4 {
			if n, ok := c.args[3].(IntV).L.constVal(); !ok || n >= 0 {
				return nil, false
			}
		}
		nw := ip.seqArg(st, c.args[2], c.pos)
		q := ip.seqArg(st, c.args[0], c.pos)
		n, ok2 := q.length().constVal()
		if !ok1 || len(old) != 1 || !ok2 || n > 4096 {
			return nil, false
		}
		var out Seq
		for i := int64(0); i < n; i++ {
			b := st.byteAt(q, cLin(i))
			switch st.f.decide(bEq0(b.addc(-int64(old[0])))) {
			case 1:
				out = out.concat(nw)
			case 0:
				out = out.concat(byteSeq(b))
			default:
				return nil, false
			}
		}
		return ret1(st, SeqV{out})
	}
	for _, p := range []string{"strings.", "bytes."} {
		p := p
		wrap := func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			o, ok := replaceAll(ip, st, c)
			if ok && p == "bytes." {
				o[0].ret[0] = mkByteSlice(st, o[0].ret[0].(SeqV).S, "bytes.ReplaceAll")
			}
			return o, ok
		}
		models[p+"ReplaceAll"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			if p == "bytes." {
				d := *c
				d.args = append([]Val(nil), c.args...)
				d.args[1] = SeqV{ip.seqArg(st, c.args[1], c.pos)}
				return wrap(ip, st, &d)
			}
			return wrap(ip, st, c)
		}
		models[p+"Replace"] = models[p+"ReplaceAll"]
	}

	enc := "(*encoding/base32.Encoding)."
	newEnc := func(st *State, c *Call, alpha string) ([]Outcome, bool) {
		pt := c.res.At(0).Type().(*types.Pointer)
		return ret1(st, PtrV{obj: lazyObj(mkSym("base32.Encoding", StrLit(alpha)), pt.Elem())})
	}
	models["encoding/base32.NewEncoding"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		a, ok := constStr(c.args[0])
		if !ok || len(a) != 32 {
			return nil, false
		}
		return newEnc(st, c, a)
	}
	models["(encoding/base32.Encoding).WithPadding"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		a, ok := b32Alpha(c.args[0])
		if !ok {
			return nil, false
		}
		return newEnc(st, c, a)
	}
	models[enc+"Encode"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		a, ok := b32Alpha(c.args[0])
		dst, ok2 := c.args[1].(SliceV)
		if !ok || !ok2 {
			return nil, false
		}
		q, ok := b32Encode(a, ip.seqArg(st, c.args[2], c.pos))
		if !ok {
			return nil, false
		}
		oks, ps := ip.require(st, bGe0(dst.len.sub(q.length())), c.pos, "index out of range")
		var out []Outcome
		for _, s := range oks {
			s.writeBytes(dst, cLin(0), q, c.pos)
			out = append(out, Outcome{st: s})
		}
		for _, p := range ps {
			out = append(out, Outcome{st: p.st, pan: p.pan})
		}
		return out, true
	}
	models[enc+"EncodeToString"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		a, ok := b32Alpha(c.args[0])
		if !ok {
			return nil, false
		}
		q, ok := b32Encode(a, ip.seqArg(st, c.args[1], c.pos))
		if !ok {
			return nil, false
		}
		return ret1(st, SeqV{q})
	}
	dec := func(ip *Interp, st *State, c *Call, src Val, good func(st *State, q Seq) ([]Outcome, bool), bad func(st *State) []Val) ([]Outcome, bool) {
		a, ok := b32Alpha(c.args[0])
		if !ok {
			return nil, false
		}
		q, cond, ok := b32Decode(st, a, ip.seqArg(st, src, c.pos))
		if !ok {
			return nil, false
		}
		t, f := split(st, cond, c.pos)
		var out []Outcome
		for _, s := range t {
			os, ok := good(s, q)
			if !ok {
				return nil, false
			}
			out = append(out, os...)
		}
		for _, s := range f {
			out = append(out, Outcome{st: s, ret: bad(s)})
		}
		return out, true
	}
	models[enc+"Decode"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		dst, ok := c.args[1].(SliceV)
		if !ok {
			return nil, false
		}
		return dec(ip, st, c, c.args[2], func(st *State, q Seq) ([]Outcome, bool) {
			oks, ps := ip.require(st, bGe0(dst.len.sub(q.length())), c.pos, "index out of range")
			var out []Outcome
			for _, s := range oks {
				s.writeBytes(dst, cLin(0), q, c.pos)
				out = append(out, Outcome{st: s, ret: []Val{IntV{q.length()}, nilErr}})
			}
			for _, p := range ps {
				out = append(out, Outcome{st: p.st, pan: p.pan})
			}
			return out, true
		}, func(st *State) []Val {
			st.writeBytes(dst, cLin(0), rawSeq(freshSym("base32 junk"), cLin(0), dst.len), c.pos)
			return []Val{IntV{freshInt("base32.n", cLin(0), dst.len)}, newErr("base32")}
		})
	}
	models[enc+"DecodeString"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		return dec(ip, st, c, c.args[1], func(st *State, q Seq) ([]Outcome, bool) {
			return ret1(st, mkByteSlice(st, q, "base32"), nilErr)
		}, func(st *State) []Val {
			s := freshSym("base32 junk")
			return []Val{mkByteSlice(st, rawSeq(s, cLin(0), symLen(s)), "base32"), newErr("base32")}
		})
	}
}
