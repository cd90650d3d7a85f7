package main

// Byte sequences.

import (
	"encoding/hex"
	"fmt"
	"strings"
)

type segKind int

const (
	sConst segKind = iota
	sByte          // one byte with value v
	sInt           // w bytes, big-endian v
	sRaw           // src[off:off+n]
	sZero          // n zero bytes
	sRep           // body repeated for kv in [0,n)
	sOpt           // body if cond
)

type Seg struct {
	kind segKind
	data []byte
	v    *Lin
	w    int
	src  *Sym
	off  *Lin
	n    *Lin
	kv   *Atom
	body []Seg
	cond *Bool
}

type Seq struct{ segs []Seg }

func (g Seg) length() *Lin {
	switch g.kind {
	case sConst:
		return cLin(int64(len(g.data)))
	case sByte:
		return cLin(1)
	case sInt:
		return cLin(int64(g.w))
	case sRaw, sZero:
		return g.n
	case sRep:
		return mkSum(g.kv, Seq{g.body}.length(), g.n)
	case sOpt:
		return b2i(g.cond).mul(Seq{g.body}.length())
	}
	panic("seg")
}

func (s Seq) length() *Lin {
	l := cLin(0)
	for _, g := range s.segs {
		l = l.add(g.length())
	}
	return l
}

func (g Seg) Key() string {
	switch g.kind {
	case sConst:
		return "0x" + hex.EncodeToString(g.data)
	case sByte:
		return "u8(" + g.v.Key() + ")"
	case sInt:
		return fmt.Sprintf("be%d(%s)", g.w*8, g.v.Key())
	case sRaw:
		return g.src.Key() + "[" + g.off.Key() + ":+" + g.n.Key() + "]"
	case sZero:
		return "zero(" + g.n.Key() + ")"
	case sRep:
		return "rep(" + g.n.Key() + "," + g.kv.key + "," + Seq{g.body}.Key() + ")"
	case sOpt:
		return "opt(" + g.cond.Key() + "," + Seq{g.body}.Key() + ")"
	}
	return "?"
}

func (s Seq) Key() string {
	if len(s.segs) == 0 {
		return "ε"
	}
	var sb strings.Builder
	for i, g := range s.segs {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(g.Key())
	}
	return sb.String()
}

func (g Seg) free() []*Atom {
	var fv []*Atom
	if g.v != nil {
		fv = unionFV(fv, g.v.free())
	}
	if g.src != nil {
		fv = unionFV(fv, g.src.fv)
	}
	if g.off != nil {
		fv = unionFV(fv, g.off.free())
	}
	if g.n != nil {
		fv = unionFV(fv, g.n.free())
	}
	if g.kind == sOpt {
		fv = unionFV(fv, g.cond.free())
		fv = unionFV(fv, Seq{g.body}.free())
	}
	if g.kind == sRep {
		for _, a := range (Seq{g.body}).free() {
			if a != g.kv {
				fv = unionFV(fv, []*Atom{a})
			}
		}
	}
	return fv
}

func (s Seq) free() []*Atom {
	var fv []*Atom
	for _, g := range s.segs {
		fv = unionFV(fv, g.free())
	}
	return fv
}

func (s Seq) subst(sub Sub) Seq {
	if !sub.touches(s.free()) {
		return s
	}
	var out Seq
	for _, g := range s.segs {
		h := g
		if g.v != nil {
			h.v = g.v.subst(sub)
		}
		if g.src != nil {
			h.src = g.src.subst(sub)
		}
		if g.off != nil {
			h.off = g.off.subst(sub)
		}
		if g.n != nil {
			h.n = g.n.subst(sub)
		}
		if g.kind == sRep || g.kind == sOpt {
			h.body = Seq{g.body}.subst(sub).segs
		}
		if g.cond != nil {
			h.cond = g.cond.subst(sub)
		}
		out = out.appendSeg(h)
	}
	return out
}

func rawSeq(src *Sym, off, n *Lin) Seq {
	return Seq{}.appendSeg(Seg{kind: sRaw, src: src, off: off, n: n})
}
func zeroSeq(n *Lin) Seq    { return Seq{}.appendSeg(Seg{kind: sZero, n: n}) }
func constSeq(b []byte) Seq { return Seq{}.appendSeg(Seg{kind: sConst, data: b}) }
func byteSeq(v *Lin) Seq    { return Seq{}.appendSeg(Seg{kind: sByte, v: v}) }
func intSeq(v *Lin, w int) Seq {
	return Seq{}.appendSeg(Seg{kind: sInt, v: v, w: w})
}

func (s Seq) constBytes() ([]byte, bool) {
	var out []byte
	for _, g := range s.segs {
		switch g.kind {
		case sConst:
			out = append(out, g.data...)
		case sZero:
			n, ok := g.n.constVal()
			if !ok || n > 1<<20 {
				return nil, false
			}
			out = append(out, make([]byte, n)...)
		default:
			return nil, false
		}
	}
	return out, true
}

// beOf recognises v as a byte range of width w.
func beOf(v *Lin) (src *Sym, off *Lin, w int, ok bool) {
	if len(v.ts) == 1 && v.k.Sign() == 0 && v.ts[0].a.head == "be" && v.ts[0].c.Cmp(big1) == 0 {
		s, o, w := v.ts[0].a.beParts()
		if sv, isS := s.(SymV); isS {
			return sv.S, o, w, true
		}
	}
	return
}

// appendSeg appends one segment in normal form.
func (s Seq) appendSeg(g Seg) Seq {
	switch g.kind {
	case sConst:
		if len(g.data) == 0 {
			return s
		}
	case sRaw:
		if g.n.isZero() {
			return s
		}
	case sZero:
		if g.n.isZero() {
			return s
		}
		if n, ok := g.n.constVal(); ok && n <= 256 {
			g = Seg{kind: sConst, data: make([]byte, n)}
		}
	case sByte:
		if c, ok := g.v.constVal(); ok {
			g = Seg{kind: sConst, data: []byte{byte(c)}}
		} else if src, off, w, ok := beOf(g.v); ok && w == 1 {
			g = Seg{kind: sRaw, src: src, off: off, n: cLin(1)}
		}
	case sInt:
		if g.v.isConst() && g.v.k.Sign() >= 0 {
			b := g.v.k.Bytes()
			d := make([]byte, g.w)
			if len(b) > g.w {
				b = b[len(b)-g.w:]
			}
			copy(d[g.w-len(b):], b)
			g = Seg{kind: sConst, data: d}
		} else if g.w == 1 {
			return s.appendSeg(Seg{kind: sByte, v: g.v})
		} else if src, off, w, ok := beOf(g.v); ok && w <= g.w {
			if w < g.w {
				s = s.appendSeg(Seg{kind: sConst, data: make([]byte, g.w-w)})
			}
			g = Seg{kind: sRaw, src: src, off: off, n: cLin(int64(w))}
		}
	case sOpt:
		if len(g.body) == 0 || g.cond.op == bConst && !g.cond.val {
			return s
		}
		if g.cond.op == bConst {
			return s.concat(Seq{g.body})
		}
	case sRep:
		if g.n.isZero() || len(g.body) == 0 {
			return s
		}
		if !(Sub{g.kv: nil}).touches((Seq{g.body}).free()) && len(g.body) == 1 && g.body[0].kind == sConst && allZero(g.body[0].data) {
			return s.appendSeg(Seg{kind: sZero, n: g.length()})
		}
		// contiguous ranges of one source
		if len(g.body) == 1 && g.body[0].kind == sRaw {
			b := g.body[0]
			if !(Sub{g.kv: nil}).touches(b.src.fv) {
				next := b.off.subst(Sub{g.kv: g.kv.lin().addc(1)})
				if next.sub(b.off).eqSyn(b.n) {
					return s.appendSeg(Seg{kind: sRaw, src: b.src, off: b.off.subst(Sub{g.kv: cLin(0)}), n: g.length()})
				}
			}
			// whole elements of a symbolic array of fixed-size byte arrays stay as they are
		}
		// canonical bound variable
		if n, ok := g.n.constVal(); ok && n <= 16 {
			for i := int64(0); i < n; i++ {
				for _, h := range (Seq{g.body}).subst(Sub{g.kv: cLin(i)}).segs {
					s = s.appendSeg(h)
				}
			}
			return s
		}
		if f := abstract(g.kv, SeqV{Seq{g.body}}); f.v != g.kv {
			g.kv, g.body = f.v, f.body.(SeqV).S.segs
		}
	}
	out := s.segs[:len(s.segs):len(s.segs)]
	if n := len(out); n > 0 {
		l := out[n-1]
		if l.kind == sConst && g.kind == sConst {
			d := append(append([]byte(nil), l.data...), g.data...)
			return Seq{append(out[:n-1:n-1], Seg{kind: sConst, data: d})}
		}
		if l.kind == sRaw && g.kind == sRaw && l.src.Key() == g.src.Key() && l.off.add(l.n).eqSyn(g.off) {
			return Seq{append(out[:n-1:n-1], Seg{kind: sRaw, src: l.src, off: l.off, n: l.n.add(g.n)})}
		}
		if l.kind == sZero && g.kind == sZero {
			return Seq{append(out[:n-1:n-1], Seg{kind: sZero, n: l.n.add(g.n)})}
		}
		// digits of one value: be_w1(x / 256^w2) . be_w2(x mod 256^w2)
		if v, w, ok := joinDigits(l, g); ok {
			return Seq{out[: n-1 : n-1]}.appendSeg(Seg{kind: sInt, v: v, w: w})
		}
	}
	return Seq{append(out, g)}
}

func allZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

func segInt(g Seg) (*Lin, int, bool) {
	switch g.kind {
	case sByte:
		return g.v, 1, true
	case sInt:
		return g.v, g.w, true
	}
	return nil, 0, false
}

// joinDigits recognises adjacent digits of one number.
func joinDigits(a, b Seg) (*Lin, int, bool) {
	av, aw, ok1 := segInt(a)
	bv, bw, ok2 := segInt(b)
	if !ok1 || !ok2 || aw+bw > 8 {
		return nil, 0, false
	}
	v := av.mulc(pow2(uint(8 * bw))).add(bv)
	// worthwhile only if the combination is simpler than its parts
	if len(v.ts) < len(av.ts)+len(bv.ts) && len(v.ts) <= 1 || len(v.ts) < len(bv.ts) {
		return v, aw + bw, true
	}
	return nil, 0, false
}

func (s Seq) concat(o Seq) Seq {
	for _, g := range o.segs {
		s = s.appendSeg(g)
	}
	return s
}

// digit extracts bytes [from,from+n) of the w-byte big-endian number v.
func intDigits(v *Lin, w, from, n int) *Lin {
	sh := uint(8 * (w - from - n))
	q := mkDiv(v, pow2(sh))
	if from == 0 {
		return q
	}
	return q.sub(mkDiv(v, pow2(uint(8*(w-from)))).mulc(pow2(uint(8 * n))))
}

// slice cuts s[lo:hi] under the facts. ok=false if a cut position cannot be located.
func (s Seq) slice(f *Facts, lo, hi *Lin) (Seq, bool) {
	n := hi.sub(lo)
	if n.isZero() || f.entailsEq(lo, hi) {
		return Seq{}, true
	}
	_, rest, ok := s.cut(f, lo)
	if !ok {
		return Seq{}, false
	}
	head, _, ok := rest.cut(f, n)
	if ok && n.isConst() {
		head = head.sized(n)
	}
	return head, ok
}

// sized writes the length of the only segment of unknown length of s, whose
// total is known to be n, as a constant.
func (s Seq) sized(n *Lin) Seq {
	at := -1
	for i, g := range s.segs {
		l := g.length()
		if l.isConst() {
			n = n.sub(l)
			continue
		}
		if at >= 0 || g.kind != sRaw {
			return s
		}
		at = i
	}
	if at < 0 || n.k.Sign() < 0 {
		return s
	}
	segs := append([]Seg(nil), s.segs...)
	segs[at].n = n
	return Seq{segs}
}

// resolve drops or expands conditional segments whose condition is decided.
func (s Seq) resolve(f *Facts) Seq {
	has := false
	for _, g := range s.segs {
		if g.kind == sOpt || g.kind == sRaw && g.src.head == "ite" {
			has = true
		}
	}
	if !has {
		return s
	}
	var out Seq
	for _, g := range s.segs {
		if g.kind == sOpt {
			switch f.decide(g.cond) {
			case 1:
				out = out.concat(Seq{g.body}.resolve(f))
				continue
			case 0:
				continue
			}
		}
		if g.kind == sRaw && g.src.head == "ite" {
			d := f.decide(g.src.args[0].(BoolV).B)
			if q, ok := Val(nil), false; d >= 0 {
				q = g.src.args[2-d]
				if sv, isSeq := q.(SeqV); isSeq {
					var part Seq
					if part, ok = sv.S.resolve(f).slice(f, g.off, g.off.add(g.n)); ok {
						out = out.concat(part)
						continue
					}
				}
			}
		}
		out = out.appendSeg(g)
	}
	return out
}

// cut splits s at position p.
func (s Seq) cut(f *Facts, p *Lin) (a, b Seq, ok bool) {
	rem := p
	s = s.resolve(f)
	for i, g := range s.segs {
		a = Seq{s.segs[:i:i]}
		if rem.isZero() {
			return a, Seq{s.segs[i:]}, true
		}
		gl := g.length()
		d := rem.sub(gl)
		if d.isConst() {
			if d.k.Sign() >= 0 {
				rem = d
				continue
			}
		} else if f.entails(d) {
			rem = d
			continue
		} else if !f.entails(d.neg()) {
			if f.entails(rem) && f.entails(rem.neg()) {
				return a, Seq{s.segs[i:]}, true
			}
			return Seq{}, Seq{}, false
		}
		// rem within g (0 <= rem <= len g)
		if f.entails(rem.neg()) { // rem == 0
			return a, Seq{s.segs[i:]}, true
		}
		x, y, ok := g.split(f, rem)
		if !ok {
			return Seq{}, Seq{}, false
		}
		a = a.concat(x)
		b = y
		for _, h := range s.segs[i+1:] {
			b = b.appendSeg(h)
		}
		return a, b, true
	}
	if rem.isZero() || f.entails(rem.neg()) {
		return s, Seq{}, true
	}
	return Seq{}, Seq{}, false
}

func (g Seg) split(f *Facts, p *Lin) (a, b Seq, ok bool) {
	switch g.kind {
	case sConst:
		if n, isC := p.constVal(); isC && n >= 0 && n <= int64(len(g.data)) {
			return constSeq(g.data[:n]), constSeq(g.data[n:]), true
		}
		if allZero(g.data) {
			return zeroSeq(p), zeroSeq(cLin(int64(len(g.data))).sub(p)), true
		}
	case sZero:
		return zeroSeq(p), zeroSeq(g.n.sub(p)), true
	case sRaw:
		return rawSeq(g.src, g.off, p), rawSeq(g.src, g.off.add(p), g.n.sub(p)), true
	case sInt:
		if n, isC := p.constVal(); isC && n > 0 && n < int64(g.w) {
			return intSeq(intDigits(g.v, g.w, 0, int(n)), int(n)), intSeq(intDigits(g.v, g.w, int(n), g.w-int(n)), g.w-int(n)), true
		}
	case sRep:
		bl := Seq{g.body}.length()
		if c, isC := bl.constVal(); isC && c > 0 {
			// split at a whole number of iterations plus remainder
			q := mkDiv(p, bi(c))
			if f.entailsEq(q.mulc64(c), p) {
				a = Seq{}.appendSeg(Seg{kind: sRep, n: q, kv: g.kv, body: g.body})
				body2 := Seq{g.body}.subst(Sub{g.kv: g.kv.lin().add(q)})
				b = Seq{}.appendSeg(Seg{kind: sRep, n: g.n.sub(q), kv: g.kv, body: body2.segs})
				return a, b, true
			}
			r := p.sub(q.mulc64(c))
			if f.entails(r) && f.entails(cLin(c-1).sub(r)) && f.entails(g.n.sub(q).addc(-1)) {
				a = Seq{}.appendSeg(Seg{kind: sRep, n: q, kv: g.kv, body: g.body})
				mid := Seq{g.body}.subst(Sub{g.kv: q})
				ma, mb, ok := mid.cut(f, r)
				if !ok {
					return Seq{}, Seq{}, false
				}
				body2 := Seq{g.body}.subst(Sub{g.kv: g.kv.lin().add(q).addc(1)})
				b = mb.appendSeg(Seg{kind: sRep, n: g.n.sub(q).addc(-1), kv: g.kv, body: body2.segs})
				return a.concat(ma), b, true
			}
		}
	}
	return Seq{}, Seq{}, false
}

// num reads s (of constant width w<=8) as a big-endian number.
func (s Seq) num(w int) *Lin {
	v := cLin(0)
	got := 0
	for _, g := range s.segs {
		switch g.kind {
		case sConst:
			for _, b := range g.data {
				v = v.mulc64(256).addc(int64(b))
			}
			got += len(g.data)
		case sByte:
			v = v.mulc64(256).add(g.v)
			got++
		case sInt:
			v = v.mulc(pow2(uint(8 * g.w))).add(g.v)
			got += g.w
		case sRaw:
			n, ok := g.n.constVal()
			if !ok {
				return nil
			}
			v = v.mulc(pow2(uint(8 * n))).add(mkBE(SymV{g.src}, g.off, int(n)))
			got += int(n)
		default:
			return nil
		}
	}
	if got != w {
		return nil
	}
	return v
}

// equal reports whether a and b are provably the same bytes.
func seqEqual(f *Facts, a, b Seq) bool {
	if a.Key() == b.Key() {
		return true
	}
	a, b = a.resolve(f), b.resolve(f)
	for step := 0; step < 200; step++ {
		a, b = dropEmpty(f, a), dropEmpty(f, b)
		if len(a.segs) == 0 || len(b.segs) == 0 {
			return len(a.segs) == 0 && len(b.segs) == 0
		}
		x, y := a.segs[0], b.segs[0]
		if x.Key() == y.Key() {
			a, b = Seq{a.segs[1:]}, Seq{b.segs[1:]}
			continue
		}
		if x.kind == sOpt && y.kind == sOpt {
			if x.cond.Key() != y.cond.Key() {
				return false
			}
			for _, g := range f.clone().assume(x.cond, true) {
				if !seqEqual(g, Seq{x.body}, Seq{y.body}) {
					return false
				}
			}
			a, b = Seq{a.segs[1:]}, Seq{b.segs[1:]}
			continue
		}
		if x.kind == sOpt || y.kind == sOpt {
			c := x.cond
			if x.kind != sOpt {
				c = y.cond
			}
			for _, tr := range []bool{true, false} {
				for _, g := range f.clone().assume(c, tr) {
					if g.decide(c) == -1 || !seqEqual(g, a, b) {
						return false
					}
				}
			}
			return true
		}
		xl, yl := x.length(), y.length()
		d := xl.sub(yl)
		var n *Lin
		switch {
		case f.entailsEq(xl, yl):
			n = xl
		case f.entails(d): // x longer
			n = yl
		case f.entails(d.neg()):
			n = xl
		default:
			return false
		}
		// widen to a common numeric width for digits
		ax, ar, ok := a.cut(f, n)
		if !ok {
			return false
		}
		bx, br, ok := b.cut(f, n)
		if !ok {
			return false
		}
		if !segsEqual(f, ax, bx) {
			return false
		}
		a, b = ar, br
	}
	return false
}

func dropEmpty(f *Facts, s Seq) Seq {
	for len(s.segs) > 0 {
		n := s.segs[0].length()
		if n.isConst() && n.k.Sign() > 0 {
			break
		}
		if f.entails(n.neg()) {
			s = Seq{s.segs[1:]}
			continue
		}
		break
	}
	return s
}

func segsEqual(f *Facts, a, b Seq) bool {
	if a.Key() == b.Key() {
		return true
	}
	n, ok := a.length().constVal()
	m, ok2 := b.length().constVal()
	if ok && ok2 && n == m && n <= 8 {
		x, y := a.num(int(n)), b.num(int(n))
		if x != nil && y != nil && f.entailsEq(x, y) {
			return true
		}
	}
	if ok && ok2 && n == m && n > 1 && n <= 16 {
		// byte by byte
		x, xr, ok := a.cut(f, cLin(1))
		y, yr, ok2 := b.cut(f, cLin(1))
		if ok && ok2 && segsEqual(f, x, y) {
			return segsEqual(f, xr, yr)
		}
	}
	if len(a.segs) == 1 && len(b.segs) == 1 {
		x, y := a.segs[0], b.segs[0]
		if x.kind == sRaw && y.kind == sRep {
			x, y = y, x
		}
		switch {
		case x.kind == sRep && y.kind == sRaw:
			// element by element
			m := Seq{x.body}.length()
			if !m.isConst() || m.k.Sign() <= 0 || !f.entailsEq(y.n, x.n.mulc(m.k)) {
				return false
			}
			k := x.kv.lin()
			g := f.clone()
			g.addGE(x.n.sub(k).addc(-1))
			for _, g := range instFacts(g, k) {
				if !infeasible(g) && !seqEqual(g, Seq{x.body}, rawSeq(y.src, y.off.add(k.mulc(m.k)), m)) {
					return false
				}
			}
			return true
		case x.kind == sRaw && y.kind == sRaw:
			return sameSym(f, x.src, y.src) && f.entailsEq(x.off, y.off) && f.entailsEq(x.n, y.n)
		case x.kind == sZero && y.kind == sZero:
			return f.entailsEq(x.n, y.n)
		case x.kind == sRep && y.kind == sRep:
			if !f.entailsEq(x.n, y.n) {
				return false
			}
			bx := Seq{x.body}
			by := Seq{y.body}.subst(Sub{y.kv: x.kv.lin()})
			if bx.Key() == by.Key() {
				return true
			}
			g := f.clone()
			g.addGE(x.n.sub(x.kv.lin()).addc(-1))
			if g.dead || seqEqual(g, bx, by) {
				return true
			}
			for _, h := range instFacts(g, x.kv.lin()) {
				if !infeasible(h) && !seqEqual(h, bx, by) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// sameSym: symbols built by the same function from provably equal arguments.
func sameSym(f *Facts, a, b *Sym) bool {
	if a.Key() == b.Key() {
		return true
	}
	if a.head != b.head || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if a.args[i].Key() == b.args[i].Key() {
			continue
		}
		x, ok1 := a.args[i].(SeqV)
		y, ok2 := b.args[i].(SeqV)
		if !ok1 || !ok2 || !seqEqual(f, x.S, y.S) {
			return false
		}
	}
	return true
}
