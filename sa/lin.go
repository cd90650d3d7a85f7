package main

// Linear integer forms over bounded symbols ("atoms").
//
// Every integer the analysis handles is a Lin: a constant plus integer multiples of atoms.
// An atom is an interned function application: an input byte range read as a big-endian
// number, a field of a symbolic value, a quotient, a loop counter ...
// Machine arithmetic is represented exactly: x mod 2^n is x - 2^n*div(x,2^n).

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Atom struct {
	id     int
	key    string
	head   string
	args   []Val
	lo, hi *big.Int // intrinsic bounds, nil = none
	defs   []*Lin   // intrinsic facts: each is >= 0
	fv     []*Atom  // loop variables occurring free
}

type term struct {
	a *Atom
	c *big.Int
}

// Lin is an immutable linear form.
type Lin struct {
	ts  []term // sorted by atom id, coefficients non-zero
	k   *big.Int
	str string
	fv  []*Atom
	fvd bool
}

var (
	atomTab  = map[string]*Atom{}
	atomList []*Atom
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	bigM1    = big.NewInt(-1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big1, n) }
func bi(n int64) *big.Int  { return big.NewInt(n) }

// atomHook is called for canonical construction of special heads on substitution.
var atomRebuild = map[string]func(args []Val) *Lin{}

func argsKey(head string, args []Val) string {
	var sb strings.Builder
	sb.WriteString(head)
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(a.Key())
	}
	sb.WriteByte(')')
	if sb.Len() > maxKey {
		return fmt.Sprintf("%s(#%x)", head, sha256.Sum256([]byte(sb.String())))
	}
	return sb.String()
}

// maxKey bounds the length of keys: longer ones are replaced by their hash.
const maxKey = 1 << 14

func mkAtom(head string, args []Val, lo, hi *big.Int) *Atom {
	key := argsKey(head, args)
	if a, ok := atomTab[key]; ok {
		return a
	}
	a := &Atom{id: len(atomList) + 1, key: key, head: head, args: args, lo: lo, hi: hi}
	for _, x := range args {
		a.fv = unionFV(a.fv, freeVars(x))
	}
	if head == "k" || len(args) == 0 && strings.HasPrefix(head, "hv") { // loop variable, loop-carried value
		a.fv = []*Atom{a}
	}
	atomTab[key] = a
	atomList = append(atomList, a)
	return a
}

func unionFV(a, b []*Atom) []*Atom {
	if len(b) == 0 {
		return a
	}
	out := a
next:
	for _, x := range b {
		for _, y := range out {
			if x == y {
				continue next
			}
		}
		out = append(out[:len(out):len(out)], x)
	}
	return out
}

func (a *Atom) lin() *Lin { return &Lin{ts: []term{{a, big1}}, k: big0} }

func cLin(n int64) *Lin      { return &Lin{k: bi(n)} }
func bLin(n *big.Int) *Lin   { return &Lin{k: n} }
func (l *Lin) isConst() bool { return len(l.ts) == 0 }
func (l *Lin) constVal() (int64, bool) {
	if len(l.ts) == 0 && l.k.IsInt64() {
		return l.k.Int64(), true
	}
	return 0, false
}
func (l *Lin) isZero() bool { return len(l.ts) == 0 && l.k.Sign() == 0 }

func (l *Lin) Key() string {
	if l.str == "" {
		var sb strings.Builder
		for i, t := range l.ts {
			if t.c.Sign() > 0 && i > 0 {
				sb.WriteByte('+')
			}
			if t.c.Cmp(big1) != 0 {
				if t.c.Cmp(bigM1) == 0 {
					sb.WriteByte('-')
				} else {
					sb.WriteString(t.c.String())
					sb.WriteByte('*')
				}
			}
			sb.WriteString(t.a.key)
		}
		if l.k.Sign() != 0 || len(l.ts) == 0 {
			if l.k.Sign() >= 0 && len(l.ts) > 0 {
				sb.WriteByte('+')
			}
			sb.WriteString(l.k.String())
		}
		l.str = sb.String()
	}
	return l.str
}
func (l *Lin) String() string { return l.Key() }

func (l *Lin) free() []*Atom {
	if !l.fvd {
		for _, t := range l.ts {
			l.fv = unionFV(l.fv, t.a.fv)
		}
		l.fvd = true
	}
	return l.fv
}

func (l *Lin) coef(a *Atom) *big.Int {
	for _, t := range l.ts {
		if t.a == a {
			return t.c
		}
	}
	return big0
}

// raw sum without merging of byte ranges
func linSum(k *big.Int, ts []term) *Lin {
	m := append([]term(nil), ts...)
	sort.Slice(m, func(i, j int) bool { return m[i].a.id < m[j].a.id })
	out := m[:0:0]
	for i := 0; i < len(m); {
		c := m[i].c
		j := i + 1
		for j < len(m) && m[j].a == m[i].a {
			c = new(big.Int).Add(c, m[j].c)
			j++
		}
		if c.Sign() != 0 {
			out = append(out, term{m[i].a, c})
		}
		i = j
	}
	return &Lin{ts: out, k: k}
}

func (l *Lin) add(o *Lin) *Lin {
	if o.isZero() {
		return l
	}
	if l.isZero() {
		return o
	}
	if len(o.ts) == 0 {
		return &Lin{ts: l.ts, k: new(big.Int).Add(l.k, o.k)}
	}
	if len(l.ts) == 0 {
		return &Lin{ts: o.ts, k: new(big.Int).Add(l.k, o.k)}
	}
	ts := append(append(make([]term, 0, len(l.ts)+len(o.ts)), l.ts...), o.ts...)
	return mergeBE(linSum(new(big.Int).Add(l.k, o.k), ts))
}
func (l *Lin) mulc(c *big.Int) *Lin {
	if c.Sign() == 0 {
		return cLin(0)
	}
	if c.Cmp(big1) == 0 {
		return l
	}
	ts := make([]term, len(l.ts))
	for i, t := range l.ts {
		ts[i] = term{t.a, new(big.Int).Mul(t.c, c)}
	}
	return &Lin{ts: ts, k: new(big.Int).Mul(l.k, c)}
}
func (l *Lin) neg() *Lin           { return l.mulc(bigM1) }
func (l *Lin) sub(o *Lin) *Lin     { return l.add(o.neg()) }
func (l *Lin) addc(n int64) *Lin   { return &Lin{ts: l.ts, k: new(big.Int).Add(l.k, bi(n))} }
func (l *Lin) eqSyn(o *Lin) bool   { return l == o || l.Key() == o.Key() }
func (l *Lin) mulc64(n int64) *Lin { return l.mulc(bi(n)) }

// mul multiplies two forms, introducing product atoms.
func (l *Lin) mul(o *Lin) *Lin {
	if l.isConst() {
		return o.mulc(l.k)
	}
	if o.isConst() {
		return l.mulc(o.k)
	}
	res := bLin(new(big.Int).Mul(l.k, o.k))
	res = res.add(&Lin{ts: l.mulc(o.k).ts, k: big0})
	res = res.add(&Lin{ts: o.mulc(l.k).ts, k: big0})
	for _, t := range l.ts {
		for _, u := range o.ts {
			res = res.add(mkMul(t.a, u.a).mulc(new(big.Int).Mul(t.c, u.c)))
		}
	}
	return res
}

func mkMul(a, b *Atom) *Lin {
	if a.key > b.key {
		a, b = b, a
	}
	var lo, hi *big.Int
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = new(big.Int).Mul(a.lo, b.lo)
		if a.hi != nil && b.hi != nil {
			hi = new(big.Int).Mul(a.hi, b.hi)
		}
	}
	return mkAtom("mul", []Val{IntV{a.lin()}, IntV{b.lin()}}, lo, hi).lin()
}

// bounds computes the interval of l using the bound function (nil = intrinsic).
func (l *Lin) bounds(f func(*Atom) (lo, hi *big.Int)) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, t := range l.ts {
		alo, ahi := t.a.lo, t.a.hi
		if f != nil {
			alo, ahi = f(t.a)
		}
		if t.c.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(t.c, alo))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(t.c, ahi))
			}
		}
	}
	return
}

func inRange(lo, hi *big.Int, min, max *big.Int) bool {
	return lo != nil && hi != nil && lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0
}

// ---- big-endian byte ranges

// mkBE is the number held by w bytes at offset off of the byte sequence src.
func mkBE(src Val, off *Lin, w int) *Lin {
	if w == 0 {
		return cLin(0)
	}
	a := mkAtom("be", []Val{src, IntV{off}, IntV{cLin(int64(w))}}, big0, new(big.Int).Sub(pow2(uint(8*w)), big1))
	return a.lin()
}

func (a *Atom) beParts() (src Val, off *Lin, w int) {
	n, _ := a.args[2].(IntV).L.constVal()
	return a.args[0], a.args[1].(IntV).L, int(n)
}

// mergeBE joins adjacent byte ranges: 256^w2*be(s,o,w1)+be(s,o+w1,w2) = be(s,o,w1+w2).
func mergeBE(l *Lin) *Lin {
	n := 0
	for _, t := range l.ts {
		if t.a.head == "be" {
			n++
		}
	}
	if n < 2 {
		return l
	}
	for {
		merged := false
	outer:
		for i, t := range l.ts {
			if t.a.head != "be" {
				continue
			}
			src, off, w := t.a.beParts()
			for j, u := range l.ts {
				if i == j || u.a.head != "be" {
					continue
				}
				usrc, uoff, uw := u.a.beParts()
				if w+uw > 8 || usrc.Key() != src.Key() || t.c.Cmp(new(big.Int).Lsh(u.c, uint(8*uw))) != 0 {
					continue
				}
				if !off.addc(int64(w)).eqSyn(uoff) {
					continue
				}
				ts := make([]term, 0, len(l.ts))
				for x, v := range l.ts {
					if x != i && x != j {
						ts = append(ts, v)
					}
				}
				be := mkBE(src, off, w+uw)
				ts = append(ts, term{be.ts[0].a, u.c})
				l = linSum(l.k, ts)
				merged = true
				break outer
			}
		}
		if !merged {
			return l
		}
	}
}

func log2exact(c *big.Int) (uint, bool) {
	if c.Sign() <= 0 {
		return 0, false
	}
	n := uint(c.BitLen() - 1)
	return n, pow2(n).Cmp(c) == 0
}

// mkDiv is floor(e/c) for a positive constant c.
func mkDiv(e *Lin, c *big.Int) *Lin {
	if c.Cmp(big1) == 0 {
		return e
	}
	if e.isConst() {
		q, m := new(big.Int).DivMod(e.k, c, new(big.Int))
		_ = m
		return bLin(q)
	}
	// Split byte ranges at the divisor boundary.
	ts := e.ts
	if n, ok := log2exact(c); ok {
		var out []term
		for _, t := range ts {
			if t.a.head == "be" {
				p, okp := log2exact(new(big.Int).Abs(t.c))
				src, off, w := t.a.beParts()
				if okp && n > p && (n-p)%8 == 0 && int(n-p) < 8*w {
					low := int(n-p) / 8
					hiA := mkBE(src, off, w-low).ts[0].a
					loA := mkBE(src, off.addc(int64(w-low)), low).ts[0].a
					out = append(out, term{hiA, new(big.Int).Lsh(t.c, uint(8*low))}, term{loA, t.c})
					continue
				}
			}
			out = append(out, t)
		}
		ts = linSum(big0, out).ts
	}
	var qs, rs []term
	_, bin := log2exact(c)
	for _, t := range ts {
		q, r := new(big.Int).QuoRem(t.c, c, new(big.Int))
		if r.Sign() < 0 && !bin { // one representative for every residue
			q.Sub(q, big1)
			r.Add(r, c)
		}
		if q.Sign() != 0 {
			qs = append(qs, term{t.a, q})
		}
		if r.Sign() != 0 {
			rs = append(rs, term{t.a, r})
		}
	}
	kq, kr := new(big.Int).DivMod(e.k, c, new(big.Int))
	Q := mergeBE(linSum(kq, qs))
	R := mergeBE(linSum(kr, rs))
	if R.isConst() {
		return Q
	}
	lo, hi := R.bounds(nil)
	if inRange(lo, hi, big0, new(big.Int).Sub(c, big1)) {
		return Q
	}
	if inRange(lo, hi, new(big.Int).Neg(c), bigM1) {
		return Q.addc(-1)
	}
	return Q.add(divAtom(R, c).lin())
}

func divAtom(R *Lin, c *big.Int) *Atom {
	// Nested quotients: floor(floor(x/a)/b) = floor(x/(ab)).
	if len(R.ts) == 1 && R.k.Sign() == 0 && R.ts[0].c.Cmp(big1) == 0 && R.ts[0].a.head == "div" {
		in := R.ts[0].a
		c2 := new(big.Int).Mul(in.args[1].(IntV).L.k, c)
		l := mkDiv(in.args[0].(IntV).L, c2)
		if len(l.ts) == 1 && l.k.Sign() == 0 && l.ts[0].c.Cmp(big1) == 0 {
			return l.ts[0].a
		}
	}
	lo, hi := R.bounds(nil)
	var qlo, qhi *big.Int
	if lo != nil {
		qlo = new(big.Int)
		qlo.DivMod(lo, c, new(big.Int))
	}
	if hi != nil {
		qhi = new(big.Int)
		qhi.DivMod(hi, c, new(big.Int))
	}
	n := len(atomList)
	a := mkAtom("div", []Val{IntV{R}, IntV{bLin(c)}}, qlo, qhi)
	if len(atomList) > n {
		q := a.lin().mulc(c)
		a.defs = []*Lin{R.sub(q), q.sub(R).add(bLin(new(big.Int).Sub(c, big1)))}
	}
	return a
}

// mkSDiv is floor(t/y) for symbolic y >= 1, t >= 0.
func mkSDiv(t, y *Lin) *Lin {
	if y.isConst() && y.k.Sign() > 0 {
		return mkDiv(t, y.k)
	}
	_, hi := t.bounds(nil)
	n := len(atomList)
	a := mkAtom("sdiv", []Val{IntV{t}, IntV{y}}, big0, hi)
	if len(atomList) > n {
		m := a.lin().mul(y)
		a.defs = []*Lin{t.sub(m), m.add(y).sub(t).addc(-1)}
	}
	return a.lin()
}

// wrapU reduces l modulo 2^bits into [0,2^bits).
func wrapU(l *Lin, bits uint) *Lin {
	lo, hi := l.bounds(nil)
	m := pow2(bits)
	if inRange(lo, hi, big0, new(big.Int).Sub(m, big1)) {
		return l
	}
	return l.sub(mkDiv(l, m).mulc(m))
}

// wrapS reduces l modulo 2^bits into [-2^(bits-1), 2^(bits-1)).
func wrapS(l *Lin, bits uint) *Lin {
	lo, hi := l.bounds(nil)
	h := pow2(bits - 1)
	if inRange(lo, hi, new(big.Int).Neg(h), new(big.Int).Sub(h, big1)) {
		return l
	}
	m := pow2(bits)
	return l.sub(mkDiv(l.add(bLin(h)), m).mulc(m))
}

// ---- substitution

type Sub map[*Atom]*Lin

func (s Sub) touches(fv []*Atom) bool {
	for _, v := range fv {
		if _, ok := s[v]; ok {
			return true
		}
	}
	return false
}

func (l *Lin) subst(s Sub) *Lin {
	if !s.touches(l.free()) {
		return l
	}
	res := bLin(l.k)
	for _, t := range l.ts {
		res = res.add(t.a.subst(s).mulc(t.c))
	}
	return res
}

func (a *Atom) subst(s Sub) *Lin {
	if r, ok := s[a]; ok {
		return r
	}
	if !s.touches(a.fv) {
		return a.lin()
	}
	args := make([]Val, len(a.args))
	for i, x := range a.args {
		args[i] = substVal(x, s)
	}
	if f := atomRebuild[a.head]; f != nil {
		return f(args)
	}
	return mkAtom(a.head, args, a.lo, a.hi).lin()
}

func init() {
	atomRebuild["be"] = func(args []Val) *Lin {
		w, _ := args[2].(IntV).L.constVal()
		if s, ok := args[0].(SymV); ok {
			return mkBE(s, args[1].(IntV).L, int(w))
		}
		return mkBE(args[0], args[1].(IntV).L, int(w))
	}
	atomRebuild["at"] = func(args []Val) *Lin {
		q, ok1 := args[0].(SeqV)
		i, ok2 := args[1].(IntV)
		if ok1 && ok2 && len(q.S.segs) == 1 && q.S.segs[0].kind == sConst {
			if n, ok := i.L.constVal(); ok && n >= 0 && n < int64(len(q.S.segs[0].data)) {
				return cLin(int64(q.S.segs[0].data[n]))
			}
		}
		return mkAtom("at", args, big0, bi(255)).lin()
	}
	atomRebuild["div"] = func(args []Val) *Lin { return mkDiv(args[0].(IntV).L, args[1].(IntV).L.k) }
	atomRebuild["sdiv"] = func(args []Val) *Lin { return mkSDiv(args[0].(IntV).L, args[1].(IntV).L) }
	atomRebuild["mul"] = func(args []Val) *Lin { return args[0].(IntV).L.mul(args[1].(IntV).L) }
	atomRebuild["sum"] = func(args []Val) *Lin {
		f := args[0].(FunV)
		return mkSumFun(f, args[1].(IntV).L)
	}
	atomRebuild["rec"] = func(args []Val) *Lin {
		f, ok := args[0].(FunV)
		x0, ok2 := args[1].(IntV)
		if !ok || !ok2 {
			return mkAtom("rec", args, nil, nil).lin()
		}
		return mkRec(f, x0.L, args[2].(IntV).L)
	}
	atomRebuild["bit2p"] = func(args []Val) *Lin {
		x, p := args[0].(IntV).L, args[1].(IntV).L
		if c, ok := p.constVal(); ok && c >= 0 && c < 63 {
			return b2i(bitTest(x, p)).mulc(pow2(uint(c)))
		}
		return mkAtom("bit2p", args, big0, bLin(pow2(63)).k).lin()
	}
	atomRebuild["b2i"] = func(args []Val) *Lin { return b2i(args[0].(BoolV).B) }
}

// ---- sums over loop iterations

var kappas []*Atom

// kappa returns the canonical bound variable of the given nesting level.
func kappa(n int) *Atom {
	for len(kappas) <= n {
		i := len(kappas)
		kappas = append(kappas, mkAtom("k", []Val{StrLit(fmt.Sprintf("κ%d", i))}, big0, nil))
	}
	return kappas[n]
}

// FunV is a term abstracted over a canonical bound variable.
type FunV struct {
	v    *Atom
	body Val
}

func (f FunV) Key() string { return "λ" + f.v.key + "." + f.body.Key() }

func kappaLevel(v Val, except *Atom) int {
	n := 0
	for _, a := range freeVars(v) {
		if a == except {
			continue
		}
		for i, k := range kappas {
			if a == k && i+1 > n {
				n = i + 1
			}
		}
	}
	if d := binderDepth(v); d > n {
		n = d
	}
	return n
}

// abstract replaces the loop variable k in body by a canonical bound variable.
func abstract(k *Atom, body Val) FunV {
	kv := kappa(kappaLevel(body, k))
	return FunV{kv, substVal(body, Sub{k: kv.lin()})}
}

func (f FunV) apply(l *Lin) Val { return substVal(f.body, Sub{f.v: l}) }

// mkSum is the sum of f(j) for 0 <= j < n, f given over variable k.
func mkSum(k *Atom, f *Lin, n *Lin) *Lin {
	if !(Sub{k: nil}).touches(f.free()) {
		return f.mul(n)
	}
	// split off the part not depending on k
	var dep, ind []term
	for _, t := range f.ts {
		if (Sub{k: nil}).touches(t.a.fv) {
			dep = append(dep, t)
		} else {
			ind = append(ind, t)
		}
	}
	if c, rest, r := telescopes(k, f); r != nil {
		f0, x0 := r.args[0].(FunV), r.args[1].(IntV).L
		return mkRec(f0, x0, n).sub(x0).mulc(c).add(mkSum(k, rest, n))
	}
	res := (&Lin{ts: ind, k: f.k}).mul(n)
	for _, t := range dep {
		res = res.add(mkSumFun(abstract(k, IntV{t.a.lin()}), n).mulc(t.c))
	}
	return res
}

// telescopes finds an iterated offset r(k) with f = c*(r(k+1)-r(k)) + rest, rest free of r.
func telescopes(k *Atom, f *Lin) (*big.Int, *Lin, *Atom) {
	var recs []*Atom
	seen := map[*Atom]bool{}
	for _, t := range f.ts {
		if (Sub{k: nil}).touches(t.a.fv) {
			recAtoms(t.a, k, seen, &recs)
		}
	}
	for _, r := range recs {
		d := mkRec(r.args[0].(FunV), r.args[1].(IntV).L, k.lin().addc(1)).sub(r.lin())
		for _, t := range d.ts {
			if t.a == r || !(Sub{k: nil}).touches(t.a.fv) {
				continue
			}
			c := f.coef(t.a)
			if c.Sign() == 0 {
				break
			}
			q, m := new(big.Int).QuoRem(c, t.c, new(big.Int))
			if m.Sign() != 0 {
				break
			}
			rest := f.sub(d.mulc(q))
			var left []*Atom
			for _, u := range rest.ts {
				recAtoms(u.a, k, map[*Atom]bool{}, &left)
			}
			for _, l := range left {
				if l == r {
					rest = nil
					break
				}
			}
			if rest != nil {
				return q, rest, r
			}
			break
		}
	}
	return nil, nil, nil
}

// recAtoms collects the iterated offsets whose iteration count is exactly k.
func recAtoms(a *Atom, k *Atom, seen map[*Atom]bool, out *[]*Atom) {
	if seen[a] {
		return
	}
	seen[a] = true
	if a.head == "rec" {
		if n, ok := a.args[2].(IntV); ok && n.L.eqSyn(k.lin()) {
			if x0, ok := a.args[1].(IntV); ok && !(Sub{k: nil}).touches(x0.L.free()) && !(Sub{k: nil}).touches(freeVars(a.args[0])) {
				*out = append(*out, a)
			}
		}
	}
	for _, v := range a.args {
		switch x := v.(type) {
		case IntV:
			for _, t := range x.L.ts {
				recAtoms(t.a, k, seen, out)
			}
		case SymV:
			recSym(x.S, k, seen, out)
		}
	}
}

func recSym(s *Sym, k *Atom, seen map[*Atom]bool, out *[]*Atom) {
	for _, v := range s.args {
		switch x := v.(type) {
		case IntV:
			for _, t := range x.L.ts {
				recAtoms(t.a, k, seen, out)
			}
		case SymV:
			recSym(x.S, k, seen, out)
		}
	}
}

// sizeLike: the term is the encoded size of an element, possibly under a condition.
func sizeLike(l *Lin) bool {
	if len(l.ts) != 1 || l.k.Sign() != 0 || l.ts[0].c.Cmp(big1) != 0 {
		return false
	}
	a := l.ts[0].a
	switch a.head {
	case "esz", "esz?":
		return true
	case "mul":
		x, y := a.args[0].(IntV).L, a.args[1].(IntV).L
		return sizeLike(x) && len(y.ts) == 1 && y.ts[0].a.head == "b2i" || sizeLike(y) && len(x.ts) == 1 && x.ts[0].a.head == "b2i"
	}
	return false
}

func mkSumFun(f FunV, n *Lin) *Lin {
	body := f.body.(IntV).L
	base := &Lin{ts: n.ts, k: big0}
	off := n.k
	if off.Sign() != 0 && off.IsInt64() && off.Int64() > -64 && off.Int64() < 512 {
		o := off.Int64()
		res := cLin(0)
		if len(base.ts) > 0 {
			res = mkSumFun(f, base)
		}
		if o > 0 {
			for i := int64(0); i < o; i++ {
				res = res.add(body.subst(Sub{f.v: base.addc(i)}))
			}
			return res
		}
		if len(base.ts) > 0 {
			for i := o; i < 0; i++ {
				res = res.sub(body.subst(Sub{f.v: base.addc(i)}))
			}
			return res
		}
	}
	if n.isZero() {
		return cLin(0)
	}
	lo, hi := body.bounds(nil)
	var alo *big.Int
	if lo != nil && lo.Sign() >= 0 {
		alo = big0
	}
	cnt := len(atomList)
	var ahi *big.Int
	if sizeLike(body) {
		ahi = maxLen // assumption: no value's encoding exceeds the length bound
	}
	a := mkAtom("sum", []Val{f, IntV{n}}, alo, ahi)
	if len(atomList) > cnt {
		if lo != nil {
			a.defs = append(a.defs, a.lin().sub(n.mulc(lo)))
		}
		if hi != nil {
			a.defs = append(a.defs, n.mulc(hi).sub(a.lin()))
		}
	}
	return a.lin()
}
