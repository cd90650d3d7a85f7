package main

import (
	"fmt"
	"go/token"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// endlessOn makes loops without a bound on their iterations visible: each gives an outcome
// that looks like a panic of the kind "endless loop".
var endlessOn bool

const endlessKind = "endless loop"

// loopsBounded lists the loops that were shown to end, with the reason.
var loopsBounded = map[string]string{}

// most iterations a loop may make that is not bounded by something given
var maxIter = new(big.Int).Lsh(big1, 33)

// endless looks for a quantity that shows that the loop ends. Every alternative of going around must
// move it by at least one in the same direction, towards a bound that the iterations do not change.
func (t *tmpl) endless(st *State, backs []backVals) []res {
	if len(backs) == 0 {
		return nil
	}
	pos := t.place()
	where := P.pos(pos) + " (" + t.fr0.fn.String() + ")"
	// the number of iterations itself
	if b, ok := t.bounded(backs, t.k.lin(), 1); ok {
		loopsBounded[where] = "iterations at most " + b
		return nil
	}
	for _, s := range t.slots {
		cur := s.rank(s.value(mTmpl))
		if cur == nil {
			continue
		}
		up, down := true, true
		for _, b := range backs {
			nx := s.rank(b.vals[s])
			if nx == nil {
				up, down = false, false
				break
			}
			up = up && b.st.f.entails(nx.sub(cur).addc(-1))
			down = down && b.st.f.entails(cur.sub(nx).addc(-1))
		}
		if up {
			if b, ok := t.bounded(backs, cur, 1); ok {
				loopsBounded[where] = s.name + " grows to " + b
				return nil
			}
		}
		if down {
			if b, ok := t.bounded(backs, cur, -1); ok {
				loopsBounded[where] = s.name + " falls to " + b
				return nil
			}
		}
	}
	var out []res
	for _, b := range backs {
		s := b.st.clone()
		s.conds = append(append([]cond(nil), st.conds...), s.conds...)
		s.ev = append([]Event(nil), st.ev...)
		out = append(out, res{kind: rPanic, st: s, fr: t.fr0.clone(), pan: t.ip.panicInfo(pos, endlessKind)})
	}
	return out
}

// place is a position in the loop.
func (t *tmpl) place() token.Pos {
	for _, b := range t.fr0.fn.Blocks {
		if b != t.L.header && !t.L.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				return in.Pos()
			}
		}
	}
	return t.fr0.fn.Pos()
}

// rank is the number that measures a carried value.
func (s *slot) rank(v Val) *Lin {
	switch v := v.(type) {
	case IntV:
		return v.L
	case SeqV:
		return v.S.length()
	case SliceV:
		return v.len
	case TupleV:
		if s.kind == slSlice && len(v.vs) > 0 {
			if x, ok := v.vs[0].(SliceV); ok {
				return x.len
			}
		}
	}
	return nil
}

// bounded: on every way around, sign*q stays below something the loop leaves alone.
func (t *tmpl) bounded(backs []backVals, q *Lin, sign int64) (string, bool) {
	what := ""
	for _, b := range backs {
		e, ok := t.boundOn(b.st.f, q.mulc64(sign))
		if !ok {
			return "", false
		}
		if what == "" || len(e) < len(what) {
			what = e
		}
	}
	return what, true
}

func (t *tmpl) boundOn(f *Facts, q *Lin) (string, bool) {
	_, hi := f.bounds(q)
	if hi != nil && hi.Cmp(maxIter) <= 0 {
		return hi.String(), true
	}
	for _, l := range f.ge {
		// l = rest - c*q >= 0
		for _, tm := range q.ts {
			a := tm.a
			ql, lc := q.coef(a), l.coef(a)
			if lc.Sign() == 0 || lc.Sign() == ql.Sign() {
				continue
			}
			c := new(big.Int).Quo(lc, ql)
			if new(big.Int).Mul(c, ql).Cmp(lc) != 0 {
				continue
			}
			rest := l.sub(q.mulc(c))
			if !t.fixed(rest) {
				break
			}
			if _, h := f.bounds(rest); (h == nil || h.Cmp(maxLen) > 0) && !f.entails(bLin(maxLen).sub(rest)) {
				break
			}
			return rest.String(), true
		}
	}
	return "", false
}

// fixed: the loop does not change l.
func (t *tmpl) fixed(l *Lin) bool {
	for _, tm := range l.ts {
		a := tm.a
		if a == t.k || t.bySlot[a] != nil || t.varies(a.fv) {
			return false
		}
		k := a.key
		if strings.Contains(k, fmt.Sprintf("hv%d.", t.id)) || strings.Contains(k, fmt.Sprintf("k(L%d)", t.id)) {
			return false
		}
		// nor is it made of something that came up during the loop
		for _, m := range madeRe.FindAllStringSubmatch(k, -1) {
			n, _ := strconv.Atoi(m[2])
			if m[1] == "#" && n > t.sym0 || m[1] == "o" && n > t.seq0 {
				return false
			}
		}
	}
	return true
}

var madeRe = regexp.MustCompile(`(#|\bo)(\d+)`)

func (t *tmpl) varies(fv []*Atom) bool {
	for _, a := range fv {
		if a == t.k || t.bySlot[a] != nil {
			return true
		}
	}
	return false
}
