package main

// Boolean conditions and path facts (a polyhedral domain over atoms).

import (
	"math/big"
	"sort"
	"strings"
)

type boolOp int

const (
	bConst boolOp = iota
	bGE           // lin >= 0
	bEQ           // lin == 0
	bAtom         // opaque predicate
	bNot
	bAnd
	bOr
)

type Bool struct {
	op   boolOp
	val  bool
	lin  *Lin
	head string
	args []Val
	a, b *Bool
	key  string
}

var bTrue = &Bool{op: bConst, val: true, key: "true"}
var bFalse = &Bool{op: bConst, val: false, key: "false"}

func cBool(v bool) *Bool {
	if v {
		return bTrue
	}
	return bFalse
}

func (b *Bool) Key() string {
	if b.key == "" {
		switch b.op {
		case bGE:
			b.key = "(" + b.lin.Key() + ">=0)"
		case bEQ:
			b.key = "(" + b.lin.Key() + "==0)"
		case bAtom:
			b.key = argsKey(b.head, b.args)
		case bNot:
			b.key = "!" + b.a.Key()
		case bAnd:
			b.key = "(" + b.a.Key() + "&&" + b.b.Key() + ")"
		case bOr:
			b.key = "(" + b.a.Key() + "||" + b.b.Key() + ")"
		}
	}
	return b.key
}

func (b *Bool) free() []*Atom {
	switch b.op {
	case bGE, bEQ:
		return b.lin.free()
	case bAtom:
		var fv []*Atom
		for _, x := range b.args {
			fv = unionFV(fv, freeVars(x))
		}
		return fv
	case bNot:
		return b.a.free()
	case bAnd, bOr:
		return unionFV(b.a.free(), b.b.free())
	}
	return nil
}

func (b *Bool) subst(s Sub) *Bool {
	if !s.touches(b.free()) {
		return b
	}
	switch b.op {
	case bGE:
		return bGe0(b.lin.subst(s))
	case bEQ:
		return bEq0(b.lin.subst(s))
	case bAtom:
		args := make([]Val, len(b.args))
		for i, x := range b.args {
			args[i] = substVal(x, s)
		}
		if b.head == "bitset" {
			return bitTest(args[0].(IntV).L, args[1].(IntV).L)
		}
		return bPred(b.head, args...)
	case bNot:
		return bNeg(b.a.subst(s))
	case bAnd:
		return bAnd2(b.a.subst(s), b.b.subst(s))
	case bOr:
		return bOr2(b.a.subst(s), b.b.subst(s))
	}
	return b
}

func bGe0(l *Lin) *Bool {
	lo, hi := l.bounds(nil)
	if lo != nil && lo.Sign() >= 0 {
		return bTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return bFalse
	}
	if len(l.ts) == 1 {
		switch t := l.ts[0]; t.a.head {
		case "b2i":
			p := t.a.args[0].(BoolV).B
			y, n := new(big.Int).Add(l.k, t.c).Sign() >= 0, l.k.Sign() >= 0
			if y && !n {
				return p
			} else if n && !y {
				return bNeg(p)
			}
			return cBool(y)
		case "bit2p":
			if t.c.Cmp(big1) == 0 && l.k.Cmp(bigM1) == 0 {
				return bTestOf(t.a)
			}
		}
	}
	return &Bool{op: bGE, lin: l}
}
func bTestOf(a *Atom) *Bool { return bitTest(a.args[0].(IntV).L, a.args[1].(IntV).L) }
func bEq0(l *Lin) *Bool {
	if l.isConst() {
		return cBool(l.k.Sign() == 0)
	}
	lo, hi := l.bounds(nil)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return bFalse
	}
	if l.ts[0].c.Sign() < 0 {
		l = l.neg()
	}
	// x & 2^p == 0
	if len(l.ts) == 1 && l.ts[0].a.head == "bit2p" && l.k.Sign() == 0 {
		return bNeg(bitTest(l.ts[0].a.args[0].(IntV).L, l.ts[0].a.args[1].(IntV).L))
	}
	// c*b2i(p) == 0/c
	if len(l.ts) == 1 && l.ts[0].a.head == "b2i" {
		p := l.ts[0].a.args[0].(BoolV).B
		if l.k.Sign() == 0 {
			return bNeg(p)
		}
		if new(big.Int).Neg(l.k).Cmp(l.ts[0].c) == 0 {
			return p
		}
		return bFalse
	}
	if len(l.ts) == 1 && l.ts[0].a.head == "b2i" && l.ts[0].c.Cmp(big1) == 0 {
		p := l.ts[0].a.args[0].(BoolV).B
		if l.k.Sign() == 0 {
			return bNeg(p)
		}
		if l.k.Cmp(bigM1) == 0 {
			return p
		}
	}
	return &Bool{op: bEQ, lin: l}
}
func bPred(head string, args ...Val) *Bool { return &Bool{op: bAtom, head: head, args: args} }
func bNeg(b *Bool) *Bool {
	switch b.op {
	case bConst:
		return cBool(!b.val)
	case bNot:
		return b.a
	case bGE:
		return bGe0(b.lin.neg().addc(-1))
	}
	return &Bool{op: bNot, a: b}
}
func bAnd2(a, b *Bool) *Bool {
	if a.op == bConst {
		if a.val {
			return b
		}
		return bFalse
	}
	if b.op == bConst {
		if b.val {
			return a
		}
		return bFalse
	}
	return &Bool{op: bAnd, a: a, b: b}
}
func bOr2(a, b *Bool) *Bool {
	if a.op == bConst {
		if a.val {
			return bTrue
		}
		return b
	}
	if b.op == bConst {
		if b.val {
			return bTrue
		}
		return a
	}
	return &Bool{op: bOr, a: a, b: b}
}

// b2i is 1 if b holds and 0 otherwise.
func b2i(b *Bool) *Lin {
	if b.op == bConst {
		if b.val {
			return cLin(1)
		}
		return cLin(0)
	}
	if b.op == bNot {
		return cLin(1).sub(b2i(b.a))
	}
	if b.op == bGE {
		// one of a comparison and its negation stands for both
		if n := bNeg(b); n.op == bGE && n.Key() < b.Key() {
			return cLin(1).sub(mkAtom("b2i", []Val{BoolV{n}}, big0, big1).lin())
		}
	}
	return mkAtom("b2i", []Val{BoolV{b}}, big0, big1).lin()
}

// ---- facts

// predFact is a decided opaque predicate.
type predFact struct {
	val bool
	b   *Bool
}

type Facts struct {
	ge    []*Lin
	keys  map[string]bool // keys of ge
	preds map[string]predFact
	neq   []*Lin
	bnd   map[*Atom][2]*big.Int
	dead  bool
	memo  map[string]bool
	log   []string // readable path condition
}

func newFacts() *Facts {
	return &Facts{keys: map[string]bool{}, preds: map[string]predFact{}, bnd: map[*Atom][2]*big.Int{}, memo: map[string]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{ge: f.ge[:len(f.ge):len(f.ge)], neq: f.neq[:len(f.neq):len(f.neq)], dead: f.dead, log: f.log[:len(f.log):len(f.log)]}
	g.keys = make(map[string]bool, len(f.keys)+1)
	for k := range f.keys {
		g.keys[k] = true
	}
	g.preds = make(map[string]predFact, len(f.preds)+1)
	for k, v := range f.preds {
		g.preds[k] = v
	}
	g.bnd = make(map[*Atom][2]*big.Int, len(f.bnd)+1)
	for k, v := range f.bnd {
		g.bnd[k] = v
	}
	g.memo = map[string]bool{}
	return g
}

func (f *Facts) atomBounds(a *Atom) (lo, hi *big.Int) {
	if b, ok := f.bnd[a]; ok {
		return b[0], b[1]
	}
	return a.lo, a.hi
}

func (f *Facts) bounds(l *Lin) (lo, hi *big.Int) { return l.bounds(f.atomBounds) }

func floorDiv(a, b *big.Int) *big.Int { // b>0
	q := new(big.Int)
	q.DivMod(a, b, new(big.Int))
	return q
}

// tighten propagates one fact (l >= 0) into atom bounds. Returns whether something changed.
func (f *Facts) tighten(l *Lin) bool {
	changed := false
	for _, t := range l.ts {
		// t.c*a + rest >= 0 ; need upper bound of rest
		hi := new(big.Int).Set(l.k)
		for _, u := range l.ts {
			if u.a == t.a {
				continue
			}
			alo, ahi := f.atomBounds(u.a)
			b := ahi
			if u.c.Sign() < 0 {
				b = alo
			}
			if b == nil {
				hi = nil
				break
			}
			hi.Add(hi, new(big.Int).Mul(u.c, b))
		}
		if hi == nil {
			continue
		}
		alo, ahi := f.atomBounds(t.a)
		if t.c.Sign() > 0 {
			// a >= ceil(-hi/c)
			nl := new(big.Int).Neg(floorDiv(hi, t.c))
			if alo == nil || nl.Cmp(alo) > 0 {
				f.bnd[t.a] = [2]*big.Int{nl, ahi}
				alo = nl
				changed = true
			}
		} else {
			nh := floorDiv(hi, new(big.Int).Neg(t.c))
			if ahi == nil || nh.Cmp(ahi) < 0 {
				f.bnd[t.a] = [2]*big.Int{alo, nh}
				ahi = nh
				changed = true
			}
		}
		if alo != nil && ahi != nil && alo.Cmp(ahi) > 0 {
			f.dead = true
			return false
		}
	}
	return changed
}

func normGE(l *Lin) *Lin {
	if len(l.ts) == 0 {
		return l
	}
	g := new(big.Int).Abs(l.ts[0].c)
	for _, t := range l.ts[1:] {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(big1) == 0 {
		return l
	}
	ts := make([]term, len(l.ts))
	for i, t := range l.ts {
		ts[i] = term{t.a, new(big.Int).Quo(t.c, g)}
	}
	return &Lin{ts: ts, k: floorDiv(l.k, g)}
}

func (f *Facts) addGE(l *Lin) {
	if f.dead {
		return
	}
	l = normGE(l)
	if l.isConst() {
		if l.k.Sign() < 0 {
			f.dead = true
		}
		return
	}
	if f.keys[l.Key()] {
		return
	}
	lo, hi := f.bounds(l)
	if lo != nil && lo.Sign() >= 0 {
		return
	}
	if hi != nil && hi.Sign() < 0 {
		f.dead = true
		return
	}
	f.keys[l.Key()] = true
	f.ge = append(f.ge, l)
	f.memo = map[string]bool{}
	f.propagate()
	if !f.dead {
		f.recheckNeq()
	}
}

// relevantDefs collects the intrinsic facts of all atoms (transitively) in the facts.
func (f *Facts) propagate() {
	for round := 0; round < 6; round++ {
		ch := false
		seen := map[*Atom]bool{}
		for _, l := range f.ge {
			if f.tighten(l) {
				ch = true
			}
			if f.dead {
				return
			}
			if f.propDefs(l, seen, &ch) {
				return
			}
		}
		if !ch {
			return
		}
	}
}

func (f *Facts) propDefs(l *Lin, seen map[*Atom]bool, ch *bool) bool {
	for _, t := range l.ts {
		if seen[t.a] {
			continue
		}
		seen[t.a] = true
		for _, d := range t.a.defs {
			if f.tighten(d) {
				*ch = true
			}
			if f.dead {
				return true
			}
			if f.propDefs(d, seen, ch) {
				return true
			}
		}
	}
	return false
}

func (f *Facts) recheckNeq() {
	for i := 0; i < len(f.neq); i++ {
		l := f.neq[i]
		lo, hi := f.bounds(l)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			f.neq = append(append([]*Lin(nil), f.neq[:i]...), f.neq[i+1:]...)
			i--
			continue
		}
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			f.dead = true
			return
		}
		// l != 0 and l >= 0  =>  l >= 1
		if lo != nil && lo.Sign() == 0 || f.keys[normGE(l).Key()] {
			f.neq = append(append([]*Lin(nil), f.neq[:i]...), f.neq[i+1:]...)
			f.addGE(l.addc(-1))
			return
		}
		if hi != nil && hi.Sign() == 0 || f.keys[normGE(l.neg()).Key()] {
			f.neq = append(append([]*Lin(nil), f.neq[:i]...), f.neq[i+1:]...)
			f.addGE(l.neg().addc(-1))
			return
		}
	}
}

// assume adds b (or its negation); the result is a list of alternatives (usually one, none if infeasible).
func (f *Facts) assume(b *Bool, truth bool) []*Facts {
	for b.op == bNot {
		b, truth = b.a, !truth
	}
	switch b.op {
	case bConst:
		if b.val == truth {
			return []*Facts{f}
		}
		return nil
	case bAnd, bOr:
		if (b.op == bAnd) == truth {
			var out []*Facts
			for _, g := range f.assume(b.a, truth) {
				out = append(out, g.assume(b.b, truth)...)
			}
			return out
		}
		out := f.assume(b.a, truth)
		for _, g := range f.assume(b.a, !truth) {
			out = append(out, g.assume(b.b, truth)...)
		}
		return out
	}
	g := f.clone()
	if truth {
		g.log = append(g.log, b.Key())
	} else {
		g.log = append(g.log, "!"+b.Key())
	}
	switch b.op {
	case bGE:
		if truth {
			if f.entails(b.lin.neg().addc(-1)) {
				return nil
			}
			g.addGE(b.lin)
		} else {
			if f.entails(b.lin) {
				return nil
			}
			g.addGE(b.lin.neg().addc(-1))
		}
	case bEQ:
		if truth {
			if f.entails(b.lin.addc(-1)) || f.entails(b.lin.neg().addc(-1)) {
				return nil
			}
			for _, n := range f.neq {
				if n.eqSyn(b.lin) || n.eqSyn(b.lin.neg()) {
					return nil
				}
			}
			g.addGE(b.lin)
			g.addGE(b.lin.neg())
		} else {
			if f.entails(b.lin) {
				if f.entails(b.lin.neg()) {
					return nil
				}
				g.addGE(b.lin.addc(-1))
			} else if f.entails(b.lin.neg()) {
				g.addGE(b.lin.neg().addc(-1))
			} else {
				g.neq = append(g.neq, b.lin)
				g.recheckNeq()
			}
		}
	case bAtom:
		if v, ok := f.predVal(b); ok {
			if v != truth {
				return nil
			}
			return []*Facts{f}
		}
		g.preds[b.Key()] = predFact{truth, b}
		// b2i link
		if a, ok := atomTab[argsKey("b2i", []Val{BoolV{b}})]; ok {
			if truth {
				g.addGE(a.lin().addc(-1))
			} else {
				g.addGE(a.lin().neg())
			}
		}
	}
	if g.dead {
		return nil
	}
	return []*Facts{g}
}

func (f *Facts) predVal(b *Bool) (val, known bool) {
	if v, ok := f.preds[b.Key()]; ok {
		return v.val, true
	}
	if a, ok := atomTab[argsKey("b2i", []Val{BoolV{b}})]; ok {
		lo, hi := f.atomBounds(a)
		if lo != nil && lo.Sign() > 0 {
			return true, true
		}
		if hi != nil && hi.Sign() == 0 {
			return false, true
		}
	}
	return false, false
}

// fromAll looks b up in the facts known for all iterations of earlier loops.
func (f *Facts) fromAll(b *Bool) (val, ok bool) {
	if b.head == "all" {
		return false, false
	}
	fv := b.free()
	if len(fv) == 0 {
		return false, false
	}
	for _, p := range f.preds {
		if p.b == nil || p.b.head != "all" || !p.val {
			continue
		}
		fun := p.b.args[0].(FunV)
		body, isB := fun.body.(BoolV)
		if !isB {
			continue
		}
		for _, c := range conjuncts(body.B) {
			neg := false
			if c.op == bNot {
				neg, c = true, c.a
			}
			if c.op != bAtom || c.head != b.head {
				continue
			}
			for _, a := range fv {
				if a == fun.v {
					continue
				}
				if c.subst(Sub{fun.v: a.lin()}).Key() != b.Key() {
					continue
				}
				n := p.b.args[1].(IntV).L
				if f.entails(a.lin()) && f.entails(n.sub(a.lin()).addc(-1)) {
					return !neg, true
				}
			}
		}
	}
	return false, false
}

// pullAll makes linear consequences of facts about all iterations available for the
// counters of a comparison that has just been decided.
func (f *Facts) pullAll(b *Bool) {
	if b.op == bNot {
		b = b.a
	}
	if b.op != bGE && b.op != bEQ || f.dead {
		return
	}
	var add []*Lin
	for _, p := range f.preds {
		if p.b == nil || p.b.head != "all" || !p.val {
			continue
		}
		fun := p.b.args[0].(FunV)
		body, isB := fun.body.(BoolV)
		n := p.b.args[1].(IntV).L
		if !isB {
			continue
		}
		for _, t := range b.lin.ts {
			j := t.a.lin()
			if len(t.a.args) > 1 || (Sub{t.a: nil}).touches(n.free()) || !f.entails(j) || !f.entails(n.sub(j).addc(-1)) {
				continue
			}
			for _, c := range conjuncts(body.B) {
				c = c.subst(Sub{fun.v: j})
				switch {
				case c.op == bGE:
					add = append(add, c.lin)
				case c.op == bEQ:
					add = append(add, c.lin, c.lin.neg())
				case c.op == bAtom && c.head == "valid":
					add = append(add, roomOf(c)...)
				}
			}
		}
	}
	sort.Slice(add, func(i, j int) bool { return add[i].Key() < add[j].Key() })
	for _, l := range add {
		f.addGE(l)
	}
}

// roomOf: a valid item at an offset of the input lies within the input.
func roomOf(v *Bool) []*Lin {
	T, src, off := v.args[0], v.args[1].(SymV).S, v.args[2].(IntV).L
	if src.Key() != "In" {
		return nil
	}
	q, _ := T.(StrLit)
	return []*Lin{symLen(src).sub(off).sub(dszAtom(string(q), src, off))}
}

func conjuncts(b *Bool) []*Bool {
	if b.op == bAnd {
		return append(conjuncts(b.a), conjuncts(b.b)...)
	}
	return []*Bool{b}
}

// decide evaluates b under the facts: 1 true, 0 false, -1 unknown.
func (f *Facts) decide(b *Bool) int {
	switch b.op {
	case bConst:
		if b.val {
			return 1
		}
		return 0
	case bNot:
		if d := f.decide(b.a); d >= 0 {
			return 1 - d
		}
	case bGE:
		if f.entails(b.lin) {
			return 1
		}
		if f.entails(b.lin.neg().addc(-1)) {
			return 0
		}
	case bEQ:
		ge, le := f.entails(b.lin), f.entails(b.lin.neg())
		if ge && le {
			return 1
		}
		if ge && f.entails(b.lin.addc(-1)) || le && f.entails(b.lin.neg().addc(-1)) {
			return 0
		}
		for _, n := range f.neq {
			if n.eqSyn(b.lin) || n.eqSyn(b.lin.neg()) {
				return 0
			}
		}
	case bAtom:
		if v, ok := f.predVal(b); ok {
			if v {
				return 1
			}
			return 0
		}
		if v, ok := f.fromAll(b); ok {
			if v {
				return 1
			}
			return 0
		}
	case bAnd:
		x, y := f.decide(b.a), f.decide(b.b)
		if x == 0 || y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case bOr:
		x, y := f.decide(b.a), f.decide(b.b)
		if x == 1 || y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
	}
	return -1
}

var statLP, statEnt int

// entails reports whether the facts imply l >= 0.
func (f *Facts) entails(l *Lin) bool {
	if f.dead {
		return true
	}
	if l.isConst() {
		return l.k.Sign() >= 0
	}
	l = normGE(l)
	lo, hi := f.bounds(l)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	if hi != nil && hi.Sign() < 0 {
		return false // (unless facts are contradictory)
	}
	if f.keys[l.Key()] {
		return true
	}
	if r, ok := f.memo[l.Key()]; ok {
		return r
	}
	statEnt++
	r := f.infeasibleWith(l.neg().addc(-1), 2)
	f.memo[l.Key()] = r
	return r
}

func (f *Facts) entailsEq(a, b *Lin) bool {
	if a.eqSyn(b) {
		return true
	}
	d := a.sub(b)
	return f.entails(d) && f.entails(d.neg())
}

// divBounds is atomBounds with the bounds of quotients rounded to integers.
func (f *Facts) divBounds() func(*Atom) (lo, hi *big.Int) {
	memo := map[*Atom][2]*big.Int{}
	var bnd func(a *Atom) (lo, hi *big.Int)
	bnd = func(a *Atom) (lo, hi *big.Int) {
		lo, hi = f.atomBounds(a)
		if a.head != "div" {
			return
		}
		if b, ok := memo[a]; ok {
			return b[0], b[1]
		}
		memo[a] = [2]*big.Int{lo, hi}
		d, ok := a.args[1].(IntV)
		if !ok || !d.L.isConst() || d.L.k.Sign() <= 0 {
			return
		}
		l, h := a.args[0].(IntV).L.bounds(bnd)
		if l != nil {
			if l = floorDiv(l, d.L.k); lo == nil || l.Cmp(lo) > 0 {
				lo = l
			}
		}
		if h != nil {
			if h = floorDiv(h, d.L.k); hi == nil || h.Cmp(hi) < 0 {
				hi = h
			}
		}
		memo[a] = [2]*big.Int{lo, hi}
		return
	}
	return bnd
}

// infeasibleWith reports whether facts and q >= 0 have no solution (sound: true means none).
func (f *Facts) infeasibleWith(q *Lin, splits int) bool {
	// closure of relevant constraints
	cons := []*Lin{q}
	inAtoms := map[*Atom]bool{}
	var atoms []*Atom
	var addAtoms func(l *Lin)
	addAtoms = func(l *Lin) {
		for _, t := range l.ts {
			if !inAtoms[t.a] {
				inAtoms[t.a] = true
				atoms = append(atoms, t.a)
			}
		}
	}
	addAtoms(q)
	usedF := make([]bool, len(f.ge))
	usedA := map[*Atom]bool{}
	for ch := true; ch; {
		ch = false
		for i, l := range f.ge {
			if usedF[i] {
				continue
			}
			for _, t := range l.ts {
				if inAtoms[t.a] {
					usedF[i] = true
					cons = append(cons, l)
					addAtoms(l)
					ch = true
					break
				}
			}
		}
		for i := 0; i < len(atoms); i++ {
			a := atoms[i]
			if usedA[a] {
				continue
			}
			usedA[a] = true
			for _, d := range a.defs {
				cons = append(cons, d)
				addAtoms(d)
				ch = true
			}
			if a.head == "b2i" {
				switch f.quick(a.args[0].(BoolV).B) {
				case 1:
					cons = append(cons, a.lin().addc(-1))
				case 0:
					cons = append(cons, a.lin().neg())
				}
			}
		}
		if len(cons) > 400 {
			break
		}
	}
	statLP++
	bnd := f.divBounds()
	if !lpFeasible(cons, atoms, bnd) {
		return true
	}
	if splits > 0 {
		// Case split on small integer atoms (carries).
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		for _, a := range atoms {
			if a.head != "div" && a.head != "b2i" {
				continue
			}
			lo, hi := bnd(a)
			if lo == nil || hi == nil {
				continue
			}
			if d := new(big.Int).Sub(hi, lo); d.Cmp(big1) != 0 {
				continue
			}
			ok := true
			for v := 0; v < 2; v++ {
				g := f.clone()
				val := new(big.Int).Add(lo, bi(int64(v)))
				g.bnd[a] = [2]*big.Int{val, val}
				g.ge = append(g.ge, q)
				if a.head == "b2i" {
					for _, l := range linearFacts(a.args[0].(BoolV).B, val.Sign() > 0) {
						g.addGE(l)
					}
				}
				g.propagate()
				for _, d := range a.defs {
					if !g.dead {
						g.tighten(d)
					}
				}
				if g.dead {
					continue
				}
				if !g.infeasibleWith(q, splits-1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
			break
		}
	}
	return false
}

// quick decides b from facts stated literally.
func (f *Facts) quick(b *Bool) int {
	has := func(l *Lin) bool {
		if l.isConst() {
			return l.k.Sign() >= 0
		}
		l = normGE(l)
		if f.keys[l.Key()] {
			return true
		}
		lo, _ := f.bounds(l)
		return lo != nil && lo.Sign() >= 0
	}
	switch b.op {
	case bConst:
		if b.val {
			return 1
		}
		return 0
	case bNot:
		if d := f.quick(b.a); d >= 0 {
			return 1 - d
		}
	case bGE:
		if has(b.lin) {
			return 1
		}
		if has(b.lin.neg().addc(-1)) {
			return 0
		}
	case bEQ:
		if has(b.lin) && has(b.lin.neg()) {
			return 1
		}
		if has(b.lin.addc(-1)) || has(b.lin.neg().addc(-1)) {
			return 0
		}
		for _, n := range f.neq {
			if n.eqSyn(b.lin) || n.eqSyn(b.lin.neg()) {
				return 0
			}
		}
	case bAtom:
		if v, ok := f.preds[b.Key()]; ok {
			if v.val {
				return 1
			}
			return 0
		}
	case bAnd:
		x, y := f.quick(b.a), f.quick(b.b)
		if x == 0 || y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case bOr:
		x, y := f.quick(b.a), f.quick(b.b)
		if x == 1 || y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
	}
	return -1
}

// linearFacts lists linear consequences of b being true or false.
func linearFacts(b *Bool, truth bool) []*Lin {
	switch b.op {
	case bNot:
		return linearFacts(b.a, !truth)
	case bGE:
		if truth {
			return []*Lin{b.lin}
		}
		return []*Lin{b.lin.neg().addc(-1)}
	case bEQ:
		if truth {
			return []*Lin{b.lin, b.lin.neg()}
		}
	case bAnd:
		if truth {
			return append(linearFacts(b.a, true), linearFacts(b.b, true)...)
		}
	case bOr:
		if !truth {
			return append(linearFacts(b.a, false), linearFacts(b.b, false)...)
		}
	}
	return nil
}

func (f *Facts) String() string {
	var s []string
	s = append(s, f.log...)
	return strings.Join(s, " & ")
}

// ---- linear feasibility (bounded simplex over rationals)

type row struct {
	c map[int]*big.Rat // nonbasic var -> coef
}

func lpFeasible(cons []*Lin, atoms []*Atom, bnd func(*Atom) (lo, hi *big.Int)) bool {
	n := len(atoms)
	idx := make(map[*Atom]int, n)
	lo := make([]*big.Rat, n, n+len(cons))
	hi := make([]*big.Rat, n, n+len(cons))
	val := make([]*big.Rat, n, n+len(cons))
	toRat := func(b *big.Int) *big.Rat {
		if b == nil {
			return nil
		}
		return new(big.Rat).SetInt(b)
	}
	for i, a := range atoms {
		idx[a] = i
		l, h := bnd(a)
		if l != nil && h != nil && l.Cmp(h) > 0 {
			return false
		}
		lo[i], hi[i] = toRat(l), toRat(h)
		switch {
		case l != nil:
			val[i] = lo[i]
		case h != nil:
			val[i] = hi[i]
		default:
			val[i] = new(big.Rat)
		}
	}
	rows := map[int]map[int]*big.Rat{} // basic var -> row
	for _, c := range cons {
		if c.isConst() {
			if c.k.Sign() < 0 {
				return false
			}
			continue
		}
		if len(c.ts) == 1 {
			// bound
			i := idx[c.ts[0].a]
			b := new(big.Rat).SetFrac(new(big.Int).Neg(c.k), c.ts[0].c)
			if c.ts[0].c.Sign() > 0 {
				if lo[i] == nil || b.Cmp(lo[i]) > 0 {
					lo[i] = b
				}
			} else if hi[i] == nil || b.Cmp(hi[i]) < 0 {
				hi[i] = b
			}
			if lo[i] != nil && hi[i] != nil && lo[i].Cmp(hi[i]) > 0 {
				return false
			}
			if lo[i] != nil && val[i].Cmp(lo[i]) < 0 {
				val[i] = lo[i]
			}
			if hi[i] != nil && val[i].Cmp(hi[i]) > 0 {
				val[i] = hi[i]
			}
			continue
		}
	}
	for _, c := range cons {
		if len(c.ts) < 2 {
			continue
		}
		s := len(val)
		r := map[int]*big.Rat{}
		v := new(big.Rat)
		for _, t := range c.ts {
			j := idx[t.a]
			co := new(big.Rat).SetInt(t.c)
			r[j] = co
			v.Add(v, new(big.Rat).Mul(co, val[j]))
		}
		rows[s] = r
		lo = append(lo, new(big.Rat).SetInt(new(big.Int).Neg(c.k)))
		hi = append(hi, nil)
		val = append(val, v)
	}
	pivots := 0
	for {
		// smallest violated basic variable (Bland)
		bi := -1
		low := false
		for b := range rows {
			if lo[b] != nil && val[b].Cmp(lo[b]) < 0 {
				if bi < 0 || b < bi {
					bi, low = b, true
				}
			} else if hi[b] != nil && val[b].Cmp(hi[b]) > 0 {
				if bi < 0 || b < bi {
					bi, low = b, false
				}
			}
		}
		if bi < 0 {
			return true
		}
		pivots++
		if pivots > 2000 {
			return true // give up: treated as feasible (sound)
		}
		r := rows[bi]
		nj := -1
		for j, c := range r {
			s := c.Sign()
			if s == 0 {
				continue
			}
			ok := false
			if low { // need to increase basic
				if s > 0 {
					ok = hi[j] == nil || val[j].Cmp(hi[j]) < 0
				} else {
					ok = lo[j] == nil || val[j].Cmp(lo[j]) > 0
				}
			} else {
				if s > 0 {
					ok = lo[j] == nil || val[j].Cmp(lo[j]) > 0
				} else {
					ok = hi[j] == nil || val[j].Cmp(hi[j]) < 0
				}
			}
			if ok && (nj < 0 || j < nj) {
				nj = j
			}
		}
		if nj < 0 {
			return false
		}
		target := lo[bi]
		if !low {
			target = hi[bi]
		}
		// pivot and update
		c := r[nj]
		theta := new(big.Rat).Quo(new(big.Rat).Sub(target, val[bi]), c)
		val[bi] = target
		val[nj] = new(big.Rat).Add(val[nj], theta)
		for b, rr := range rows {
			if b == bi {
				continue
			}
			if cc, ok := rr[nj]; ok && cc.Sign() != 0 {
				val[b] = new(big.Rat).Add(val[b], new(big.Rat).Mul(cc, theta))
			}
		}
		// new row for nj: x_nj = (x_bi - sum others)/c
		inv := new(big.Rat).Inv(c)
		nr := map[int]*big.Rat{bi: inv}
		for j, cc := range r {
			if j != nj && cc.Sign() != 0 {
				nr[j] = new(big.Rat).Neg(new(big.Rat).Mul(cc, inv))
			}
		}
		delete(rows, bi)
		for _, rr := range rows {
			cc, ok := rr[nj]
			if !ok || cc.Sign() == 0 {
				delete(rr, nj)
				continue
			}
			delete(rr, nj)
			for j, x := range nr {
				if y, ok := rr[j]; ok {
					rr[j] = new(big.Rat).Add(y, new(big.Rat).Mul(cc, x))
				} else {
					rr[j] = new(big.Rat).Mul(cc, x)
				}
			}
		}
		rows[nj] = nr
	}
}
