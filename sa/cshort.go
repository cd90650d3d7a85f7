package main

// C13: input that ends too early is reported as such.

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// errWraps are the errors an error made by fmt.Errorf wraps.
var errWraps = map[string][]Val{}

// wrapVerbs gives the arguments a format wraps.
func wrapVerbs(format string) (out []int) {
	arg := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0.123456789*[]", format[i]) >= 0 {
			switch format[i] {
			case '*':
				arg++
			case '[':
				n, j := 0, i+1
				for j < len(format) && format[j] >= '0' && format[j] <= '9' {
					n = n*10 + int(format[j]-'0')
					j++
				}
				if j > i+1 && j < len(format) && format[j] == ']' {
					arg = n - 1
					i = j
				}
			}
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' {
			out = append(out, arg)
		}
		arg++
	}
	return out
}

func errorfModel(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	e := newErr("Errorf")
	if f, ok := constStr(c.args[0]); ok && len(c.args) > 1 {
		if sl, ok := c.args[1].(SliceV); ok && sl.obj != nil {
			for _, k := range wrapVerbs(f) {
				if k >= 0 && st.f.entails(sl.len.addc(int64(-k-1))) {
					if v, ok := nodeVal(expand(st.load(sliceElem(sl, cLin(int64(k))), c.pos)), errType).(IfaceV); ok {
						errWraps[e.Key()] = append(errWraps[e.Key()], v)
					}
				}
			}
		}
	}
	return ret1(st, e)
}

// causes are the errors in the chain of an error.
func (c *Ctx) causes(st *State, v Val, depth int) []IfaceV {
	e, ok := v.(IfaceV)
	if !ok || depth > 12 {
		return nil
	}
	out := []IfaceV{e}
	for _, w := range errWraps[e.Key()] {
		out = append(out, c.causes(st, w, depth+1)...)
	}
	if e.typ != nil && methodSel(e.typ, "Unwrap") != nil {
		ip := newInterp()
		for _, o := range c.callMethod(ip, st, e, "Unwrap") {
			if len(o.ret) == 1 {
				out = append(out, c.causes(o.st, o.ret[0], depth+1)...)
			}
		}
	}
	return out
}

// shortInput reports whether a path exists only because the input is too short: with all numbers in it
// small, it can not be taken by a very long input.
func shortInput(f *Facts) bool {
	g := f.clone()
	n := lenIn()
	small := new(big.Int).Lsh(big1, 20)
	seen := map[*Atom]bool{}
	var visit func(l *Lin)
	visit = func(l *Lin) {
		for _, t := range l.ts {
			if seen[t.a] || strings.Contains(t.a.key, "len(In") || strings.HasPrefix(t.a.key, "cap(In") {
				continue
			}
			seen[t.a] = true
			if lo, hi := g.atomBounds(t.a); (lo == nil || lo.Cmp(small) < 0) && (hi == nil || hi.Cmp(small) > 0) {
				g.addGE((&Lin{ts: []term{{t.a, big.NewInt(-1)}}, k: small}))
			}
			for _, d := range t.a.defs {
				visit(d)
			}
		}
	}
	for _, l := range f.ge {
		visit(l)
	}
	g.addGE(n.addc(-1 << 39))
	return infeasible(g)
}

func (c *Ctx) classify(what, where string, outs []Outcome, at int, eof Val) {
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		_, no := split(o.st, isNilVal(o.ret[at]), 0)
		for _, st := range no {
			if infeasible(st.f) {
				continue
			}
			isEOF, inner := false, false
			for _, e := range c.causes(st, o.ret[at], 0) {
				if e.Key() == eof.Key() {
					isEOF = true
				}
				if e.sym != nil && strings.HasPrefix(e.sym.head, "err:codec:") {
					inner = true
				}
			}
			short := shortInput(st.f)
			if isEOF {
				c.mustSt(short, st, "only if short", where, "%s reports an unexpected end of the input, although the input may go on", what)
				continue
			}
			if inner {
				c.must(true, "cause kept", where, "%s passes on the error of an item within", what)
				continue
			}
			c.mustSt(!short, st, "short is reported", where, "%s of an input that ends too early fails without reporting an unexpected end", what)
			lost := ""
			for _, k := range sortedKeys(st.f.preds) {
				if p := st.f.preds[k]; p.b != nil && p.b.head == "valid" && !p.val {
					lost = k
				}
			}
			c.mustSt(lost == "", st, "cause kept", where, "%s fails because of an item within, and drops the reason (%s)", what, lost)
		}
	}
}

func checkC13(c *Ctx) {
	c.explained = "Every decoder is analysed for an input of symbolic content and length. A path that fails because of the length of the input (it can not be taken by a very long input with the same start) must return an error whose chain (fmt.Errorf with %w, Unwrap methods) holds beserial.ErrUnexpectedEOF; every other failing path must not; a failure of an item within must be kept in the chain. The same for UnmarshalFull and UnmarshalMessage."
	g, ok := P.pkg("beserial").Members["ErrUnexpectedEOF"].(*ssa.Global)
	if !c.must(ok, "anchored", "beserial.ErrUnexpectedEOF", "the error variable") {
		return
	}
	eof := nodeVal(expand(newState().content(globalObj(g))), errType)
	c.must(!isNilVal(eof).val, "anchored", "beserial.ErrUnexpectedEOF", "the error variable holds an error")
	c.shortDecodes(eof)
	_, outs := c.runMessage()
	c.classify("UnmarshalMessage", fnPos(repoFn("wire", "UnmarshalMessage")), outs, 1, eof)
	// the generic codec on types using all of it
	good, _ := c.witnesses()
	codecTypes = good
	c.shortDecodes(eof)
}

func (c *Ctx) shortDecodes(eof Val) {
	c.eachDecode(func(d *decRun) {
		c.classify("decoding a "+d.name, typePos(d.T), d.outs, 1, eof)
	})
	for _, name := range codecTypes {
		T := codecTyp(name)
		if T == nil {
			continue
		}
		ip := newInterp()
		ip.preHook = codecContracts(name)
		outs := c.run(ip, "beserial.UnmarshalFull(*"+name+")", func() []Outcome {
			_, o := decodeRoot(ip, T, "UnmarshalFull")
			return o
		})
		c.noPanics("UnmarshalFull", outs)
		c.classify("UnmarshalFull of a "+name, fnPos(repoFn("beserial", "UnmarshalFull")), outs, 0, eof)
	}
}
