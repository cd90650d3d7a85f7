package main

// D01, D02: human-readable addresses.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["D01"] = checkD01
	checks["D02"] = checkD02
}

const b32Alphabet = "0123456789ABCDEFGHJKLMNPQRSTUVXY"

// Character classes of an address string. A class is a range of bytes.
type charClass struct {
	name   string
	lo, hi int64
}

var (
	ccDigit   = charClass{"digit", '0', '9'}
	ccLetters = []charClass{{"A-H", 'A', 'H'}, {"J-N", 'J', 'N'}, {"P-V", 'P', 'V'}, {"X-Y", 'X', 'Y'}}
	ccUpper   = charClass{"letter", 'A', 'Z'}
	ccOff     = []charClass{{"I", 'I', 'I'}, {"O", 'O', 'O'}, {"W", 'W', 'W'}, {"Z", 'Z', 'Z'}}
	ccLower   = charClass{"lower case", 'a', 'z'}
	ccBad     = []charClass{{"0x00-0x09", 0, 9}, {"newline", 10, 10}, {"0x0b-0x0c", 11, 12}, {"return", 13, 13}, {"0x0e-0x1f", 14, 31},
		{"0x21-0x2f", 33, 47}, {"0x3a-0x3c", 0x3a, 0x3c}, {"=", '=', '='}, {"0x3e-0x40", 0x3e, 0x40}, {"0x5b-0x60", 0x5b, 0x60}, {"0x7b-0x7f", 0x7b, 0x7f}, {"0x80-0xff", 0x80, 0xff}}
)

func (k charClass) at(i int) *Lin {
	if k.lo == k.hi {
		return cLin(k.lo)
	}
	return mkAtom("char:"+k.name, []Val{IntV{cLin(int64(i))}}, bi(k.lo), bi(k.hi)).lin()
}

func oneChar(c byte) charClass { return charClass{string(c), int64(c), int64(c)} }

// addrStr is a family of strings: the classes of the characters other than spaces, and where the spaces are.
type addrStr struct {
	what   string
	cs     []charClass
	spaces map[int]int // before character i
	valid  bool        // every character is allowed
}

func (a addrStr) seq() Seq {
	var q Seq
	sp := func(i int) { q = q.concat(constSeq([]byte(strings.Repeat(" ", a.spaces[i])))) }
	for i, k := range a.cs {
		sp(i)
		q = q.concat(byteSeq(k.at(i)))
	}
	sp(len(a.cs))
	return q
}

// decValue adds the decimal text of a character to n.
func decValue(n *Lin, k charClass, v *Lin) *Lin {
	switch {
	case k.lo >= '0' && k.hi <= '9':
		return n.mulc64(10).add(v.addc(-'0'))
	case k.lo >= 'A' && k.hi <= 'Z':
		return n.mulc64(100).add(v.addc(-'A' + 10))
	}
	panic("class " + k.name)
}

// mod97 is the remainder of the number the characters stand for, those from 4 on first.
func mod97(cs []charClass, at func(i int) *Lin) *Lin {
	n := cLin(0)
	for i := range cs {
		j := (i + 4) % len(cs)
		n = decValue(n, cs[j], at(j))
		n = n.sub(mkDiv(n, bi(97)).mulc64(97))
	}
	return n
}

var groups4 = func() map[int]int {
	m := map[int]int{}
	for i := 4; i < 36; i += 4 {
		m[i] = 1
	}
	return m
}()

// addrPatterns are the patterns of digits and letters of the 32 data characters.
func addrPatterns(thorough bool) (out []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	add(strings.Repeat("D", 32))
	add(strings.Repeat("L", 32))
	add(strings.Repeat("DL", 16))
	add(strings.Repeat("LD", 16))
	for n := 1; n < 32; n++ { // every number of letters
		add(strings.Repeat("L", n) + strings.Repeat("D", 32-n))
		if thorough || n%3 == 0 {
			add(strings.Repeat("D", 32-n) + strings.Repeat("L", n))
		}
	}
	for i := 0; i < 32; i++ { // every position of one letter, of one digit
		if thorough || i%2 == 0 {
			add(strings.Repeat("D", i) + "L" + strings.Repeat("D", 31-i))
		}
		if thorough || i%2 == 1 {
			add(strings.Repeat("L", i) + "D" + strings.Repeat("L", 31-i))
		}
	}
	return
}

func addrChars(pat string) []charClass {
	cs := []charClass{oneChar('N'), oneChar('Q'), ccDigit, ccDigit}
	for i, k := range pat {
		if k == 'D' {
			cs = append(cs, ccDigit)
		} else {
			cs = append(cs, ccLetters[i%len(ccLetters)])
		}
	}
	return cs
}

func withChar(cs []charClass, i int, k charClass) []charClass {
	out := append([]charClass(nil), cs...)
	out[i] = k
	return out
}

// addrFamilies enumerates the families of strings.
func addrFamilies(thorough bool) (out []addrStr) {
	pats := addrPatterns(thorough)
	name := func(p string) string {
		return fmt.Sprintf("data characters %s", p)
	}
	for _, p := range pats {
		out = append(out, addrStr{name(p), addrChars(p), nil, true})
	}
	base := []string{strings.Repeat("D", 32), strings.Repeat("DL", 16)}
	if thorough {
		base = append(base, strings.Repeat("L", 32), strings.Repeat("LD", 16), strings.Repeat("DDL", 11)[:32])
	}
	for bi, p := range base {
		cs := addrChars(p)
		// spaces
		for i, sp := range []map[int]int{groups4, {0: 1}, {36: 1}, {0: 3, 1: 2, 17: 4, 35: 1, 36: 5}, {4: 60}} {
			out = append(out, addrStr{fmt.Sprintf("%s, spaces %d", name(p), i), cs, sp, true})
		}
		// country code
		for i := 0; i < 2; i++ {
			for _, k := range append([]charClass{ccDigit, {"A-M", 'A', 'M'}, {"O-P", 'O', 'P'}, {"R-Z", 'R', 'Z'}, {"lower case n", 'n', 'n'}, {"lower case q", 'q', 'q'}, {"NQ swapped", int64("QN"[i]), int64("QN"[i])}}, ccBad...) {
				out = append(out, addrStr{fmt.Sprintf("%s, character %d is %s", name(p), i, k.name), withChar(cs, i, k), groups4, false})
			}
		}
		// other characters
		for i := 2; i < 36; i++ {
			ks := append([]charClass(nil), ccBad...)
			if i >= 4 {
				ks = append(append(ks, ccOff...), ccLower)
			}
			for j, k := range ks {
				if !thorough && (i+j+bi)%4 != 0 && i != 35 && i != 4 {
					continue
				}
				out = append(out, addrStr{fmt.Sprintf("%s, character %d is %s", name(p), i, k.name), withChar(cs, i, k), nil, false})
			}
		}
		// one character too many
		for _, i := range []int{0, 2, 4, 8, 21, 36} {
			for _, k := range append([]charClass{ccDigit, ccUpper, ccLower}, ccBad...) {
				l := append(append(append([]charClass(nil), cs[:i]...), k), cs[i:]...)
				out = append(out, addrStr{fmt.Sprintf("%s, %s before character %d", name(p), k.name, i), l, nil, false})
			}
		}
		// lengths
		for _, n := range []int{0, 1, 2, 3, 4, 5, 12, 20, 28, 34, 35, 37, 38, 40, 44, 72} {
			l := append([]charClass(nil), cs...)
			for len(l) < n {
				l = append(l, l[4+len(l)%32])
			}
			l = l[:n]
			out = append(out, addrStr{fmt.Sprintf("%s, %d characters", name(p), n), l, nil, false})
			out = append(out, addrStr{fmt.Sprintf("%s, %d characters and %d spaces", name(p), n, max(36-n, 1)), l, map[int]int{0: max(36-n, 1)}, false})
			out = append(out, addrStr{fmt.Sprintf("%s, %d characters and %d trailing spaces", name(p), n, max(36-n, 1)), l, map[int]int{n: max(36-n, 1)}, false})
		}
	}
	return
}

// decodeAddr runs Decode.
func (c *Ctx) decodeAddr(fn *ssa.Function, st *State, q Seq, what string, f func(o Outcome)) {
	ip := newInterp()
	ip.unrollAll = true
	outs := c.run(ip, "address.Decode", func() []Outcome { return ip.exec(st, fn, []Val{SeqV{q}}, nil, 0) })
	n := 0
	for _, o := range outs {
		if infeasible(o.st.f) {
			continue
		}
		if o.pan != nil {
			c.mustSt(false, o.st, "no panic", o.pan.String(), "%s: %s", what, o.pan)
			continue
		}
		c.must(true, "no panic", fnPos(fn), "%s", what)
		n++
		f(o)
	}
	c.must(n > 0, "anchored", fnPos(fn), "Decode has a path that returns for %s", what)
}

// failed reports whether the error result is set.
func failed(f *Facts, v Val) int {
	e, ok := v.(IfaceV)
	if !ok {
		return -1
	}
	return 1 - f.decide(isNilVal(e))
}

func checkD01(c *Ctx) {
	c.explained = "Decode is analysed on families of strings: the length, the spaces and the class of every character are fixed, the characters are symbolic. All data patterns over digits and letters with a given number of letters in front or at the end, alternating patterns and single flips; one character of every other class in every position; other lengths; other countries. A family with a disallowed character, length or country must fail on every path. A valid family must succeed exactly on the paths where the number the characters stand for leaves 1 when divided by 97, with the base-32 value of the 32 data characters as result."
	c.assume = append(c.assume, "The patterns of digits and letters are enumerated, not all 2^32 of them. Letters in place of the two check digits are not considered.")
	fn := repoFn("address", "Decode")
	if !c.must(fn != nil, "anchored", "address", "Decode") {
		return
	}
	P.body(fn)
	for _, a := range addrFamilies(c.thorough) {
		if len(c.viol) > 40 {
			break
		}
		okPaths, errPaths := 0, 0
		var check *Lin
		if a.valid {
			check = mod97(a.cs, func(i int) *Lin { return a.cs[i].at(i) })
		}
		c.decodeAddr(fn, newState(), a.seq(), a.what, func(o Outcome) {
			switch failed(o.st.f, o.ret[1]) {
			case 1:
				errPaths++
				if a.valid {
					c.mustSt(o.st.f.decide(bEq0(check.addc(-1))) == 0, o.st, "valid accepted", fnPos(fn), "%s: rejected although the checksum may be right", a.what)
				}
			case 0:
				okPaths++
				if !c.mustSt(a.valid, o.st, "rejected", fnPos(fn), "%s: accepted", a.what) {
					return
				}
				c.mustSt(o.st.f.entailsEq(check, cLin(1)), o.st, "checksum", fnPos(fn), "%s: accepted although the checksum may be wrong", a.what)
				var data Seq
				for i := 4; i < 36; i++ {
					data = data.concat(byteSeq(a.cs[i].at(i)))
				}
				want := rawSeq(mkSym("unbase32", StrLit(b32Alphabet), SeqV{data}), cLin(0), cLin(20))
				got, ok := retBytes(o.ret[0])
				c.mustSt(ok && seqEqual(o.st.f, got, want), o.st, "value", fnPos(fn), "%s: the result is %s", a.what, clip(got.Key(), 200))
			default:
				c.mustSt(false, o.st, "decided", fnPos(fn), "%s: the error is %s", a.what, o.ret[1].Key())
			}
		})
		if a.valid {
			c.must(okPaths > 0 && errPaths > 0, "checksum decides", fnPos(fn), "%s: %d paths succeed, %d fail", a.what, okPaths, errPaths)
		}
	}
}

func checkD02(c *Ctx) {
	c.explained = "Encode is analysed for a symbolic address whose 32 base-32 characters follow a pattern of digits and letters, the characters being symbolic: the result must be NQ, two digits d1 d2, and the characters in groups of four, each after a space, with 10*d1+d2 = 98 - (N mod 97), N being the number that the data characters followed by NQ00 stand for. Decoding the result must succeed with the same 20 bytes. The address must not change."
	c.assume = append(c.assume, "The patterns of digits and letters are enumerated, not all 2^32 of them. base32 is taken from the standard library.")
	enc, dec := repoFn("address", "Encode"), repoFn("address", "Decode")
	if !c.must(enc != nil && dec != nil, "anchored", "address", "Encode and Decode") {
		return
	}
	P.body(enc)
	P.body(dec)
	s := mkSym("addr")
	T := enc.Signature.Params().At(0).Type()
	src := rawSeq(s, cLin(0), cLin(20))
	for _, p := range addrPatterns(c.thorough) {
		if len(c.viol) > 40 {
			break
		}
		b32Class = p
		data, _ := b32Encode(b32Alphabet, src)
		cs := []charClass{oneChar('N'), oneChar('Q'), oneChar('0'), oneChar('0')}
		for i := range p {
			if p[i] == 'D' {
				cs = append(cs, ccDigit)
			} else {
				cs = append(cs, ccUpper)
			}
		}
		st := newState()
		at := func(i int) *Lin {
			if i < 4 {
				return cLin(cs[i].lo)
			}
			return st.byteAt(data, cLin(int64(i-4)))
		}
		n00 := mod97(cs, at)
		var arg Val
		if pt := ptrElem(T); pt != nil {
			arg = PtrV{obj: lazyObj(s, pt)}
		} else {
			arg = symVal(T, s)
		}
		ip := newInterp()
		ip.unrollAll = true
		outs := c.run(ip, "address.Encode", func() []Outcome { return ip.exec(st, enc, []Val{arg}, nil, 0) })
		n := 0
		for _, o := range outs {
			if infeasible(o.st.f) {
				continue
			}
			what := "data characters " + p
			if !c.mustSt(o.pan == nil, o.st, "no panic", fnPos(enc), "%s: %v", what, o.pan) {
				continue
			}
			n++
			got, ok := retBytes(o.ret[0])
			if !c.mustSt(ok && o.st.f.entailsEq(got.length(), cLin(44)), o.st, "layout", fnPos(enc), "%s: the result is %s", what, clip(o.ret[0].Key(), 300)) {
				continue
			}
			b := func(i int64) *Lin { return o.st.byteAt(got, cLin(i)) }
			okL := o.st.f.entailsEq(b(0), cLin('N')) && o.st.f.entailsEq(b(1), cLin('Q'))
			for i := int64(0); i < 40; i++ {
				want := cLin(' ')
				if i%5 != 0 {
					want = at(int(4 + i/5*4 + i%5 - 1))
				}
				okL = okL && o.st.f.entailsEq(b(4+i), want)
			}
			c.mustSt(okL, o.st, "layout", fnPos(enc), "%s: the result is %s", what, clip(got.Key(), 300))
			d1, d2 := b(2).addc(-'0'), b(3).addc(-'0')
			for _, d := range []*Lin{d1, d2} {
				c.mustSt(o.st.f.entails(d) && o.st.f.entails(cLin(9).sub(d)), o.st, "check digits", fnPos(enc), "%s: a check digit is %s", what, clip(d.Key(), 300))
			}
			c.mustSt(o.st.f.entailsEq(d1.mulc64(10).add(d2), cLin(98).sub(n00)), o.st, "check digits", fnPos(enc), "%s: the check digits are %s and %s", what, clip(d1.Key(), 200), clip(d2.Key(), 200))
			c.unmodified(o, "unmodified", fnPos(enc), "Encode")
			c.decodeAddr(dec, o.st, got, "the text of an address with "+what, func(o Outcome) {
				if !c.mustSt(failed(o.st.f, o.ret[1]) == 0, o.st, "round trip", fnPos(dec), "%s: the text is rejected", what) {
					return
				}
				back, ok := retBytes(o.ret[0])
				c.mustSt(ok && seqEqual(o.st.f, back, src), o.st, "round trip", fnPos(dec), "%s: decoding gives %s", what, clip(back.Key(), 200))
			})
		}
		c.must(n > 0, "anchored", fnPos(enc), "Encode returns for data characters %s", p)
	}
	b32Class = ""
}

func ptrElem(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}
