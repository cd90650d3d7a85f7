package main

// Models of text assembly: formats, joining, trimming, writers.

import (
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"strings"
)

// formatted is the text of format f with operands vs, if its verbs are understood.
func (ip *Interp) formatted(st *State, f string, vs []Val, pos token.Pos) (q Seq, ok bool) {
	next := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			q = q.concat(constSeq([]byte{f[i]}))
			continue
		}
		i++
		if i == len(f) {
			return q, false
		}
		if f[i] == '%' {
			q = q.concat(constSeq([]byte{'%'}))
			continue
		}
		zero, width := false, int64(0)
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			if f[i] == '0' && width == 0 {
				zero = true
			}
			width = width*10 + int64(f[i]-'0')
			if width > 64 {
				return q, false
			}
		}
		if i == len(f) || next == len(vs) || width > 0 && !zero {
			return q, false
		}
		d, ok := ip.operand(st, f[i], vs[next], width, pos)
		if !ok {
			return q, false
		}
		next++
		q = q.concat(d)
	}
	return q, next == len(vs)
}

// ownText: values of type t format themselves.
func ownText(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, m := range []string{"Error", "String", "Format", "GoString"} {
		if ms.Lookup(nil, m) != nil {
			return true
		}
	}
	return false
}

func (ip *Interp) operand(st *State, verb byte, v Val, width int64, pos token.Pos) (Seq, bool) {
	x, ok := v.(IfaceV)
	if !ok || x.typ == nil || ownText(x.typ) {
		return Seq{}, false
	}
	if iv, isInt := x.v.(IntV); isInt {
		switch verb {
		case 'd', 'v':
			if width > 0 {
				return padded(st.f, iv.L, width)
			}
			q := decimal(st.f, iv.L)
			return q, len(q.segs) > 0
		case 'c':
			if width == 0 && st.f.entails(iv.L) && st.f.entails(cLin(127).sub(iv.L)) {
				return byteSeq(iv.L), true
			}
		}
		return Seq{}, false
	}
	if width > 0 {
		return Seq{}, false
	}
	str := false
	if b, isB := under(x.typ).(*types.Basic); isB {
		if b.Info()&types.IsString == 0 {
			return Seq{}, false
		}
		str = true
	} else if !byteList(x.typ) {
		return Seq{}, false
	}
	var q Seq
	switch y := x.v.(type) {
	case SeqV:
		q = y.S
	case SliceV:
		q = st.bytesOf(y, pos)
	case NodeV:
		b, isB := expand(y.N).(BytesN)
		if !isB {
			return Seq{}, false
		}
		q = b.S
	default:
		return Seq{}, false
	}
	switch {
	case verb == 's', verb == 'v' && str:
		return q, true
	case verb == 'x':
		return hexText(q), true
	}
	return Seq{}, false
}

func byteList(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Array:
		return isByte(u.Elem())
	}
	return false
}

func hexText(q Seq) Seq {
	return rawSeq(mkSym("hex", SeqV{q}), cLin(0), q.length().mulc64(2))
}

// padded is v in decimal with leading zeros up to width.
func padded(f *Facts, v *Lin, width int64) (Seq, bool) {
	if width > 18 || !f.entails(v) || !f.entails(bLin(pow10(width)).addc(-1).sub(v)) {
		return Seq{}, false
	}
	var q Seq
	high := cLin(0)
	for i := width - 1; i >= 0; i-- {
		d := v
		if i > 0 {
			d = mkDiv(v, pow10(i))
		}
		q = q.concat(byteSeq(d.sub(high.mulc64(10)).addc('0')))
		high = d
	}
	return q, true
}

func pow10(n int64) *big.Int { return new(big.Int).Exp(bi(10), bi(n), nil) }

// variadic lists the operands of a call with a ...interface{} parameter.
func (ip *Interp) variadic(st *State, v Val, pos token.Pos) ([]Val, bool) {
	sl, ok := v.(SliceV)
	if !ok || sl.obj == nil {
		return nil, ok
	}
	n, isC := sl.len.constVal()
	if !isC || n > 128 {
		return nil, false
	}
	var vs []Val
	et := types.Type(nil)
	if a, isA := under(sl.obj.typ).(*types.Array); isA {
		et = a.Elem()
	} else if a, isA := under(sl.obj.typ).(*types.Slice); isA {
		et = a.Elem()
	}
	for i := int64(0); i < n; i++ {
		vs = append(vs, nodeVal(st.readNode(st.content(sl.obj), sliceElem(sl, cLin(i)).path, pos), et))
	}
	return vs, true
}

// writeText writes q to w as one Write call.
func (ip *Interp) writeText(st *State, w Val, q Seq, pos token.Pos) ([]Outcome, bool) {
	i, ok := w.(IfaceV)
	if !ok || i.typ == nil {
		return nil, false
	}
	if r, ok := ip.specialRecv(st, i, "Write", []Val{SeqV{q}}, pos); ok {
		return r, true
	}
	switch i.typ.String() {
	case "*bytes.Buffer", "*strings.Builder":
		return ip.bufMethod(st, "Write", []Val{i.v, SeqV{q}}, pos)
	}
	return nil, false
}

func init() { textModels() }

func textModels() {
	models["fmt.Sprintf"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if f, ok := constStr(c.args[0]); ok {
			if vs, ok := ip.variadic(st, c.args[1], c.pos); ok {
				if q, ok := ip.formatted(st, f, vs, c.pos); ok {
					return ret1(st, SeqV{q})
				}
			}
		}
		return ip.sprintf(st, c)
	}
	models["fmt.Fprintf"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		f, ok := constStr(c.args[1])
		if !ok {
			return nil, false
		}
		vs, ok := ip.variadic(st, c.args[2], c.pos)
		if !ok {
			return nil, false
		}
		q, ok := ip.formatted(st, f, vs, c.pos)
		if !ok {
			return nil, false
		}
		return ip.writeText(st, c.args[0], q, c.pos)
	}
	models["fmt.Fprint"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		vs, ok := ip.variadic(st, c.args[1], c.pos)
		if !ok || len(vs) != 1 {
			return nil, false
		}
		q, ok := ip.formatted(st, "%v", vs, c.pos)
		if !ok {
			return nil, false
		}
		return ip.writeText(st, c.args[0], q, c.pos)
	}
	models["fmt.Sprint"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		vs, ok := ip.variadic(st, c.args[0], c.pos)
		if !ok || len(vs) != 1 {
			return nil, false
		}
		q, ok := ip.formatted(st, "%v", vs, c.pos)
		if !ok {
			return nil, false
		}
		return ret1(st, SeqV{q})
	}
	models["io.WriteString"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		return ip.writeText(st, c.args[0], ip.seqArg(st, c.args[1], c.pos), c.pos)
	}
	for _, p := range []string{"strings.", "bytes."} {
		p := p
		res := func(st *State, q Seq) Val {
			if p == "bytes." {
				return mkByteSlice(st, q, p)
			}
			return SeqV{q}
		}
		models[p+"Join"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			vs, ok := ip.variadic(st, c.args[0], c.pos)
			if !ok {
				return nil, false
			}
			sep := ip.seqArg(st, c.args[1], c.pos)
			var q Seq
			for i, v := range vs {
				if i > 0 {
					q = q.concat(sep)
				}
				q = q.concat(ip.seqArg(st, v, c.pos))
			}
			return ret1(st, res(st, q))
		}
		models[p+"Repeat"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			n, ok := c.args[1].(IntV).L.constVal()
			if !ok || n < 0 || n > 256 {
				return nil, false
			}
			s := ip.seqArg(st, c.args[0], c.pos)
			var q Seq
			for ; n > 0; n-- {
				q = q.concat(s)
			}
			return ret1(st, res(st, q))
		}
		find := func(ip *Interp, st *State, c *Call) ([]int64, bool) {
			q := ip.seqArg(st, c.args[0], c.pos)
			n, ok := q.length().constVal()
			if !ok || n > 4096 {
				return nil, false
			}
			var b *Lin
			if i, isI := c.args[1].(IntV); isI {
				b = i.L
				if v, isC := b.constVal(); !isC || v < 0 || v > 127 {
					return nil, false
				}
			} else if s := ip.seqArg(st, c.args[1], c.pos); s.length().isConst() {
				d, isC := s.constBytes()
				if !isC || len(d) != 1 || d[0] > 127 {
					return nil, false
				}
				b = cLin(int64(d[0]))
			} else {
				return nil, false
			}
			var at []int64
			for i := int64(0); i < n; i++ {
				switch st.f.decide(bEq0(st.byteAt(q, cLin(i)).sub(b))) {
				case 1:
					at = append(at, i)
				case 0:
				default:
					return nil, false
				}
			}
			return at, true
		}
		if p == "strings." {
			split := models["strings.Split"]
			models["strings.Split"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
				if o, ok := split(ip, st, c); ok {
					return o, ok
				}
				at, ok := find(ip, st, c)
				if !ok {
					return nil, false
				}
				q := ip.seqArg(st, c.args[0], c.pos)
				at = append(at, q.length().k.Int64())
				n := cLin(int64(len(at)))
				o := freshArr(types.Typ[types.String], n, P.pos(c.pos))
				an := o.init.(ArrN)
				from := int64(0)
				for i, to := range at {
					part, ok := q.slice(st.f, cLin(from), cLin(to))
					if !ok {
						return nil, false
					}
					an.ups = append(an.ups, upd{idx: cLin(int64(i)), node: LeafN{SeqV{part}}})
					from = to + 1
				}
				o.init = an
				return ret1(st, SliceV{obj: o, off: cLin(0), len: n, cap: n})
			}
		}
		for _, m := range []string{"Index", "IndexByte", "IndexRune", "LastIndex", "LastIndexByte", "Contains", "ContainsRune", "Count"} {
			m := m
			models[p+m] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
				at, ok := find(ip, st, c)
				if !ok {
					return nil, false
				}
				switch {
				case strings.HasPrefix(m, "Contains"):
					return ret1(st, BoolV{cBool(len(at) > 0)})
				case m == "Count":
					return ret1(st, IntV{cLin(int64(len(at)))})
				case len(at) == 0:
					return ret1(st, IntV{cLin(-1)})
				case strings.HasPrefix(m, "Last"):
					return ret1(st, IntV{cLin(at[len(at)-1])})
				}
				return ret1(st, IntV{cLin(at[0])})
			}
		}
		// Map calls its function on every character in turn.
		models[p+"Map"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			q := ip.seqArg(st, c.args[1], c.pos)
			n, ok := q.length().constVal()
			if !ok || n > 256 {
				return nil, false
			}
			type part struct {
				st *State
				q  Seq
			}
			parts := []part{{st, Seq{}}}
			var out []Outcome
			for i := int64(0); i < n; i++ {
				var next []part
				for _, pt := range parts {
					b := pt.st.byteAt(q, cLin(i))
					if !pt.st.f.entails(cLin(127).sub(b)) {
						return nil, false
					}
					for _, o := range ip.callVal(pt.st, c.args[0], []Val{IntV{b}}, nil, c.pos, c.fr) {
						if o.pan != nil {
							out = append(out, o)
							continue
						}
						r, isI := o.ret[0].(IntV)
						if !isI {
							return nil, false
						}
						keep, drop := split(o.st, bGe0(r.L), c.pos)
						for _, s := range keep {
							if !s.f.entails(cLin(127).sub(r.L)) {
								return nil, false
							}
							next = append(next, part{s, pt.q.concat(byteSeq(r.L))})
						}
						for _, s := range drop {
							next = append(next, part{s, pt.q})
						}
					}
				}
				if len(next) > 256 {
					return nil, false
				}
				parts = next
			}
			for _, pt := range parts {
				out = append(out, Outcome{st: pt.st, ret: []Val{res(pt.st, pt.q)}})
			}
			return out, true
		}
	}
	models["bytes.Clone"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		s, ok := c.args[0].(SliceV)
		if !ok {
			return nil, false
		}
		r := mkByteSlice(st, st.bytesOf(s, c.pos), "bytes.Clone")
		if nx := isNilVal(s); nx.op != bConst || nx.val {
			r.null = nx
		}
		return ret1(st, r)
	}
	models["strings.Clone"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		return ret1(st, SeqV{ip.seqArg(st, c.args[0], c.pos)})
	}
	for _, n := range []string{"NewBuffer", "NewBufferString"} {
		models["bytes."+n] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
			o := freshObj(c.res.At(0).Type().(*types.Pointer).Elem(), P.pos(c.pos))
			o.init = LeafN{SeqV{ip.seqArg(st, c.args[0], c.pos)}}
			return ret1(st, PtrV{obj: o})
		}
	}
	models["encoding/hex.Encode"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		dst, ok := c.args[0].(SliceV)
		if !ok {
			return nil, false
		}
		q := hexText(ip.seqArg(st, c.args[1], c.pos))
		oks, ps := ip.require(st, bGe0(dst.len.sub(q.length())), c.pos, "index out of range")
		var out []Outcome
		for _, s := range oks {
			s.writeBytes(dst, cLin(0), q, c.pos)
			out = append(out, Outcome{st: s, ret: []Val{IntV{q.length()}}})
		}
		for _, p := range ps {
			out = append(out, Outcome{st: p.st, pan: p.pan})
		}
		return out, true
	}
	models["encoding/hex.EncodedLen"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		return ret1(st, IntV{c.args[0].(IntV).L.mulc64(2)})
	}
	models["math/bits.Reverse8"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		x := c.args[0].(IntV).L
		if v, ok := x.constVal(); ok {
			return ret1(st, IntV{cLin(int64(bits.Reverse8(uint8(v))))})
		}
		return ret1(st, IntV{mkAtom("rev8", []Val{IntV{x}}, big0, bi(255)).lin()})
	}
	models["io.ReadFull"] = readFull
	for _, n := range []string{
		"strings.TrimPrefix", "strings.TrimSuffix", "strings.HasSuffix", "strings.CutPrefix", "strings.CutSuffix",
		"internal/stringslite.TrimPrefix", "internal/stringslite.TrimSuffix", "internal/stringslite.HasPrefix", "internal/stringslite.HasSuffix",
		"internal/stringslite.CutPrefix", "internal/stringslite.CutSuffix",
		"bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.HasSuffix", "bytes.CutPrefix",
		"bytes.NewReader", "(*bytes.Reader).Read", "(*bytes.Reader).ReadByte", "(*bytes.Reader).Len", "(*bytes.Reader).Size", "(*bytes.Reader).ReadAt",
		"strings.NewReader", "(*strings.Reader).Read", "(*strings.Reader).ReadByte", "(*strings.Reader).Len",
	} {
		interpFn[n] = true
	}
}

// readFull models io.ReadFull from a bytes.Reader or strings.Reader.
func readFull(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
	r, ok := c.args[0].(IfaceV)
	dst, ok2 := c.args[1].(SliceV)
	if !ok || !ok2 || r.typ == nil || r.typ.String() != "*bytes.Reader" && r.typ.String() != "*strings.Reader" {
		return nil, false
	}
	p, ok := r.v.(PtrV)
	if !ok || p.obj == nil {
		return nil, false
	}
	s, ok := expand(st.load(p, c.pos)).(StructN)
	if !ok || len(s.fs) != 3 {
		return nil, false
	}
	at, ok := nodeVal(s.fs[1], types.Typ[types.Int64]).(IntV)
	src := nodeVal(s.fs[0], under(s.typ).(*types.Struct).Field(0).Type())
	if !ok {
		return nil, false
	}
	all := ip.seqArg(st, src, c.pos)
	have := all.length().sub(at.L)
	var out []Outcome
	fail := false
	put := func(st *State, n *Lin, err Val) {
		q, ok := all.slice(st.f, at.L, at.L.add(n))
		if !ok {
			fail = true
			return
		}
		st.writeBytes(dst, cLin(0), q, c.pos)
		st.store(PtrV{obj: p.obj, path: append(append([]PE(nil), p.path...), PE{field: 1}), null: p.null}, LeafN{IntV{at.L.add(n)}}, c.pos)
		st.store(PtrV{obj: p.obj, path: append(append([]PE(nil), p.path...), PE{field: 2}), null: p.null}, LeafN{IntV{cLin(-1)}}, c.pos)
		out = append(out, Outcome{st: st, ret: []Val{IntV{n}, err}})
	}
	enough, short := split(st, bGe0(have.sub(dst.len)), c.pos)
	for _, s := range enough {
		put(s, dst.len, nilErr)
	}
	for _, s := range short {
		none, some := split(s, bGe0(have.neg()), c.pos)
		for _, s := range none {
			out = append(out, Outcome{st: s, ret: []Val{IntV{cLin(0)}, newErr("EOF")}})
		}
		for _, s := range some {
			put(s, have, newErr("ErrUnexpectedEOF"))
		}
	}
	return out, !fail
}
