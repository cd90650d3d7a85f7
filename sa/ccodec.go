package main

// Checks of the codec properties C01-C05, C07-C09.

import (
	"go/types"
)

// decRun is an abstract decode of one wire type.
type decRun struct {
	name string
	T    types.Type
	ip   *Interp
	obj  *Obj
	outs []Outcome
	ok   bool
}

func decErr(o Outcome, i int) *Bool {
	return isNilVal(o.ret[i])
}

// decode decodes the symbolic input In as the named type.
func (c *Ctx) decode(name string, T types.Type) *decRun {
	d := &decRun{name: name, T: T, ip: newInterp()}
	d.ip.preHook = codecContracts(name)
	n := len(c.viol)
	d.outs = c.run(d.ip, "beserial.Unmarshal(*"+name+")", func() []Outcome {
		o, outs := decodeRoot(d.ip, T, "Unmarshal")
		d.obj = o
		return outs
	})
	d.ok = len(c.viol) == n
	return d
}

func lenIn() *Lin { return symLen(mkSym("In")) }

// each calls f for every wire type's decode.
func (c *Ctx) eachDecode(f func(d *decRun)) {
	for _, name := range codecTypes {
		T := codecTyp(name)
		if T == nil {
			c.must(false, "anchored", "wire", "wire type %s is missing", name)
			continue
		}
		if d := c.decode(name, T); d.ok {
			f(d)
		}
	}
}

func typePos(T types.Type) string {
	if n, ok := types.Unalias(T).(*types.Named); ok {
		if n.Obj().Pkg() == witnessPkg {
			return "beserial (witness type " + n.Obj().Name() + ")"
		}
		return P.pos(n.Obj().Pos())
	}
	return T.String()
}

func (c *Ctx) noPanics(root string, outs []Outcome) {
	n := 0
	for _, o := range outs {
		if o.pan != nil {
			n++
			c.oblig++
			c.fail("no panic", P.pos(o.pan.pos), o.st, "%s can panic: %s", root, o.pan)
		}
	}
	if n == 0 {
		c.must(true, "no panic", root, "%d paths of %s, none panics", len(outs), root)
	}
}

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C05"] = checkC05
}

func checkC01(c *Ctx) {
	c.explained = "Every path of every decoder on an input of symbolic content and length; index, slice, conversion, nil and explicit panics must be infeasible."
	c.eachDecode(func(d *decRun) { c.noPanics("decoding a "+d.name, d.outs) })
	// the other entry points
	for _, name := range codecTypes {
		T := codecTyp(name)
		if T == nil {
			continue
		}
		ip := newInterp()
		ip.preHook = codecContracts(name)
		outs := c.run(ip, "beserial.UnmarshalFull(*"+name+")", func() []Outcome {
			_, o := decodeRoot(ip, T, "UnmarshalFull")
			return o
		})
		c.noPanics("UnmarshalFull of a "+name, outs)
		// calling the type's own decoder directly
		if m := methodOf(T, "UnmarshalBESerial"); m != nil {
			ip := newInterp()
			ip.preHook = codecContracts(name)
			fn := P.prog.FuncValue(m)
			outs := c.run(ip, "(*"+name+").UnmarshalBESerial", func() []Outcome {
				P.body(fn)
				st := newState()
				obj := freshObj(T, "decoded value")
				return ip.exec(st, fn, []Val{PtrV{obj: obj}, symSlice("In")}, nil, 0)
			})
			c.noPanics(name+".UnmarshalBESerial", outs)
		}
	}
	if witnessPkg != nil {
		return
	}
	ip := newInterp()
	ip.preHook = codecContracts("")
	outs := c.run(ip, "wire.UnmarshalMessage", func() []Outcome {
		fn := repoFn("wire", "UnmarshalMessage")
		return ip.exec(newState(), fn, []Val{symVal(fn.Params[0].Type(), mkSym("ID")), symSlice("In")}, nil, 0)
	})
	c.noPanics("wire.UnmarshalMessage", outs)
}

func (c *Ctx) walker(d *decRun) *walker {
	return &walker{c: c, src: mkSym("In"), n: lenIn(), root: d.name, where: typePos(d.T)}
}

func checkC02(c *Ctx) {
	c.explained = "For every path of every decoder the returned count is compared with the input length and, on success, with the end of the item computed from the layout."
	c.eachDecode(func(d *decRun) {
		for _, o := range d.outs {
			if o.pan != nil {
				continue
			}
			n := d.ip.intv(o.ret[0], 0)
			w := c.walker(d)
			c.mustSt(o.st.f.entails(n) && o.st.f.entails(lenIn().sub(n)), o.st, "0<=n<=len", w.where, "decoding a %s reports %s bytes", d.name, n.Key())
			yes, _ := split(o.st, decErr(o, 1), 0)
			for _, st := range yes {
				w.item(st, nil, nil, ref(d.name), cLin(0), "", func(st *State, end *Lin) {
					if infeasible(st.f) {
						return
					}
					c.mustSt(st.f.entailsEq(n, end), st, "n=item", w.where, "a decoded %s ends at %s, reported are %s bytes", d.name, end.Key(), n.Key())
				})
			}
		}
	})
	for _, name := range codecTypes {
		T := codecTyp(name)
		if T == nil {
			continue
		}
		ip := newInterp()
		ip.preHook = codecContracts(name)
		outs := c.run(ip, "beserial.UnmarshalFull(*"+name+")", func() []Outcome {
			_, o := decodeRoot(ip, T, "UnmarshalFull")
			return o
		})
		c.strict("UnmarshalFull", name, fnPos(repoFn("beserial", "UnmarshalFull")), outs, 0)
	}
	if witnessPkg != nil {
		return
	}
	_, outs := c.runMessage()
	by := map[string][]Outcome{}
	for _, o := range outs {
		if id, ok := idOf(o.st.f); ok && messageIDs[id] != "EmptyMessage" {
			by[messageIDs[id]] = append(by[messageIDs[id]], o)
		} else if o.pan == nil {
			yes, _ := split(o.st, decErr(o, 1), 0)
			for _, st := range yes {
				c.mustSt(infeasible(st.f) || st.f.entails(lenIn().neg()), st, "takes all", fnPos(repoFn("wire", "UnmarshalMessage")), "a message without content is accepted with %s bytes", lenIn().Key())
			}
		}
	}
	for _, name := range sortedKeys(by) {
		c.strict("UnmarshalMessage", name, fnPos(repoFn("wire", "UnmarshalMessage")), by[name], 1)
	}
}

// strict checks that an entry point accepts an item exactly if it fills the input.
func (c *Ctx) strict(entry, name, where string, outs []Outcome, errAt int) {
	T := codecTyp(name)
	d := &decRun{name: name, T: T}
	for _, o := range outs {
		if o.pan != nil {
			continue
		}
		yes, no := split(o.st, decErr(o, errAt), 0)
		for _, st := range yes {
			w := c.walker(d)
			w.item(st, nil, nil, ref(name), cLin(0), "", func(st *State, end *Lin) {
				if !infeasible(st.f) {
					c.mustSt(st.f.entailsEq(end, lenIn()), st, "takes all", where, "%s accepts a %s of %s bytes in an input of %s", entry, name, end.Key(), lenIn().Key())
				}
			})
		}
		for _, st := range no {
			if infeasible(st.f) {
				continue
			}
			w := c.walker(d)
			w.assume = true
			w.loops = loopAtoms(st)
			w.item(st, nil, nil, ref(name), cLin(0), "", func(s2 *State, end *Lin) {
				for _, g := range s2.f.clone().assume(bEq0(end.sub(lenIn())), true) {
					c.mustSt(infeasible(g), st, "accepts all", where, "%s rejects a %s that fills the input", entry, name)
				}
			})
		}
	}
}

func checkC05(c *Ctx) {
	c.explained = "Decoded values are compared field by field with the bytes of the input given by an independent grammar of the Nimiq layout; every condition of the layout must hold on accepted inputs, and no rejected input may follow the layout. The encoding of every value of symbolic content must be the layout's, too."
	c.eachDecode(func(d *decRun) {
		acc := 0
		for _, o := range d.outs {
			if o.pan != nil {
				continue
			}
			yes, no := split(o.st, decErr(o, 1), 0)
			for _, st := range yes {
				acc++
				w := c.walker(d)
				w.values, w.layout = true, true
				n := d.ip.intv(o.ret[0], 0)
				v := st.content(d.obj)
				w.item(st, v, d.T, ref(d.name), cLin(0), "", func(st *State, end *Lin) {
					if infeasible(st.f) {
						return
					}
					c.mustSt(st.f.entailsEq(n, end), st, "n=item", w.where, "a decoded %s ends at %s, reported are %s bytes", d.name, end.Key(), n.Key())
				})
			}
			for _, st := range no {
				w := c.walker(d)
				w.assume = true
				w.loops = loopAtoms(st)
				bad := false
				w.item(st, nil, nil, ref(d.name), cLin(0), "", func(s2 *State, end *Lin) {
					if !bad && !infeasible(s2.f) {
						bad = true
						c.oblig++
						c.fail("accepts", w.where, st, "an input following the layout of %s is rejected with %s", d.name, clip(o.ret[1].Key(), 80))
					}
				})
				if !bad {
					c.must(true, "accepts", w.where, "%s: a rejecting path excludes the layout", d.name)
				}
			}
		}
		c.must(acc > 0, "accepts", typePos(d.T), "%s has an accepting path", d.name)
	})
	c.encodings(false)
}

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C07"] = checkC07
	checks["C08"] = checkC08
	checks["C09"] = checkC09
}

// reencode encodes the decoded value of an accepting path behind the prefix P.
func (c *Ctx) reencode(d *decRun, st *State) []Outcome {
	st = st.clone()
	st.ev = nil
	return c.run(d.ip, "beserial.Marshal(decoded "+d.name+")", func() []Outcome {
		return d.ip.exec(st, repoFn("beserial", "Marshal"), []Val{symSlice("P"), ifacePtr(PtrV{obj: d.obj}, d.T)}, nil, 0)
	})
}

func prefixSeq() Seq { p := mkSym("P"); return rawSeq(p, cLin(0), symLen(p)) }

func checkC03(c *Ctx) {
	c.explained = "On every accepting path of every decoder, the decoded abstract value is encoded again; the result must be the given prefix followed by exactly the consumed input bytes."
	c.eachDecode(func(d *decRun) {
		for _, o := range d.outs {
			if o.pan != nil {
				continue
			}
			n := d.ip.intv(o.ret[0], 0)
			yes, _ := split(o.st, decErr(o, 1), 0)
			for _, st := range yes {
				for _, r := range c.reencode(d, st) {
					if r.pan != nil {
						c.mustSt(false, r.st, "re-encodes", typePos(d.T), "encoding a decoded %s panics: %s", d.name, r.pan)
						continue
					}
					_, no := split(r.st, isNilVal(r.ret[1]), 0)
					for _, s := range no {
						if !infeasible(s.f) {
							c.mustSt(false, s, "re-encodes", typePos(d.T), "encoding a decoded %s can fail: %s", d.name, clip(r.ret[1].Key(), 80))
						}
					}
					sl, ok := r.ret[0].(SliceV)
					if !ok {
						c.mustSt(false, r.st, "re-encodes", typePos(d.T), "no bytes returned")
						continue
					}
					got := r.st.bytesOf(sl, 0)
					want := prefixSeq().concat(rawSeq(mkSym("In"), cLin(0), n))
					c.mustSt(seqEqual(r.st.f, got, want), r.st, "re-encodes", typePos(d.T), "a %s decoded from %s bytes encodes to %s", d.name, n.Key(), got.Key())
				}
			}
		}
	})
}

// symArg is a symbolic value of a wire type behind a pointer, in all shapes its fields can take.
func symShapes(T types.Type, name string) []func(*State) PtrV {
	s := mkSym(name)
	plain := func(st *State) PtrV { return PtrV{obj: lazyObj(s, T)} }
	if name != "PeerAddress" {
		return []func(*State) PtrV{plain}
	}
	with := func(det func() IfaceV) func(*State) PtrV {
		return func(st *State) PtrV {
			o := lazyObj(s, T)
			n := expand(LazyN{T, s}).(StructN)
			fs := append([]Node(nil), n.fs...)
			i := fieldIdx(T, "Detail")
			fs[i] = LeafN{det()}
			st.set(o, StructN{n.typ, fs})
			return PtrV{obj: o}
		}
	}
	it := types.NewInterfaceType(nil, nil)
	return []func(*State) PtrV{
		with(func() IfaceV { return IfaceV{ityp: it} }),
		with(func() IfaceV {
			dt := P.typ("wire", "PeerAddressSrv")
			return mkIface(PtrV{obj: lazyObj(mkSym(name+".Detail"), dt)}, types.NewPointer(dt), it).(IfaceV)
		}),
	}
}

type encRun struct {
	name string
	T    types.Type
	ip   *Interp
	ptr  PtrV
	outs []Outcome
	pre  *State
}

func (c *Ctx) encode(name string, T types.Type, f func(e *encRun)) {
	for _, mk := range symShapes(T, name) {
		e := &encRun{name: name, T: T, ip: newInterp()}
		e.ip.preHook = codecContracts(name)
		st := newState()
		e.ptr = mk(st)
		e.pre = st.clone()
		n := len(c.viol)
		e.outs = c.run(e.ip, "beserial.Marshal(*"+name+")", func() []Outcome {
			return e.ip.exec(st, repoFn("beserial", "Marshal"), []Val{symSlice("P"), ifacePtr(e.ptr, T)}, nil, 0)
		})
		if len(c.viol) == n {
			f(e)
		}
	}
}

func (c *Ctx) eachEncode(f func(e *encRun)) {
	for _, name := range codecTypes {
		T := codecTyp(name)
		if T == nil {
			c.must(false, "anchored", "wire", "wire type %s is missing", name)
			continue
		}
		c.encode(name, T, f)
	}
}

// encoded calls f for every successful path of an encode.
func (e *encRun) encoded(f func(st *State, got Seq)) {
	for _, o := range e.outs {
		if o.pan != nil {
			continue
		}
		yes, _ := split(o.st, isNilVal(o.ret[1]), 0)
		for _, st := range yes {
			if sl, ok := o.ret[0].(SliceV); ok {
				f(st, st.bytesOf(sl, 0))
			}
		}
	}
}

func (c *Ctx) sizeOf(ip *Interp, name string, st *State, p PtrV, T types.Type, f func(st *State, n *Lin, failed bool)) {
	st = st.clone()
	outs := c.run(ip, "beserial.Size("+name+")", func() []Outcome {
		return ip.exec(st, repoFn("beserial", "Size"), []Val{ifacePtr(p, T)}, nil, 0)
	})
	for _, o := range outs {
		if o.pan != nil {
			if !infeasible(o.st.f) {
				f(o.st, nil, true)
			}
			continue
		}
		yes, no := split(o.st, isNilVal(o.ret[1]), 0)
		for _, s := range yes {
			if !infeasible(s.f) {
				f(s, ip.intv(o.ret[0], 0), false)
			}
		}
		for _, s := range no {
			if !infeasible(s.f) {
				f(s, nil, true)
			}
		}
	}
}

func checkC04(c *Ctx) {
	c.explained = "For every value of symbolic content of every wire type and for every decoded value, the size is computed abstractly on every path on which encoding succeeds and compared with the number of appended bytes."
	lenP := symLen(mkSym("P"))
	c.eachEncode(func(e *encRun) {
		e.encoded(func(st *State, got Seq) {
			c.sizeOf(e.ip, e.name, st, e.ptr, e.T, func(s *State, n *Lin, failed bool) {
				if failed {
					c.mustSt(false, s, "size", typePos(e.T), "computing the size of an encodable %s fails", e.name)
					return
				}
				want := got.length().sub(lenP)
				c.mustSt(s.f.entailsEq(n, want), s, "size", typePos(e.T), "the size of a %s is computed as %s, encoded are %s bytes", e.name, n.Key(), want.Key())
			})
		})
	})
	c.eachDecode(func(d *decRun) {
		for _, o := range d.outs {
			if o.pan != nil {
				continue
			}
			n := d.ip.intv(o.ret[0], 0)
			yes, _ := split(o.st, decErr(o, 1), 0)
			for _, st := range yes {
				c.sizeOf(d.ip, "decoded "+d.name, st, PtrV{obj: d.obj}, d.T, func(s *State, got *Lin, failed bool) {
					if failed {
						c.mustSt(false, s, "size", typePos(d.T), "computing the size of a decoded %s fails", d.name)
						return
					}
					c.mustSt(s.f.entailsEq(got, n), s, "size", typePos(d.T), "the size of a decoded %s is computed as %s, its encoding has %s bytes", d.name, got.Key(), n.Key())
				})
			}
		}
	})
}

// encodings compares the encoding of symbolic values with the layout.
func (c *Ctx) encodings(fits bool) {
	c.eachEncode(func(e *encRun) {
		n := 0
		e.encoded(func(st *State, got Seq) {
			n++
			en := &encoder{c: c, ip: e.ip, root: e.name, where: typePos(e.T), fits: fits}
			en.enc(st, st.content(e.ptr.obj), e.T, ref(e.name), "", func(s *State, want Seq) {
				if infeasible(s.f) || fits {
					return
				}
				want = prefixSeq().concat(want)
				c.mustSt(seqEqual(s.f, got, want), s, "encoding", typePos(e.T), "a %s encodes to %s, the layout is %s", e.name, got.Key(), want.Key())
			})
		})
		c.must(n > 0, "encoding", typePos(e.T), "%s has an encoding path", e.name)
	})
}

func checkC07(c *Ctx) {
	c.explained = "On every successful path of every encoder on a value of symbolic content, the number of elements of every length-prefixed field must be provably within the range of its prefix, and the prefix must hold this number."
	c.encodings(true)
	c.encodings(false)
}

// allocs visits the allocations of a path.
func eventsOf(evs []Event, f *Facts, visit func(e Event, f *Facts)) {
	for _, e := range evs {
		if e.loop != nil {
			for _, a := range e.loop.alts {
				g := a.f
				if g == nil {
					g = f
				}
				eventsOf(a.ev, g, visit)
			}
			continue
		}
		visit(e, f)
	}
}

func checkC08(c *Ctx) {
	c.explained = "Every allocation with a data dependent number of elements on every path of every decoder, the failing paths included, must have at most as many elements as the input has bytes, or at most 255."
	c.eachDecode(func(d *decRun) {
		for _, o := range d.outs {
			n := 0
			eventsOf(o.st.ev, o.st.f, func(e Event, f *Facts) {
				if e.kind != "alloc" {
					return
				}
				n++
				sz := e.args[0].(IntV).L
				ok := f.entails(lenIn().sub(sz)) || f.entails(cLin(255).sub(sz))
				c.mustSt(ok, o.st, "alloc", P.pos(e.pos), "decoding a %s allocates %s elements without a bound by the input length", d.name, sz.Key())
			})
			c.must(true, "path", typePos(d.T), "%d allocations", n)
		}
	})
}

// reachable visits the objects a value refers to.
func reachable(st *State, n Node, seen map[*Obj]bool) {
	var val func(v Val)
	obj := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		if c := st.content(o); c != nil {
			reachable(st, c, seen)
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			obj(x.obj)
		case SliceV:
			obj(x.obj)
		case MapV:
			obj(x.obj)
		case IfaceV:
			if x.v != nil {
				val(x.v)
			}
		case NodeV:
			reachable(st, x.N, seen)
		case TupleV:
			for _, y := range x.vs {
				val(y)
			}
		case FuncV:
			for _, y := range x.bind {
				val(y)
			}
		}
	}
	switch x := n.(type) {
	case LeafN:
		val(x.V)
	case StructN:
		for _, f := range x.fs {
			reachable(st, f, seen)
		}
	case ArrN:
		for _, u := range x.ups {
			reachable(st, u.node, seen)
		}
	case MapN:
		for _, u := range x.ups {
			if u.val != nil {
				val(u.val)
			}
		}
	}
}

func checkC09(c *Ctx) {
	c.explained = "Ownership of abstract memory: no object reachable from a decoded value is the input buffer, no write of a decoder reaches the input, no write of encoding or sizing reaches the value, and the buffer content before the encoding is that of the given buffer."
	in := symSlice("In").obj
	pobj := symSlice("P").obj
	c.eachDecode(func(d *decRun) {
		for _, o := range d.outs {
			if o.pan != nil {
				continue
			}
			where := typePos(d.T)
			cn := o.st.content(in)
			c.mustSt(nodeKeyDeep(cn) == nodeKeyDeep(in.init), o.st, "input unchanged", where, "decoding a %s writes to the input: %s", d.name, clip(cn.Key(), 300))
			eventsOf(o.st.ev, o.st.f, func(e Event, f *Facts) {
				if e.kind == "append-inplace" {
					x := e.args[0].(SliceV)
					c.mustSt(x.obj != in, o.st, "input unchanged", P.pos(e.pos), "decoding a %s appends into the input buffer", d.name)
				}
			})
			seen := map[*Obj]bool{}
			reachable(o.st, o.st.content(d.obj), seen)
			c.mustSt(!seen[in], o.st, "owns memory", where, "a decoded %s refers to the input buffer", d.name)
			for ob := range seen {
				c.mustSt(!ob.shared(), o.st, "owns memory", where, "a decoded %s refers to memory of a package variable: %s", d.name, ob.Key())
			}
		}
	})
	c.eachEncode(func(e *encRun) {
		where := typePos(e.T)
		check := func(st *State, what string) {
			for _, ob := range sortedObjs(st.h) {
				if ob.fresh || ob.init == nil && ob.sym == nil && ob.glob == nil {
					continue
				}
				before := e.pre.content(ob)
				if before == nil {
					continue
				}
				same := nodeKeyDeep(st.h[ob]) == nodeKeyDeep(before)
				c.mustSt(same, st, "value unchanged", where, "%s a %s modifies %s", what, e.name, ob.Key())
			}
			eventsOf(st.ev, st.f, func(ev Event, f *Facts) {
				if ev.kind == "append-inplace" {
					x := ev.args[0].(SliceV)
					if x.obj == pobj {
						c.mustSt(f.entailsEq(x.off.add(x.len), symLen(mkSym("P"))), st, "only appends", P.pos(ev.pos), "%s a %s writes inside the given buffer", what, e.name)
						return
					}
					c.mustSt(x.obj.fresh, st, "only appends", P.pos(ev.pos), "%s a %s appends to memory of the value", what, e.name)
				}
			})
		}
		for _, o := range e.outs {
			check(o.st, "encoding")
		}
		e.encoded(func(st *State, got Seq) {
			lp := symLen(mkSym("P"))
			pre, _, ok := got.cut(st.f, lp)
			c.mustSt(ok && seqEqual(st.f, pre, prefixSeq()), st, "only appends", where, "the encoding of a %s does not start with the given buffer: %s", e.name, clip(got.Key(), 300))
			c.mustSt(!st.f.entails(lp.sub(got.length()).addc(-1)), st, "only appends", where, "the encoding of a %s is shorter than the given buffer", e.name)
		})
		st := e.pre.clone()
		outs := c.run(e.ip, "beserial.Size(*"+e.name+")", func() []Outcome {
			return e.ip.exec(st, repoFn("beserial", "Size"), []Val{ifacePtr(e.ptr, e.T)}, nil, 0)
		})
		for _, o := range outs {
			check(o.st, "sizing")
		}
	})
}
