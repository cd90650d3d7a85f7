package main

// X01: the block replay tool.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["X01"] = checkX01 }

func toolHooks(ip *Interp) {
	stateHooks(ip)
	state := ip.preHook
	profileHooks(ip)
	prof := ip.preHook
	bytesT := types.NewSlice(types.Typ[types.Byte])
	ip.preHook = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		fork := func(kind string, ok func(s *State) []Val, bad func(s *State) []Val) ([]Outcome, bool) {
			errCount++
			b := st.clone()
			st.emit(Event{kind: kind, args: c.args, pos: c.pos})
			b.emit(Event{kind: kind + "failed", pos: c.pos})
			return []Outcome{{st: st, ret: ok(st)}, {st: b, ret: bad(b)}}, true
		}
		noErr := IfaceV{ityp: errType}
		switch c.fn.String() {
		case "flag.String", "flag.Bool", "flag.Int":
			T := c.res.At(0).Type().(*types.Pointer)
			return ret1(st, PtrV{obj: lazyObj(mkSym("flag", c.args[0]), T.Elem())})
		case "flag.Parse", "flag.Usage":
			return ret1(st)
		case "bufio.NewReader", "bufio.NewReaderSize", "archive/tar.NewReader":
			T := c.res.At(0).Type().(*types.Pointer)
			return ret1(st, PtrV{obj: lazyObj(mkSym("reader:"+c.fn.Name(), c.args[0]), T.Elem())})
		case "(*archive/tar.Reader).Next":
			h := PtrV{obj: lazyObj(mkSym("tarheader"), c.res.At(0).Type().(*types.Pointer).Elem())}
			none := zeroVal(c.res.At(0).Type())
			eof := st.clone()
			bad := st.clone()
			st.emit(Event{kind: "next", pos: c.pos})
			eof.emit(Event{kind: "end", pos: c.pos})
			bad.emit(Event{kind: "nextfailed", pos: c.pos})
			eofVal := nodeVal(eof.load(PtrV{obj: globalObj(stdGlobal("io", "EOF"))}, c.pos), errType)
			other := newErr("tar")
			bad = assuming(bad, bNeg(ifaceEq(bad, other, eofVal.(IfaceV))))
			return []Outcome{
				{st: st, ret: []Val{h, noErr}},
				{st: eof, ret: []Val{none, eofVal}},
				{st: bad, ret: []Val{none, other}},
			}, true
		case "io.ReadAll", "io/ioutil.ReadAll":
			return fork("read", func(s *State) []Val {
				f := mkSym("entry")
				return []Val{mkByteSlice(s, rawSeq(f, cLin(0), symLen(f)), "entry"), noErr}
			}, func(s *State) []Val { return []Val{zeroVal(bytesT), newErr("read")} })
		case modPath + "/genesis.OpenProfile":
			T := c.res.At(0).Type()
			return fork("profile", func(s *State) []Val {
				return []Val{PtrV{obj: lazyObj(mkSym("profile"), T.(*types.Pointer).Elem())}, noErr}
			}, func(s *State) []Val { return []Val{zeroVal(T), newErr("profile")} })
		case "(*" + modPath + "/genesis.Profile).InitAccounts":
			return fork("init", func(s *State) []Val { return []Val{noErr} }, func(s *State) []Val { return []Val{newErr("init")} })
		case "time.Now":
			return ret1(st, symVal(c.res.At(0).Type(), mkSym("now")))
		case "time.Since":
			return ret1(st, IntV{symInt(mkSym("since"), types.Typ[types.Int64])})
		case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf":
			st.emit(Event{kind: "print", args: c.args, pos: c.pos})
			return ret1(st, IntV{symInt(mkSym("printed"), types.Typ[types.Uint32])}, noErr)
		case "os.Exit":
			st.emit(Event{kind: "exit", args: c.args, pos: c.pos})
			return []Outcome{{st: st, pan: &PanicInfo{pos: c.pos, fn: "os.Exit", kind: "os.Exit"}}}, true
		case "log.Fatal", "log.Fatalf", "log.Fatalln":
			return []Outcome{{st: st, pan: &PanicInfo{pos: c.pos, fn: "log.Fatal", kind: "log.Fatal"}}}, true
		}
		if o, ok := state(ip, st, c); ok {
			return o, ok
		}
		return prof(ip, st, c)
	}
}

func checkX01(c *Ctx) {
	c.explained = "The main function of the replay tool is analysed with the archive, the genesis state and the operations on the state as recorded events whose failure is explored. The loop over the archive is summarised into its alternatives: every iteration that completes, and every return of the program, must have decoded the entry completely, pushed exactly that block into the initialised state, and found the root hash of that state after it equal to the block's accounts hash. The program may return only after the end of the archive; every other exit is a panic or a non-zero exit code. The printed number of blocks is the number of completed iterations."
	fn := P.fnByName("cmd/gimiq", "", "main")
	if !c.must(fn != nil, "anchored", "cmd/gimiq", "the main function") {
		return
	}
	P.body(fn)
	ip := newInterp()
	toolHooks(ip)
	outs := c.run(ip, "gimiq.main", func() []Outcome { return ip.exec(newState(), fn, nil, nil, 0) })
	where := fnPos(fn)
	returns, stops, iters := 0, 0, 0
	for _, o := range outs {
		if infeasible(o.st.f) {
			continue
		}
		t := &toolRun{c: c, st: o.st, where: where}
		if o.pan != nil {
			stops++
			if o.pan.kind == "os.Exit" {
				var code *Lin
				for _, e := range o.st.ev {
					if e.kind == "exit" {
						if i, ok := e.args[0].(IntV); ok {
							code = i.L
						}
					}
				}
				c.mustSt(code != nil && o.st.f.decide(bEq0(code)) == 0, o.st, "failure", P.pos(o.pan.pos), "the tool stops with exit code %v", code)
			}
			t.scan(o.st, o.st.ev, true)
		} else {
			returns++
			t.scan(o.st, o.st.ev, false)
		}
		iters += t.iters
	}
	c.must(returns > 0 && stops > 0 && iters > 0, "anchored", where, "%d returns, %d failures, %d kinds of completed iterations", returns, stops, iters)
}

// toolRun follows the processing of entries along the events of a path.
type toolRun struct {
	c     *Ctx
	st    *State
	where string
	open  string // what the current entry still needs, "" if none
	blk   *Event // the decoded entry
	accs  Val
	first bool // an entry was skipped
	any   bool // an entry was processed
	loopN []*Lin
	last  string
	iters int
}

func (t *toolRun) bad(st *State, e Event, format string, args ...interface{}) {
	t.c.mustSt(false, st, "checked", P.pos(e.pos), format, args...)
}

// scan follows the events; stopped tells that the program stops with a failure after them.
func (t *toolRun) scan(st *State, evs []Event, stopped bool) {
	for _, e := range evs {
		e := e
		if e.loop != nil {
			if kindsIn(e.loop.alts, "next") || kindsIn(e.loop.alts, "push") || kindsIn(e.loop.alts, "decoded") {
				t.finish(st, e)
				t.loopN = append(t.loopN, e.loop.n)
				for _, a := range e.loop.alts {
					s := st.clone()
					if a.f != nil {
						s.f = a.f
					}
					if infeasible(s.f) {
						continue
					}
					u := &toolRun{c: t.c, st: s, where: t.where, accs: t.accs, first: true, last: t.last}
					u.scan(s, a.ev, false)
					n := 0
					for _, x := range a.ev {
						if x.kind == "next" {
							n++
						}
					}
					t.c.mustSt(n == 1, s, "checked", P.pos(e.pos), "an iteration takes %d entries", n)
					u.finish(s, e)
					t.iters++
					t.any = true
				}
			}
			continue
		}
		switch e.kind {
		case "init":
			t.accs = e.args[1]
		case "next":
			t.finish(st, e)
			t.open, t.blk, t.last = "read", nil, "next"
		case "end", "nextfailed":
			t.finish(st, e)
			t.last = e.kind
		case "read":
			t.step(st, e, "read", "decode")
		case "decoded":
			q := e.args[0].(SeqV).S
			f := mkSym("entry")
			if t.open == "decode" {
				ok := seqEqual(st.f, q, rawSeq(f, cLin(0), symLen(f))) && holds(st.f, bEq0(decodedLen(q, e.args[1].(TypV).typ).sub(q.length())))
				if !ok && stopped {
					continue
				}
				t.c.mustSt(ok, st, "checked", P.pos(e.pos), "a block is not decoded from the whole entry")
			}
			t.step(st, e, "decode", "push")
			t.blk = &e
		case "push":
			if t.blk != nil && t.open == "push" {
				T := t.blk.args[1].(TypV).typ
				want := Node(LazyN{T, decodedSym(t.blk.args[0].(SeqV).S, T)})
				t.c.mustSt(t.accs != nil && e.args[0].Key() == t.accs.Key(), st, "checked", P.pos(e.pos), "the block is pushed into a state that was not initialised")
				t.c.mustSt(sameNode(st, e.args[1].(NodeV).N, want, wireT("Block")), st, "checked", P.pos(e.pos), "the block pushed is not the entry")
			}
			t.step(st, e, "push", "hash")
		case "hash":
			if t.open == "hash" && t.blk != nil {
				T := t.blk.args[1].(TypV).typ
				want := lazySeq(T, decodedSym(t.blk.args[0].(SeqV).S, T), "Header", "AccountsHash")
				if holds(st.f, seqEqBool(st.f, rawSeq(e.args[1].(SymV).S, cLin(0), cLin(32)), want)) && t.sameTree(st, e.args[0]) {
					t.open, t.any = "", true
				}
			}
		case "readfailed", "decodefailed", "pushfailed", "profilefailed", "initfailed":
			if !stopped {
				t.bad(st, e, "the tool continues after a failure (%s)", e.kind)
			}
		case "print":
			if !stopped {
				t.printed(st, e)
			}
		}
	}
	if !stopped && len(evs) > 0 && t.loopN != nil {
		e := evs[len(evs)-1]
		t.finish(st, e)
		t.c.mustSt(t.last == "end", st, "checked", t.where, "the tool returns before the end of the archive (after %s)", t.last)
	}
}

// sameTree: the hash is that of the tree of the state.
func (t *toolRun) sameTree(st *State, tree Val) bool {
	p, ok := t.accs.(PtrV)
	if !ok || p.obj == nil {
		return false
	}
	n, nt, ok := fieldNode(st.load(p, 0), P.typ("accounts", "Accounts"), "Tree")
	return ok && nodeVal(n, nt).Key() == tree.Key()
}

func (t *toolRun) step(st *State, e Event, from, to string) {
	if t.open == from {
		t.open = to
		return
	}
	t.bad(st, e, "a block is handled out of order: %s while expecting %q", e.kind, t.open)
}

// finish: before the next entry, everything about the current one was checked.
func (t *toolRun) finish(st *State, e Event) {
	if t.open == "" {
		return
	}
	if t.open == "read" && !t.first && !t.any {
		t.first, t.open = true, "" // the archive starts with a directory
		return
	}
	t.bad(st, e, "an entry counts as processed, but its %s is missing or unchecked", t.open)
	t.open = ""
}

// printed: the number of blocks.
func (t *toolRun) printed(st *State, e Event) {
	for _, a := range e.args {
		sl, ok := a.(SliceV)
		if !ok || sl.obj == nil {
			continue
		}
		n, ok := sl.len.constVal()
		if !ok || n < 2 {
			continue
		}
		at := func(i int64) Val {
			nd := st.load(ptrIndex(PtrV{obj: sl.obj, path: sl.path}, sl.off.addc(i)), 0)
			if l, ok := expand(nd).(LeafN); ok {
				if iv, ok := l.V.(IfaceV); ok && iv.typ != nil {
					return iv.v
				}
			}
			return nil
		}
		q, ok := at(0).(SeqV)
		if !ok {
			continue
		}
		b, ok := q.S.constBytes()
		if !ok || string(b) != "Blocks:" {
			continue
		}
		v, ok := at(1).(IntV)
		sum := cLin(0)
		for _, l := range t.loopN {
			sum = sum.add(l)
		}
		t.c.mustSt(ok && st.f.entailsEq(v.L, sum), st, "count", P.pos(e.pos), "the number of blocks printed is %v, not %s", at(1), sum.Key())
	}
}

func kindsIn(alts []Alt, kind string) bool {
	found := false
	for _, a := range alts {
		eventsOf(a.ev, a.f, func(e Event, f *Facts) { found = found || e.kind == kind })
	}
	return found
}

// stdGlobal is a package variable of the standard library.
func stdGlobal(pkg, name string) *ssa.Global {
	for _, q := range P.prog.AllPackages() {
		if q.Pkg.Path() == pkg {
			if g, ok := q.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	unsupported(0, "variable %s.%s is missing", pkg, name)
	return nil
}
