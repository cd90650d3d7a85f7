package main

// C10: a path rule over SSA. Every error result of a call is followed along all paths on
// which it is not nil; such a path may only leave the function by returning a non-nil error,
// by a panic or by ending the program.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

type errWalk struct {
	fn      *ssa.Function
	call    ssa.Instruction
	errIdx  int // position of the error among fn's results, -1 none
	nonErr  map[*ssa.Function]int
	visited map[string]bool
	bad     []string
	budget  int
}

// errSt is what is known on a path: values holding the error (or one derived from it),
// other errors known not to be nil, and the cells holding them.
type errSt struct {
	alias map[ssa.Value]bool // the error under study or derived from it
	nn    map[ssa.Value]bool // known not nil
	cells map[ssa.Value]int  // 1: holds the error, 2: holds a non-nil error
}

func (s *errSt) clone() *errSt {
	n := &errSt{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]int{}}
	for k := range s.alias {
		n.alias[k] = true
	}
	for k := range s.nn {
		n.nn[k] = true
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *errSt) key() string {
	var ks []string
	for k := range s.alias {
		ks = append(ks, "a"+k.Name())
	}
	for k := range s.nn {
		ks = append(ks, "n"+k.Name())
	}
	for k, v := range s.cells {
		ks = append(ks, fmt.Sprint("c", k.Name(), v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// nonNil: v is certainly a non-nil error.
func (w *errWalk) nonNil(s *errSt, v ssa.Value, depth int) bool {
	if s.alias[v] || s.nn[v] {
		return true
	}
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return w.nonNil(s, x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && isErr(x.Type()) {
				return errGlobal(g)
			}
			return s.cells[x.X] != 0
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "fmt.Errorf", "errors.New":
				return true
			case "errors.Join":
				for _, a := range x.Call.Args {
					if w.nonNil(s, a, depth+1) {
						return true
					}
				}
			}
			if isRepo(f) && isErr(x.Type()) {
				if alwaysErr(f, 0, nil) {
					return true
				}
				for i, a := range x.Call.Args {
					if i < len(f.Params) && isErr(a.Type()) && w.nonNil(s, a, depth+1) && alwaysErr(f, 0, f.Params[i]) {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		// a phi seen outside of the walk (its own block's entry is handled there)
		return false
	}
	return false
}

func isRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && P.isRep[f.Pkg.Pkg]
}

var errGlobals map[*ssa.Global]bool

// errGlobal: a package-level error that is only ever set to a fresh error.
func errGlobal(g *ssa.Global) bool {
	if errGlobals == nil {
		errGlobals = map[*ssa.Global]bool{}
		bad := map[*ssa.Global]bool{}
		for _, sp := range P.repo {
			fns := []*ssa.Function{sp.Func("init")}
			for _, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok {
					fns = append(fns, f)
				}
			}
			for _, f := range fns {
				if f == nil {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if g, ok := st.Addr.(*ssa.Global); ok {
								w := &errWalk{fn: f}
								if w.nonNil(&errSt{}, st.Val, 0) {
									errGlobals[g] = true
								} else {
									bad[g] = true
								}
							}
						}
					}
				}
			}
		}
		for g := range bad {
			delete(errGlobals, g)
		}
	}
	if g.Pkg != nil && !P.isRep[g.Pkg.Pkg] {
		return true // io.EOF and the like
	}
	return errGlobals[g]
}

var alwaysErrMemo = map[string]bool{}

// alwaysErr: every return of f yields a non-nil error, given that param (if any) is one.
func alwaysErr(f *ssa.Function, _ int, param ssa.Value) bool {
	key := f.String()
	if param != nil {
		key += "/" + param.Name()
	}
	if v, ok := alwaysErrMemo[key]; ok {
		return v
	}
	alwaysErrMemo[key] = false
	P.body(f)
	if f.Blocks == nil {
		return false
	}
	s := &errSt{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]int{}}
	if param != nil {
		s.alias[param] = true
	}
	w := newErrWalk(f)
	w.block(f.Blocks[0], nil, 0, s)
	ok := len(w.bad) == 0
	alwaysErrMemo[key] = ok
	return ok
}

func newErrWalk(f *ssa.Function) *errWalk {
	w := &errWalk{fn: f, errIdx: -1, visited: map[string]bool{}, budget: 20000}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErr(rs.At(i).Type()) {
			w.errIdx = i
		}
	}
	return w
}

// noReturn: calls that end the program.
func noReturn(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit":
		return true
	}
	return false
}

func (w *errWalk) fail(format string, args ...interface{}) {
	w.bad = append(w.bad, fmt.Sprintf(format, args...))
}

func (w *errWalk) block(b *ssa.BasicBlock, pred *ssa.BasicBlock, from int, s *errSt) {
	if w.budget--; w.budget < 0 {
		w.fail("too many paths")
		return
	}
	if from == 0 {
		pi := -1
		for i, p := range b.Preds {
			if p == pred {
				pi = i
			}
		}
		type upd struct {
			v    ssa.Value
			a, n bool
		}
		var us []upd
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if pi >= 0 && isErr(ph.Type()) {
				e := ph.Edges[pi]
				us = append(us, upd{ph, s.alias[e], w.nonNil(s, e, 0)})
			}
		}
		for _, u := range us {
			delete(s.alias, u.v)
			delete(s.nn, u.v)
			if u.a {
				s.alias[u.v] = true
			} else if u.n {
				s.nn[u.v] = true
			}
		}
		k := fmt.Sprint(b.Index, "|", s.key())
		if w.visited[k] {
			return
		}
		w.visited[k] = true
	}
	for i := from; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Store:
			if isErr(in.Val.Type()) {
				delete(s.cells, in.Addr)
				if s.alias[in.Val] {
					s.cells[in.Addr] = 1
				} else if w.nonNil(s, in.Val, 0) {
					s.cells[in.Addr] = 2
				}
			}
		case *ssa.UnOp:
			if in.Op == token.MUL && isErr(in.Type()) {
				delete(s.alias, in)
				delete(s.nn, in)
				switch s.cells[in.X] {
				case 1:
					s.alias[in] = true
				case 2:
					s.nn[in] = true
				}
			}
		case *ssa.ChangeInterface:
			if s.alias[in.X] {
				s.alias[in] = true
			}
		case *ssa.Call:
			delete(s.alias, in)
			delete(s.nn, in)
			f := in.Call.StaticCallee()
			if noReturn(f) {
				return
			}
			// a helper that does not come back from an error
			if f != nil && isRepo(f) {
				P.body(f)
				for j, a := range in.Call.Args {
					if j < len(f.Params) && isErr(a.Type()) && s.alias[a] && f.Blocks != nil && endsOn(f, f.Params[j]) {
						return
					}
				}
			}
			if isErr(in.Type()) && w.nonNil(s, in, 0) {
				derived := false
				for _, a := range in.Call.Args {
					if s.alias[a] {
						derived = true
					}
				}
				if derived {
					s.alias[in] = true
				} else {
					s.nn[in] = true
				}
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			if w.errIdx < 0 {
				w.fail("returns without an error result at %s", P.pos(in.Pos()))
				return
			}
			r := in.Results[w.errIdx]
			if !w.nonNil(s, r, 0) {
				w.fail("may return a nil error at %s", P.pos(in.Pos()))
			}
			return
		case *ssa.If:
			if bo, ok := in.Cond.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
				var v ssa.Value
				if isNilConst(bo.Y) && isErr(bo.X.Type()) {
					v = bo.X
				} else if isNilConst(bo.X) && isErr(bo.Y.Type()) {
					v = bo.Y
				}
				if v != nil {
					ne, eq := b.Succs[0], b.Succs[1]
					if bo.Op == token.EQL {
						ne, eq = eq, ne
					}
					s1 := s.clone()
					known := w.nonNil(s, v, 0)
					if !known {
						s1.nn[v] = true
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && s1.cells[u.X] == 0 {
							s1.cells[u.X] = 2
						}
					}
					w.block(ne, b, 0, s1)
					if !known {
						w.block(eq, b, 0, s.clone())
					}
					return
				}
				// the end of the input is not a failure
				if isErr(bo.X.Type()) && (isEOF(bo.X) && s.alias[bo.Y] || isEOF(bo.Y) && s.alias[bo.X]) {
					other := b.Succs[1]
					if bo.Op == token.NEQ {
						other = b.Succs[0]
					}
					w.block(other, b, 0, s.clone())
					return
				}
			}
			if c, ok := in.Cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) {
					w.block(b.Succs[0], b, 0, s)
				} else {
					w.block(b.Succs[1], b, 0, s)
				}
				return
			}
			if ec, ok := in.Cond.(*ssa.Call); ok {
				if f := ec.Call.StaticCallee(); f != nil && f.String() == "errors.Is" && s.alias[ec.Call.Args[0]] && isEOF(ec.Call.Args[1]) {
					w.block(b.Succs[1], b, 0, s.clone())
					return
				}
			}
			w.block(b.Succs[0], b, 0, s.clone())
			w.block(b.Succs[1], b, 0, s.clone())
			return
		case *ssa.Jump:
			w.block(b.Succs[0], b, 0, s)
			return
		}
	}
}

func isEOF(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
}

var endsMemo = map[string]bool{}

// endsOn: f does not return when the parameter is a non-nil error.
func endsOn(f *ssa.Function, param ssa.Value) bool {
	key := f.String() + "/" + param.Name()
	if v, ok := endsMemo[key]; ok {
		return v
	}
	endsMemo[key] = false
	w := newErrWalk(f)
	w.errIdx = -1 // any return counts
	s := &errSt{map[ssa.Value]bool{param: true}, map[ssa.Value]bool{}, map[ssa.Value]int{}}
	w.block(f.Blocks[0], nil, 0, s)
	endsMemo[key] = len(w.bad) == 0
	return endsMemo[key]
}

// neverFails lists calls whose error result is nil by their documentation.
func neverFails(cc *ssa.CallCommon) bool {
	name := ""
	var recv types.Type
	if cc.IsInvoke() {
		name, recv = cc.Method.Name(), cc.Value.Type()
	} else if f := cc.StaticCallee(); f != nil {
		name = f.Name()
		if f.Signature.Recv() != nil {
			recv = f.Signature.Recv().Type()
		}
		if recv == nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() {
			case "fmt":
				return strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fprint")
			case "golang.org/x/crypto/blake2b", "golang.org/x/crypto/blake2s":
				return strings.HasPrefix(name, "New") && isNilConst(cc.Args[len(cc.Args)-1])
			}
		}
	}
	if recv == nil {
		return false
	}
	if p, ok := types.Unalias(recv).(*types.Pointer); ok {
		recv = p.Elem()
	}
	path := ""
	if n, ok := types.Unalias(recv).(*types.Named); ok && n.Obj().Pkg() != nil {
		path = n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	switch path {
	case "hash.Hash", "strings.Builder", "bytes.Buffer", "hash.Hash32", "hash.Hash64":
		return strings.HasPrefix(name, "Write")
	case "io.Writer":
		// in this code base only hashes are written to through io.Writer
		return name == "Write" && writesHashes()
	case "archive/tar.Reader":
		return false
	}
	return name == "Close"
}

var hashWriters = -1

// writesHashes: every io.Writer the module creates from a concrete value is a hash or buffer.
func writesHashes() bool {
	if hashWriters >= 0 {
		return hashWriters == 1
	}
	hashWriters = 1
	for _, f := range P.allFuncs() {
		P.body(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var from types.Type
				var to types.Type
				switch x := in.(type) {
				case *ssa.MakeInterface:
					from, to = x.X.Type(), x.Type()
				case *ssa.ChangeInterface:
					from, to = x.X.Type(), x.Type()
				default:
					continue
				}
				if to.String() != "io.Writer" {
					continue
				}
				switch from.String() {
				case "hash.Hash", "*bytes.Buffer", "*strings.Builder":
				default:
					hashWriters = 0
				}
			}
		}
	}
	return hashWriters == 1
}

// errResult is the value holding the error result of a call: nil if it is not taken.
func errResult(call *ssa.Call) (v ssa.Value, has bool) {
	switch t := call.Type().(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if isErr(t.At(i).Type()) {
				for _, r := range *call.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == i && e.Referrers() != nil && len(*e.Referrers()) > 0 {
						return e, true
					}
				}
				return nil, true
			}
		}
		return nil, false
	default:
		if isErr(t) {
			if call.Referrers() == nil || len(*call.Referrers()) == 0 {
				return nil, true
			}
			return call, true
		}
	}
	return nil, false
}

func checkC10(c *Ctx) {
	c.explained = "For every call with an error result in the packages beserial, wire, accounts, tree, genesis, policy, wallet and cmd, all paths from the call on which the error is not nil are enumerated; each must end in a return with a non-nil error, a panic or the end of the program. Discarded error results are only accepted from calls documented never to fail."
	calls := 0
	for _, f := range P.allFuncs() {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || strings.HasSuffix(root.Pkg.Pkg.Path(), "/address") {
			continue
		}
		P.body(f)
		c.funcs[f.String()] = true
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				if df, ok := in.(*ssa.Defer); ok {
					c.deferred(f, df)
					continue
				}
				if g, ok := in.(*ssa.Go); ok {
					sig := g.Call.Signature()
					for j := 0; j < sig.Results().Len(); j++ {
						c.must(!isErr(sig.Results().At(j).Type()), "error used", P.pos(g.Pos()), "the error of a goroutine's function is discarded")
					}
					continue
				}
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				v, has := errResult(call)
				if !has {
					continue
				}
				if cf := call.Call.StaticCallee(); cf != nil && cf.Pkg != nil && (cf.Pkg.Pkg.Path() == "fmt" && cf.Name() == "Errorf" || cf.Pkg.Pkg.Path() == "errors") {
					continue // makes an error, does not fail
				}
				calls++
				what := callName(&call.Call)
				if v == nil {
					ok := neverFails(&call.Call) || c.stickyNext(f, call)
					c.must(ok, "error used", P.pos(call.Pos()), "the error of %s is discarded in %s", what, f)
					continue
				}
				if neverFails(&call.Call) {
					continue
				}
				w := newErrWalk(f)
				s := &errSt{map[ssa.Value]bool{v: true}, map[ssa.Value]bool{}, map[ssa.Value]int{}}
				// start behind the extraction of the error
				start := i + 1
				w.block(b, nil, start, s)
				c.paths += len(w.visited)
				if len(w.bad) == 0 {
					c.must(true, "failure propagates", P.pos(call.Pos()), "error of %s in %s", what, f)
				} else {
					c.oblig++
					c.fail("failure propagates", P.pos(call.Pos()), nil, "when %s fails, %s %s", what, f, strings.Join(w.bad, "; "))
				}
			}
		}
	}
	c.must(calls >= 40, "anchored", "module", "%d calls with an error result", calls)
}

func (c *Ctx) deferred(f *ssa.Function, d *ssa.Defer) {
	sig := d.Call.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		if isErr(sig.Results().At(i).Type()) {
			c.must(neverFails(&d.Call), "error used", P.pos(d.Pos()), "the error of deferred %s is discarded in %s", callName(&d.Call), f)
		}
	}
}

// stickyNext: skipping an archive entry; a reader error shows again at the next call.
func (c *Ctx) stickyNext(f *ssa.Function, call *ssa.Call) bool {
	cf := call.Call.StaticCallee()
	if cf == nil || cf.String() != "(*archive/tar.Reader).Next" {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if o, ok := in.(*ssa.Call); ok && o != call && o.Call.StaticCallee() == cf && o.Call.Args[0] == call.Call.Args[0] {
				if v, _ := errResult(o); v != nil {
					return true
				}
			}
		}
	}
	return false
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Value.Type().String() + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.String()
	}
	return cc.Value.Name()
}
