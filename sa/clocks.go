package main

// S01: an interprocedural lockset analysis over SSA. Memory reachable from package-level
// variables is tracked by access path; every access to a variable that is modified after
// initialisation must happen with a common lock held, and no lock stays held on a way out.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["S01"] = checkS01 }

// lockType: 1 Mutex, 2 RWMutex.
func lockType(t types.Type) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return 0
	}
	switch n.Obj().Name() {
	case "Mutex":
		return 1
	case "RWMutex":
		return 2
	}
	return 0
}

// refLike: a value of the type can lead to shared memory.
func refLike(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refLike(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refLike(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

type memAccess struct {
	root  *ssa.Global
	path  string
	write bool
	locks map[string]byte // held: 'L' or 'R'
	pos   token.Pos
	fn    *ssa.Function
	init  bool
}

// lockCtx is the binding of a function's parameters and free variables.
type lockCtx struct {
	path map[ssa.Value]string
	root map[ssa.Value]*ssa.Global
	fns  map[ssa.Value]ssa.Value // function values, in terms of the binder
	fctx map[ssa.Value]*lockCtx
}

type lockExit struct {
	held  string
	panic bool
	ret   string // path returned, if any
	root  *ssa.Global
}

type lockAna struct {
	acc    []memAccess
	seenA  map[string]bool
	memo   map[string][]lockExit
	busy   map[string]bool
	order  map[[2]string]token.Pos
	bad    map[string]bool
	onBad  func(rule, where, what string)
	funcs  map[string]bool
	isInit bool
	sites  int
	depth  int
}

func (a *lockAna) report(rule string, pos token.Pos, fn *ssa.Function, format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	w := P.pos(pos) + " (" + fn.String() + ")"
	if k := rule + w + what; !a.bad[k] {
		a.bad[k] = true
		a.onBad(rule, w, what)
	}
}

func (cx *lockCtx) key() string {
	if cx == nil {
		return ""
	}
	var ks []string
	for v, p := range cx.path {
		ks = append(ks, v.Name()+"="+p)
	}
	for v, f := range cx.fns {
		ks = append(ks, v.Name()+"=fn:"+f.String()+f.Name()+cx.fctx[v].key())
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

// heldSet parses and formats lock states.
func parseHeld(s string) map[string]byte {
	m := map[string]byte{}
	for _, x := range strings.Split(s, "|") {
		if x != "" {
			m[x[1:]] = x[0]
		}
	}
	return m
}

func fmtHeld(m map[string]byte) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, string(v)+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

// vals resolves the access paths of the values of one function under a binding.
type lockVals struct {
	a    *lockAna
	fn   *ssa.Function
	cx   *lockCtx
	path map[ssa.Value]string
	root map[ssa.Value]*ssa.Global
	ret  map[ssa.Value]lockExit
}

func (v *lockVals) of(x ssa.Value) (string, *ssa.Global) {
	if p, ok := v.path[x]; ok {
		return p, v.root[x]
	}
	v.path[x] = "" // break cycles
	p, r := v.calc(x)
	v.path[x], v.root[x] = p, r
	return p, r
}

func (v *lockVals) calc(x ssa.Value) (string, *ssa.Global) {
	switch y := x.(type) {
	case *ssa.Global:
		if y.Pkg == nil || !P.isRep[y.Pkg.Pkg] {
			return "", nil
		}
		return y.Pkg.Pkg.Name() + "." + y.Name(), y
	case *ssa.Parameter, *ssa.FreeVar:
		if v.cx != nil {
			return v.cx.path[x], v.cx.root[x]
		}
	case *ssa.FieldAddr:
		if p, r := v.of(y.X); r != nil {
			st := y.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return p + "." + st.Field(y.Field).Name(), r
		}
	case *ssa.Field:
		if p, r := v.of(y.X); r != nil && refLike(y.Type(), 0) {
			return p + "." + y.X.Type().Underlying().(*types.Struct).Field(y.Field).Name(), r
		}
	case *ssa.IndexAddr:
		if p, r := v.of(y.X); r != nil {
			return p + "[]", r
		}
	case *ssa.Index:
		if p, r := v.of(y.X); r != nil && refLike(y.Type(), 0) {
			return p + "[]", r
		}
	case *ssa.Lookup:
		if p, r := v.of(y.X); r != nil && refLike(y.Type(), 0) {
			return p + "[]", r
		}
	case *ssa.UnOp:
		if y.Op == token.MUL && refLike(y.Type(), 0) {
			if p, r := v.of(y.X); r != nil {
				return p + "*", r
			}
			// a local cell holding a tracked value
			if al, ok := y.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
						if p, r := v.of(s.Val); r != nil {
							return p, r
						}
					}
				}
			}
		}
	case *ssa.Slice:
		return v.of(y.X)
	case *ssa.ChangeType:
		return v.of(y.X)
	case *ssa.Convert:
		if refLike(y.Type(), 0) && refLike(y.X.Type(), 0) {
			return v.of(y.X)
		}
	case *ssa.MakeInterface:
		return v.of(y.X)
	case *ssa.ChangeInterface:
		return v.of(y.X)
	case *ssa.TypeAssert:
		return v.of(y.X)
	case *ssa.Extract:
		if refLike(y.Type(), 0) {
			return v.of(y.Tuple)
		}
	case *ssa.Next:
		return v.of(y.Iter)
	case *ssa.Range:
		return v.of(y.X)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if p, r := v.of(e); r != nil {
				return p, r
			}
		}
	case *ssa.Call:
		if e, ok := v.ret[y]; ok {
			return e.ret, e.root
		}
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return v.of(y.Call.Args[0])
		}
		// results of repository functions that hand out tracked memory
		if f := y.Call.StaticCallee(); f != nil && isRepo(f) && v.a.depth < 6 && f.Blocks != nil && refLike(y.Type(), 0) {
			cx := v.bind(f, &y.Call)
			in := &lockVals{a: v.a, fn: f, cx: cx, path: map[ssa.Value]string{}, root: map[ssa.Value]*ssa.Global{}, ret: map[ssa.Value]lockExit{}}
			v.a.depth++
			defer func() { v.a.depth-- }()
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range r.Results {
						if p, g := in.of(x); g != nil {
							return p, g
						}
					}
				}
			}
		}
	}
	return "", nil
}

// fnOf resolves a called function value.
func (v *lockVals) fnOf(x ssa.Value) (*ssa.Function, *lockCtx) {
	return v.fnIn(x, map[ssa.Value]bool{})
}

func (v *lockVals) fnIn(x ssa.Value, seen map[ssa.Value]bool) (*ssa.Function, *lockCtx) {
	t := x.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if _, ok := t.(*types.Signature); !ok || seen[x] {
		return nil, nil
	}
	seen[x] = true
	switch y := x.(type) {
	case *ssa.Function:
		return y, nil
	case *ssa.MakeClosure:
		f := y.Fn.(*ssa.Function)
		cx := &lockCtx{map[ssa.Value]string{}, map[ssa.Value]*ssa.Global{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]*lockCtx{}}
		for i, fv := range f.FreeVars {
			if p, r := v.of(y.Bindings[i]); r != nil {
				cx.path[fv], cx.root[fv] = p, r
			}
			if g, gcx := v.fnIn(y.Bindings[i], seen); g != nil {
				cx.fns[fv], cx.fctx[fv] = g, gcx
			}
		}
		return f, cx
	case *ssa.Parameter, *ssa.FreeVar:
		if v.cx != nil {
			if g, ok := v.cx.fns[x].(*ssa.Function); ok {
				return g, v.cx.fctx[x]
			}
		}
	case *ssa.ChangeType:
		return v.fnIn(y.X, seen)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			var f *ssa.Function
			var cx *lockCtx
			n := 0
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
					f, cx = v.fnIn(s.Val, seen)
					n++
				}
			}
			if n == 1 {
				return f, cx
			}
		}
		if fv, ok := y.X.(*ssa.FreeVar); ok && v.cx != nil {
			if g, ok := v.cx.fns[fv].(*ssa.Function); ok {
				return g, v.cx.fctx[fv]
			}
		}
	case *ssa.Alloc:
		// a captured cell holding one function
		var f *ssa.Function
		var cx *lockCtx
		n := 0
		for _, ref := range *y.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == y {
				f, cx = v.fnIn(s.Val, seen)
				n++
			}
		}
		if n == 1 {
			return f, cx
		}
	}
	return nil, nil
}

func (v *lockVals) bind(f *ssa.Function, cc *ssa.CallCommon) *lockCtx {
	cx := &lockCtx{map[ssa.Value]string{}, map[ssa.Value]*ssa.Global{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]*lockCtx{}}
	for i, a := range cc.Args {
		if i >= len(f.Params) {
			break
		}
		if p, r := v.of(a); r != nil {
			cx.path[f.Params[i]], cx.root[f.Params[i]] = p, r
		}
		if g, gcx := v.fnOf(a); g != nil {
			cx.fns[f.Params[i]], cx.fctx[f.Params[i]] = g, gcx
		}
	}
	return cx
}

func (a *lockAna) access(x ssa.Value, v *lockVals, write bool, held string, pos token.Pos) {
	p, r := v.of(x)
	if r == nil {
		return
	}
	k := fmt.Sprint(p, write, held, pos, v.fn.String(), a.isInit)
	if a.seenA[k] {
		return
	}
	a.seenA[k] = true
	a.acc = append(a.acc, memAccess{r, p, write, parseHeld(held), pos, v.fn, a.isInit})
}

// readOnlyArg: the standard library function only reads the memory behind argument i.
func readOnlyArg(f *ssa.Function, i int) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "math/big":
		switch f.Name() {
		case "DivMod", "QuoRem", "GCD", "FillBytes", "Bytes", "Append", "Text", "String":
			return i == 0 && f.Name() != "DivMod" && f.Name() != "QuoRem" && f.Name() != "GCD" || (i == 1 || i == 2) && (f.Name() == "DivMod" || f.Name() == "QuoRem")
		}
		if f.Signature.Recv() != nil && i == 0 {
			switch f.Name() {
			case "Cmp", "CmpAbs", "Sign", "BitLen", "Bit", "Bits", "Int64", "Uint64", "IsInt64", "IsUint64", "ProbablyPrime", "TrailingZeroBits", "Format", "Float64":
				return true
			}
			return false
		}
		return true
	case "fmt", "bytes", "strings", "strconv", "encoding/hex", "errors", "unicode/utf8":
		return true
	case "encoding/base32", "encoding/base64", "encoding/binary":
		return true
	case "embed", "io/fs":
		return true
	case "os", "log", "github.com/spf13/cobra", "github.com/spf13/pflag":
		return true
	case "reflect", "hash", "golang.org/x/crypto/blake2b":
		return true
	}
	return false
}

type lockSt struct {
	held   string
	defers []*ssa.Defer
}

func (s lockSt) key() string { return fmt.Sprint(s.held, s.defers) }

// analyse runs fn from the lock state and returns how it can be left.
func (a *lockAna) analyse(fn *ssa.Function, cx *lockCtx, held string) []lockExit {
	if !P.body(fn) {
		return []lockExit{{held: held}}
	}
	key := fn.String() + cx.key() + "#" + held + fmt.Sprint(a.isInit)
	if e, ok := a.memo[key]; ok {
		return e
	}
	if a.busy[key] {
		return []lockExit{{held: held}}
	}
	a.busy[key] = true
	defer delete(a.busy, key)
	a.funcs[fn.String()] = true
	v := &lockVals{a: a, fn: fn, cx: cx, path: map[ssa.Value]string{}, root: map[ssa.Value]*ssa.Global{}, ret: map[ssa.Value]lockExit{}}
	exits := map[lockExit]bool{}
	type item struct {
		b  *ssa.BasicBlock
		st lockSt
	}
	seen := map[string]bool{}
	work := []item{{fn.Blocks[0], lockSt{held: held}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index, "/", it.st.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 || len(it.st.defers) > 16 {
			a.report("decided", fn.Pos(), fn, "undecided: too many lock states")
			break
		}
		sts := []lockSt{it.st}
		for _, in := range it.b.Instrs {
			var next []lockSt
			for _, s := range sts {
				next = append(next, a.step(v, in, s, exits)...)
			}
			sts = next
		}
		for _, s := range sts {
			for _, b := range it.b.Succs {
				work = append(work, item{b, s})
			}
		}
	}
	var out []lockExit
	for e := range exits {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	a.memo[key] = out
	return out
}

// runDefers gives the states after the deferred calls.
func (a *lockAna) runDefers(v *lockVals, s lockSt) []lockSt {
	sts := []lockSt{s}
	for i := len(s.defers) - 1; i >= 0; i-- {
		var next []lockSt
		for _, x := range sts {
			for _, h := range a.call(v, s.defers[i], &s.defers[i].Call, x.held, nil, x) {
				next = append(next, lockSt{held: h})
			}
		}
		sts = next
	}
	for i := range sts {
		sts[i].defers = nil
	}
	return sts
}

func (a *lockAna) step(v *lockVals, in ssa.Instruction, s lockSt, exits map[lockExit]bool) []lockSt {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && lockType(x.Type()) == 0 {
			a.access(x.X, v, false, s.held, x.Pos())
		}
	case *ssa.Store:
		a.access(x.Addr, v, true, s.held, x.Pos())
	case *ssa.MapUpdate:
		a.access(x.Map, v, true, s.held, x.Pos())
	case *ssa.Lookup:
		a.access(x.X, v, false, s.held, x.Pos())
	case *ssa.Range:
		a.access(x.X, v, false, s.held, x.Pos())
	case *ssa.Defer:
		return []lockSt{{s.held, append(append([]*ssa.Defer{}, s.defers...), x)}}
	case *ssa.RunDefers:
		return a.runDefers(v, s)
	case *ssa.Return:
		exits[lockExit{held: s.held}] = true
		return nil
	case *ssa.Panic:
		for _, t := range a.runDefers(v, s) {
			exits[lockExit{held: t.held, panic: true}] = true
		}
		return nil
	case *ssa.Go:
		if f, cx := v.fnOf(x.Call.Value); f != nil {
			a.rootExit(f, a.analyse(f, v.merge(f, cx, &x.Call), ""))
		}
	case *ssa.Call:
		var out []lockSt
		for _, h := range a.call(v, x, &x.Call, s.held, exits, s) {
			out = append(out, lockSt{h, s.defers})
		}
		return out
	}
	return []lockSt{s}
}

func (v *lockVals) merge(f *ssa.Function, cx *lockCtx, cc *ssa.CallCommon) *lockCtx {
	b := v.bind(f, cc)
	if cx != nil {
		for k, p := range cx.path {
			b.path[k], b.root[k] = p, cx.root[k]
		}
		for k, g := range cx.fns {
			b.fns[k], b.fctx[k] = g, cx.fctx[k]
		}
	}
	return b
}

func (a *lockAna) rootExit(f *ssa.Function, es []lockExit) {
	for _, e := range es {
		if e.held == "" {
			continue
		}
		how := "returns"
		if e.panic {
			how = "can panic"
		}
		a.report("released", f.Pos(), f, "%s %s with %s held", f.Name(), how, e.held)
	}
}

func (a *lockAna) call(v *lockVals, in ssa.Instruction, cc *ssa.CallCommon, held string, exits map[lockExit]bool, s lockSt) []string {
	pos := in.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "delete", "clear":
			a.access(cc.Args[0], v, true, held, pos)
			if len(cc.Args) > 1 && b.Name() != "delete" {
				a.access(cc.Args[1], v, false, held, pos)
			}
		case "len", "cap":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				a.access(cc.Args[0], v, false, held, pos)
			}
		}
		return []string{held}
	}
	f := cc.StaticCallee()
	if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && f.Signature.Recv() != nil && len(cc.Args) > 0 {
		if t := lockType(cc.Args[0].Type()); t != 0 {
			p, r := v.of(cc.Args[0])
			if r == nil {
				// a lock of some object: not shared package state
				return []string{held}
			}
			a.sites++
			m := parseHeld(held)
			switch f.Name() {
			case "Lock", "RLock":
				if m[p] != 0 && !(m[p] == 'R' && f.Name() == "RLock") {
					a.report("no self-deadlock", pos, v.fn, "%s is locked while it is already held", p)
					return nil
				}
				for q := range m {
					if q != p {
						a.order[[2]string{q, p}] = pos
					}
				}
				m[p] = 'L'
				if f.Name() == "RLock" {
					m[p] = 'R'
				}
			case "Unlock", "RUnlock":
				want := byte('L')
				if f.Name() == "RUnlock" {
					want = 'R'
				}
				if m[p] != want {
					a.report("paired", pos, v.fn, "%s of %s which is not held so", f.Name(), p)
					return nil
				}
				delete(m, p)
			default:
				a.report("decided", pos, v.fn, "undecided: %s of %s", f.Name(), p)
			}
			return []string{fmtHeld(m)}
		}
	}
	callee, cx := v.fnOf(cc.Value)
	if f != nil && callee == nil {
		callee = f
	}
	if callee == nil && !cc.IsInvoke() {
		// unknown function value: assumed not to touch the locks
		for _, x := range cc.Args {
			a.access(x, v, true, held, pos)
		}
		return []string{held}
	}
	if cc.IsInvoke() {
		for _, x := range append([]ssa.Value{cc.Value}, cc.Args...) {
			if types.IsInterface(x.Type()) && isErr(x.Type()) {
				continue
			}
			a.access(x, v, false, held, pos)
		}
		out := map[string]bool{}
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, T := range P.implementers(it) {
			m := methodSel(T, cc.Method.Name())
			if m == nil || !isRepo(m) && m.Synthetic == "" {
				continue
			}
			for _, e := range a.analyse(m, nil, held) {
				if e.panic {
					a.panics(v, s, e.held, exits)
				} else {
					out[e.held] = true
				}
			}
		}
		if len(out) == 0 {
			return []string{held}
		}
		return sortedKeys(out)
	}
	if !isRepo(callee) {
		for i, x := range cc.Args {
			// function arguments may be called
			if g, gcx := v.fnOf(x); g != nil {
				for _, e := range a.analyse(g, gcx, held) {
					if e.held != held {
						a.report("decided", pos, v.fn, "undecided: %s passed to %s changes the locks held", g, callee)
					}
				}
			}
			if refLike(x.Type(), 0) {
				a.access(x, v, !readOnlyArg(callee, i), held, pos)
			}
		}
		return []string{held}
	}
	out := map[string]bool{}
	for _, e := range a.analyse(callee, v.merge(callee, cx, cc), held) {
		if e.panic {
			a.panics(v, s, e.held, exits)
		} else {
			out[e.held] = true
		}
	}
	return sortedKeys(out)
}

func (a *lockAna) panics(v *lockVals, s lockSt, held string, exits map[lockExit]bool) {
	if exits == nil {
		return
	}
	for _, t := range a.runDefers(v, lockSt{held, s.defers}) {
		exits[lockExit{held: t.held, panic: true}] = true
	}
}

// lockRoots lists the functions that can be entered from outside: exported ones, main and
// functions whose value is taken.
func lockRoots() (roots, inits []*ssa.Function) {
	called := map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	all := P.allFuncs()
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						called[g] = true
					}
					skip = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != skip && g.Parent() == nil {
						taken[g] = true
					}
				}
			}
		}
	}
	for _, f := range all {
		if f.Parent() != nil {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			inits = append(inits, f)
			continue
		}
		exp := token.IsExported(f.Name())
		if exp || f.Name() == "main" || taken[f] || !called[f] {
			roots = append(roots, f)
		}
	}
	return
}

func newLockAna(c *Ctx) *lockAna {
	a := &lockAna{seenA: map[string]bool{}, memo: map[string][]lockExit{}, busy: map[string]bool{}, order: map[[2]string]token.Pos{}, bad: map[string]bool{}, funcs: map[string]bool{}}
	a.onBad = func(rule, where, what string) {
		c.oblig++
		c.rules[rule]++
		c.fail(rule, where, nil, "%s", what)
	}
	return a
}

// runAll analyses every entry point from the state without locks.
func (a *lockAna) runAll(c *Ctx) {
	roots, inits := lockRoots()
	for _, f := range roots {
		n := len(a.bad)
		a.rootExit(f, a.analyse(f, nil, ""))
		c.roots = append(c.roots, f.String())
		if len(a.bad) == n {
			c.oblig++
			c.done++
			c.rules["released"]++
		}
	}
	a.isInit = true
	for _, f := range inits {
		a.rootExit(f, a.analyse(f, nil, ""))
	}
	a.isInit = false
	for f := range a.funcs {
		c.funcs[f] = true
	}
	c.sites += a.sites
}

// mutable lists the package-level variables modified outside of initialisation.
func (a *lockAna) mutable() map[*ssa.Global]bool {
	m := map[*ssa.Global]bool{}
	for _, x := range a.acc {
		if x.write && !x.init {
			m[x.root] = true
		}
	}
	return m
}

func checkS01(c *Ctx) {
	c.explained = "An interprocedural lockset analysis over SSA: every entry point of the module (exported functions, functions whose value is taken) is followed with the set of locks held, through calls, closures, deferred calls and panics, tracking memory reachable from package-level variables by access path. For every variable of the policy package modified after initialisation, all accesses must have a common lock held (exclusively for writes); no lock may be taken twice, released when not held, or be held when an entry point is left; lock acquisition must have no cyclic order."
	a := newLockAna(c)
	a.runAll(c)
	mut := a.mutable()
	n := 0
	for _, g := range sortedGlobals(mut) {
		if g.Pkg != P.pkg("policy") {
			continue
		}
		n++
		var common map[string]bool
		bare := false
		for _, x := range a.acc {
			if x.root != g || x.init {
				continue
			}
			where := P.pos(x.pos) + " (" + x.fn.String() + ")"
			kind := "read"
			if x.write {
				kind = "written"
			}
			held := map[string]bool{}
			for l, k := range x.locks {
				if k == 'L' || !x.write {
					held[l] = true
				}
			}
			if len(held) == 0 {
				bare = true
				c.must(false, "guarded", where, "%s is %s without a lock that excludes concurrent users", x.path, kind)
				continue
			}
			c.must(true, "guarded", where, "%s is %s under %s", x.path, kind, strings.Join(sortedKeys(held), ", "))
			if common == nil {
				common = held
			} else {
				for l := range common {
					if !held[l] {
						delete(common, l)
					}
				}
			}
		}
		if !bare {
			c.must(len(common) > 0, "same lock", P.pos(g.Pos()), "the accesses to %s share a lock", g.Name())
		}
	}
	c.must(n > 0, "anchored", "policy", "the policy package keeps shared state behind a lock")
	// lock order
	for e, pos := range a.order {
		rev, ok := a.order[[2]string{e[1], e[0]}]
		c.must(!ok, "lock order", P.pos(pos), "%s and %s are taken in both orders (also at %s)", e[0], e[1], P.pos(rev))
	}
}

func sortedGlobals(m map[*ssa.Global]bool) []*ssa.Global {
	var out []*ssa.Global
	for g := range m {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
