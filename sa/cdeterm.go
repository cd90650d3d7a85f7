package main

// A13: consensus computations depend on nothing but their inputs. The call graph of the
// consensus packages is searched for sources of nondeterminism, and every iteration over a map
// is followed by a taint analysis: the order must not reach results, decisions or effects.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["A13"] = checkA13 }

// purePkgs: standard and third-party packages whose functions depend on their arguments only.
var purePkgs = map[string]bool{
	"bytes": true, "strings": true, "strconv": true, "errors": true, "fmt": true, "unicode": true, "unicode/utf8": true,
	"math": true, "math/bits": true, "math/big": true, "sort": true, "bufio": true, "io": true, "reflect": true, "sync": true,
	"encoding/binary": true, "encoding/hex": true, "encoding/base32": true, "encoding/base64": true, "encoding": true,
	"hash": true, "crypto": true, "crypto/ed25519": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/subtle": true,
	"container/heap": true, "container/list": true, "hash/crc32": true, "slices": true, "cmp": true, "crypto/hmac": true,
}

// impure members of otherwise pure packages.
var impureFns = map[string]string{
	"(reflect.Value).MapRange": "iterates a map", "(reflect.Value).MapKeys": "iterates a map", "(reflect.Value).Seq": "iterates", "(reflect.Value).Seq2": "iterates",
	"(reflect.Value).Pointer": "yields an address", "(reflect.Value).UnsafeAddr": "yields an address", "(reflect.Value).UnsafePointer": "yields an address",
	"(*sync.Map).Range": "iterates a map", "(*sync.Pool).Get": "depends on the schedule", "(*sync.Mutex).TryLock": "depends on the schedule",
	"(*sync.RWMutex).TryLock": "depends on the schedule", "(*sync.RWMutex).TryRLock": "depends on the schedule",
	"crypto/ed25519.GenerateKey": "draws randomness", "fmt.Scan": "reads input", "fmt.Scanf": "reads input", "fmt.Scanln": "reads input",
	"(*math/big.Int).Rand": "draws randomness", "reflect.Select": "depends on the schedule",
}

func pureExternal(f *ssa.Function) (bool, string) {
	if f.Pkg == nil {
		// wrappers and instances: judged by the object they stand for
		if o := f.Object(); o == nil || o.Pkg() == nil || purePkgs[o.Pkg().Path()] {
			return true, ""
		}
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else {
		p = f.Object().Pkg().Path()
	}
	if w, ok := impureFns[f.String()]; ok {
		return false, w
	}
	if purePkgs[p] || strings.HasPrefix(p, "golang.org/x/crypto/") {
		return true, ""
	}
	return false, "package " + p + " is not known to compute from its arguments alone"
}

// callTargets lists the functions of the module and outside it that a call can reach.
func callTargets(cc *ssa.CallCommon) []*ssa.Function {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	if cc.IsInvoke() {
		if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
			for _, T := range P.implementers(it) {
				if m := methodSel(T, cc.Method.Name()); m != nil {
					out = append(out, m)
				}
			}
		}
		return out
	}
	// a function value: any function of the module with the signature whose value is taken
	for _, f := range P.allFuncs() {
		if funcTaken(f) && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), cc.Value.Type().Underlying()) {
			out = append(out, f)
		}
	}
	return out
}

var takenMemo map[*ssa.Function]bool

func funcTaken(f *ssa.Function) bool {
	if takenMemo == nil {
		takenMemo = map[*ssa.Function]bool{}
		for _, g := range P.allFuncs() {
			if g.Parent() != nil {
				takenMemo[g] = true
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var skip ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok {
						skip = c.Common().Value
					}
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && *op != skip {
							takenMemo[h] = true
						}
					}
				}
			}
		}
	}
	return takenMemo[f]
}

func hasFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

type determ struct {
	c       *Ctx
	set     map[*ssa.Function]bool
	order   []*ssa.Function
	tainted map[*ssa.Function]bool // hands out a value that depends on a map's order
	pure    map[*ssa.Function]int  // 1 busy, 2 pure, 3 not
	ranges  int
}

func checkA13(c *Ctx) {
	c.explained = "The call graph of the module (interface calls resolved to every implementation, function values by signature) is followed from every function of the accounts, beserial, policy, tree and wire packages and from genesis initialisation. No reachable instruction may start a goroutine, select, or work on floating point, and every function outside the module that is called must belong to a package that computes from its arguments alone. Each iteration over a map is decided by a taint analysis: what depends on the order may only reach error values; effects within the loop must be keyed by the iteration key; accumulation must be commutative."
	d := &determ{c: c, set: map[*ssa.Function]bool{}, tainted: map[*ssa.Function]bool{}, pure: map[*ssa.Function]int{}}
	pk := 0
	for _, f := range P.allFuncs() {
		if f.Pkg == nil || f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		switch strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/") {
		case "accounts", "beserial", "policy", "tree", "wire":
			d.reach(f)
			pk++
		case "genesis":
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if strings.Contains(f.Signature.Params().At(i).Type().String(), modPath+"/accounts.") {
					d.reach(f)
				}
			}
		}
	}
	c.must(pk >= 100, "anchored", modPath, "%d functions of the consensus packages", pk)
	for _, f := range d.order {
		d.sources(f)
	}
	for changed := true; changed; {
		changed = false
		for _, f := range d.order {
			if !d.tainted[f] && d.mapOrder(f, false) {
				d.tainted[f], changed = true, true
			}
		}
	}
	for _, f := range d.order {
		d.mapOrder(f, true)
	}
	c.must(d.ranges > 0, "vacuous", modPath, "%d iterations over maps", d.ranges)
}

func (d *determ) reach(f *ssa.Function) {
	if f == nil || d.set[f] || !inModule(f) {
		return
	}
	if !P.body(f) {
		return
	}
	d.set[f] = true
	d.order = append(d.order, f)
	for _, a := range f.AnonFuncs {
		d.reach(a)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range callTargets(ci.Common()) {
					d.reach(g)
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					d.reach(g)
				}
			}
		}
	}
}

// inModule: declared in the module, or a wrapper of something declared there.
func inModule(f *ssa.Function) bool {
	if isRepo(f) {
		return true
	}
	if f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil {
		return P.isRep[f.Object().Pkg()]
	}
	return false
}

func (d *determ) at(f *ssa.Function, pos token.Pos) string {
	if !pos.IsValid() {
		pos = f.Pos()
	}
	return P.pos(pos) + " (" + f.String() + ")"
}

func (d *determ) sources(f *ssa.Function) {
	bad := ""
	var badPos token.Pos
	note := func(pos token.Pos, format string, args ...interface{}) {
		if bad == "" {
			bad, badPos = fmt.Sprintf(format, args...), pos
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Go:
				note(in.Pos(), "starts a goroutine")
			case *ssa.Select:
				note(in.Pos(), "selects among channels")
			}
			if v, ok := in.(ssa.Value); ok && hasFloat(v.Type()) {
				note(in.Pos(), "computes in floating point")
			}
			if cv, ok := in.(*ssa.Convert); ok && hasFloat(cv.X.Type()) {
				note(in.Pos(), "converts from floating point")
			}
			for _, op := range in.Operands(nil) {
				switch y := (*op).(type) {
				case *ssa.Function:
					if !inModule(y) {
						if ok, why := pureExternal(y); !ok {
							note(in.Pos(), "uses %s: %s", y, why)
						}
					}
				case *ssa.Global:
					if y.Pkg != nil && !P.isRep[y.Pkg.Pkg] && !purePkgs[y.Pkg.Pkg.Path()] {
						note(in.Pos(), "uses %s", y)
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if cc := ci.Common(); cc.IsInvoke() && cc.Method.Pkg() != nil && !P.isRep[cc.Method.Pkg()] && !purePkgs[cc.Method.Pkg().Path()] {
					note(in.Pos(), "calls %s, which is not known to compute from its arguments alone", cc.Method.FullName())
				}
			}
		}
	}
	d.c.must(bad == "", "no outside influence", d.at(f, badPos), "%s", bad)
}

// natural loop of the block a map iteration advances in.
func natLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

// mapOrder follows what depends on map iteration order in f. It returns whether such a value
// leaves f by a result other than an error.
func (d *determ) mapOrder(f *ssa.Function, report bool) bool {
	leaves := false
	var fails []string
	var failPos []token.Pos
	fail := func(pos token.Pos, format string, args ...interface{}) {
		fails = append(fails, fmt.Sprintf(format, args...))
		failPos = append(failPos, pos)
	}
	taint := map[ssa.Value]bool{} // depends on the order, outside the loop
	type rng struct {
		next *ssa.Next
		loop map[*ssa.BasicBlock]bool
	}
	var rs []rng
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if !x.IsString {
					rs = append(rs, rng{x, natLoop(b)})
				}
			case *ssa.Call:
				for _, g := range callTargets(&x.Call) {
					if d.tainted[g] {
						taint[x] = true
					}
				}
			}
		}
	}
	if len(rs) == 0 && len(taint) == 0 {
		return false
	}
	for _, r := range rs {
		d.loopBody(f, r.next, r.loop, taint, fail)
	}
	// outside the loops
	inLoop := func(b *ssa.BasicBlock) bool {
		for _, r := range rs {
			if r.loop[b] {
				return true
			}
		}
		return false
	}
	sorted := func(v ssa.Value, at ssa.Instruction) bool { return sortedBefore(f, v, at) }
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v != nil && !taint[v] {
				taint[v], changed = true, true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				dirty := false
				for _, op := range in.Operands(nil) {
					if taint[*op] && !sorted(*op, in) {
						dirty = true
					}
				}
				if !dirty {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if taint[x.Val] {
						mark(storeBase(x.Addr))
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
						continue
					}
					mark(x)
				case ssa.Value:
					mark(x)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var hit ssa.Value
			for _, op := range in.Operands(nil) {
				if taint[*op] && !sorted(*op, in) {
					hit = *op
				}
			}
			if hit == nil {
				continue
			}
			switch x := in.(type) {
			case *ssa.If:
				if !inLoop(b) || taint[x.Cond] {
					fail(condPos(x), "a decision depends on the order of a map")
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if taint[v] && !sorted(v, in) && !(isErr(f.Signature.Results().At(i).Type()) && surelyErr(v)) {
						leaves = true
						if f.Object() != nil && token.IsExported(f.Name()) || funcTaken(f) {
							fail(x.Pos(), "result %d depends on the order of a map", i)
						}
					}
				}
			case *ssa.Store:
				if taint[x.Val] && localBase(x.Addr) == nil {
					fail(x.Pos(), "what is stored depends on the order of a map")
				}
			case *ssa.MapUpdate:
				fail(x.Pos(), "a map entry depends on the order of a map")
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				fail(in.Pos(), "a value that depends on the order of a map is passed on")
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "copy", "clear":
						fail(x.Pos(), "%s depends on the order of a map", bi.Name())
					}
					continue
				}
				for _, g := range d.targets(&x.Call) {
					if g == nil || inModule(g) && !d.isPure(g) {
						fail(x.Pos(), "%s gets a value that depends on the order of a map", calleeName(&x.Call))
						break
					}
				}
			}
		}
	}
	if report {
		seen := map[string]bool{}
		for i, w := range fails {
			if !seen[w] {
				seen[w] = true
				d.c.must(false, "map order", d.at(f, failPos[i]), "%s", w)
			}
		}
		for range rs {
			d.ranges++
			d.c.must(len(fails) == 0, "map order", d.at(f, f.Pos()), "the order of the iteration does not matter")
		}
	}
	return leaves
}

func condPos(x *ssa.If) token.Pos {
	if v, ok := x.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	return x.Block().Parent().Pos()
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return cc.Value.Name()
}

// targets is callTargets, with nil for an unknown callee.
func (d *determ) targets(cc *ssa.CallCommon) []*ssa.Function {
	ts := callTargets(cc)
	if len(ts) == 0 {
		if cc.IsInvoke() && cc.Method.Pkg() != nil && !P.isRep[cc.Method.Pkg()] {
			return nil
		}
		if cc.IsInvoke() && cc.Method.Pkg() == nil { // error.Error
			return nil
		}
		return []*ssa.Function{nil}
	}
	return ts
}

// storeBase is the variable behind an address, if it is a fresh one.
func storeBase(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return storeBase(x.X)
	case *ssa.IndexAddr:
		return storeBase(x.X)
	case *ssa.Slice:
		return storeBase(x.X)
	case *ssa.Alloc:
		return x
	case *ssa.MakeSlice:
		return x
	}
	return nil
}

func localBase(v ssa.Value) ssa.Value { return storeBase(v) }

// surelyErr: the error value is not nil.
func surelyErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return surelyErr(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "fmt.Errorf", "errors.New":
				return true
			}
			if inModule(f) && P.body(f) && len(f.Blocks) > 0 {
				n := 0
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if len(r.Results) != 1 || r.Results[0] == v || !surelyErr(r.Results[0]) {
							// pointers to a fresh object are converted by the caller
							if _, ok := r.Results[0].(*ssa.Alloc); !ok {
								return false
							}
						}
						n++
					}
				}
				return n > 0
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !surelyErr(e) {
				return false
			}
		}
		return true
	}
	return false
}

// sortedBefore: the slice was put in order before it is used there.
func sortedBefore(f *ssa.Function, v ssa.Value, at ssa.Instruction) bool {
	same := sliceCell(v)
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Pkg == nil || len(c.Call.Args) == 0 {
				continue
			}
			if p := g.Pkg.Pkg.Path(); p != "sort" && p != "slices" || !(strings.HasPrefix(g.Name(), "Sort") || g.Name() == "Strings" || g.Name() == "Ints" || strings.HasPrefix(g.Name(), "Slice") || g.Name() == "Stable") {
				continue
			}
			a := c.Call.Args[0]
			for {
				if m, ok := a.(*ssa.MakeInterface); ok {
					a = m.X
					continue
				}
				if m, ok := a.(*ssa.ChangeType); ok {
					a = m.X
					continue
				}
				break
			}
			if sliceCell(a) != same {
				continue
			}
			if in == at {
				return true
			}
			if at.Block() == b {
				for j, x := range b.Instrs {
					if x == at && j > i {
						return true
					}
				}
				// conversions for the call itself
				if w, ok := at.(ssa.Value); ok {
					for y := c.Call.Args[0]; ; {
						if y == w {
							return true
						}
						if m, ok := y.(*ssa.MakeInterface); ok {
							y = m.X
							continue
						}
						break
					}
				}
				// closures handed to the sort
				if _, ok := at.(*ssa.MakeClosure); ok {
					return true
				}
			} else if b.Dominates(at.Block()) {
				return true
			}
		}
	}
	return false
}

// sliceCell identifies a slice variable: its cell, if it lives in one.
func sliceCell(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

// isPure: the function only writes memory it allocated itself.
func (d *determ) isPure(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if !inModule(f) {
		ok, _ := pureExternal(f)
		return ok
	}
	switch d.pure[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	d.pure[f] = 1
	ok := P.body(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if localBase(x.Addr) == nil {
					ok = false
				}
			case *ssa.MapUpdate:
				if _, l := x.Map.(*ssa.MakeMap); !l {
					ok = false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				ok = false
			case *ssa.Call:
				if bi, y := x.Call.Value.(*ssa.Builtin); y {
					switch bi.Name() {
					case "delete", "clear", "copy":
						if localBase(x.Call.Args[0]) == nil {
							ok = false
						}
					}
					continue
				}
				for _, g := range d.targets(&x.Call) {
					if !d.isPure(g) {
						ok = false
					}
				}
			}
		}
	}
	if ok {
		d.pure[f] = 2
	} else {
		d.pure[f] = 3
	}
	return ok
}

// loopBody decides the effects of one iteration over a map and marks what leaves the loop.
func (d *determ) loopBody(f *ssa.Function, next *ssa.Next, loop map[*ssa.BasicBlock]bool, taint map[ssa.Value]bool, fail func(token.Pos, string, ...interface{})) {
	head := next.Block()
	iter := map[ssa.Value]bool{}  // depends on the current key or value
	carry := map[ssa.Value]bool{} // depends on earlier iterations
	keyed := map[ssa.Value]bool{} // an injective image of the key
	acc := map[ssa.Value]bool{}
	cells := map[ssa.Value]bool{} // variables assigned in the loop
	for _, r := range *next.Referrers() {
		e, ok := r.(*ssa.Extract)
		switch {
		case !ok:
			fail(next.Pos(), "undecided: the iteration over a map")
		case e.Index == 0: // whether there are more entries
		case !loop[e.Block()]: // an iteration that does not come back
			taint[e] = true
		default:
			keyed[e] = e.Index == 1
			iter[e] = true
		}
	}
	for _, in := range head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if commutes(p, loop) {
				acc[p] = true
			} else if !constPhi(p) {
				carry[p] = true
			} else {
				acc[p] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if v != nil && !m[v] {
				m[v], changed = true, true
			}
		}
		for b := range loop {
			for _, in := range b.Instrs {
				if in == ssa.Instruction(next) {
					continue
				}
				v, isVal := in.(ssa.Value)
				for _, op := range in.Operands(nil) {
					x := *op
					if s, ok := in.(*ssa.Store); ok {
						base := storeBase(s.Addr)
						if base == nil || base == x {
							continue
						}
						if bi, ok := base.(ssa.Instruction); ok && loop[bi.Block()] {
							// a variable of this iteration
							if iter[x] {
								set(iter, base)
							}
							if carry[x] {
								set(carry, base)
							}
							if keyed[x] && s.Addr == base {
								set(keyed, base)
							}
							continue
						}
						set(cells, base)
						continue
					}
					if !isVal {
						continue
					}
					if _, ok := in.(*ssa.Phi); ok && acc[v] {
						continue
					}
					if iter[x] {
						set(iter, v)
					}
					if carry[x] {
						set(carry, v)
					}
				}
				if isVal && injective(in, keyed) {
					set(keyed, v)
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && cells[storeBase(u.X)] {
					set(carry, v)
				}
			}
		}
	}
	effects := false
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If:
				if carry[x.Cond] {
					fail(condPos(x), "a decision in the iteration over a map depends on the entries met before")
				}
			case *ssa.Store:
				if storeBase(x.Addr) == nil {
					if ix, ok := x.Addr.(*ssa.IndexAddr); ok && keyed[ix.Index] && !carry[x.Val] {
						effects = true
						continue
					}
					fail(x.Pos(), "a store in the iteration over a map depends on its order")
				}
			case *ssa.MapUpdate:
				effects = true
				if !keyed[x.Key] || carry[x.Value] {
					fail(x.Pos(), "a map entry written in the iteration over a map depends on its order")
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				fail(in.Pos(), "the iteration over a map passes values on in its order")
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete":
						effects = true
						if !keyed[x.Call.Args[1]] {
							fail(x.Pos(), "a deletion in the iteration over a map depends on its order")
						}
					case "clear", "copy":
						if storeBase(x.Call.Args[0]) == nil {
							fail(x.Pos(), "%s in the iteration over a map", bi.Name())
						}
					}
					continue
				}
				pure := true
				for _, g := range d.targets(&x.Call) {
					if !d.isPure(g) {
						pure = false
					}
				}
				if pure && !(x.Call.IsInvoke() && x.Call.Method.Pkg() != nil && !P.isRep[x.Call.Method.Pkg()]) {
					continue
				}
				effects = true
				ok := false
				for _, a := range x.Call.Args {
					ok = ok || keyed[a]
				}
				for _, a := range x.Call.Args {
					if carry[a] {
						ok = false
					}
				}
				if ok && !storeMethod(&x.Call) {
					ok = d.keyedEffects(&x.Call, keyed, 0)
				}
				if !ok {
					fail(x.Pos(), "%s is called in the order of a map", calleeName(&x.Call))
				}
			}
		}
	}
	// leaving early
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != head && effects {
				fail(condAt(b), "the iteration over a map is left early after effects")
			}
		}
	}
	// values that leave the loop
	for b := range loop {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || in == ssa.Instruction(next) || !(iter[v] || carry[v]) || acc[v] {
				continue
			}
			for _, r := range *v.Referrers() {
				if !loop[r.Block()] {
					taint[v] = true
				}
			}
		}
	}
	for v := range cells {
		if !constCell(v, loop) && !commutingCell(v, loop) {
			taint[v] = true
		}
	}
}

// keyedEffects: all a call of the module changes is the entry of the key passed to it.
func (d *determ) keyedEffects(cc *ssa.CallCommon, keyed map[ssa.Value]bool, depth int) bool {
	f := cc.StaticCallee()
	if f == nil || !inModule(f) || !P.body(f) || depth > 4 {
		return false
	}
	in := map[ssa.Value]bool{}
	for i, a := range cc.Args {
		if keyed[a] {
			in[f.Params[i]] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				v, ok := x.(ssa.Value)
				if ok && !in[v] && injective(x, in) {
					in[v], changed = true, true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Store:
				if storeBase(y.Addr) == nil {
					return false
				}
			case *ssa.MapUpdate:
				if !in[y.Key] {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Next:
				return false
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete":
						if !in[y.Call.Args[1]] {
							return false
						}
					case "clear", "copy":
						if storeBase(y.Call.Args[0]) == nil {
							return false
						}
					}
					continue
				}
				pure, has := true, false
				for _, g := range d.targets(&y.Call) {
					pure = pure && d.isPure(g)
				}
				for _, a := range y.Call.Args {
					has = has || in[a]
				}
				if !pure && !(has && (storeMethod(&y.Call) || d.keyedEffects(&y.Call, in, depth+1))) {
					return false
				}
			}
		}
	}
	return true
}

// injective: the instruction maps different keys to different values.
func injective(in ssa.Instruction, keyed map[ssa.Value]bool) bool {
	switch y := in.(type) {
	case *ssa.Convert:
		return keyed[y.X]
	case *ssa.ChangeType:
		return keyed[y.X]
	case *ssa.MakeInterface:
		return keyed[y.X]
	case *ssa.Slice:
		return keyed[y.X] && y.Low == nil && y.High == nil
	case *ssa.UnOp:
		return y.Op == token.MUL && keyed[y.X]
	case *ssa.Call:
		g := y.Call.StaticCallee()
		return g != nil && (g.Name() == "KeyToNibbles" || g.Name() == "ToKey") && keyed[y.Call.Args[0]]
	}
	return false
}

func condAt(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return b.Parent().Pos()
}

// storeMethod: a method of the tree's stores that only touches the entry of its key.
func storeMethod(cc *ssa.CallCommon) bool {
	name := calleeName(cc)
	switch name {
	case "PutNode", "DelNode", "GetNode", "PutEntry", "DeleteEntry", "GetEntry":
	default:
		return false
	}
	if cc.IsInvoke() {
		return cc.Method.Pkg() != nil && P.isRep[cc.Method.Pkg()]
	}
	f := cc.StaticCallee()
	return f != nil && isRepo(f)
}

func commuteOp(op token.Token) bool {
	return op == token.ADD || op == token.OR || op == token.AND || op == token.XOR || op == token.MUL
}

// commutes: the loop variable only accumulates by a commutative operation.
func commutes(p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	var op token.Token
	var chain func(v ssa.Value) bool
	seen := map[ssa.Value]bool{}
	members := map[ssa.Value]bool{p: true}
	chain = func(v ssa.Value) bool {
		if v == ssa.Value(p) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			if !commuteOp(x.Op) || op != 0 && x.Op != op {
				return false
			}
			op = x.Op
			members[v] = true
			l, r := reaches(x.X, p, loop), reaches(x.Y, p, loop)
			if l == r {
				return false
			}
			if l {
				return chain(x.X)
			}
			return chain(x.Y)
		case *ssa.Phi:
			members[v] = true
			for _, e := range x.Edges {
				if !chain(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range p.Edges {
		if !loop[p.Block().Preds[i]] {
			continue
		}
		if !chain(e) {
			return false
		}
	}
	// nothing else in the loop looks at it
	for m := range members {
		for _, r := range *m.Referrers() {
			if w, ok := r.(ssa.Value); ok && members[w] {
				continue
			}
			if loop[r.Block()] {
				return false
			}
		}
	}
	return true
}

func reaches(v ssa.Value, p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(p) {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !loop[in.Block()] {
			return false
		}
		seen[v] = true
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// constant: apart from its start, the variable is only ever set to one constant.
func constPhi(p *ssa.Phi) bool {
	var k *ssa.Const
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	first := true
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if x == p && !p.Block().Dominates(p.Block().Preds[i]) {
					continue // the start
				}
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			if first {
				k, first = x, false
				return true
			}
			return k.Value == nil && x.Value == nil || k.Value != nil && x.Value != nil && k.Value.ExactString() == x.Value.ExactString()
		}
		return false
	}
	if !walk(p) {
		return false
	}
	// and no decision in the loop looks at it
	for v := range seen {
		if v.Referrers() == nil {
			continue
		}
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		for _, r := range *v.Referrers() {
			if w, ok := r.(ssa.Value); ok && seen[w] {
				continue
			}
			if p.Block().Dominates(r.Block()) && natLoop(p.Block())[r.Block()] {
				return false
			}
		}
	}
	return true
}

// constCell: all stores in the loop write the same constant.
func constCell(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	k := ""
	for _, r := range *al.Referrers() {
		if !loop[r.Block()] {
			continue
		}
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != al {
			return false
		}
		c, ok := s.Val.(*ssa.Const)
		if !ok || k != "" && k != c.String() {
			return false
		}
		k = c.String()
	}
	return k != ""
}

// commutingCell: every access in the loop is one commutative update of the variable.
func commutingCell(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	var op token.Token
	for _, r := range *al.Referrers() {
		if !loop[r.Block()] {
			continue
		}
		switch x := r.(type) {
		case *ssa.Store:
			b, ok := x.Val.(*ssa.BinOp)
			if x.Addr != al || !ok || !commuteOp(b.Op) || op != 0 && op != b.Op {
				return false
			}
			op = b.Op
			n := 0
			for _, y := range []ssa.Value{b.X, b.Y} {
				if u, ok := y.(*ssa.UnOp); ok && u.X == al {
					n++
				}
			}
			if n != 1 {
				return false
			}
		case *ssa.UnOp:
			for _, u := range *x.Referrers() {
				b, ok := u.(*ssa.BinOp)
				if !ok || !commuteOp(b.Op) {
					return false
				}
				for _, w := range *b.Referrers() {
					if s, ok := w.(*ssa.Store); !ok || s.Addr != al {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}
