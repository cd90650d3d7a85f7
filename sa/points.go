package main

// An inclusion-based, field-sensitive points-to analysis over the SSA of the module. It is
// insensitive to order and calling context. Functions outside the module are approximated by
// what their kind may do with the memory of their arguments.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ptObj is an abstract object: a package-level variable, an allocation or what an outside call
// hands out.
type ptObj struct {
	id   int
	site interface{} // *ssa.Global, ssa.Instruction, *ssa.Function
	typ  types.Type
	init bool // created by initialisation
}

func (o *ptObj) String() string {
	switch x := o.site.(type) {
	case *ssa.Global:
		return x.Pkg.Pkg.Name() + "." + x.Name()
	case *ssa.Function:
		return x.String()
	case ssa.Instruction:
		return "the object made at " + P.pos(x.Pos())
	}
	return "object"
}

// ptLoc is an address: an object and a path of fields in it.
type ptLoc struct {
	o    *ptObj
	path string
}

type ptSet map[ptLoc]bool

// ptVal is what a value, or the content of an object, holds: addresses by path.
type ptVal map[string]ptSet

type ptWrite struct {
	loc ptLoc
	pos token.Pos
	fn  *ssa.Function
	how string
}

type pointsTo struct {
	skip    map[*types.Package]bool // summarised, not followed
	only    map[*types.Package]bool // stay within these packages
	objs    map[interface{}]*ptObj
	vals    map[ssa.Value]ptVal
	heap    map[*ptObj]ptVal
	rets    map[*ssa.Function]ptVal
	reached map[*ssa.Function]bool
	fns     []*ssa.Function
	changed bool
	init    bool
	writes  map[string]ptWrite
	calls   int
	scratch ptVal

	summaries map[*ssa.Function]*ptSummary
}

// ptSummary says what an entry point of a reflective package does with its arguments.
type ptSummary struct {
	written, handed map[int]bool
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// summarise analyses a package that works by reflection on its own.
func (a *pointsTo) summarise(rel string) *pointsTo {
	a.skip = map[*types.Package]bool{}
	a.summaries = map[*ssa.Function]*ptSummary{}
	b := newPointsTo()
	b.only = map[*types.Package]bool{}
	var roots []*ssa.Function
	params := map[*ptObj][2]interface{}{}
	for _, f := range P.allFuncs() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/"+rel || f.Parent() != nil || !token.IsExported(f.Name()) || f.Synthetic != "" {
			continue
		}
		b.only[f.Pkg.Pkg] = true
		a.skip[f.Pkg.Pkg] = true
		roots = append(roots, f)
		for i, p := range f.Params {
			if refLike(p.Type(), 0) {
				o := b.obj(p, nil)
				b.add(b.slot(p), "", ptLoc{o, ""})
				params[o] = [2]interface{}{f, i}
			}
		}
		a.summaries[f] = &ptSummary{map[int]bool{}, map[int]bool{}}
	}
	entries, _ := lockRoots()
	for _, f := range entries {
		if b.only[pkgOf(f)] {
			roots = append(roots, f)
		}
	}
	b.solve(roots)
	for _, w := range b.writes {
		if x, ok := params[w.loc.o]; ok {
			a.summaries[x[0].(*ssa.Function)].written[x[1].(int)] = true
		}
	}
	for f, r := range b.rets {
		s := a.summaries[f]
		if s == nil {
			continue
		}
		for _, set := range r {
			for l := range set {
				if x, ok := params[l.o]; ok && x[0] == interface{}(f) {
					s.handed[x[1].(int)] = true
				}
			}
		}
	}
	return b
}

func newPointsTo() *pointsTo {
	return &pointsTo{objs: map[interface{}]*ptObj{}, vals: map[ssa.Value]ptVal{}, heap: map[*ptObj]ptVal{}, rets: map[*ssa.Function]ptVal{},
		reached: map[*ssa.Function]bool{}, writes: map[string]ptWrite{}}
}

func (a *pointsTo) obj(site interface{}, t types.Type) *ptObj {
	o, ok := a.objs[site]
	if !ok {
		o = &ptObj{id: len(a.objs), site: site, typ: t, init: a.init}
		a.objs[site] = o
	}
	return o
}

func (a *pointsTo) add(v ptVal, path string, l ptLoc) {
	s := v[path]
	if s == nil {
		s = ptSet{}
		v[path] = s
	}
	if !s[l] {
		s[l] = true
		a.changed = true
	}
}

// copyVal adds what src holds below path from to dst below path to.
func (a *pointsTo) copyVal(dst ptVal, to string, src ptVal, from string) {
	for p, s := range src {
		if from != "" && p != from && !(strings.HasPrefix(p, from) && (p[len(from)] == '.' || p[len(from)] == '[')) {
			continue
		}
		q := deeper(to, p[len(from):])
		for l := range s {
			a.add(dst, q, l)
		}
	}
}

func (a *pointsTo) content(o *ptObj) ptVal {
	h := a.heap[o]
	if h == nil {
		h = ptVal{}
		a.heap[o] = h
	}
	return h
}

func (a *pointsTo) slot(v ssa.Value) ptVal {
	x := a.vals[v]
	if x == nil {
		x = ptVal{}
		a.vals[v] = x
	}
	return x
}

// of is what an operand holds.
func (a *pointsTo) of(v ssa.Value) ptVal {
	switch x := v.(type) {
	case *ssa.Global:
		return ptVal{"": ptSet{ptLoc{a.obj(x, x.Type()), ""}: true}}
	case *ssa.Function:
		return ptVal{"": ptSet{ptLoc{a.obj(x, x.Type()), ""}: true}}
	case *ssa.Const, *ssa.Builtin, nil:
		return nil
	}
	return a.slot(v)
}

func (a *pointsTo) locs(v ssa.Value) []ptLoc {
	var out []ptLoc
	for l := range a.of(v)[""] {
		out = append(out, l)
	}
	return out
}

// deref lists the addresses a pointer can hold that fit its type.
func (a *pointsTo) deref(v ssa.Value) []ptLoc {
	pt, ok := v.Type().Underlying().(*types.Pointer)
	sl, isSl := v.Type().Underlying().(*types.Slice)
	var out []ptLoc
	for _, l := range a.locs(v) {
		if t := locType(l); isSl && t != nil {
			if at, ok := t.Underlying().(*types.Array); !ok || !types.Identical(at.Elem(), sl.Elem()) {
				continue
			}
		}
		if ok {
			if t := locType(l); t != nil && !types.Identical(t, pt.Elem()) && !types.Identical(t.Underlying(), pt.Elem().Underlying()) {
				continue
			}
			if _, m := l.o.site.(*ssa.MakeMap); m && l.path == "" {
				continue
			}
		}
		out = append(out, l)
	}
	return out
}

func (a *pointsTo) reach(f *ssa.Function) {
	if f == nil || a.reached[f] || !inModule(f) || a.skip[pkgOf(f)] || !P.body(f) {
		return
	}
	a.reached[f] = true
	a.fns = append(a.fns, f)
	a.changed = true
}

// solve runs the functions reachable from the roots to a fixed point.
func (a *pointsTo) solve(roots []*ssa.Function) {
	for _, f := range roots {
		a.reach(f)
	}
	for a.changed = true; a.changed; {
		a.changed = false
		for i := 0; i < len(a.fns); i++ {
			f := a.fns[i]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.step(f, in)
				}
			}
		}
	}
}

func (a *pointsTo) wrote(f *ssa.Function, l ptLoc, pos token.Pos, how string) {
	k := fmt.Sprint(l.o.id, l.path, pos, f.String())
	if _, ok := a.writes[k]; !ok {
		a.writes[k] = ptWrite{l, pos, f, how}
	}
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (a *pointsTo) step(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(a.slot(x), "", ptLoc{a.obj(x, x.Type()), ""})
	case *ssa.MakeSlice:
		a.add(a.slot(x), "", ptLoc{a.obj(x, x.Type()), ""})
	case *ssa.MakeMap:
		a.add(a.slot(x), "", ptLoc{a.obj(x, x.Type()), ""})
	case *ssa.MakeChan:
		a.add(a.slot(x), "", ptLoc{a.obj(x, x.Type()), ""})
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		a.add(a.slot(x), "", ptLoc{a.obj(g, g.Type()), ""})
		for i, b := range x.Bindings {
			a.copyVal(a.slot(g.FreeVars[i]), "", a.of(b), "")
		}
		a.reach(g)
	case *ssa.FieldAddr:
		n := fieldName(x.X.Type(), x.Field)
		for _, l := range a.deref(x.X) {
			a.add(a.slot(x), "", ptLoc{l.o, deeper(l.path, n)})
		}
	case *ssa.Field:
		a.copyVal(a.slot(x), "", a.of(x.X), fieldName(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		for _, l := range a.deref(x.X) {
			a.add(a.slot(x), "", ptLoc{l.o, deeper(l.path, "[]")})
		}
	case *ssa.Index:
		a.copyVal(a.slot(x), "", a.of(x.X), "[]")
	case *ssa.Lookup:
		for _, l := range a.locs(x.X) {
			to := ""
			if x.CommaOk {
				to = ".0"
			}
			a.copyVal(a.slot(x), to, a.content(l.o), l.path+"[]")
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			for _, l := range a.deref(x.X) {
				a.copyVal(a.slot(x), "", a.content(l.o), l.path)
			}
		case token.ARROW:
			for _, l := range a.locs(x.X) {
				a.copyVal(a.slot(x), "", a.content(l.o), "[]")
			}
		}
	case *ssa.Store:
		for _, l := range a.deref(x.Addr) {
			a.copyVal(a.content(l.o), l.path, a.of(x.Val), "")
			a.wrote(f, l, x.Pos(), "is assigned")
		}
	case *ssa.MapUpdate:
		for _, l := range a.locs(x.Map) {
			a.copyVal(a.content(l.o), l.path+"[]", a.of(x.Value), "")
			a.copyVal(a.content(l.o), l.path+"[k]", a.of(x.Key), "")
			a.wrote(f, l, x.Pos(), "gets an entry")
		}
	case *ssa.Send:
		for _, l := range a.locs(x.Chan) {
			a.copyVal(a.content(l.o), "[]", a.of(x.X), "")
		}
	case *ssa.Slice:
		a.copyVal(a.slot(x), "", a.of(x.X), "")
	case *ssa.SliceToArrayPointer:
		a.copyVal(a.slot(x), "", a.of(x.X), "")
	case *ssa.ChangeType:
		a.copyVal(a.slot(x), "", a.of(x.X), "")
	case *ssa.ChangeInterface:
		a.copyVal(a.slot(x), "", a.of(x.X), "")
	case *ssa.MakeInterface:
		a.copyVal(a.slot(x), "", a.of(x.X), "")
	case *ssa.Convert:
		if refLike(x.X.Type(), 0) && refLike(x.Type(), 0) {
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				a.add(a.slot(x), "", ptLoc{a.obj(x, x.Type()), ""})
			} else if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				a.copyVal(a.slot(x), "", a.of(x.X), "")
			}
		}
	case *ssa.TypeAssert:
		to := ""
		if x.CommaOk {
			to = ".0"
		}
		src := ptVal{}
		for p, s := range a.of(x.X) {
			for l := range s {
				if p != "" || compatible(l, x.AssertedType) {
					if src[p] == nil {
						src[p] = ptSet{}
					}
					src[p][l] = true
				}
			}
		}
		a.copyVal(a.slot(x), to, src, "")
	case *ssa.Extract:
		a.copyVal(a.slot(x), "", a.of(x.Tuple), fmt.Sprintf(".%d", x.Index))
	case *ssa.Range:
		a.copyVal(a.slot(x), "", a.of(x.X), "")
	case *ssa.Next:
		if !x.IsString {
			for _, l := range a.locs(x.Iter) {
				a.copyVal(a.slot(x), ".1", a.content(l.o), l.path+"[k]")
				a.copyVal(a.slot(x), ".2", a.content(l.o), l.path+"[]")
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(a.slot(x), "", a.of(e), "")
		}
	case *ssa.Return:
		r := a.rets[f]
		if r == nil {
			r = ptVal{}
			a.rets[f] = r
		}
		for i, v := range x.Results {
			to := ""
			if len(x.Results) > 1 {
				to = fmt.Sprintf(".%d", i)
			}
			a.copyVal(r, to, a.of(v), "")
		}
	case ssa.CallInstruction:
		a.call(f, x)
	}
}

// compatible: a dynamic value that is this address can have the asserted type.
func compatible(l ptLoc, t types.Type) bool {
	if types.IsInterface(t) {
		return true
	}
	ty := locType(l)
	if ty == nil {
		return true
	}
	switch u := t.(type) {
	case *types.Pointer:
		return types.Identical(ty, u.Elem())
	}
	return true
}

// locType is the type of the variable at an address, if it is known.
func locType(l ptLoc) types.Type {
	var t types.Type
	switch l.o.site.(type) {
	case *ssa.Global, *ssa.Alloc:
		t = l.o.typ.Underlying().(*types.Pointer).Elem()
	default:
		return nil
	}
	p := l.path
	for p != "" {
		if strings.HasPrefix(p, "[]") {
			p = p[2:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
			continue
		}
		if p[0] != '.' {
			return nil
		}
		e := 1
		for e < len(p) && p[e] != '.' && p[e] != '[' {
			e++
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p[1:e] {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			return nil
		}
		t, p = ft, p[e:]
	}
	return t
}

func (a *pointsTo) call(f *ssa.Function, in ssa.CallInstruction) {
	cc := in.Common()
	var res ptVal
	if v, ok := in.(ssa.Value); ok {
		res = a.slot(v)
	} else {
		if a.scratch == nil {
			a.scratch = ptVal{}
		}
		res = a.scratch
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(f, b.Name(), in, cc, res)
		return
	}
	if g := cc.StaticCallee(); g != nil && !cc.IsInvoke() {
		if _, cl := cc.Value.(*ssa.MakeClosure); !cl && !inModule(g) {
			a.external(f, in, g, g.Name(), cc.Args, res)
			return
		}
	}
	var targets []*ssa.Function
	args := cc.Args
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		n := 0
		for _, T := range P.implementers(it) {
			m := methodSel(T, cc.Method.Name())
			if m == nil {
				continue
			}
			if a.only != nil && !a.only[pkgOf(m)] {
				// the types' own methods do what their names say
				if strings.Contains(cc.Method.Name(), "Unmarshal") {
					for _, l := range a.locs(cc.Value) {
						a.wrote(f, l, in.Pos(), "is decoded into")
					}
				}
				continue
			}
			n++
			// the receiver: only what can be of this type
			recv := ptVal{}
			for p, s := range a.of(cc.Value) {
				for l := range s {
					if p != "" || compatible(l, T) {
						if recv[p] == nil {
							recv[p] = ptSet{}
						}
						recv[p][l] = true
					}
				}
			}
			a.bind(f, in, m, append([]ptVal{recv}, a.argVals(args)...), res)
		}
		if n == 0 || cc.Method.Pkg() == nil || !P.isRep[cc.Method.Pkg()] {
			a.external(f, in, nil, cc.Method.Name(), append([]ssa.Value{cc.Value}, args...), res)
		}
		return
	}
	for _, l := range a.locs(cc.Value) {
		if g, ok := l.o.site.(*ssa.Function); ok {
			targets = append(targets, g)
		}
	}
	if g := cc.StaticCallee(); g != nil {
		targets = append(targets, g)
	}
	for _, g := range targets {
		if !inModule(g) {
			a.external(f, in, g, g.Name(), args, res)
			continue
		}
		a.bind(f, in, g, a.argVals(args), res)
	}
	if len(targets) == 0 {
		a.external(f, in, nil, "a function value", args, res)
	}
}

func (a *pointsTo) argVals(args []ssa.Value) []ptVal {
	var out []ptVal
	for _, x := range args {
		out = append(out, a.of(x))
	}
	return out
}

func (a *pointsTo) bind(f *ssa.Function, in ssa.CallInstruction, g *ssa.Function, args []ptVal, res ptVal) {
	if sum, ok := a.summaries[g]; ok && pkgOf(f) != pkgOf(g) {
		a.reach(g)
		for i, v := range args {
			if i < len(g.Params) && sum.written[i] {
				for l := range v[""] {
					a.wrote(f, l, in.Pos(), "is passed to "+g.Name()+", which modifies it")
				}
			}
			if i < len(g.Params) && sum.handed[i] {
				for l := range v[""] {
					a.add(res, "", l)
					a.add(res, ".0", l)
				}
			}
		}
		a.add(res, ".0", ptLoc{a.obj(in, nil), ""})
		return
	}
	a.reach(g)
	a.calls++
	for i, v := range args {
		if i < len(g.Params) {
			a.copyVal(a.slot(g.Params[i]), "", v, "")
		}
	}
	a.copyVal(res, "", a.rets[g], "")
}

func (a *pointsTo) builtin(f *ssa.Function, name string, in ssa.CallInstruction, cc *ssa.CallCommon, res ptVal) {
	switch name {
	case "append":
		a.copyVal(res, "", a.of(cc.Args[0]), "")
		o := ptLoc{a.obj(in, in.(ssa.Value).Type()), ""}
		a.add(res, "", o)
		// elements move to a new array, or into the spare room of the old one
		for _, l := range a.locs(cc.Args[0]) {
			a.copyVal(a.content(o.o), "[]", a.content(l.o), l.path+"[]")
		}
		if len(cc.Args) > 1 {
			for _, l := range a.locs(cc.Args[1]) {
				a.copyVal(a.content(o.o), "[]", a.content(l.o), l.path+"[]")
			}
		}
		for _, l := range a.locs(cc.Args[0]) {
			if len(cc.Args) > 1 && !fullSlice(cc.Args[0], l) {
				a.copyVal(a.content(l.o), l.path+"[]", a.content(o.o), "[]")
				a.wrote(f, ptLoc{l.o, l.path + "[]"}, in.Pos(), "is appended to")
			}
		}
	case "copy":
		for _, l := range a.locs(cc.Args[0]) {
			for _, m := range a.locs(cc.Args[1]) {
				a.copyVal(a.content(l.o), l.path+"[]", a.content(m.o), m.path+"[]")
			}
			a.wrote(f, ptLoc{l.o, l.path + "[]"}, in.Pos(), "is copied over")
		}
	case "delete", "clear":
		for _, l := range a.locs(cc.Args[0]) {
			a.wrote(f, l, in.Pos(), "loses entries")
		}
	case "min", "max":
	}
}

// fullSlice: the slice has no spare room, so appending to it makes a new array.
func fullSlice(v ssa.Value, l ptLoc) bool {
	if s, ok := v.(*ssa.Slice); ok && s.Max != nil {
		return true
	}
	al, ok := l.o.site.(*ssa.Alloc)
	return ok && al.Comment == "slicelit" && l.path == ""
}

// external approximates a call of a function outside the module.
func (a *pointsTo) external(f *ssa.Function, in ssa.CallInstruction, g *ssa.Function, name string, args []ssa.Value, res ptVal) {
	pkg := ""
	if g != nil {
		if g.Pkg != nil {
			pkg = g.Pkg.Pkg.Path()
		} else if g.Object() != nil && g.Object().Pkg() != nil {
			pkg = g.Object().Pkg().Path()
		}
	} else if cc := in.Common(); cc.IsInvoke() && cc.Method.Pkg() != nil {
		pkg = cc.Method.Pkg().Path()
	}
	// functions handed over may be called
	for _, x := range args {
		for _, l := range a.locs(x) {
			if h, ok := l.o.site.(*ssa.Function); ok {
				a.reach(h)
			}
		}
	}
	aliases := func(x ssa.Value) {
		for _, s := range a.of(x) {
			for l := range s {
				a.add(res, "", l)
				if tup, ok := resultTuple(in); ok {
					for i := 0; i < tup.Len(); i++ {
						if refLike(tup.At(i).Type(), 0) && !isErr(tup.At(i).Type()) {
							a.add(res, fmt.Sprintf(".%d", i), l)
						}
					}
				}
			}
		}
	}
	fresh := func() {
		v, ok := in.(ssa.Value)
		if !ok || !refLike(v.Type(), 0) {
			return
		}
		l := ptLoc{a.obj(in, v.Type()), ""}
		if tup, ok := resultTuple(in); ok {
			for i := 0; i < tup.Len(); i++ {
				if refLike(tup.At(i).Type(), 0) {
					a.add(res, fmt.Sprintf(".%d", i), l)
				}
			}
			return
		}
		a.add(res, "", l)
	}
	write := func(x ssa.Value) {
		for _, l := range a.locs(x) {
			a.wrote(f, l, in.Pos(), "is passed to "+calleeName(in.Common())+", which may modify it")
		}
	}
	switch pkg {
	case "math/big":
		fresh()
		method := g != nil && g.Signature.Recv() != nil
		for i, x := range args {
			if !refLike(x.Type(), 0) {
				continue
			}
			if g != nil && !readOnlyArg(g, i) {
				write(x)
			}
			if method && i == 0 {
				aliases(x)
			}
		}
		return
	case "reflect":
		fresh()
		for _, x := range args {
			aliases(x)
			for _, l := range a.locs(x) {
				for p, s := range a.content(l.o) {
					if strings.HasPrefix(p, l.path) {
						for m := range s {
							a.add(res, "", m)
						}
					}
				}
			}
		}
		if len(args) > 0 && (strings.HasPrefix(name, "Set") || name == "Copy" || name == "Append" || name == "Clear" || name == "Grow") {
			write(args[0])
			for _, x := range args[1:] {
				for _, l := range a.locs(args[0]) {
					a.copyVal(a.content(l.o), l.path, a.of(x), "")
				}
			}
		}
		return
	case "fmt", "errors", "strconv", "strings", "encoding/hex", "encoding/base32", "encoding/base64", "hash", "golang.org/x/crypto/blake2b":
		// nothing of the arguments is handed on but errors
		fresh()
		switch {
		case strings.HasPrefix(name, "Decode") && len(args) > 1 && pkg != "strings", name == "Encode" || name == "PutUint16" || name == "PutUint32" || name == "PutUint64":
			for _, x := range args {
				if _, ok := x.Type().Underlying().(*types.Slice); ok {
					write(x)
					break
				}
			}
		case name == "Sum" && pkg != "golang.org/x/crypto/blake2b" && len(args) > 1:
			write(args[len(args)-1])
			aliases(args[len(args)-1])
		case strings.HasPrefix(name, "With"):
			// returns a changed copy
		case strings.HasPrefix(name, "Sscan"), strings.HasPrefix(name, "Fscan"):
			for _, x := range args {
				write(x)
			}
		}
		return
	}
	fresh()
	for i, x := range args {
		if !refLike(x.Type(), 0) {
			continue
		}
		aliases(x)
		switch {
		case g != nil && readOnlyArg(g, i):
		case g == nil && (name == "Write" || name == "WriteString" || name == "Error" || name == "String" || name == "Hash"):
		case pkg == "encoding/binary" && !strings.HasPrefix(name, "Put") && name != "Read":
		case pkg == "bytes" || pkg == "io" && name == "Write":
		case isErr(x.Type()):
		default:
			write(x)
		}
	}
}

func resultTuple(in ssa.CallInstruction) (*types.Tuple, bool) {
	v, ok := in.(ssa.Value)
	if !ok {
		return nil, false
	}
	t, ok := v.Type().(*types.Tuple)
	return t, ok
}

// nextPhase keeps the heap but forgets what the functions analysed so far held.
func (a *pointsTo) nextPhase() {
	for k := range a.objs {
		switch k.(type) {
		case *ssa.Global, *ssa.Function:
		default:
			delete(a.objs, k)
		}
	}
	a.vals, a.rets = map[ssa.Value]ptVal{}, map[*ssa.Function]ptVal{}
	a.reached, a.fns = map[*ssa.Function]bool{}, nil
	a.writes = map[string]ptWrite{}
	a.init = false
}

// deeper extends a path, within bounds: deeper parts of an object are not told apart.
func deeper(path, step string) string {
	if step == "" {
		return path
	}
	if strings.Count(path, ".")+strings.Count(path, "[") >= 6 {
		return path
	}
	return path + step
}
