package main

// Loading: type-checks the current source tree of /repo and builds SSA form.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "terorie.dev/nimiq"

type Program struct {
	dir   string
	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	spkgs map[string]*ssa.Package // by import path
	repo  []*ssa.Package
	isRep map[*types.Package]bool
	built map[*ssa.Package]bool
}

var P *Program

func load(dir string) (*Program, error) {
	sums := map[string][]byte{}
	for _, f := range []string{"go.mod", "go.sum"} {
		sums[f], _ = os.ReadFile(filepath.Join(dir, f))
	}
	fset := token.NewFileSet()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:  dir, Fset: fset, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for f, b := range sums {
		now, _ := os.ReadFile(filepath.Join(dir, f))
		if string(now) != string(b) {
			_ = os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{dir: dir, fset: fset, pkgs: pkgs, prog: prog,
		spkgs: map[string]*ssa.Package{}, isRep: map[*types.Package]bool{}, built: map[*ssa.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		p.spkgs[sp.Pkg.Path()] = sp
		if sp.Pkg.Path() == modPath || strings.HasPrefix(sp.Pkg.Path(), modPath+"/") {
			p.repo = append(p.repo, sp)
			p.isRep[sp.Pkg] = true
			sp.Build()
			p.built[sp] = true
		}
	}
	sort.Slice(p.repo, func(i, j int) bool { return p.repo[i].Pkg.Path() < p.repo[j].Pkg.Path() })
	return p, nil
}

// body builds the function's package if needed and reports whether the function has a body.
func (p *Program) body(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		pk := fn.Package()
		if pk == nil && fn.Origin() != nil {
			pk = fn.Origin().Package()
		}
		if pk != nil && !p.built[pk] {
			p.built[pk] = true
			pk.Build()
		}
	}
	return fn.Blocks != nil
}

func (p *Program) pkg(rel string) *ssa.Package { return p.spkgs[modPath+"/"+rel] }

// repoTypes lists the named types declared by the analysed module.
func (p *Program) repoTypes() []*types.Named {
	var out []*types.Named
	for _, sp := range p.repo {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

// implementers lists the module's concrete types implementing the interface (T or *T).
func (p *Program) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, nt := range p.repoTypes() {
		if types.IsInterface(nt) {
			continue
		}
		if types.Implements(nt, it) {
			out = append(out, nt)
		}
		if pt := types.NewPointer(nt); types.Implements(pt, it) {
			out = append(out, pt)
		}
	}
	return out
}

// fnByName finds "pkg.Func" or "pkg.(*T).Method" / "pkg.T.Method" in the module.
func (p *Program) fnByName(rel, typ, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	if typ == "" {
		return sp.Func(name)
	}
	tn, ok := sp.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	return p.method(tn.Type(), name)
}

// method finds the SSA function of a method of T or *T.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.prog.FuncValue(ms.At(i).Obj().(*types.Func))
				if f != nil {
					return f
				}
				return p.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Program) typ(rel, name string) types.Type {
	sp := p.pkg(rel)
	if sp == nil {
		for _, q := range p.prog.AllPackages() {
			if q.Pkg.Path() == rel {
				sp = q
			}
		}
	}
	if sp == nil {
		return nil
	}
	tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return tn.Type()
}

// allFuncs lists every function with a body in the module, anonymous ones included.
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.repo {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, tt := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f, ok := ms.At(i).Obj().(*types.Func); ok && p.isRep[f.Pkg()] {
							add(p.prog.FuncValue(f))
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
