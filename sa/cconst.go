package main

// G03: package-level variables keep their value after initialisation.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["G03"] = checkG03 }

// guardedCaches lists the unexported variables all whose accesses after initialisation share a lock.
func guardedCaches(c *Ctx) map[*ssa.Global]bool {
	la := newLockAna(newCtx(c.id))
	la.runAll(newCtx(c.id))
	out := map[*ssa.Global]bool{}
	common := map[*ssa.Global]map[string]bool{}
	for _, x := range la.acc {
		if x.init {
			continue
		}
		held := map[string]bool{}
		for l, k := range x.locks {
			if k == 'L' || !x.write {
				held[l] = true
			}
		}
		if m, ok := common[x.root]; ok {
			for l := range m {
				if !held[l] {
					delete(m, l)
				}
			}
		} else {
			common[x.root] = held
		}
	}
	for g, m := range common {
		if len(m) > 0 && !token.IsExported(g.Name()) {
			out[g] = true
		}
	}
	return out
}

func fromSync(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

func checkG03(c *Ctx) {
	c.explained = "An inclusion-based, field-sensitive points-to analysis of the whole module, first of package initialisation and then, keeping the memory it set up, of everything reachable from the exported functions, methods, function values and the command. No assignment, map update, append, copy or call that may modify its argument may reach a package-level variable of the library packages or memory that initialisation made reachable from one. Variables that are only used under one lock are caches and belong to S01."
	a := newPointsTo()
	refl := a.summarise("beserial")
	a.init = true
	roots, inits := lockRoots()
	a.solve(inits)
	a.nextPhase()
	a.solve(roots)
	caches := guardedCaches(c)
	protected := map[*ptObj]*ssa.Global{}
	var globals []*ssa.Global
	for _, sp := range P.repo {
		if strings.Contains(sp.Pkg.Path(), "/cmd/") || sp.Pkg.Name() == "main" {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(g.Name(), "init$") || g.Name() == "_" || fromSync(g.Type()) || caches[g] {
				continue
			}
			globals = append(globals, g)
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].String() < globals[j].String() })
	for _, g := range globals {
		var walk func(o *ptObj)
		walk = func(o *ptObj) {
			if _, ok := protected[o]; ok {
				return
			}
			protected[o] = g
			for _, s := range a.heap[o] {
				for l := range s {
					if l.o.init || l.o.site == interface{}(g) {
						if _, fn := l.o.site.(*ssa.Function); !fn {
							if h, ok := l.o.site.(*ssa.Global); !ok || h == g {
								walk(l.o)
							}
						}
					}
				}
			}
		}
		walk(a.obj(g, g.Type()))
	}
	c.must(len(globals) >= 8, "anchored", modPath, "%d package-level variables in the library packages", len(globals))
	c.must(len(a.fns)+len(refl.fns) >= 150, "anchored", modPath, "%d functions are reachable", len(a.fns))
	hit := map[*ssa.Global][]ptWrite{}
	for _, w := range a.writes {
		if g, ok := protected[w.loc.o]; ok {
			hit[g] = append(hit[g], w)
		}
	}
	for _, w := range refl.writes {
		if g, ok := w.loc.o.site.(*ssa.Global); ok {
			hit[g] = append(hit[g], w)
		}
	}
	for _, g := range globals {
		ws := hit[g]
		sort.Slice(ws, func(i, j int) bool { return ws[i].pos < ws[j].pos })
		for _, w := range ws {
			what := g.Pkg.Pkg.Name() + "." + g.Name()
			if w.loc.o.site != interface{}(g) {
				what = "memory of " + what
			}
			c.must(false, "constant", P.pos(w.pos)+" ("+w.fn.String()+")", "%s%s %s after initialisation", what, w.loc.path, w.how)
		}
		if len(ws) == 0 {
			c.must(true, "constant", P.pos(g.Pos()), "%s is never modified after initialisation", g.Name())
		}
	}
}
