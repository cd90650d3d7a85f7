package main

// Obligations, evidence and the command line of a check.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// violation is an obligation that does not hold (or could not be shown to hold).
type violation struct {
	Rule   string   `json:"rule"`
	Where  string   `json:"where"`
	What   string   `json:"what"`
	Path   []string `json:"path,omitempty"`
	undone bool
}

// Ctx collects what one check did.
type Ctx struct {
	id        string
	thorough  bool
	oblig     int
	done      int
	funcs     map[string]bool
	roots     []string
	rules     map[string]int
	viol      []violation
	seen      map[string]bool
	notes     []string
	assume    []string
	paths     int
	sites     int
	loopsSum  int
	loopsUnr  int
	samples   []string
	explained string
	onOut     func(root string, outs []Outcome) // sees the outcomes of every root
}

func newCtx(id string) *Ctx {
	return &Ctx{id: id, funcs: map[string]bool{}, rules: map[string]int{}, seen: map[string]bool{}}
}

// must records an obligation of a rule at a place.
func (c *Ctx) must(ok bool, rule, where, format string, args ...interface{}) bool {
	c.oblig++
	c.rules[rule]++
	if ok {
		c.done++
		if len(c.samples) < 12 && c.rules[rule] <= 2 {
			c.samples = append(c.samples, rule+" @ "+where+": "+clip(fmt.Sprintf(format, args...), 200))
		}
		return true
	}
	c.fail(rule, where, nil, format, args...)
	return false
}

func (c *Ctx) fail(rule, where string, st *State, format string, args ...interface{}) {
	v := violation{Rule: rule, Where: where, What: clip(fmt.Sprintf(format, args...), 1500)}
	k := v.Rule + v.Where + v.What
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	if st != nil {
		for _, x := range st.conds {
			v.Path = append(v.Path, clip(fmt.Sprintf("%s = %v at %s", x.b.Key(), x.truth, P.pos(x.pos)), 400))
		}
	}
	c.viol = append(c.viol, v)
}

// mustSt is must with the path of the state in the report.
func (c *Ctx) mustSt(ok bool, st *State, rule, where, format string, args ...interface{}) bool {
	if ok {
		return c.must(true, rule, where, format, args...)
	}
	c.oblig++
	c.rules[rule]++
	c.fail(rule, where, st, format, args...)
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// absorb adds the statistics of an interpreter run.
func (c *Ctx) absorb(ip *Interp, outs []Outcome) {
	for f := range ip.funcs {
		c.funcs[f.String()] = true
	}
	c.paths += len(outs)
	c.sites += len(ip.sites)
	c.loopsSum += ip.loopsSum
	c.loopsUnr += ip.loopsUnr
}

// run analyses a root; an unsupported construct is reported as undecided.
func (c *Ctx) run(ip *Interp, root string, f func() []Outcome) []Outcome {
	outs, u := ip.try(f)
	c.roots = append(c.roots, root)
	c.absorb(ip, outs)
	if c.onOut != nil {
		c.onOut(root, outs)
	}
	if u != nil {
		c.oblig++
		c.fail("analysable", P.pos(u.pos), nil, "undecided: %s: %s", root, u.msg)
		return nil
	}
	return outs
}

func fnPos(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return P.pos(fn.Pos()) + " (" + fn.String() + ")"
}

func tposOf(p token.Pos) string { return P.pos(p) }

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

// known findings: lines "known: property=<id> site=<text> <what>"
func knownFindings(root, id string) (out []string) {
	b, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" site=") {
			out = append(out, strings.TrimPrefix(l, "known: property="+id+" site="))
		}
	}
	return
}

const (
	maxWall = 840 * time.Second
	maxHeap = 20 << 30
)

// gaveUp is set when an analysis was abandoned.
var gaveUp bool

// await waits for the analysis. The result says what it ran out of.
func await(fin chan bool, t0 time.Time) string {
	for {
		select {
		case <-fin:
			return ""
		case <-time.After(time.Second):
		}
		if time.Since(t0) > maxWall {
			return fmt.Sprintf("the analysis takes longer than %v", maxWall)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > maxHeap {
			return "the analysis needs too much memory"
		}
	}
}

// runCheck runs one check and writes its evidence. The result is the exit code.
func runCheck(root, id string) int {
	t0 := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := newCtx(id)
	c.thorough = tier == "thorough"
	fn := checks[id]
	if fn == nil {
		fmt.Println("no such check:", id)
		return 2
	}
	dir := "/repo"
	if d := os.Getenv("NIMCHECK_REPO"); d != "" {
		dir = d
	}
	var err error
	P, err = load(dir)
	if err != nil {
		c.oblig++
		c.fail("loads", dir, nil, "%v", err)
	} else {
		fin := make(chan bool)
		go func() {
			defer close(fin)
			defer func() {
				if r := recover(); r != nil {
					c.oblig++
					if u, ok := r.(Unsupported); ok {
						c.fail("analysable", P.pos(u.pos), nil, "undecided: %s", u.msg)
						return
					}
					if os.Getenv("NIMCHECK_TRACE") != "" {
						panic(r)
					}
					c.fail("analysable", "analysis", nil, "undecided: the analysis of this tree failed: %v", r)
				}
			}()
			fn(c)
		}()
		if what := await(fin, t0); what != "" {
			// the analysis goes on in the background: what it found so far does not count
			c = newCtx(id)
			c.oblig++
			c.fail("analysable", "analysis", nil, "undecided: %s", what)
			gaveUp = true
		}
		if c.oblig == 0 {
			c.oblig++
			c.fail("anchored", "analysis", nil, "nothing was analysed")
		}
	}
	// known findings
	var left []violation
	for _, v := range c.viol {
		hit := ""
		for _, k := range knownFindings(root, id) {
			site := strings.SplitN(k, " ", 2)[0]
			if strings.Contains(v.Where, site) {
				hit = k
			}
		}
		if hit == "" {
			left = append(left, v)
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, hit)
	}
	c.viol = left
	evd := filepath.Join(root, "evidence")
	_ = os.MkdirAll(filepath.Join(evd, "replay"), 0o755)
	rules := []string{}
	for r, n := range c.rules {
		rules = append(rules, fmt.Sprintf("%s: %d", r, n))
	}
	sort.Strings(rules)
	funcs := sortedKeys(c.funcs)
	sort.Strings(c.roots)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(t0).Seconds(), "violations": len(c.viol),
		"assumptions": append([]string{
			"sequential execution of the analysed roots; slice and string lengths below 2^40; distinct symbolic arguments do not alias unless stated",
			"standard library functions behave as modelled in sa/models.go",
		}, c.assume...),
		"coverage": map[string]interface{}{
			"explanation":         c.explained + " Every obligation is decided from the SSA form of the current tree by abstract interpretation over all inputs or by dataflow/graph rules; nothing of the tree is executed.",
			"obligations":         c.oblig,
			"discharged":          c.done,
			"obligations_by_rule": rules,
			"roots":               c.roots,
			"functions":           funcs,
			"functions_analysed":  len(funcs),
			"paths":               c.paths,
			"loops_summarised":    c.loopsSum,
			"loops_unrolled":      c.loopsUnr,
			"samples":             c.samples,
			"notes":               c.notes,
			"violations":          c.viol,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evd, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	rp := filepath.Join(evd, "replay", id+".json")
	_ = os.Remove(rp)
	fmt.Printf("%s: %d/%d obligations, %d roots, %d functions, %d paths, %.1fs\n", id, c.done, c.oblig, len(c.roots), len(funcs), c.paths, time.Since(t0).Seconds())
	if len(c.viol) == 0 {
		return 0
	}
	b, _ = json.MarshalIndent(map[string]interface{}{"property": id, "violations": c.viol, "repeat": "./check " + id}, "", " ")
	_ = os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, v := range c.viol {
		if i == 8 {
			fmt.Printf("  ... %d more in %s\n", len(c.viol)-8, rp)
			break
		}
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Where, clip(v.What, 400))
		for j, p := range v.Path {
			if j == 6 {
				break
			}
			fmt.Println("      on path:", clip(p, 160))
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}
