package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

func init() { checks["R01"] = checkR01 }

// the checks whose roots are analysed once more: together they enter every part of the library
var endsRoots = []string{"T05", "D02", "D01", "C01", "C03", "C04", "C06", "C07", "C08", "A01", "A02", "A03", "A04", "A05", "A06", "A09", "A12", "A14", "A15", "T02", "T03", "T04", "S02", "S03", "U01", "W01", "W02", "W03", "G01", "G02"}

type endsResult struct {
	Bounded map[string]string
	Open    []violation
	Missing []violation
	Funcs   []string
	Roots   []string
	Paths   int
	Summed  int
	Unroll  int
	Oblig   int
}

// runEnds analyses the roots of a check in a process of its own; only the loops count.
func runEnds(id string) int {
	dir := "/repo"
	if d := os.Getenv("NIMCHECK_REPO"); d != "" {
		dir = d
	}
	var err error
	if P, err = load(dir); err != nil {
		fmt.Println(err)
		return 2
	}
	endlessOn = true
	var r endsResult
	out := newCtx(id)
	sub := newCtx(id)
	sub.onOut = func(root string, outs []Outcome) {
		for _, o := range outs {
			if o.pan != nil && o.pan.kind == endlessKind {
				out.fail("ends", P.pos(o.pan.pos)+" ("+o.pan.fn+")", o.st, "nothing bounds the iterations of this loop (%s of %s)", root, id)
			}
		}
	}
	checks[id](sub)
	r.Open = out.viol
	for _, v := range sub.viol {
		if v.Rule == "analysable" || v.Rule == "anchored" {
			r.Missing = append(r.Missing, v)
		}
	}
	r.Bounded, r.Funcs, r.Roots, r.Paths = loopsBounded, sortedKeys(sub.funcs), sub.roots, sub.paths
	r.Summed, r.Unroll, r.Oblig = sub.loopsSum, sub.loopsUnr, sub.oblig
	if err := json.NewEncoder(os.Stdout).Encode(r); err != nil {
		return 2
	}
	return 0
}

// checkR01: everything ends.
func checkR01(c *Ctx) {
	c.explained = "The roots of the checks of the codec, accounts, tree, policy, wallet, address and genesis parts are analysed once more. Every loop met on a path must either be left after a known number of iterations, or have a quantity that every way around moves by at least one in the same direction, towards a bound that the iterations leave alone and that is a length or a 32-bit number; iterations over strings and maps count their elements. Recursion must end within the analysis. A loop without such a quantity is reported with the path leading around it."
	c.assume = append(c.assume, "the code outside this module that is called returns")
	exe, err := os.Executable()
	if err != nil {
		c.oblig++
		c.fail("analysable", "analysis", nil, "undecided: %v", err)
		return
	}
	endsRoots := endsRoots
	if e := os.Getenv("NIMCHECK_ENDS"); e != "" {
		// for experiments: some roots only
		endsRoots = strings.Fields(e)
	}
	res := make([]endsResult, len(endsRoots))
	errs := make([]string, len(endsRoots))
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	for i, id := range endsRoots {
		i, id := i, id
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			ctx, stop := context.WithTimeout(context.Background(), 600*time.Second)
			defer stop()
			cmd := exec.CommandContext(ctx, exe, "ends", id)
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
			var e bytes.Buffer
			cmd.Stderr = &e
			b, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(b, &res[i])
			}
			if err != nil {
				errs[i] = fmt.Sprintf("%v: %s", err, clip(e.String(), 300))
			}
		}()
	}
	wg.Wait()
	all := map[string]string{}
	for i, id := range endsRoots {
		r := res[i]
		c.must(errs[i] == "" && r.Oblig > 0, "analysable", "analysis", "undecided: the analysis of the roots of %s failed: %s", id, errs[i])
		for _, v := range append(r.Open, r.Missing...) {
			c.oblig++
			c.rules[v.Rule]++
			k := v.Rule + v.Where
			if !c.seen[k] {
				c.seen[k] = true
				c.viol = append(c.viol, v)
			}
		}
		for _, x := range r.Roots {
			c.roots = append(c.roots, id+": "+x)
		}
		for _, f := range r.Funcs {
			c.funcs[f] = true
		}
		for w, b := range r.Bounded {
			all[w] = b
		}
		c.paths += r.Paths
		c.loopsSum += r.Summed
		c.loopsUnr += r.Unroll
	}
	for _, w := range sortedKeys(all) {
		c.must(true, "ends", w, "%s", all[w])
	}
}
