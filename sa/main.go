package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: nimcheck <command>")
		os.Exit(2)
	}
	if os.Args[1] == "check" {
		root := os.Getenv("NIMCHECK_ROOT")
		if root == "" {
			root = "/verif"
		}
		rc := 0
		for _, id := range os.Args[2:] {
			if r := runCheck(root, id); r > rc {
				rc = r
			}
			if gaveUp {
				break
			}
		}
		os.Exit(rc)
	}
	if os.Args[1] == "ends" {
		os.Exit(runEnds(os.Args[2]))
	}
	if os.Args[1] == "branch" {
		lo, _ := strconv.Atoi(os.Args[2])
		hi, _ := strconv.Atoi(os.Args[3])
		os.Exit(runBranch(lo, hi))
	}
	dir := "/repo"
	if d := os.Getenv("NIMCHECK_REPO"); d != "" {
		dir = d
	}
	var err error
	P, err = load(dir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	switch os.Args[1] {
	case "re":
		debugRe(os.Args[2])
	case "push":
		debugPush()
	case "en":
		debugEn(os.Args[2])
	case "dec":
		debugDec(os.Args[2])
	case "run":
		debugRun(os.Args[2], os.Args[3], os.Args[4])
	}
}

// debugRun prints the outcomes of a function on symbolic arguments.
func debugRun(rel, typ, name string) {
	fn := P.fnByName(rel, typ, name)
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	P.body(fn)
	t0 := time.Now()
	ip := newInterp()
	st := newState()
	var args []Val
	for _, p := range fn.Params {
		v := symVal(p.Type(), mkSym(p.Name()))
		if q, ok := v.(PtrV); ok {
			q.null = nil
			v = q
		}
		args = append(args, v)
	}
	outs, u := ip.try(func() []Outcome { return ip.exec(st, fn, args, nil, fn.Pos()) })
	if u != nil {
		fmt.Println("UNSUPPORTED:", u.msg, P.pos(u.pos))
	}
	for i, o := range outs {
		fmt.Printf("--- outcome %d\n", i)
		printOutcome(o)
	}
	fmt.Println("outcomes:", len(outs), "steps:", ip.steps, "loops unrolled:", ip.loopsUnr, "summarised:", ip.loopsSum, time.Since(t0))
}

func printOutcome(o Outcome) {
	for _, c := range o.st.conds {
		fmt.Printf("  if %s = %v  @%s\n", c.b.Key(), c.truth, P.pos(c.pos))
	}
	for _, e := range o.st.ev {
		fmt.Printf("  ev %s\n", e.Key())
	}
	for _, ob := range sortedObjs(o.st.h) {
		fmt.Printf("  heap %s (%s) = %s\n", ob.Key(), ob.where, o.st.h[ob].Key())
	}
	if o.pan != nil {
		fmt.Println("  PANIC", o.pan)
		return
	}
	for _, r := range o.ret {
		fmt.Printf("  ret %s\n", r.Key())
	}
}

// try runs f, turning unsupported constructs into a result.
func (ip *Interp) try(f func() []Outcome) (out []Outcome, u *Unsupported) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(Unsupported)
			if !ok {
				panic(r)
			}
			if len(ip.stack) > 0 {
				x.msg += " [in " + ip.stack[len(ip.stack)-1].fn.String() + "]"
			}
			ip.stack = nil
			u = &x
		}
	}()
	return f(), nil
}

func debugDec(name string) {
	T := codecTyp(name)
	ip := newInterp()
	ip.preHook = codecContracts(name)
	t0 := time.Now()
	var obj *Obj
	outs, u := ip.try(func() []Outcome {
		o, outs := decodeRoot(ip, T, "Unmarshal")
		obj = o
		return outs
	})
	if u != nil {
		fmt.Println("UNSUPPORTED:", u.msg, P.pos(u.pos))
	}
	for i, o := range outs {
		fmt.Printf("--- outcome %d\n", i)
		printOutcome(o)
		if o.pan == nil && obj != nil {
			fmt.Println("  value", o.st.content(obj).Key())
		}
	}
	fmt.Println(name, "outcomes:", len(outs), "steps:", ip.steps, "loops unrolled:", ip.loopsUnr, "summarised:", ip.loopsSum, time.Since(t0))
}

// debugRe decodes and re-encodes a wire type.
func debugRe(name string) {
	c := newCtx("dbg")
	d := c.decode(name, codecTyp(name))
	for _, o := range d.outs {
		yes, _ := split(o.st, decErr(o, 1), 0)
		for _, st := range yes {
			for _, r := range c.reencode(d, st) {
				printOutcome(Outcome{st: &State{h: map[*Obj]Node{}, f: r.st.f, conds: r.st.conds}, ret: r.ret, pan: r.pan})
				if r.pan == nil {
					fmt.Println("  bytes", r.st.bytesOf(r.ret[0].(SliceV), 0).Key())
				}
			}
		}
	}
}

func debugEn(name string) {
	c := newCtx("debug")
	c.encode(name, codecTyp(name), func(e *encRun) {
		e.encoded(func(st *State, got Seq) {
			fmt.Println("bytes", got.Key())
			c.sizeOf(e.ip, name, st, e.ptr, e.T, func(st *State, n *Lin, failed bool) {
				fmt.Println("size", failed, n)
			})
		})
	})
}
