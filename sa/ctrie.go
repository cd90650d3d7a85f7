package main

// T01 and T05: operations of the state tree on every shape of the path to an entry.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["T01"] = func(c *Ctx) { checkTrie(c, true) }
	checks["T05"] = func(c *Ctx) { checkTrie(c, false) }
}

// tleaf is an entry: 40 nibble tokens, "#x" a constant nibble, "S.i" nibble i of the symbolic key S.
type tleaf struct {
	name string
	tok  []string
	val  Val
	arr  *Obj // the nibbles
}

// tnode is a node of the trie expected for a set of entries.
type tnode struct {
	path []string
	leaf *tleaf
	rep  *tleaf // an entry below
	kids [16]*tnode
}

func (n *tnode) key() string { return strings.Join(n.path, " ") }

// trieOf is the compact trie of the entries; the root is always a branch.
func trieOf(ls []*tleaf) *tnode {
	root := &tnode{}
	for _, l := range ls {
		root.rep = l
	}
	root.fill(ls)
	return root
}

func nibbleOf(tok string) int {
	if tok[0] != '#' {
		panic("branching at a symbolic nibble: " + tok)
	}
	return strings.IndexByte(hexDigits, tok[1])
}

func (n *tnode) fill(ls []*tleaf) {
	by := map[int][]*tleaf{}
	for _, l := range ls {
		i := nibbleOf(l.tok[len(n.path)])
		by[i] = append(by[i], l)
	}
	for i, s := range by {
		k := &tnode{rep: s[0]}
		if len(s) == 1 {
			k.leaf, k.path = s[0], s[0].tok
		} else {
			m := len(n.path) + 1
			for {
				same := true
				for _, l := range s {
					same = same && l.tok[m] == s[0].tok[m]
				}
				if !same {
					break
				}
				m++
			}
			k.path = s[0].tok[:m]
			k.fill(s)
		}
		n.kids[i] = k
	}
}

func (n *tnode) walk(f func(*tnode)) {
	f(n)
	for _, k := range n.kids {
		if k != nil {
			k.walk(f)
		}
	}
}

// trieShape is a set of entries besides the target.
type trieShape struct {
	name  string
	kids  []*tleaf
	key   *tleaf
	conc  map[int]bool // positions with constant nibbles
	bytes int
}

// mkLeaf gives an entry that leaves the target's path at position d (40: the target itself)
// with the given nibble, and further constant nibbles after it.
func mkLeaf(name string, branch []int, d int, nib int, after map[int]int) *tleaf {
	l := &tleaf{name: name}
	conc := map[int]bool{}
	for _, b := range branch {
		conc[b] = true
	}
	for p := range after {
		conc[p] = true
	}
	for i := 0; i < 40; i++ {
		t := ""
		cb := conc[i] || conc[i^1]
		switch {
		case i == d:
			t = fmt.Sprintf("#%x", nib)
		case i < d:
			t = fmt.Sprintf("K.%d", i)
			if cb {
				t = fmt.Sprintf("#%x", keyNibble(i))
			}
		default:
			t = fmt.Sprintf("%s.%d", name, i)
			if cb || i^1 == d {
				t = "#7"
			}
			if v, ok := after[i]; ok {
				t = fmt.Sprintf("#%x", v)
			}
		}
		l.tok = append(l.tok, t)
	}
	return l
}

// rootNibble is the first nibble of the target key.
var rootNibble = 5

// keyNibble is the nibble of the target key at a place where something branches.
func keyNibble(i int) int {
	switch i {
	case 0:
		return rootNibble
	case 1:
		return 15
	case 6:
		return 0
	}
	return 10
}

func tokLin(t string) *Lin {
	if t[0] == '#' {
		return cLin(int64(nibbleOf(t)))
	}
	var i int
	at := strings.IndexByte(t, '.')
	fmt.Sscanf(t[at+1:], "%d", &i)
	b := be1(mkSym("key:"+t[:at]), cLin(int64(i/2)))
	h := mkDiv(b, bi(16))
	if i%2 == 0 {
		return h
	}
	return b.sub(h.mulc(bi(16)))
}

func tokSeq(ts []string) (q Seq) {
	for _, t := range ts {
		q = q.concat(byteSeq(tokLin(t)))
	}
	return
}

// keyBytes is the 20-byte key of an entry.
func (l *tleaf) keyBytes() (q Seq) {
	for i := 0; i < 40; i += 2 {
		a, b := l.tok[i], l.tok[i+1]
		if (a[0] == '#') != (b[0] == '#') {
			panic("half a symbolic byte")
		}
		if a[0] == '#' {
			q = q.concat(constSeq([]byte{byte(16*nibbleOf(a) + nibbleOf(b))}))
		} else {
			at := strings.IndexByte(a, '.')
			q = q.concat(rawSeq(mkSym("key:"+a[:at]), cLin(int64(i/2)), cLin(1)))
		}
	}
	return
}

type trie struct {
	c        *Ctx
	ip       *Interp
	st       *State
	B, L, C  types.Type
	nodeT    types.Type
	toNib    *ssa.Function
	memT     types.Type
	memF     string
	mem      *Obj
	tree     *Obj
	treeT    types.Type
	put, get *ssa.Function
	hash     *ssa.Function
	objs     []*Obj // the nodes
}

func (t *trie) one(st *State, fn *ssa.Function, args ...Val) (Val, *State) {
	outs := t.ip.exec(st, fn, args, nil, 0)
	var live []Outcome
	for _, o := range outs {
		if !infeasible(o.st.f) {
			live = append(live, o)
		}
	}
	if len(live) != 1 || live[0].pan != nil || len(live[0].ret) != 1 {
		unsupported(fn.Pos(), "one result of %s is expected, %d ways", fn.Name(), len(live))
	}
	return live[0].ret[0], live[0].st
}

// nib is a slice of the nibbles of an entry; as in the real tree, it has capacity left.
func (t *trie) nib(l *tleaf, from, to int) SliceV {
	if from == to {
		return SliceV{off: cLin(0), len: cLin(0), cap: cLin(0)}
	}
	return SliceV{obj: l.arr, off: cLin(int64(from)), len: cLin(int64(to - from)), cap: cLin(int64(40 - from))}
}

func field(n Node, T types.Type, name string, v Val) Node {
	p := fieldPath(T, name)
	if p == nil {
		unsupported(0, "no field %s of %s", name, T)
	}
	return setPath(n, p, valNode(v))
}

// nodeHash runs the Hash method of a node.
func (t *trie) nodeHash(st *State, n IfaceV) (Seq, *State) {
	m := methodSel(n.typ, "Hash")
	if m == nil {
		unsupported(0, "no method Hash of %s", n.typ)
	}
	P.body(m)
	v, st2 := t.one(st, m, n.v)
	q, ok := retBytes(v)
	if !ok {
		unsupported(m.Pos(), "hash %s", v.Key())
	}
	return q, st2
}

// build puts the nodes into the store.
func (t *trie) build(n *tnode, m *MapN) (IfaceV, Seq) {
	var o *Obj
	var T types.Type
	if n.leaf != nil {
		T = t.L
		o = freshObj(T, "leaf")
		nd := field(o.init, T, "Prefix", t.nib(n.leaf, 0, 40))
		t.st.set(o, field(nd, T, "Value", n.leaf.val))
	} else {
		T = t.B
		o = freshObj(T, "branch")
		nd := field(o.init, T, "Prefix", t.nib(n.rep, 0, len(n.path)))
		arr := expand(getPath(nd, fieldPath(T, "Children"))).(ArrN)
		for i, k := range n.kids {
			if k == nil {
				continue
			}
			_, h := t.build(k, m)
			ch := zeroNode(t.C)
			ch = field(ch, t.C, "Suffix", t.nib(k.rep, len(n.path), len(k.path)))
			ch = field(ch, t.C, "Exists", BoolV{bTrue})
			ch = setPath(ch, fieldPath(t.C, "Hash"), BytesN{h})
			arr = arrWrite(t.st.f, arr, cLin(int64(i)), ch)
		}
		t.st.set(o, setPath(nd, fieldPath(T, "Children"), arr))
	}
	t.objs = append(t.objs, o)
	f := mkIface(PtrV{obj: o}, types.NewPointer(T), t.nodeT).(IfaceV)
	q := t.st.bytesOf(t.nib(n.rep, 0, len(n.path)), 0)
	m.ups = append(m.ups, mupd{SeqV{q}, f})
	h, st := t.nodeHash(t.st, f)
	t.st = st
	// no node hashes to the placeholder
	t.st = assuming(t.st, bNeg(seqEqBool(t.st.f, h, zeroSeq(cLin(32)))))
	return f, h
}

func newTrie(c *Ctx, all []*tleaf, present []*tleaf) *trie {
	t := &trie{c: c, ip: newInterp(), st: newState()}
	t.B, t.L, t.C, t.nodeT, t.memT, t.treeT = treeT("Branch"), treeT("Leaf"), treeT("Child"), treeT("Node"), treeT("MemStore"), treeT("PMTree")
	t.ip.unrollAll = true
	t.toNib = repoFn("tree", "KeyToNibbles")
	t.put, t.get, t.hash = c.method(t.treeT, "PutEntry"), c.method(t.treeT, "GetEntry"), c.method(t.treeT, "Hash")
	f, ok := mapField(t.memT)
	if !ok {
		unsupported(0, "the map of MemStore")
	}
	t.memF = f
	for _, l := range all {
		kp := t.keyPtr(l)
		v, st := t.one(t.st, t.toNib, kp)
		t.st = st
		s := v.(SliceV)
		l.arr = s.obj
	}
	m := MapN{typ: fieldType(t.memT, f)}
	t.build(trieOf(present), &m)
	mo := freshObj(m.typ, "map")
	t.st.set(mo, m)
	t.mem = freshObj(t.memT, "store")
	t.st.set(t.mem, field(t.mem.init, t.memT, f, MapV{obj: mo}))
	t.tree = freshObj(t.treeT, "tree")
	t.st.set(t.tree, field(t.tree.init, t.treeT, "Store", mkIface(PtrV{obj: t.mem}, types.NewPointer(t.memT), treeT("Store"))))
	return t
}

func (t *trie) keyPtr(l *tleaf) Val {
	o := freshObj(types.NewArray(types.Typ[types.Byte], 20), "key")
	t.st.set(o, BytesN{l.keyBytes()})
	return PtrV{obj: o}
}

func (t *trie) entries(st *State) MapN {
	n := t.st.load(PtrV{obj: t.mem}, 0)
	_ = n
	v := nodeVal(getPath(st.load(PtrV{obj: t.mem}, 0), fieldPath(t.memT, t.memF)), fieldType(t.memT, t.memF)).(MapV)
	return t.ip.mapNode(st, v, 0)
}

// after compares the store with what is expected for the entries.
func (t *trie) after(st *State, want []*tleaf, where, what string, hashes bool) {
	c := t.c
	m := t.entries(st)
	root := trieOf(want)
	live := map[int]bool{}
	find := func(q Seq) (Val, bool) {
		for i := len(m.ups) - 1; i >= 0; i-- {
			if s, ok := m.ups[i].key.(SeqV); ok && seqEqual(st.f, s.S, q) {
				live[i] = true
				return m.ups[i].val, !absent(m.ups[i].val)
			}
		}
		return nil, false
	}
	var visit func(n *tnode) (Seq, bool)
	visit = func(n *tnode) (Seq, bool) {
		q := tokSeq(n.path)
		v, ok := find(q)
		kind := "branch"
		if n.leaf != nil {
			kind = "leaf"
		}
		name := fmt.Sprintf("the %s at depth %d", kind, len(n.path))
		if n.leaf == nil && !hashes {
			for _, k := range n.kids {
				if k != nil {
					visit(k)
				}
			}
			return Seq{}, false
		}
		f, isI := v.(IfaceV)
		if !c.mustSt(ok && isI && f.typ != nil, st, "stored", where, "%s: %s is missing", what, name) {
			return Seq{}, false
		}
		T := t.B
		if n.leaf != nil {
			T = t.L
		}
		if !c.mustSt(types.Identical(f.typ, types.NewPointer(T)), st, "stored", where, "%s: %s is a %s", what, name, f.typ) {
			return Seq{}, false
		}
		nd := st.load(f.v.(PtrV), 0)
		p, ok := nibblesOf(st, nodeVal(getPath(nd, fieldPath(T, "Prefix")), fieldType(T, "Prefix")))
		c.mustSt(ok && seqEqual(st.f, p, q), st, "path of the node", where, "%s: %s has the path %s", what, name, clip(SeqV{p}.Key(), 300))
		if n.leaf != nil {
			g, ok := nibblesOf(st, nodeVal(getPath(nd, fieldPath(T, "Value")), fieldType(T, "Value")))
			w, _ := nibblesOf(st, n.leaf.val)
			c.mustSt(ok && sameBytes(st.f, g, w), st, "value", where, "%s: the value of %s is %s, expected %s", what, n.leaf.name, clip(SeqV{g}.Key(), 200), clip(SeqV{w}.Key(), 200))
		} else {
			at, _ := expand(getPath(nd, fieldPath(T, "Children"))).(ArrN)
			for i, k := range n.kids {
				cn := st.readNode(at, []PE{{idx: cLin(int64(i))}}, 0)
				ex, ok := nodeVal(getPath(expand(cn), fieldPath(t.C, "Exists")), types.Typ[types.Bool]).(BoolV)
				is := -1
				if ok {
					is = st.f.decide(ex.B)
				}
				if k == nil {
					c.mustSt(is == 0, st, "children", where, "%s: %s has a child in slot %x", what, name, i)
					continue
				}
				h, known := visit(k)
				if !c.mustSt(is == 1, st, "children", where, "%s: %s has no child in slot %x", what, name, i) {
					continue
				}
				s, ok := nibblesOf(st, nodeVal(getPath(expand(cn), fieldPath(t.C, "Suffix")), fieldType(t.C, "Suffix")))
				c.mustSt(ok && seqEqual(st.f, s, tokSeq(k.path[len(n.path):])), st, "children", where, "%s: the suffix in slot %x of %s is %s", what, i, name, clip(SeqV{s}.Key(), 300))
				hv, ok := retBytes(nodeVal(getPath(expand(cn), fieldPath(t.C, "Hash")), fieldType(t.C, "Hash")))
				if known {
					c.mustSt(ok && seqEqual(st.f, hv, h), st, "current hash", where, "%s: the hash in slot %x of %s is not the hash of its child: %s, expected %s", what, i, name, clip(SeqV{hv}.Key(), 300), clip(SeqV{h}.Key(), 300))
				}
			}
		}
		if !hashes {
			return Seq{}, false
		}
		h, _ := t.nodeHash(st.clone(), f)
		return h, true
	}
	h, known := visit(root)
	if hashes && known {
		v, st2 := t.one(st.clone(), t.hash, PtrV{obj: t.tree})
		g, ok := retBytes(v)
		c.mustSt(ok && seqEqual(st2.f, g, h), st2, "root hash", fnPos(t.hash), "%s: the root hash is %s", what, clip(v.Key(), 300))
	}
	for i, u := range m.ups {
		if absent(u.val) || live[i] {
			continue
		}
		f, ok := u.val.(IfaceV)
		leaf := ok && f.typ != nil && types.Identical(f.typ, types.NewPointer(t.L))
		if hashes || leaf {
			c.mustSt(false, st, "no other node", where, "%s: a node that is not expected is stored at %s", what, clip(u.key.Key(), 300))
		}
	}
}

// absent: there is no node.
func absent(v Val) bool {
	f, ok := v.(IfaceV)
	return v == nil || ok && f.typ == nil && f.sym == nil
}

func trieShapes(thorough bool) (out []trieShape) {
	add := func(name string, branch []int, kids ...*tleaf) {
		key := mkLeaf("K", branch, 40, 0, nil)
		out = append(out, trieShape{name: name, kids: kids, key: key})
	}
	rootNibble = 5
	add("an empty tree", []int{0})
	kinds := []string{"", "a", "ab", "B"}
	// what leaves the path at a position: nothing, an entry, two entries, a branch of two entries
	mk := func(branch []int, d int, kind string) (ls []*tleaf) {
		n := func(s string) string { return fmt.Sprintf("%s%d", s, d) }
		switch kind {
		case "a":
			ls = append(ls, mkLeaf(n("A"), branch, d, 3, nil))
		case "ab":
			// the first and the last slot, where the target leaves them
			x, y := 0, 15
			if keyNibble(d) == x {
				x = 3
			} else if keyNibble(d) == y {
				y = 14
			}
			ls = append(ls, mkLeaf(n("A"), branch, d, x, nil), mkLeaf(n("C"), branch, d, y, nil))
		case "B":
			if d == 39 {
				return nil
			}
			e := d + 1
			if d+3 < 40 {
				e = d + 3
			}
			x, y := mkLeaf(n("A"), branch, d, 9, map[int]int{e: 2}), mkLeaf(n("C"), branch, d, 9, map[int]int{e: 12})
			// both go on alike until e
			for i := d + 1; i < e; i++ {
				y.tok[i] = x.tok[i]
			}
			if (x.tok[e^1][0] == '#') != (x.tok[e][0] == '#') || (y.tok[e^1][0] == '#') != (y.tok[e][0] == '#') {
				panic("half byte")
			}
			ls = append(ls, x, y)
		}
		return
	}
	pos := []int{0, 1, 6, 39}
	if thorough {
		pos = []int{0, 1, 2, 3, 6, 20, 38, 39}
	}
	var sets [][]int
	for i := range pos {
		sets = append(sets, []int{pos[i]})
		for j := i + 1; j < len(pos); j++ {
			sets = append(sets, []int{pos[i], pos[j]})
		}
	}
	sets = append(sets, []int{0, 1, 6}, []int{1, 6, 39}, []int{0, 6, 39})
	if thorough {
		sets = append(sets, []int{1, 2, 3}, []int{0, 1, 2}, []int{6, 20, 38}, []int{0, 1, 6, 39}, []int{1, 2, 3, 39})
	}
	seen := map[string]bool{}
	for _, s := range sets {
		branch := append([]int{0}, s...)
		var rec func(i int, name string, ls []*tleaf)
		rec = func(i int, name string, ls []*tleaf) {
			if i == len(s) {
				if !seen[name] {
					seen[name] = true
					add(name, branch, ls...)
				}
				return
			}
			for _, k := range kinds[1:] {
				if k == "B" && s[i] == 39 || k == "ab" && len(s) > 2 && !thorough {
					continue
				}
				rec(i+1, fmt.Sprintf("%s%d%s ", name, s[i], k), append(ls[:len(ls):len(ls)], mk(branch, s[i], k)...))
			}
		}
		rec(0, "", nil)
	}
	// the first and the last slot of the root
	for _, n := range []int{0, 15} {
		rootNibble = n
		for _, d := range []int{0, 1} {
			for _, k := range []string{"a", "B"} {
				branch := []int{0, d}
				add(fmt.Sprintf("root slot %d, %d%s", n, d, k), branch, mk(branch, d, k)...)
			}
		}
	}
	rootNibble = 5
	// a full root
	var full []*tleaf
	for i := 0; i < 16; i++ {
		if i != 5 {
			full = append(full, mkLeaf(fmt.Sprintf("F%x", i), []int{0}, 0, i, nil))
		}
	}
	add("0full", []int{0}, full...)
	return
}

func checkTrie(c *Ctx, hashes bool) {
	c.explained = "Trees are built abstractly for every way up to three places on the path of the target key (depth 0, 1, 6 and 39) at which other entries (one, two, or a branch of two, and a full root) leave it, with symbolic values, keys symbolic except where paths part, and paths sharing their arrays with capacity left. On each, putting a new value, replacing a value, removing the entry and putting or removing what is so already are analysed through PMTree and MemStore. "
	if hashes {
		c.explained += "Afterwards the store must hold exactly the nodes of the compact trie of the entries, with every child's hash equal to the hash of the node it refers to; the root hash then depends on the entries only."
	} else {
		c.explained += "Afterwards the store must hold exactly the leaves of the expected entries, each with its value, every entry and the target must read back, and a change must be reported exactly if the value differs."
	}
	shapes := trieShapes(c.thorough)
	for _, sh := range shapes {
		c.trieShape(sh, hashes)
	}
	c.must(len(shapes) > 50, "vacuous", "tree", "%d shapes", len(shapes))
}

func (c *Ctx) trieShape(sh trieShape, hashes bool) {
	all := append(append([]*tleaf{}, sh.kids...), sh.key)
	for _, present := range []bool{false, true} {
		ops := []string{"put", "delete", "delete empty"}
		for _, op := range ops {
			for _, l := range all {
				l.val = symSlice("value:" + l.name)
			}
			start := sh.kids
			if present {
				start = all
			}
			what := fmt.Sprintf("%s (shape %s, present %v)", op, sh.name, present)
			c.run(newInterp(), "PMTree."+op, func() []Outcome {
				t := newTrie(c, all, start)
				for _, l := range start {
					t.st.f.addGE(l.val.(SliceV).len.addc(-1))
				}
				t.op(sh, op, present, start, all, what, hashes)
				return nil
			})
		}
	}
}

func (t *trie) op(sh trieShape, op string, present bool, start, all []*tleaf, what string, hashes bool) {
	c := t.c
	where := fnPos(t.put)
	var nv Val
	switch op {
	case "put":
		nv = symSlice("newvalue")
		t.st.f.addGE(nv.(SliceV).len.addc(-1))
		t.st = assuming(t.st, bNeg(isNilVal(nv)))
	case "delete":
		nv = SliceV{off: cLin(0), len: cLin(0), cap: cLin(0)}
	default:
		nv = SliceV{obj: freshArr(types.Typ[types.Byte], cLin(4), "empty"), off: cLin(0), len: cLin(0), cap: cLin(4)}
	}
	kp := t.keyPtr(sh.key)
	outs := t.ip.exec(t.st.clone(), t.put, []Val{PtrV{obj: t.tree}, kp, nv}, nil, 0)
	c.absorb(t.ip, outs)
	n := 0
	old := sh.key.val
	for _, o := range outs {
		if infeasible(o.st.f) {
			continue
		}
		if !c.mustSt(o.pan == nil, o.st, "no panic", where, "%s: %v", what, o.pan) {
			continue
		}
		n++
		want := sh.kids
		if op == "put" {
			k := *sh.key
			k.val = nv
			want = append(append([]*tleaf{}, sh.kids...), &k)
		}
		if hashes {
			t.after(o.st, want, where, what, true)
			continue
		}
		t.after(o.st, want, where, what, false)
		// reported
		r, _ := o.ret[0].(BoolV)
		is := -1
		if r.B != nil {
			is = o.st.f.decide(r.B)
		}
		same := bFalse
		switch {
		case !present:
			same = bFalse
			if op != "put" {
				same = bTrue
			}
		case op == "put":
			a, _ := nibblesOf(o.st, old)
			b, _ := nibblesOf(o.st, nv)
			same = seqEqBool(o.st.f, a, b)
		}
		w := 1 - o.st.f.decide(same)
		c.mustSt(is == w, o.st, "reported change", where, "%s: reports %d, expected %d (1: changed, 0: unchanged)", what, is, w)
		for _, l := range want {
			t.read(o.st, l, what)
		}
		if op != "put" {
			k := *sh.key
			k.val = nil
			t.read(o.st, &k, what)
		}
	}
	c.must(n > 0, "vacuous", where, "%s: %d returning paths", what, n)
}

func (t *trie) read(st *State, l *tleaf, what string) {
	c := t.c
	where := fnPos(t.get)
	t.st = st.clone()
	k := t.keyPtr(l)
	for _, o := range t.ip.exec(t.st, t.get, []Val{PtrV{obj: t.tree}, k}, nil, 0) {
		if infeasible(o.st.f) {
			continue
		}
		if !c.mustSt(o.pan == nil, o.st, "no panic", where, "%s: reading panics: %v", what, o.pan) {
			continue
		}
		if l.val == nil {
			c.mustSt(holds(o.st.f, isNilVal(o.ret[0])), o.st, "absent", where, "%s: an absent entry reads as %s", what, clip(o.ret[0].Key(), 200))
			continue
		}
		g, ok := nibblesOf(o.st, o.ret[0])
		w, _ := nibblesOf(o.st, l.val)
		c.mustSt(ok && sameBytes(o.st.f, g, w), o.st, "read back", where, "%s: entry %s reads as %s, expected %s", what, l.name, clip(o.ret[0].Key(), 200), clip(SeqV{w}.Key(), 200))
	}
}

func sameBytes(f *Facts, a, b Seq) bool { return f.decide(seqEqBool(f, a, b)) == 1 }

// overlayTrie: tree operations through an overlay leave the lower store alone until it is flushed,
// and then the lower store holds the result.
func (c *Ctx) overlayTrie() {
	newOv := repoFn("tree", "NewOverlayStore")
	ovT := treeT("OverlayStore")
	flush := c.method(ovT, "Flush")
	if flush == nil {
		return
	}
	n := 0
	for _, sh := range trieShapes(false) {
		if !c.thorough && (len(sh.kids) > 4 || strings.Count(sh.name, " ") > 2) {
			continue
		}
		n++
		for _, present := range []bool{false, true} {
			for _, op := range []string{"put", "delete", "put, delete"} {
				sh, present, op := sh, present, op
				all := append(append([]*tleaf{}, sh.kids...), sh.key)
				for _, l := range all {
					l.val = symSlice("value:" + l.name)
				}
				start := sh.kids
				if present {
					start = all
				}
				what := fmt.Sprintf("%s through an overlay (shape %s, present %v)", op, sh.name, present)
				c.run(newInterp(), "overlay."+op, func() []Outcome {
					t := newTrie(c, all, start)
					for _, l := range start {
						t.st.f.addGE(l.val.(SliceV).len.addc(-1))
					}
					low := nodeVal(getPath(t.st.load(PtrV{obj: t.tree}, 0), fieldPath(t.treeT, "Store")), fieldType(t.treeT, "Store"))
					v, st := t.one(t.st, newOv, low)
					t.st = st
					t.st.set(t.tree, field(t.st.load(PtrV{obj: t.tree}, 0), t.treeT, "Store", mkIface(v, types.NewPointer(ovT), treeT("Store"))))
					t.overlayOp(sh, op, flush, v, what)
					return nil
				})
			}
		}
	}
	c.must(n > 10, "vacuous", "tree", "%d shapes", n)
}

func (t *trie) overlayOp(sh trieShape, op string, flush *ssa.Function, ov Val, what string) {
	c := t.c
	nv := symSlice("newvalue")
	t.st.f.addGE(nv.len.addc(-1))
	t.st = assuming(t.st, bNeg(isNilVal(nv)))
	none := SliceV{off: cLin(0), len: cLin(0), cap: cLin(0)}
	was := t.st.clone()
	cur := []*State{t.st}
	k := *sh.key
	k.val = nv
	want := append(append([]*tleaf{}, sh.kids...), &k)
	for _, o := range strings.Split(op, ", ") {
		arg := Val(nv)
		if o == "delete" {
			arg, want = none, sh.kids
		}
		var next []*State
		for _, st := range cur {
			t.st = st
			kp := t.keyPtr(sh.key)
			outs := t.ip.exec(t.st.clone(), t.put, []Val{PtrV{obj: t.tree}, kp, arg}, nil, 0)
			c.absorb(t.ip, outs)
			for _, r := range outs {
				if infeasible(r.st.f) {
					continue
				}
				if c.mustSt(r.pan == nil, r.st, "no panic", fnPos(t.put), "%s: %v", what, r.pan) {
					next = append(next, r.st)
				}
			}
		}
		cur = next
	}
	where := fnPos(flush)
	n := 0
	for _, st := range cur {
		a, b := t.entries(was), t.entries(st)
		same := len(a.ups) == len(b.ups)
		for i := range a.ups {
			same = same && a.ups[i].key.Key() == b.ups[i].key.Key() && sameIface(a.ups[i].val, b.ups[i].val)
		}
		c.mustSt(same, st, "lower store untouched", fnPos(t.put), "%s: the lower store changes before the overlay is flushed", what)
		for _, o := range t.objs {
			c.mustSt(st.content(o).Key() == was.content(o).Key(), st, "lower store untouched", fnPos(t.put), "%s: a %s of the lower store is changed in place", what, o.typ)
		}
		for _, r := range t.ip.exec(st.clone(), flush, []Val{ov}, nil, 0) {
			if infeasible(r.st.f) {
				continue
			}
			n++
			if c.mustSt(r.pan == nil, r.st, "no panic", where, "%s: %v", what, r.pan) {
				t.after(r.st, want, where, what+" and flushed", true)
			}
		}
	}
	c.must(n > 0, "vacuous", where, "%s: %d paths", what, n)
}
