package main

// G02: reading genesis profiles.

import (
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"
)

func init() { checks["G02"] = checkG02 }

// A file system is an opaque value fs(base, prefix); the content of a file in it is file(base, path).

type fsys struct {
	base   string
	prefix Seq
}

var fsysOf = map[string]fsys{} // by symbol key

func mkFS(base string, prefix Seq, ityp types.Type) Val {
	s := mkSym("fs", StrLit(base), SeqV{prefix})
	fsysOf[s.Key()] = fsys{base, prefix}
	return IfaceV{sym: s, ityp: ityp}
}

func asFS(v Val) (fsys, bool) {
	switch x := v.(type) {
	case IfaceV:
		if x.sym != nil {
			f, ok := fsysOf[x.sym.Key()]
			return f, ok
		}
		if x.typ != nil && namedPath(x.typ) == "embed.FS" {
			return fsys{"embed", Seq{}}, true
		}
		return fsys{}, false
	}
	return fsys{}, false
}

// fileSym is the content of a file.
func fileSym(f fsys, name Seq) *Sym {
	return mkSym("file", StrLit(f.base), SeqV{f.prefix.concat(name)})
}

// fileRead splits on whether the file can be read.
func fileRead(st *State, f fsys, name Seq, c *Call, ok func(*State, *Sym) Val, none Val) ([]Outcome, bool) {
	s := fileSym(f, name)
	yes, no := split(st, bPred("readable", SymV{s}), c.pos)
	var out []Outcome
	for _, x := range yes {
		out = append(out, Outcome{st: x, ret: []Val{ok(x, s), IfaceV{ityp: errType}}})
	}
	for _, x := range no {
		out = append(out, Outcome{st: x, ret: []Val{none, newErr("read")}})
	}
	return out, true
}

var openFiles = map[string]*Sym{} // handle or decoder symbol -> content symbol

func profileHooks(ip *Interp) {
	h := codecContracts("")
	bytesT := types.NewSlice(types.Typ[types.Byte])
	content := func(s *State, f *Sym) Val { return mkByteSlice(s, rawSeq(f, cLin(0), symLen(f)), "file") }
	handle := func(T types.Type) func(*State, *Sym) Val {
		return func(s *State, f *Sym) Val {
			hs := mkSym("handle", SymV{f})
			openFiles[hs.Key()] = f
			if _, isI := T.Underlying().(*types.Interface); isI {
				return IfaceV{sym: hs, ityp: T}
			}
			if p, isP := T.(*types.Pointer); isP {
				return PtrV{obj: lazyObj(hs, p.Elem())}
			}
			unsupported(0, "file handle of type %s", T)
			return nil
		}
	}
	contentOf := func(v Val) *Sym {
		switch x := v.(type) {
		case IfaceV:
			if x.sym != nil {
				return openFiles[x.sym.Key()]
			}
			if p, ok := x.v.(PtrV); ok && p.obj != nil && p.obj.sym != nil {
				return openFiles[p.obj.sym.Key()]
			}
		case PtrV:
			if x.obj != nil && x.obj.sym != nil {
				return openFiles[x.obj.sym.Key()]
			}
		}
		return nil
	}
	// toml fills the structure: each field with the entry of its key
	tomlInto := func(st *State, data Val, dst Val, c *Call) ([]Outcome, bool) {
		iv, ok := dst.(IfaceV)
		if !ok || iv.typ == nil {
			return nil, false
		}
		p, ok := iv.v.(PtrV)
		pt, ok2 := iv.typ.(*types.Pointer)
		if !ok || !ok2 || p.obj == nil {
			return nil, false
		}
		u, ok := under(pt.Elem()).(*types.Struct)
		if !ok {
			return nil, false
		}
		fs := make([]Node, u.NumFields())
		old, isS := expand(st.load(p, c.pos)).(StructN)
		if !isS {
			return nil, false
		}
		for i := range fs {
			k := tomlKey(u, i)
			if k == "" {
				fs[i] = old.fs[i]
				continue
			}
			fs[i] = LazyN{u.Field(i).Type(), mkSym("toml", data, StrLit(k))}
		}
		yes, no := split(st, bPred("tomlok", data), c.pos)
		var out []Outcome
		for _, x := range yes {
			x.store(p, StructN{pt.Elem(), fs}, c.pos)
			x.emit(Event{kind: "toml", args: []Val{data, TypV{pt.Elem()}}, pos: c.pos})
			out = append(out, Outcome{st: x, ret: []Val{IfaceV{ityp: errType}}})
		}
		for _, x := range no {
			out = append(out, Outcome{st: x, ret: []Val{newErr("toml")}})
		}
		return out, true
	}
	dec := func(ip *Interp, st *State, c *Call, full bool) ([]Outcome, bool) {
		q := ip.seqArg(st, c.args[0], c.pos).resolve(st.f)
		iv, ok := c.args[1].(IfaceV)
		if !ok || iv.typ == nil {
			return nil, false
		}
		p, ok := iv.v.(PtrV)
		pt, ok2 := iv.typ.(*types.Pointer)
		if !ok || !ok2 || p.obj == nil {
			return nil, false
		}
		T := pt.Elem()
		n, pass := decodedLen(q, T), decodes(q, T)
		if full {
			pass = bAnd2(pass, bEq0(n.sub(q.length())))
		}
		yes, no := split(st, pass, c.pos)
		var out []Outcome
		for _, x := range yes {
			x.f = assuming(x, bGe0(q.length().sub(n))).f
			x.store(p, LazyN{T, decodedSym(q, T)}, c.pos)
			r := []Val{IntV{n}, IfaceV{ityp: errType}}
			if full {
				r = r[1:]
			}
			x.emit(Event{kind: "decoded", args: []Val{SeqV{q}, TypV{T}}, pos: c.pos})
			out = append(out, Outcome{st: x, ret: r})
		}
		for _, x := range no {
			x.store(p, LazyN{T, mkSym("partly", SeqV{q}, TypV{T})}, c.pos)
			x.emit(Event{kind: "decodefailed", args: []Val{SeqV{q}, TypV{T}}, pos: c.pos})
			e := newErr("decode")
			r := []Val{IntV{symInt(mkSym("partlylen", SeqV{q}, TypV{T}), types.Typ[types.Uint32])}, e}
			if full {
				r = r[1:]
			}
			out = append(out, Outcome{st: x, ret: r})
		}
		return out, true
	}
	ip.preHook = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		name := c.fn.String()
		switch name {
		case "io/fs.Sub":
			f, ok := asFS(c.args[0])
			q := ip.seqArg(st, c.args[1], c.pos)
			if !ok {
				return nil, false
			}
			// fails only for an invalid name
			if b, isC := q.constBytes(); isC && validName(string(b)) {
				return ret1(st, mkFS(f.base, f.prefix.concat(q).concat(constSeq([]byte("/"))), c.res.At(0).Type()), IfaceV{ityp: errType})
			}
			return nil, false
		case "os.DirFS":
			if b, ok := ip.seqArg(st, c.args[0], c.pos).constBytes(); ok {
				return ret1(st, mkFS("dir:"+filepath.Clean(string(b)), Seq{}, c.res.At(0).Type()))
			}
			return nil, false
		case "io/fs.ReadFile":
			if f, ok := asFS(c.args[0]); ok {
				return fileRead(st, f, ip.seqArg(st, c.args[1], c.pos).resolve(st.f), c, content, zeroVal(bytesT))
			}
			return nil, false
		case "(embed.FS).ReadFile":
			return fileRead(st, fsys{"embed", Seq{}}, ip.seqArg(st, c.args[1], c.pos).resolve(st.f), c, content, zeroVal(bytesT))
		case "(embed.FS).Open":
			T := c.res.At(0).Type()
			return fileRead(st, fsys{"embed", Seq{}}, ip.seqArg(st, c.args[1], c.pos).resolve(st.f), c, handle(T), IfaceV{ityp: T})
		case "os.ReadFile":
			return fileRead(st, fsys{"dir:.", Seq{}}, ip.seqArg(st, c.args[0], c.pos).resolve(st.f), c, content, zeroVal(bytesT))
		case "os.Open":
			T := c.res.At(0).Type()
			return fileRead(st, fsys{"dir:.", Seq{}}, ip.seqArg(st, c.args[0], c.pos).resolve(st.f), c, handle(T), zeroVal(T))
		case "io.ReadAll", "io/ioutil.ReadAll":
			if f := contentOf(c.args[0]); f != nil {
				yes, no := split(st, bPred("readable2", SymV{f}), c.pos)
				var out []Outcome
				for _, x := range yes {
					out = append(out, Outcome{st: x, ret: []Val{content(x, f), IfaceV{ityp: errType}}})
				}
				for _, x := range no {
					x.emit(Event{kind: "readfailed", pos: c.pos})
					out = append(out, Outcome{st: x, ret: []Val{zeroVal(bytesT), newErr("read")}})
				}
				return out, true
			}
			return nil, false
		case "(*os.File).Close":
			return ret1(st, IfaceV{ityp: errType})
		case "github.com/pelletier/go-toml.NewDecoder":
			if f := contentOf(c.args[0]); f != nil {
				return []Outcome{{st: st, ret: []Val{handle(c.res.At(0).Type())(st, f)}}}, true
			}
			return nil, false
		case "(*github.com/pelletier/go-toml.Decoder).Strict":
			return ret1(st, c.args[0])
		case "(*github.com/pelletier/go-toml.Decoder).Decode":
			if f := contentOf(c.args[0]); f != nil {
				return tomlInto(st, SeqV{rawSeq(f, cLin(0), symLen(f))}, c.args[1], c)
			}
			return nil, false
		case "github.com/pelletier/go-toml.Unmarshal":
			return tomlInto(st, SeqV{ip.seqArg(st, c.args[0], c.pos).resolve(st.f)}, c.args[1], c)
		case "encoding/hex.DecodeString":
			q := ip.seqArg(st, c.args[0], c.pos).resolve(st.f)
			yes, no := split(st, bPred("hexok", SeqV{q}), c.pos)
			var out []Outcome
			for _, x := range yes {
				s := mkSym("hex", SeqV{q})
				out = append(out, Outcome{st: x, ret: []Val{mkByteSlice(x, rawSeq(s, cLin(0), symLen(s)), "hex"), IfaceV{ityp: errType}}})
			}
			for _, x := range no {
				s := mkSym("hexpart", SeqV{q})
				out = append(out, Outcome{st: x, ret: []Val{mkByteSlice(x, rawSeq(s, cLin(0), symLen(s)), "hex"), newErr("hex")}})
			}
			return out, true
		case modPath + "/beserial.UnmarshalFull":
			return dec(ip, st, c, true)
		case modPath + "/beserial.Unmarshal":
			return dec(ip, st, c, false)
		}
		return h(ip, st, c)
	}
	ip.hooks["invoke:Open"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if f, ok := asFS(c.args[0]); ok {
			T := c.res.At(0).Type()
			return fileRead(st, f, ip.seqArg(st, c.args[1], c.pos).resolve(st.f), c, handle(T), IfaceV{ityp: T})
		}
		return nil, false
	}
	ip.hooks["invoke:ReadFile"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if f, ok := asFS(c.args[0]); ok {
			return fileRead(st, f, ip.seqArg(st, c.args[1], c.pos).resolve(st.f), c, content, zeroVal(bytesT))
		}
		return nil, false
	}
	ip.hooks["invoke:Close"] = func(ip *Interp, st *State, c *Call) ([]Outcome, bool) {
		if contentOf(c.args[0]) != nil {
			return ret1(st, IfaceV{ityp: errType})
		}
		return nil, false
	}
}

func validName(s string) bool {
	return s != "" && s != "." && !strings.HasPrefix(s, "/") && !strings.HasSuffix(s, "/") && filepath.Clean(s) == s && !strings.HasPrefix(s, "..")
}

func decodedSym(q Seq, T types.Type) *Sym { return mkSym("decoded", SeqV{q}, TypV{T}) }
func decodedLen(q Seq, T types.Type) *Lin {
	return symInt(mkSym("decodedlen", SeqV{q}, TypV{T}), types.Typ[types.Uint32])
}
func decodes(q Seq, T types.Type) *Bool { return bPred("decodes", SeqV{q}, TypV{T}) }

// tomlKey is the key of a field.
func tomlKey(u *types.Struct, i int) string {
	f := u.Field(i)
	if !f.Exported() {
		return ""
	}
	k := reflect.StructTag(u.Tag(i)).Get("toml")
	if j := strings.Index(k, ","); j >= 0 {
		k = k[:j]
	}
	if k == "-" {
		return ""
	}
	if k == "" {
		k = "?" + f.Name() // matched by name, case-insensitively
	}
	return k
}

func sameKey(k, entry string) bool {
	if strings.HasPrefix(k, "?") {
		return strings.EqualFold(k[1:], entry)
	}
	return k == entry
}

// tomlEntries are the top-level keys of a toml file, from its source.
func tomlEntries(src string) (out []string, ok bool) {
	depth := 0
	for _, line := range strings.Split(src, "\n") {
		t := strings.TrimSpace(line)
		inStr := false
		if depth == 0 && t != "" && !strings.HasPrefix(t, "#") {
			j := strings.Index(t, "=")
			if strings.HasPrefix(t, "[") || j < 0 {
				return nil, false
			}
			out = append(out, strings.TrimSpace(t[:j]))
		}
		for _, r := range t {
			switch {
			case r == '"':
				inStr = !inStr
			case inStr:
			case r == '[':
				depth++
			case r == ']':
				depth--
			case r == '#':
				inStr = true
			}
		}
	}
	return out, depth == 0
}

// the entries of a profile's configuration and the field each one reaches
var configFields = map[string]string{"network_id": "NetworkID", "name": "Name", "seed_peers": "SeedPeers", "seed_lists": "SeedLists", "genesis_hash": "GenesisHash"}

func checkG02(c *Ctx) {
	c.explained = "OpenProfile is analysed for the names of the built-in profiles and for a symbolic path. Files, their toml entries, hexadecimal and binary decoding are uninterpreted functions of file system and name, so the returned profile names exactly what each part was read from: configuration, block and accounts must come from <path>.toml, <path>.block.bin and <path>.accounts.bin of one file system (the embedded one for built-in profiles), every entry present in the shipped toml files must reach its field, and success requires that every step succeeded and consumed the whole file. A failure must be due to a step that failed. The files of the built-in profiles must be embedded."
	fn := repoFn("genesis", "OpenProfile")
	T := P.typ("genesis", "Profile")
	C := P.typ("genesis", "Config")
	B := wireT("Block")
	if !c.must(T != nil && C != nil, "anchored", "genesis.Profile", "profile and configuration types") {
		return
	}
	c.shippedFiles(C)
	for _, which := range []string{"main", "test", ""} {
		ip := newInterp()
		profileHooks(ip)
		st := newState()
		path := SeqV{constSeq([]byte(which))}
		base, prefix := "embed", constSeq([]byte("files/"))
		if which == "" {
			s := mkSym("path")
			path = SeqV{rawSeq(s, cLin(0), symLen(s))}
			base, prefix = "dir:.", Seq{}
		}
		what := which
		if what == "" {
			what = "a path"
		}
		outs := c.run(ip, "OpenProfile("+what+")", func() []Outcome { return ip.exec(st, fn, []Val{path}, nil, 0) })
		c.noPanics("OpenProfile("+what+")", outs)
		file := func(suffix string) Seq {
			s := fileSym(fsys{base, prefix}, path.S.concat(constSeq([]byte(suffix))))
			return rawSeq(s, cLin(0), symLen(s))
		}
		tq, bq, aq := file(".toml"), file(".block.bin"), file(".accounts.bin")
		toml := func(k string) *Sym { return mkSym("toml", SeqV{tq}, StrLit(k)) }
		hs := toml("genesis_hash")
		hq := rawSeq(hs, cLin(0), symLen(hs))
		hash := mkSym("hex", SeqV{hq})
		where := fnPos(fn)
		good := 0
		for _, o := range outs {
			if o.pan != nil || infeasible(o.st.f) || which == "" && isBuiltin(o.st.f, path.S) {
				continue
			}
			var AT types.Type
			eventsOf(o.st.ev, o.st.f, func(e Event, f *Facts) {
				if e.kind == "decoded" && seqEqual(o.st.f, e.args[0].(SeqV).S, aq) {
					AT = e.args[1].(TypV).typ
				}
			})
			preds := func(f *Facts) (out []*Bool) {
				for _, q := range []Seq{tq, bq, aq} {
					out = append(out, bPred("readable", SymV{q.segs[0].src}))
				}
				return append(out, bPred("tomlok", SeqV{tq}), bPred("hexok", SeqV{hq}), bEq0(symLen(hash).addc(-32)),
					decodes(bq, B), bEq0(decodedLen(bq, B).sub(bq.length())))
			}
			yes, no := split(o.st.clone(), isNilVal(o.ret[1]), 0)
			for _, x := range no {
				if infeasible(x.f) {
					continue
				}
				broken := false
				for _, b := range preds(x.f) {
					broken = broken || x.f.decide(b) == 0
				}
				if AT != nil {
					broken = broken || x.f.decide(bEq0(decodedLen(aq, AT).sub(aq.length()))) == 0
				}
				for _, e := range x.ev {
					broken = broken || e.kind == "decodefailed" || e.kind == "readfailed"
				}
				c.mustSt(broken, x, "justified", where, "%s: a complete, well-formed profile is refused", what)
				p, ok := o.ret[0].(PtrV)
				c.mustSt(ok && x.f.decide(isNilVal(p)) == 1, x, "justified", where, "%s: a profile is returned with an error", what)
			}
			for _, x := range yes {
				if infeasible(x.f) {
					continue
				}
				good++
				for _, b := range preds(x.f) {
					c.mustSt(holds(x.f, b), x, "complete", where, "%s: success without %s", what, clip(b.Key(), 200))
				}
				p, ok := o.ret[0].(PtrV)
				if !c.mustSt(ok && x.f.decide(isNilVal(p)) == 0, x, "complete", where, "%s: success without a profile", what) {
					continue
				}
				prof := x.load(p, 0)
				// block
				n, _, _ := fieldNode(prof, T, "Block")
				c.mustSt(sameNode(x, n, LazyN{B, decodedSym(bq, B)}, B), x, "block", where, "%s: the block is %s", what, clip(n.Key(), 300))
				// accounts
				n, nt, _ := fieldNode(prof, T, "Accounts")
				if c.mustSt(AT != nil, x, "accounts", where, "%s: the accounts file is not decoded", what) {
					c.mustSt(holds(x.f, decodes(aq, AT)) && holds(x.f, bEq0(decodedLen(aq, AT).sub(aq.length()))), x, "complete", where, "%s: the accounts file is not decoded completely", what)
					want := Node(LazyN{AT, decodedSym(aq, AT)})
					wt := AT
					if u, isS := under(AT).(*types.Struct); isS && u.NumFields() == 1 {
						want, wt, _ = fieldNode(want, AT, u.Field(0).Name())
					}
					c.mustSt(types.Identical(under(wt), under(nt)) && sameNode(x, n, want, nt), x, "accounts", where, "%s: the accounts are %s", what, clip(n.Key(), 300))
				}
				// configuration
				n, nt, _ = fieldNode(prof, T, "Config")
				conf := n
				if cp, isP := nodeVal(n, nt).(PtrV); isP {
					if !c.mustSt(x.f.decide(isNilVal(cp)) == 0, x, "configuration", where, "%s: no configuration", what) {
						continue
					}
					conf = x.load(cp, 0)
				}
				for k, f := range configFields {
					fnode, ft, ok := fieldNode(conf, C, f)
					if !c.mustSt(ok, x, "configuration", where, "the configuration has no field %s", f) {
						continue
					}
					if f == "GenesisHash" {
						q, ok := bytesAt(x, fnode, ft)
						c.mustSt(ok && seqEqual(x.f, q, rawSeq(hash, cLin(0), cLin(32))), x, "configuration", where, "%s: %s is %s", what, f, clip(fnode.Key(), 200))
						continue
					}
					w := nodeVal(LazyN{ft, toml(k)}, ft)
					g := nodeVal(fnode, ft)
					same := g.Key() == w.Key()
					if !same {
						same = sameNode(x, fnode, LazyN{ft, toml(k)}, ft)
					}
					c.mustSt(same, x, "configuration", where, "%s: %s is %s, not the entry %s", what, f, clip(g.Key(), 200), k)
				}
			}
		}
		c.must(good > 0, "anchored", where, "OpenProfile(%s) can succeed", what)
	}
}

// shippedFiles checks that the built-in profiles are embedded and all their entries are known.
func (c *Ctx) shippedFiles(C types.Type) {
	have := map[string]string{}
	for _, pk := range P.pkgs {
		if pk.PkgPath == modPath+"/genesis" {
			for _, f := range pk.EmbedFiles {
				i := strings.LastIndex(f, "/files/")
				if i >= 0 {
					have[f[i+1:]] = f
				}
			}
		}
	}
	for _, n := range []string{"main", "test"} {
		for _, x := range []string{".toml", ".block.bin", ".accounts.bin"} {
			c.must(have["files/"+n+x] != "", "embedded", "genesis/files/"+n+x, "the file of the built-in profile is embedded")
		}
		b, err := os.ReadFile(have["files/"+n+".toml"])
		if !c.must(err == nil, "embedded", "genesis/files/"+n+".toml", "the configuration can be read") {
			continue
		}
		es, ok := tomlEntries(string(b))
		c.must(ok, "entries", "genesis/files/"+n+".toml", "the entries can be listed")
		for _, e := range es {
			c.must(configFields[e] != "", "entries", "genesis/files/"+n+".toml", "the entry %s reaches the configuration", e)
		}
	}
}

func isBuiltin(f *Facts, path Seq) bool {
	for _, n := range []string{"main", "test"} {
		if f.decide(seqEqBool(f, path, constSeq([]byte(n)))) == 1 {
			return true
		}
	}
	return false
}
