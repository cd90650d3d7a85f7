package main

// C11: the generic codec on types the wire format does not use. The witness types below are
// analysed in place of the wire types; their layout follows from the type and its tags.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
}

const witnessPath = modPath + "/witness"

const witnessSrc = `package witness

import (
	"encoding/binary"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
)

type WUnsigned struct {
	A uint8
	B uint16
	C uint32
	D uint64
	E bool
}
type WSigned struct {
	A int8
	B int16
	C int32
	D int64
}
type Small uint8
type Medium int16
type Large uint64
type Yes bool
type Text string
type Raw []byte
type WNamed struct {
	A Small
	B Medium
	C Large
	D Yes
	E Text ` + "`beserial:\"len_tag=uint8\"`" + `
	F Raw ` + "`beserial:\"len_tag=uint16\"`" + `
}
type WString8 struct { A string ` + "`beserial:\"len_tag=uint8\"`" + `; B uint16 }
type WString16 struct { A string ` + "`beserial:\"len_tag=uint16\"`" + `; B uint16 }
type WString32 struct { A string ` + "`beserial:\"len_tag=uint32\"`" + `; B uint16 }
type WString64 struct { A string ` + "`beserial:\"len_tag=uint64\"`" + `; B uint16 }
type WBytes8 struct { A []byte ` + "`beserial:\"len_tag=uint8\"`" + `; B uint16 }
type WBytes16 struct { A []byte ` + "`beserial:\"len_tag=uint16\"`" + `; B uint16 }
type WBytes32 struct { A []byte ` + "`beserial:\"len_tag=uint32\"`" + `; B uint16 }
type WBytes64 struct { A []byte ` + "`beserial:\"len_tag=uint64\"`" + `; B uint16 }
type WSlice8 struct { A []uint16 ` + "`beserial:\"len_tag=uint8\"`" + `; B uint16 }
type WSlice16 struct { A []uint32 ` + "`beserial:\"len_tag=uint16\"`" + `; B uint16 }
type WSlice32 struct { A []uint64 ` + "`beserial:\"len_tag=uint32\"`" + `; B uint16 }
type WSlice64 struct { A []uint16 ` + "`beserial:\"len_tag=uint64\"`" + `; B uint16 }
type WSigned8 struct { A []int8 ` + "`beserial:\"len_tag=uint8\"`" + `; B []int16 ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WSigned64 struct { A []int32 ` + "`beserial:\"len_tag=uint8\"`" + `; B []int64 ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WArrays struct {
	A [3]uint8
	B [3]int8
	C [2]uint16
	D [2]int32
	E [2]uint64
	F [0]uint16
}
type WArrays2 struct {
	A [2][2]uint16
	B [2][3]byte
	C [2]bool
	D [2]WPair
	E [2]*uint16
}
type WNamedBytes struct { A [4]Small; B [2]Medium }
type WNamedSlice struct { A []Small ` + "`beserial:\"len_tag=uint8\"`" + `; B []Medium ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WPair struct { X uint8; Y uint32 }
type WNested struct { A WPair; B struct { P WPair; Q uint8 }; WPair }
type WSliceOfPairs struct { A []WPair ` + "`beserial:\"len_tag=uint16\"`" + ` }
type WSliceOfArrays struct { B [][4]byte ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WName struct { S string ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WSliceOfNames struct { A []WName ` + "`beserial:\"len_tag=uint8\"`" + `; B uint8 }
type WOptNumber struct { A *uint16 ` + "`beserial:\"optional\"`" + `; B uint8 }
type WOptPair struct { A *WPair ` + "`beserial:\"optional\"`" + `; B *bool ` + "`beserial:\"optional\"`" + ` }
type WOptArrays struct {
	A *[3]byte ` + "`beserial:\"optional\"`" + `
	B *[2]uint16 ` + "`beserial:\"optional\"`" + `
	D uint8
}
type WOptBytes struct { A *[]byte ` + "`beserial:\"optional,len_tag=uint16\"`" + `; B uint8 }
type WOptString struct { A *string ` + "`beserial:\"len_tag=uint8,optional\"`" + `; B uint8 }
type WOptSlice struct { A *[]uint16 ` + "`beserial:\"optional,len_tag=uint8\"`" + `; B uint8 }
type WHolder struct { P *uint16 }
type WOptHolder struct { A *WHolder ` + "`beserial:\"optional\"`" + `; B uint8 }
type WPtrs struct { A *uint16; B *WPair; C *[2]byte; D *string ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WOptArray struct { A [2]*uint16 ` + "`beserial:\"optional\"`" + `; B uint8 }
type WNotOpt struct { A uint16 ` + "`beserial:\"optional\"`" + `; B bool ` + "`json:\"x\"`" + ` }
type WWire struct {
	A [2]wire.Hash
	B *wire.Hash ` + "`beserial:\"optional\"`" + `
	C *wire.BitSet
}
type WWireSlice struct { B []wire.InvVector ` + "`beserial:\"len_tag=uint16\"`" + ` }
type WEmpty struct {}

// Odd has a codec of its own: the marker 7, and the number.
type Odd uint16

func (o *Odd) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 3 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[0] != 7 {
		return 0, beserial.ErrNoLenTag
	}
	*o = Odd(binary.BigEndian.Uint16(b[1:]))
	return 3, nil
}
func (o *Odd) MarshalBESerial(b []byte) ([]byte, error) {
	var x [3]byte
	x[0] = 7
	binary.BigEndian.PutUint16(x[1:], uint16(*o))
	return append(b, x[:]...), nil
}
func (o *Odd) SizeBESerial() (int, error) { return 3, nil }

// OddByte has a codec of its own, too.
type OddByte byte

func (o *OddByte) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 2 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[0] != 7 {
		return 0, beserial.ErrNoLenTag
	}
	*o = OddByte(b[1])
	return 2, nil
}
func (o *OddByte) MarshalBESerial(b []byte) ([]byte, error) { return append(b, 7, byte(*o)), nil }
func (o *OddByte) SizeBESerial() (int, error)               { return 2, nil }

type WOdd struct { A Odd; B *Odd; C *Odd ` + "`beserial:\"optional\"`" + `; D OddByte }
type WOddArray struct { A [2]Odd; B uint8 }
type WOddSlice struct { A []Odd ` + "`beserial:\"len_tag=uint8\"`" + ` }
type WOddByteArray struct { A [2]OddByte; B uint8 }
type WOddByteSlice struct { A []OddByte ` + "`beserial:\"len_tag=uint8\"`" + ` }

// not supported: an error, not a panic
type XInt struct { A int }
type XUint struct { A uint }
type XFloat struct { A float64 }
type XMap struct { A map[uint8]uint8 }
type XIface struct { A interface{} }
type XChan struct { A chan uint8 }
type XFunc struct { A func() }
type XSlice struct { A []byte }
type XString struct { A string }
type XStrings struct { A []string ` + "`beserial:\"len_tag=uint8\"`" + ` }
type XTagArray struct { A [2]string ` + "`beserial:\"len_tag=uint8\"`" + ` }
type XArray struct { A [2]string }
`

// codecTypes lists the types the codec checks analyse.
var codecTypes = wireTypes

var witnessPkg *types.Package

// codecTyp finds a type of the list.
func codecTyp(name string) types.Type {
	if witnessPkg != nil {
		if tn, ok := witnessPkg.Scope().Lookup(name).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return P.typ("wire", name)
}

type pkgImporter struct{}

func (pkgImporter) Import(path string) (*types.Package, error) {
	if sp := P.spkgs[path]; sp != nil {
		return sp.Pkg, nil
	}
	return nil, fmt.Errorf("package %s is not loaded", path)
}

func loadWitness() error {
	f, err := parser.ParseFile(P.fset, "witness.go", witnessSrc, 0)
	if err != nil {
		return err
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	pkg, err := (&types.Config{Importer: pkgImporter{}}).Check(witnessPath, P.fset, []*ast.File{f}, info)
	if err != nil {
		return err
	}
	sp := P.prog.CreatePackage(pkg, []*ast.File{f}, info, true)
	sp.Build()
	P.built[sp] = true
	P.isRep[pkg] = true
	P.spkgs[witnessPath] = sp
	witnessPkg = pkg
	return nil
}

// specOf is the layout of a type according to the package's documentation.
func specOf(t types.Type, tag string) *Spec {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		switch {
		case wireName(t) != "":
			return ref(wireName(t))
		case n.Obj().Name() == "Odd":
			return &Spec{k: "mark", w: 7, el: u(2)}
		case n.Obj().Name() == "OddByte":
			return &Spec{k: "mark", w: 7, el: u(1)}
		}
	}
	var lw int64
	optional := false
	for _, x := range strings.Split(tag, ",") {
		switch x {
		case "optional":
			optional = true
		case "len_tag=uint8":
			lw = 1
		case "len_tag=uint16":
			lw = 2
		case "len_tag=uint32":
			lw = 4
		case "len_tag=uint64":
			lw = 8
		}
	}
	isByte := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8 && specOf(t, "").k == "u"
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Bool:
			return specBool
		case types.String:
			return str(lw)
		}
		bits, signed, _ := intInfo(x)
		return &Spec{k: "u", w: int64(bits / 8), sg: signed}
	case *types.Array:
		if isByte(x.Elem()) {
			return arr(x.Len())
		}
		return fix(x.Len(), specOf(x.Elem(), ""))
	case *types.Slice:
		if isByte(x.Elem()) {
			return bvec(lw)
		}
		return vec(lw, specOf(x.Elem(), ""))
	case *types.Pointer:
		el := specOf(x.Elem(), strings.TrimPrefix(strings.TrimSuffix(tag, ",optional"), "optional"))
		if optional {
			return opt(el)
		}
		return ptrTo(el)
	case *types.Struct:
		sp := st()
		for i := 0; i < x.NumFields(); i++ {
			sp.fs = append(sp.fs, FSpec{x.Field(i).Name(), specOf(x.Field(i).Type(), reflect.StructTag(x.Tag(i)).Get("beserial"))})
		}
		return sp
	}
	unsupported(0, "layout of %s", t)
	return nil
}

// witnesses loads the witness types and gives them a layout.
func (c *Ctx) witnesses() (good, bad []string) {
	if err := loadWitness(); err != nil {
		c.oblig++
		c.fail("analysable", "beserial", nil, "undecided: %v", err)
		return nil, nil
	}
	for _, n := range witnessPkg.Scope().Names() {
		switch n[0] {
		case 'W':
			good = append(good, n)
			grammar[n] = specOf(codecTyp(n), "")
		case 'X':
			bad = append(bad, n)
		}
	}
	return
}

// checkC12: decoding does not depend on the target.
func checkC12(c *Ctx) {
	good, _ := c.witnesses()
	for _, name := range append(append([]string(nil), wireTypes...), good...) {
		T := codecTyp(name)
		if T == nil {
			c.must(false, "anchored", "wire", "wire type %s is missing", name)
			continue
		}
		var pre *State
		d := &decRun{name: name, T: T, ip: newInterp()}
		d.ip.preHook = codecContracts(name)
		d.outs = c.run(d.ip, "beserial.Unmarshal(used *"+name+")", func() []Outcome {
			st := newState()
			d.obj = lazyObj(mkSym("Old"+name), T)
			pre = st.clone()
			return d.ip.exec(st, repoFn("beserial", "Unmarshal"), []Val{symSlice("In"), ifacePtr(PtrV{obj: d.obj}, T)}, nil, 0)
		})
		where := typePos(T)
		in := symSlice("In").obj
		for _, o := range d.outs {
			c.mustSt(o.pan == nil, o.st, "no panic", where, "decoding into a used %s panics: %s", name, o.pan)
			if o.pan != nil {
				continue
			}
			for _, ob := range sortedObjs(o.st.h) {
				if ob.fresh || ob == d.obj || ob == in || ob.init == nil && ob.sym == nil && ob.glob == nil {
					continue
				}
				before := pre.content(ob)
				if before == nil {
					continue
				}
				c.mustSt(nodeKeyDeep(o.st.h[ob]) == nodeKeyDeep(before), o.st, "leaves the rest", where, "decoding into a used %s modifies what it referred to: %s", name, ob.Key())
			}
			yes, _ := split(o.st, decErr(o, 1), 0)
			for _, st := range yes {
				w := c.walker(d)
				w.values, w.used = true, true
				n := d.ip.intv(o.ret[0], 0)
				w.item(st, st.content(d.obj), T, ref(name), cLin(0), "", func(st *State, end *Lin) {
					if !infeasible(st.f) {
						c.mustSt(st.f.entailsEq(n, end), st, "n=item", where, "a decoded %s ends at %s, reported are %s bytes", name, end.Key(), n.Key())
					}
				})
			}
		}
	}
	c.explained = "Every decoder, and the codec on the witness types of C11, is analysed on a target of symbolic content: fields, pointers, slices and interfaces from earlier use. On success each field must equal the bytes of the input, as in C05, so nothing of the earlier content may be left, and no memory the earlier content referred to may be written."
}

// checkC11: the codec on all supported kinds of types.
func checkC11(c *Ctx) {
	good, bad := c.witnesses()
	codecTypes = good
	checkC01(c)
	checkC02(c)
	checkC03(c)
	checkC04(c)
	checkC05(c)
	checkC07(c)
	checkC08(c)
	checkC09(c)
	for _, n := range bad {
		T := codecTyp(n)
		c.refuses(n, false, "of an unsupported type", func() Val { return ifacePtr(PtrV{obj: lazyObj(mkSym(n), T)}, T) })
	}
	T := codecTyp("WPair")
	c.refuses("nil interface", true, "nil", func() Val { return IfaceV{ityp: types.NewInterfaceType(nil, nil)} })
	c.refuses("nil pointer", true, "nil", func() Val { return ifacePtr(PtrV{}, T) })
	c.refuses("struct", true, "not a pointer", func() Val {
		return mkIface(symVal(T, mkSym("V")), T, types.NewInterfaceType(nil, nil))
	})
	c.explained = "A set of witness types, which together use every kind, prefix width, tag and nesting the package documents, is type-checked against the current source. The codec is analysed on each of them like on a wire type: every path of decoding, encoding and sizing on symbolic input, against the layout that follows from the type and its tags. Types outside of the documented ones, nil and non-pointers must be refused without a panic."
}

// refuses: encoding, sizing and decoding give an error.
func (c *Ctx) refuses(what string, arg bool, why string, v func() Val) {
	for _, entry := range []string{"Marshal", "Size", "Unmarshal", "UnmarshalFull"} {
		ip := newInterp()
		ip.preHook = codecContracts("")
		var fn *ssa.Function
		root := "beserial." + entry + "(" + what + ")"
		outs := c.run(ip, root, func() []Outcome {
			fn = repoFn("beserial", entry)
			args := []Val{v()}
			switch entry {
			case "Marshal":
				args = []Val{symSlice("P"), args[0]}
			case "Unmarshal", "UnmarshalFull":
				args = []Val{symSlice("In"), args[0]}
			}
			return ip.exec(newState(), fn, args, nil, 0)
		})
		c.noPanics(root, outs)
		for _, o := range outs {
			if o.pan != nil {
				continue
			}
			e := o.ret[len(o.ret)-1]
			yes, no := split(o.st, isNilVal(e), 0)
			for _, s := range yes {
				if what == "XStrings" {
					// nothing to refuse without an element
					s.f.addGE(symLen(mkSym("XStrings.A")).addc(-1))
					s.f.addGE(mkBE(SymV{mkSym("In")}, cLin(0), 1).addc(-1))
				}
				c.mustSt(infeasible(s.f), s, "refuses", fnPos(fn), "%s accepts a value that is %s", root, why)
			}
			for _, s := range no {
				iv, ok := e.(IfaceV)
				pt, isP := iv.typ.(*types.Pointer)
				ok = ok && (!arg || isP && types.TypeString(pt.Elem(), nil) == modPath+"/beserial.InvalidUnmarshalError")
				c.mustSt(ok || infeasible(s.f), s, "refuses", fnPos(fn), "%s does not give an InvalidUnmarshalError for a value that is %s", root, why)
			}
		}
	}
}
