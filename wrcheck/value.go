package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.

type Val interface{ Key() string }

type IntV struct{ L Lin }

// BoolV is a condition: op "const" (B), "ge" (L >= 0), "eq" (L == 0), "atom" (named predicate); Neg negates.
type BoolV struct {
	op  string
	B   bool
	L   Lin
	At  string
	Neg bool
}

type StrV struct {
	Const bool
	S     string
	Sym   string
	Len   Lin
}

type NilV struct{}

type PathElem struct {
	field int // >= 0: field; -1: index
	idx   Lin
}

// PtrV points at a location inside an object. Obj.nilable pointers may be nil unless the state knows better.
type PtrV struct {
	Obj  *Obj
	Path string // interned path
}

type SliceV struct {
	Obj      *Obj
	Path     string
	Off      Lin
	Len, Cap Lin
	NilAtom  string // "" : certainly not nil
}

type MapV struct{ Obj *Obj }

type IfaceV struct {
	Dyn types.Type
	V   Val
}

type IfaceSym struct {
	Name string
	T    types.Type
	Uniq bool // a freshly allocated, non-nil value, distinct from every other
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}

type FuncSym struct{ Name string }

type StructV struct {
	T types.Type
	F []Val
}

type ArrV struct {
	T types.Type
	E []Val
}

type TupleV []Val

type OpqV struct{ Name string }

// IterV is a range iterator over a map or string.
type IterV struct {
	Obj *Obj // holds the position cell
	X   Val
}

type Obj struct {
	id      int
	name    string
	typ     types.Type // type of the root location (element type for arrays behind slices)
	kind    string     // alloc | sym | global | iter
	zero    bool       // fresh zeroed storage
	nilable bool
	local   bool // allocation made by the analysed code
	site    ssa.Instruction
	content string // base name for unknown contents
	nonce   string
	ctx     string                          // call path of the allocation
	roots   []Lin                           // symbols onLoad depends on
	text    *StrV                           // the string these bytes were converted from
	arr     bool                            // backing array of a slice: root is an unbounded array of typ
	onLoad  func(s *State, p string, v Val) // facts that hold for every element
}

var (
	curNonce string // identifies the loop bodies being executed
	objList  []*Obj
	objTab   = map[string]*Obj{}
	pathTab  = map[string][]PathElem{"": nil}
)

func newObj(kind, name string, t types.Type) *Obj {
	o := &Obj{id: len(objList), name: name, typ: t, kind: kind, nonce: curNonce}
	objList = append(objList, o)
	return o
}

// symObj returns the object with this exact name.
func symObj(name string, t types.Type) *Obj {
	if o := objTab[name]; o != nil {
		return o
	}
	o := newObj("sym", name, t)
	objTab[name] = o
	return o
}

func pathField(p string, i int) string {
	k := p + "." + strconv.Itoa(i)
	if _, ok := pathTab[k]; !ok {
		pathTab[k] = append(append([]PathElem{}, pathTab[p]...), PathElem{field: i})
	}
	return k
}

func pathIdx(p string, l Lin) string {
	k := p + "[" + l.key() + "]"
	if _, ok := pathTab[k]; !ok {
		pathTab[k] = append(append([]PathElem{}, pathTab[p]...), PathElem{field: -1, idx: l})
	}
	return k
}

func pathOf(es []PathElem) string {
	p := ""
	for _, e := range es {
		if e.field >= 0 {
			p = pathField(p, e.field)
		} else {
			p = pathIdx(p, e.idx)
		}
	}
	return p
}

func (v IntV) Key() string { return "i:" + v.L.key() }
func (v BoolV) Key() string {
	n := ""
	if v.Neg {
		n = "!"
	}
	switch v.op {
	case "const":
		return "b:" + strconv.FormatBool(v.B)
	case "atom":
		return "b:" + n + v.At
	}
	return "b:" + n + v.op + v.L.key()
}
func (v StrV) Key() string {
	if v.Const {
		return "s:" + strconv.Quote(v.S)
	}
	return "s$" + v.Sym
}
func (NilV) Key() string     { return "nil" }
func (v PtrV) Key() string   { return fmt.Sprintf("p:%d%s", v.Obj.id, v.Path) }
func (v MapV) Key() string   { return fmt.Sprintf("m:%d", v.Obj.id) }
func (v IfaceV) Key() string { return "I:" + types.TypeString(v.Dyn, nil) + ":" + v.V.Key() }
func (v IfaceSym) Key() string {
	return "I$" + v.Name
}
func (v SliceV) Key() string {
	return fmt.Sprintf("S:%d%s|%s|%s|%s|%s", v.Obj.id, v.Path, v.Off.key(), v.Len.key(), v.Cap.key(), v.NilAtom)
}
func (v FuncV) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "F:%p", v.Fn)
	for _, x := range v.Bind {
		b.WriteString("," + x.Key())
	}
	return b.String()
}
func (v FuncSym) Key() string { return "F$" + v.Name }
func (v StructV) Key() string { return "{" + keys(v.F) + "}" }
func (v ArrV) Key() string    { return "[" + keys(v.E) + "]" }
func (v TupleV) Key() string  { return "(" + keys(v) + ")" }
func (v OpqV) Key() string    { return "O:" + v.Name }
func (v IterV) Key() string   { return fmt.Sprintf("it:%d:%s", v.Obj.id, v.X.Key()) }

func keys(vs []Val) string {
	s := make([]string, len(vs))
	for i, v := range vs {
		if v == nil {
			s[i] = "?"
		} else {
			s[i] = v.Key()
		}
	}
	return strings.Join(s, ",")
}

var (
	trueV  = BoolV{op: "const", B: true}
	falseV = BoolV{op: "const", B: false}
)

func boolV(b bool) BoolV {
	if b {
		return trueV
	}
	return falseV
}

func geV(l Lin) BoolV {
	if l.isConst() {
		return boolV(l.c >= 0)
	}
	return BoolV{op: "ge", L: tighten(l)}
}

func eqV(l Lin) BoolV {
	if l.isConst() {
		return boolV(l.c == 0)
	}
	if l.t[0].k < 0 {
		l = neg(l)
	}
	return BoolV{op: "eq", L: l}
}

func atomV(name string) BoolV { return BoolV{op: "atom", At: name} }

func notV(b BoolV) BoolV {
	switch b.op {
	case "const":
		return boolV(!b.B)
	case "ge":
		if b.Neg {
			return geV(b.L)
		}
		return geV(addc(neg(b.L), -1))
	}
	b.Neg = !b.Neg
	return b
}

const maxLen = int64(1) << 47 // no Go slice or string can be longer (amd64/arm64 address space)

func intRange(t types.Type) (lo, hi *int64, bits int, unsigned bool, isInt bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	isInt = true
	switch b.Kind() {
	case types.Int8:
		return p64(-128), p64(127), 8, false, true
	case types.Int16:
		return p64(-32768), p64(32767), 16, false, true
	case types.Int32, types.UntypedRune:
		return p64(math.MinInt32), p64(math.MaxInt32), 32, false, true
	case types.Uint8:
		return p64(0), p64(255), 8, true, true
	case types.Uint16:
		return p64(0), p64(65535), 16, true, true
	case types.Uint32:
		return p64(0), p64(math.MaxUint32), 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return p64(0), nil, 64, true, true
	}
	return nil, nil, 64, false, true
}

func lenSym(name string) Lin { return atomLin(sym(name, p64(0), p64(maxLen))) }

const maxArr = 24

// symVal makes an unknown value of type t; the same name always denotes the same value.
func symVal(name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi, _, _, _ := intRange(t)
			return IntV{atomLin(sym(name, lo, hi))}
		case u.Info()&types.IsBoolean != 0:
			return atomV(name)
		case u.Info()&types.IsString != 0:
			return StrV{Sym: name, Len: lenSym("len:" + name)}
		case u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return OpqV{name}
	case *types.Pointer:
		o := symObj("*"+name, u.Elem())
		o.nilable = true
		return PtrV{Obj: o}
	case *types.Slice:
		o := symObj("[]"+name, u.Elem())
		o.arr = true
		ln := lenSym("len:" + name)
		cp := sym("cap:"+name, p64(0), p64(maxLen))
		if len(cp.ax) == 0 {
			cp.ax = []Lin{sub(atomLin(cp), ln)}
		}
		return SliceV{Obj: o, Off: K(0), Len: ln, Cap: atomLin(cp), NilAtom: "nil:" + name}
	case *types.Map:
		o := symObj("map:"+name, t)
		o.nilable = true
		return MapV{o}
	case *types.Interface:
		return IfaceSym{Name: name, T: t}
	case *types.Struct:
		s := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, symVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			a := ArrV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
			}
			return a
		}
		return OpqV{name}
	case *types.Signature:
		return FuncSym{name}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symVal(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	return OpqV{name}
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return falseV
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return OpqV{"zero:" + types.TypeString(t, nil)}
	case *types.Struct:
		s := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			a := ArrV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, zeroVal(u.Elem()))
			}
			return a
		}
		return OpqV{"zero:" + types.TypeString(t, nil)}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

func constStr(s string) StrV { return StrV{Const: true, S: s, Len: K(int64(len(s)))} }

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolV(constant.BoolVal(c.Value))
	case constant.String:
		return constStr(constant.StringVal(c.Value))
	case constant.Int:
		if _, _, _, _, isInt := intRange(c.Type()); isInt {
			if i, ok := constant.Int64Val(c.Value); ok {
				return IntV{K(i)}
			}
			return IntV{opaque("const:" + c.Value.ExactString())}
		}
	}
	return OpqV{"const:" + c.Value.ExactString()}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// allocObj returns the object of an allocation. The same instruction in the same activation and loop iteration is executed
// at most once on every path, so that all paths share one object.
func allocObj(fr *Frame, st *State, in ssa.Instruction, sub, name string, t types.Type) *Obj {
	ctx := ""
	if fr != nil {
		ctx = fr.ctx
	}
	k := fmt.Sprintf("%s|%p|%s|%s|%s", ctx, in, curNonce, sub, typeStr(t))
	if o := allocTab[k]; o != nil && in != nil {
		if st.epoch[o.id] == "" && !st.escaped[o.id] && len(st.heapCells(o)) == 0 {
			return o
		}
	}
	o := newObj("alloc", name, t)
	o.local, o.site, o.ctx = true, in, ctx
	allocTab[k] = o
	return o
}

var allocTab = map[string]*Obj{}
