package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cell struct {
	o int
	p string
}

type State struct {
	env      map[ssa.Value]Val
	envSh    bool
	heap     map[cell]Val
	heapSh   bool
	facts    []Lin
	factSet  map[string]bool
	fsSh     bool
	diseq    []Lin
	bools    map[string]bool
	boolsSh  bool
	strc     map[string]string
	strcSh   bool
	dyn      map[string]types.Type
	notdyn   map[string][]types.Type
	dynSh    bool
	epoch    map[int]string
	tepoch   map[string]string
	epSh     bool
	escaped  map[int]bool
	escSh    bool
	defers   []deferred
	dead     bool
	proveMem map[string]bool
}

type deferred struct {
	call *ssa.CallCommon
	in   ssa.Instruction
	args []Val
	fn   Val
	fr   *Frame
}

func newState() *State {
	return &State{env: map[ssa.Value]Val{}, heap: map[cell]Val{}, factSet: map[string]bool{}, bools: map[string]bool{}, strc: map[string]string{}, dyn: map[string]types.Type{}, notdyn: map[string][]types.Type{}, epoch: map[int]string{}, tepoch: map[string]string{}, escaped: map[int]bool{}}
}

func (s *State) clone() *State {
	n := *s
	s.envSh, s.heapSh, s.fsSh, s.boolsSh, s.strcSh, s.dynSh, s.epSh, s.escSh = true, true, true, true, true, true, true, true
	n.envSh, n.heapSh, n.fsSh, n.boolsSh, n.strcSh, n.dynSh, n.epSh, n.escSh = true, true, true, true, true, true, true, true
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.diseq = s.diseq[:len(s.diseq):len(s.diseq)]
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return &n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) setEnv(k ssa.Value, v Val) {
	if s.envSh {
		s.env, s.envSh = cp(s.env), false
	}
	s.env[k] = v
}
func (s *State) setCell(c cell, v Val) {
	if s.heapSh {
		s.heap, s.heapSh = cp(s.heap), false
	}
	s.heap[c] = v
}
func (s *State) delCell(c cell) {
	if s.heapSh {
		s.heap, s.heapSh = cp(s.heap), false
	}
	delete(s.heap, c)
}
func (s *State) setBool(k string, v bool) {
	if s.boolsSh {
		s.bools, s.boolsSh = cp(s.bools), false
	}
	s.bools[k] = v
}
func (s *State) setStrc(k, v string) {
	if s.strcSh {
		s.strc, s.strcSh = cp(s.strc), false
	}
	s.strc[k] = v
}
func (s *State) dynOwn() {
	if s.dynSh {
		s.dyn, s.notdyn, s.dynSh = cp(s.dyn), cp(s.notdyn), false
	}
}
func (s *State) epOwn() {
	if s.epSh {
		s.epoch, s.tepoch, s.epSh = cp(s.epoch), cp(s.tepoch), false
	}
}
func (s *State) escape(o int) {
	if s.escaped[o] {
		return
	}
	if s.escSh {
		s.escaped, s.escSh = cp(s.escaped), false
	}
	s.escaped[o] = true
}

// ---- facts ----

func (s *State) addFact(l Lin) {
	l = tighten(l)
	if l.isConst() {
		if l.c < 0 {
			s.dead = true
		}
		return
	}
	if lo, hi, ok1, ok2 := rng(l); ok1 && lo >= 0 {
		return
	} else if ok2 && hi < 0 {
		s.dead = true
		return
	}
	k := l.key()
	if s.factSet[k] {
		return
	}
	if s.fsSh {
		s.factSet, s.fsSh = cp(s.factSet), false
	}
	s.factSet[k] = true
	s.facts = append(s.facts[:len(s.facts):len(s.facts)], l)
	s.proveMem = nil
	// with an exact quotient in place of a rounded one it holds as well
	for _, t := range l.t {
		if t.a.op == "div" && t.k == 1 && len(t.a.args) == 1 && t.a.c > 0 {
			if f, ok := addScaled(t.a.args[0], t.a.c, sub(l, atomLin(t.a))); ok {
				s.addFact(f)
			}
		}
	}
	// a remainder that is not among the lowest values, of something that exceeds the modulus by less than that, did not wrap
	if len(l.t) == 1 && l.t[0].k == 1 && l.t[0].a.op == "mod" && l.c < 0 {
		m := l.t[0].a
		if lo, hi, ok1, ok2 := rng(m.args[0]); ok1 && ok2 && lo >= 0 && hi < m.c-l.c {
			s.addFact(sub(m.args[0], atomLin(m)))
			s.addFact(sub(atomLin(m), m.args[0]))
		}
	}
	// revisit disequalities that this fact may sharpen
	if len(s.diseq) > 0 {
		ds := s.diseq
		s.diseq = nil
		for _, d := range ds {
			share := false
			for _, t := range d.t {
				if coef(l, t.a) != 0 {
					share = true
				}
			}
			if share {
				s.assumeNe(d)
			} else {
				s.diseq = append(s.diseq[:len(s.diseq):len(s.diseq)], d)
			}
		}
	}
}

func (s *State) assumeNe(l Lin) {
	if l.isConst() {
		if l.c == 0 {
			s.dead = true
		}
		return
	}
	if s.prove(l) {
		s.addFact(addc(l, -1))
		return
	}
	if s.prove(neg(l)) {
		s.addFact(addc(neg(l), -1))
		return
	}
	for _, d := range s.diseq {
		if eqLin(d, l) {
			return
		}
	}
	s.diseq = append(s.diseq[:len(s.diseq):len(s.diseq)], l)
}

var statProve int

// prove reports whether the facts entail l >= 0.
func (s *State) prove(l Lin) bool {
	if l.isConst() {
		return l.c >= 0
	}
	lo, hi, ok1, ok2 := rng(l)
	if ok1 && lo >= 0 {
		return true
	}
	_ = hi
	_ = ok2
	k := l.key()
	if s.factSet[k] {
		return true
	}
	if r, ok := s.proveMem[k]; ok {
		return r
	}
	statProve++
	g := addc(neg(l), -1)
	cs := collect(s.facts, g)
	r := unsat(append(cs, g))
	if !r && len(minMaxArgs) > 0 {
		r = s.proveMinMax(l)
	}
	if s.proveMem == nil {
		s.proveMem = map[string]bool{}
	}
	s.proveMem[k] = r
	return r
}

// proveMinMax: a minimum or maximum is one of its two arguments, and which one if that is known.
func (s *State) proveMinMax(l Lin) bool {
	for _, t := range l.t {
		m, ok := minMaxArgs[t.a]
		if !ok {
			continue
		}
		r := sub(l, scale(atomLin(t.a), t.k))
		x, y := add(r, scale(m[0], t.k)), add(r, scale(m[1], t.k))
		px, py := s.prove(x), s.prove(y)
		return px && py || px && s.prove(m[2]) || py && s.prove(neg(m[2]))
	}
	return false
}

func (s *State) proveEq(l Lin) bool {
	return s.prove(l) && s.prove(neg(l))
}

func (s *State) proveNe(l Lin) bool {
	if l.isConst() {
		return l.c != 0
	}
	for _, d := range s.diseq {
		if eqLin(d, l) || eqLin(neg(d), l) {
			return true
		}
	}
	return s.prove(addc(l, -1)) || s.prove(addc(neg(l), -1))
}

// truth evaluates a condition: 1 true, 0 false, -1 unknown.
func (s *State) truth(b BoolV) int {
	r := -1
	switch b.op {
	case "const":
		if b.B {
			return 1
		}
		return 0
	case "ge":
		if s.prove(b.L) {
			r = 1
		} else if s.prove(addc(neg(b.L), -1)) {
			r = 0
		}
	case "eq":
		if s.proveEq(b.L) {
			r = 1
		} else if s.proveNe(b.L) {
			r = 0
		}
	case "atom":
		if v, ok := s.bools[b.At]; ok {
			r = 0
			if v {
				r = 1
			}
		} else if l, ok := nilLen[b.At]; ok && s.prove(addc(l, -1)) {
			r = 0
		} else if q, ok := streqTab[b.At]; ok {
			if s.proveNe(sub(q.a.Len, q.b.Len)) {
				r = 0
			} else {
				a, c := s.normStr(q.a), s.normStr(q.b)
				if a.Key() == c.Key() {
					r = 1
				} else if a.Const && c.Const {
					r = 0
				}
			}
		}
	}
	if r >= 0 && b.Neg {
		r = 1 - r
	}
	return r
}

type streq struct{ a, b StrV }

var (
	nilLen   = map[string]Lin{}
	streqTab = map[string]streq{}
	condDefs = map[string]func(s *State, val bool){} // extra consequences of a predicate atom
)

// assume adds a condition; s.dead is set when it is certainly impossible.
func (s *State) assume(b BoolV) {
	switch s.truth(b) {
	case 1:
		return
	case 0:
		s.dead = true
		return
	}
	switch b.op {
	case "ge":
		s.addFact(b.L)
	case "eq":
		if !b.Neg {
			s.addFact(b.L)
			s.addFact(neg(b.L))
		} else {
			s.assumeNe(b.L)
		}
	case "atom":
		v := !b.Neg
		s.setBool(b.At, v)
		if l, ok := nilLen[b.At]; ok && v {
			s.addFact(neg(l))
		}
		if q, ok := streqTab[b.At]; ok {
			a, c := s.normStr(q.a), s.normStr(q.b)
			if v {
				d := sub(a.Len, c.Len)
				s.addFact(d)
				s.addFact(neg(d))
				if c.Const && !a.Const {
					s.setStrc(a.Sym, c.S)
				} else if a.Const && !c.Const {
					s.setStrc(c.Sym, a.S)
				}
			} else {
				if c.Const && c.S == "" {
					s.addFact(addc(a.Len, -1))
				}
				if a.Const && a.S == "" {
					s.addFact(addc(c.Len, -1))
				}
			}
		}
		if f := condDefs[b.At]; f != nil {
			f(s, v)
		}
	}
	if s.dead {
		return
	}
}

func (s *State) normStr(v StrV) StrV {
	if !v.Const {
		if c, ok := s.strc[v.Sym]; ok {
			return constStr(c)
		}
	}
	return v
}

func (s *State) strEq(a, b StrV) BoolV {
	a, b = s.normStr(a), s.normStr(b)
	if a.Const && b.Const {
		return boolV(a.S == b.S)
	}
	if a.Key() == b.Key() {
		return trueV
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	name := "streq:" + a.Key() + "=" + b.Key()
	streqTab[name] = streq{a, b}
	return atomV(name)
}

// ---- memory ----

func ctName(s *State, o *Obj, p string) string {
	n := o.content
	if n == "" {
		n = o.name
		if o.kind == "alloc" {
			n = fmt.Sprintf("%s~%d", o.name, o.id)
		}
	}
	n += p
	if e := s.epoch[o.id]; e != "" {
		n += "@" + e
	}
	if o.kind != "alloc" || s.escaped[o.id] {
		if e := s.tepoch[tkey(o, p)]; e != "" {
			n += "@" + e
		}
	}
	return n
}

func fieldPath(p string) string {
	es := pathTab[p]
	var b strings.Builder
	for _, e := range es {
		if e.field >= 0 {
			fmt.Fprintf(&b, ".%d", e.field)
		} else {
			b.WriteString("[]")
		}
	}
	return b.String()
}

func tkey(o *Obj, p string) string {
	t := ""
	if o.typ != nil {
		t = types.TypeString(o.typ, nil)
	}
	if o.arr {
		t = "[]" + t
	}
	return t + fieldPath(p)
}

// may two paths of one object denote the same location?
func (s *State) pathRel(p, q string) int { // 1 same, 0 distinct, -1 may be
	if p == q {
		return 1
	}
	a, b := pathTab[p], pathTab[q]
	if len(a) != len(b) {
		return 0
	}
	r := 1
	for i := range a {
		if a[i].field >= 0 || b[i].field >= 0 {
			if a[i].field != b[i].field {
				return 0
			}
			continue
		}
		d := sub(a[i].idx, b[i].idx)
		if d.isConst() {
			if d.c != 0 {
				return 0
			}
			continue
		}
		if s.proveNe(d) {
			return 0
		}
		if s.proveEq(d) {
			continue
		}
		r = -1
	}
	return r
}

func hasIdx(p string) bool { return strings.IndexByte(p, '[') >= 0 }

// cacheLoads: an element read at an unknown index is remembered until something may overwrite it.
var cacheLoads bool

func (s *State) load(o *Obj, p string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, s.load(o, pathField(p, i), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= maxArr {
			v := ArrV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				v.E = append(v.E, s.load(o, pathIdx(p, K(i)), u.Elem()))
			}
			return v
		}
		return OpqV{freshName("arr")}
	}
	if v, ok := s.heap[cell{o.id, p}]; ok {
		return v
	}
	if hasIdx(p) {
		if cacheLoads {
			for c, v := range s.heap {
				if c.o == o.id && hasIdx(c.p) && s.pathRel(p, c.p) == 1 {
					return v
				}
			}
		}
		for c, v := range s.heap {
			if c.o != o.id || !hasIdx(c.p) {
				continue
			}
			switch s.pathRel(p, c.p) {
			case 1:
				return v
			case -1:
				v := symVal(freshName("ld:"+o.name), t)
				if o.onLoad != nil {
					o.onLoad(s, p, v)
				}
				if cacheLoads {
					s.setCell(cell{o.id, p}, v)
				}
				return v
			}
		}
	}
	return s.base(o, p, t)
}

// base is the value of a location never written by the analysed code since its object's last havoc.
func (s *State) base(o *Obj, p string, t types.Type) Val {
	if o.zero && s.epoch[o.id] == "" {
		return zeroVal(t)
	}
	v := symVal(ctName(s, o, p), t)
	s.applyFill(o, p, v)
	if o.onLoad != nil {
		o.onLoad(s, p, v)
	}
	return v
}

func (s *State) store(o *Obj, p string, v Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			if sv, ok := v.(StructV); ok {
				f = sv.F[i]
			} else {
				f = symVal(freshName("st"), u.Field(i).Type())
			}
			s.store(o, pathField(p, i), f, u.Field(i).Type())
		}
		return
	case *types.Array:
		if u.Len() <= maxArr {
			for i := int64(0); i < u.Len(); i++ {
				var f Val
				if sv, ok := v.(ArrV); ok {
					f = sv.E[i]
				} else {
					f = symVal(freshName("st"), u.Elem())
				}
				s.store(o, pathIdx(p, K(i)), f, u.Elem())
			}
			return
		}
		if op, ok := v.(OpqV); ok && strings.HasPrefix(op.Name, "zero:") && o.zero && s.epoch[o.id] == "" {
			return // storing zero to fresh zero storage
		}
		s.havocObj(o)
		return
	}
	if hasIdx(p) {
		var kill []cell
		for c := range s.heap {
			if c.o == o.id && c.p != p && hasIdx(c.p) && s.pathRel(p, c.p) != 0 {
				kill = append(kill, c)
			}
		}
		for _, c := range kill {
			if s.pathRel(p, c.p) == 1 {
				s.delCell(c)
				continue
			}
			s.setCell(c, freshAt(c))
		}
	}
	if o.kind != "alloc" || s.escaped[o.id] {
		// the same memory may be known under another symbolic name
		k := tkey(o, p)
		var kill []cell
		for c := range s.heap {
			o2 := objList[c.o]
			if c.o != o.id && (o2.kind != "alloc" || s.escaped[o2.id]) && tkey(o2, c.p) == k {
				kill = append(kill, c)
			}
		}
		for _, c := range kill {
			s.setCell(c, freshAt(c))
		}
		s.epOwn()
		s.tepoch[k] = freshName("t")
		s.escapeVal(v)
	}
	s.setCell(cell{o.id, p}, v)
}

// escapeVal marks the local objects a value refers to as reachable through unknown references.
func (s *State) escapeVal(v Val) {
	switch x := v.(type) {
	case PtrV:
		s.escapeObj(x.Obj)
	case SliceV:
		s.escapeObj(x.Obj)
	case IfaceV:
		s.escapeVal(x.V)
	case StructV:
		for _, f := range x.F {
			s.escapeVal(f)
		}
	case FuncV:
		for _, f := range x.Bind {
			s.escapeVal(f)
		}
	case MapV:
		s.escapeObj(x.Obj)
	}
}

func (s *State) escapeObj(o *Obj) {
	if o.kind != "alloc" || s.escaped[o.id] {
		return
	}
	s.escape(o.id)
	for c, v := range s.heap {
		if c.o == o.id {
			s.escapeVal(v)
		}
	}
}

// freshAt is an unknown value of the type stored in a cell.
func freshAt(c cell) Val {
	o := objList[c.o]
	return symVal(freshName("h:"+o.name), typeAt(o, c.p))
}

func (v PtrV) typ() types.Type {
	return typeAt(v.Obj, v.Path)
}

func (v SliceV) elem() types.Type {
	if v.Obj == nil {
		return types.Typ[types.Byte]
	}
	t := typeAt(v.Obj, v.Path)
	if v.Obj.arr && v.Path == "" {
		return v.Obj.typ
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return t
}

func typeAt(o *Obj, p string) types.Type {
	t := o.typ
	for i, e := range pathTab[p] {
		if e.field >= mapKeyBase {
			if m, ok := t.Underlying().(*types.Map); ok {
				t = m.Elem()
			}
		} else if e.field >= 0 {
			if st, ok := t.Underlying().(*types.Struct); ok && e.field < st.NumFields() {
				t = st.Field(e.field).Type()
			} else {
				return types.Typ[types.Invalid]
			}
		} else if i == 0 && o.arr {
			continue
		} else if a, ok := t.Underlying().(*types.Array); ok {
			t = a.Elem()
		}
	}
	return t
}

// havocObj forgets everything about an object's content.
func (s *State) havocObj(o *Obj) {
	for c := range s.heap {
		if c.o == o.id {
			s.delCell(c)
		}
	}
	s.epOwn()
	s.epoch[o.id] = freshName("e")
	if o.kind != "alloc" || s.escaped[o.id] {
		keys := map[string]bool{}
		if o.arr && leafKeys(o, pathIdx("", K(0)), o.typ, keys) {
			// only storage of the same element type can overlap
			var kill []cell
			for c := range s.heap {
				o2 := objList[c.o]
				if (o2.kind != "alloc" || s.escaped[o2.id]) && keys[tkey(o2, c.p)] {
					kill = append(kill, c)
				}
			}
			for _, c := range kill {
				s.setCell(c, freshAt(c))
			}
			for k := range keys {
				s.tepoch[k] = freshName("t")
			}
			return
		}
		for c := range s.heap {
			o2 := objList[c.o]
			if o2.kind != "alloc" || s.escaped[o2.id] {
				s.setCell(c, freshAt(c))
			}
		}
	}
}

// leafKeys collects the aliasing classes of the leaves of a value of type t at path p; false when they are not known.
func leafKeys(o *Obj, p string, t types.Type, out map[string]bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !leafKeys(o, pathField(p, i), u.Field(i).Type(), out) {
				return false
			}
		}
		return true
	case *types.Array:
		return leafKeys(o, pathIdx(p, K(0)), u.Elem(), out)
	}
	out[tkey(o, p)] = true
	return true
}

func (s *State) heapCells(o *Obj) []cell {
	var cs []cell
	for c := range s.heap {
		if c.o == o.id {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].p < cs[j].p })
	return cs
}

// ---- nil-ness ----

func nilAtom(v Val) string {
	switch x := v.(type) {
	case PtrV:
		if x.Path == "" && x.Obj.nilable {
			return "nil:" + x.Obj.name
		}
	case MapV:
		if x.Obj.nilable {
			return "nil:" + x.Obj.name
		}
	case SliceV:
		return x.NilAtom
	case IfaceSym:
		if !x.Uniq {
			return "nil:" + x.Name
		}
	case FuncSym:
		return "nil:" + x.Name
	}
	return ""
}

// nilCond is the condition "v is nil".
func nilCond(v Val) BoolV {
	if _, ok := v.(NilV); ok {
		return trueV
	}
	a := nilAtom(v)
	if a == "" {
		switch v.(type) {
		case PtrV, MapV, SliceV, IfaceSym, IfaceV, FuncV:
			return falseV
		}
		return atomV("nil?" + v.Key())
	}
	if sl, ok := v.(SliceV); ok {
		nilLen[a] = sl.Len
	}
	return atomV(a)
}
