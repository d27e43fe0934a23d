package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic evaluation of the functions that traverse the resource tree.
//
// The tree is made of structures that hold maps of structures. One symbolic element stands for all the elements of a map: node paths are
// "rs", "rs.types[]", "rs.types[].resources[]", ... A loop over all the keys of a map is evaluated once, for that element; what it adds to
// a counter becomes a sum over the map. Sizes and offsets are kept as linear combinations of such sums, lengths and constants, in a
// normal form in which equal expressions are identical.

// SX is a linear combination of named terms.
type SX struct {
	c int64
	t map[string]int64
}

func sK(c int64) SX { return SX{c: c} }
func sAtom(k string) SX {
	return SX{t: map[string]int64{k: 1}}
}

func (a SX) add(b SX, k int64) SX {
	r := SX{c: a.c + k*b.c, t: map[string]int64{}}
	for x, n := range a.t {
		r.t[x] = n
	}
	for x, n := range b.t {
		if r.t[x] += k * n; r.t[x] == 0 {
			delete(r.t, x)
		}
	}
	return r
}
func (a SX) mul(k int64) SX    { return sK(0).add(a, k) }
func (a SX) isK() bool         { return len(a.t) == 0 }
func (a SX) eq(b SX) bool      { return a.add(b, -1).key() == "0" }
func (a SX) has(s string) bool { return strings.Contains(a.key(), s) }

func (a SX) key() string {
	var ks []string
	for x := range a.t {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	s := ""
	for _, x := range ks {
		if a.t[x] != 1 {
			s += fmt.Sprint(a.t[x], "*")
		}
		s += x + " + "
	}
	if a.c != 0 || s == "" {
		return s + fmt.Sprint(a.c)
	}
	return strings.TrimSuffix(s, " + ")
}

// div is a/k rounded down, exact where every term is a multiple.
func (a SX) div(k int64) SX {
	r := SX{t: map[string]int64{}}
	rest := SX{t: map[string]int64{}}
	for x, n := range a.t {
		if n%k == 0 {
			r.t[x] = n / k
		} else {
			rest.t[x] = n
		}
	}
	if len(rest.t) == 0 && a.c%k == 0 {
		r.c = a.c / k
		return r
	}
	q := a.c / k
	if a.c%k < 0 {
		q--
	}
	r.c = q
	rest.c = a.c - q*k
	if len(rest.t) == 0 {
		return r
	}
	return r.add(sAtom(fmt.Sprintf("fl%d(%s)", k, rest.key())), 1)
}

func (a SX) subst(m map[string]SX) SX {
	r := a
	for x, v := range m {
		if n := r.t[x]; n != 0 {
			r = r.add(sAtom(x), -n).add(v, n)
		}
	}
	return r
}

// Values.
type tVal interface{ tkey() string }

type (
	tInt  struct{ x SX }
	tNode struct {
		path string
		typ  *types.Struct
	}
	tMap  struct{ f string }
	tList struct { // keys of a map; lo and hi: part, hi "" for the end
		f      string
		part   int // 0 all, 1 [:n], 2 [n:]
		n      SX
		sorted bool
	}
	tKN  struct{ f, cell, node string } // a list of keys that is either nil or complete
	tKey struct{ f string }
	tAt  struct { // element of a list at an unknown index
		f   string
		idx string
	}
	tObj   struct{ id string } // address of a local object or part of it
	tBytes struct {
		k   string
		len SX
	}
	tSl struct { // a slice known by its length
		len   SX
		elems string
	}
	tStruct struct{ f []tVal }
	tErr    struct{}
	tNil    struct{}
	tBool   struct {
		known bool
		v     bool
		k     string
		zx    SX
		zt    bool // zx is zero when it is true
	}
	tFn struct {
		f  *ssa.Function
		fv []tVal
	}
	tExt struct{ k string } // writer or callback
	tOpq struct{ k string }
	tTup struct{ v []tVal }
	tIt  struct{ f string }
	tStr struct{ k string }
	tDyn struct { // interface holding a value of a known type
		typ string
		v   tVal
	}
)

func (v tInt) tkey() string  { return v.x.key() }
func (v tNode) tkey() string { return "node:" + v.path }
func (v tMap) tkey() string  { return "map:" + v.f }
func (v tList) tkey() string { return fmt.Sprint("list:", v.f, "/", v.part, "/", v.n.key(), v.sorted) }
func (v tKN) tkey() string   { return "kn:" + v.f }
func (v tKey) tkey() string  { return "key:" + v.f + "[]" }
func (v tAt) tkey() string   { return "at:" + v.f + "[" + v.idx + "]" }
func (v tObj) tkey() string  { return "obj:" + v.id }
func (v tBytes) tkey() string {
	return "bytes:" + v.k
}
func (v tSl) tkey() string { return "sl:" + v.len.key() + v.elems }
func (v tStruct) tkey() string {
	s := "struct{"
	for _, f := range v.f {
		s += f.tkey() + ";"
	}
	return s + "}"
}
func (v tErr) tkey() string  { return "err" }
func (v tNil) tkey() string  { return "nil" }
func (v tBool) tkey() string { return fmt.Sprint("bool:", v.known, v.v, v.k) }
func (v tFn) tkey() string   { return "fn:" + v.f.String() }
func (v tExt) tkey() string  { return "ext:" + v.k }
func (v tOpq) tkey() string  { return "opq:" + v.k }
func (v tIt) tkey() string   { return "it:" + v.f }
func (v tStr) tkey() string  { return "str:" + v.k }
func (v tDyn) tkey() string  { return "dyn:" + v.typ + v.v.tkey() }
func (v tTup) tkey() string {
	s := "tup{"
	for _, f := range v.v {
		s += f.tkey() + ";"
	}
	return s + "}"
}

// Effects.
type tEff struct {
	kind   string // emit, visit, loop, put
	size   SX
	typ    types.Type
	vals   []tVal
	where  string
	f      string // loop: map
	part   int
	n      SX
	sorted bool
	body   []*tEff
	pfx    map[string]SX // loop: what each running total grows by
}

func (e *tEff) key() string {
	s := e.kind + e.size.key() + e.f + fmt.Sprint(e.part, e.n.key())
	if e.typ != nil {
		s += e.typ.String()
	}
	for _, v := range e.vals {
		s += v.tkey()
	}
	s += "{"
	for _, b := range e.body {
		s += b.key()
	}
	return s + "}"
}

type tState struct {
	env    map[ssa.Value]tVal
	heap   map[string]tVal
	eff    []*tEff
	stop   string          // a callback has asked to stop
	broken ssa.Instruction // a loop was left early
	more   string          // what the callback has answered with "continue"
	regs   map[string]bool // keys put in local maps, and keys that are not names
	trail  []string        // edits and tests, when edits are followed
	zero   []SX            // lengths that are zero (or less)
}

func (s *tState) clone() *tState {
	r := &tState{env: map[ssa.Value]tVal{}, heap: map[string]tVal{}, stop: s.stop, more: s.more, broken: s.broken}
	for k, v := range s.env {
		r.env[k] = v
	}
	for k, v := range s.heap {
		r.heap[k] = v
	}
	r.eff = append([]*tEff{}, s.eff...)
	r.trail = append([]string{}, s.trail...)
	r.zero = append([]SX{}, s.zero...)
	r.regs = map[string]bool{}
	for k := range s.regs {
		r.regs[k] = true
	}
	return r
}

func (s *tState) key() string {
	r := s.heapKey()
	for _, e := range s.eff {
		r += e.key()
	}
	return r
}

func (s *tState) heapKey() string {
	var ks []string
	for k, v := range s.heap {
		ks = append(ks, k+"="+v.tkey())
	}
	sort.Strings(ks)
	r := strings.Join(ks, ";") + "|" + strings.Join(s.trail, ";") + "|" + fmt.Sprint(s.broken != nil) + s.stop + "|" + s.more + "|"
	return r
}

type tEnd struct {
	kind string // ret, cont, brk, exit
	st   *tState
	vals []tVal
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
}

// tev evaluates.
type tev struct {
	c      *Ctx
	n      int
	steps  int
	depth  int
	issues map[string]string // what could not be followed or is wrong, by construct
	quiet  int
	funcs  map[*ssa.Function]bool
	loops  int
	facts  map[string]bool
	edit   bool // the tree may change
}

func newTev(c *Ctx) *tev {
	return &tev{c: c, issues: map[string]string{}, funcs: map[*ssa.Function]bool{}, facts: map[string]bool{}}
}

// covers: the effects of the other state are the same, but for emissions of nothing.
func (s *tState) covers(o *tState) bool {
	i := 0
	for _, e := range s.eff {
		if i < len(o.eff) && e.key() == o.eff[i].key() {
			i++
			continue
		}
		if e.kind != "emit" {
			return false
		}
		none := false
		for _, z := range o.zero {
			if z.eq(e.size) {
				none = true
			}
		}
		if !none {
			return false
		}
	}
	return i == len(o.eff)
}

var objName = regexp.MustCompile(`o~(\d+)`)

// drop forgets local objects made since n that nothing refers to.
func (s *tState) drop(n int, vals []tVal) {
	live := map[string]bool{}
	var refs func(v tVal)
	refs = func(v tVal) {
		for _, m := range objName.FindAllString(v.tkey(), -1) {
			live[m] = true
		}
		switch x := v.(type) {
		case tFn:
			for _, y := range x.fv {
				refs(y)
			}
		case tTup:
			for _, y := range x.v {
				refs(y)
			}
		}
	}
	for _, v := range vals {
		refs(v)
	}
	for changed := true; changed; {
		k := len(live)
		for c, v := range s.heap {
			if m := objName.FindStringSubmatch(c); m == nil || !strings.HasPrefix(c, "o~") || live[m[0]] || num(m[1]) <= n {
				refs(v)
			}
		}
		changed = len(live) > k
	}
	for c := range s.heap {
		if m := objName.FindStringSubmatch(c); m != nil && strings.HasPrefix(c, "o~") && !live[m[0]] && num(m[1]) > n {
			delete(s.heap, c)
		}
	}
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

func (s *tState) reg(k string) {
	if s.regs == nil {
		s.regs = map[string]bool{}
	}
	s.regs[k] = true
}

func (t *tev) fresh(s string) string { t.n++; return fmt.Sprint(s, "~", t.n) }

func (t *tev) issue(cat string, in ssa.Instruction, msg string) {
	k := cat
	w := ""
	if in != nil {
		w = t.c.P.pos(in)
		k += "|" + t.c.site(&Frame{fn: in.Parent()}, in)
	}
	t.issues[k] = msg + " (" + w + ")"
}

func (t *tev) opq(in ssa.Instruction, why string) tVal {
	return tOpq{t.fresh("?")}
}

// nodeField is the value of a field of a tree structure when nothing was stored in it.
func (t *tev) nodeField(path string, s *types.Struct, i int) tVal {
	f := s.Field(i)
	p := path + "." + f.Name()
	switch u := f.Type().Underlying().(type) {
	case *types.Map:
		return tMap{p}
	case *types.Slice:
		if m := cacheOf(s, i); m >= 0 {
			return tKN{path + "." + s.Field(m).Name(), p, path}
		}
		return tBytes{p, sAtom("len(" + p + ")")}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return tInt{sAtom("fld:" + p)}
		}
	}
	return tOpq{p}
}

// cacheOf: a slice field that lists the keys of a map field of the same structure.
func cacheOf(s *types.Struct, i int) int {
	sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
	if !ok {
		return -1
	}
	for m := 0; m < s.NumFields(); m++ {
		if mt, ok := s.Field(m).Type().Underlying().(*types.Map); ok && types.Identical(mt.Key(), sl.Elem()) {
			return m
		}
	}
	return -1
}

// mapElem is the structure that a map at a path holds.
func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (t *tev) zero(ty types.Type) tVal {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tInt{sK(0)}
		case u.Info()&types.IsBoolean != 0:
			return tBool{known: true}
		case u.Info()&types.IsString != 0:
			return tStr{`""`}
		}
	case *types.Struct:
		v := tStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, t.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return tOpq{"zero array"}
	case *types.Slice:
		return tSl{sK(0), "empty"}
	}
	return tNil{}
}

func (t *tev) load(st *tState, a tVal, ty types.Type, in ssa.Instruction) tVal {
	switch p := a.(type) {
	case tObj:
		if v, ok := st.heap[p.id]; ok {
			return v
		}
		if s, ok := ty.Underlying().(*types.Struct); ok {
			v := tStruct{}
			for i := 0; i < s.NumFields(); i++ {
				v.f = append(v.f, t.load(st, tObj{p.id + "." + s.Field(i).Name()}, s.Field(i).Type(), in))
			}
			return v
		}
		if _, ok := st.heap[p.id+"?"]; ok || strings.Contains(p.id, "?") {
			return t.opq(in, "part of an array")
		}
		return t.zero(ty)
	case tKey, tAt:
		return p
	case tTup: // field of a tree node
		cell := p.v[0].(tStr).k
		if v, ok := st.heap[cell]; ok {
			return v
		}
		return p.v[1]
	case tSl:
		return t.opq(in, "element")
	case tExt:
		return p
	}
	return t.opq(in, "load")
}

func (t *tev) store(st *tState, a, v tVal, ty types.Type, in ssa.Instruction) {
	switch p := a.(type) {
	case tObj:
		for k := range st.heap {
			if strings.HasPrefix(k, p.id+".") {
				delete(st.heap, k)
			}
		}
		if sv, ok := v.(tStruct); ok {
			if s, ok := ty.Underlying().(*types.Struct); ok {
				for i := range sv.f {
					t.store(st, tObj{p.id + "." + s.Field(i).Name()}, sv.f[i], s.Field(i).Type(), in)
				}
				return
			}
		}
		st.heap[p.id] = v
	case tTup:
		cell := p.v[0].(tStr).k
		st.heap[cell] = v
		if sl, ok := v.(tSl); ok && sl.elems == "empty" {
			return
		}
		if kn, ok := p.v[1].(tKN); ok {
			if l, ok := v.(tList); ok {
				if l.f != kn.f || l.part != 0 {
					t.issue("keys", in, "the list of keys kept may not be that of its map")
				}
				return
			}
			if _, ok := v.(tNil); !ok {
				if s, isSl := v.(tSl); !isSl || !strings.HasPrefix(s.elems, "acc") {
					t.issue("keys", in, "the list of keys kept may not be that of its map")
				}
			}
		}
	case tSl, tList:
		// element of a slice
	}
}

func (t *tev) val(st *tState, v ssa.Value) tVal {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return tNil{}
			}
			return t.zeroOrNil(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return tInt{sK(n)}
			}
			if n, ok := constant.Uint64Val(x.Value); ok {
				return tInt{sK(int64(n))}
			}
		case constant.Bool:
			return tBool{known: true, v: constant.BoolVal(x.Value)}
		case constant.String:
			return tStr{x.Value.ExactString()}
		}
		return tOpq{x.String()}
	case *ssa.Function:
		return tFn{f: x}
	case *ssa.Global:
		return tObj{"g:" + x.Name()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return tOpq{"unset " + v.Name()}
}

func (t *tev) zeroOrNil(ty types.Type) tVal {
	switch ty.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return tNil{}
	}
	return t.zero(ty)
}

func asInt(v tVal) (SX, bool) {
	i, ok := v.(tInt)
	return i.x, ok
}

func (t *tev) lenOf(v tVal, in ssa.Instruction) SX {
	switch x := v.(type) {
	case tList:
		switch x.part {
		case 1:
			return x.n
		case 2:
			return sAtom("len("+x.f+")").add(x.n, -1)
		}
		return sAtom("len(" + x.f + ")")
	case tMap:
		return sAtom("len(" + x.f + ")")
	case tBytes:
		return x.len
	case tSl:
		return x.len
	case tNil:
		return sK(0)
	case tKN:
		t.issue("stale", in, "a list of keys may be out of date when it is used")
		return sAtom("len(" + x.f + ")")
	case tOpq:
		return sAtom("len(" + x.k + ")")
	case tKey:
		return sAtom("len(key " + x.f + "[])")
	case tStr:
		return sAtom("len(" + x.k + ")")
	}
	return sAtom(t.fresh("len"))
}

// cmpKey names a comparison with zero; a length that is tested is empty or not.
func cmpKey(op token.Token, d SX) string {
	if k := d.key(); strings.Contains(k, "$") && d.c == 0 {
		x, y := "", ""
		for a, m := range d.t {
			switch {
			case strings.HasPrefix(a, "$cmp("):
				p := strings.SplitN(a[5:len(a)-1], ",", 2)
				x, y = p[0], p[1]
				if m < 0 {
					x, y = y, x
				}
			case m == 1:
				x = a
			case m == -1:
				y = a
			}
		}
		switch op {
		case token.LSS:
			return "lt(" + x + "," + y + ")"
		case token.GTR:
			return "lt(" + y + "," + x + ")"
		case token.LEQ:
			return "not:lt(" + y + "," + x + ")"
		case token.GEQ:
			return "not:lt(" + x + "," + y + ")"
		}
	}
	if len(d.t) != 1 {
		return "cmp"
	}
	for a, m := range d.t {
		if !strings.HasPrefix(a, "len(") || m != 1 && m != -1 {
			return "cmp"
		}
		holds := func(n int64) bool {
			v := m*n + d.c
			switch op {
			case token.EQL:
				return v == 0
			case token.NEQ:
				return v != 0
			case token.LSS:
				return v < 0
			case token.LEQ:
				return v <= 0
			case token.GTR:
				return v > 0
			}
			return v >= 0
		}
		f := a[4 : len(a)-1]
		switch {
		case holds(0) && !holds(1) && !holds(2) && !holds(9):
			return "empty:" + f
		case !holds(0) && holds(1) && holds(2) && holds(9):
			return "not:empty:" + f
		case holds(1) && !holds(2) && !holds(9):
			return "one:" + f
		case !holds(1) && holds(2) && holds(9):
			return "not:one:" + f
		}
	}
	return "cmp"
}

func boolT(k string) tVal { return tBool{k: k} }

// eval evaluates one instruction that gives a value; forks are made by branch.
func (t *tev) binop(x *ssa.BinOp, a, b tVal) tVal {
	i, ok1 := asInt(a)
	j, ok2 := asInt(b)
	if ok1 && ok2 {
		switch x.Op {
		case token.ADD:
			return tInt{i.add(j, 1)}
		case token.SUB:
			return tInt{i.add(j, -1)}
		case token.MUL:
			if j.isK() {
				return tInt{i.mul(j.c)}
			}
			if i.isK() {
				return tInt{j.mul(i.c)}
			}
		case token.SHL:
			if j.isK() && j.c < 40 {
				return tInt{i.mul(1 << j.c)}
			}
		case token.SHR:
			if j.isK() && j.c < 40 {
				return tInt{i.div(1 << j.c)}
			}
		case token.QUO:
			if j.isK() && j.c > 0 {
				return tInt{i.div(j.c)}
			}
		case token.REM:
			if j.isK() && j.c > 0 {
				return tInt{i.add(i.div(j.c), -j.c)}
			}
		case token.AND_NOT:
			if j.isK() && j.c >= 0 && (j.c+1)&j.c == 0 {
				return tInt{i.div(j.c + 1).mul(j.c + 1)}
			}
		case token.AND:
			if j.isK() && j.c < 0 && (-j.c)&(-j.c-1) == 0 {
				return tInt{i.div(-j.c).mul(-j.c)}
			}
			if j.isK() && j.c >= 0 && (j.c+1)&j.c == 0 {
				return tInt{i.add(i.div(j.c+1), -(j.c + 1))}
			}
		case token.OR, token.ADD | token.OR:
			if i.isK() && j.isK() {
				return tInt{sK(i.c | j.c)}
			}
			// the flag of a directory entry; the rest is below it (C25)
			if j.isK() && j.c == 1<<31 {
				return tInt{i.add(j, 1)}
			}
			if i.isK() && i.c == 1<<31 {
				return tInt{i.add(j, 1)}
			}
			if j.isK() {
				return tInt{sAtom(fmt.Sprintf("or(%d;%s)", j.c, i.key()))}
			}
			if i.isK() {
				return tInt{sAtom(fmt.Sprintf("or(%d;%s)", i.c, j.key()))}
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			d := i.add(j, -1)
			if d.isK() {
				var r bool
				switch x.Op {
				case token.EQL:
					r = d.c == 0
				case token.NEQ:
					r = d.c != 0
				case token.LSS:
					r = d.c < 0
				case token.LEQ:
					r = d.c <= 0
				case token.GTR:
					r = d.c > 0
				case token.GEQ:
					r = d.c >= 0
				}
				return tBool{known: true, v: r}
			}
			r := boolT(cmpKey(x.Op, d)).(tBool)
			switch x.Op {
			case token.EQL, token.LEQ:
				r.zx, r.zt = d, true
			case token.NEQ, token.GTR:
				r.zx = d
			}
			return r
		}
		return tInt{sAtom(fmt.Sprintf("%s(%s;%s)", x.Op, i.key(), j.key()))}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		ne := x.Op == token.NEQ
		if _, ok := a.(tNil); ok {
			a, b = b, a
		}
		if _, ok := b.(tNil); ok {
			switch y := a.(type) {
			case tNil:
				return tBool{known: true, v: !ne}
			case tErr, tList, tObj, tSl, tFn:
				return tBool{known: true, v: ne}
			case tBytes:
				if strings.HasPrefix(y.k, "?") {
					return tBool{known: true, v: ne}
				}
			case tKN:
				if ne {
					return boolT("ne:" + y.cell)
				}
				return boolT("eq:" + y.cell)
			case tNode:
				if ne {
					return boolT("not:nil:" + y.path)
				}
				return boolT("nil:" + y.path)
			case tMap:
				if strings.HasPrefix(y.f, "m~") {
					return tBool{known: true, v: ne}
				}
				if ne {
					return boolT("not:nil:" + y.f)
				}
				return boolT("nil:" + y.f)
			}
		}
		return boolT("eq")
	case token.LSS, token.GTR:
		k, ok1 := a.(tAt)
		l, ok2 := b.(tAt)
		if ok1 && ok2 {
			if x.Op == token.GTR {
				k, l = l, k
			}
			return boolT("lt(" + k.tkey() + "," + l.tkey() + ")")
		}
		s1, ok1 := a.(tStr)
		s2, ok2 := b.(tStr)
		if ok1 && ok2 && strings.HasPrefix(s1.k, "$") && strings.HasPrefix(s2.k, "$") {
			if x.Op == token.GTR {
				s1, s2 = s2, s1
			}
			return boolT("lt(" + s1.k + "," + s2.k + ")")
		}
		return boolT("cmp")
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsBoolean != 0:
			return boolT("b")
		case bt.Info()&types.IsInteger != 0:
			return tInt{sAtom(t.fresh("int"))}
		}
	}
	return t.opq(x, "op")
}
