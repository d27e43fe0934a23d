package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var traceLoops = os.Getenv("WR_TRACE") != ""
var startTime = time.Now()

// loopInt describes a generalised integer component of the loop-head state.
type loopInt struct {
	entry  Lin
	born   int   // 1 + the round that introduced the generalisation
	delta  int64 // LIN: value = entry + delta*kappa
	lin    bool
	atom   *Atom // FRESH: the atom standing for the value
	lo, hi *int64
}

type loopCtx struct {
	e        *Engine
	fr       *Frame
	L        *loop
	S0       *State
	kappa    *Atom
	reloaded map[string]bool     // integers every iteration takes from received memory
	ints     map[string]*loopInt // component name -> generalisation
	vals     map[string]Val      // non-integer components replaced by fresh values
	entV     map[string]Val
	nn       map[string]int // nil-ness kept for generalised references: 1 nil, 0 non-nil, -1 unknown
	cells    map[cell]bool  // heap locations changed by the loop
	objs     map[int]bool   // objects whose whole content changes
	teps     map[string]bool
	esc      map[int]bool
	conds    map[string]Lin
	cands    map[string]*cand
	dead     map[string]bool // candidates refuted
	atomMark int
	mark     int // objects with id < mark existed at loop entry
	fills    map[int]map[string]*fillProp
	fillDead map[string]int
	changed  bool
	round    int
	nonce    string
	prev     *loopCtx // an earlier activation of the same loop in the same context
	deadL    map[string]Lin
	unkept   map[cell]bool // cells of objects in objs that an iteration may change
}

type cand struct {
	l    Lin
	born int // 1 + the round in which a back edge suggested it: it is first checked in the next one
	ok   bool
}

type loopReport struct {
	Fn, Pos  string
	Ranked   bool
	Measure  string
	Contexts int
	Stack    string
	In       ssa.Instruction
}

// old reports whether an object existed before the loop was entered.
func (lc *loopCtx) old(id int) bool {
	o := objList[id]
	if o.kind == "sym" || o.kind == "global" {
		return id < lc.mark
	}
	return !strings.HasPrefix(o.nonce, lc.nonce)
}

// warm starts the activation from the shape found by an earlier activation of the same loop, whatever it is worth:
// everything is checked again.
func (lc *loopCtx) warm() {
	p := lc.prev
	if p == nil {
		return
	}
	var g *gcRoots
	for k := range p.objs {
		lc.objs[k] = true
	}
	for k := range p.teps {
		lc.teps[k] = true
	}
	for k := range p.esc {
		lc.esc[k] = true
	}
	for _, ph := range phisOf(lc.L.head) {
		lc.warmVal("v"+ph.Name(), lc.S0.env[ph], ph.Type())
	}
	var cs []cell
	for c := range p.cells {
		cs = append(cs, c)
	}
	sortCells(cs)
	for _, c := range cs {
		if lc.objs[c.o] {
			continue
		}
		o := objList[c.o]
		if o.kind == "sym" && len(tokens(o.name)) > 0 {
			// storage found during the earlier activation only matters if this one can reach it
			if g == nil {
				g, _ = lc.e.liveness(lc.S0, lc.fr.ctx)
			}
			if !g.named(o.name) {
				continue
			}
		}
		var ev Val
		if o == lc.e.ghost {
			v, ok := lc.S0.heap[c]
			if !ok {
				if p.entV[cellName(c)] == nil {
					continue
				}
				v = ghostZero(p.entV[cellName(c)])
			}
			ev = v
			lc.entV[cellName(c)] = ev
			lc.cells[c] = true
			lc.warmVal(cellName(c), ev, types.Typ[types.Int])
			continue
		}
		if o.kind == "iter" {
			continue
		}
		ev = lc.entryCell(c)
		lc.entV[cellName(c)] = ev
		lc.cells[c] = true
		lc.warmVal(cellName(c), ev, typeAt(o, c.p))
	}
	m := map[*Atom]Lin{p.kappa: atomLin(lc.kappa)}
	okAtom := map[*Atom]bool{}
	for n, li := range p.ints {
		if li.lin {
			continue
		}
		if x := lc.ints[n]; x != nil && !x.lin {
			m[li.atom] = atomLin(x.atom)
		} else {
			okAtom[li.atom] = true
		}
	}
	for _, k := range sortedKeys(p.cands) {
		l := subst(p.cands[k].l, m)
		bad := false
		for _, t := range l.t {
			if okAtom[t.a] {
				bad = true
			}
		}
		if bad || l.isConst() {
			continue
		}
		if lc.S0.prove(subst(l, lc.entrySubst())) {
			lc.cands[l.key()] = &cand{l: l}
		}
		// what was related to the values the loop started with then is related to those it starts with now
		r, now := p.cands[k].l, K(0)
		for n, li := range p.ints {
			if x := lc.ints[n]; !li.lin && x != nil && !x.lin {
				if a := coef(r, li.atom); a != 0 {
					r = sub(r, scale(sub(atomLin(li.atom), li.entry), a))
					now = add(now, scale(sub(atomLin(x.atom), x.entry), a))
				}
			}
		}
		r = subst(r, map[*Atom]Lin{p.kappa: atomLin(lc.kappa)})
		if len(r.t) > 1 || len(r.t) == 1 && r.t[0].a != lc.kappa || now.isConst() {
			continue
		}
		if l := add(r, now); lc.cands[l.key()] == nil && lc.S0.prove(subst(l, lc.entrySubst())) {
			lc.cands[l.key()] = &cand{l: l}
		}
	}
	for _, h := range lc.e.hints {
		for n, x := range lc.ints {
			if li := p.ints[n]; li != nil && !li.lin && !x.lin && p.deadL[sub(h, atomLin(li.atom)).key()].t == nil && lc.S0.prove(sub(h, x.entry)) {
				l := sub(h, atomLin(x.atom))
				lc.cands[l.key()] = &cand{l: l}
			}
		}
	}
	for k := range p.deadL {
		lc.dead[subst(p.deadL[k], m).key()] = true
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (lc *loopCtx) warmInt(name string, entry Lin) {
	pi := lc.prev.ints[name]
	if pi == nil || lc.ints[name] != nil {
		return
	}
	li := &loopInt{entry: entry, lo: pi.lo, hi: pi.hi, lin: pi.lin, delta: pi.delta}
	if !li.lin {
		li.atom = sym(freshName("l:"+name), pi.lo, pi.hi)
	}
	lc.ints[name] = li
}

func (lc *loopCtx) warmVal(name string, v Val, t types.Type) {
	if v == nil {
		return
	}
	if pv, ok := lc.prev.vals[name]; ok {
		n := freshName("l:" + name)
		if t == nil || t == types.Typ[types.Invalid] {
			return
		}
		var nv Val
		if _, isOp := pv.(OpqV); isOp {
			nv = OpqV{n}
		} else {
			nv = symVal(n, t)
		}
		if fmt.Sprintf("%T", nv) != fmt.Sprintf("%T", pv) {
			return
		}
		lc.nn[name] = -1
		if w := lc.prev.nn[name]; w >= 0 && lc.S0.truth(nilCond(v)) == w {
			lc.nn[name] = w
		}
		switch x := nv.(type) {
		case SliceV:
			if lc.nn[name] == 0 {
				x.NilAtom = ""
			}
			es, ok := asSlice(v)
			if !ok {
				return
			}
			x.Off, x.Len, x.Cap = K(0), es.Len, es.Cap
			nv = x
			lc.warmInt(name+"!len", es.Len)
			lc.warmInt(name+"!cap", es.Cap)
		case StrV:
			es, ok := v.(StrV)
			if !ok {
				return
			}
			x.Len = es.Len
			nv = x
			lc.warmInt(name+"!len", es.Len)
		}
		lc.vals[name] = nv
		lc.escVal(v, lc.S0)
		return
	}
	switch x := v.(type) {
	case IntV:
		lc.warmInt(name, x.L)
	case StructV:
		st := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			lc.warmVal(fmt.Sprintf("%s.%d", name, i), f, st.Field(i).Type())
		}
	case ArrV:
		for i, f := range x.E {
			lc.warmVal(fmt.Sprintf("%s.%d", name, i), f, x.T.Underlying().(*types.Array).Elem())
		}
	case SliceV:
		lc.warmInt(name+"!off", x.Off)
		lc.warmInt(name+"!len", x.Len)
		lc.warmInt(name+"!cap", x.Cap)
	case StrV:
		if !x.Const {
			lc.warmInt(name+"!len", x.Len)
		}
	case PtrV:
		for i, e := range pathTab[x.Path] {
			if e.field < 0 {
				lc.warmInt(fmt.Sprintf("%s!i%d", name, i), e.idx)
			}
		}
	}
}

func (lc *loopCtx) log(c BoolV, own bool) {
	add := func(l Lin) {
		if own || len(lc.conds) < 400 {
			lc.conds[l.key()] = l
		}
	}
	switch c.op {
	case "ge":
		add(c.L)
		add(addc(neg(c.L), -1))
	case "eq":
		add(c.L)
		add(neg(c.L))
		add(addc(c.L, -1))
		add(addc(neg(c.L), -1))
	}
}

// headInt gives the loop-head value of an integer component.
func (lc *loopCtx) headInt(name string, entry Lin) Lin {
	li := lc.ints[name]
	if li == nil {
		return entry
	}
	if li.lin {
		return add(li.entry, scale(atomLin(lc.kappa), li.delta))
	}
	return atomLin(li.atom)
}

// headVal gives the loop-head abstraction of a component whose entry value is v.
func (lc *loopCtx) headVal(name string, v Val) Val {
	if r, ok := lc.vals[name]; ok {
		v = r
	}
	switch x := v.(type) {
	case IntV:
		return IntV{lc.headInt(name, x.L)}
	case StructV:
		s := StructV{T: x.T}
		for i, f := range x.F {
			s.F = append(s.F, lc.headVal(fmt.Sprintf("%s.%d", name, i), f))
		}
		return s
	case ArrV:
		s := ArrV{T: x.T}
		for i, f := range x.E {
			s.E = append(s.E, lc.headVal(fmt.Sprintf("%s.%d", name, i), f))
		}
		return s
	case TupleV:
		var s TupleV
		for i, f := range x {
			s = append(s, lc.headVal(fmt.Sprintf("%s.%d", name, i), f))
		}
		return s
	case SliceV:
		x.Off = lc.headInt(name+"!off", x.Off)
		x.Len = lc.headInt(name+"!len", x.Len)
		x.Cap = lc.headInt(name+"!cap", x.Cap)
		return x
	case StrV:
		if !x.Const {
			x.Len = lc.headInt(name+"!len", x.Len)
		}
		return x
	case PtrV:
		es := pathTab[x.Path]
		for i, e := range es {
			if e.field < 0 {
				if lc.ints[fmt.Sprintf("%s!i%d", name, i)] != nil {
					n := append([]PathElem{}, es...)
					n[i].idx = lc.headInt(fmt.Sprintf("%s!i%d", name, i), e.idx)
					es = n
				}
			}
		}
		x.Path = pathOf(es)
		return x
	}
	return v
}

// check compares the back-edge value b with the head abstraction h, generalising where they differ.
// binds maps FRESH atoms to their back-edge values.
func (lc *loopCtx) checkInt(name string, entry, b Lin, lo, hi *int64, binds map[*Atom]Lin) {
	li := lc.ints[name]
	next := map[*Atom]Lin{lc.kappa: addc(atomLin(lc.kappa), 1)}
	if li == nil {
		if eqLin(entry, b) {
			return
		}
		d := sub(b, entry)
		li = &loopInt{entry: entry, lo: lo, hi: hi, born: lc.round + 1}
		if d.isConst() && d.c != 0 && lc.round < 6 {
			li.lin, li.delta = true, d.c
		} else {
			li.atom = sym(freshName("l:"+name), lo, hi)
		}
		lc.ints[name] = li
		lc.changed = true
		return
	}
	if li.lin {
		want := subst(lc.headInt(name, entry), next)
		if li.born == lc.round+1 {
			want = addc(entry, li.delta) // this iteration still started from the entry value
		}
		if eqLin(want, b) {
			return
		}
		if traceLoops {
			fmt.Println("NONLIN", lc.fr.stack(), name, "want", want, "got", b)
		}
		li.lin = false
		li.atom = sym(freshName("l:"+name), lo, hi)
		lc.changed = true
		return
	}
	if _, ok := binds[li.atom]; !ok {
		binds[li.atom] = b
	}
}

func (lc *loopCtx) fresh(name string, t types.Type, entry, b Val, sb *State) {
	if _, done := lc.vals[name]; done {
		// already unknown: only the nil-ness can still be refuted
		want := lc.nn[name]
		if want >= 0 {
			if sb.truth(nilCond(b)) != want {
				lc.nn[name] = -1
				v := lc.vals[name]
				if sl, ok := v.(SliceV); ok && sl.NilAtom == "" {
					sl.NilAtom = "nil:" + freshName("l:"+name)
					lc.vals[name] = sl
				}
				lc.changed = true
			}
		}
		return
	}
	if t == nil || t == types.Typ[types.Invalid] {
		t = guessType(entry, b)
	}
	n := freshName("l:" + name)
	var v Val = OpqV{n}
	if t != nil {
		v = symVal(n, t)
	}
	na, nb := lc.S0.truth(nilCond(entry)), sb.truth(nilCond(b))
	lc.nn[name] = -1
	if na >= 0 && na == nb {
		lc.nn[name] = na
	}
	switch x := v.(type) {
	case SliceV:
		if lc.nn[name] == 0 {
			x.NilAtom = ""
			v = x
		}
		// lengths stay related to the iteration count where possible
		if es, ok := asSlice(entry); ok {
			if bs, ok := asSlice(b); ok {
				x.Off = K(0)
				x.Len, x.Cap = es.Len, es.Cap
				v = x
				lc.checkInt(name+"!len", es.Len, bs.Len, p64(0), p64(maxLen), map[*Atom]Lin{})
				lc.checkInt(name+"!cap", es.Cap, bs.Cap, p64(0), p64(maxLen), map[*Atom]Lin{})
			}
		}
	case StrV:
		if es, ok := entry.(StrV); ok {
			if bs, ok := b.(StrV); ok {
				x.Len = es.Len
				v = x
				lc.checkInt(name+"!len", es.Len, bs.Len, p64(0), p64(maxLen), map[*Atom]Lin{})
			}
		}
	}
	lc.vals[name] = v
	lc.changed = true
	for _, x := range []Val{entry, b} {
		lc.escVal(x, sb)
	}
}

func asSlice(v Val) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case NilV:
		return SliceV{Len: K(0), Cap: K(0), Off: K(0)}, true
	}
	return SliceV{}, false
}

func (lc *loopCtx) escVal(v Val, sb *State) {
	t := newState()
	t.heap, t.heapSh = sb.heap, true
	t.escapeVal(v)
	for o := range t.escaped {
		if lc.old(o) && !lc.esc[o] && !lc.S0.escaped[o] {
			lc.esc[o] = true
			lc.changed = true
		}
	}
}

func (lc *loopCtx) check(name string, entry, b Val, t types.Type, sb *State, binds map[*Atom]Lin) {
	cur := entry
	if r, ok := lc.vals[name]; ok {
		cur = r
		if _, isInt := r.(IntV); !isInt {
			switch x := r.(type) {
			case SliceV:
				lc.fresh(name, t, entry, b, sb)
				if bs, ok := asSlice(b); ok {
					lc.checkInt(name+"!len", x.Len, bs.Len, p64(0), p64(maxLen), binds)
					lc.checkInt(name+"!cap", x.Cap, bs.Cap, p64(0), p64(maxLen), binds)
				}
				return
			case StrV:
				if bs, ok := b.(StrV); ok {
					lc.checkInt(name+"!len", x.Len, bs.Len, p64(0), p64(maxLen), binds)
				}
				return
			case StructV, ArrV:
			default:
				lc.fresh(name, t, entry, b, sb)
				return
			}
		}
	}
	switch x := cur.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			lo, hi, _, _, isInt := (*int64)(nil), (*int64)(nil), 0, false, false
			if t != nil {
				lo, hi, _, _, isInt = intRange(t)
			}
			_ = isInt
			lc.checkInt(name, x.L, y.L, lo, hi, binds)
			return
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			st := x.T.Underlying().(*types.Struct)
			for i := range x.F {
				lc.check(fmt.Sprintf("%s.%d", name, i), x.F[i], y.F[i], st.Field(i).Type(), sb, binds)
			}
			return
		}
	case ArrV:
		if y, ok := b.(ArrV); ok && len(x.E) == len(y.E) {
			et := x.T.Underlying().(*types.Array).Elem()
			for i := range x.E {
				lc.check(fmt.Sprintf("%s.%d", name, i), x.E[i], y.E[i], et, sb, binds)
			}
			return
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && y.Obj == x.Obj && y.Path == x.Path && y.NilAtom == x.NilAtom {
			lc.checkInt(name+"!off", x.Off, y.Off, p64(0), p64(maxLen), binds)
			lc.checkInt(name+"!len", x.Len, y.Len, p64(0), p64(maxLen), binds)
			lc.checkInt(name+"!cap", x.Cap, y.Cap, p64(0), p64(maxLen), binds)
			return
		}
	case PtrV:
		if y, ok := b.(PtrV); ok && y.Obj == x.Obj {
			p, q := pathTab[x.Path], pathTab[y.Path]
			same := len(p) == len(q)
			for i := 0; same && i < len(p); i++ {
				if (p[i].field >= 0 || q[i].field >= 0) && p[i].field != q[i].field {
					same = false
				}
			}
			if same {
				for i := range p {
					if p[i].field < 0 {
						lc.checkInt(fmt.Sprintf("%s!i%d", name, i), p[i].idx, q[i].idx, nil, nil, binds)
					}
				}
				return
			}
		}
	}
	h := lc.headVal(name, cur)
	if h.Key() == b.Key() {
		return
	}
	lc.fresh(name, t, entry, b, sb)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func cellName(c cell) string { return fmt.Sprintf("c%d%s", c.o, c.p) }

// headState builds the abstract state at the loop head from the entry state and the generalisations.
func (lc *loopCtx) headState() *State {
	s := lc.S0.clone()
	e := lc.e
	for o := range lc.esc {
		s.escape(o)
	}
	for _, p := range phisOf(lc.L.head) {
		s.setEnv(p, lc.headVal("v"+p.Name(), lc.S0.env[p]))
	}
	var ids []int
	for id := range lc.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		for c := range s.heap {
			if c.o == id && !lc.keepCell(c) {
				s.delCell(c)
			}
		}
		s.epOwn()
		s.epoch[id] = fmt.Sprintf("L%d.%d", lc.kappa.id, lc.round)
		if fs := lc.fills[id]; len(fs) > 0 {
			fi := &fillInfo{kappa: lc.kappa, props: map[string]*fillProp{}}
			for fp, p := range fs {
				q := *p
				fi.props[fp] = &q
			}
			fillTab[fillKey(id, s.epoch[id])] = fi
		}
	}
	var tk []string
	for k := range lc.teps {
		tk = append(tk, k)
	}
	sort.Strings(tk)
	for _, k := range tk {
		s.epOwn()
		s.tepoch[k] = fmt.Sprintf("L%d", lc.kappa.id)
	}
	var cs []cell
	for c := range lc.cells {
		if !lc.objs[c.o] {
			cs = append(cs, c)
		}
	}
	sortCells(cs)
	for _, c := range cs {
		s.setCell(c, lc.headVal(cellName(c), lc.entryCell(c)))
	}
	for n, want := range lc.nn {
		if want >= 0 {
			if at := nilAtom(lc.headVal(n, lc.vals[n])); at != "" {
				s.setBool(at, want == 1)
			}
		}
	}
	var ks []string
	for k := range lc.cands {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s.addFact(lc.cands[k].l)
	}
	_ = e
	return s
}

// keepCell tells whether a cell of storage written at varying indices is (so far) never touched by an iteration.
func (lc *loopCtx) keepCell(c cell) bool {
	if lc.unkept[c] || !hasIdx(c.p) || objList[c.o].kind != "alloc" {
		return false
	}
	for _, e := range pathTab[c.p] {
		if e.field < 0 && !e.idx.isConst() {
			return false
		}
	}
	return true
}

func sortCells(cs []cell) {
	sort.Slice(cs, func(i, k int) bool {
		if cs[i].o != cs[k].o {
			return cs[i].o < cs[k].o
		}
		return cs[i].p < cs[k].p
	})
}

func (lc *loopCtx) entryCell(c cell) Val {
	if v, ok := lc.entV[cellName(c)]; ok {
		return v
	}
	if v, ok := lc.S0.heap[c]; ok {
		return v
	}
	o := objList[c.o]
	if o == lc.e.ghost {
		return nil
	}
	t := typeAt(o, c.p)
	if t == types.Typ[types.Invalid] {
		return OpqV{freshName("ec")}
	}
	return lc.S0.load(o, c.p, t)
}

// candidates proposes inequalities over the current generalised atoms.
func (lc *loopCtx) propose() {
	in := map[*Atom]bool{lc.kappa: true}
	back := map[*Atom]Lin{}
	ent := lc.entrySubst()
	for _, li := range lc.ints {
		if !li.lin {
			in[li.atom] = true
		}
	}
	// what a cell held on entry is known before the loop, even when the loop is the first to look at it
	known := map[*Atom]bool{}
	for a := range in {
		known[a] = true
	}
	for _, li := range lc.ints {
		for _, t := range li.entry.t {
			known[t.a] = true
		}
	}
	uses := func(l Lin) bool {
		m := map[*Atom]Lin{}
		for a := range in {
			m[a] = K(0)
		}
		return linDepends(l, m) && leavesKnown(l, known, lc.atomMark)
	}
	propose := func(l Lin) {
		l = tighten(l)
		if l.isConst() || !uses(l) {
			return
		}
		k := l.key()
		if lc.dead[k] || lc.cands[k] != nil {
			return
		}
		if !lc.S0.prove(subst(l, ent)) {
			lc.dead[k] = true
			lc.deadL[k] = l
			return
		}
		lc.cands[k] = &cand{l: l}
		lc.changed = true
	}
	hint := func(l Lin) {
		propose(l)
		if k := l.key(); lc.deadL[k].t != nil && lc.dead[k] {
			delete(lc.deadL, k) // may hold when the loop is entered again
		}
	}
	propose(atomLin(lc.kappa))
	ghosts := fmt.Sprintf("c%d.", lc.e.ghost.id)
	var names []string
	for n := range lc.ints {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		li := lc.ints[n]
		if li.lin {
			continue
		}
		x := atomLin(li.atom)
		propose(sub(x, li.entry))
		propose(sub(li.entry, x))
		propose(x)
		propose(addc(x, -1))
		for _, h := range lc.e.hints {
			hint(sub(h, x))
		}
		// facts known about the entry value
		if len(li.entry.t) == 1 && li.entry.t[0].k == 1 {
			at := li.entry.t[0].a
			m := map[*Atom]Lin{at: addc(x, -li.entry.c)}
			if at.hasHi && at.hi >= 1<<53 {
				propose(addc(neg(x), at.hi+li.entry.c))
			}
			for _, f := range lc.S0.facts {
				if coef(f, at) != 0 {
					propose(subst(f, m))
				}
			}
		}
		for _, n2 := range names {
			l2 := lc.ints[n2]
			if n2 == n || l2.lin || lc.reloaded[n] != lc.reloaded[n2] {
				continue
			}
			if lc.reloaded[n] && strings.TrimSuffix(n, "!len") != strings.TrimSuffix(n2, "!cap") && strings.TrimSuffix(n2, "!len") != strings.TrimSuffix(n, "!cap") {
				continue
			}
			y := atomLin(l2.atom)
			d := sub(sub(x, y), sub(li.entry, l2.entry))
			propose(d)
			propose(sub(y, x))
			if lc.e.relGhosts && strings.HasPrefix(n, ghosts) != strings.HasPrefix(n2, ghosts) && n < n2 { // one counts up what the other counts down
				d := sub(add(x, y), add(li.entry, l2.entry))
				propose(d)
				propose(neg(d))
			}
		}
		// relation with the iteration count
		propose(sub(sub(x, li.entry), atomLin(lc.kappa)))
		propose(sub(atomLin(lc.kappa), sub(x, li.entry)))
	}
	_ = back
	var cks []string
	for k := range lc.conds {
		cks = append(cks, k)
	}
	sort.Strings(cks)
	step := map[*Atom]Lin{lc.kappa: addc(atomLin(lc.kappa), 1)}
	for _, k := range cks {
		l := lc.conds[k]
		if !uses(l) {
			continue
		}
		propose(l)
		propose(addc(l, 1))
		if r, ok := unrounded(l); ok && uses(r) {
			propose(addc(r, 1))
		}
		if d := sub(l, subst(l, step)); d.isConst() && d.c > 1 {
			propose(addc(l, d.c))
		}
	}
}

// contentOnly: l is made of what memory held when the analysed code received it.
func contentOnly(l Lin) bool {
	for _, t := range l.t {
		if t.a.op != "sym" {
			return false
		}
		n := t.a.name
		n = strings.TrimPrefix(strings.TrimPrefix(n, "len:"), "cap:")
		if !strings.HasPrefix(n, "[]*") {
			return false
		}
	}
	return true
}

// unrounded replaces what rounding to a multiple and wrapping contribute to l: x+3-(x+3)%4 counts as x.
func unrounded(l Lin) (Lin, bool) {
	m := map[*Atom]Lin{}
	for _, t := range l.t {
		switch {
		case strings.HasPrefix(t.a.name, "wrap") && len(t.a.args) == 1 || strings.HasPrefix(t.a.op, "wrap") && len(t.a.args) == 1:
			m[t.a] = t.a.args[0]
		case t.a.op == "mod":
			m[t.a] = K(t.a.c - 1)
		}
	}
	if len(m) == 0 {
		return l, false
	}
	return subst(l, m), true
}

func (lc *loopCtx) entrySubst() map[*Atom]Lin {
	m := map[*Atom]Lin{lc.kappa: K(0)}
	for _, li := range lc.ints {
		if !li.lin {
			m[li.atom] = li.entry
		}
	}
	return m
}

// unrollLoop follows a loop exactly when its header decides every test and it ends within e.unroll iterations.
func (e *Engine) unrollLoop(fr *Frame, L *loop, x edge) (exits []edge, rets []Outcome, ok bool) {
	if e.unroll == 0 {
		return nil, nil, false
	}
	if _, isIf := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If); !isIf {
		return nil, nil, false
	}
	saveNonce := curNonce
	defer func() { curNonce = saveNonce }()
	try := func() (exits []edge, rets []Outcome, ok bool) {
		cur := []edge{{nil, L.head, x.st.clone()}}
		for i := 0; len(cur) > 0; i++ {
			var back []edge
			for n, y := range cur {
				curNonce = fmt.Sprintf("%s/%s.%p.u%d.%d", saveNonce, fr.ctx, L.head, i, n)
				succ, rt := e.execBlock(fr, L.head, nil, y.st, true)
				rets = append(rets, rt...)
				var inside []edge
				out := 0
				for _, s := range succ {
					if s.st.dead {
						continue
					}
					if L.blocks[s.to] {
						inside = append(inside, s)
					} else {
						exits = append(exits, s)
						out++
					}
				}
				if len(inside) > 0 && (out > 0 || i >= e.unroll) {
					return nil, nil, false
				}
				for _, s := range inside {
					if s.to == L.head {
						return nil, nil, false
					}
				}
				ex, rt2 := e.runRegion(fr, L, L.head, inside)
				rets = append(rets, rt2...)
				for _, z := range ex {
					if z.to == L.head {
						back = append(back, z)
					} else {
						exits = append(exits, z)
					}
				}
			}
			cur = e.mergeEdges(fr, L.head, back, e.maxPart)
		}
		return exits, rets, true
	}
	e.quiet++
	exits, rets, ok = try()
	e.quiet--
	if !ok || e.quiet > 0 {
		return
	}
	return try()
}

func (e *Engine) runLoop(fr *Frame, L *loop, x edge) ([]edge, []Outcome) {
	if !noGC {
		e.loopEnv(fr, L, x.st)
	}
	if exits, rets, ok := e.unrollLoop(fr, L, x); ok {
		return exits, rets
	}
	lc := &loopCtx{e: e, fr: fr, L: L, S0: x.st, ints: map[string]*loopInt{}, vals: map[string]Val{}, entV: map[string]Val{}, nn: map[string]int{},
		cells: map[cell]bool{}, objs: map[int]bool{}, teps: map[string]bool{}, esc: map[int]bool{}, conds: map[string]Lin{}, cands: map[string]*cand{}, dead: map[string]bool{}, mark: len(objList)}
	lc.atomMark = len(atomList)
	lc.kappa = sym(freshName("k:"+shortFn(fr.fn)), p64(0), p64(int64(1)<<53))
	saveNonce := curNonce
	lc.nonce = fmt.Sprintf("%s/%s.%p", saveNonce, fr.ctx, L.head)
	lc.deadL = map[string]Lin{}
	lc.fills, lc.fillDead = map[int]map[string]*fillProp{}, map[string]int{}
	lc.prev = e.warmTab[lc.nonce]
	lc.warm()
	e.warmTab[lc.nonce] = lc
	pass := func(record bool) (back []edge, exits []edge, rets []Outcome, head *State) {
		if !record {
			e.quiet++
			defer func() { e.quiet-- }()
			e.loopLogs = append(e.loopLogs, lc)
			defer func() { e.loopLogs = e.loopLogs[:len(e.loopLogs)-1] }()
		}
		curNonce = lc.nonce
		defer func() { curNonce = saveNonce }()
		h := lc.headState()
		head = h.clone()
		if h.dead {
			return
		}
		succ, rt := e.execBlock(fr, L.head, nil, h, true)
		rets = append(rets, rt...)
		var inside []edge
		for _, s := range succ {
			if s.st.dead {
				continue
			}
			if s.to == L.head {
				back = append(back, s)
			} else if L.blocks[s.to] {
				inside = append(inside, s)
			} else {
				exits = append(exits, s)
			}
		}
		ex, rt2 := e.runRegion(fr, L, L.head, inside)
		rets = append(rets, rt2...)
		for _, y := range ex {
			if y.to == L.head {
				back = append(back, y)
			} else {
				exits = append(exits, y)
			}
		}
		return
	}
	e.liveLoops = append(e.liveLoops, lc)
	defer func() { e.liveLoops = e.liveLoops[:len(e.liveLoops)-1] }()
	const maxRounds = 24
	stable, dropped := false, false
	for lc.round = 0; lc.round < maxRounds; lc.round++ {
		lc.changed = false
		back, exits, rets, head := pass(false)
		var bs []*State
		for _, b := range back {
			if b.st.dead {
				continue
			}
			e.applyPhis(fr, L.head, b.from, b.st)
			if !noGC {
				e.loopEnv(fr, L, b.st)
			}
			bs = append(bs, b.st)
		}
		for _, b := range bs {
			n := len(lc.dead)
			lc.compare(head, b)
			if len(lc.dead) > n {
				dropped = true
			}
		}
		lc.updateFills(head, bs)
		if !lc.changed && len(bs) > 0 && !(e.quiet > 0 && lc.prev != nil && !dropped) {
			lc.propose()
		}
		if traceLoops {
			fmt.Printf("%8.2fs %sloop %s b%d round %d: states back=%d exits=%d ints=%d cells=%d vals=%d cands=%d dead=%d facts=%d heap=%d changed=%v\n", time.Since(startTime).Seconds(), strings.Repeat(" ", len(e.loopLogs)), fr.stack(), L.head.Index, lc.round, len(bs), len(exits), len(lc.ints), len(lc.cells), len(lc.vals), len(lc.cands), len(lc.dead), len(head.facts), len(head.heap), lc.changed)
			if os.Getenv("WR_TRACE") == "cands" {
				for k := range lc.cands {
					fmt.Println("        cand", k)
				}
			}
			if os.Getenv("WR_TRACE") == "facts" {
				for _, f := range head.facts {
					fmt.Println("        ", f)
				}
			}
		}
		if !lc.changed {
			stable = true
			if e.quiet > 0 {
				// nothing is observed in this mode: the last pass already is the result
				return exits, rets
			}
			break
		}
	}
	if !stable {
		e.problem("loop in %s (%s) did not stabilise", shortFn(fr.fn), e.P.pos(L.head.Instrs[len(L.head.Instrs)-1]))
		e.emit(&Event{Kind: "unbounded", Fr: fr, St: x.st, In: L.head.Instrs[0], Note: "loop did not stabilise"})
		return nil, nil
	}
	// The stable head state is an invariant; one more pass observes the events and yields the exits.
	saveLogs := e.loopLogs
	back, exits, rets, head := pass(e.quiet == 0)
	e.loopLogs = saveLogs
	if e.quiet == 0 {
		e.rank(lc, head, back)
	}
	if os.Getenv("WR_LOOPS") != "" && e.quiet == 0 {
		fmt.Printf("LOOP %s b%d rounds=%d ints=%d cands=%d backs=%d\n", fr.stack(), L.head.Index, lc.round, len(lc.ints), len(lc.cands), len(back))
		for n, li := range lc.ints {
			if li.lin {
				fmt.Printf("   %s = %s + %d k\n", n, li.entry, li.delta)
			} else {
				fmt.Printf("   %s fresh %s entry %s\n", n, li.atom, li.entry)
			}
		}
		for _, c := range lc.cands {
			fmt.Printf("   inv %s >= 0\n", c.l)
		}
		for n, v := range lc.vals {
			fmt.Printf("   val %s -> %s nn=%d\n", n, v.Key(), lc.nn[n])
		}
	}
	return exits, rets
}

// loopEnv forgets what an iteration leaves behind unused.
func (e *Engine) loopEnv(fr *Frame, L *loop, st *State) {
	live := e.liveIn(fr.fn)[L.head]
	n := map[ssa.Value]Val{}
	for k, v := range st.env {
		if live[k] || isPhiOf(k, L.head) {
			n[k] = v
		}
	}
	st.env, st.envSh = n, false
	e.collectGarbage(st, fr.ctx)
}

func (lc *loopCtx) compare(head, b *State) {
	binds := map[*Atom]Lin{lc.kappa: addc(atomLin(lc.kappa), 1)}
	for _, p := range phisOf(lc.L.head) {
		lc.check("v"+p.Name(), lc.S0.env[p], b.env[p], p.Type(), b, binds)
	}
	// heap
	ghost := lc.e.ghost
	seen := map[cell]bool{}
	var cs []cell
	for c := range b.heap {
		if lc.old(c.o) {
			cs = append(cs, c)
			seen[c] = true
		}
	}
	for c := range head.heap {
		if !seen[c] && lc.old(c.o) {
			cs = append(cs, c)
		}
	}
	sortCells(cs)
	loopAtoms := map[*Atom]Lin{lc.kappa: K(0)}
	for _, li := range lc.ints {
		if !li.lin {
			loopAtoms[li.atom] = K(0)
		}
	}
	for _, c := range cs {
		o := objList[c.o]
		bv, okB := b.heap[c]
		hv, okH := head.heap[c]
		if lc.objs[c.o] {
			if okH && lc.keepCell(c) && (!okB || bv.Key() != hv.Key()) {
				if lc.unkept == nil {
					lc.unkept = map[cell]bool{}
				}
				lc.unkept[c] = true
				lc.changed = true
			}
			continue
		}
		if okB && okH && bv.Key() == hv.Key() {
			if !lc.cells[c] {
				continue
			}
		}
		if o == ghost {
			if !okB {
				continue
			}
			if !lc.cells[c] {
				ev, ok := lc.S0.heap[c]
				if !ok {
					ev = ghostZero(bv)
				}
				lc.entV[cellName(c)] = ev
				lc.cells[c] = true
				lc.changed = true
			}
			lc.check(cellName(c), lc.entryCell(c), bv, types.Typ[types.Int], b, binds)
			continue
		}
		// cells at loop-varying indices, or created at unknown indices in the loop: content becomes unknown
		varying := false
		for _, e := range pathTab[c.p] {
			if e.field < 0 && !e.idx.isConst() && (!okH || linDepends(e.idx, loopAtoms)) {
				varying = true
			}
		}
		if varying {
			if okB && (!okH || bv.Key() != hv.Key()) {
				lc.objs[c.o] = true
				lc.changed = true
			}
			continue
		}
		t := typeAt(o, c.p)
		if !okB {
			if b.epoch[o.id] != head.epoch[o.id] {
				continue // handled below
			}
			if t == types.Typ[types.Invalid] {
				lc.objs[c.o] = true
				lc.changed = true
				continue
			}
			bv = b.load(o, c.p, t)
		}
		if !okH {
			if o.kind == "iter" || t == types.Typ[types.Invalid] {
				if o.kind == "iter" {
					continue
				}
				lc.objs[c.o] = true
				lc.changed = true
				continue
			}
			hv = head.load(o, c.p, t)
			if hv.Key() == bv.Key() {
				continue
			}
		}
		if !lc.cells[c] {
			lc.cells[c] = true
			lc.entV[cellName(c)] = lc.entryCell(c)
			lc.changed = true
		}
		lc.check(cellName(c), lc.entryCell(c), bv, t, b, binds)
	}
	for id, ep := range b.epoch {
		if lc.old(id) && head.epoch[id] != ep && !lc.objs[id] {
			lc.objs[id] = true
			lc.changed = true
		}
	}
	for k, ep := range b.tepoch {
		if head.tepoch[k] != ep && !lc.teps[k] {
			lc.teps[k] = true
			lc.changed = true
		}
	}
	for o := range b.escaped {
		if lc.old(o) && !head.escaped[o] && !lc.esc[o] {
			lc.esc[o] = true
			lc.changed = true
		}
	}
	// cells of storage that is unknown as a whole need no generalisation of their own
	for id := range lc.objs {
		pre := fmt.Sprintf("c%d", id)
		for n, li := range lc.ints {
			if rest, ok := strings.CutPrefix(n, pre); ok && (rest == "" || rest[0] < '0' || rest[0] > '9') {
				delete(lc.ints, n)
				if !li.lin {
					for k, c := range lc.cands {
						if linDepends(c.l, map[*Atom]Lin{li.atom: K(0)}) {
							delete(lc.cands, k)
						}
					}
				}
			}
		}
		for c := range lc.cells {
			if c.o == id {
				delete(lc.cells, c)
			}
		}
	}
	// integers that every iteration replaces by the contents of memory it received
	if lc.reloaded == nil {
		lc.reloaded = map[string]bool{}
	}
	for n, li := range lc.ints {
		if li.lin {
			continue
		}
		was, seen := lc.reloaded[n]
		v, ok := binds[li.atom]
		if !ok {
			continue
		}
		lc.reloaded[n] = (was || !seen) && len(v.t) > 0 && !linDepends(v, loopAtoms) && contentOnly(v)
	}
	// invariants
	var ks []string
	for k := range lc.cands {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	valid := map[*Atom]bool{lc.kappa: true}
	for _, li := range lc.ints {
		if !li.lin {
			valid[li.atom] = true
		}
	}
	vac := lc.pointees(head, b, binds)
	for _, k := range ks {
		c := lc.cands[k]
		if c.born == lc.round+1 || linDepends(c.l, vac) {
			continue // speaks of what a pointer points to, and the pointer is nil here
		}
		if !b.prove(subst(c.l, binds)) {
			if os.Getenv("WR_TRACE") == "dead" {
				fmt.Println("    dies:", c.l, " at back edge as ", subst(c.l, binds))
			}
			delete(lc.cands, k)
			lc.dead[k] = true
			lc.deadL[k] = c.l
			lc.changed = true
		}
	}
}

// pointees relates what generalised pointers point to at the head with what they point to at a back edge: it binds the head's symbols of
// the integer fields, returns those of pointers that are nil at this back edge, and proposes what is known here as an invariant.
func (lc *loopCtx) pointees(head, b *State, binds map[*Atom]Lin) map[*Atom]Lin {
	vac := map[*Atom]Lin{}
	one := func(name string, entry, bv Val) {
		r, ok := lc.vals[name].(PtrV)
		if !ok || r.Obj.kind != "sym" || bv == nil {
			return
		}
		t := typeAt(r.Obj, r.Path)
		if t == nil {
			return
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		isNil := b.truth(nilCond(bv))
		q, isPtr := bv.(PtrV)
		to := map[*Atom]*Atom{}
		mine := map[*Atom]bool{}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, _, _, _, isInt := intRange(ft); !isInt {
				continue
			}
			h, ok := head.load(r.Obj, pathField(r.Path, i), ft).(IntV)
			if !ok || len(h.L.t) != 1 || h.L.t[0].k != 1 || h.L.c != 0 {
				continue
			}
			ha := h.L.t[0].a
			if isNil == 1 {
				vac[ha] = K(0)
				continue
			}
			if !isPtr {
				continue
			}
			v, ok := b.load(q.Obj, pathField(q.Path, i), ft).(IntV)
			if !ok {
				continue
			}
			binds[ha] = v.L
			mine[ha] = true
			if len(v.L.t) == 1 && v.L.t[0].k == 1 && v.L.c == 0 && v.L.t[0].a != ha {
				to[v.L.t[0].a] = ha
			}
		}
		if len(to) == 0 || lc.S0.truth(nilCond(entry)) != 1 {
			return
		}
		m := map[*Atom]Lin{}
		for a, h := range to {
			m[a] = atomLin(h)
		}
		for _, f := range b.facts {
			if !linDepends(f, m) {
				continue
			}
			l := tighten(subst(f, m))
			k := l.key()
			if l.isConst() || lc.dead[k] || lc.cands[k] != nil || !leavesKnown(l, mine, lc.atomMark) {
				continue
			}
			lc.cands[k] = &cand{l: l, born: lc.round + 1}
			lc.changed = true
		}
	}
	for _, p := range phisOf(lc.L.head) {
		one("v"+p.Name(), lc.S0.env[p], b.env[p])
	}
	for c := range lc.cells {
		if !lc.objs[c.o] && objList[c.o] != lc.e.ghost {
			one(cellName(c), lc.entryCell(c), b.heap[c])
		}
	}
	return vac
}

// rank looks for a measure: an expression bounded below by a condition that held in the iteration and that
// decreases by at least one from the head to the back edge, on every back edge.
func (e *Engine) rank(lc *loopCtx, head *State, back []edge) {
	pos := e.P.posBlock(lc.L.head)
	key := shortFn(lc.fr.fn) + "|" + pos
	rep := e.loops[key]
	if rep == nil {
		rep = &loopReport{Fn: shortFn(lc.fr.fn), Pos: pos, Ranked: true, Stack: lc.fr.stack(), In: lc.L.head.Instrs[0]}
		e.loops[key] = rep
	}
	rep.Contexts++
	if rangesOverMap(lc.L) {
		rep.Measure = "entries left in the range"
		return
	}
	var bs []*State
	for _, b := range back {
		if !b.st.dead {
			e.applyPhis(lc.fr, lc.L.head, b.from, b.st)
			bs = append(bs, b.st)
		}
	}
	if len(bs) == 0 {
		return
	}
	var bindList []map[*Atom]Lin
	for _, b := range bs {
		m := map[*Atom]Lin{lc.kappa: addc(atomLin(lc.kappa), 1)}
		save := lc.changed
		for _, p := range phisOf(lc.L.head) {
			lc.check("v"+p.Name(), lc.S0.env[p], b.env[p], p.Type(), b, m)
		}
		for c := range lc.cells {
			if bv, ok := b.heap[c]; ok && !lc.objs[c.o] {
				lc.check(cellName(c), lc.entryCell(c), bv, typeAt(objList[c.o], c.p), b, m)
			}
		}
		lc.changed = save
		bindList = append(bindList, m)
	}
	var cks []string
	for k := range lc.conds {
		cks = append(cks, k)
	}
	sort.Strings(cks)
	for _, k := range cks {
		l := lc.conds[k]
		ok := true
		for i, b := range bs {
			if !b.prove(l) {
				ok = false
				break
			}
			nx := subst(l, bindList[i])
			if !b.prove(addc(sub(l, nx), -1)) {
				ok = false
				break
			}
		}
		if ok {
			if rep.Measure == "" {
				rep.Measure = l.String()
			}
			return
		}
	}
	if os.Getenv("WR_RANK") != "" {
		fmt.Println("unranked", lc.fr.stack(), "conds", lc.conds)
		for i, b := range bs {
			for _, k := range cks {
				l := lc.conds[k]
				nx := subst(l, bindList[i])
				fmt.Println("   ", l, b.prove(l), "NEXT", nx, b.prove(addc(sub(l, nx), -1)))
			}
			fmt.Println(dumpFacts(b))
		}
	}
	rep.Ranked = false
	rep.Stack = lc.fr.stack()
}

// rangesOverMap: the loop's head takes the next element of a range over a map or string that began outside the loop.
func rangesOverMap(L *loop) bool {
	for _, in := range L.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && !L.blocks[r.Block()] {
				return true
			}
		}
	}
	return false
}

// leavesKnown reports whether every symbol in l existed before the loop or is one of the loop's own.
func leavesKnown(l Lin, own map[*Atom]bool, mark int) bool {
	for _, t := range l.t {
		if own[t.a] {
			continue
		}
		if len(t.a.args) > 0 {
			for _, x := range t.a.args {
				if !leavesKnown(x, own, mark) {
					return false
				}
			}
			continue
		}
		if t.a.id >= mark && t.a.op == "sym" {
			return false
		}
	}
	return true
}
