package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Garbage collection of abstract states: cells of allocations nothing refers to any more are dropped, and symbols that
// no live value mentions are eliminated from the facts (exactly, by Fourier-Motzkin steps that do not grow the system).
// Dropping a fact only loses precision, never soundness.

type gcRoots struct {
	objs  map[int]bool
	toks  map[string]bool
	queue []*Obj
	atoms map[*Atom]bool
}

func (g *gcRoots) lin(l Lin) {
	for _, t := range l.t {
		g.atom(t.a)
	}
}

func (g *gcRoots) atom(a *Atom) {
	if g.atoms[a] {
		return
	}
	g.atoms[a] = true
	g.name(a.name)
	for _, x := range a.args {
		g.lin(x)
	}
}

func (g *gcRoots) obj(o *Obj) {
	if o == nil || g.objs[o.id] {
		return
	}
	g.objs[o.id] = true
	g.name(o.name)
	g.name(o.content)
	g.queue = append(g.queue, o)
}

var tokMemo = map[string][]string{}

// tokens lists the unique marks inside a name.
func tokens(n string) []string {
	if strings.IndexByte(n, '#') < 0 {
		return nil
	}
	if t, ok := tokMemo[n]; ok {
		return t
	}
	var out []string
	for i := 0; i < len(n); i++ {
		if n[i] != '#' {
			continue
		}
		j := i + 1
		for j < len(n) && n[j] >= '0' && n[j] <= '9' {
			j++
		}
		out = append(out, n[i:j])
		i = j - 1
	}
	tokMemo[n] = out
	return out
}

// name records that a live value carries this name.
func (g *gcRoots) name(n string) {
	for _, t := range tokens(n) {
		g.toks[t] = true
	}
}

// named reports whether a live value could still lead to something with this name.
func (g *gcRoots) named(n string) bool {
	ts := tokens(n)
	if len(ts) == 0 {
		return true
	}
	for _, t := range ts {
		if g.toks[t] {
			return true
		}
	}
	return false
}

func (g *gcRoots) path(p string) {
	if p == "" {
		return
	}
	for _, e := range pathTab[p] {
		if e.field < 0 {
			g.lin(e.idx)
		}
	}
}

func (g *gcRoots) val(v Val) {
	switch x := v.(type) {
	case IntV:
		g.lin(x.L)
	case IfaceSym:
		g.name(x.Name)
	case FuncSym:
		g.name(x.Name)
	case OpqV:
		g.name(x.Name)
	case BoolV:
		g.lin(x.L)
		g.name(x.At)
		if l, ok := nilLen[x.At]; ok {
			g.lin(l)
		}
		if q, ok := streqTab[x.At]; ok {
			g.lin(q.a.Len)
			g.lin(q.b.Len)
		}
	case StrV:
		g.lin(x.Len)
		g.name(x.Sym)
	case PtrV:
		g.obj(x.Obj)
		g.path(x.Path)
	case SliceV:
		g.obj(x.Obj)
		g.path(x.Path)
		g.lin(x.Off)
		g.lin(x.Len)
		g.lin(x.Cap)
		g.name(x.NilAtom)
		if l, ok := nilLen[x.NilAtom]; ok {
			g.lin(l)
		}
	case MapV:
		g.obj(x.Obj)
	case IfaceV:
		g.val(x.V)
	case FuncV:
		for _, b := range x.Bind {
			g.val(b)
		}
	case StructV:
		for _, f := range x.F {
			g.val(f)
		}
	case ArrV:
		for _, f := range x.E {
			g.val(f)
		}
	case TupleV:
		for _, f := range x {
			g.val(f)
		}
	case IterV:
		g.obj(x.Obj)
		g.obj(iterLen[x.Obj.id])
		g.val(x.X)
	}
}

// collectGarbage cleans st; extra are live values besides those of the suspended callers. Only allocations made below the
// call context ctx are dropped.
func (e *Engine) collectGarbage(st *State, ctx string, extra ...Val) {
	g, byObj := e.liveness(st, ctx, extra...)
	for o, cs := range byObj {
		if !g.objs[o] {
			for _, c := range cs {
				st.delCell(c)
			}
		}
	}
	for o := range st.epoch {
		ob := objList[o]
		if ob.kind == "alloc" && ob.local && !g.objs[o] && ob.ctx != "" && strings.HasPrefix(ob.ctx, ctx) {
			st.epOwn()
			delete(st.epoch, o)
		}
	}
	// symbols
	dead := map[*Atom]bool{}
	for _, f := range st.facts {
		for _, t := range f.t {
			a := t.a
			if g.atoms[a] || dead[a] {
				continue
			}
			if a.op == "sym" && strings.HasPrefix(a.name, "*") && g.named(a.name) {
				continue // what a live pointer points to
			}
			if isFreshAtom(a) && (e.keepSym == "" || !strings.HasPrefix(a.name, e.keepSym)) {
				dead[a] = true
			}
		}
	}
	if len(dead) == 0 {
		return
	}
	st.project(dead)
}

func (e *Engine) liveness(st *State, ctx string, extra ...Val) (*gcRoots, map[int][]cell) {
	g := &gcRoots{objs: map[int]bool{}, atoms: map[*Atom]bool{}, toks: map[string]bool{}}
	for _, v := range extra {
		g.val(v)
	}
	for _, v := range st.env {
		g.val(v)
	}
	for _, env := range e.envStack {
		for _, v := range env {
			g.val(v)
		}
	}
	for _, lc := range e.liveLoops {
		for _, c := range lc.cands {
			g.lin(c.l) // to be shown again at the end of the iteration
		}
	}
	defs := func(ds []deferred) {
		for _, d := range ds {
			for _, v := range d.args {
				g.val(v)
			}
			if d.fn != nil {
				g.val(d.fn)
			}
		}
	}
	defs(st.defers)
	for _, ds := range e.defStack {
		defs(ds)
	}
	for _, ep := range st.epoch {
		g.name(ep)
	}
	for _, ep := range st.tepoch {
		g.name(ep)
	}
	for o := range st.escaped {
		g.obj(objList[o])
	}
	byObj := map[int][]cell{}
	for c := range st.heap {
		byObj[c.o] = append(byObj[c.o], c)
	}
	var ids []int
	for o := range byObj {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	var later []*Obj
	for _, o := range ids {
		ob := objList[o]
		switch {
		case ob.kind == "alloc" && ob.local && ob != e.ghost && ob.ctx != "" && strings.HasPrefix(ob.ctx, ctx):
		case ob.kind == "sym":
			later = append(later, ob)
		default:
			g.obj(ob)
		}
	}
	drain := func() {
		for len(g.queue) > 0 {
			o := g.queue[len(g.queue)-1]
			g.queue = g.queue[:len(g.queue)-1]
			for _, c := range byObj[o.id] {
				g.path(c.p)
				g.val(st.heap[c])
			}
			for _, l := range o.roots {
				g.lin(l)
			}
			if fi := fillTab[fillKey(o.id, st.epoch[o.id])]; fi != nil {
				g.atom(fi.kappa)
				for _, p := range fi.props {
					g.lin(p.c0)
				}
			}
		}
	}
	drain()
	for again := true; again; {
		again = false
		for _, ob := range later {
			if !g.objs[ob.id] && g.named(ob.name) {
				g.obj(ob)
				drain()
				again = true
			}
		}
	}
	return g, byObj
}

// isFreshAtom: the symbol has a unique name, so it can only be mentioned again through a live value.
func isFreshAtom(a *Atom) bool {
	if a.op == "sym" {
		return strings.IndexByte(a.name, '#') >= 0
	}
	for _, x := range a.args {
		for _, t := range x.t {
			if isFreshAtom(t.a) {
				return true
			}
		}
	}
	return false
}

// project eliminates the symbols where that does not grow the system.
func (st *State) project(dead map[*Atom]bool) {
	var keep, work []Lin
	for _, f := range st.facts {
		d := false
		for _, t := range f.t {
			if dead[t.a] {
				d = true
			}
		}
		if d {
			work = append(work, f)
		} else {
			keep = append(keep, f)
		}
	}
	n0 := len(work)
	for a := range dead {
		if a.hasLo {
			work = append(work, addc(atomLin(a), -a.lo))
		}
		if a.hasHi {
			work = append(work, addc(neg(atomLin(a)), a.hi))
		}
	}
	for {
		var best *Atom
		bestCost := 0
		for a := range dead {
			p, n := 0, 0
			for _, l := range work {
				if k := coef(l, a); k > 0 {
					p++
				} else if k < 0 {
					n++
				}
			}
			if p+n == 0 {
				delete(dead, a)
				continue
			}
			cost := p*n - p - n
			if best == nil || cost < bestCost || cost == bestCost && a.id < best.id {
				best, bestCost = a, cost
			}
		}
		if best == nil || bestCost > 0 {
			break
		}
		delete(dead, best)
		seen := map[string]bool{}
		var next, pos, ngs []Lin
		put := func(l Lin) {
			l = tighten(l)
			if l.isConst() {
				if l.c < 0 {
					st.dead = true
				}
				return
			}
			if lo, _, ok, _ := rng(l); ok && lo >= 0 && len(l.t) > 1 {
				return
			}
			if k := l.key(); !seen[k] {
				seen[k] = true
				next = append(next, l)
			}
		}
		for _, l := range work {
			switch k := coef(l, best); {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				ngs = append(ngs, l)
			default:
				put(l)
			}
		}
		for _, p := range pos {
			for _, n := range ngs {
				kp, kn := coef(p, best), -coef(n, best)
				d := gcd(kp, kn)
				if s, ok := combine(kn/d, p, kp/d, n); ok {
					put(s)
				}
			}
		}
		work = next
		if st.dead {
			return
		}
	}
	_ = n0
	st.facts, st.factSet, st.fsSh, st.proveMem = nil, map[string]bool{}, false, nil
	dq := st.diseq
	st.diseq = nil
	for _, f := range keep {
		st.addFact(f)
	}
	for _, f := range work {
		if len(f.t) == 1 && rangeOnly(f) {
			continue
		}
		st.addFact(f)
	}
	for _, d := range dq {
		ok := true
		for _, t := range d.t {
			if isFreshAtom(t.a) && dead[t.a] {
				ok = false
			}
		}
		if ok {
			st.diseq = append(st.diseq, d)
		}
	}
}

// rangeOnly: the fact is just the declared range of its symbol.
func rangeOnly(f Lin) bool {
	lo, _, ok, _ := rng(f)
	return ok && lo >= 0
}

var _ ssa.Value
