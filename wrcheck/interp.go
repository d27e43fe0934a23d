package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const mapKeyBase = 100000

// Frame is one inlined activation.
type Frame struct {
	fn     *ssa.Function
	parent *Frame
	call   ssa.Instruction
	ctx    string
	depth  int
	seen   map[*ssa.Function]int
}

// Outcome is one abstract way a call can end.
type Outcome struct {
	st  *State
	ret Val // TupleV for several results, nil for none
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// Event is what monitors observe.
type Event struct {
	Kind  string // oblige, call, ret, store, alloc, mapupdate, delete, convert, slice, ...
	E     *Engine
	Fr    *Frame
	St    *State
	In    ssa.Instruction
	Rule  string
	OK    bool
	Note  string
	Name  string // callee of call events
	Args  []Val
	Ret   Val
	Fail  bool // the modelled external operation fails
	Obj   *Obj
	Path  string
	Val   Val
	L     Lin
	Elem  types.Type
	After *State
	Fn    *ssa.Function // of enter events
}

type Model func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome

type Engine struct {
	P                *Program
	quiet            int
	mons             []func(*Event)
	keepSym          string         // facts about symbols whose name begins like this are never dropped
	gmons            []func(*Event) // monitors that keep ghost state: these run while loops are being generalised as well
	mute             bool           // obligations are not to be recorded
	models           map[string]Model
	modular          map[*ssa.Function]Model
	loopLogs         []*loopCtx
	maxPart          int
	forests          map[*ssa.Function]*forest
	live             map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	problems         map[string]bool
	ghost            *Obj
	gfields          []string
	glob             map[string]Val
	onPresent        func(st *State, m Val, mt *types.Map, k, v Val) // the value of an entry looked up and present
	invNonNil        func(t types.Type) bool                         // map element types whose values are never nil
	onField          func(st *State, p PtrV, v Val)                  // called on every load
	onSym            func(name string, t types.Type, v Val)
	blocks           map[*ssa.BasicBlock]bool
	funcs            map[*ssa.Function]bool
	nstates          int
	loops            map[string]*loopReport
	steps            int
	warmTab          map[string]*loopCtx
	envStack         []map[ssa.Value]Val // values of the suspended callers
	defStack         [][]deferred
	ghostKey         []string
	deadline         func() bool
	onConv           func(o *Obj, s StrV)
	onKnown          func(st *State, mt *types.Map, v Val) // the value of an entry stored before and looked up
	keysKnown        bool                                  // lookups by keys gathered from the map find an entry
	onRange          func(st *State, m Val, mt *types.Map, k, v Val)
	typeAssertNonNil bool
	trackSize        bool
	hints            []Lin          // bounds worth trying for every value that merging or looping makes unknown
	memFault         bool           // reading past the end of a memory reader counts as missing input
	init             map[string]Val // initial ghosts
	unmodelled       map[string]bool
	partDyn          func(t types.Type) bool // keep paths apart that know different dynamic types
	nulRange         bool                    // ranging over a string decides whether it contains NUL
	liveLoops        []*loopCtx              // the loops being analysed, outermost first
	noWrap64         bool                    // signed 64-bit sums are taken not to wrap
	nonNeg32         bool                    // ints converted to uint32 are taken not to be negative
	minMax           bool                    // joins of the two sides of a comparison are named after them
	relGhosts        bool                    // ghost counters are related to the program's variables at joins and in loops
	noMerge          bool                    // keep every path apart
	initGlobals      bool                    // package-level tables start with the values their declarations give them
	unroll           int                     // loops whose header decides every test are followed exactly up to this many iterations
}

var noGC = os.Getenv("WR_NOGC") != ""

func NewEngine(p *Program) *Engine {
	e := &Engine{P: p, maxPart: 6, forests: map[*ssa.Function]*forest{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		problems: map[string]bool{}, blocks: map[*ssa.BasicBlock]bool{}, funcs: map[*ssa.Function]bool{}, loops: map[string]*loopReport{},
		modular: map[*ssa.Function]Model{}, glob: map[string]Val{}, warmTab: map[string]*loopCtx{}, unmodelled: map[string]bool{}}
	e.models = baseModels()
	e.ghost = newObj("alloc", "ghost", types.Typ[types.Int])
	return e
}

func (e *Engine) emit(ev *Event) {
	ev.E = e
	if len(e.gmons) > 0 {
		old := e.mute
		e.mute = e.quiet > 0
		for _, m := range e.gmons {
			m(ev)
		}
		e.mute = old
	}
	if e.quiet > 0 {
		return
	}
	for _, m := range e.mons {
		m(ev)
	}
}

func (e *Engine) problem(format string, a ...interface{}) {
	e.problems[fmt.Sprintf(format, a...)] = true
}

// ghost state lives in cells of a pseudo object, so that joins and loops treat it like memory.
func (e *Engine) gpath(name string) string {
	for i, n := range e.gfields {
		if n == name {
			return pathField("", i)
		}
	}
	e.gfields = append(e.gfields, name)
	return pathField("", len(e.gfields)-1)
}

func (e *Engine) gget(st *State, name string) (Val, bool) {
	v, ok := st.heap[cell{e.ghost.id, e.gpath(name)}]
	return v, ok
}

func (e *Engine) gset(st *State, name string, v Val) {
	st.setCell(cell{e.ghost.id, e.gpath(name)}, v)
}

func (e *Engine) gint(st *State, name string) Lin {
	if v, ok := e.gget(st, name); ok {
		if i, ok := v.(IntV); ok {
			return i.L
		}
	}
	return K(0)
}

func (e *Engine) gflag(st *State, name string) bool {
	v, ok := e.gget(st, name)
	if !ok {
		return false
	}
	b, ok := v.(BoolV)
	return ok && b.op == "const" && b.B
}

func (e *Engine) oblige(fr *Frame, st *State, in ssa.Instruction, rule string, cond BoolV, note string) {
	ok := st.truth(cond) == 1
	if e.quiet == 0 {
		if !ok && os.Getenv("WR_DEBUG") != "" {
			note += " facts=" + dumpFacts(st)
		}
		e.emit(&Event{Kind: "oblige", Fr: fr, St: st, In: in, Rule: rule, OK: ok, Note: note})
	}
	st.assume(cond)
}

func dumpFacts(st *State) string {
	var s []string
	for _, f := range st.facts {
		s = append(s, f.String()+">=0")
	}
	for k, v := range st.bools {
		s = append(s, fmt.Sprintf("%s=%v", k, v))
	}
	return strings.Join(s, "; ")
}

func (fr *Frame) stack() string {
	var s []string
	for f := fr; f != nil; f = f.parent {
		s = append([]string{shortFn(f.fn)}, s...)
	}
	return strings.Join(s, " > ")
}

func shortFn(f *ssa.Function) string {
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, "github.com/tc-hib/winres/version", "version")
	return strings.ReplaceAll(n, "github.com/tc-hib/winres", "winres")
}

// ---- calls ----

func (e *Engine) callFn(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if m := e.modular[fn]; m != nil {
		return m(e, fr, st, in, args, fn.Signature)
	}
	if fn.Blocks == nil {
		return e.external(fr, st, in, fn.String(), args, fn.Signature)
	}
	nf := &Frame{fn: fn, parent: fr, call: in, seen: map[*ssa.Function]int{}}
	if fr != nil {
		nf.depth = fr.depth + 1
		for k, v := range fr.seen {
			nf.seen[k] = v
		}
		nf.ctx = fr.ctx + "/" + e.P.pos(in)
	}
	nf.seen[fn]++
	if fr != nil && in != nil {
		e.emit(&Event{Kind: "enter", Fr: fr, St: st, In: in, Fn: fn, Args: args})
	}
	if nf.depth > 40 || nf.seen[fn] > 7 {
		e.problem("recursion of %s is not bounded by the analysis", shortFn(fn))
		e.emit(&Event{Kind: "unbounded", Fr: fr, St: st, In: in, Note: "recursion of " + shortFn(fn)})
		return nil
	}
	if e.quiet == 0 {
		e.funcs[fn] = true
	}
	saveEnv, saveDef := st.env, st.defers
	saveSh := true
	st.env, st.envSh, st.defers = map[ssa.Value]Val{}, false, nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			st.env[p] = bind[i]
		}
	}
	e.envStack, e.defStack = append(e.envStack, saveEnv), append(e.defStack, saveDef)
	_, rets := e.runRegion(nf, nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], st}})
	if !noGC {
		for i := range rets {
			if !rets[i].st.dead {
				rets[i].st.env, rets[i].st.envSh, rets[i].st.defers = map[ssa.Value]Val{}, false, nil
				e.collectGarbage(rets[i].st, nf.ctx, rets[i].ret)
			}
		}
	}
	rets = e.mergeOutcomes(nf, rets)
	e.envStack, e.defStack = e.envStack[:len(e.envStack)-1], e.defStack[:len(e.defStack)-1]
	for i := range rets {
		rets[i].st.env, rets[i].st.envSh, rets[i].st.defers = saveEnv, saveSh, saveDef
	}
	return rets
}

// ---- regions ----

func (e *Engine) runRegion(fr *Frame, L *loop, start *ssa.BasicBlock, init []edge) (exits []edge, rets []Outcome) {
	f := e.forest(fr.fn)
	pending := map[*ssa.BasicBlock][]edge{}
	if L == nil {
		pending[start] = init
	}
	// L != nil: init are edges already entering blocks of the loop (after the header was executed by the caller)
	var order []*ssa.BasicBlock
	for _, b := range f.rpo {
		if L == nil || L.blocks[b] {
			order = append(order, b)
		}
	}
	if L != nil {
		for _, x := range init {
			pending[x.to] = append(pending[x.to], x)
		}
	}
	push := func(x edge) {
		if x.st.dead {
			return
		}
		if L != nil && (!L.blocks[x.to] || x.to == L.head) {
			exits = append(exits, x)
			return
		}
		pending[x.to] = append(pending[x.to], x)
	}
	for _, b := range order {
		if L != nil && b == L.head {
			continue
		}
		in := pending[b]
		if len(in) == 0 {
			continue
		}
		delete(pending, b)
		inner := f.headOf[b]
		if inner != nil && inner != L {
			sts := e.mergeEdges(fr, b, in, 1)
			for _, x := range sts {
				ex, rt := e.runLoop(fr, inner, x)
				for _, y := range ex {
					push(y)
				}
				rets = append(rets, rt...)
			}
			continue
		}
		for _, x := range e.mergeEdges(fr, b, in, e.maxPart) {
			succ, rt := e.execBlock(fr, b, x.from, x.st, false)
			for _, y := range succ {
				push(y)
			}
			rets = append(rets, rt...)
		}
	}
	if len(pending) > 0 {
		for b := range pending {
			e.problem("irreducible control flow in %s (block %d)", shortFn(fr.fn), b.Index)
		}
	}
	return
}

// mergeEdges applies the phi nodes and merges states that agree on everything that matters at b.
// The returned edges have from == nil: phis are already resolved.
func (e *Engine) mergeEdges(fr *Frame, b *ssa.BasicBlock, in []edge, limit int) []edge {
	live := e.liveIn(fr.fn)[b]
	isHead := e.forest(fr.fn).headOf[b] != nil
	var sts []*State
	for _, x := range in {
		if x.st.dead {
			continue
		}
		if x.from != nil {
			e.applyPhis(fr, b, x.from, x.st)
		}
		// forget dead values
		drop := false
		for k := range x.st.env {
			if !live[k] && !isPhiOf(k, b) {
				drop = true
				break
			}
		}
		if drop {
			n := map[ssa.Value]Val{}
			for k, v := range x.st.env {
				if live[k] || isPhiOf(k, b) {
					n[k] = v
				}
			}
			x.st.env, x.st.envSh = n, false
		}
		sts = append(sts, x.st)
	}
	_ = isHead
	sts = e.mergeStates(fr, sts, limit, fmt.Sprintf("%s.b%d", shortFn(fr.fn), b.Index))
	var out []edge
	for _, s := range sts {
		out = append(out, edge{nil, b, s})
	}
	return out
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

func (e *Engine) applyPhis(fr *Frame, b, from *ssa.BasicBlock, st *State) {
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	var ps []*ssa.Phi
	var vs []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, e.val(fr, st, p.Edges[idx]))
	}
	for i, p := range ps {
		st.setEnv(p, vs[i])
	}
}

// ---- block execution ----

func (e *Engine) execBlock(fr *Frame, b *ssa.BasicBlock, from *ssa.BasicBlock, st *State, _ bool) (succ []edge, rets []Outcome) {
	if from != nil {
		e.applyPhis(fr, b, from, st)
	}
	if e.quiet == 0 {
		e.blocks[b] = true
	}
	sts := []*State{st}
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if i == len(b.Instrs)-1 {
			break
		}
		var next []*State
		for _, s := range sts {
			for _, n := range e.exec(fr, s, in) {
				if !n.dead {
					next = append(next, n)
				}
			}
		}
		sts = next
		if len(sts) == 0 {
			return
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	for _, s := range sts {
		e.nstates++
		switch t := last.(type) {
		case *ssa.Jump:
			succ = append(succ, edge{b, b.Succs[0], s})
		case *ssa.If:
			c, _ := e.val(fr, s, t.Cond).(BoolV)
			if c.op == "" {
				c = atomV(freshName("cond"))
			}
			e.logCond(fr, c)
			switch s.truth(c) {
			case 1:
				succ = append(succ, edge{b, b.Succs[0], s})
			case 0:
				succ = append(succ, edge{b, b.Succs[1], s})
			default:
				s2 := s.clone()
				s.assume(c)
				s2.assume(notV(c))
				if !s.dead {
					succ = append(succ, edge{b, b.Succs[0], s})
				}
				if !s2.dead {
					succ = append(succ, edge{b, b.Succs[1], s2})
				}
			}
		case *ssa.Return:
			var ret Val
			switch len(t.Results) {
			case 0:
			case 1:
				ret = e.val(fr, s, t.Results[0])
			default:
				var tv TupleV
				for _, r := range t.Results {
					tv = append(tv, e.val(fr, s, r))
				}
				ret = tv
			}
			rets = append(rets, Outcome{s, ret})
		case *ssa.Panic:
			e.emit(&Event{Kind: "oblige", Fr: fr, St: s, In: t, Rule: "panic", OK: false, Note: "explicit panic"})
		default:
			e.problem("unsupported terminator %T in %s", last, shortFn(fr.fn))
		}
	}
	return
}

// val evaluates an SSA operand.
func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Global:
		o := objTab["global:"+x.String()]
		if o == nil {
			o = symObj("global:"+x.String(), x.Type().(*types.Pointer).Elem())
			o.kind = "global"
			o.nilable = false
		}
		return PtrV{Obj: o}
	case *ssa.Builtin:
		return FuncSym{"builtin " + x.Name()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	e.problem("value %s of %s used before definition (%s)", v.Name(), shortFn(fr.fn), v)
	return symVal(freshName("undef"), v.Type())
}

func (e *Engine) logCond(fr *Frame, c BoolV) {
	if c.op != "ge" && c.op != "eq" {
		return
	}
	for _, l := range e.loopLogs {
		l.log(c, l.fr == fr)
	}
}

// ---- control-flow structure ----

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type forest struct {
	rpo    []*ssa.BasicBlock
	headOf map[*ssa.BasicBlock]*loop
}

func (e *Engine) forest(fn *ssa.Function) *forest {
	if f := e.forests[fn]; f != nil {
		return f
	}
	f := &forest{headOf: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.headOf[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.headOf[s] = l
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.blocks[x] || !seen[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	e.forests[fn] = f
	return f
}

// liveIn computes the values live at the entry of each block.
func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := e.live[fn]; l != nil {
		return l
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				idx := -1
				for k, p := range s.Preds {
					if p == b {
						idx = k
					}
				}
				for v := range live[s] {
					if !isPhiOf(v, s) {
						cur[v] = true
					}
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if isVar(p.Edges[idx]) {
						cur[p.Edges[idx]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isVar(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
		}
	}
	// recover blocks and deferred calls may need everything captured: parameters stay live
	e.live[fn] = live
	return live
}

// ---- merging ----

func (e *Engine) partKey(s *State) string {
	var b strings.Builder
	for _, g := range e.ghostKey {
		if v, ok := e.gget(s, g); ok {
			b.WriteString(g + "=" + v.Key() + ";")
		}
	}
	if e.partDyn != nil {
		var ks []string
		for n, t := range s.dyn {
			if e.partDyn(t) {
				ks = append(ks, n+":"+typeStr(t))
			}
		}
		for n, ts := range s.notdyn {
			for _, t := range ts {
				if e.partDyn(t) {
					ks = append(ks, n+"!"+typeStr(t))
				}
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
	}
	return b.String()
}

// shapeKey distinguishes values that should not be merged: nil-ness and dynamic types of references.
func (s *State) shapeKey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case NilV:
		return "n"
	case IfaceV:
		return "d" + types.TypeString(x.Dyn, nil)
	case PtrV, MapV, SliceV, IfaceSym:
		if y, ok := v.(IfaceSym); ok && y.Uniq && strings.HasPrefix(y.Name, "global:") {
			return "g" + y.Name
		}
		switch s.truth(nilCond(v)) {
		case 1:
			return "n"
		case 0:
			return "r"
		}
		return "u"
	case BoolV:
		if x.op == "const" {
			return x.Key()
		}
		return "b"
	case StrV:
		if x.Const {
			return x.Key()
		}
		return "s"
	case TupleV:
		k := ""
		for _, f := range x {
			k += s.shapeKey(f)
		}
		return k
	case FuncV:
		return fmt.Sprintf("F%p", x.Fn)
	}
	return "v"
}

// heapShape is the part of the shape found in memory: dynamic types of interfaces and nil-ness of pointers held by the fields of
// local objects.
func (s *State) heapShape() string {
	var ks []string
	for c, v := range s.heap {
		if objList[c.o].kind != "alloc" || hasIdx(c.p) {
			continue
		}
		switch v.(type) {
		case IfaceV, NilV:
			ks = append(ks, fmt.Sprintf("%d%s=%s", c.o, c.p, s.shapeKey(v)))
		case PtrV:
			if k := s.shapeKey(v); k != "u" {
				ks = append(ks, fmt.Sprintf("%d%s=%s", c.o, c.p, k))
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func sortedEnv(m map[ssa.Value]Val) []ssa.Value {
	var ks []ssa.Value
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Name() != ks[j].Name() {
			return ks[i].Name() < ks[j].Name()
		}
		return ks[i].Pos() < ks[j].Pos()
	})
	return ks
}

func (s *State) valueKey() string {
	var b strings.Builder
	for _, k := range sortedEnv(s.env) {
		b.WriteString(k.Name() + "=" + s.env[k].Key() + ";")
	}
	cs := make([]cell, 0, len(s.heap))
	for c := range s.heap {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool {
		if cs[i].o != cs[j].o {
			return cs[i].o < cs[j].o
		}
		return cs[i].p < cs[j].p
	})
	for _, c := range cs {
		fmt.Fprintf(&b, "%d%s=%s;", c.o, c.p, s.heap[c].Key())
	}
	return b.String()
}

func (e *Engine) mergeStates(fr *Frame, sts []*State, limit int, at string) []*State {
	if len(sts) <= 1 || e.noMerge && len(sts) < 4000 {
		return sts
	}
	// 1. states with identical values: keep the common facts
	byVal := map[string]*State{}
	var order []string
	for _, s := range sts {
		k := s.valueKey() + e.partKey(s)
		if o := byVal[k]; o != nil {
			e.joinInto(o, s, at)
			continue
		}
		byVal[k] = s
		order = append(order, k)
	}
	sts = nil
	for _, k := range order {
		sts = append(sts, byVal[k])
	}
	if len(sts) <= limit {
		return sts
	}
	// 2. too many: join states of the same shape
	groups := map[string][]*State{}
	var gk []string
	for _, s := range sts {
		k := e.partKey(s)
		for _, v := range sortedEnv(s.env) {
			k += s.shapeKey(s.env[v]) + ","
		}
		k += s.heapShape()
		if groups[k] == nil {
			gk = append(gk, k)
		}
		groups[k] = append(groups[k], s)
	}
	per := limit / len(gk)
	if per < 1 {
		per = 1
	}
	var out []*State
	for _, k := range gk {
		g := groups[k]
		for len(g) > per {
			e.joinInto(g[0], g[len(g)-1], at)
			g = g[:len(g)-1]
		}
		out = append(out, g...)
	}
	if len(out) > 4*limit {
		for len(out) > 4*limit {
			k := e.partKey(out[0])
			merged := false
			for i := len(out) - 1; i > 0; i-- {
				if e.partKey(out[i]) == k {
					e.joinInto(out[0], out[i], at)
					out = append(out[:i], out[i+1:]...)
					merged = true
					break
				}
			}
			if !merged {
				break
			}
		}
	}
	return out
}

// resKey marks the pseudo environment slot holding a call's results during outcome merging.
type retSlot struct{ ssa.Value }

var theRet = &ssa.Parameter{}

func (e *Engine) mergeOutcomes(fr *Frame, rets []Outcome) []Outcome {
	if len(rets) <= 1 {
		return rets
	}
	var sts []*State
	for _, r := range rets {
		if r.st.dead {
			continue
		}
		n := map[ssa.Value]Val{}
		if tv, ok := r.ret.(TupleV); ok {
			for i, v := range tv {
				n[retParams[i]] = v
			}
		} else if r.ret != nil {
			n[retParams[0]] = r.ret
		}
		r.st.env, r.st.envSh = n, false
		sts = append(sts, r.st)
	}
	sts = e.mergeStates(fr, sts, e.maxPart, "ret:"+shortFn(fr.fn))
	nres := fr.fn.Signature.Results().Len()
	var out []Outcome
	for _, s := range sts {
		var ret Val
		if nres == 1 {
			ret = s.env[retParams[0]]
		} else if nres > 1 {
			var tv TupleV
			for i := 0; i < nres; i++ {
				tv = append(tv, s.env[retParams[i]])
			}
			ret = tv
		}
		out = append(out, Outcome{s, ret})
	}
	return out
}

var retParams [8]ssa.Value

func init() {
	for i := range retParams {
		retParams[i] = &namedParam{&ssa.Parameter{}, fmt.Sprintf("ret%d", i)}
	}
}

type namedParam struct {
	*ssa.Parameter
	n string
}

func (n *namedParam) Name() string   { return n.n }
func (n *namedParam) Pos() token.Pos { return token.NoPos }
func (n *namedParam) String() string { return n.n }
func (n *namedParam) Type() types.Type {
	return types.Typ[types.Invalid]
}

// joinInto makes a an over-approximation of both a and b.
func (e *Engine) joinInto(a, b *State, at string) {
	j := &joiner{e: e, a: a, b: b, pairs: map[*Atom][2]Lin{}, memo: map[string]*Atom{}}
	for _, k := range sortedEnv(a.env) {
		va := a.env[k]
		vb, ok := b.env[k]
		if !ok {
			continue
		}
		if va.Key() != vb.Key() {
			a.setEnv(k, j.gen(va, vb, k.Type()))
		}
	}
	// heap
	cells := map[cell]bool{}
	for c := range a.heap {
		cells[c] = true
	}
	for c := range b.heap {
		cells[c] = true
	}
	var cl []cell
	for c := range cells {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, k int) bool {
		if cl[i].o != cl[k].o {
			return cl[i].o < cl[k].o
		}
		return cl[i].p < cl[k].p
	})
	for _, c := range cl {
		o := objList[c.o]
		t := typeAt(o, c.p)
		va, oka := a.heap[c]
		vb, okb := b.heap[c]
		if o == e.ghost {
			if !oka || !okb {
				if !oka {
					va = nil
				}
				if oka && !okb {
					vb = nil
				}
				if va == nil {
					va = ghostZero(vb)
				}
				if vb == nil {
					vb = ghostZero(va)
				}
			}
			if va.Key() != vb.Key() {
				x, ok1 := va.(IntV)
				y, ok2 := vb.(IntV)
				switch {
				case e.relGhosts && ok1 && ok2 && a.proveEq(sub(x.L, y.L)): // one side's value serves both
					a.setCell(c, vb)
				case e.relGhosts && ok1 && ok2 && b.proveEq(sub(x.L, y.L)):
					a.setCell(c, va)
				default:
					a.setCell(c, j.genGhost(va, vb))
				}
			} else {
				a.setCell(c, va)
			}
			continue
		}
		if !oka {
			if o.kind == "iter" || t == types.Typ[types.Invalid] {
				continue
			}
			va = a.load(o, c.p, t)
		}
		if !okb {
			if o.kind == "iter" || t == types.Typ[types.Invalid] {
				a.delCell(c)
				continue
			}
			vb = b.load(o, c.p, t)
		}
		if va.Key() != vb.Key() {
			a.setCell(c, j.gen(va, vb, t))
		} else if !oka {
			a.setCell(c, va)
		}
	}
	// epochs
	for id, ep := range b.epoch {
		if a.epoch[id] != ep {
			a.epOwn()
			a.epoch[id] = freshName("je")
		}
	}
	for id := range a.epoch {
		if _, ok := b.epoch[id]; !ok {
			a.epOwn()
			a.epoch[id] = freshName("je")
		}
	}
	for k, ep := range b.tepoch {
		if a.tepoch[k] != ep {
			a.epOwn()
			a.tepoch[k] = freshName("jt")
		}
	}
	for k := range a.tepoch {
		if _, ok := b.tepoch[k]; !ok {
			a.epOwn()
			a.tepoch[k] = freshName("jt")
		}
	}
	for o := range b.escaped {
		a.escape(o)
	}
	// facts
	ma, mb := map[*Atom]Lin{}, map[*Atom]Lin{}
	for x, p := range j.pairs {
		ma[x], mb[x] = p[0], p[1]
	}
	var cands []Lin
	seen := map[string]bool{}
	addc2 := func(l Lin) {
		l = tighten(l)
		if l.isConst() || seen[l.key()] {
			return
		}
		seen[l.key()] = true
		cands = append(cands, l)
	}
	for _, fs := range [][]Lin{a.facts, b.facts} {
		for _, f := range fs {
			addc2(f)
		}
		for _, f := range fs {
			if r, ok := unrounded(f); ok {
				addc2(r)
			}
		}
	}
	oneSided := len(cands)
	var xs []*Atom
	for x := range j.pairs {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, k int) bool { return xs[i].id < xs[k].id })
	for _, h := range e.hints {
		for _, x := range xs {
			addc2(sub(h, atomLin(x)))
		}
	}
	for _, x := range xs {
		p := j.pairs[x]
		for _, l := range p {
			addc2(sub(atomLin(x), l))
			addc2(sub(l, atomLin(x)))
			if len(l.t) > 1 {
				if _, rh, _, ok := rng(l); ok && !x.hasHi {
					addc2(addc(neg(atomLin(x)), rh))
				}
			}
		}
		for i, l := range p {
			fs := a.facts
			if i == 1 {
				fs = b.facts
			}
			if len(l.t) == 1 && l.t[0].k == 1 {
				at := l.t[0].a
				m := map[*Atom]Lin{at: addc(atomLin(x), -l.c)}
				for _, f := range fs {
					if coef(f, at) != 0 {
						addc2(subst(f, m))
					}
				}
				if at.hasLo {
					addc2(addc(atomLin(x), -l.c-at.lo))
				}
				if at.hasHi {
					addc2(addc(neg(atomLin(x)), l.c+at.hi))
				}
			}
		}
	}
	free := map[string]bool{}
	if e.relGhosts { // joined values that were computed from each other
		for _, x := range xs {
			for _, y := range xs {
				p, q := j.pairs[x], j.pairs[y]
				for i := range p {
					if x != y && len(q[i].t) == 1 && len(p[i].t) > 1 && coef(p[i], q[i].t[0].a) == q[i].t[0].k {
						addc2(sub(atomLin(x), atomLin(y)))
						free[tighten(sub(atomLin(x), atomLin(y))).key()] = true
					}
				}
			}
		}
	}
	var keep []Lin
	tried := 0
	for i, c := range cands {
		if i == oneSided {
			tried = max(tried, 150) - 100 // what relates the joined values is tried as well
		}
		inA := a.factSet[c.key()]
		inB := b.factSet[c.key()]
		if inA && inB {
			keep = append(keep, c)
			continue
		}
		if tried++; tried > 150 && !free[c.key()] {
			continue
		}
		if !inA && !a.prove(subst(c, ma)) {
			continue
		}
		if !inB && !b.prove(subst(c, mb)) {
			continue
		}
		keep = append(keep, c)
	}
	a.facts, a.factSet, a.fsSh, a.proveMem = nil, map[string]bool{}, false, nil
	var dq []Lin
	for _, d := range a.diseq {
		if b.proveNe(d) {
			dq = append(dq, d)
		}
	}
	a.diseq = nil
	for _, c := range keep {
		a.addFact(c)
	}
	a.diseq = dq
	// predicates
	nb := map[string]bool{}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; ok && w == v {
			nb[k] = v
		}
	}
	for k, v := range j.setBools {
		nb[k] = v
	}
	a.bools, a.boolsSh = nb, false
	ns := map[string]string{}
	for k, v := range a.strc {
		if w, ok := b.strc[k]; ok && w == v {
			ns[k] = v
		}
	}
	a.strc, a.strcSh = ns, false
	nd := map[string]types.Type{}
	for k, v := range a.dyn {
		if w, ok := b.dyn[k]; ok && types.Identical(v, w) {
			nd[k] = v
		}
	}
	nn := map[string][]types.Type{}
	for k, v := range a.notdyn {
		for _, t := range v {
			for _, u := range b.notdyn[k] {
				if types.Identical(t, u) {
					nn[k] = append(nn[k], t)
				}
			}
		}
	}
	a.dyn, a.notdyn, a.dynSh = nd, nn, false
}

func ghostZero(like Val) Val {
	if _, ok := like.(BoolV); ok {
		return falseV
	}
	return IntV{K(0)}
}

// joiner generalises pairs of values.
type joiner struct {
	e        *Engine
	a, b     *State
	pairs    map[*Atom][2]Lin
	memo     map[string]*Atom
	setBools map[string]bool
}

func (j *joiner) genInt(x, y Lin, lo, hi *int64) Lin {
	if eqLin(x, y) {
		return x
	}
	k := x.key() + "/" + y.key()
	if a := j.memo[k]; a != nil {
		return atomLin(a)
	}
	if j.e.minMax {
		if j.b.proveEq(sub(j.b.pick(x), y)) {
			return x
		}
		if j.a.proveEq(sub(j.a.pick(y), x)) {
			return y
		}
	}
	a := j.minMax(x, y, lo, hi)
	if a == nil {
		a = sym(freshName("j"), lo, hi)
	}
	j.memo[k] = a
	j.pairs[a] = [2]Lin{x, y}
	return atomLin(a)
}

var minMaxArgs = map[*Atom][3]Lin{} // smaller and larger candidates, as they compare when the first is taken

// pick replaces minima and maxima by the one of their arguments that they are in this state.
func (s *State) pick(l Lin) Lin {
	for i := 0; i < len(l.t); i++ {
		m, ok := minMaxArgs[l.t[i].a]
		if !ok {
			continue
		}
		k := l.t[i].k
		r := sub(l, scale(atomLin(l.t[i].a), k))
		switch {
		case s.prove(m[2]):
			return s.pick(add(r, scale(m[0], k)))
		case s.prove(neg(m[2])):
			return s.pick(add(r, scale(m[1], k)))
		}
	}
	return l
}

// minMax is the smaller or the larger of two values, if that is what each side has; the same two values give the same atom again.
func (j *joiner) minMax(x, y Lin, lo, hi *int64) *Atom {
	if !j.e.minMax || len(j.e.liveLoops) > 0 {
		return nil
	}
	xy, yx := sub(y, x), sub(x, y)
	a, b := x.key(), y.key()
	if b < a {
		a, b = b, a
	}
	switch {
	case j.a.prove(xy) && j.b.prove(yx):
		m := sym("min#("+a+"|"+b+")", lo, hi)
		m.ax = []Lin{sub(x, atomLin(m)), sub(y, atomLin(m))}
		minMaxArgs[m] = [3]Lin{x, y, sub(y, x)}
		return m
	case j.a.prove(yx) && j.b.prove(xy):
		m := sym("max#("+a+"|"+b+")", lo, hi)
		m.ax = []Lin{sub(atomLin(m), x), sub(atomLin(m), y)}
		minMaxArgs[m] = [3]Lin{x, y, sub(x, y)}
		return m
	}
	return nil
}

// genGhost generalises a ghost value, as a local variable that it equals on both sides if there is one.
func (j *joiner) genGhost(va, vb Val) Val {
	x, ok1 := va.(IntV)
	y, ok2 := vb.(IntV)
	if j.e.relGhosts && ok1 && ok2 {
		var names []ssa.Value
		for n := range j.a.env {
			if v, ok := j.a.env[n].(IntV); ok && !v.L.isConst() {
				if w, ok := j.b.env[n].(IntV); ok && w.Key() != v.Key() {
					names = append(names, n)
				}
			}
		}
		sort.Slice(names, func(a, b int) bool { return names[a].Name() < names[b].Name() })
		for _, n := range names {
			v, w := j.a.env[n].(IntV), j.b.env[n].(IntV)
			if j.a.proveEq(sub(x.L, v.L)) && j.b.proveEq(sub(y.L, w.L)) {
				return j.gen(v, w, types.Typ[types.Int])
			}
		}
		var cells []cell
		for c, v := range j.a.heap {
			v, ok := v.(IntV)
			w, ok2 := j.b.heap[c].(IntV)
			if ok && ok2 && c.o != j.e.ghost.id && !v.L.isConst() && v.Key() == w.Key() {
				cells = append(cells, c)
			}
		}
		sort.Slice(cells, func(i, k int) bool {
			return cells[i].o < cells[k].o || cells[i].o == cells[k].o && cells[i].p < cells[k].p
		})
		for _, c := range cells {
			v := j.a.heap[c].(IntV)
			if j.a.proveEq(sub(x.L, v.L)) && j.b.proveEq(sub(y.L, v.L)) {
				return v
			}
		}
	}
	return j.gen(va, vb, types.Typ[types.Int])
}

func (j *joiner) mark(name string, v bool) {
	if j.setBools == nil {
		j.setBools = map[string]bool{}
	}
	j.setBools[name] = v
}

func (j *joiner) gen(x, y Val, t types.Type) Val {
	if x.Key() == y.Key() {
		return x
	}
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			var lo, hi *int64
			if t != nil {
				lo, hi, _, _, _ = intRange(t)
			}
			return IntV{j.genInt(a.L, b.L, lo, hi)}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			ta, tb := j.a.truth(a), j.b.truth(b)
			if ta >= 0 && ta == tb {
				return boolV(ta == 1)
			}
			if ta >= 0 && tb >= 0 && ta != tb {
				// an atom for "came from the other side" would be needed; nothing is known
				return atomV(freshName("jb"))
			}
		}
		return atomV(freshName("jb"))
	case StrV:
		if b, ok := y.(StrV); ok {
			return StrV{Sym: freshName("js"), Len: j.genInt(a.Len, b.Len, p64(0), p64(maxLen))}
		}
	case StructV:
		if b, ok := y.(StructV); ok && len(a.F) == len(b.F) {
			s := StructV{T: a.T}
			st, _ := a.T.Underlying().(*types.Struct)
			for i := range a.F {
				s.F = append(s.F, j.gen(a.F[i], b.F[i], st.Field(i).Type()))
			}
			return s
		}
	case ArrV:
		if b, ok := y.(ArrV); ok && len(a.E) == len(b.E) {
			s := ArrV{T: a.T}
			et := a.T.Underlying().(*types.Array).Elem()
			for i := range a.E {
				s.E = append(s.E, j.gen(a.E[i], b.E[i], et))
			}
			return s
		}
	case TupleV:
		if b, ok := y.(TupleV); ok && len(a) == len(b) {
			var s TupleV
			for i := range a {
				s = append(s, j.gen(a[i], b[i], nil))
			}
			return s
		}
	case IterV:
		if b, ok := y.(IterV); ok && a.Obj == b.Obj {
			_, ok1 := a.X.(StrV)
			_, ok2 := b.X.(StrV)
			if ok1 && ok2 {
				return IterV{Obj: a.Obj, X: j.gen(a.X, b.X, nil)}
			}
		}
	case PtrV:
		if b, ok := y.(PtrV); ok && a.Obj == b.Obj {
			if p, ok := j.genPath(a.Path, b.Path); ok {
				return PtrV{a.Obj, p}
			}
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			r := SliceV{Obj: a.Obj, Path: a.Path}
			same := a.Obj == b.Obj && a.Path == b.Path
			if !same {
				n := freshName("jsl")
				r = symVal(n, types.NewSlice(a.elem())).(SliceV)
				j.a.escapeVal(a)
				j.a.escapeVal(b)
			}
			r.Off = K(0)
			if same {
				r.Off = j.genInt(a.Off, b.Off, p64(0), p64(maxLen))
			}
			r.Len = j.genInt(a.Len, b.Len, p64(0), p64(maxLen))
			r.Cap = j.genInt(a.Cap, b.Cap, p64(0), p64(maxLen))
			na, nb := j.a.truth(nilCond(a)), j.b.truth(nilCond(b))
			if na == 0 && nb == 0 {
				r.NilAtom = ""
			} else {
				r.NilAtom = "nil:" + freshName("jsl")
			}
			return r
		}
	}
	if t == nil || t == types.Typ[types.Invalid] {
		t = guessType(x, y)
	}
	if t == nil {
		return OpqV{freshName("jo")}
	}
	j.a.escapeVal(x)
	j.a.escapeVal(y)
	if sx, ok := x.(SliceV); ok { // slice vs nil
		r := sx
		if _, isNil := y.(NilV); isNil {
			r.Len = j.genInt(sx.Len, K(0), p64(0), p64(maxLen))
			r.Cap = j.genInt(sx.Cap, K(0), p64(0), p64(maxLen))
			r.NilAtom = "nil:" + freshName("jsl")
			return r
		}
	}
	if sy, ok := y.(SliceV); ok {
		r := sy
		if _, isNil := x.(NilV); isNil {
			r.Len = j.genInt(K(0), sy.Len, p64(0), p64(maxLen))
			r.Cap = j.genInt(K(0), sy.Cap, p64(0), p64(maxLen))
			r.NilAtom = "nil:" + freshName("jsl")
			return r
		}
	}
	n := freshName("jv")
	v := symVal(n, t)
	na, nb := j.a.truth(nilCond(x)), j.b.truth(nilCond(y))
	if at := nilAtom(v); at != "" && na >= 0 && na == nb {
		j.mark(at, na == 1)
	}
	return v
}

func guessType(x, y Val) types.Type {
	for _, v := range []Val{x, y} {
		switch a := v.(type) {
		case PtrV:
			return types.NewPointer(a.typ())
		case IfaceSym:
			return a.T
		case SliceV:
			return types.NewSlice(a.elem())
		case MapV:
			return a.Obj.typ
		case IfaceV:
			return types.Universe.Lookup("error").Type()
		}
	}
	return nil
}

func (j *joiner) genPath(p, q string) (string, bool) {
	if p == q {
		return p, true
	}
	a, b := pathTab[p], pathTab[q]
	if len(a) != len(b) {
		return "", false
	}
	r := ""
	for i := range a {
		if a[i].field >= 0 || b[i].field >= 0 {
			if a[i].field != b[i].field {
				return "", false
			}
			r = pathField(r, a[i].field)
			continue
		}
		r = pathIdx(r, j.genInt(a[i].idx, b[i].idx, nil, nil))
	}
	return r, true
}
