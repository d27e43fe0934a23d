package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: determinism. Every loop over a map is classified: what one iteration does must commute with what any other does, or end up in
// a slice that is sorted by a total order before anything else looks at it; and no source of values other than the arguments is read.

// cls is how a value depends on the iteration of the loop under study.
type cls int

const (
	cInv  cls = iota // the same for all iterations
	cKey             // determined one-to-one by the key of this iteration
	cIter            // an object only this iteration can reach, or a value read from one
	cDep             // depends on this iteration in some other way
	cSum             // an accumulator of the loop: depends on the iterations done so far
)

func (c cls) String() string {
	return []string{"invariant", "key", "own", "dependent", "accumulated"}[c]
}

func join(a, b cls) cls {
	if a == b {
		return a
	}
	if a == cSum || b == cSum {
		return cSum
	}
	if a == cInv {
		return weak(b)
	}
	if b == cInv {
		return weak(a)
	}
	return cDep
}

// weak: mixed with something else, a value is no longer one-to-one with the key, nor owned.
func weak(a cls) cls {
	if a == cKey || a == cIter {
		return cDep
	}
	return a
}

// mapLoop is a loop over a map: the header is the block of the ssa.Next.
type mapLoop struct {
	f      *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool // the natural loop
}

func mapLoops(f *ssa.Function) []*mapLoop {
	var out []*mapLoop
	eachInstr(f, func(in ssa.Instruction) {
		n, ok := in.(*ssa.Next)
		if !ok || n.IsString {
			return
		}
		r, ok := n.Iter.(*ssa.Range)
		if !ok {
			return
		}
		l := &mapLoop{f: f, rng: r, next: n, header: n.Block()}
		l.body = naturalLoop(l.header)
		out = append(out, l)
	})
	return out
}

// naturalLoop is the set of blocks that reach a back edge to h without leaving h's dominance.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	b := map[*ssa.BasicBlock]bool{h: true}
	var add func(x *ssa.BasicBlock)
	add = func(x *ssa.BasicBlock) {
		if b[x] {
			return
		}
		b[x] = true
		for _, p := range x.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	return b
}

// orderCtx analyses one loop.
type orderCtx struct {
	c       *Ctx
	l       *mapLoop
	memo    map[string]cls
	written map[string]bool // fields and variables written in the loop in a way that shows the order to a reader
	pend    []pending       // slices filled in iteration order, by location
	bad     []string
	effects int // order-insensitive effects that outlive the loop
	depth   int
	path    []*ssa.Function
}

type pending struct {
	loc string // canonical address, or "" for a phi
	phi *ssa.Phi
	val ssa.Value // a slice made before the loop and filled by index
	in  ssa.Instruction
}

func (o *orderCtx) fail(in ssa.Instruction, msg string) {
	o.bad = append(o.bad, fmt.Sprintf("%s: %s", o.c.P.pos(in), msg))
}

// frame is one function analysed in the context of the loop: the loop's own function or a callee.
type oframe struct {
	o      *orderCtx
	f      *ssa.Function
	params map[ssa.Value]cls
	in     func(b *ssa.BasicBlock) bool
	memo   map[ssa.Value]cls
	parent *oframe
	call   ssa.Instruction
	acc    map[*ssa.Phi]bool // phis accepted as commutative accumulators
}

func pureExternal(f *ssa.Function) bool {
	p := pkgPathOf(f)
	n := f.String()
	switch p {
	case "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "errors", "math", "math/bits", "path", "path/filepath":
		return !strings.Contains(n, "*strings.") && !strings.Contains(n, "Builder")
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "encoding/binary":
		return f.Name() == "Size" || strings.Contains(n, "littleEndian).Uint")
	case "bytes":
		return f.Signature.Recv() == nil && !strings.HasPrefix(f.Name(), "New")
	case "time":
		return strings.Contains(n, "(time.Time).") || f.Name() == "Unix" || f.Name() == "Date"
	}
	return false
}

func (fr *oframe) class(v ssa.Value) cls {
	if c, ok := fr.memo[v]; ok {
		return c
	}
	fr.memo[v] = cInv // for cycles through phis
	c := fr.class1(v)
	fr.memo[v] = c
	return c
}

func (fr *oframe) class1(v ssa.Value) cls {
	if c, ok := fr.params[v]; ok {
		return c
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar, *ssa.Parameter:
		return cInv
	case ssa.Instruction:
		_ = x
	}
	in := v.(ssa.Instruction)
	if !fr.in(in.Block()) {
		return cInv
	}
	// the loop's own iteration variables
	if fr.parent == nil {
		if e, ok := v.(*ssa.Extract); ok && e.Tuple == fr.o.l.next {
			switch e.Index {
			case 1:
				return cKey
			case 2:
				return cIter
			}
			return cInv
		}
		if v == fr.o.l.next {
			return cInv
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == fr.o.l.header {
			return cSum
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return cIter
	case *ssa.Phi:
		c := cls(-1)
		for _, e := range x.Edges {
			ec := fr.class(e)
			if ec == cIter && freshValue(e) && fr.sharedSlot(e) {
				ec = cInv // created on behalf of all iterations
			}
			if c < 0 {
				c = ec
			} else if c != ec {
				// an object of this iteration either way: looked up, or just created
				c = join(c, ec)
			}
		}
		if c == cInv && !fr.uniform(x.Block()) {
			c = cDep
		}
		return c
	case *ssa.Extract:
		return fr.class(x.Tuple)
	case *ssa.Convert:
		return fr.conv(x.X, x.Type())
	case *ssa.ChangeType:
		return fr.class(x.X)
	case *ssa.ChangeInterface:
		return fr.class(x.X)
	case *ssa.MakeInterface:
		return fr.class(x.X)
	case *ssa.TypeAssert:
		return fr.class(x.X)
	case *ssa.FieldAddr:
		return fr.class(x.X)
	case *ssa.Field:
		return fr.part(fr.class(x.X))
	case *ssa.IndexAddr:
		return join2(fr.class(x.X), fr.class(x.Index))
	case *ssa.Index:
		return fr.part(join2(fr.class(x.X), fr.class(x.Index)))
	case *ssa.Slice:
		return fr.class(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fr.load(x)
		}
		return fr.class(x.X)
	case *ssa.BinOp:
		return weakInv(join(fr.class(x.X), fr.class(x.Y)))
	case *ssa.Lookup:
		m, k := fr.class(x.X), fr.class(x.Index)
		if m == cIter {
			return cIter
		}
		if k == cKey && m == cInv {
			return cIter // the entry of this iteration's key
		}
		if m == cInv && k == cInv {
			if fr.o.written["map:"+x.X.Type().String()] {
				return cInv // entries of other keys are the other iterations' business; this one is guarded by the update rules
			}
			return cInv
		}
		return join(weak(m), weak(k))
	case *ssa.Next:
		return fr.class(x.Iter)
	case *ssa.Range:
		return fr.class(x.X)
	case *ssa.Call:
		return fr.callClass(x)
	}
	c := cInv
	for _, op := range in.Operands(nil) {
		if *op != nil {
			c = join(c, fr.class(*op))
		}
	}
	return weak(c)
}

// sharedSlot: the new object is put in a map under a key that all iterations share (so that they all find it there).
func (fr *oframe) sharedSlot(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.MapUpdate); ok && u.Value == v && fr.class(u.Map) == cInv && fr.class(u.Key) == cInv {
			return true
		}
	}
	return false
}

func weakInv(c cls) cls { return weak(c) }

// part: something read from an object of this iteration is this iteration's too.
func (fr *oframe) part(c cls) cls { return c }

func join2(base, idx cls) cls {
	if base == cIter {
		return cIter
	}
	if base == cInv && idx == cInv {
		return cInv
	}
	return join(weak(base), weak(idx))
}

// conv: conversions that keep distinct keys distinct.
func (fr *oframe) conv(x ssa.Value, to types.Type) cls {
	c := fr.class(x)
	if c != cKey {
		return c
	}
	if isInt(x.Type()) && isInt(to) && sizes.Sizeof(to) >= sizes.Sizeof(x.Type().Underlying()) {
		return cKey
	}
	if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if d, ok := to.Underlying().(*types.Basic); ok && d.Info()&types.IsString != 0 {
			return cKey
		}
	}
	return cDep
}

// locKey names a location by the field it is, so that writes and reads of one field are matched whatever the path to it.
func locKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return "field:" + t.String() + "." + fmt.Sprint(x.Field)
	case *ssa.Global:
		return "global:" + x.String()
	case *ssa.Alloc:
		return "var:" + x.Parent().String() + "#" + x.Name()
	case *ssa.IndexAddr:
		return "elem:" + x.X.Type().String()
	}
	return "mem:" + a.Type().String()
}

func (fr *oframe) load(x *ssa.UnOp) cls {
	c := fr.class(x.X)
	if c == cInv && fr.o.written[locKey(x.X)] {
		return cSum
	}
	return c
}

// uniform: every iteration takes the same way to b (only used to keep phis of constants from passing as invariant).
func (fr *oframe) uniform(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if fr.class(iff.Cond) != cInv {
				return false
			}
		} else if d := b.Idom(); d != nil {
			if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && fr.class(iff.Cond) != cInv {
				return false
			}
		}
	}
	return true
}

// injective formats: one verb for the key and nothing else that varies.
func (fr *oframe) sprintfKey(call *ssa.Call) bool {
	if calleeName(call) != "fmt.Sprintf" || len(call.Call.Args) != 2 {
		return false
	}
	f, ok := ssaStr(call.Call.Args[0])
	if !ok || strings.Count(f, "%") != 1 {
		return false
	}
	// the argument slice holds the key
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	n := 0
	good := false
	for _, r := range *sl.X.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok {
					n++
					good = fr.class(st.Val) == cKey
				}
			}
		}
	}
	return n == 1 && good
}

func (fr *oframe) callClass(x *ssa.Call) cls {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		c := cInv
		for _, a := range x.Call.Args {
			c = join(c, fr.class(a))
		}
		if b.Name() == "append" {
			if fr.class(x.Call.Args[0]) == cIter {
				return cIter
			}
			return c
		}
		return weak(c)
	}
	if fr.sprintfKey(x) {
		return cKey
	}
	f := x.Call.StaticCallee()
	c := cInv
	own := false
	for _, a := range x.Call.Args {
		ac := fr.class(a)
		if ac == cIter {
			own = true
		}
		c = join(c, ac)
	}
	if f != nil && fr.o.c.P.inModule(f) {
		return fr.o.callee(fr, x, f).ret
	}
	if own && c != cSum {
		return cIter
	}
	return weak(c)
}

type calleeResult struct{ ret cls }

// callee analyses a function of the module called in the loop: its effects count as effects of the iteration.
func (o *orderCtx) callee(fr *oframe, site ssa.CallInstruction, f *ssa.Function) calleeResult {
	cc := site.Common()
	key := f.String()
	var pc []cls
	for _, a := range cc.Args {
		c := fr.class(a)
		pc = append(pc, c)
		key += "|" + c.String()
	}
	if c, ok := o.memo[key]; ok {
		return calleeResult{c}
	}
	for _, g := range o.path {
		if g == f {
			o.fail(site.(ssa.Instruction), "recursion inside a loop over a map")
			return calleeResult{cDep}
		}
	}
	o.path = append(o.path, f)
	defer func() { o.path = o.path[:len(o.path)-1] }()
	n := &oframe{o: o, f: f, params: map[ssa.Value]cls{}, in: func(*ssa.BasicBlock) bool { return true }, memo: map[ssa.Value]cls{}, parent: fr, call: site.(ssa.Instruction)}
	for i, p := range f.Params {
		if i < len(pc) {
			n.params[p] = pc[i]
		}
	}
	o.memo[key] = cInv
	n.effects()
	ret := cls(-1)
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				c := n.class(v)
				if ret < 0 {
					ret = c
				} else {
					ret = join(ret, c)
				}
			}
			if ret == cInv && len(f.Blocks) > 1 {
				for _, x := range pc {
					if x != cInv {
						ret = cDep
					}
				}
			}
		}
	}
	if ret < 0 {
		ret = cInv
	}
	o.memo[key] = ret
	return calleeResult{ret}
}

// effects judges everything the blocks of the frame do to memory that outlives the iteration.
func (fr *oframe) effects() {
	o := fr.o
	for _, b := range fr.f.Blocks {
		if !fr.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fr.store(x)
			case *ssa.MapUpdate:
				fr.mapUpdate(x)
			case ssa.CallInstruction:
				fr.callEffect(x)
			case *ssa.Send, *ssa.Select:
				o.fail(in, "channel operation inside a loop over a map")
			case *ssa.Return:
				if fr.parent == nil {
					fr.earlyExit(x)
				}
			}
		}
	}
}

func (fr *oframe) store(s *ssa.Store) {
	o := fr.o
	a := fr.class(s.Addr)
	if a == cIter {
		return
	}
	if al, ok := s.Addr.(*ssa.Alloc); ok && fr.parent != nil && al.Parent() == fr.f {
		return
	}
	v := fr.class(s.Val)
	loc := canon(s.Addr)
	// the same value whatever the iteration
	if c, ok := s.Val.(*ssa.Const); ok {
		_ = c
		if fr.onlyConstStores(locKey(s.Addr), s) {
			o.effects++
			return
		}
	}
	// created when missing
	if freshValue(s.Val) && fr.guardedByNil(s.Block(), func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && canon(u.X) == loc
	}) {
		o.effects++
		return
	}
	// running total, maximum or minimum
	if fr.commutes(s) {
		o.effects++
		o.written[locKey(s.Addr)] = true
		return
	}
	// appended in iteration order
	if call, ok := s.Val.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if u, ok := call.Call.Args[0].(*ssa.UnOp); ok && canon(u.X) == loc && fr.parent == nil {
				o.pend = append(o.pend, pending{loc: loc, in: s})
				return
			}
		}
	}
	// or by a running index
	if ia, ok := s.Addr.(*ssa.IndexAddr); ok && fr.parent == nil && fr.class(ia.X) == cInv && fr.class(ia.Index) == cSum {
		if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			o.pend = append(o.pend, pending{loc: canon(u.X), in: s})
			return
		}
		if _, ok := ia.X.(*ssa.MakeSlice); ok {
			o.pend = append(o.pend, pending{val: ia.X, in: s})
			return
		}
	}
	o.written[locKey(s.Addr)] = true
	o.fail(s, fmt.Sprintf("the last iteration decides what is stored here (address %s, value %s)", a, v))
}

// onlyConstStores: every store to that location in this frame stores the same constant.
func (fr *oframe) onlyConstStores(key string, s *ssa.Store) bool {
	for _, b := range fr.f.Blocks {
		if !fr.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			if t, ok := in.(*ssa.Store); ok && locKey(t.Addr) == key && fr.class(t.Addr) != cIter {
				if canon(t.Val) != canon(s.Val) && !freshValue(t.Val) {
					return false
				}
			}
		}
	}
	return true
}

func freshValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.ChangeType:
		return freshValue(x.X)
	}
	return false
}

// guardedByNil: b is only reached when a value matching the predicate was compared with nil (or a lookup was not found).
func (fr *oframe) guardedByNil(b *ssa.BasicBlock, match func(v ssa.Value) bool) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		switch x := cond.(type) {
		case *ssa.BinOp:
			isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
			var v ssa.Value
			if isNil(x.Y) {
				v = x.X
			} else if isNil(x.X) {
				v = x.Y
			} else {
				// len(m) == 0
				if n, ok := ssaInt(x.Y); ok && n == 0 && x.Op == token.EQL {
					if call, ok := x.X.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							v = call.Call.Args[0]
						}
					}
				}
				if v == nil {
					continue
				}
			}
			if !match(v) {
				continue
			}
			t := d.Succs[0]
			if (x.Op == token.NEQ) != neg {
				t = d.Succs[1]
			}
			if t.Dominates(b) || t == b {
				return true
			}
		case *ssa.Extract:
			if x.Index != 1 {
				continue
			}
			lk, ok := x.Tuple.(*ssa.Lookup)
			if !ok || !match(lk) {
				continue
			}
			t := d.Succs[1]
			if neg {
				t = d.Succs[0]
			}
			if t.Dominates(b) || t == b {
				return true
			}
		}
	}
	return false
}

// commutes: *p = *p + x, or *p = x under a comparison of *p with x.
func (fr *oframe) commutes(s *ssa.Store) bool {
	loc := canon(s.Addr)
	isLoad := func(v ssa.Value) bool {
		for {
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
				continue
			}
			break
		}
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && canon(u.X) == loc
	}
	if b, ok := s.Val.(*ssa.BinOp); ok && isInt(b.Type()) && commutative(b.Op) {
		if isLoad(b.X) && fr.class(b.Y) != cSum || isLoad(b.Y) && fr.class(b.X) != cSum {
			return true
		}
	}
	return fr.guardedByCompare(s.Block(), s.Val, isLoad)
}

func commutative(op token.Token) bool {
	switch op {
	case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
		return true
	}
	return false
}

// guardedByCompare: b is only reached when the accumulator was found smaller (or greater) than v.
func (fr *oframe) guardedByCompare(b *ssa.BasicBlock, v ssa.Value, isAcc func(v ssa.Value) bool) bool {
	for d := b; d != nil; d = d.Idom() {
		var iff *ssa.If
		if d != b {
			iff, _ = d.Instrs[len(d.Instrs)-1].(*ssa.If)
		}
		if iff == nil {
			continue
		}
		x, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			continue
		}
		if isAcc(x.X) && canon(x.Y) == canon(v) || isAcc(x.Y) && canon(x.X) == canon(v) {
			if d.Succs[0] == b || d.Succs[0].Dominates(b) || d.Succs[1] == b || d.Succs[1].Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (fr *oframe) mapUpdate(u *ssa.MapUpdate) {
	o := fr.o
	m, k, v := fr.class(u.Map), fr.class(u.Key), fr.class(u.Value)
	if m == cIter {
		return
	}
	if k == cKey {
		o.effects++
		return
	}
	// a set: the value does not tell one writer from another
	if constLike(u.Value) && v == cInv {
		o.effects++
		return
	}
	// created when missing, under a key that every iteration shares
	if k == cInv && (freshValue(u.Value)) && fr.guardedByNil(u.Block(), func(x ssa.Value) bool {
		if e, ok := x.(*ssa.Extract); ok {
			x = e.Tuple
		}
		lk, ok := x.(*ssa.Lookup)
		return ok && canon(lk.X) == canon(u.Map) && canon(lk.Index) == canon(u.Key)
	}) {
		o.effects++
		return
	}
	o.fail(u, fmt.Sprintf("iterations may store different values under one key (map %s, key %s, value %s)", m, k, v))
}

func constLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		// the zero value of a struct{} variable
		if a, ok := x.X.(*ssa.Alloc); ok {
			if s, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				return true
			}
		}
	}
	return false
}

func (fr *oframe) callEffect(ci ssa.CallInstruction) {
	o := fr.o
	in := ci.(ssa.Instruction)
	cc := ci.Common()
	if _, ok := ci.(*ssa.Go); ok {
		o.fail(in, "goroutine started inside a loop over a map")
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if fr.class(cc.Args[0]) != cIter && fr.class(cc.Args[1]) != cKey && fr.class(cc.Args[1]) != cInv {
				o.fail(in, "deletion of entries that depend on other iterations")
			}
		case "copy":
			if fr.class(cc.Args[0]) != cIter {
				o.fail(in, "the last iteration decides what is copied here")
			}
		}
		return
	}
	f := cc.StaticCallee()
	if f == nil {
		// a call through an interface or a function value: only harmless on this iteration's own objects
		rc := fr.class(cc.Value)
		if cc.IsInvoke() && pureMethod(cc.Method) {
			return
		}
		own := rc == cIter && cc.IsInvoke()
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		} else if !own {
			o.fail(in, "call with unknown effects inside a loop over a map")
			return
		}
		if f == nil {
			return
		}
	}
	if o.c.P.inModule(f) {
		o.callee(fr, ci, f)
		return
	}
	if pureExternal(f) {
		return
	}
	if strings.HasPrefix(f.String(), "sort.") {
		if fr.class(cc.Args[0]) == cInv {
			o.fail(in, "sorts a shared slice inside a loop over a map")
		}
		return
	}
	for i, a := range cc.Args {
		t := a.Type().Underlying()
		switch t.(type) {
		case *types.Basic, *types.Struct:
			continue
		}
		if fr.class(a) != cIter && !(i > 0 && readOnlyArg(f)) {
			o.fail(in, "calls "+f.String()+" on an object shared by the iterations")
			return
		}
	}
}

func readOnlyArg(f *ssa.Function) bool {
	n := f.String()
	return strings.HasPrefix(n, "(*bytes.Buffer).Write") || n == "encoding/binary.Write" || strings.HasPrefix(n, "fmt.Fprint")
}

func pureMethod(m *types.Func) bool {
	switch m.Name() {
	case "lessThan", "Error", "String", "Len":
		return true
	}
	return strings.HasPrefix(m.Name(), "get")
}

// earlyExit: leaving the function from inside the loop.
func (fr *oframe) earlyExit(r *ssa.Return) {
	o := fr.o
	if !o.l.body[r.Block()] && !o.inRegion(r.Block()) {
		return
	}
	for _, v := range r.Results {
		if c := fr.class(v); c != cInv {
			o.fail(r, fmt.Sprintf("which iteration returns first decides the result (%s)", c))
			return
		}
	}
	o.bad = append(o.bad, "exit@"+o.c.P.pos(r)) // resolved later: allowed only when the loop has no lasting effect
}

// exits judges what leaves the loop before its end.
func (fr *oframe) exits() {
	o := fr.o
	for _, b := range fr.f.Blocks {
		if b != o.l.header && o.l.body[b] {
			for _, s := range b.Succs {
				if !o.l.body[s] && !onlyReturns(s, o, map[*ssa.BasicBlock]bool{}) {
					in := b.Instrs[len(b.Instrs)-1]
					if len(o.pend) > 0 {
						o.fail(in, "the loop may be left early: which elements were collected until then depends on the order of iteration")
					}
					o.bad = append(o.bad, "exit@"+o.c.P.pos(in))
				}
			}
		}
		if fr.in(b) {
			continue
		}
		// values of an iteration used after the loop
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				d, ok := (*op).(ssa.Instruction)
				if !ok || d.Block() == o.l.header || !fr.in(d.Block()) || d.Parent() != fr.f {
					continue
				}
				if c := fr.class(*op); c != cInv {
					o.fail(d, fmt.Sprintf("which iteration leaves the loop first decides what is used at %s (%s)", o.c.P.pos(in), c))
				}
			}
		}
	}
}

// onlyReturns: from b, the function is left without coming back to the code after the loop.
func onlyReturns(b *ssa.BasicBlock, o *orderCtx, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if !o.inRegion(b) {
		return false
	}
	for _, s := range b.Succs {
		if !onlyReturns(s, o, seen) {
			return false
		}
	}
	return true
}

// inRegion: b belongs to an iteration although it leaves the loop (it is dominated by the body's entry).
func (o *orderCtx) inRegion(b *ssa.BasicBlock) bool {
	entry := o.bodyEntry()
	return entry != nil && (entry == b || entry.Dominates(b))
}

func (o *orderCtx) bodyEntry() *ssa.BasicBlock {
	h := o.l.header
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		_ = iff
		return h.Succs[0]
	}
	return nil
}

// phis judges the loop-carried variables.
func (fr *oframe) phis() {
	o := fr.o
	for _, in := range o.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range p.Edges {
			if !o.l.body[o.l.header.Preds[i]] {
				continue
			}
			fr.update(p, e, o.l.header.Preds[i], map[ssa.Value]bool{})
		}
	}
}

// update judges one new value of a loop-carried variable.
func (fr *oframe) update(p *ssa.Phi, v ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool) {
	o := fr.o
	if v == p || seen[v] {
		return
	}
	seen[v] = true
	if _, ok := v.(*ssa.Const); ok {
		return // a flag: what matters is what is done under it
	}
	if in, ok := v.(ssa.Instruction); ok && !o.l.body[in.Block()] {
		return // the same for all iterations
	}
	switch x := v.(type) {
	case *ssa.Phi:
		// a merge inside the body, or the variable of an inner loop
		for i, e := range x.Edges {
			fr.update(p, e, x.Block().Preds[i], seen)
		}
		return
	case *ssa.BinOp:
		if isInt(x.Type()) && commutative(x.Op) || isBool(x.Type()) && (x.Op == token.OR || x.Op == token.AND) {
			if reaches(x.X, p, o.l) && fr.noAcc(x.Y) {
				fr.update(p, x.X, at, seen)
				return
			}
			if reaches(x.Y, p, o.l) && fr.noAcc(x.X) {
				fr.update(p, x.Y, at, seen)
				return
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && reaches(x.Call.Args[0], p, o.l) {
			o.pend = append(o.pend, pending{phi: p, in: x})
			fr.update(p, x.Call.Args[0], at, seen)
			return
		}
	}
	isAcc := func(a ssa.Value) bool { return a == p || reaches(a, p, o.l) && a != v }
	if fr.guardedByCompare2(at, v, isAcc) || fr.assignedOnce(at) {
		return
	}
	o.fail(p, fmt.Sprintf("the last iteration decides the value of %s", orName(p)))
}

func orName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (fr *oframe) noAcc(v ssa.Value) bool { return fr.class(v) != cSum }

// reaches: v is the accumulator p, or a variable of an inner loop or merge that only adds to it.
func reaches(v ssa.Value, p *ssa.Phi, l *mapLoop) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !l.body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return l.body[x.Block()] && (walk(x.X) || walk(x.Y))
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return walk(x.Call.Args[0])
			}
		}
		return false
	}
	return walk(v)
}

// guardedByCompare2 also accepts that the edge itself comes from the comparison.
func (fr *oframe) guardedByCompare2(at *ssa.BasicBlock, v ssa.Value, isAcc func(v ssa.Value) bool) bool {
	if iff, ok := at.Instrs[len(at.Instrs)-1].(*ssa.If); ok {
		if x, ok := iff.Cond.(*ssa.BinOp); ok && (x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ) {
			if isAcc(x.X) && canon(x.Y) == canon(v) || isAcc(x.Y) && canon(x.X) == canon(v) {
				return true
			}
		}
	}
	return fr.guardedByCompare(at, v, isAcc)
}

// assignedOnce: the assignment happens only while a flag is false, sets the flag, and a second one would leave the function instead.
func (fr *oframe) assignedOnce(at *ssa.BasicBlock) bool {
	o := fr.o
	for _, in := range o.l.header.Instrs {
		flag, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isBool(flag.Type()) {
			continue
		}
		for d := at; d != nil && o.l.body[d]; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || iff.Cond != flag {
				continue
			}
			f := d.Succs[1]
			t := d.Succs[0]
			if (f == at || f.Dominates(at)) && !o.l.body[t] && endsInReturn(t) && fr.setsTrue(flag, at) {
				return true
			}
		}
	}
	return false
}

func endsInReturn(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

// setsTrue: coming from block at, the flag is true in the next iteration.
func (fr *oframe) setsTrue(flag *ssa.Phi, at *ssa.BasicBlock) bool {
	var walk func(v ssa.Value, blk *ssa.BasicBlock) bool
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, blk *ssa.BasicBlock) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if c, ok := v.(*ssa.Const); ok {
			return c.Value != nil && c.Value.String() == "true" && (blk == at || at.Dominates(blk) || blk.Dominates(at) && blk != fr.o.l.header)
		}
		if p, ok := v.(*ssa.Phi); ok && p != flag {
			for i, e := range p.Edges {
				if walk(e, p.Block().Preds[i]) {
					return true
				}
			}
		}
		return false
	}
	for i, e := range flag.Edges {
		pb := flag.Block().Preds[i]
		if fr.o.l.body[pb] && walk(e, pb) {
			return true
		}
	}
	return false
}

// totalComparator: the comparator handed to sort.Slice compares whole elements.
func (c *Ctx) totalComparator(v ssa.Value) (bool, string) {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	case *ssa.ChangeType:
		return c.totalComparator(x.X)
	}
	if f == nil || len(f.Params) != 2 {
		return false, "the comparator is not a function literal"
	}
	elem := func(v ssa.Value) (ssa.Value, ssa.Value, bool) { // base, index parameter
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				if isInt(x.X.Type()) && isInt(x.Type()) && sizes.Sizeof(x.Type()) >= sizes.Sizeof(x.X.Type().Underlying()) || !isInt(x.X.Type()) {
					v = x.X
					continue
				}
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			break
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, nil, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil, nil, false
		}
		return ia.X, ia.Index, true
	}
	check := func(x, y ssa.Value) bool {
		bx, ix, okx := elem(x)
		by, iy, oky := elem(y)
		return okx && oky && canon(bx) == canon(by) && (ix == f.Params[0] && iy == f.Params[1] || ix == f.Params[1] && iy == f.Params[0])
	}
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		switch x := r.Results[0].(type) {
		case *ssa.BinOp:
			if (x.Op == token.LSS || x.Op == token.GTR) && check(x.X, x.Y) {
				continue
			}
		case *ssa.Call:
			args := x.Call.Args
			if x.Call.IsInvoke() {
				args = append([]ssa.Value{x.Call.Value}, args...)
			}
			name := ""
			if x.Call.IsInvoke() {
				name = x.Call.Method.Name()
			} else if g := x.Call.StaticCallee(); g != nil {
				name = g.Name()
			}
			if name == "lessThan" && len(args) == 2 && check(args[0], args[1]) {
				continue
			}
		}
		return false, "the comparator does not compare the whole elements: the order of elements it finds equal depends on the order of iteration"
	}
	return n > 0, "the comparator has no result"
}

// sortCalls: every call that sorts, and what it sorts.
func sortCall(in ssa.Instruction) (ssa.Value, ssa.Value, string) {
	f, cc := callee(in)
	if f == nil {
		return nil, nil, ""
	}
	n := f.String()
	if f.Origin() != nil {
		n = f.Origin().String()
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return v
		}
	}
	switch n {
	case "sort.Slice", "sort.SliceStable":
		return strip(cc.Args[0]), cc.Args[1], n
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return strip(cc.Args[0]), nil, n
	}
	return nil, nil, n
}

// sortedBeforeUse: the slice filled in iteration order is sorted by a total order before it is used or returned.
func (c *Ctx) sortedBeforeUse(l *mapLoop, pd pending) (bool, string) {
	var sorts []ssa.Instruction
	why := "it is never sorted"
	matches := func(v ssa.Value) bool {
		if pd.val != nil {
			return v == pd.val
		}
		if pd.phi != nil {
			return v == pd.phi || reachesPhi(v, pd.phi)
		}
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && canon(u.X) == pd.loc
	}
	eachInstr(l.f, func(in ssa.Instruction) {
		s, cmp, name := sortCall(in)
		if s == nil || !matches(s) || l.body[in.Block()] {
			return
		}
		if cmp != nil {
			ok, msg := c.totalComparator(cmp)
			if !ok {
				why = msg
				return
			}
		}
		_ = name
		sorts = append(sorts, in)
	})
	if len(sorts) == 0 {
		return false, why
	}
	dom := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s.Block() == in.Block() {
				for _, x := range in.Block().Instrs {
					if x == s {
						return true
					}
					if x == in {
						break
					}
				}
			} else if s.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	after := reachable(l.header)
	bad := ""
	eachInstr(l.f, func(in ssa.Instruction) {
		if bad != "" || l.body[in.Block()] || !after[in.Block()] || dom(in) {
			return
		}
		for _, s := range sorts {
			if s == in {
				return
			}
		}
		if _, ok := in.(*ssa.Return); ok {
			bad = "a return at " + c.P.pos(in) + " is reached without sorting it"
			if pd.phi != nil && !usesPhi(in, pd.phi) || pd.val != nil && !uses(in, pd.val) {
				bad = ""
			}
			return
		}
		if harmless(in, sorts) {
			return
		}
		if pd.phi != nil || pd.val != nil {
			if pd.phi != nil && usesPhi(in, pd.phi) || pd.val != nil && uses(in, pd.val) {
				bad = "used at " + c.P.pos(in) + " before it is sorted"
			}
			return
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && canon(u.X) == pd.loc {
			// loads feeding the sort itself, or its length, are fine
			for _, r := range *u.Referrers() {
				if !feedsSort(r, sorts) && !isLenCall(r) {
					bad = "used at " + c.P.pos(in) + " before it is sorted"
				}
			}
		}
		if cf, cc := callee(in); cc != nil && (cf == nil || c.P.inModule(cf)) {
			bad = "passed on by the call at " + c.P.pos(in) + " before it is sorted"
			for _, a := range cc.Args {
				if _, ok := a.Type().Underlying().(*types.Pointer); ok {
					return
				}
			}
			bad = ""
		}
	})
	return bad == "", bad
}

func isLenCall(in ssa.Instruction) bool {
	if call, ok := in.(*ssa.Call); ok {
		b, ok := call.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	}
	return false
}

func feedsSort(in ssa.Instruction, sorts []ssa.Instruction) bool {
	for _, s := range sorts {
		if in == s {
			return true
		}
	}
	switch x := in.(type) {
	case *ssa.MakeInterface:
		for _, r := range *x.Referrers() {
			if !feedsSort(r, sorts) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		for _, r := range *x.Referrers() {
			if !feedsSort(r, sorts) {
				return false
			}
		}
		return true
	}
	return false
}

func harmless(in ssa.Instruction, sorts []ssa.Instruction) bool {
	if isLenCall(in) {
		return true
	}
	return feedsSort(in, sorts)
}

func usesPhi(in ssa.Instruction, p *ssa.Phi) bool {
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op == p || reachesPhi(*op, p)) {
			return true
		}
	}
	return false
}

func uses(in ssa.Instruction, v ssa.Value) bool {
	for _, op := range in.Operands(nil) {
		if *op == v {
			return true
		}
	}
	return false
}

func reachesPhi(v ssa.Value, p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.ChangeType:
			return walk(x.X)
		}
		return false
	}
	return walk(v)
}

func reachable(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if m[b] {
			return
		}
		m[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(b)
	return m
}

// judge analyses one loop over a map and returns what makes its result depend on the order of iteration.
func (c *Ctx) judge(l *mapLoop) (string, string) {
	var o *orderCtx
	var fr *oframe
	written := map[string]bool{}
	for round := 0; round < 3; round++ {
		o = &orderCtx{c: c, l: l, memo: map[string]cls{}, written: map[string]bool{}}
		for k := range written {
			o.written[k] = true
		}
		fr = &oframe{o: o, f: l.f, params: map[ssa.Value]cls{}, memo: map[ssa.Value]cls{}}
		fr.in = func(b *ssa.BasicBlock) bool { return b != l.header && (l.body[b] || o.inRegion(b)) || b == l.header }
		n := len(written)
		fr.effects()
		fr.phis()
		fr.exits()
		for k := range o.written {
			written[k] = true
		}
		if len(written) == n {
			break
		}
	}
	for _, pd := range o.pend {
		if ok, why := c.sortedBeforeUse(l, pd); !ok {
			return c.P.pos(pd.in), "what is appended here follows the order of iteration, and " + why
		}
	}
	for _, b := range o.bad {
		if strings.HasPrefix(b, "exit@") {
			if o.effects > 0 {
				return strings.TrimPrefix(b, "exit@"), "the loop may be left early, and the iterations done until then have lasting effects"
			}
			continue
		}
		i := strings.Index(b, ": ")
		return b[:i], b[i+2:]
	}
	return "", ""
}

// forbidden sources of values.
func undeterministic(f *ssa.Function) string {
	n := f.String()
	if f.Name() == "init" {
		return "" // a package initialiser
	}
	switch p := pkgPathOf(f); p {
	case "math/rand", "math/rand/v2", "crypto/rand", "runtime", "unsafe", "syscall", "os/user", "hash/maphash", "net", "os/exec", "runtime/debug", "maps":
		return n
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until", "After", "Tick", "Sleep", "NewTimer", "NewTicker", "AfterFunc", "LoadLocation":
			return n
		}
	case "os":
		if n == "(*os.File).Stat" || f.Name() == "IsNotExist" {
			return ""
		}
		return n
	case "reflect":
		if f.Name() == "MapKeys" || f.Name() == "MapRange" || f.Name() == "Pointer" || f.Name() == "UnsafePointer" {
			return n
		}
	}
	return ""
}

func init() {
	register("C18", "SSA dataflow over every function of the module: each loop over a map is shown to have iterations that commute (stores under this iteration's key, to this iteration's objects, sums, maxima, sets, objects created when missing, assignments proved to happen once) or to fill a slice that a total order sorts before any other use, and to leave early only without lasting effects and with a result that does not depend on the iteration; no goroutine, select, clock, random, environment, address formatting or unsafe pointer is used; unstable sorts compare whole elements.",
		func(c *Ctx) {
			p := c.P
			loops, sorts, calls := 0, 0, 0
			for _, f := range p.allFuncs() {
				for _, l := range mapLoops(f) {
					loops++
					where, why := c.judge(l)
					if where == "" {
						where = p.pos(l.rng)
					}
					c.ob("map-loop", shortFn(f)+"|"+canonRange(l), why == "", where, why)
				}
				eachInstr(f, func(in ssa.Instruction) {
					switch x := in.(type) {
					case *ssa.Go, *ssa.Select, *ssa.Send:
						c.ob("concurrency", shortFn(f), false, p.pos(in), "a goroutine or channel makes the result depend on scheduling")
					case *ssa.Convert:
						if b, ok := x.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr && isPtrType(x.X.Type())) {
							c.ob("address", shortFn(f), false, p.pos(in), "a memory address is turned into a number")
						}
					case *ssa.UnOp:
						if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
							c.ob("source", shortFn(f)+"|"+g.Name(), false, p.pos(in), "reads os."+g.Name())
						}
					}
					cf, cc := callee(in)
					if cf == nil {
						return
					}
					if !p.inModule(cf) {
						calls++
						if n := undeterministic(cf); n != "" {
							c.ob("source", shortFn(f)+"|"+n, false, p.pos(in), "calls "+n+", whose result is not determined by the arguments")
						}
						if pkgPathOf(cf) == "fmt" {
							c.formatted(f, in, cc)
						}
					}
					if s, cmp, n := sortCall(in); s != nil {
						sorts++
						if n == "sort.Slice" {
							ok, msg := c.totalComparator(cmp)
							c.ob("sort", shortFn(f)+"|"+c.srcText(in), ok, p.pos(in), msg)
						} else {
							c.ob("sort", shortFn(f)+"|"+c.srcText(in), true, p.pos(in), "")
						}
					}
				})
			}
			c.floor("loops over maps", loops, 12)
			c.floor("sorts", sorts, 4)
			c.count("external calls examined", calls)
			c.assumption("encoding/json, encoding/xml and text/template emit maps in sorted key order (documented); maps of a caller's values do not alias one another's entries")
		})
}

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	if b, is := t.Underlying().(*types.Basic); is && b.Kind() == types.UnsafePointer {
		return true
	}
	return ok
}

func canonRange(l *mapLoop) string {
	return shortType(l.rng.X.Type())
}

// formatted: fmt verbs that print addresses.
func (c *Ctx) formatted(f *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		if s, ok := ssaStr(a); ok && strings.Contains(s, "%p") {
			c.ob("address", shortFn(f)+"|format", false, c.P.pos(in), "formats a memory address")
		}
	}
}
