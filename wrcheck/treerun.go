package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopOf is the natural loop of each header.
type tLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*tLoop {
	out := map[*ssa.BasicBlock]*tLoop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := out[s]
			if l == nil {
				l = &tLoop{s, map[*ssa.BasicBlock]bool{s: true}}
				out[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// call evaluates a function; outcomes that return an error are left out.
func (t *tev) call(st *tState, f *ssa.Function, args, fv []tVal, in ssa.Instruction) []tEnd {
	if t.depth > 12 || len(f.Blocks) == 0 {
		t.issue("undecided", in, "a call cannot be followed")
		return []tEnd{{kind: "ret", st: st, vals: []tVal{t.opq(in, "call")}}}
	}
	t.funcs[f] = true
	t.depth++
	defer func() { t.depth-- }()
	saved, made := st.env, t.n
	st.env = map[ssa.Value]tVal{}
	for i, p := range f.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(fv) {
			st.env[p] = fv[i]
		}
	}
	ends := t.walk(st, f.Blocks[0], nil, nil, loopsOf(f))
	var out []tEnd
	seen := map[string]bool{}
	for _, e := range ends {
		if n := len(e.vals); n > 0 {
			if _, bad := e.vals[n-1].(tErr); bad {
				continue
			}
		}
		if e.st.broken != nil {
			t.issue("whole", e.st.broken, "a traversal may end before all elements have been seen")
		}
		e.st.drop(made, e.vals)
		k := e.st.key()
		for _, v := range e.vals {
			k += "/" + v.tkey()
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		e.st.env = map[ssa.Value]tVal{}
		for x, v := range saved {
			e.st.env[x] = v
		}
		out = append(out, e)
	}
	return out
}

// walk follows the blocks until the function returns or the loop that is being evaluated ends or repeats.
func (t *tev) walk(st *tState, b, prev *ssa.BasicBlock, in *tLoop, loops map[*ssa.BasicBlock]*tLoop) []tEnd {
	first := true
	for {
		if t.steps++; t.steps > 60000 {
			t.issue("undecided", nil, "too many paths")
			return nil
		}
		if in != nil && !first {
			if b == in.head {
				return []tEnd{{kind: "cont", st: st, prev: prev}}
			}
			if !in.body[b] {
				return []tEnd{{kind: "brk", st: st, blk: b, prev: prev}}
			}
		}
		if l := loops[b]; l != nil && (in == nil || b != in.head) {
			ends := t.loop(st, l, prev, loops)
			var out []tEnd
			for _, e := range ends {
				if e.kind == "exit" {
					out = append(out, t.resume(e.st, e.blk, e.prev, in, loops)...)
				} else {
					out = append(out, e)
				}
			}
			return out
		}
		first = false
		start := 0
		if prev != nil {
			start = t.phis(st, b, prev)
		}
		outs := t.instrs(st, b, start)
		var out []tEnd
		for _, o := range outs {
			if o.kind == "ret" {
				out = append(out, o)
				continue
			}
			out = append(out, t.resume(o.st, o.blk, b, in, loops)...)
		}
		return out
	}
}

// resume continues at a block reached from another.
func (t *tev) resume(st *tState, b, prev *ssa.BasicBlock, in *tLoop, loops map[*ssa.BasicBlock]*tLoop) []tEnd {
	if in != nil {
		if b == in.head {
			return []tEnd{{kind: "cont", st: st, prev: prev}}
		}
		if !in.body[b] {
			return []tEnd{{kind: "brk", st: st, blk: b, prev: prev}}
		}
	}
	if in != nil {
		// inside the loop: not its header
		return t.walkIn(st, b, prev, in, loops)
	}
	return t.walk(st, b, prev, nil, loops)
}

func (t *tev) walkIn(st *tState, b, prev *ssa.BasicBlock, in *tLoop, loops map[*ssa.BasicBlock]*tLoop) []tEnd {
	if loops[b] == nil {
		if t.steps++; t.steps > 60000 {
			t.issue("undecided", nil, "too many paths")
			return nil
		}
		start := t.phis(st, b, prev)
		var out []tEnd
		for _, o := range t.instrs(st, b, start) {
			if o.kind == "ret" {
				out = append(out, o)
				continue
			}
			out = append(out, t.resume(o.st, o.blk, b, in, loops)...)
		}
		return out
	}
	var out []tEnd
	for _, e := range t.loop(st, loops[b], prev, loops) {
		if e.kind == "exit" {
			out = append(out, t.resume(e.st, e.blk, e.prev, in, loops)...)
		} else {
			out = append(out, e)
		}
	}
	return out
}

func (t *tev) phis(st *tState, b, prev *ssa.BasicBlock) int {
	i := 0
	vals := map[ssa.Value]tVal{}
	for ; i < len(b.Instrs); i++ {
		p, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		for k, x := range b.Preds {
			if x == prev {
				vals[p] = t.val(st, p.Edges[k])
			}
		}
	}
	for p, v := range vals {
		st.env[p] = v
	}
	return i
}

// instrs evaluates a block from an instruction; calls may give several states.
func (t *tev) instrs(st *tState, b *ssa.BasicBlock, from int) []tEnd {
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Return:
			var vs []tVal
			for _, r := range x.Results {
				vs = append(vs, t.val(st, r))
			}
			return []tEnd{{kind: "ret", st: st, vals: vs}}
		case *ssa.Jump:
			return []tEnd{{st: st, blk: b.Succs[0]}}
		case *ssa.If:
			return t.branch(st, x, b)
		case *ssa.Panic:
			return nil
		case *ssa.Call:
			outs := t.doCall(st, x)
			if len(outs) == 1 {
				st = outs[0].st
				st.env[x] = tPack(outs[0].vals)
				continue
			}
			var res []tEnd
			for _, o := range outs {
				o.st.env[x] = tPack(o.vals)
				res = append(res, t.instrs(o.st, b, i+1)...)
			}
			return res
		default:
			t.instr(st, in)
		}
	}
	return nil
}

func tPack(v []tVal) tVal {
	if len(v) == 1 {
		return v[0]
	}
	return tTup{v}
}

func (t *tev) branch(st *tState, x *ssa.If, b *ssa.BasicBlock) []tEnd {
	c, ok := t.val(st, x.Cond).(tBool)
	if ok && c.known {
		if c.v {
			return []tEnd{{st: st, blk: b.Succs[0]}}
		}
		return []tEnd{{st: st, blk: b.Succs[1]}}
	}
	s2 := st.clone()
	out := []tEnd{{st: st, blk: b.Succs[0]}, {st: s2, blk: b.Succs[1]}}
	if ok {
		neg := strings.HasPrefix(c.k, "not:")
		k := strings.TrimPrefix(c.k, "not:")
		yes, no := st, s2
		if neg {
			yes, no = s2, st
		}
		if len(c.zx.t) > 0 {
			if c.zt {
				st.zero = append(st.zero, c.zx)
			} else {
				s2.zero = append(s2.zero, c.zx)
			}
		}
		switch {
		case strings.HasPrefix(k, "eq:"):
			t.refineKeys(yes, no, k[3:])
		case strings.HasPrefix(k, "ne:"):
			t.refineKeys(no, yes, k[3:])
		case strings.HasPrefix(k, "visit:"):
			no.stop = k
			yes.more = k
		case t.edit && (strings.HasPrefix(k, "nil:") || strings.HasPrefix(k, "empty:") || strings.HasPrefix(k, "one:")):
			yes.trail = append(yes.trail, k)
			no.trail = append(no.trail, "not:"+k)
			if k[:3] == "nil" {
				yes.heap["mv:"+k[4:]] = tNil{}
			}
		case t.edit && strings.HasPrefix(k, "found:"):
			yes.trail = append(yes.trail, "not:nil:"+k[6:])
			no.trail = append(no.trail, "nil:"+k[6:])
			no.heap["mv:"+k[6:]] = tNil{}
		case strings.HasPrefix(k, "is(winres.Name)("):
			no.reg("not|" + strings.TrimSuffix(k[len("is(winres.Name)("):], ")"))
		case strings.HasPrefix(k, "is(winres.ID)("):
			yes.reg("not|" + strings.TrimSuffix(k[len("is(winres.ID)("):], ")"))
		}
	}
	return out
}

// refineKeys: a list of keys is nil in one state and complete in the other.
func (t *tev) refineKeys(isNil, full *tState, cell string) {
	kn, ok := isNil.heap[cell].(tKN)
	if !ok {
		return
	}
	isNil.heap[cell] = tNil{}
	full.heap[cell] = tList{f: kn.f, sorted: true}
	// the counts kept with the list are those made with it
	for k, v := range full.heap {
		if i, ok := v.(tInt); ok && strings.HasPrefix(k, kn.node+".") && strings.HasPrefix(i.x.key(), "fld:"+kn.node+".") && !strings.Contains(k[len(kn.node)+1:], ".") {
			full.heap[k] = tInt{sAtom("names(" + kn.f + ")")}
		}
	}
}

func (t *tev) fieldAddr(st *tState, x *ssa.FieldAddr) tVal {
	s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	name := s.Field(x.Field).Name()
	switch p := t.val(st, x.X).(type) {
	case tObj:
		return tObj{p.id + "." + name}
	case tNode:
		d := t.nodeField(p.path, s, x.Field)
		cell := p.path + "." + name
		if kn, ok := d.(tKN); ok {
			if _, ok := st.heap[cell]; !ok {
				st.heap[cell] = kn
				for i := 0; i < s.NumFields(); i++ {
					if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						if c2 := p.path + "." + s.Field(i).Name(); st.heap[c2] == nil {
							st.heap[c2] = tInt{sAtom("fld:" + c2)}
						}
					}
				}
			}
		}
		return tTup{[]tVal{tStr{cell}, d}}
	case tTup:
		return tOpq{"field of field"}
	}
	return t.opq(x, "field")
}

func (t *tev) instr(st *tState, in ssa.Instruction) {
	set := func(v ssa.Value, r tVal) { st.env[v] = r }
	switch x := in.(type) {
	case *ssa.Alloc:
		o := tObj{t.fresh("o")}
		t.zeroCells(st, o.id, x.Type().Underlying().(*types.Pointer).Elem())
		set(x, o)
	case *ssa.FieldAddr:
		set(x, t.fieldAddr(st, x))
	case *ssa.Field:
		if s, ok := t.val(st, x.X).(tStruct); ok && x.Field < len(s.f) {
			set(x, s.f[x.Field])
			return
		}
		set(x, t.opq(in, "field"))
	case *ssa.IndexAddr:
		set(x, t.elem(st, t.val(st, x.X), t.val(st, x.Index), x))
	case *ssa.Index:
		set(x, t.elem(st, t.val(st, x.X), t.val(st, x.Index), x))
	case *ssa.UnOp:
		a := t.val(st, x.X)
		switch x.Op {
		case token.MUL:
			set(x, t.load(st, a, x.Type(), in))
		case token.NOT:
			switch b := a.(type) {
			case tBool:
				if b.known {
					set(x, tBool{known: true, v: !b.v})
				} else if strings.HasPrefix(b.k, "not:") {
					set(x, boolT(b.k[4:]))
				} else {
					set(x, boolT("not:"+b.k))
				}
			default:
				set(x, boolT("b"))
			}
		case token.SUB:
			if i, ok := asInt(a); ok {
				set(x, tInt{i.mul(-1)})
				return
			}
			set(x, t.opq(in, "op"))
		case token.XOR:
			if i, ok := asInt(a); ok && i.isK() {
				set(x, tInt{sK(^i.c)})
				return
			}
			set(x, tInt{sAtom(t.fresh("int"))})
		default:
			set(x, t.opq(in, "op"))
		}
	case *ssa.Store:
		t.store(st, t.val(st, x.Addr), t.val(st, x.Val), x.Val.Type(), in)
	case *ssa.BinOp:
		set(x, t.binop(x, t.val(st, x.X), t.val(st, x.Y)))
	case *ssa.MakeSlice:
		n, ok := asInt(t.val(st, x.Len))
		if !ok {
			n = sAtom(t.fresh("len"))
		}
		e := ""
		if n.isK() && n.c == 0 {
			e = "empty"
		}
		set(x, tSl{n, e})
	case *ssa.MakeMap:
		f := t.fresh("m")
		set(x, tMap{f})
	case *ssa.MakeInterface:
		set(x, t.val(st, x.X))
	case *ssa.ChangeInterface:
		set(x, t.val(st, x.X))
	case *ssa.ChangeType:
		set(x, t.val(st, x.X))
	case *ssa.MakeClosure:
		var fv []tVal
		for _, b := range x.Bindings {
			fv = append(fv, t.val(st, b))
		}
		set(x, tFn{x.Fn.(*ssa.Function), fv})
	case *ssa.Convert:
		set(x, t.convert(st, x))
	case *ssa.TypeAssert:
		v := t.val(st, x.X)
		if d, ok := v.(tDyn); ok {
			is := d.typ == typeStr(x.AssertedType)
			if x.CommaOk {
				r := d.v
				if !is {
					r = t.zero(x.AssertedType)
				}
				set(x, tTup{[]tVal{r, tBool{known: true, v: is}}})
				return
			}
			set(x, d.v)
			return
		}
		if !x.CommaOk {
			set(x, v)
			return
		}
		switch k := v.(type) {
		case tKey, tAt:
			set(x, tTup{[]tVal{v, boolT("is(" + typeStr(x.AssertedType) + ")(" + k.tkey() + ")")}})
		default:
			set(x, tTup{[]tVal{v, boolT("is")}})
		}
	case *ssa.Lookup:
		set(x, t.lookup(st, x))
	case *ssa.Range:
		if m, ok := t.val(st, x.X).(tMap); ok {
			set(x, tIt{m.f})
			return
		}
		set(x, t.opq(in, "range"))
	case *ssa.Extract:
		if u, ok := t.val(st, x.Tuple).(tTup); ok && x.Index < len(u.v) {
			set(x, u.v[x.Index])
			return
		}
		set(x, t.opq(in, "extract"))
	case *ssa.Slice:
		set(x, t.slice(st, x))
	case *ssa.MapUpdate:
		t.mapUpdate(st, x)
	case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, t.opq(in, "instruction"))
		} else {
			t.issue("undecided", in, "an instruction cannot be followed")
		}
	}
}

// zeroCells gives the totals kept in new storage their first value.
func (t *tev) zeroCells(st *tState, id string, ty types.Type) {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			t.zeroCells(st, id+"."+u.Field(i).Name(), u.Field(i).Type())
		}
	case *types.Basic, *types.Slice:
		st.heap[id] = t.zero(ty)
	}
}

func (t *tev) mapUpdate(st *tState, x *ssa.MapUpdate) {
	m, ok := t.val(st, x.Map).(tMap)
	if !ok {
		return
	}
	k := t.val(st, x.Key)
	if t.edit {
		p := tElem(m.f, k)
		st.trail = append(st.trail, "set:"+p)
		st.heap["mv:"+p] = t.val(st, x.Value)
		return
	}
	if !strings.HasPrefix(m.f, "m~") {
		t.issue("keys", x, "the tree changes while it is traversed")
		return
	}
	st.reg(m.f + "|" + k.tkey())
	if i, ok := asInt(t.val(st, x.Value)); ok {
		st.eff = append(st.eff, &tEff{kind: "put", vals: []tVal{tInt{i}, k}, where: t.c.P.pos(x)})
	}
}

// tElem names the element of a map at a key.
func tElem(f string, k tVal) string {
	if y, ok := k.(tKey); ok && strings.HasPrefix(y.f, "?") {
		return f + "[" + y.f + "]"
	}
	return f + "[?]"
}

// lookup in a map with a key.
func (t *tev) lookup(st *tState, x *ssa.Lookup) tVal {
	m, ok := t.val(st, x.X).(tMap)
	if !ok {
		return t.opq(x, "lookup")
	}
	k := t.val(st, x.Index)
	var r tVal
	if t.edit {
		p := tElem(m.f, k)
		r = st.heap["mv:"+p]
		if r == nil && strings.HasPrefix(m.f, "m~") {
			r = tNil{}
		}
		if r != nil {
			if x.CommaOk {
				_, isNil := r.(tNil)
				return tTup{[]tVal{r, tBool{known: true, v: !isNil}}}
			}
			return r
		}
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	s := structOf(et)
	switch y := k.(type) {
	case tKey:
		switch {
		case s != nil && y.f == m.f:
			r = tNode{m.f + "[]", s}
		case s != nil:
			r = tNode{tElem(m.f, k), s}
		default:
			if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r = tInt{sAtom("at(" + m.f + ";" + y.f + "[])")}
			}
		}
	default:
		if s != nil {
			r = tNode{tElem(m.f, k), s}
		}
	}
	if r == nil {
		r = t.opq(x, "lookup")
	}
	if x.CommaOk {
		return tTup{[]tVal{r, boolT("found:" + tElem(m.f, k))}}
	}
	return r
}

func (t *tev) convert(st *tState, x *ssa.Convert) tVal {
	v := t.val(st, x.X)
	to, _ := x.Type().Underlying().(*types.Basic)
	if n, ok := v.(tInt); ok && !n.x.isK() && narrows(x.X.Type(), x.Type()) {
		return tInt{sAtom(to.Name() + "(" + n.x.key() + ")")}
	}
	if k, ok := v.(tKey); ok && narrows(x.X.Type(), x.Type()) {
		return tInt{sAtom(to.Name() + "(key(" + k.f + "[]))")}
	}
	switch k := v.(type) {
	case tKey:
		if to != nil && to.Info()&types.IsInteger != 0 {
			if namedOf(x.Type()) == "" || !isIntType(x.X.Type()) {
				return tInt{sAtom("key(" + k.f + "[])")}
			}
		}
		return k
	case tInt:
		if to != nil && to.Info()&types.IsInteger != 0 {
			return k
		}
	case tStr, tAt:
		return v
	}
	if sl, ok := x.Type().Underlying().(*types.Slice); ok {
		_ = sl
		return tSl{sAtom("len(" + typeStr(x.Type()) + "(" + v.tkey() + "))"), "conv:" + v.tkey()}
	}
	return t.opq(x, "convert")
}

// narrows: a conversion between integers of at most 16 bits, or from one of them, may change the value.
func narrows(from, to types.Type) bool {
	rng := func(ty types.Type) (lo, hi int64) {
		b, ok := ty.Underlying().(*types.Basic)
		if !ok {
			return 0, 0
		}
		switch b.Kind() {
		case types.Int8:
			return -1 << 7, 1<<7 - 1
		case types.Uint8:
			return 0, 1<<8 - 1
		case types.Int16:
			return -1 << 15, 1<<15 - 1
		case types.Uint16:
			return 0, 1<<16 - 1
		case types.Int32, types.Uint32, types.Int, types.Uint, types.Int64, types.Uint64:
			return -1 << 40, 1 << 40
		}
		return 0, 0
	}
	fl, fh := rng(from)
	tl, th := rng(to)
	return fh != 0 && th != 0 && fh < 1<<40 && (fl < tl || fh > th)
}

func isIntType(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// elem is the address, or the value, of an element.
func (t *tev) elem(st *tState, v, i tVal, in ssa.Instruction) tVal {
	n, isInt := asInt(i)
	idx := "?"
	if isInt {
		idx = n.key()
	}
	switch l := v.(type) {
	case tList:
		if strings.HasPrefix(idx, "idx~") {
			if lf := t.bound(st, idx, l, in); lf {
				return tKey{l.f}
			}
		}
		if isInt && n.isK() {
			return tAt{l.f, idx}
		}
		return tAt{l.f, idx}
	case tKN:
		t.issue("stale", in, "a list of keys may be out of date when it is used")
		return tAt{l.f, idx}
	case tObj:
		if isInt && n.isK() {
			return tObj{l.id + "." + idx}
		}
		return tObj{l.id + "?"}
	case tSl:
		return tSl{sAtom("elem"), ""}
	}
	return t.opq(in, "element")
}

// bound ties the index of the loop being evaluated to the list it runs over.
func (t *tev) bound(st *tState, idx string, l tList, in ssa.Instruction) bool {
	b, ok := st.heap["loop:"+idx].(tTup)
	if !ok {
		return false
	}
	lo, _ := asInt(b.v[0])
	hi, _ := asInt(b.v[1])
	whole := sAtom("len(" + l.f + ")")
	var part int
	var n SX
	switch {
	case l.part == 0 && lo.isK() && lo.c == 0 && hi.eq(whole):
	case l.part == 0 && lo.isK() && lo.c == 0:
		part, n = 1, hi
	case l.part == 0 && hi.eq(whole):
		part, n = 2, lo
	case l.part != 0 && lo.isK() && lo.c == 0 && hi.eq(t.lenOf(l, in)):
		part, n = l.part, l.n
	default:
		return false
	}
	is := tList{l.f, part, n, l.sorted}
	if was, ok := st.heap["over:"+idx]; ok && was.tkey() != is.tkey() {
		return false
	}
	st.heap["over:"+idx] = is
	return true
}

func (t *tev) slice(st *tState, x *ssa.Slice) tVal {
	v := t.val(st, x.X)
	lo, hi := sK(0), SX{}
	okLo, okHi := true, false
	if x.Low != nil {
		lo, okLo = asInt(t.val(st, x.Low))
	}
	if x.High != nil {
		hi, okHi = asInt(t.val(st, x.High))
	}
	switch l := v.(type) {
	case tList:
		if !okLo || x.High != nil && !okHi || l.part != 0 {
			break
		}
		switch {
		case lo.isK() && lo.c == 0 && x.High == nil:
			return l
		case lo.isK() && lo.c == 0:
			return tList{l.f, 1, hi, l.sorted}
		case x.High == nil || hi.eq(t.lenOf(l, x)):
			return tList{l.f, 2, lo, l.sorted}
		}
	case tKN:
		t.issue("stale", x, "a list of keys may be out of date when it is used")
		return t.slice2(l, x, lo, hi)
	case tBytes, tSl:
		if !okLo {
			break
		}
		n := t.lenOf(v, x)
		if x.High != nil {
			n = hi
		}
		return tSl{n.add(lo, -1), ""}
	case tObj:
		// array
		n := sAtom("?")
		if a, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := a.Elem().Underlying().(*types.Array); ok {
				n = sK(at.Len())
			}
		}
		if okHi {
			n = hi
		}
		if okLo {
			el := "of:" + l.id
			return tSl{n.add(lo, -1), el}
		}
	}
	return t.opq(x, "slice")
}

func (t *tev) slice2(l tKN, x *ssa.Slice, lo, hi SX) tVal {
	switch {
	case x.High != nil && x.Low == nil:
		return tList{l.f, 1, hi, true}
	case x.High == nil && x.Low != nil:
		return tList{l.f, 2, lo, true}
	}
	return tList{f: l.f, sorted: true}
}

func tOne(st *tState, v ...tVal) []tEnd { return []tEnd{{kind: "ret", st: st, vals: v}} }

func (t *tev) doCall(st *tState, x *ssa.Call) []tEnd {
	cc := x.Common()
	var args []tVal
	for _, a := range cc.Args {
		args = append(args, t.val(st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			return tOne(st, tInt{t.lenOf(args[0], x)})
		case "append":
			return tOne(st, t.append(st, x, args))
		case "copy":
			return tOne(st, tInt{sAtom(t.fresh("copied"))})
		case "delete":
			if m, ok := args[0].(tMap); ok && t.edit {
				p := tElem(m.f, args[1])
				st.trail = append(st.trail, "del:"+p)
				st.heap["mv:"+p] = tNil{}
				return tOne(st)
			}
			if m, ok := args[0].(tMap); ok && !strings.HasPrefix(m.f, "m~") {
				t.issue("keys", x, "the tree changes while it is traversed")
			}
			return tOne(st)
		case "min", "max":
			return tOne(st, tInt{sAtom(t.fresh(b.Name()))})
		}
		return tOne(st, t.opq(x, "builtin"))
	}
	if cc.IsInvoke() {
		recv := t.val(st, cc.Value)
		switch {
		case cc.Method.Name() == "lessThan" || isOrder(cc.Signature()):
			k, ok1 := recv.(tAt)
			l, ok2 := args[0].(tAt)
			if ok1 && ok2 {
				return tOne(st, boolT("lt("+k.tkey()+","+l.tkey()+")"))
			}
			return tOne(st, boolT("lt"))
		case cc.Method.Name() == "Write":
			n := t.lenOf(args[0], x)
			st.eff = append(st.eff, &tEff{kind: "emit", size: n, vals: []tVal{args[0]}, where: t.c.P.pos(x)})
			return tOne(st, tInt{n}, tNil{})
		case cc.Method.Name() == "Error":
			return tOne(st, tStr{"error"})
		}
		t.issue("undecided", x, "a method call cannot be followed")
		return tOne(st, t.opq(x, "invoke"))
	}
	f := cc.StaticCallee()
	if f == nil {
		switch g := t.val(st, cc.Value).(type) {
		case tFn:
			return t.call(st, g.f, args, g.fv, x)
		case tExt:
			if st.stop != "" {
				t.issue("stop", x, "the callback may be called again after it has asked to stop")
			}
			k := t.fresh("visit:" + g.k)
			st.eff = append(st.eff, &tEff{kind: "visit", vals: args, where: t.c.P.pos(x)})
			return tOne(st, boolT(k))
		}
		t.issue("undecided", x, "a call of an unknown function")
		return tOne(st, t.opq(x, "call"))
	}
	if cl, ok := t.val(st, cc.Value).(tFn); ok && len(cl.fv) > 0 {
		return t.call(st, f, args, cl.fv, x)
	}
	if f.Signature.Recv() != nil && f.Name() == "lessThan" {
		k, ok1 := args[0].(tAt)
		l, ok2 := args[1].(tAt)
		if ok1 && ok2 {
			return tOne(st, boolT("lt("+k.tkey()+","+l.tkey()+")"))
		}
	}
	if t.c.P.inModule(f) {
		return t.call(st, f, args, nil, x)
	}
	switch f.String() {
	case "encoding/binary.Write":
		t.emitBinary(st, x, args[2], cc.Args[2])
		return tOne(st, tNil{})
	case "encoding/binary.Size":
		ty := cc.Args[0].Type()
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			ty = mi.X.Type()
		}
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			ty = p.Elem()
		}
		if n := binSize(ty); n > 0 {
			return tOne(st, tInt{sK(n)})
		}
	case "errors.New", "fmt.Errorf":
		return tOne(st, tErr{})
	case "sort.Slice", "sort.SliceStable":
		t.sortSlice(st, x, args)
		return tOne(st)
	case "sort.Strings", "sort.Ints":
		return tOne(st)
	case "sort.Search":
		return tOne(st, t.search(st, x, args))
	case "strings.Compare", "cmp.Compare[string]", "cmp.Compare":
		if a, ok := args[0].(tStr); ok {
			if b, ok := args[1].(tStr); ok {
				return tOne(st, tInt{sAtom("$cmp(" + a.k + "," + b.k + ")")})
			}
		}
	case "unicode/utf16.Encode":
		return tOne(st, tSl{sAtom("len(" + args[0].tkey() + ")"), ""})
	}
	var vs []tVal
	for i := 0; i < f.Signature.Results().Len(); i++ {
		vs = append(vs, t.opq(x, "extern"))
	}
	for i, a := range args {
		if o, ok := a.(tObj); ok {
			for k := range st.heap {
				if strings.HasPrefix(k, o.id) {
					st.heap[k] = t.opq(x, "changed")
				}
			}
		}
		_ = i
	}
	return tOne(st, vs...)
}

// isOrder: func(T) bool, the only method of the sealed identifier interface.
func isOrder(s *types.Signature) bool {
	return s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool]) && types.IsInterface(s.Params().At(0).Type())
}

func (t *tev) append(st *tState, x *ssa.Call, args []tVal) tVal {
	a := args[0]
	if _, ok := a.(tNil); ok {
		a = tSl{sK(0), "empty"}
	}
	// what is appended: a slice made from an array of the arguments, or a slice
	var n SX
	var el tVal
	if sl, ok := args[1].(tSl); ok {
		n = sl.len
		if strings.HasPrefix(sl.elems, "of:") && n.isK() && n.c == 1 {
			el = st.heap[sl.elems[3:]+".0"]
		}
	} else {
		n = t.lenOf(args[1], x)
	}
	switch l := a.(type) {
	case tSl:
		if _, scalar := asInt(el); strings.HasPrefix(l.elems, "acc") && (el == nil || scalar) {
			ef := &tEff{kind: "app", vals: []tVal{tInt{n}}, where: t.c.P.pos(x)}
			if el != nil {
				ef.vals = append(ef.vals, el)
			}
			st.eff = append(st.eff, ef)
		}
		e := ""
		if k, ok := el.(tKey); ok && strings.HasPrefix(l.elems, "acc") && !strings.Contains(l.elems, "+") {
			e = l.elems + "+" + k.f
		} else if strings.HasPrefix(l.elems, "acc") {
			e = strings.TrimSuffix(l.elems, "+?") + "+?"
		}
		return tSl{l.len.add(n, 1), e}
	case tList, tBytes:
		return tSl{t.lenOf(a, x).add(n, 1), ""}
	}
	return t.opq(x, "append")
}

func (t *tev) emitBinary(st *tState, x *ssa.Call, v tVal, sv ssa.Value) {
	ty := sv.Type()
	if mi, ok := sv.(*ssa.MakeInterface); ok {
		ty = mi.X.Type()
	}
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
		v = t.load(st, v, ty, x)
	}
	e := &tEff{kind: "emit", typ: ty, vals: []tVal{v}, where: t.c.P.pos(x)}
	if s, ok := ty.Underlying().(*types.Slice); ok {
		e.size = t.lenOf(v, x).mul(max(binSize(s.Elem()), 1))
	} else {
		e.size = sK(binSize(ty))
	}
	st.eff = append(st.eff, e)
}

// sortSlice: the comparison must be that of the two elements.
func (t *tev) sortSlice(st *tState, x *ssa.Call, args []tVal) {
	l, ok := args[0].(tList)
	fn, ok2 := args[1].(tFn)
	if !ok {
		return
	}
	good := false
	if ok2 {
		s2 := st.clone()
		outs := t.call(s2, fn.f, []tVal{tInt{sAtom("i")}, tInt{sAtom("j")}}, fn.fv, x)
		good = len(outs) == 1 && len(outs[0].vals) == 1 && outs[0].vals[0].tkey() == boolT("lt(at:"+l.f+"[i],at:"+l.f+"[j])").tkey()
	}
	if !good {
		t.issue("order", x, "the keys may not be sorted by the order of identifiers")
		return
	}
	t.facts["sorted "+l.f] = true
	// the list itself, wherever it is kept
	for k, v := range st.heap {
		if v.tkey() == l.tkey() {
			m := l
			m.sorted = true
			st.heap[k] = m
		}
	}
	for k, v := range st.env {
		if v.tkey() == l.tkey() {
			m := l
			m.sorted = true
			st.env[k] = m
		}
	}
}

// search: the number of names in a sorted list of identifiers.
func (t *tev) search(st *tState, x *ssa.Call, args []tVal) tVal {
	fn, ok := args[1].(tFn)
	n, ok2 := asInt(args[0])
	if !ok || !ok2 {
		return tInt{sAtom(t.fresh("search"))}
	}
	s2 := st.clone()
	outs := t.call(s2, fn.f, []tVal{tInt{sAtom("i")}}, fn.fv, x)
	if len(outs) == 1 && len(outs[0].vals) == 1 {
		if b, ok := outs[0].vals[0].(tBool); ok {
			k := b.k
			for _, p := range []string{"is(winres.ID)(at:", "not:is(winres.Name)(at:"} {
				if strings.HasPrefix(k, p) && strings.HasSuffix(k, "[i])") {
					f := strings.TrimSuffix(k[len(p):], "[i])")
					if n.eq(sAtom("len("+f+")")) && t.isSorted(st, f) {
						return tInt{sAtom("names(" + f + ")")}
					}
				}
			}
		}
	}
	return tInt{sAtom(t.fresh("search"))}
}

func (t *tev) isSorted(st *tState, f string) bool {
	for _, v := range st.heap {
		if l, ok := v.(tList); ok && l.f == f && l.sorted {
			return true
		}
	}
	return false
}

// sum is the total over the elements of a part of a map, of which there are n.
func sumOver(f string, part int, n SX, count SX, e SX) SX {
	r := count.mul(e.c)
	for k, m := range e.t {
		if !strings.Contains(k, f+"[]") {
			if count.isK() {
				r = r.add(sAtom(k), m*count.c)
			} else {
				r = r.add(sAtom("("+count.key()+")*"+k), m)
			}
			continue
		}
		all := sAtom("S(" + f + ";" + k + ")")
		first := sAtom("S(" + f + "<" + n.key() + ";" + k + ")")
		switch part {
		case 0:
			r = r.add(all, m)
		case 1:
			r = r.add(first, m)
		case 2:
			r = r.add(all, m).add(first, -m)
		}
	}
	return r
}

// loop evaluates a loop once and generalises.
func (t *tev) loop(st *tState, l *tLoop, prev *ssa.BasicBlock, loops map[*ssa.BasicBlock]*tLoop) []tEnd {
	h := l.head
	t.loops++
	id := t.fresh("")
	fail := func(msg string) []tEnd {
		t.issue("undecided", h.Instrs[len(h.Instrs)-1], msg)
		return nil
	}
	t.phis(st, h, prev)
	var next *ssa.Next
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			next = n
		}
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return fail("a loop of an unknown form")
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	var idxPhi *ssa.Phi
	var lo, hi SX
	idx := "idx" + id
	over := tList{}
	body, exit := h.Succs[0], h.Succs[1]
	if !l.body[body] {
		body, exit = exit, body
		return fail("a loop of an unknown form")
	}
	if next != nil {
		it, ok := t.val(st, next.Iter).(tIt)
		if !ok {
			if next.IsString {
				return fail("a loop over a string")
			}
			return fail("a loop over an unknown map")
		}
		over = tList{f: it.f}
	} else {
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			return fail("a loop of an unknown form")
		}
		off := int64(0)
		switch y := c.X.(type) {
		case *ssa.Phi:
			idxPhi = y
		case *ssa.BinOp:
			p, ok1 := y.X.(*ssa.Phi)
			k, ok2 := y.Y.(*ssa.Const)
			if ok1 && ok2 && y.Op == token.ADD && k.Int64() == 1 {
				idxPhi, off = p, 1
			}
		}
		if idxPhi == nil || idxPhi.Block() != h {
			return fail("a loop of an unknown form")
		}
		a, ok1 := asInt(t.val(st, idxPhi))
		lim := t.val(st, c.Y)
		if in, ok := c.Y.(ssa.Instruction); ok && in.Block() == h { // the limit is computed each time
			s2 := st.clone()
			for _, in := range h.Instrs {
				if in == c {
					break
				}
				if cl, ok := in.(*ssa.Call); ok {
					o := t.doCall(s2, cl)
					if len(o) == 1 {
						s2.env[cl] = tPack(o[0].vals)
					}
				} else if _, ok := in.(*ssa.Phi); !ok {
					t.instr(s2, in)
				}
			}
			lim = t.val(s2, c.Y)
		}
		b, ok2 := asInt(lim)
		if !ok1 || !ok2 {
			return fail("a loop with unknown bounds")
		}
		lo, hi = a.add(sK(off), 1), b
	}

	// the state of one iteration
	s := st.clone()
	s.eff = nil
	accs := map[string]string{} // phi or cell -> atom
	inits := map[string]tVal{}
	atom := func(name string) string { return "p" + id + ":" + name }
	for _, p := range phis {
		if p == idxPhi {
			continue
		}
		k := "phi:" + p.Name()
		inits[k] = t.val(st, p)
		switch v := inits[k].(type) {
		case tInt:
			accs[k] = atom(p.Name())
			s.env[p] = tInt{v.x.add(sAtom(accs[k]), 1)}
		case tSl:
			accs[k] = atom(p.Name())
			s.env[p] = tSl{v.len.add(sAtom(accs[k]), 1), "acc" + accs[k] + "/" + v.elems}
		case tNil:
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				accs[k] = atom(p.Name())
				s.env[p] = tSl{sAtom(accs[k]), "acc" + accs[k] + "/empty"}
				inits[k] = tSl{sK(0), "empty"}
			}
		}
	}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "loop:") || strings.HasPrefix(k, "over:") {
			continue
		}
		inits[k] = v
		switch v := v.(type) {
		case tInt:
			if !strings.HasPrefix(k, "o~") {
				continue // fields of the tree are not totals
			}
			accs[k] = atom(k)
			s.heap[k] = tInt{v.x.add(sAtom(accs[k]), 1)}
		case tSl:
			accs[k] = atom(k)
			s.heap[k] = tSl{v.len.add(sAtom(accs[k]), 1), "acc" + accs[k] + "/" + v.elems}
		case tNil:
			if strings.HasPrefix(k, "o~") {
				continue
			}
		}
	}
	if next != nil {
		et := next.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		var v tVal = t.opq(next, "value")
		if sx := structOf(et.Elem()); sx != nil {
			v = tNode{over.f + "[]", sx}
		}
		s.env[next] = tTup{[]tVal{tBool{known: true, v: true}, tKey{over.f}, v}}
		st.env[next] = tTup{[]tVal{tBool{known: true}, t.opq(next, "key"), t.opq(next, "value")}}
	} else {
		cnt := sAtom(idx)
		s.env[idxPhi] = tInt{cnt}
		if lo2, _ := asInt(t.val(st, idxPhi)); !lo2.eq(lo) {
			s.env[idxPhi] = tInt{cnt.add(sK(-1), 1)}
		}
		s.heap["loop:"+idx] = tTup{[]tVal{tInt{lo}, tInt{hi}}}
	}
	// evaluate the header without deciding its test, then the body
	t.header(s, h)
	ends := t.resume(s, body, h, l, loops)
	var conts, rets, all []tEnd
	seen := map[string]bool{}
	for _, e := range ends {
		switch e.kind {
		case "cont":
			if e.st.broken != nil {
				t.issue("whole", e.st.broken, "a traversal may end before all elements have been seen")
			}
			all = append(all, e)
			t.latch(e.st, h, e.prev)
			k := e.st.key()
			for _, p := range phis {
				k += "/" + t.val(e.st, p).tkey()
			}
			if !seen[k] {
				seen[k] = true
				conts = append(conts, e)
			}
		case "brk":
			if e.st.stop == "" && e.st.broken == nil {
				e.st.broken = iff // allowed on the way to an error
			}
			rets = append(rets, tEnd{kind: "exit", st: e.st, blk: e.blk, prev: e.prev})
		default:
			rets = append(rets, e)
		}
	}
	if len(conts) == 0 {
		return fail("a loop whose body never ends")
	}
	var few []tEnd
	for i, a := range conts {
		dup := false
		for j, b := range conts {
			same := i != j && a.st.heapKey() == b.st.heapKey()
			for _, p := range phis {
				same = same && t.val(a.st, p).tkey() == t.val(b.st, p).tkey()
			}
			if same && b.st.covers(a.st) {
				dup = true
			}
		}
		if !dup {
			few = append(few, a)
		}
	}
	if len(few) > 0 {
		conts = few
	}
	if len(conts) > 1 {
		if k := t.condCount(conts, phis, accs); k == "" {
			return fail("a loop whose iterations differ")
		}
	}
	regs := map[string]bool{}
	for i, x := range all {
		if i == 0 {
			for _, y := range all {
				for k := range y.st.regs {
					regs[k] = true
				}
			}
		}
		for k := range regs {
			j := strings.Index(k, "|")
			if !x.st.regs[k] && !x.st.regs["not"+k[j:]] || k[:j] == "not" {
				delete(regs, k)
			}
		}
	}
	e := conts[0].st
	if o, ok := e.heap["over:"+idx].(tList); ok {
		over = o
	}
	count := hi.add(lo, -1)
	if next != nil {
		count = sAtom("len(" + over.f + ")")
	} else if over.f == "" {
		over.f = "n" + id
	}
	out := st.clone()
	for k := range regs {
		out.reg(k)
	}
	// totals
	gone := map[string]SX{}
	pfx := map[string]SX{}
	final := func(k string, v tVal) (tVal, bool) {
		a := accs[k]
		switch i := inits[k].(type) {
		case tInt:
			y, ok := asInt(v)
			if !ok {
				return nil, false
			}
			d := y.add(i.x, -1).add(sAtom(a), -1)
			if d.has(a) || idxIn(d, idx) {
				return tInt{sAtom(t.fresh("int"))}, true
			}
			if d.isK() && d.c == 0 {
				gone[a] = sK(0)
				return i, true
			}
			pfx[a] = d
			return tInt{i.x.add(sumOver(over.f, over.part, over.n, count, d), 1)}, true
		case tSl:
			y, ok := v.(tSl)
			if !ok {
				return nil, false
			}
			d := y.len.add(i.len, -1).add(sAtom(a), -1)
			if d.has(a) || idxIn(d, idx) {
				return tSl{sAtom(t.fresh("len")), ""}, true
			}
			if d.isK() && d.c == 0 && y.elems == "acc"+a+"/"+i.elems {
				gone[a] = sK(0)
				return i, true
			}
			pfx[a] = d
			if y.elems == "acc"+a+"/empty+"+over.f && over.part == 0 && d.isK() && d.c == 1 {
				return tList{f: over.f}, true
			}
			return tSl{i.len.add(sumOver(over.f, over.part, over.n, count, d), 1), ""}, true
		}
		return nil, false
	}
	for _, p := range phis {
		if p == idxPhi {
			out.env[p] = tInt{hi}
			continue
		}
		k := "phi:" + p.Name()
		v := t.val(e, p)
		if _, ok := accs[k]; ok {
			if r, ok := final(k, v); ok {
				out.env[p] = r
				continue
			}
		}
		if v.tkey() == inits[k].tkey() {
			out.env[p] = v
		} else {
			out.env[p] = t.opq(p, "loop value")
		}
	}
	for k, v := range e.heap {
		if strings.HasPrefix(k, "loop:") || strings.HasPrefix(k, "over:") {
			continue
		}
		if _, ok := accs[k]; ok {
			if r, ok := final(k, v); ok {
				out.heap[k] = r
				continue
			}
		}
		was, had := inits[k]
		switch {
		case had && was.tkey() == v.tkey():
			out.heap[k] = v
		case strings.Contains(k, over.f+"[]") && over.part == 0:
			out.heap[k] = v // every element has been treated in the same way
		case strings.HasPrefix(k, "o~") && !had:
			// made in the loop
		case !had && strings.Contains(k, "["):
			if kn, ok := v.(tKN); ok {
				out.heap[k] = kn
			}
		default:
			out.heap[k] = t.opq(iff, "loop value")
		}
	}
	for k, v := range inits {
		if _, ok := e.heap[k]; !ok && !strings.HasPrefix(k, "phi:") {
			_ = v
			delete(out.heap, k)
		}
	}
	if len(e.eff) > 0 {
		bodyEff := substEff(e.eff, gone)
		out.eff = append(out.eff, &tEff{kind: "loop", f: over.f, part: over.part, n: over.n, sorted: over.sorted && next == nil, body: bodyEff, pfx: pfx, size: count, where: t.c.P.pos(iff)})
	}
	t.header(out, h)
	res := []tEnd{{kind: "exit", st: out, blk: exit, prev: h}}
	for _, r := range rets {
		// what happened before the loop, and an unknown number of iterations
		r.st.eff = append(append([]*tEff{}, st.eff...), &tEff{kind: "loop", f: over.f, part: over.part, body: r.st.eff, where: "stopped"})
		for k := range r.st.heap {
			if strings.HasPrefix(k, "loop:"+idx) || strings.HasPrefix(k, "over:"+idx) {
				delete(r.st.heap, k)
			}
		}
		res = append(res, r)
	}
	return res
}

func idxIn(d SX, idx string) bool { return d.has(idx) }

// condCount: not used by the tree's own functions; iterations that differ are not followed.
func (t *tev) condCount(conts []tEnd, phis []*ssa.Phi, accs map[string]string) string { return "" }

// header evaluates the instructions of a loop's header other than its phis.
func (t *tev) header(st *tState, h *ssa.BasicBlock) {
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Next:
		case *ssa.Call:
			o := t.doCall(st, x)
			if len(o) == 1 {
				st.env[x] = tPack(o[0].vals)
			}
		default:
			t.instr(st, in)
		}
	}
}

// latch gives the phis their value for the next iteration.
func (t *tev) latch(st *tState, h, prev *ssa.BasicBlock) { t.phis(st, h, prev) }

func substEff(es []*tEff, m map[string]SX) []*tEff {
	if len(m) == 0 {
		return es
	}
	var out []*tEff
	for _, e := range es {
		n := *e
		n.size = e.size.subst(m)
		n.n = e.n.subst(m)
		n.vals = nil
		for _, v := range e.vals {
			n.vals = append(n.vals, substVal(v, m))
		}
		n.body = substEff(e.body, m)
		if e.pfx != nil {
			n.pfx = map[string]SX{}
			for k, v := range e.pfx {
				n.pfx[k] = v.subst(m)
			}
		}
		out = append(out, &n)
	}
	return out
}

func substVal(v tVal, m map[string]SX) tVal {
	switch x := v.(type) {
	case tInt:
		return tInt{x.x.subst(m)}
	case tStruct:
		n := tStruct{}
		for _, f := range x.f {
			n.f = append(n.f, substVal(f, m))
		}
		return n
	case tSl:
		return tSl{x.len.subst(m), x.elems}
	}
	return v
}

func (e *tEff) dump(ind string) string {
	s := ind + e.kind + " " + e.f + fmt.Sprint("/", e.part) + " size " + e.size.key()
	for _, v := range e.vals {
		s += " " + v.tkey()
	}
	for k, v := range e.pfx {
		s += " [" + k + "+=" + v.key() + "]"
	}
	s += "\n"
	for _, b := range e.body {
		s += b.dump(ind + "  ")
	}
	return s
}
