package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(s *State) []*State { return []*State{s} }

// exec interprets one non-terminator instruction.
func (e *Engine) exec(fr *Frame, st *State, in ssa.Instruction) []*State {
	e.steps++
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := allocObj(fr, st, x, "", x.Comment, t)
		o.zero = true
		st.setEnv(x, PtrV{Obj: o})
		return one(st)
	case *ssa.BinOp:
		st.setEnv(x, e.binop(fr, st, x))
		return one(st)
	case *ssa.UnOp:
		return e.unop(fr, st, x)
	case *ssa.Call:
		outs := e.callInstr(fr, st, x, &x.Call)
		var sts []*State
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if o.ret != nil {
				o.st.setEnv(x, o.ret)
			} else if tp, ok := x.Type().(*types.Tuple); !ok || tp.Len() > 0 {
				o.st.setEnv(x, symVal(freshName("ret"), x.Type()))
			}
			sts = append(sts, o.st)
		}
		return sts
	case *ssa.Defer:
		d := deferred{call: &x.Call, in: x, fr: fr}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, st, a))
		}
		d.fn = e.val(fr, st, x.Call.Value)
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
		return one(st)
	case *ssa.RunDefers:
		sts := one(st)
		for len(sts) > 0 {
			any := false
			var next []*State
			for _, s := range sts {
				if len(s.defers) == 0 {
					next = append(next, s)
					continue
				}
				any = true
				d := s.defers[len(s.defers)-1]
				s.defers = s.defers[:len(s.defers)-1]
				for _, o := range e.callVals(fr, s, d.in, d.call, d.fn, d.args) {
					if !o.st.dead {
						next = append(next, o.st)
					}
				}
			}
			sts = next
			if !any {
				break
			}
		}
		return sts
	case *ssa.ChangeType:
		st.setEnv(x, retag(e.val(fr, st, x.X), x.Type()))
		return one(st)
	case *ssa.ChangeInterface:
		v := e.val(fr, st, x.X)
		if s, ok := v.(IfaceSym); ok {
			s.T = x.Type()
			v = s
		}
		st.setEnv(x, v)
		return one(st)
	case *ssa.MakeInterface:
		st.setEnv(x, IfaceV{Dyn: x.X.Type(), V: e.val(fr, st, x.X)})
		return one(st)
	case *ssa.Convert:
		st.setEnv(x, e.convert(fr, st, x, e.val(fr, st, x.X), x.X.Type(), x.Type()))
		return one(st)
	case *ssa.SliceToArrayPointer:
		v := e.val(fr, st, x.X)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s, ok := v.(SliceV); ok {
			e.oblige(fr, st, x, "slice-to-array", geV(addc(s.Len, -n)), "")
		}
		st.setEnv(x, symVal(freshName("s2a"), x.Type()))
		return one(st)
	case *ssa.Extract:
		v := e.val(fr, st, x.Tuple)
		if t, ok := v.(TupleV); ok && x.Index < len(t) {
			st.setEnv(x, t[x.Index])
		} else {
			st.setEnv(x, symVal(freshName("ex"), x.Type()))
		}
		return one(st)
	case *ssa.Field:
		v := e.val(fr, st, x.X)
		if s, ok := v.(StructV); ok {
			st.setEnv(x, s.F[x.Field])
		} else {
			st.setEnv(x, symVal(freshName("fld"), x.Type()))
		}
		return one(st)
	case *ssa.FieldAddr:
		v := e.val(fr, st, x.X)
		p, ok := e.deref(fr, st, x, v)
		if !ok {
			return nil
		}
		st.setEnv(x, PtrV{p.Obj, pathField(p.Path, x.Field)})
		return one(st)
	case *ssa.IndexAddr:
		return e.indexAddr(fr, st, x)
	case *ssa.Index:
		v := e.val(fr, st, x.X)
		i := e.intOf(fr, st, x.Index)
		switch a := v.(type) {
		case ArrV:
			e.boundObl(fr, st, x, i, K(int64(len(a.E))))
			if i.isConst() && i.c >= 0 && i.c < int64(len(a.E)) {
				st.setEnv(x, a.E[i.c])
			} else {
				st.setEnv(x, symVal(freshName("ix"), x.Type()))
			}
		case StrV:
			a = st.normStr(a)
			e.boundObl(fr, st, x, i, a.Len)
			if a.Const && i.isConst() && i.c >= 0 && i.c < int64(len(a.S)) {
				st.setEnv(x, IntV{K(int64(a.S[i.c]))})
			} else {
				st.setEnv(x, symVal("ch:"+a.Key()+"["+i.key()+"]", x.Type()))
			}
		default:
			if at, ok := x.X.Type().Underlying().(*types.Array); ok {
				e.boundObl(fr, st, x, i, K(at.Len()))
			} else {
				e.oblige(fr, st, x, "index", atomV(freshName("idx")), "unknown operand")
			}
			st.setEnv(x, symVal(freshName("ix"), x.Type()))
		}
		return one(st)
	case *ssa.Lookup:
		return e.lookup(fr, st, x)
	case *ssa.MapUpdate:
		m := e.val(fr, st, x.Map)
		k, v := e.val(fr, st, x.Key), e.val(fr, st, x.Value)
		mv, ok := m.(MapV)
		if !ok {
			e.oblige(fr, st, x, "nil-map", falseV, "assignment to an entry of a nil map")
			return nil
		}
		e.oblige(fr, st, x, "nil-map", notV(nilCond(mv)), "assignment to an entry of a nil map")
		e.emit(&Event{Kind: "mapupdate", Fr: fr, St: st, In: x, Args: []Val{m, k, v}, Obj: mv.Obj, Elem: x.Map.Type()})
		e.mapSet(st, mv, k, v, x.Map.Type().Underlying().(*types.Map))
		return one(st)
	case *ssa.MakeMap:
		o := allocObj(fr, st, x, "", "map", x.Type())
		o.zero = true
		st.setEnv(x, MapV{o})
		return one(st)
	case *ssa.MakeSlice:
		ln, cp := e.intOf(fr, st, x.Len), e.intOf(fr, st, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		e.oblige(fr, st, x, "makeslice", geV(ln), "make with negative length "+ln.String())
		e.oblige(fr, st, x, "makeslice", geV(sub(cp, ln)), "make with len > cap")
		e.emit(&Event{Kind: "alloc", Fr: fr, St: st, In: x, L: cp, Elem: et})
		st.addFact(sub(K(maxLen), cp))
		o := allocObj(fr, st, x, "", "make", et)
		o.zero, o.arr = true, true
		st.setEnv(x, SliceV{Obj: o, Off: K(0), Len: ln, Cap: cp})
		return one(st)
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(fr, st, b))
		}
		st.setEnv(x, f)
		return one(st)
	case *ssa.Slice:
		return e.slice(fr, st, x)
	case *ssa.Store:
		v := e.val(fr, st, x.Val)
		p, ok := e.deref(fr, st, x, e.val(fr, st, x.Addr))
		if !ok {
			return nil
		}
		e.emit(&Event{Kind: "store", Fr: fr, St: st, In: x, Obj: p.Obj, Path: p.Path, Val: v, Elem: x.Val.Type()})
		st.store(p.Obj, p.Path, v, x.Val.Type())
		return one(st)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, x)
	case *ssa.Range:
		v := e.val(fr, st, x.X)
		ik := iterKey{x, fr.stack()}
		o := iterObjs[ik]
		if o == nil {
			o = newObj("iter", "iter", types.Typ[types.Int])
			iterObjs[ik] = o
			iterLen[o.id] = newObj("iter", "iter", types.Typ[types.Int])
		}
		st.setCell(cell{o.id, ""}, IntV{K(0)})
		if mv, ok := v.(MapV); ok {
			st.setCell(cell{iterLen[o.id].id, ""}, IntV{e.mapLen(st, mv)})
		}
		st.setEnv(x, IterV{Obj: o, X: v})
		if sv, ok := v.(StrV); ok && e.nulRange {
			if sv = st.normStr(sv); !sv.Const {
				e.gset(st, nulGhost(x), falseV)
			}
		}
		e.emit(&Event{Kind: "range", Fr: fr, St: st, In: x, Args: []Val{v}})
		return one(st)
	case *ssa.Next:
		return e.next(fr, st, x)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.problem("concurrency construct %T in %s is outside the analysed subset", in, shortFn(fr.fn))
		if v, ok := in.(ssa.Value); ok {
			st.setEnv(v, symVal(freshName("conc"), v.Type()))
		}
		return one(st)
	}
	e.problem("unsupported instruction %T in %s", in, shortFn(fr.fn))
	if v, ok := in.(ssa.Value); ok {
		st.setEnv(v, symVal(freshName("unsup"), v.Type()))
	}
	return one(st)
}

func retag(v Val, t types.Type) Val {
	switch x := v.(type) {
	case StructV:
		x.T = t
		return x
	case ArrV:
		x.T = t
		return x
	}
	return v
}

func (e *Engine) intOf(fr *Frame, st *State, v ssa.Value) Lin {
	if v == nil {
		return K(0)
	}
	if i, ok := e.val(fr, st, v).(IntV); ok {
		return i.L
	}
	lo, hi, _, _, _ := intRange(v.Type())
	return atomLin(sym(freshName("int"), lo, hi))
}

// deref checks that a pointer is not nil and returns it.
func (e *Engine) deref(fr *Frame, st *State, in ssa.Instruction, v Val) (PtrV, bool) {
	switch p := v.(type) {
	case PtrV:
		if nilAtom(p) != "" {
			e.oblige(fr, st, in, "nil-deref", notV(nilCond(p)), "pointer "+p.Obj.name)
			if st.dead {
				return p, false
			}
		}
		return p, true
	case NilV:
		e.oblige(fr, st, in, "nil-deref", falseV, "nil pointer")
		return PtrV{}, false
	}
	e.oblige(fr, st, in, "nil-deref", atomV(freshName("nilp")), "unknown pointer")
	o := symObj("*"+freshName("unkp"), types.Typ[types.Int])
	return PtrV{Obj: o}, true
}

func (e *Engine) boundObl(fr *Frame, st *State, in ssa.Instruction, i, n Lin) {
	e.oblige(fr, st, in, "index", geV(i), "index "+i.String()+" may be negative")
	e.oblige(fr, st, in, "index", geV(addc(sub(n, i), -1)), "index "+i.String()+" not below length "+n.String())
}

func (e *Engine) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) []*State {
	i := e.intOf(fr, st, x.Index)
	switch v := e.val(fr, st, x.X).(type) {
	case SliceV:
		e.boundObl(fr, st, x, i, v.Len)
		if st.dead {
			return nil
		}
		st.setEnv(x, PtrV{v.Obj, pathIdx(v.Path, add(v.Off, i))})
		return one(st)
	case NilV:
		e.oblige(fr, st, x, "index", falseV, "index into nil slice")
		return nil
	case PtrV:
		p, ok := e.deref(fr, st, x, v)
		if !ok {
			return nil
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.boundObl(fr, st, x, i, K(n))
		if st.dead {
			return nil
		}
		st.setEnv(x, PtrV{p.Obj, pathIdx(p.Path, i)})
		return one(st)
	}
	e.oblige(fr, st, x, "index", atomV(freshName("ixu")), "unknown slice")
	st.setEnv(x, symVal(freshName("ixp"), x.Type()))
	return one(st)
}

func (e *Engine) slice(fr *Frame, st *State, x *ssa.Slice) []*State {
	lo := K(0)
	if x.Low != nil {
		lo = e.intOf(fr, st, x.Low)
	}
	bound := func(hi, max, limit Lin) bool {
		e.oblige(fr, st, x, "slice", geV(lo), "low bound "+lo.String()+" may be negative")
		e.oblige(fr, st, x, "slice", geV(sub(hi, lo)), "low bound "+lo.String()+" above high bound "+hi.String())
		e.oblige(fr, st, x, "slice", geV(sub(max, hi)), "high bound "+hi.String()+" above limit "+max.String())
		e.oblige(fr, st, x, "slice", geV(sub(limit, max)), "max bound")
		return !st.dead
	}
	v := e.val(fr, st, x.X)
	if _, ok := v.(NilV); ok {
		if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr {
			v = SliceV{Obj: newObj("alloc", "nil", types.Typ[types.Byte]), Off: K(0), Len: K(0), Cap: K(0), NilAtom: "nil:const"}
			st.setBool("nil:const", true)
		}
	}
	switch s := v.(type) {
	case StrV:
		s = st.normStr(s)
		hi := s.Len
		if x.High != nil {
			hi = e.intOf(fr, st, x.High)
		}
		if !bound(hi, s.Len, s.Len) {
			return nil
		}
		if s.Const && lo.isConst() && hi.isConst() && lo.c >= 0 && hi.c <= int64(len(s.S)) && lo.c <= hi.c {
			st.setEnv(x, constStr(s.S[lo.c:hi.c]))
			return one(st)
		}
		if eqLin(lo, K(0)) && eqLin(hi, s.Len) {
			st.setEnv(x, s)
			return one(st)
		}
		st.setEnv(x, StrV{Sym: "sub:" + s.Key() + "[" + lo.key() + ":" + hi.key() + "]", Len: sub(hi, lo)})
		return one(st)
	case SliceV:
		hi, max := s.Len, s.Cap
		if x.High != nil {
			hi = e.intOf(fr, st, x.High)
		}
		if x.Max != nil {
			max = e.intOf(fr, st, x.Max)
		}
		if !bound(hi, max, s.Cap) {
			return nil
		}
		r := SliceV{Obj: s.Obj, Path: s.Path, Off: add(s.Off, lo), Len: sub(hi, lo), Cap: sub(max, lo), NilAtom: s.NilAtom}
		if s.NilAtom != "" && st.truth(nilCond(s)) != 0 {
			r.NilAtom = s.NilAtom
		} else {
			r.NilAtom = ""
		}
		e.emit(&Event{Kind: "slice", Fr: fr, St: st, In: x, Args: []Val{s, r}})
		st.setEnv(x, r)
		return one(st)
	case PtrV:
		p, ok := e.deref(fr, st, x, s)
		if !ok {
			return nil
		}
		n := K(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		hi, max := n, n
		if x.High != nil {
			hi = e.intOf(fr, st, x.High)
		}
		if x.Max != nil {
			max = e.intOf(fr, st, x.Max)
		}
		if !bound(hi, max, n) {
			return nil
		}
		st.setEnv(x, SliceV{Obj: p.Obj, Path: p.Path, Off: lo, Len: sub(hi, lo), Cap: sub(max, lo)})
		return one(st)
	}
	e.oblige(fr, st, x, "slice", atomV(freshName("slu")), "unknown operand")
	st.setEnv(x, symVal(freshName("sl"), x.Type()))
	return one(st)
}

func (e *Engine) unop(fr *Frame, st *State, x *ssa.UnOp) []*State {
	v := e.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := e.deref(fr, st, x, v)
		if !ok {
			return nil
		}
		if p.Obj.kind == "global" && p.Path == "" {
			if g, ok := e.globalVal(x.X); ok {
				st.setEnv(x, g)
				return one(st)
			}
		}
		r := st.load(p.Obj, p.Path, x.Type())
		if e.onField != nil {
			e.onField(st, p, r)
		}
		e.emit(&Event{Kind: "load", Fr: fr, St: st, In: x, Obj: p.Obj, Path: p.Path, Val: r, Elem: x.Type()})
		st.setEnv(x, e.typed(st, r, x.Type()))
	case token.NOT:
		b, ok := v.(BoolV)
		if !ok {
			b = atomV(freshName("not"))
		}
		st.setEnv(x, notV(b))
	case token.SUB:
		if i, ok := v.(IntV); ok {
			st.setEnv(x, IntV{e.wrap(st, neg(i.L), x.Type())})
		} else {
			st.setEnv(x, symVal(freshName("neg"), x.Type()))
		}
	case token.XOR:
		if i, ok := v.(IntV); ok {
			st.setEnv(x, IntV{e.wrap(st, addc(neg(i.L), -1), x.Type())})
		} else {
			st.setEnv(x, symVal(freshName("xor"), x.Type()))
		}
	default:
		e.problem("unsupported unary %s in %s", x.Op, shortFn(fr.fn))
		st.setEnv(x, symVal(freshName("un"), x.Type()))
	}
	return one(st)
}

// typed re-establishes a value's static type on a loaded value (nil of slice type and the like).
func (e *Engine) typed(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case OpqV:
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return v
		}
		return symVal("o:"+x.Name, t)
	case PtrV:
		if x.Obj.kind == "sym" && x.Path == "" && e.onSym != nil {
			e.onSym(x.Obj.name, t, v)
		}
	}
	return v
}

func (e *Engine) globalVal(v ssa.Value) (Val, bool) {
	g, ok := v.(*ssa.Global)
	if !ok {
		return nil, false
	}
	k := g.String()
	if r, ok := e.glob[k]; ok {
		return r, true
	}
	t := g.Type().(*types.Pointer).Elem()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return IfaceSym{Name: "global:" + k, T: t, Uniq: true}, true
	}
	if _, isI := t.Underlying().(*types.Interface); isI && !strings.HasPrefix(k, "github.com/tc-hib") {
		return IfaceSym{Name: "global:" + k, T: t, Uniq: true}, true
	}
	if _, isF := t.Underlying().(*types.Signature); isF {
		return FuncSym{"global:" + k}, true
	}
	return nil, false
}

// wrap brings a mathematical integer into the range of a machine type.
func (e *Engine) wrap(st *State, l Lin, t types.Type) Lin {
	lo, hi, bits, unsigned, ok := intRange(t)
	if !ok {
		return l
	}
	if bits < 64 {
		if inRange(l, *lo, *hi) {
			return l
		}
		if st.prove(addc(l, -*lo)) && st.prove(addc(neg(l), *hi)) {
			return l
		}
		m := int64(1) << uint(bits)
		if unsigned {
			return mkMod(l, m)
		}
		return addc(mkMod(addc(l, m/2), m), -m/2)
	}
	if l.isConst() && (!unsigned || l.c >= 0) {
		return l
	}
	if unsigned {
		rl, rh, ok1, ok2 := rng(l)
		if ok1 && rl >= 0 && ok2 && rh <= math.MaxInt64 {
			return l
		}
		if st.prove(l) && (ok2 && rh < 1<<62 || st.prove(addc(neg(l), 1<<62))) {
			return l
		}
		return fnAtom("wrap64", p64(0), nil, l)
	}
	rl, rh, ok1, ok2 := rng(l)
	if ok1 && ok2 && rl >= -1<<62 && rh <= 1<<62 {
		return l
	}
	if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 {
		return l
	}
	if (ok1 && rl >= -1<<62 || st.prove(addc(l, 1<<62))) && (ok2 && rh <= 1<<62 || st.prove(addc(neg(l), 1<<62))) {
		return l
	}
	if e.noWrap64 {
		return l
	}
	return fnAtom("wrapi64", nil, nil, l)
}

func isUnsigned(t types.Type) bool {
	_, _, _, u, _ := intRange(t)
	return u
}

func (e *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	if r, ok := e.binopV(fr, st, x, x.Op, a, b, x.X.Type(), x.Type()); ok {
		return r
	}
	return symVal(freshName("bin"), x.Type())
}

func lowMask(c int64) (int, bool) {
	if c >= 0 && c&(c+1) == 0 {
		return bits.Len64(uint64(c)), true
	}
	return 0, false
}

func trailing(l Lin) int { // l is a multiple of 2^trailing
	z := 62
	if l.c != 0 {
		z = bits.TrailingZeros64(uint64(l.c))
	}
	for _, t := range l.t {
		k := bits.TrailingZeros64(uint64(t.k))
		if k < z {
			z = k
		}
	}
	return z
}

func (e *Engine) andConst(st *State, l Lin, c int64) Lin {
	// decompose the mask into runs of ones
	if c == 0 {
		return K(0)
	}
	if n, ok := lowMask(c); ok {
		if n >= 62 {
			return l
		}
		return mkMod(l, int64(1)<<uint(n))
	}
	if c > 0 {
		r := K(0)
		for sh := 0; sh < 63; {
			if c>>uint(sh)&1 == 0 {
				sh++
				continue
			}
			n := 0
			for c>>uint(sh+n)&1 == 1 {
				n++
			}
			if sh+n > 61 {
				return fnAtom("and", p64(0), p64(c), l, K(c))
			}
			r = add(r, scale(mkMod(mkDiv(l, int64(1)<<uint(sh)), int64(1)<<uint(n)), int64(1)<<uint(sh)))
			sh += n
		}
		return r
	}
	// c < 0: clear the low bits when ^c is a low mask
	if n, ok := lowMask(^c); ok {
		return sub(l, mkMod(l, int64(1)<<uint(n)))
	}
	return sub(l, e.andConst(st, l, ^c))
}

// wrapAt is wrap for the result of an arithmetic instruction, reported to the monitors.
func (e *Engine) wrapAt(fr *Frame, st *State, in ssa.Instruction, l Lin, t types.Type) Lin {
	r := e.wrap(st, l, t)
	if !eqLin(r, l) {
		e.emit(&Event{Kind: "arith", Fr: fr, St: st, In: in, L: l, Elem: t, Args: []Val{IntV{r}}})
	}
	return r
}

func (e *Engine) binopV(fr *Frame, st *State, in ssa.Instruction, op token.Token, a, b Val, xt, rt types.Type) (Val, bool) {
	ai, ok1 := a.(IntV)
	bi, ok2 := b.(IntV)
	if ok1 && ok2 {
		x, y := ai.L, bi.L
		switch op {
		case token.ADD:
			return IntV{e.wrapAt(fr, st, in, add(x, y), rt)}, true
		case token.SUB:
			return IntV{e.wrapAt(fr, st, in, sub(x, y), rt)}, true
		case token.MUL:
			if y.isConst() {
				return IntV{e.wrapAt(fr, st, in, scale(x, y.c), rt)}, true
			}
			if x.isConst() {
				return IntV{e.wrapAt(fr, st, in, scale(y, x.c), rt)}, true
			}
			lo, hi, _, _, _ := intRange(rt)
			return IntV{fnAtom("mul:"+typeStr(rt), lo, hi, x, y)}, true
		case token.QUO, token.REM:
			e.oblige(fr, st, in, "divide", notV(eqV(y)), "divisor "+y.String()+" may be zero")
			if st.dead {
				return IntV{K(0)}, true
			}
			if y.isConst() && y.c > 0 && st.prove(x) {
				if op == token.QUO {
					return IntV{mkDiv(x, y.c)}, true
				}
				return IntV{mkMod(x, y.c)}, true
			}
			lo, hi, _, uns, _ := intRange(rt)
			name := "quo:"
			if op == token.REM {
				name = "rem:"
			}
			r := fnAtom(name+typeStr(rt), lo, hi, x, y)
			if at := r.t[0].a; uns && len(at.ax) == 0 {
				at.ax = append(at.ax, sub(x, r)) // result <= dividend
				if op == token.REM {
					at.ax = append(at.ax, addc(sub(y, r), -1)) // remainder < divisor (divisor is known non-zero)
				}
			}
			return IntV{r}, true
		case token.SHL:
			if y.isConst() && y.c >= 0 && y.c < 62 {
				return IntV{e.wrapAt(fr, st, in, scale(x, int64(1)<<uint(y.c)), rt)}, true
			}
			e.shiftObl(fr, st, in, y)
			lo, hi, _, _, _ := intRange(rt)
			return IntV{fnAtom("shl:"+typeStr(rt), lo, hi, x, y)}, true
		case token.SHR:
			if y.isConst() && y.c >= 0 && y.c < 62 {
				return IntV{mkDiv(x, int64(1)<<uint(y.c))}, true
			}
			e.shiftObl(fr, st, in, y)
			lo, hi, _, _, _ := intRange(rt)
			r := fnAtom("shr:"+typeStr(rt), lo, hi, x, y)
			return IntV{r}, true
		case token.AND:
			if x.isConst() {
				x, y = y, x
			}
			if y.isConst() {
				return IntV{e.andConst(st, x, y.c)}, true
			}
			lo, hi, _, _, _ := intRange(rt)
			r := fnAtom("and:"+typeStr(rt), lo, hi, x, y)
			if at := r.t[0].a; isUnsigned(rt) && len(at.ax) == 0 {
				at.ax = []Lin{sub(x, r), sub(y, r)}
			}
			return IntV{r}, true
		case token.AND_NOT:
			if y.isConst() {
				return IntV{sub(x, e.andConst(st, x, y.c))}, true
			}
			lo, hi, _, _, _ := intRange(rt)
			r := fnAtom("andnot:"+typeStr(rt), lo, hi, x, y)
			if at := r.t[0].a; isUnsigned(rt) && len(at.ax) == 0 {
				at.ax = []Lin{sub(x, r)}
			}
			return IntV{r}, true
		case token.OR, token.XOR:
			if eqLin(x, K(0)) {
				return b, true
			}
			if eqLin(y, K(0)) {
				return a, true
			}
			// disjoint bits: one is a multiple of 2^k, the other below 2^k
			for i := 0; i < 2; i++ {
				k := trailing(x)
				if k > 0 && k < 62 && st.prove(y) && st.prove(addc(neg(y), int64(1)<<uint(k)-1)) {
					return IntV{e.wrap(st, add(x, y), rt)}, true
				}
				x, y = y, x
			}
			if op == token.OR {
				// or with a constant bit: x | 2^k == x + 2^k*(1 - bit_k(x))
				for i := 0; i < 2; i++ {
					if y.isConst() && y.c > 0 {
						return IntV{e.wrap(st, add(x, sub(y, e.andConst(st, x, y.c))), rt)}, true
					}
					x, y = y, x
				}
			}
			lo, hi, _, _, _ := intRange(rt)
			if x.key() > y.key() {
				x, y = y, x
			}
			name := "or:"
			if op == token.XOR {
				name = "xor:"
			}
			return IntV{fnAtom(name+typeStr(rt), lo, hi, x, y)}, true
		case token.LSS:
			return geV(addc(sub(y, x), -1)), true
		case token.LEQ:
			return geV(sub(y, x)), true
		case token.GTR:
			return geV(addc(sub(x, y), -1)), true
		case token.GEQ:
			return geV(sub(x, y)), true
		case token.EQL:
			return eqV(sub(x, y)), true
		case token.NEQ:
			return notV(eqV(sub(x, y))), true
		}
	}
	if s1, ok := a.(StrV); ok {
		if s2, ok := b.(StrV); ok {
			s1, s2 = st.normStr(s1), st.normStr(s2)
			switch op {
			case token.ADD:
				if s1.Const && s2.Const {
					return constStr(s1.S + s2.S), true
				}
				return StrV{Sym: "cat(" + s1.Key() + "," + s2.Key() + ")", Len: add(s1.Len, s2.Len)}, true
			case token.EQL:
				return st.strEq(s1, s2), true
			case token.NEQ:
				return notV(st.strEq(s1, s2)), true
			case token.LSS:
				return atomV("strlt:" + s1.Key() + "<" + s2.Key()), true
			case token.GTR:
				return atomV("strlt:" + s2.Key() + "<" + s1.Key()), true
			case token.LEQ:
				return notV(atomV("strlt:" + s2.Key() + "<" + s1.Key())), true
			case token.GEQ:
				return notV(atomV("strlt:" + s1.Key() + "<" + s2.Key())), true
			}
		}
	}
	switch op {
	case token.EQL:
		return e.equal(st, a, b), true
	case token.NEQ:
		return notV(e.equal(st, a, b)), true
	}
	return nil, false
}

func (e *Engine) shiftObl(fr *Frame, st *State, in ssa.Instruction, y Lin) {
	e.oblige(fr, st, in, "shift", geV(y), "shift count may be negative")
}

// equal is the condition a == b for non-numeric values.
func (e *Engine) equal(st *State, a, b Val) BoolV {
	if _, ok := a.(NilV); ok {
		return nilCond(b)
	}
	if _, ok := b.(NilV); ok {
		return nilCond(a)
	}
	if a.Key() == b.Key() {
		return trueV
	}
	switch x := a.(type) {
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if y.op == "const" {
				x, y = y, x
			}
			if x.op == "const" {
				if x.B {
					return y
				}
				return notV(y)
			}
			return atomV("beq:" + a.Key() + "=" + b.Key())
		}
	case IntV:
		if y, ok := b.(IntV); ok {
			return eqV(sub(x.L, y.L))
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return st.strEq(x, y)
		}
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			if !types.Identical(x.Dyn, y.Dyn) {
				return falseV
			}
			return e.equal(st, x.V, y.V)
		case IfaceSym:
			if st.truth(nilCond(y)) == 1 {
				return falseV
			}
			if y.Uniq {
				return falseV
			}
			if d, ok := st.dyn[y.Name]; ok {
				if !types.Identical(d, x.Dyn) {
					return falseV
				}
				return e.equal(st, x.V, symVal(y.Name+".("+typeStr(d)+")", d))
			}
			for _, d := range st.notdyn[y.Name] {
				if types.Identical(d, x.Dyn) {
					return falseV
				}
			}
			return e.ifaceEq(x, y)
		}
	case IfaceSym:
		switch y := b.(type) {
		case IfaceV:
			return e.equal(st, b, a)
		case IfaceSym:
			if x.Uniq && y.Uniq {
				return falseV // distinct allocations with different names
			}
			k1, k2 := x.Name, y.Name
			if k1 > k2 {
				k1, k2 = k2, k1
			}
			n := "ifeq:" + k1 + "=" + k2
			if x.Uniq || y.Uniq {
				u := x
				o := y
				if y.Uniq {
					u, o = y, x
				}
				_ = u
				nn := nilAtom(o)
				condDefs[n] = func(s *State, v bool) {
					if v && nn != "" {
						s.setBool(nn, false)
					}
				}
			}
			return atomV(n)
		}
	case ArrV:
		if y, ok := b.(ArrV); ok && len(x.E) == len(y.E) {
			for i := range x.E {
				if st.truth(e.equal(st, x.E[i], y.E[i])) == 0 {
					return falseV
				}
			}
			return atomV("areq:" + x.Key() + "=" + y.Key())
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if st.truth(e.equal(st, x.F[i], y.F[i])) == 0 {
					return falseV
				}
			}
			return atomV("steq:" + x.Key() + "=" + y.Key())
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if x.Obj != y.Obj && (x.Obj.local && y.Obj.kind != "sym" || y.Obj.local && x.Obj.kind != "sym") {
				return falseV
			}
			if x.Obj == y.Obj {
				if r := st.pathRel(x.Path, y.Path); r >= 0 {
					return boolV(r == 1)
				}
			}
		}
	}
	k1, k2 := a.Key(), b.Key()
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return atomV("eq:" + k1 + "=" + k2)
}

// ifaceEq: comparing an unknown interface value with a known one. When it turns out equal, its dynamic type and
// value are known.
func (e *Engine) ifaceEq(x IfaceV, y IfaceSym) BoolV {
	n := "ifv:" + y.Name + "=" + x.Key()
	nn := nilAtom(y)
	d := x.Dyn
	condDefs[n] = func(s *State, v bool) {
		if !v {
			return
		}
		if nn != "" {
			s.setBool(nn, false)
		}
		s.dynOwn()
		s.dyn[y.Name] = d
		u := symVal(y.Name+".("+typeStr(d)+")", d)
		s.assume(e.equal(s, x.V, u))
	}
	return atomV(n)
}

func (e *Engine) convert(fr *Frame, st *State, in *ssa.Convert, v Val, from, to types.Type) Val {
	fi, ok1 := v.(IntV)
	_, _, _, _, toInt := intRange(to)
	if ok1 && toInt {
		if e.nonNeg32 && types.Identical(to.Underlying(), types.Typ[types.Uint32]) && types.Identical(from.Underlying(), types.Typ[types.Int]) {
			st.addFact(fi.L)
		}
		r := e.wrap(st, fi.L, to)
		e.emit(&Event{Kind: "convert", Fr: fr, St: st, In: in, L: fi.L, OK: eqLin(r, fi.L), Elem: to, Args: []Val{v, IntV{r}}})
		return IntV{r}
	}
	tb, isB := to.Underlying().(*types.Basic)
	if isB && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case SliceV:
			n := fmt.Sprintf("str:%s@%s", x.Key(), ctName(st, x.Obj, x.Path))
			if b, ok := x.elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				if t := textOf(st, x); t != nil {
					return *t
				}
				return StrV{Sym: n, Len: x.Len}
			}
			return StrV{Sym: n, Len: lenSym("len:" + n)}
		case NilV:
			return constStr("")
		case StrV:
			return x
		case IntV:
			n := freshName("runestr")
			return StrV{Sym: n, Len: atomLin(sym("len:"+n, p64(1), p64(4)))}
		}
		n := freshName("str")
		return StrV{Sym: n, Len: lenSym("len:" + n)}
	}
	if s, ok := v.(StrV); ok {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s = st.normStr(s)
			o := newObj("alloc", "conv", sl.Elem())
			o.arr, o.local = true, true
			o.content = "bytes:" + s.Key()
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				o.text = &s
			}
			st.epOwn()
			st.epoch[o.id] = "c"
			ln := s.Len
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				a := sym("runes:"+s.Key(), p64(0), p64(maxLen))
				if len(a.ax) == 0 {
					a.ax = []Lin{sub(s.Len, atomLin(a)), sub(scale(atomLin(a), 4), s.Len)}
				}
				ln = atomLin(a)
			}
			if e.onConv != nil {
				e.onConv(o, s)
			}
			return SliceV{Obj: o, Off: K(0), Len: ln, Cap: ln}
		}
	}
	if toInt {
		return symVal(freshName("conv"), to)
	}
	return symVal(freshName("conv"), to)
}

// textOf returns the string a byte slice was converted from, if it was not changed since.
func textOf(st *State, x SliceV) *StrV {
	if x.Obj == nil || x.Obj.text == nil || st.epoch[x.Obj.id] != "c" || x.Path != "" || len(st.heapCells(x.Obj)) > 0 {
		return nil
	}
	if !eqLin(x.Off, K(0)) || !eqLin(x.Len, x.Obj.text.Len) {
		return nil
	}
	return x.Obj.text
}

// ---- type assertions ----

func (e *Engine) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []*State {
	v := e.val(fr, st, x.X)
	T := x.AssertedType
	iface, toIface := T.Underlying().(*types.Interface)
	set := func(s *State, val Val, ok bool) {
		if x.CommaOk {
			s.setEnv(x, TupleV{val, boolV(ok)})
		} else {
			s.setEnv(x, val)
		}
	}
	fail := func(s *State) []*State {
		if x.CommaOk {
			set(s, zeroVal(T), false)
			return one(s)
		}
		e.oblige(fr, s, x, "type-assert", falseV, "value may not be of type "+typeStr(T))
		return nil
	}
	switch a := v.(type) {
	case NilV:
		return fail(st)
	case IfaceV:
		if toIface {
			if types.Implements(a.Dyn, iface) {
				set(st, a, true)
				return one(st)
			}
			return fail(st)
		}
		if types.Identical(a.Dyn, T) {
			set(st, a.V, true)
			return one(st)
		}
		return fail(st)
	case IfaceSym:
		if st.truth(nilCond(a)) == 1 {
			return fail(st)
		}
		var conc func(s *State) Val
		if toIface {
			conc = func(s *State) Val { b := a; b.T = T; return b }
		} else {
			conc = func(s *State) Val { return symVal(a.Name+".("+typeStr(T)+")", T) }
		}
		if d, ok := st.dyn[a.Name]; ok {
			if !toIface && types.Identical(d, T) {
				set(st, conc(st), true)
				return one(st)
			}
			if !toIface {
				return fail(st)
			}
			if types.Implements(d, iface) {
				set(st, IfaceV{d, symVal(a.Name+".("+typeStr(d)+")", d)}, true)
				return one(st)
			}
			return fail(st)
		}
		for _, d := range st.notdyn[a.Name] {
			if types.Identical(d, T) {
				return fail(st)
			}
		}
		if toIface && types.Identical(a.T, T) && st.truth(nilCond(a)) == 0 {
			set(st, a, true)
			return one(st)
		}
		if a.Uniq && !toIface {
			return fail(st)
		}
		// a sealed interface whose other implementers are excluded
		if !toIface && st.truth(nilCond(a)) == 0 {
			if impls := e.sealed(a.T); impls != nil {
				rest := 0
				match := false
				for _, im := range impls {
					ex := false
					for _, d := range st.notdyn[a.Name] {
						if types.Identical(d, im) {
							ex = true
						}
					}
					if !ex {
						rest++
						if types.Identical(im, T) {
							match = true
						}
					}
				}
				if match && rest == 1 {
					st.dynOwn()
					st.dyn[a.Name] = T
					set(st, conc(st), true)
					return one(st)
				}
			}
		}
		s2 := st.clone()
		var out []*State
		// success
		if at := nilAtom(a); at != "" {
			st.setBool(at, false)
		}
		if !toIface {
			st.dynOwn()
			st.dyn[a.Name] = T
		}
		set(st, conc(st), true)
		if pv, ok := conc(st).(PtrV); ok && e.typeAssertNonNil {
			if at := nilAtom(pv); at != "" {
				st.setBool(at, false)
				set(st, pv, true)
			}
		}
		if !st.dead {
			out = append(out, st)
		}
		// failure
		if !toIface {
			s2.dynOwn()
			s2.notdyn[a.Name] = append(append([]types.Type{}, s2.notdyn[a.Name]...), T)
		}
		out = append(out, fail(s2)...)
		return out
	}
	if x.CommaOk {
		s2 := st.clone()
		set(st, symVal(freshName("ta"), T), true)
		set(s2, zeroVal(T), false)
		return []*State{st, s2}
	}
	e.oblige(fr, st, x, "type-assert", atomV(freshName("ta")), "unknown value")
	set(st, symVal(freshName("ta"), T), true)
	return one(st)
}

// sealed returns the module's implementers of an interface with unexported methods, nil otherwise.
func (e *Engine) sealed(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	un := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			un = true
		}
	}
	if !un {
		return nil
	}
	var r []types.Type
	for _, p := range e.P.SSA {
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				r = append(r, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				r = append(r, types.NewPointer(tn.Type()))
			}
		}
	}
	return r
}

// ---- maps ----

func mapLenCell(o *Obj) cell { return cell{o.id, pathField("", mapKeyBase-1)} }

func (e *Engine) mapLen(st *State, m Val) Lin {
	mv, ok := m.(MapV)
	if !ok {
		return K(0)
	}
	if v, ok := st.heap[mapLenCell(mv.Obj)]; ok {
		if i, ok := v.(IntV); ok {
			return i.L
		}
	}
	if mv.Obj.zero && st.epoch[mv.Obj.id] == "" {
		return K(0)
	}
	n := "maplen:" + ctName(st, mv.Obj, "")
	l := lenSym(n)
	if at := nilAtom(mv); at != "" {
		nilLen[at] = l
	}
	return l
}

var (
	mapKeys    = map[string]int{}
	mapKeyVals = map[string]Val{}
)

func isConstKey(k Val) bool {
	switch x := k.(type) {
	case IntV:
		return x.L.isConst()
	case StrV:
		return x.Const
	}
	return false
}

// constMap returns the keys of a map made by the analysed code and filled with constant keys only.
func constMap(st *State, o *Obj) ([]Val, bool) {
	if !o.zero || !(st.epoch[o.id] == "" || strings.HasPrefix(st.epoch[o.id], "const")) {
		return nil, false
	}
	var keys []Val
	lc := mapLenCell(o)
	for _, c := range st.heapCells(o) {
		if c == lc {
			continue
		}
		k := mapKeyVals[c.p]
		if k == nil || !isConstKey(k) {
			return nil, false
		}
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Key() < keys[j].Key() })
	return keys, true
}

func mapKeyCell(o *Obj, k Val) cell {
	ks := k.Key()
	id, ok := mapKeys[ks]
	if !ok {
		id = mapKeyBase + len(mapKeys)
		mapKeys[ks] = id
	}
	p := pathField("", id)
	mapKeyVals[p] = k
	return cell{o.id, p}
}

func (e *Engine) mapSet(st *State, m MapV, k, v Val, mt *types.Map) {
	old := e.mapLen(st, m)
	kc := mapKeyCell(m.Obj, k)
	_, known := st.heap[kc]
	if keys, ok := constMap(st, m.Obj); ok && isConstKey(k) && m.Obj.local && (len(keys) < 64) {
		lc := mapLenCell(m.Obj)
		st.epOwn()
		st.epoch[m.Obj.id] = freshName("const")
		n := len(keys)
		if !known {
			n++
		}
		st.setCell(lc, IntV{K(int64(n))})
		st.escapeVal(v)
		st.setCell(kc, v)
		return
	}
	e.mapKill(st, m, k)
	if !known {
		n := lenSym("ml:" + freshName("u"))
		st.addFact(sub(n, old))
		st.addFact(sub(addc(old, 1), n))
		st.addFact(addc(n, -1))
		st.setCell(mapLenCell(m.Obj), IntV{n})
	}
	st.escapeVal(v)
	st.setCell(kc, v)
	st.setBool("has:"+m.Obj.name+kc.p+"@"+st.epoch[m.Obj.id], true)
}

// mapKill forgets the entries of a map (and of its possible aliases) after a change at key k.
func (e *Engine) mapKill(st *State, m MapV, k Val) {
	lc := mapLenCell(m.Obj)
	lv, hasLen := st.heap[lc]
	keepLen := e.mapLen(st, m)
	_ = lv
	_ = hasLen
	for c := range st.heap {
		o := objList[c.o]
		if _, ok := o.typ.(types.Type); !ok || o.typ == nil {
			continue
		}
		if _, isMap := o.typ.Underlying().(*types.Map); !isMap {
			continue
		}
		if o == m.Obj {
			if c != lc {
				st.delCell(c)
			}
		} else if types.Identical(o.typ, m.Obj.typ) && (o.kind == "sym" || st.escaped[o.id]) && (m.Obj.kind == "sym" || st.escaped[m.Obj.id]) {
			st.delCell(c)
		}
	}
	st.epOwn()
	st.epoch[m.Obj.id] = freshName("m")
	if m.Obj.kind == "sym" || st.escaped[m.Obj.id] {
		st.tepoch["map:"+types.TypeString(m.Obj.typ, nil)] = freshName("mt")
	}
	st.setCell(lc, IntV{keepLen})
}

func (e *Engine) mapDelete(fr *Frame, st *State, in ssa.Instruction, m MapV, k Val) {
	old := e.mapLen(st, m)
	e.mapKill(st, m, k)
	n := lenSym("ml:" + freshName("d"))
	st.addFact(sub(old, n))
	st.addFact(sub(n, addc(old, -1)))
	st.setCell(mapLenCell(m.Obj), IntV{n})
}

func (e *Engine) lookup(fr *Frame, st *State, x *ssa.Lookup) []*State {
	v := e.val(fr, st, x.X)
	if s, ok := v.(StrV); ok { // string index
		i := e.intOf(fr, st, x.Index)
		s = st.normStr(s)
		e.boundObl(fr, st, x, i, s.Len)
		st.setEnv(x, symVal("ch:"+s.Key()+"["+i.key()+"]", x.Type()))
		return one(st)
	}
	mt, _ := x.X.Type().Underlying().(*types.Map)
	k := e.val(fr, st, x.Index)
	set := func(s *State, val Val, ok BoolV) {
		if x.CommaOk {
			s.setEnv(x, TupleV{val, ok})
		} else {
			s.setEnv(x, val)
		}
	}
	mv, ok := v.(MapV)
	if !ok || st.truth(nilCond(mv)) == 1 {
		set(st, zeroVal(mt.Elem()), falseV)
		return one(st)
	}
	e.emit(&Event{Kind: "lookup", Fr: fr, St: st, In: x, Args: []Val{v, k}, Elem: x.X.Type()})
	kc := mapKeyCell(mv.Obj, k)
	has := "has:" + mv.Obj.name + kc.p + "@" + st.epoch[mv.Obj.id]
	if val, ok := st.heap[kc]; ok {
		if e.onKnown != nil {
			e.onKnown(st, mt, val)
		}
		set(st, val, trueV)
		return one(st)
	}
	if keys, ok := constMap(st, mv.Obj); ok && mv.Obj.local {
		// a table with known keys: one path per key, and one for none
		var out []*State
		for _, ck := range keys {
			eq := e.equal(st, k, ck)
			if eq.op == "const" && !eq.B {
				continue
			}
			s := st.clone()
			s.assume(eq)
			if !s.dead {
				set(s, s.heap[mapKeyCell(mv.Obj, ck)], trueV)
				out = append(out, s)
			}
			st.assume(notV(eq))
			if st.dead {
				return out
			}
		}
		set(st, zeroVal(mt.Elem()), falseV)
		return append(out, st)
	}
	ln := e.mapLen(st, mv)
	if st.prove(neg(ln)) {
		set(st, zeroVal(mt.Elem()), falseV)
		return one(st)
	}
	mk := func(s *State) Val {
		val := symVal("lk:"+ctName(s, mv.Obj, "")+kc.p+s.tepoch["map:"+types.TypeString(mv.Obj.typ, nil)], mt.Elem())
		e.presentElem(s, mt, val)
		if e.onPresent != nil {
			e.onPresent(s, mv, mt, k, val)
		}
		return val
	}
	if e.keysKnown && keyPresent(x) {
		st.setBool(has, true)
		if st.dead {
			return nil
		}
	}
	if t := st.truth(atomV(has)); t == 1 {
		set(st, mk(st), trueV)
		return one(st)
	} else if t == 0 {
		set(st, zeroVal(mt.Elem()), falseV)
		return one(st)
	}
	s2 := st.clone()
	st.setBool(has, true)
	st.addFact(addc(ln, -1))
	set(st, mk(st), trueV)
	s2.setBool(has, false)
	set(s2, zeroVal(mt.Elem()), falseV)
	var out []*State
	for _, s := range []*State{st, s2} {
		if !s.dead {
			out = append(out, s)
		}
	}
	return out
}

// presentElem applies the container invariants to the value of an entry known to be present.
func (e *Engine) presentElem(s *State, mt *types.Map, v Val) {
	if e.invNonNil != nil && e.invNonNil(mt) {
		if at := nilAtom(v); at != "" {
			s.setBool(at, false)
		}
	}
}

// iterObjs are the positions of the ranges, one per place and path of calls; iterLen the lengths the maps had when they began.
type iterKey struct {
	in    *ssa.Range
	stack string
}

var (
	iterObjs = map[iterKey]*Obj{}
	iterLen  = map[int]*Obj{}
)

func (e *Engine) next(fr *Frame, st *State, x *ssa.Next) []*State {
	it, ok := e.val(fr, st, x.Iter).(IterV)
	if !ok {
		st.setEnv(x, symVal(freshName("next"), x.Type()))
		return one(st)
	}
	pc := cell{it.Obj.id, ""}
	pos := K(0)
	if v, ok := st.heap[pc].(IntV); ok {
		pos = v.L
	}
	if x.IsString {
		s, _ := it.X.(StrV)
		s = st.normStr(s)
		c := geV(addc(sub(s.Len, pos), -1))
		e.logCond(nil, c)
		s2 := st.clone()
		var out []*State
		st.assume(c)
		if !st.dead {
			w := atomLin(sym(freshName("rw"), p64(1), p64(4)))
			st.addFact(sub(s.Len, add(pos, w)))
			st.setCell(pc, IntV{add(pos, w)})
			r := symVal(freshName("rune"), types.Typ[types.Int32])
			st.setEnv(x, TupleV{trueV, IntV{pos}, r})
			if e.nulRange && !s.Const {
				// either this character is NUL, or the string holds none so far
				s3 := st.clone()
				s3.assume(hasNUL(s3, s))
				s3.setEnv(x, TupleV{trueV, IntV{pos}, IntV{K(0)}})
				e.gset(s3, nulGhost(x.Iter), trueV)
				if !s3.dead {
					out = append(out, s3)
				}
				st.assume(notV(eqV(r.(IntV).L)))
			}
			if !st.dead {
				out = append(out, st)
			}
		}
		s2.assume(notV(c))
		if e.nulRange && !s.Const && !e.gmay(s2, nulGhost(x.Iter)) {
			// all characters have been visited
			s2.assume(notV(hasNUL(s2, s)))
		}
		if !s2.dead {
			s2.setEnv(x, TupleV{falseV, IntV{K(0)}, IntV{K(0)}})
			out = append(out, s2)
		}
		return out
	}
	rg := x.Iter.(*ssa.Range)
	mt := rg.X.Type().Underlying().(*types.Map)
	n := K(0)
	if mv, ok := it.X.(MapV); ok && st.truth(nilCond(mv)) != 1 {
		n = e.mapLen(st, it.X)
	}
	c := geV(addc(sub(n, pos), -1))
	e.logCond(nil, c)
	s2 := st.clone()
	var out []*State
	st.assume(c)
	if !st.dead {
		st.setCell(pc, IntV{addc(pos, 1)})
		nm := freshName("rng:" + it.X.Key())
		k, v := symVal(nm+".k", mt.Key()), symVal(nm+".v", mt.Elem())
		if at := nilAtom(k); at != "" {
			st.setBool(at, false)
		}
		e.presentElem(st, mt, v)
		if e.onRange != nil {
			e.onRange(st, it.X, mt, k, v)
		}
		st.setEnv(x, TupleV{trueV, k, v})
		out = append(out, st)
	}
	s2.assume(notV(c))
	if n0, ok := st.heap[cell{iterLen[it.Obj.id].id, ""}].(IntV); ok && eqLin(n0.L, n) {
		// the map holds what it held when the loop began: each entry has been visited once
		s2.addFact(sub(n, pos))
	}
	if !s2.dead {
		s2.setEnv(x, TupleV{falseV, zeroVal(mt.Key()), zeroVal(mt.Elem())})
		out = append(out, s2)
	}
	return out
}

// nulGhost names the flag that tells whether a loop over a string has met a NUL.
func nulGhost(r ssa.Value) string { return "seenNUL:" + r.Parent().String() + "." + r.Name() }
