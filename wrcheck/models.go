package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorT = types.Universe.Lookup("error").Type()

// ---- dispatch ----

func (e *Engine) callInstr(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) []Outcome {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.callVals(fr, st, in, c, e.val(fr, st, c.Value), args)
}

func (e *Engine) callVals(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fnVal Val, args []Val) []Outcome {
	if c.IsInvoke() {
		return e.invoke(fr, st, in, fnVal, c.Method, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, in, c, b.Name(), args)
	}
	return e.callValue(fr, st, in, fnVal, args, c.Signature())
}

// callValue calls a function value.
func (e *Engine) callValue(fr *Frame, st *State, in ssa.Instruction, fnVal Val, args []Val, sig *types.Signature) []Outcome {
	switch f := fnVal.(type) {
	case FuncV:
		if e.P.inModule(f.Fn) {
			return e.callFn(fr, st, in, f.Fn, args, f.Bind)
		}
		return e.external(fr, st, in, f.Fn.String(), args, f.Fn.Signature)
	case FuncSym:
		return e.external(fr, st, in, "func "+f.Name, args, sig)
	case NilV:
		e.oblige(fr, st, in, "nil-deref", falseV, "call of a nil function")
		return nil
	}
	e.problem("call through an unknown function value in %s", shortFn(fr.fn))
	return e.external(fr, st, in, "func "+freshName("unk"), args, sig)
}

func (e *Engine) findMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := e.P.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.P.Prog.MethodValue(sel)
}

func (e *Engine) invoke(fr *Frame, st *State, in ssa.Instruction, recv Val, m *types.Func, args []Val) []Outcome {
	sig := m.Type().(*types.Signature)
	all := append([]Val{recv}, args...)
	switch r := recv.(type) {
	case NilV:
		e.oblige(fr, st, in, "nil-deref", falseV, "method call on a nil interface")
		return nil
	case IfaceV:
		return e.invokeDyn(fr, st, in, r.Dyn, r.V, m, args)
	case IfaceSym:
		if nilAtom(r) != "" {
			e.oblige(fr, st, in, "nil-deref", notV(nilCond(r)), "method "+m.Name()+" of a possibly nil interface")
			if st.dead {
				return nil
			}
		}
		if d, ok := st.dyn[r.Name]; ok {
			return e.invokeDyn(fr, st, in, d, symVal(r.Name+".("+typeStr(d)+")", d), m, args)
		}
		if impls := e.sealed(r.T); impls != nil {
			var out []Outcome
			var rest []types.Type
			for _, d := range impls {
				ex := false
				for _, n := range st.notdyn[r.Name] {
					if types.Identical(n, d) {
						ex = true
					}
				}
				if !ex {
					rest = append(rest, d)
				}
			}
			for i, d := range rest {
				s := st
				if i < len(rest)-1 {
					s = st.clone()
				}
				s.dynOwn()
				s.dyn[r.Name] = d
				v := symVal(r.Name+".("+typeStr(d)+")", d)
				if at := nilAtom(v); at != "" {
					s.setBool(at, false)
				}
				out = append(out, e.invokeDyn(fr, s, in, d, v, m, args)...)
			}
			return out
		}
	}
	it := "any"
	if s := m.Type().(*types.Signature).Recv(); s != nil {
		it = typeStr(s.Type())
	}
	return e.external(fr, st, in, "invoke "+it+"."+m.Name(), all, sig)
}

func (e *Engine) invokeDyn(fr *Frame, st *State, in ssa.Instruction, d types.Type, v Val, m *types.Func, args []Val) []Outcome {
	all := append([]Val{v}, args...)
	f := e.findMethod(d, m)
	if f != nil && e.P.inModule(f) && len(f.Blocks) > 0 {
		return e.callFn(fr, st, in, f, all, nil)
	}
	name := "(" + typeStrFull(d) + ")." + m.Name()
	return e.external(fr, st, in, name, all, m.Type().(*types.Signature))
}

func typeStrFull(t types.Type) string { return types.TypeString(t, nil) }

// ---- builtins ----

func (e *Engine) lenOf(st *State, v Val) Lin {
	switch x := v.(type) {
	case SliceV:
		return x.Len
	case StrV:
		return st.normStr(x).Len
	case MapV:
		if st.truth(nilCond(x)) == 1 {
			return K(0)
		}
		return e.mapLen(st, x)
	case NilV:
		return K(0)
	case ArrV:
		return K(int64(len(x.E)))
	}
	return lenSym(freshName("len"))
}

func (e *Engine) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []Outcome {
	ret := func(v Val) []Outcome { return []Outcome{{st, v}} }
	switch name {
	case "len":
		if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return ret(IntV{K(at.Len())})
		}
		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return ret(IntV{K(at.Len())})
			}
		}
		return ret(IntV{e.lenOf(st, args[0])})
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			return ret(IntV{s.Cap})
		}
		if _, ok := args[0].(NilV); ok {
			return ret(IntV{K(0)})
		}
		return ret(IntV{lenSym(freshName("cap"))})
	case "append":
		return ret(e.appendV(fr, st, in, c, args))
	case "copy":
		n := atomLin(sym(freshName("copied"), p64(0), p64(maxLen)))
		la, lb := e.lenOf(st, args[0]), e.lenOf(st, args[1])
		st.addFact(sub(la, n))
		st.addFact(sub(lb, n))
		if eqLin(la, lb) {
			n = la
		} else if st.prove(sub(la, lb)) {
			n = lb
		} else if st.prove(sub(lb, la)) {
			n = la
		}
		e.emit(&Event{Kind: "copy", Fr: fr, St: st, In: in, Args: args, L: n})
		if s, ok := args[0].(SliceV); ok {
			e.havocSlice(st, s)
		}
		return ret(IntV{n})
	case "delete":
		e.emit(&Event{Kind: "delete", Fr: fr, St: st, In: in, Args: args, Elem: c.Args[0].Type()})
		if m, ok := args[0].(MapV); ok && st.truth(nilCond(m)) != 1 {
			e.mapDelete(fr, st, in, m, args[1])
		}
		return ret(nil)
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(IntV)
			b, ok2 := args[1].(IntV)
			if ok1 && ok2 {
				s2 := st.clone()
				cnd := geV(sub(b.L, a.L)) // a <= b
				e.logCond(nil, cnd)
				st.assume(cnd)
				s2.assume(notV(cnd))
				x, y := args[0], args[1]
				if name == "max" {
					x, y = y, x
				}
				var out []Outcome
				if !st.dead {
					out = append(out, Outcome{st, x})
				}
				if !s2.dead {
					out = append(out, Outcome{s2, y})
				}
				return out
			}
		}
	case "clear":
		if s, ok := args[0].(SliceV); ok {
			e.havocSlice(st, s)
		}
		if m, ok := args[0].(MapV); ok {
			st.havocObj(m.Obj)
		}
		return ret(nil)
	case "print", "println", "close":
		return ret(nil)
	case "recover":
		return ret(NilV{})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok {
			e.deref(fr, st, in, p)
			if st.dead {
				return nil
			}
		}
		return ret(args[0])
	}
	if v, ok := in.(ssa.Value); ok {
		if tp, isT := v.Type().(*types.Tuple); isT && tp.Len() == 0 {
			return ret(nil)
		}
		return ret(symVal(freshName("bi:"+name), v.Type()))
	}
	return ret(nil)
}

// havocSlice forgets the content of a slice's backing storage.
func (e *Engine) havocSlice(st *State, s SliceV) {
	if s.Obj == nil {
		return
	}
	if s.Path == "" {
		st.havocObj(s.Obj)
		return
	}
	for _, c := range st.heapCells(s.Obj) {
		if strings.HasPrefix(c.p, s.Path) {
			st.setCell(c, freshAt(c))
		}
	}
	if a, ok := typeAt(s.Obj, s.Path).Underlying().(*types.Array); ok && a.Len() <= maxArr {
		for i := int64(0); i < a.Len(); i++ {
			p := pathIdx(s.Path, K(i))
			st.store(s.Obj, p, symVal(freshName("hv"), a.Elem()), a.Elem())
		}
	} else {
		st.havocObj(s.Obj)
	}
}

func (e *Engine) appendV(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []Val) Val {
	t := c.Args[0].Type()
	et := t.Underlying().(*types.Slice).Elem()
	base, _ := asSlice(args[0])
	var add1 SliceV
	addLen := K(0)
	if len(args) > 1 {
		addLen = e.lenOf(st, args[1])
		if s, ok := args[1].(SliceV); ok {
			add1 = s
		}
	}
	if base.Obj == nil && base.NilAtom == "" {
		if _, isNil := args[0].(NilV); !isNil {
			if _, ok := args[0].(SliceV); !ok {
				e.problem("append to an unknown slice in %s", shortFn(fr.fn))
				base.Len = lenSym(freshName("len"))
			}
		}
	}
	e.emit(&Event{Kind: "append", Fr: fr, St: st, In: in, Args: args, L: addLen, Elem: et})
	newLen := add(base.Len, addLen)
	st.addFact(sub(K(maxLen), newLen))
	// known new elements
	type el struct {
		i int64
		v Val
	}
	var els []el
	if addLen.isConst() && addLen.c <= 8 && add1.Obj != nil {
		for i := int64(0); i < addLen.c; i++ {
			els = append(els, el{i, st.load(add1.Obj, pathIdx(add1.Path, addc(add1.Off, i)), et)})
		}
	}
	r := SliceV{Off: K(0), Len: newLen}
	if base.Obj != nil && base.Obj.kind == "alloc" && st.prove(sub(base.Cap, newLen)) {
		// enough capacity: the new elements are written in place
		r.Obj, r.Path, r.Off, r.Cap, r.NilAtom = base.Obj, base.Path, base.Off, base.Cap, ""
		if !addLen.isConst() || addLen.c > 8 {
			e.havocSlice(st, base)
		}
		for _, x := range els {
			st.store(r.Obj, pathIdx(r.Path, add(r.Off, addc(base.Len, x.i))), x.v, et)
		}
		return r
	}
	var o *Obj
	if fr != nil && (base.Obj == nil || base.Obj.onLoad == nil) {
		o = allocObj(fr, st, in, "append", "append", et)
	} else {
		o = newObj("alloc", "append", et)
	}
	o.arr, o.local, o.site = true, true, in
	if o.content == "" {
		o.content = freshName("app")
	}
	if base.Obj != nil {
		o.onLoad = base.Obj.onLoad
		if base.Obj.onLoad == nil && !base.Len.isConst() {
			o.onLoad = nil
		}
	}
	st.epOwn()
	st.epoch[o.id] = "a"
	cpn := sym(freshName("cap"), p64(0), p64(maxLen))
	cpn.ax = []Lin{sub(atomLin(cpn), newLen)}
	r.Obj, r.Cap = o, atomLin(cpn)
	// known prefix
	if base.Obj != nil && base.Len.isConst() && base.Len.c <= 16 {
		for i := int64(0); i < base.Len.c; i++ {
			st.store(o, pathIdx("", K(i)), st.load(base.Obj, pathIdx(base.Path, addc(base.Off, i)), et), et)
		}
	}
	for _, x := range els {
		st.store(o, pathIdx("", addc(base.Len, x.i)), x.v, et)
	}
	if base.Obj != nil {
		st.escapeVal(base)
		if base.Obj.kind != "alloc" || st.escaped[base.Obj.id] {
			st.escape(o.id)
		}
	}
	if !st.prove(addc(newLen, -1)) {
		switch {
		case base.NilAtom != "":
			r.NilAtom = base.NilAtom
		case base.Obj == nil:
			r.NilAtom = "nil:" + freshName("app")
		}
		if r.NilAtom != "" {
			na := "nil:" + freshName("app")
			if st.truth(atomV(r.NilAtom)) == 0 {
				na = ""
			}
			r.NilAtom = na
		}
	}
	return r
}

// ---- externals ----

// errOutcomes builds the success and the failure outcome of a function whose last result is an error.
func (e *Engine) freshResults(sig *types.Signature, hint string) []Val {
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, symVal(freshName(hint), sig.Results().At(i).Type()))
	}
	return vs
}

func pack(vs []Val) Val {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return TupleV(vs)
}

func newErr(st *State, hint string) Val {
	v := IfaceSym{Name: freshName("err:" + hint), T: errorT}
	st.setBool("nil:"+v.Name, false)
	return v
}

func uniqErr(hint string) Val {
	return IfaceSym{Name: freshName("err:" + hint), T: errorT, Uniq: true}
}

func lastIsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), errorT)
}

func (e *Engine) external(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature) []Outcome {
	e.emit(&Event{Kind: "call", Fr: fr, St: st, In: in, Name: name, Args: args})
	if m := e.models[name]; m != nil {
		return m(e, fr, st, in, args, sig)
	}
	pure := false
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			pure = true
		}
	}
	if !pure {
		for _, a := range args {
			e.havocArg(st, a, 0)
		}
		if e.quiet == 0 {
			e.unmodelled[name] = true
		}
	}
	if pure && !lastIsError(sig) {
		return e.pureCall(st, name, args, sig)
	}
	if lastIsError(sig) {
		s2 := st.clone()
		vs := e.freshResults(sig, "ext")
		vs[len(vs)-1] = NilV{}
		for _, v := range vs {
			switch v.(type) {
			case PtrV, IfaceSym:
				if at := nilAtom(v); at != "" {
					st.setBool(at, false)
				}
			}
		}
		ws := e.freshResults(sig, "ext")
		ws[len(ws)-1] = newErr(s2, name)
		return []Outcome{{st, pack(vs)}, {s2, pack(ws)}}
	}
	vs := e.freshResults(sig, "ext")
	return []Outcome{{st, pack(vs)}}
}

// pureCall names the result of a function without side effects after its arguments, so that equal calls have equal results.
func (e *Engine) pureCall(st *State, name string, args []Val, sig *types.Signature) []Outcome {
	k := name
	det := true
	for _, a := range args {
		k += "," + a.Key()
		if pt, ok := a.(PtrV); ok {
			k += ctName(st, pt.Obj, pt.Path)
		}
		if sl, ok := a.(SliceV); ok && sl.Obj != nil {
			k += ctName(st, sl.Obj, sl.Path)
			if len(st.heapCells(sl.Obj)) > 0 {
				det = false
			}
		}
	}
	if !det {
		k = freshName(name)
	}
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		v := symVal(fmt.Sprintf("pure:%s#%d", k, i), sig.Results().At(i).Type())
		vs = append(vs, v)
	}
	return []Outcome{{st, pack(vs)}}
}

var purePrefixes = []string{"html.", "text/template.HTMLEscapeString", "html/template.HTMLEscapeString", "strings.", "unicode/", "math/", "math.", "invoke image.", "invoke color.", "(image.", "image.", "(time.", "time.", "strconv.", "fmt.Sprint", "utf16.", "unicode.", "invoke fs.FileInfo.", "invoke error.", "bytes.", "errors.", "(reflect.", "reflect.", "slices.", "sort.SearchInts"}

// havocArg forgets everything an unknown callee could have written through an argument.
func (e *Engine) havocArg(st *State, v Val, depth int) {
	if depth > 4 {
		return
	}
	switch x := v.(type) {
	case PtrV:
		st.escapeVal(x)
		t := x.typ()
		e.havocReach(st, x.Obj, depth)
		st.store(x.Obj, x.Path, symVal(freshName("hv"), t), t)
	case SliceV:
		if x.Obj != nil {
			e.havocReach(st, x.Obj, depth)
			e.havocSlice(st, x)
		}
	case IfaceV:
		e.havocArg(st, x.V, depth)
	case StructV:
		for _, f := range x.F {
			e.havocArg(st, f, depth+1)
		}
	case MapV:
		st.escapeVal(x)
		e.havocReach(st, x.Obj, depth)
		st.havocObj(x.Obj)
	case FuncV:
		for _, b := range x.Bind {
			e.havocArg(st, b, depth+1)
		}
	}
}

func (e *Engine) havocReach(st *State, o *Obj, depth int) {
	for _, c := range st.heapCells(o) {
		switch st.heap[c].(type) {
		case PtrV, IfaceV, SliceV, MapV:
			e.havocArg(st, st.heap[c], depth+1)
		}
	}
}

// ---- I/O helpers ----

// binSize is the encoded size of a value of type t, -1 when it is not fixed.
func binSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64, types.Complex64:
			return 8
		}
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * u.Len()
		}
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// binPayload resolves the argument of binary.Read/Write/Size: its encoded size and the storage it denotes.
func (e *Engine) binPayload(fr *Frame, st *State, v Val) (size Lin, t types.Type, tgt Val, ok bool) {
	iv, isI := v.(IfaceV)
	if !isI {
		if s, isS := v.(IfaceSym); isS {
			if d, known := st.dyn[s.Name]; known {
				iv = IfaceV{Dyn: d, V: symVal(s.Name+".("+typeStr(d)+")", d)}
				isI = true
			}
		}
	}
	if !isI {
		return
	}
	switch u := iv.Dyn.Underlying().(type) {
	case *types.Pointer:
		p, isP := iv.V.(PtrV)
		if sl, isS := u.Elem().Underlying().(*types.Slice); isS {
			if !isP {
				return
			}
			if n := binSize(sl.Elem()); n >= 0 {
				cur := st.load(p.Obj, p.Path, u.Elem())
				s, _ := asSlice(cur)
				return scale(s.Len, n), sl.Elem(), cur, true
			}
			return
		}
		if n := binSize(u.Elem()); n >= 0 {
			return K(n), u.Elem(), iv.V, true
		}
	case *types.Slice:
		if n := binSize(u.Elem()); n >= 0 {
			s, _ := asSlice(iv.V)
			return scale(s.Len, n), u.Elem(), iv.V, true
		}
	default:
		if n := binSize(iv.Dyn); n >= 0 {
			return K(n), iv.Dyn, iv.V, true
		}
	}
	return
}

// possible dynamic types of an interface value of a sealed interface, forked.
func (e *Engine) forkDyn(st *State, v Val) []Outcome {
	s, ok := v.(IfaceSym)
	if !ok {
		return []Outcome{{st, v}}
	}
	if _, known := st.dyn[s.Name]; known {
		return []Outcome{{st, v}}
	}
	impls := e.sealed(s.T)
	if impls == nil {
		return []Outcome{{st, v}}
	}
	var out []Outcome
	for i, d := range impls {
		c := st
		if i < len(impls)-1 {
			c = st.clone()
		}
		c.dynOwn()
		c.dyn[s.Name] = d
		out = append(out, Outcome{c, IfaceV{d, symVal(s.Name+".("+typeStr(d)+")", d)}})
	}
	return out
}

type ioRes struct {
	st  *State
	ok  bool
	n   Lin
	err Val
}

func fieldIdx(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func isPtrTo(t types.Type, full string) bool {
	return typeStrFull(t) == "*"+full
}

// bytesReader gives access to the fields of a bytes.Reader.
type bytesReader struct {
	p     PtrV
	st    *State
	s     SliceV
	i     Lin
	fs, f int
}

func (e *Engine) asBytesReader(fr *Frame, st *State, in ssa.Instruction, v Val) (bytesReader, bool) {
	if iv, ok := v.(IfaceV); ok {
		if !isPtrTo(iv.Dyn, "bytes.Reader") {
			return bytesReader{}, false
		}
		v = iv.V
	}
	p, ok := v.(PtrV)
	if !ok {
		return bytesReader{}, false
	}
	if nilAtom(p) != "" {
		e.oblige(fr, st, in, "nil-deref", notV(nilCond(p)), "bytes.Reader")
	}
	t := p.typ()
	fs, fi := fieldIdx(t, "s"), fieldIdx(t, "i")
	if fs < 0 || fi < 0 {
		return bytesReader{}, false
	}
	r := bytesReader{p: p, st: st, fs: fs, f: fi}
	tt := t.Underlying().(*types.Struct)
	r.s, _ = asSlice(st.load(p.Obj, pathField(p.Path, fs), tt.Field(fs).Type()))
	if iv, ok := st.load(p.Obj, pathField(p.Path, fi), tt.Field(fi).Type()).(IntV); ok {
		r.i = iv.L
		st.addFact(r.i) // the position of a bytes.Reader is never negative
	}
	return r, true
}

func (r bytesReader) setPos(st *State, l Lin) {
	st.store(r.p.Obj, pathField(r.p.Path, r.f), IntV{l}, types.Typ[types.Int64])
}

// readN models reading exactly n bytes (io.ReadFull and binary.Read).
func (e *Engine) readN(fr *Frame, st *State, in ssa.Instruction, r Val, n Lin, op string, tgt Val) []ioRes {
	var out []ioRes
	if br, ok := e.asBytesReader(fr, st, in, r); ok {
		if st.dead {
			return nil
		}
		c := geV(sub(sub(br.s.Len, br.i), n))
		e.logCond(nil, c)
		s2 := st.clone()
		st.assume(c)
		if !st.dead {
			br.setPos(st, add(br.i, n))
			out = append(out, ioRes{st, true, n, NilV{}})
		}
		s2.assume(notV(c))
		if !s2.dead {
			// an empty read always succeeds
			s3 := s2.clone()
			s3.assume(eqV(n))
			if !s3.dead {
				out = append(out, ioRes{s3, true, n, NilV{}})
			}
			s2.assume(notV(eqV(n)))
			if !s2.dead {
				l := atomLin(sym(freshName("short"), p64(0), p64(maxLen)))
				s2.addFact(sub(addc(n, -1), l))
				if e.memFault {
					e.gset(s2, "rfault", trueV)
					e.gset(s2, "faultAt", StrV{Const: true, S: e.P.pos(in) + " (past the end of data in memory)"})
				}
				if nb, ok := e.asBytesReader(fr, s2, in, r); ok {
					nb.setPos(s2, atomLin(sym(freshName("rpos"), p64(0), p64(int64(1)<<60))))
				}
				out = append(out, ioRes{s2, false, l, newErr(s2, op)})
			}
		}
		return out
	}
	nm := ifName(r)
	s2 := st.clone()
	pos := e.gint(st, "pos:"+nm)
	e.gset(st, "pos:"+nm, IntV{add(pos, n)})
	if hi, okh := e.gsize(nm); okh {
		s3 := st.clone()
		st.assume(eqV(n))
		s3.assume(notV(eqV(n)))
		s3.addFact(sub(hi, add(pos, n)))
		if !st.dead {
			e.emit(&Event{Kind: "read", Fr: fr, St: st, In: in, Name: nm, L: n, OK: true, Note: op, Val: tgt, Args: []Val{IntV{pos}}})
			out = append(out, ioRes{st, true, n, NilV{}})
		}
		st = s3
	}
	if !st.dead {
		e.emit(&Event{Kind: "read", Fr: fr, St: st, In: in, Name: nm, L: n, OK: true, Note: op, Val: tgt, Args: []Val{IntV{pos}}})
		out = append(out, ioRes{st, true, n, NilV{}})
	}
	s2.assume(notV(eqV(n)))
	if !s2.dead {
		e.gset(s2, "rfault", trueV)
		e.gset(s2, "pos:"+nm, IntV{atomLin(sym(freshName("pos"), p64(0), nil))})
		e.emit(&Event{Kind: "read", Fr: fr, St: s2, In: in, Name: nm, L: n, Fail: true, Note: op, Val: tgt})
		l := atomLin(sym(freshName("short"), p64(0), p64(maxLen)))
		out = append(out, ioRes{s2, false, l, newErr(s2, op)})
	}
	return out
}

// gsize is the symbolic size of an external input, when a check cares.
func (e *Engine) gsize(nm string) (Lin, bool) {
	if e.trackSize {
		return atomLin(sym("size:"+nm, p64(0), p64(int64(1)<<60))), true // (also kept as a ghost, so that facts about it are not forgotten)
	}
	return K(0), false
}

func ifName(v Val) string {
	switch x := v.(type) {
	case IfaceSym:
		return x.Name
	case IfaceV:
		return "dyn:" + typeStr(x.Dyn)
	}
	return "?"
}

// fillTarget gives the storage a successful read fills fresh contents.
func (e *Engine) fillTarget(fr *Frame, st *State, in ssa.Instruction, tgt Val, t types.Type, label string) {
	switch x := tgt.(type) {
	case PtrV:
		v := symVal(freshName("rd:"+typeStr(t)), t)
		st.store(x.Obj, x.Path, v, t)
		e.emit(&Event{Kind: "filled", Fr: fr, St: st, In: in, Obj: x.Obj, Path: x.Path, Val: v, Elem: t, Note: label})
	case SliceV:
		if x.Obj != nil {
			e.havocSlice(st, x)
			e.emit(&Event{Kind: "filled", Fr: fr, St: st, In: in, Obj: x.Obj, Path: x.Path, Val: x, Elem: t, Note: label})
		}
	}
}

// writeN models one write of n bytes to w. data may be nil when only the length is known.
func (e *Engine) writeN(fr *Frame, st *State, in ssa.Instruction, w Val, data Val, n Lin, op string, payload Val, pt types.Type) []ioRes {
	if iv, ok := w.(IfaceV); ok {
		if isPtrTo(iv.Dyn, "bytes.Buffer") {
			e.bufExtend(fr, st, in, iv.V, n)
			e.emit(&Event{Kind: "bufwrite", Fr: fr, St: st, In: in, L: n, Note: op, Val: payload, Elem: pt, Args: []Val{iv.V}})
			if st.dead {
				return nil
			}
			return []ioRes{{st, true, n, NilV{}}}
		}
		if f := e.methodNamed(iv.Dyn, "Write"); f != nil && e.P.inModule(f) {
			if data == nil {
				o := newObj("alloc", "chunk", types.Typ[types.Byte])
				o.arr, o.local = true, true
				o.content = freshName("chunk")
				st.epOwn()
				st.epoch[o.id] = "c"
				data = SliceV{Obj: o, Off: K(0), Len: n, Cap: n}
			}
			e.emit(&Event{Kind: "write", Fr: fr, St: st, In: in, Name: ifName(w), L: n, OK: true, Note: op, Val: payload, Elem: pt})
			var out []ioRes
			for _, o := range e.callFn(fr, st, in, f, []Val{iv.V, data}, nil) {
				if o.st.dead {
					continue
				}
				tv, _ := o.ret.(TupleV)
				if len(tv) != 2 {
					continue
				}
				for _, x := range e.splitNil(o.st, tv[1]) {
					out = append(out, ioRes{x.st, x.isNil, n, tv[1]})
				}
			}
			return out
		}
	}
	nm := ifName(w)
	s2 := st.clone()
	pos := e.gint(st, "pos:"+nm)
	for _, s := range []*State{st, s2} {
		e.gset(s, "touched:"+nm, trueV)
	}
	e.emit(&Event{Kind: "write", Fr: fr, St: st, In: in, Name: nm, L: n, OK: true, Note: op, Val: payload, Elem: pt, Args: []Val{IntV{pos}}})
	e.gset(st, "pos:"+nm, IntV{add(pos, n)})
	e.gset(s2, "pos:"+nm, IntV{atomLin(sym(freshName("pos"), p64(0), nil))})
	e.gset(s2, "wfault", trueV)
	e.emit(&Event{Kind: "write", Fr: fr, St: s2, In: in, Name: nm, L: n, Fail: true, Note: op, Val: payload, Elem: pt})
	l := atomLin(sym(freshName("wrote"), p64(0), p64(maxLen)))
	s2.addFact(sub(n, l))
	return []ioRes{{st, true, n, NilV{}}, {s2, false, l, newErr(s2, op)}}
}

type nilSplit struct {
	st    *State
	isNil bool
}

func (e *Engine) splitNil(st *State, v Val) []nilSplit {
	c := nilCond(v)
	switch st.truth(c) {
	case 1:
		return []nilSplit{{st, true}}
	case 0:
		return []nilSplit{{st, false}}
	}
	s2 := st.clone()
	st.assume(c)
	s2.assume(notV(c))
	return []nilSplit{{st, true}, {s2, false}}
}

func (e *Engine) methodNamed(t types.Type, name string) *ssa.Function {
	ms := e.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Engine) bufField(st *State, v Val) (PtrV, string, SliceV, bool) {
	p, ok := v.(PtrV)
	if !ok {
		return PtrV{}, "", SliceV{}, false
	}
	fi := fieldIdx(p.typ(), "buf")
	if fi < 0 {
		return PtrV{}, "", SliceV{}, false
	}
	fp := pathField(p.Path, fi)
	s, _ := asSlice(st.load(p.Obj, fp, types.NewSlice(types.Typ[types.Byte])))
	return p, fp, s, true
}

// bufExtend appends n bytes of unknown content to a bytes.Buffer.
func (e *Engine) bufExtend(fr *Frame, st *State, in ssa.Instruction, v Val, n Lin) {
	p, fp, s, ok := e.bufField(st, v)
	if !ok {
		e.oblige(fr, st, in, "nil-deref", falseV, "bytes.Buffer")
		return
	}
	if nilAtom(p) != "" {
		e.oblige(fr, st, in, "nil-deref", notV(nilCond(p)), "bytes.Buffer")
	}
	nl := add(s.Len, n)
	st.addFact(sub(K(maxLen), nl))
	o := newObj("alloc", "bufdata", types.Typ[types.Byte])
	o.arr, o.local = true, true
	o.content = freshName("bufdata")
	st.epOwn()
	st.epoch[o.id] = "b"
	cpn := sym(freshName("cap"), p64(0), p64(maxLen))
	cpn.ax = []Lin{sub(atomLin(cpn), nl)}
	st.store(p.Obj, fp, SliceV{Obj: o, Off: K(0), Len: nl, Cap: atomLin(cpn)}, types.NewSlice(types.Typ[types.Byte]))
}

func (e *Engine) seek(fr *Frame, st *State, in ssa.Instruction, args []Val) []Outcome {
	r := args[0]
	off, _ := args[1].(IntV)
	wh, _ := args[2].(IntV)
	if br, ok := e.asBytesReader(fr, st, in, r); ok {
		var tgt Lin
		switch {
		case wh.L.isConst() && wh.L.c == 0:
			tgt = off.L
		case wh.L.isConst() && wh.L.c == 1:
			tgt = add(br.i, off.L)
		case wh.L.isConst() && wh.L.c == 2:
			tgt = add(br.s.Len, off.L)
		default:
			tgt = atomLin(sym(freshName("seek"), nil, nil))
		}
		s2 := st.clone()
		var out []Outcome
		st.assume(geV(tgt))
		if !st.dead {
			br.setPos(st, tgt)
			out = append(out, Outcome{st, TupleV{IntV{tgt}, NilV{}}})
		}
		s2.assume(notV(geV(tgt)))
		if !s2.dead {
			out = append(out, Outcome{s2, TupleV{IntV{K(0)}, uniqErr("seek")}})
		}
		return out
	}
	nm := ifName(r)
	s2 := st.clone()
	pos := e.gint(st, "pos:"+nm)
	var tgt Lin
	kind := "?"
	switch {
	case wh.L.isConst() && wh.L.c == 0:
		tgt, kind = off.L, "start"
	case wh.L.isConst() && wh.L.c == 1:
		tgt, kind = add(pos, off.L), "current"
	case wh.L.isConst() && wh.L.c == 2:
		tgt, kind = add(atomLin(sym("size:"+nm, p64(0), p64(int64(1)<<60))), off.L), "end"
	default:
		tgt = atomLin(sym(freshName("seek"), p64(0), nil))
	}
	isDst := strings.HasPrefix(nm, "dst")
	st.addFact(tgt)
	e.gset(st, "pos:"+nm, IntV{tgt})
	e.gset(s2, "pos:"+nm, IntV{atomLin(sym(freshName("pos"), p64(0), nil))})
	fl := "rfault"
	if isDst {
		fl = "wfault"
		e.gset(st, "touched:"+nm, trueV)
		e.gset(s2, "touched:"+nm, trueV)
	}
	e.gset(s2, fl, trueV)
	e.emit(&Event{Kind: "seek", Fr: fr, St: st, In: in, Name: nm, L: tgt, OK: true, Note: kind, Args: args})
	e.emit(&Event{Kind: "seek", Fr: fr, St: s2, In: in, Name: nm, Fail: true, Note: kind, Args: args})
	r2 := TupleV{IntV{atomLin(sym(freshName("badpos"), nil, nil))}, newErr(s2, "seek")}
	return []Outcome{{st, TupleV{IntV{tgt}, NilV{}}}, {s2, r2}}
}

func baseModels() map[string]Model {
	m := map[string]Model{}
	one := func(st *State, v Val) []Outcome { return []Outcome{{st, v}} }
	errNew := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		nm := "errors.New"
		if len(args) > 0 {
			if s, ok := args[0].(StrV); ok && s.Const {
				nm = s.S
			}
		}
		return one(st, uniqErr(nm))
	}
	m["errors.New"] = errNew
	m["fmt.Errorf"] = errNew
	m["bytes.NewReader"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		pt := sig.Results().At(0).Type().(*types.Pointer)
		o := allocObj(fr, st, in, "", "bytes.Reader", pt.Elem())
		o.zero = true
		st.store(o, pathField("", fieldIdx(pt.Elem(), "s")), args[0], types.NewSlice(types.Typ[types.Byte]))
		return one(st, PtrV{Obj: o})
	}
	newBuf := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		pt := sig.Results().At(0).Type().(*types.Pointer)
		o := allocObj(fr, st, in, "", "bytes.Buffer", pt.Elem())
		o.zero = true
		v := args[0]
		if s, ok := v.(StrV); ok {
			oo := newObj("alloc", "bufdata", types.Typ[types.Byte])
			oo.arr = true
			oo.content = freshName("bufdata")
			v = SliceV{Obj: oo, Off: K(0), Len: s.Len, Cap: s.Len}
		}
		st.store(o, pathField("", fieldIdx(pt.Elem(), "buf")), v, types.NewSlice(types.Typ[types.Byte]))
		return one(st, PtrV{Obj: o})
	}
	m["bytes.NewBuffer"] = newBuf
	m["bytes.NewBufferString"] = newBuf
	m["(*bytes.Buffer).Bytes"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		p, ok := e.deref(fr, st, in, args[0])
		if !ok {
			return nil
		}
		fi := fieldIdx(p.typ(), "buf")
		return one(st, st.load(p.Obj, pathField(p.Path, fi), types.NewSlice(types.Typ[types.Byte])))
	}
	m["(*bytes.Buffer).Len"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		p, ok := e.deref(fr, st, in, args[0])
		if !ok {
			return nil
		}
		_, _, s, _ := e.bufField(st, p)
		return one(st, IntV{s.Len})
	}
	m["(*bytes.Buffer).String"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		_, _, s, _ := e.bufField(st, args[0])
		return one(st, StrV{Sym: freshName("bufstr"), Len: s.Len})
	}
	bw := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		n := K(1)
		var pl Val
		if len(args) > 1 {
			switch args[1].(type) {
			case SliceV, StrV, NilV:
				n = e.lenOf(st, args[1])
				pl = args[1]
			}
		}
		e.bufExtend(fr, st, in, args[0], n)
		e.emit(&Event{Kind: "bufwrite", Fr: fr, St: st, In: in, L: n, Note: "Write", Val: pl, Elem: types.NewSlice(types.Typ[types.Byte]), Args: []Val{args[0]}})
		if st.dead {
			return nil
		}
		if sig.Results().Len() == 1 {
			return one(st, NilV{})
		}
		return one(st, TupleV{IntV{n}, NilV{}})
	}
	m["(*bytes.Buffer).Write"] = bw
	m["(*bytes.Buffer).WriteString"] = bw
	m["(*bytes.Buffer).WriteByte"] = bw
	m["(*bytes.Buffer).Grow"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		return one(st, nil)
	}
	m["(*bytes.Reader).Size"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		br, ok := e.asBytesReader(fr, st, in, args[0])
		if !ok {
			return one(st, IntV{atomLin(sym(freshName("size"), p64(0), p64(maxLen)))})
		}
		return one(st, IntV{br.s.Len})
	}
	m["(*bytes.Reader).Len"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		br, ok := e.asBytesReader(fr, st, in, args[0])
		l := atomLin(sym(freshName("rlen"), p64(0), p64(maxLen)))
		if ok {
			d := sub(br.s.Len, br.i)
			if st.prove(d) {
				l = d
			} else {
				st.addFact(sub(br.s.Len, l))
				st.addFact(sub(l, d))
			}
		}
		return one(st, IntV{l})
	}
	m["(*bytes.Reader).Seek"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		return e.seek(fr, st, in, args)
	}
	m["invoke io.Seeker.Seek"] = m["(*bytes.Reader).Seek"]
	m["invoke io.ReadSeeker.Seek"] = m["(*bytes.Reader).Seek"]
	m["invoke io.WriteSeeker.Seek"] = m["(*bytes.Reader).Seek"]
	read := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		n := e.lenOf(st, args[1])
		if br, ok := e.asBytesReader(fr, st, in, args[0]); ok {
			// a partial read is not an error: it stops at the end of the data
			k := atomLin(sym(freshName("nread"), p64(0), p64(maxLen)))
			full := geV(sub(sub(br.s.Len, br.i), n))
			s2 := st.clone()
			var out []Outcome
			st.assume(full)
			if !st.dead {
				br.setPos(st, add(br.i, n))
				e.fillTarget(fr, st, in, args[1], types.Typ[types.Byte], "Read")
				out = append(out, Outcome{st, TupleV{IntV{n}, NilV{}}})
			}
			s2.assume(notV(full))
			if !s2.dead {
				e.gset(s2, "rfault", trueV)
				s2.addFact(sub(addc(n, -1), k))
				e.fillTarget(fr, s2, in, args[1], types.Typ[types.Byte], "Read")
				v := symVal(freshName("rderr"), errorT)
				br2, _ := e.asBytesReader(fr, s2, in, args[0])
				br2.setPos(s2, atomLin(sym(freshName("rpos"), p64(0), p64(int64(1)<<60))))
				e.emit(&Event{Kind: "shortread", Fr: fr, St: s2, In: in, Name: ifName(args[0])})
				out = append(out, Outcome{s2, TupleV{IntV{k}, v}})
			}
			return out
		}
		nm := ifName(args[0])
		s2 := st.clone()
		k := atomLin(sym(freshName("nread"), p64(0), p64(maxLen)))
		st.addFact(sub(n, k))
		s2.addFact(sub(n, k))
		e.gset(st, "pos:"+nm, IntV{add(e.gint(st, "pos:"+nm), k)})
		e.gset(s2, "pos:"+nm, IntV{atomLin(sym(freshName("pos"), p64(0), nil))})
		e.fillTarget(fr, st, in, args[1], types.Typ[types.Byte], "Read")
		e.gset(s2, "rfault", trueV)
		// even without an error Read may return fewer bytes than asked for
		e.emit(&Event{Kind: "partialread", Fr: fr, St: st, In: in, Name: nm})
		return []Outcome{{st, TupleV{IntV{k}, NilV{}}}, {s2, TupleV{IntV{k}, newErr(s2, "read")}}}
	}
	m["(*bytes.Reader).Read"] = read
	m["invoke io.Reader.Read"] = read
	m["invoke io.ReadSeeker.Read"] = read
	m["io.ReadFull"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		n := e.lenOf(st, args[1])
		var out []Outcome
		for _, r := range e.readN(fr, st, in, args[0], n, "io.ReadFull", args[1]) {
			e.fillTarget(fr, r.st, in, args[1], types.Typ[types.Byte], "ReadFull")
			out = append(out, Outcome{r.st, TupleV{IntV{r.n}, r.err}})
		}
		return out
	}
	m["encoding/binary.Read"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		var out []Outcome
		for _, f := range e.forkDyn(st, args[2]) {
			n, t, tgt, ok := e.binPayload(fr, f.st, f.ret)
			if !ok {
				e.problem("binary.Read of a value without a fixed size in %s", shortFn(fr.fn))
				e.havocArg(f.st, f.ret, 0)
				s2 := f.st.clone()
				e.gset(s2, "rfault", trueV)
				out = append(out, Outcome{f.st, NilV{}}, Outcome{s2, newErr(s2, "binary.Read")})
				continue
			}
			e.emit(&Event{Kind: "binread", Fr: fr, St: f.st, In: in, L: n, Elem: t, Val: tgt, Args: args})
			for _, r := range e.readN(fr, f.st, in, args[0], n, "binary.Read", tgt) {
				if r.ok {
					e.fillTarget(fr, r.st, in, tgt, t, "binary.Read")
				}
				out = append(out, Outcome{r.st, r.err})
			}
		}
		return out
	}
	m["encoding/binary.Write"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		var out []Outcome
		for _, f := range e.forkDyn(st, args[2]) {
			n, t, tgt, ok := e.binPayload(fr, f.st, f.ret)
			if !ok {
				e.problem("binary.Write of a value without a fixed size in %s", shortFn(fr.fn))
				n = lenSym(freshName("binw"))
			}
			e.emit(&Event{Kind: "binwrite", Fr: fr, St: f.st, In: in, L: n, Elem: t, Val: tgt, Args: args})
			for _, r := range e.writeN(fr, f.st, in, args[0], nil, n, "binary.Write", tgt, t) {
				out = append(out, Outcome{r.st, r.err})
			}
		}
		return out
	}
	m["encoding/binary.Size"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		var out []Outcome
		for _, f := range e.forkDyn(st, args[0]) {
			n, _, _, ok := e.binPayload(fr, f.st, f.ret)
			if !ok {
				n = atomLin(sym(freshName("binsize"), p64(-1), p64(maxLen)))
			}
			out = append(out, Outcome{f.st, IntV{n}})
		}
		return out
	}
	m["invoke io.Writer.Write"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		var out []Outcome
		for _, r := range e.writeN(fr, st, in, args[0], args[1], e.lenOf(st, args[1]), "Write", args[1], types.NewSlice(types.Typ[types.Byte])) {
			out = append(out, Outcome{r.st, TupleV{IntV{r.n}, r.err}})
		}
		return out
	}
	m["invoke io.WriteSeeker.Write"] = m["invoke io.Writer.Write"]
	m["io.CopyN"] = copyN
	m["io.ReadAll"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		s2 := st.clone()
		e.gset(s2, "rfault", trueV)
		e.emit(&Event{Kind: "readall", Fr: fr, St: st, In: in, Args: args})
		o := newObj("alloc", "readall", types.Typ[types.Byte])
		o.arr, o.local = true, true
		o.content = freshName("readall")
		n := lenSym(freshName("readall"))
		return []Outcome{{st, TupleV{SliceV{Obj: o, Off: K(0), Len: n, Cap: n}, NilV{}}}, {s2, TupleV{SliceV{Obj: o, Off: K(0), Len: n, Cap: n}, newErr(s2, "readall")}}}
	}
	size := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		return one(st, IntV{atomLin(sym("size:"+ifName(args[0]), p64(0), p64(int64(1)<<60)))})
	}
	m["invoke any.Size"] = size
	m["invoke interface{Size() int64}.Size"] = size
	m["invoke fs.FileInfo.Size"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		nm := ifName(args[0])
		if i := strings.Index(nm, "stat:"); i >= 0 {
			nm = nm[i+5:]
		}
		return one(st, IntV{atomLin(sym("size:"+nm, p64(0), p64(int64(1)<<60)))})
	}
	m["(*os.File).Stat"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		s2 := st.clone()
		nm := "file"
		if p, ok := args[0].(PtrV); ok {
			nm = strings.TrimPrefix(strings.TrimSuffix(p.Obj.name, ".(*os.File)"), "*")
		}
		t := sig.Results().At(0).Type()
		v := IfaceSym{Name: "stat:" + nm, T: t}
		st.setBool("nil:"+v.Name, false)
		return []Outcome{{st, TupleV{v, NilV{}}}, {s2, TupleV{NilV{}, newErr(s2, "stat")}}}
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	hs := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if s, ok := args[0].(SliceV); ok {
			e.havocSlice(st, s)
		}
		return one(st, nil)
	}
	m["sort.Strings"], m["sort.Ints"] = hs, hs
	m["slices.Sort"] = hs
	m["sort.Search"] = sortSearch
	m["(image.Rectangle).Size"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		x, y := rectSize(e, st, args[0])
		return one(st, StructV{T: sig.Results().At(0).Type(), F: []Val{IntV{x}, IntV{y}}})
	}
	dim := func(i int) Model {
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			x, y := rectSize(e, st, args[0])
			if i == 1 {
				x = y
			}
			return one(st, IntV{x})
		}
	}
	m["(image.Rectangle).Dx"], m["(image.Rectangle).Dy"] = dim(0), dim(1)
	m["(image.Rectangle).Empty"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		x0, y0, x1, y1, ok := rect(args[0])
		if !ok {
			return one(st, atomV(freshName("empty")))
		}
		var out []Outcome
		cx, cy := geV(sub(x0, x1)), geV(sub(y0, y1))
		a := st.clone()
		a.assume(cx)
		if !a.dead {
			out = append(out, Outcome{a, trueV})
		}
		st.assume(notV(cx))
		b := st.clone()
		b.assume(cy)
		if !b.dead {
			out = append(out, Outcome{b, trueV})
		}
		st.assume(notV(cy))
		if !st.dead {
			out = append(out, Outcome{st, falseV})
		}
		return out
	}
	nn := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		vs := e.freshResults(sig, "nn")
		for _, v := range vs {
			if at := nilAtom(v); at != "" {
				st.setBool(at, false)
			}
		}
		return one(st, pack(vs))
	}
	m["image.NewNRGBA"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		pt := sig.Results().At(0).Type().(*types.Pointer)
		x, y := rectSize(e, st, args[0])
		e.oblige(fr, st, in, "image-size", geV(x), "negative width")
		e.oblige(fr, st, in, "image-size", geV(y), "negative height")
		e.emit(&Event{Kind: "newimage", Fr: fr, St: st, In: in, Args: []Val{IntV{x}, IntV{y}}})
		o := newObj("alloc", "NRGBA", pt.Elem())
		o.local, o.site = true, in
		if i := fieldIdx(pt.Elem(), "Rect"); i >= 0 {
			st.store(o, pathField("", i), args[0], pt.Elem().Underlying().(*types.Struct).Field(i).Type())
		}
		return one(st, PtrV{Obj: o})
	}
	m["(*image.NRGBA).Bounds"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if p, ok := args[0].(PtrV); ok {
			if i := fieldIdx(p.typ(), "Rect"); i >= 0 {
				return one(st, st.load(p.Obj, pathField(p.Path, i), sig.Results().At(0).Type()))
			}
		}
		return one(st, symVal(freshName("bounds"), sig.Results().At(0).Type()))
	}
	noop := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		return one(st, pack(e.freshResults(sig, "noop")))
	}
	m["(*image.NRGBA).Set"] = noop
	m["(*image.NRGBA).ColorModel"] = noop
	m["github.com/nfnt/resize.Resize"] = nn
	m["text/template.New"] = nn
	m["text/template.Must"] = nn
	m["(*text/template.Template).Parse"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		return one(st, TupleV{args[0], NilV{}})
	}
	m["(*text/template.Template).Execute"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if iv, ok := args[1].(IfaceV); ok && isPtrTo(iv.Dyn, "bytes.Buffer") {
			n := lenSym(freshName("tmpl"))
			st.addFact(addc(n, -1))
			e.bufExtend(fr, st, in, iv.V, n)
		}
		return one(st, NilV{})
	}
	enc := func(min int64) Model {
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			s2 := st.clone()
			n := lenSym(freshName("enc"))
			st.addFact(addc(n, -min))
			var out []Outcome
			for _, r := range e.writeN(fr, st, in, args[0], nil, n, "encode", nil, nil) {
				out = append(out, Outcome{r.st, r.err})
			}
			out = append(out, Outcome{s2, newErr(s2, "encode")})
			return out
		}
	}
	m["func global:github.com/tc-hib/winres.pngEncode"] = enc(8)
	m["image/png.Encode"] = enc(8)
	m["func global:github.com/tc-hib/winres.bmpEncode"] = enc(54)
	m["golang.org/x/image/bmp.Encode"] = enc(54)
	m["unicode/utf16.Encode"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		n := e.lenOf(st, args[0])
		k := fnAtom("utf16len", p64(0), p64(maxLen), n, K(int64(len(atomList))))
		if s, ok := args[0].(SliceV); ok && s.Obj != nil && s.Obj.content != "" && len(st.heapCells(s.Obj)) == 0 {
			k = fnAtom("utf16len:"+s.Obj.content, p64(0), p64(maxLen))
		}
		st.addFact(sub(k, n))
		st.addFact(sub(scale(n, 2), k))
		o := newObj("alloc", "utf16", types.Typ[types.Uint16])
		o.arr, o.local = true, true
		o.content = freshName("utf16")
		st.epOwn()
		st.epoch[o.id] = "u"
		return one(st, SliceV{Obj: o, Off: K(0), Len: k, Cap: k})
	}
	m["unicode/utf16.Decode"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		n := e.lenOf(st, args[0])
		k := lenSym(freshName("runes"))
		st.addFact(sub(n, k))
		o := newObj("alloc", "runes", types.Typ[types.Int32])
		o.arr, o.local = true, true
		o.content = freshName("runes")
		st.epOwn()
		st.epoch[o.id] = "u"
		return one(st, SliceV{Obj: o, Off: K(0), Len: k, Cap: k})
	}
	m["strings.Split"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		n := lenSym(freshName("split"))
		if s, ok := args[1].(StrV); ok && s.Const && s.S != "" {
			st.addFact(addc(n, -1))
		}
		o := newObj("alloc", "split", types.Typ[types.String])
		o.arr, o.local = true, true
		o.content = freshName("split")
		st.epOwn()
		st.epoch[o.id] = "s"
		return one(st, SliceV{Obj: o, Off: K(0), Len: n, Cap: n})
	}
	m["strings.SplitN"] = m["strings.Split"]
	m["encoding/json.Unmarshal"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		s2 := st.clone()
		for _, s := range []*State{st, s2} {
			e.havocArg(s, args[1], 0)
		}
		return []Outcome{{st, NilV{}}, {s2, newErr(s2, "unmarshal")}}
	}
	m["encoding/xml.Unmarshal"] = m["encoding/json.Unmarshal"]
	m["encoding/json.Marshal"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		s2 := st.clone()
		o := newObj("alloc", "json", types.Typ[types.Byte])
		o.arr, o.local = true, true
		o.content = freshName("json")
		n := lenSym(freshName("json"))
		st.addFact(addc(n, -2))
		return []Outcome{{st, TupleV{SliceV{Obj: o, Off: K(0), Len: n, Cap: n}, NilV{}}}, {s2, TupleV{NilV{}, newErr(s2, "marshal")}}}
	}
	m["strconv.ParseUint"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		s2 := st.clone()
		var hi *int64
		if b, ok := args[2].(IntV); ok && b.L.isConst() && b.L.c > 0 && b.L.c < 62 {
			hi = p64(int64(1)<<uint(b.L.c) - 1)
		}
		return []Outcome{{st, TupleV{IntV{atomLin(sym(freshName("parsed"), p64(0), hi))}, NilV{}}}, {s2, TupleV{IntV{atomLin(sym(freshName("parsed"), p64(0), hi))}, newErr(s2, "parse")}}}
	}
	for i, w := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
		w := w
		f := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			b := args[len(args)-1]
			e.oblige(fr, st, in, "index", geV(addc(e.lenOf(st, b), -w)), "byte slice too short for a fixed-size read")
			if st.dead {
				return nil
			}
			s, ok := b.(SliceV)
			if !ok || w > 4 {
				return one(st, symVal(freshName("le"), sig.Results().At(0).Type()))
			}
			r := K(0)
			for k := int64(0); k < w; k++ {
				x, _ := st.load(s.Obj, pathIdx(s.Path, addc(s.Off, k)), types.Typ[types.Byte]).(IntV)
				r = add(r, scale(x.L, int64(1)<<uint(8*k)))
			}
			return one(st, IntV{r})
		}
		m["(encoding/binary.littleEndian)."+i] = f
		g := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			b := args[len(args)-2]
			e.oblige(fr, st, in, "index", geV(addc(e.lenOf(st, b), -w)), "byte slice too short for a fixed-size write")
			if st.dead {
				return nil
			}
			s, ok := b.(SliceV)
			x, ok2 := args[len(args)-1].(IntV)
			if ok && ok2 {
				for k := int64(0); k < w; k++ {
					d := x.L
					if 8*k < 62 {
						d = mkMod(mkDiv(x.L, int64(1)<<uint(8*k)), 256)
					}
					p := pathIdx(s.Path, addc(s.Off, k))
					e.emit(&Event{Kind: "store", Fr: fr, St: st, In: in, Obj: s.Obj, Path: p, Val: IntV{d}, Elem: types.Typ[types.Byte]})
					st.store(s.Obj, p, IntV{d}, types.Typ[types.Byte])
				}
			}
			return one(st, nil)
		}
		m["(encoding/binary.littleEndian).Put"+i] = g
	}
	foldModels(m)
	return m
}

func rect(v Val) (x0, y0, x1, y1 Lin, ok bool) {
	s, o := v.(StructV)
	if !o || len(s.F) != 2 {
		return
	}
	a, o1 := s.F[0].(StructV)
	b, o2 := s.F[1].(StructV)
	if !o1 || !o2 {
		return
	}
	g := func(v Val) Lin { i, _ := v.(IntV); return i.L }
	return g(a.F[0]), g(a.F[1]), g(b.F[0]), g(b.F[1]), true
}

func rectSize(e *Engine, st *State, v Val) (Lin, Lin) {
	x0, y0, x1, y1, ok := rect(v)
	if !ok {
		return atomLin(sym(freshName("dx"), nil, nil)), atomLin(sym(freshName("dy"), nil, nil))
	}
	return sub(x1, x0), sub(y1, y0) // images have coordinates far from the limits of int (assumption)
}

func sortSlice(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
	v := args[0]
	if iv, ok := v.(IfaceV); ok {
		v = iv.V
	}
	s, ok := v.(SliceV)
	if !ok {
		return []Outcome{{st, nil}}
	}
	e.emit(&Event{Kind: "permute", Fr: fr, St: st, In: in, Obj: s.Obj, Val: s})
	e.havocSliceKeep(st, s)
	c := st.clone()
	c.addFact(addc(s.Len, -2))
	if !c.dead {
		i, j := atomLin(sym(freshName("i"), p64(0), p64(maxLen))), atomLin(sym(freshName("j"), p64(0), p64(maxLen)))
		c.addFact(addc(sub(s.Len, i), -1))
		c.addFact(addc(sub(s.Len, j), -1))
		e.callValue(fr, c, in, args[1], []Val{IntV{i}, IntV{j}}, nil)
	}
	return []Outcome{{st, nil}}
}

// havocSliceKeep forgets the order of the elements, keeping what is known of each of them.
func (e *Engine) havocSliceKeep(st *State, s SliceV) {
	if s.Obj == nil {
		return
	}
	f := s.Obj.onLoad
	e.havocSlice(st, s)
	s.Obj.onLoad = f
}

func sortSearch(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
	n, _ := args[0].(IntV)
	c := st.clone()
	i := atomLin(sym(freshName("i"), p64(0), p64(maxLen)))
	c.addFact(addc(sub(n.L, i), -1))
	if !c.dead {
		e.callValue(fr, c, in, args[1], []Val{IntV{i}}, nil)
	}
	r := atomLin(sym(freshName("found"), p64(0), p64(maxLen)))
	st.addFact(sub(n.L, r))
	e.emit(&Event{Kind: "search", Fr: fr, St: st, In: in, Args: args, L: r})
	return []Outcome{{st, IntV{r}}}
}

// copyN models io.CopyN: nothing happens, successfully, for n <= 0.
func copyN(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
	w, r := args[0], args[1]
	n, _ := args[2].(IntV)
	var out []Outcome
	e.emit(&Event{Kind: "copyn", Fr: fr, St: st, In: in, L: n.L, Args: args})
	z := st.clone()
	pos := geV(addc(n.L, -1))
	e.logCond(nil, pos)
	z.assume(notV(pos))
	if !z.dead {
		out = append(out, Outcome{z, TupleV{IntV{K(0)}, NilV{}}})
	}
	st.assume(pos)
	if st.dead {
		return out
	}
	for _, rr := range e.readN(fr, st, in, r, n.L, "io.CopyN", nil) {
		if !rr.ok {
			if nm := ifName(w); !strings.HasPrefix(nm, "dyn:") {
				e.gset(rr.st, "touched:"+nm, trueV)
			}
			out = append(out, Outcome{rr.st, TupleV{IntV{rr.n}, rr.err}})
			continue
		}
		wl := n.L
		if iv, ok := w.(IfaceV); ok && !isPtrTo(iv.Dyn, "bytes.Buffer") && e.modular[e.methodNamed(iv.Dyn, "Write")] == nil {
			// the writer receives several chunks, none of them empty
			e.havocArg(rr.st, iv.V, 0)
			wl = lenSym(freshName("chunk"))
			rr.st.addFact(addc(wl, -1))
			rr.st.addFact(sub(n.L, wl))
		}
		for _, ww := range e.writeN(fr, rr.st, in, w, nil, wl, "io.CopyN", nil, nil) {
			if iv, ok := w.(IfaceV); ok && !isPtrTo(iv.Dyn, "bytes.Buffer") {
				e.havocArg(ww.st, iv.V, 0)
			}
			out = append(out, Outcome{ww.st, TupleV{IntV{ww.n}, ww.err}})
		}
	}
	return out
}
