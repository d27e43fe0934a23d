package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The fixed version block (C32): every bit of what is encoded and decoded is traced to where it comes from.
//
// A number is a row of bits, each of them 0, 1, or a bit of a named input. Both functions are followed along each of their paths; on a
// path, flags and types that were tested have known values.

type bit struct {
	src string // "" for a known bit
	n   int    // bit of src, or 0/1
}

type bNum struct {
	b [64]bit
	w int // width of the type
	s bool
}
type bPtr struct {
	o    *bObj
	path string
}
type bAgg struct {
	m map[string]bVal // fields by path
	t types.Type
}
type bTup struct{ v []bVal }
type bTop struct{ why string }
type bNil struct{}
type bErr struct{} // an error
type bFn struct {
	f    *ssa.Function
	free []bVal
}
type bVal interface{}

type bObj struct {
	name string
	t    types.Type
	in   bool // input: reads give named bits
}

type bState struct {
	mem  map[*bObj]map[string]bVal
	env  map[ssa.Value]bVal
	fact map[string]int64 // known inputs, and excluded values as name!value
	objs map[*ssa.Alloc]*bObj
}

func (s *bState) clone() *bState {
	r := &bState{map[*bObj]map[string]bVal{}, map[ssa.Value]bVal{}, map[string]int64{}, s.objs}
	for o, m := range s.mem {
		n := map[string]bVal{}
		for k, v := range m {
			n[k] = v
		}
		r.mem[o] = n
	}
	for k, v := range s.env {
		r.env[k] = v
	}
	for k, v := range s.fact {
		r.fact[k] = v
	}
	return r
}

type bOut struct {
	st  *bState
	ret []bVal
}

type bRun struct {
	c     *Ctx
	steps int
	why   string
	depth int
	// readInto is called for calls of code that fills an object from data
	fill func(r *bRun, st *bState, callee *ssa.Function, args []bVal) bool
}

func (r *bRun) fail(in ssa.Instruction, f string, a ...interface{}) {
	if r.why == "" {
		r.why = fmt.Sprintf(f, a...)
		if in != nil {
			r.why += " at " + r.c.P.pos(in)
		}
	}
}

func numType(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func bConst(n int64, w int, s bool) bNum {
	r := bNum{w: w, s: s}
	for i := 0; i < 64; i++ {
		if i < w || s {
			r.b[i] = bit{"", int(uint64(n) >> uint(i) & 1)}
		}
	}
	return r.norm()
}

// norm extends the value to 64 bits following its type.
func (x bNum) norm() bNum {
	for i := x.w; i < 64; i++ {
		if x.s {
			x.b[i] = x.b[x.w-1]
		} else {
			x.b[i] = bit{"", 0}
		}
	}
	return x
}

func (x bNum) known() (int64, bool) {
	var n uint64
	for i := 0; i < 64; i++ {
		if x.b[i].src != "" {
			return 0, false
		}
		n |= uint64(x.b[i].n) << uint(i)
	}
	return int64(n), true
}

// whole is the input this is all the bits of.
func (x bNum) whole() (string, bool) {
	s := x.b[0].src
	for i := 0; i < x.w; i++ {
		if s == "" || x.b[i] != (bit{s, i}) {
			return "", false
		}
	}
	return s, true
}

func (x bNum) String() string {
	if n, ok := x.known(); ok {
		return fmt.Sprint(n)
	}
	var parts []string
	for i := 0; i < x.w; {
		j := i + 1
		if x.b[i].src == "" {
			for j < x.w && x.b[j] == (bit{"", x.b[i].n}) {
				j++
			}
			parts = append(parts, fmt.Sprintf("[%d..%d]=%d", i, j-1, x.b[i].n))
		} else {
			for j < x.w && x.b[j] == (bit{x.b[i].src, x.b[i].n + j - i}) {
				j++
			}
			parts = append(parts, fmt.Sprintf("[%d..%d]=%s:%d", i, j-1, x.b[i].src, x.b[i].n))
		}
		i = j
	}
	return strings.Join(parts, " ")
}

func bInput(name string, t types.Type) bVal {
	w, s, ok := numType(t)
	if !ok {
		return bTop{name}
	}
	r := bNum{w: w, s: s}
	for i := 0; i < w; i++ {
		r.b[i] = bit{name, i}
	}
	return r.norm()
}

// leaves calls f for the fields and elements of a type that are neither structures nor arrays.
func leafPaths(t types.Type, path string, f func(string, types.Type)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafPaths(u.Field(i).Type(), path+"."+u.Field(i).Name(), f)
		}
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				leafPaths(u.Elem(), fmt.Sprintf("%s[%d]", path, i), f)
			}
		}
	default:
		f(path, t)
	}
}

func (r *bRun) load(st *bState, p bPtr, t types.Type, in ssa.Instruction) bVal {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		if isNamed(t, "time", "Time") {
			break
		}
		a := bAgg{map[string]bVal{}, t}
		leafPaths(t, "", func(q string, ty types.Type) { a.m[q] = r.load(st, bPtr{p.o, p.path + q}, ty, in) })
		return a
	}
	if v, ok := st.mem[p.o][p.path]; ok {
		return v
	}
	if p.o.in {
		name := p.o.name + p.path
		if k, ok := st.fact[name]; ok {
			w, s, _ := numType(t)
			return bConst(k, w, s)
		}
		return bInput(name, t)
	}
	if w, s, ok := numType(t); ok {
		return bConst(0, w, s)
	}
	return bNil{}
}

func (r *bRun) store(st *bState, p bPtr, v bVal) {
	if st.mem[p.o] == nil {
		st.mem[p.o] = map[string]bVal{}
	}
	if a, ok := v.(bAgg); ok {
		for q, x := range a.m {
			st.mem[p.o][p.path+q] = x
		}
		return
	}
	st.mem[p.o][p.path] = v
}

func (r *bRun) val(st *bState, v ssa.Value) bVal {
	switch x := v.(type) {
	case *ssa.Function:
		return bFn{f: x}
	case *ssa.Const:
		if w, s, ok := numType(x.Type()); ok {
			if x.Value == nil {
				return bConst(0, w, s)
			}
			if x.Value.Kind() == constant.Bool {
				if constant.BoolVal(x.Value) {
					return bConst(1, 1, false)
				}
				return bConst(0, 1, false)
			}
			if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return bConst(n, w, s)
			}
			if n, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
				return bConst(int64(n), w, s)
			}
		}
		switch x.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			a := bAgg{map[string]bVal{}, x.Type()}
			leafPaths(x.Type(), "", func(q string, ty types.Type) {
				if w, s, ok := numType(ty); ok {
					a.m[q] = bConst(0, w, s)
				} else {
					a.m[q] = bNil{}
				}
			})
			return a
		}
		return bNil{}
	}
	if w, ok := st.env[v]; ok {
		return w
	}
	return bTop{v.Name()}
}

func (r *bRun) binop(st *bState, x *ssa.BinOp) bVal {
	if _, n1 := r.val(st, x.X).(bNil); n1 && (x.Op == token.EQL || x.Op == token.NEQ) {
		if _, n2 := r.val(st, x.Y).(bNil); n2 {
			if x.Op == token.EQL {
				return bConst(1, 1, false)
			}
			return bConst(0, 1, false)
		}
	}
	for _, y := range []ssa.Value{x.X, x.Y} {
		if _, isErr := r.val(st, y).(bErr); isErr {
			o := x.X
			if y == o {
				o = x.Y
			}
			if k, ok := o.(*ssa.Const); ok && k.Value == nil {
				if x.Op == token.NEQ {
					return bConst(1, 1, false)
				}
				return bConst(0, 1, false)
			}
		}
	}
	a, ok1 := r.val(st, x.X).(bNum)
	b, ok2 := r.val(st, x.Y).(bNum)
	if !ok1 || !ok2 {
		return bTop{"operation"}
	}
	w, s, _ := numType(x.Type())
	out := bNum{w: w, s: s}
	ka, isA := a.known()
	kb, isB := b.known()
	truth := func(v bool) bVal {
		if v {
			return bConst(1, 1, false)
		}
		return bConst(0, 1, false)
	}
	switch x.Op {
	case token.SHL, token.SHR:
		if !isB || kb < 0 {
			return bTop{"shift"}
		}
		for i := 0; i < 64; i++ {
			j := i - int(kb)
			if x.Op == token.SHR {
				j = i + int(kb)
			}
			switch {
			case j >= 0 && j < 64:
				out.b[i] = a.b[j]
			case j >= 64 && a.s:
				out.b[i] = a.b[63]
			default:
				out.b[i] = bit{"", 0}
			}
		}
		return out.norm()
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for i := range out.b {
			p, q := a.b[i], b.b[i]
			if x.Op == token.AND_NOT {
				if q.src != "" {
					return bTop{"and not"}
				}
				q.n = 1 - q.n
			}
			if p.src != "" {
				p, q = q, p
			}
			// p is known if one is
			switch {
			case p.src == "" && q.src == "" && (x.Op == token.AND || x.Op == token.AND_NOT):
				out.b[i] = bit{"", p.n & q.n}
			case p.src == "" && q.src == "" && x.Op == token.OR:
				out.b[i] = bit{"", p.n | q.n}
			case p.src == "" && q.src == "":
				out.b[i] = bit{"", p.n ^ q.n}
			case p.src == "" && (x.Op == token.AND || x.Op == token.AND_NOT):
				if out.b[i] = (bit{"", 0}); p.n == 1 {
					out.b[i] = q
				}
			case p.src == "" && p.n == 0:
				out.b[i] = q
			case p.src == "" && x.Op == token.OR:
				out.b[i] = bit{"", 1}
			case p == q && x.Op != token.XOR:
				out.b[i] = p
			default:
				out.b[i] = bit{"mix(" + p.src + "," + q.src + ")", p.n + q.n}
			}
		}
		return out.norm()
	case token.ADD:
		// no carry where no two bits can both be set
		disjoint := true
		for i := range out.b {
			if a.b[i] != (bit{}) && b.b[i] != (bit{}) {
				disjoint = false
			}
		}
		if disjoint {
			for i := range out.b {
				if out.b[i] = a.b[i]; a.b[i] == (bit{}) {
					out.b[i] = b.b[i]
				}
			}
			return out.norm()
		}
		if isA && isB {
			return bConst(ka+kb, w, s)
		}
	case token.SUB:
		if isA && isB {
			return bConst(ka-kb, w, s)
		}
	case token.MUL:
		if isA && isB {
			return bConst(ka*kb, w, s)
		}
		if isA {
			a, kb, isB = b, ka, true
		}
		for k := 0; isB && k < 63; k++ {
			if kb == 1<<uint(k) {
				for i := range out.b {
					if i >= k {
						out.b[i] = a.b[i-k]
					}
				}
				return out.norm()
			}
		}
	case token.QUO, token.REM:
		for k := 0; isB && !a.s && k < 63; k++ {
			if kb == 1<<uint(k) {
				for i := range out.b {
					if x.Op == token.QUO && i+k < 64 {
						out.b[i] = a.b[i+k]
					} else if x.Op == token.REM && i < k {
						out.b[i] = a.b[i]
					}
				}
				return out.norm()
			}
		}
		if isA && isB && kb != 0 && x.Op == token.QUO {
			return bConst(ka/kb, w, s)
		}
	case token.EQL, token.NEQ:
		if isA && isB {
			return truth((ka == kb) == (x.Op == token.EQL))
		}
		if isA {
			a, b, kb, isB = b, a, ka, true
		}
		if isB {
			// a known bit that differs
			n := -1
			for i := range a.b {
				if a.b[i].src == "" && a.b[i].n != b.b[i].n {
					return truth(x.Op == token.NEQ)
				}
				if a.b[i].src != "" {
					if n >= 0 {
						n = 64
					} else {
						n = i
					}
				}
			}
			if n >= 0 && n < 64 {
				// one unknown bit: the outcome is that bit, or its opposite
				out.w = 1
				if (b.b[n].n == 1) == (x.Op == token.EQL) {
					out.b[0] = a.b[n]
				} else {
					out.b[0] = bit{"!" + a.b[n].src, a.b[n].n}
				}
				return out
			}
			if name, ok := a.whole(); ok {
				if _, ex := st.fact[fmt.Sprintf("%s!%d", name, kb)]; ex {
					return truth(x.Op == token.NEQ)
				}
				k := fmt.Sprintf("%s==%d", name, kb)
				if x.Op == token.NEQ {
					k = "!" + k
				}
				out.w = 1
				out.b[0] = bit{k, 0}
				return out
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isA && isB && (a.s || ka >= 0 && kb >= 0) {
			switch x.Op {
			case token.LSS:
				return truth(ka < kb)
			case token.LEQ:
				return truth(ka <= kb)
			case token.GTR:
				return truth(ka > kb)
			}
			return truth(ka >= kb)
		}
	}
	return bTop{x.Op.String()}
}

// call follows a function.
func (r *bRun) call(st *bState, f *ssa.Function, args, free []bVal) []bOut {
	if r.depth > 12 || len(f.Blocks) == 0 {
		r.fail(nil, "cannot follow %s", f)
		return nil
	}
	r.depth++
	defer func() { r.depth-- }()
	saved := st.env
	st.env = map[ssa.Value]bVal{}
	for i, p := range f.Params {
		st.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			st.env[p] = free[i]
		}
	}
	var outs []bOut
	r.block(st, f.Blocks[0], nil, &outs)
	for i := range outs {
		outs[i].st.env = map[ssa.Value]bVal{}
		for k, v := range saved {
			outs[i].st.env[k] = v
		}
	}
	return outs
}

func (r *bRun) block(st *bState, b, from *ssa.BasicBlock, outs *[]bOut) {
	if r.why != "" {
		return
	}
	if r.steps++; r.steps > 60000 {
		r.fail(nil, "too many steps")
		return
	}
	var phis []bVal
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == from {
				phis = append(phis, r.val(st, p.Edges[i]))
				break
			}
		}
	}
	for i, v := range phis {
		st.env[b.Instrs[i].(*ssa.Phi)] = v
	}
	r.instrs(st, b, len(phis), outs)
}

func (r *bRun) instrs(st *bState, b *ssa.BasicBlock, i int, outs *[]bOut) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			st.env[x] = bPtr{&bObj{name: x.Comment, t: x.Type().Underlying().(*types.Pointer).Elem()}, ""}
		case *ssa.FieldAddr:
			p, ok := r.val(st, x.X).(bPtr)
			if !ok {
				st.env[x] = bTop{"address"}
				continue
			}
			st.env[x] = bPtr{p.o, p.path + "." + fieldOfAddr(x).Name()}
		case *ssa.IndexAddr:
			p, ok := r.val(st, x.X).(bPtr)
			n, ok2 := r.val(st, x.Index).(bNum)
			k, ok3 := n.known()
			if !ok || !ok2 || !ok3 {
				st.env[x] = bTop{"element"}
				continue
			}
			st.env[x] = bPtr{p.o, fmt.Sprintf("%s[%d]", p.path, k)}
		case *ssa.Field:
			a, ok := r.val(st, x.X).(bAgg)
			if !ok {
				st.env[x] = bTop{"field"}
				continue
			}
			st.env[x] = a.part("."+x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name(), x.Type())
		case *ssa.Index:
			a, ok := r.val(st, x.X).(bAgg)
			n, ok2 := r.val(st, x.Index).(bNum)
			k, ok3 := n.known()
			if !ok || !ok2 || !ok3 {
				st.env[x] = bTop{"element"}
				continue
			}
			st.env[x] = a.part(fmt.Sprintf("[%d]", k), x.Type())
		case *ssa.Store:
			p, ok := r.val(st, x.Addr).(bPtr)
			if !ok {
				r.fail(in, "a store to an unknown place")
				return
			}
			r.store(st, p, r.val(st, x.Val))
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				if p, ok := r.val(st, x.X).(bPtr); ok {
					st.env[x] = r.load(st, p, x.Type(), in)
				} else {
					st.env[x] = bTop{"load"}
				}
			case token.NOT:
				n, ok := r.val(st, x.X).(bNum)
				if !ok {
					st.env[x] = bTop{"not"}
				} else if k, ok := n.known(); ok {
					st.env[x] = bConst(1-k, 1, false)
				} else {
					s := n.b[0].src
					if strings.HasPrefix(s, "!") {
						s = s[1:]
					} else {
						s = "!" + s
					}
					n.b[0].src = s
					st.env[x] = n
				}
			default:
				st.env[x] = bTop{x.Op.String()}
			}
		case *ssa.MakeClosure:
			fn := bFn{f: x.Fn.(*ssa.Function)}
			for _, y := range x.Bindings {
				fn.free = append(fn.free, r.val(st, y))
			}
			st.env[x] = fn
		case *ssa.BinOp:
			st.env[x] = r.binop(st, x)
		case *ssa.Convert:
			w, s, ok := numType(x.Type())
			n, ok2 := r.val(st, x.X).(bNum)
			if ok && ok2 {
				n.w, n.s = w, s
				st.env[x] = n.norm()
			} else {
				st.env[x] = bTop{"conversion"}
			}
		case *ssa.ChangeType:
			st.env[x] = r.val(st, x.X)
		case *ssa.MakeInterface:
			st.env[x] = r.val(st, x.X)
		case *ssa.Extract:
			t, ok := r.val(st, x.Tuple).(bTup)
			if ok && x.Index < len(t.v) {
				st.env[x] = t.v[x.Index]
			} else {
				st.env[x] = bTop{"result"}
			}
		case *ssa.Call:
			cc := x.Common()
			f := cc.StaticCallee()
			var free []bVal
			if fn, ok := r.val(st, cc.Value).(bFn); ok && !cc.IsInvoke() {
				f, free = fn.f, fn.free
			}
			if f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
				st.env[x] = bErr{}
				continue
			}
			var args []bVal
			for _, a := range cc.Args {
				args = append(args, r.val(st, a))
			}
			if f != nil && r.fill != nil && r.fill(r, st, f, args) {
				st.env[x] = bNil{}
				continue
			}
			if f != nil && r.c.P.inModule(f) {
				res := r.call(st, f, args, free)
				for k, o := range res {
					s := o.st
					if k < len(res)-1 {
						s = o.st.clone()
					}
					if len(o.ret) == 1 {
						s.env[x] = o.ret[0]
					} else {
						s.env[x] = bTup{o.ret}
					}
					r.instrs(s, b, i+1, outs)
				}
				return
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if at, ok := derefArray(cc.Args[0].Type()); ok {
					st.env[x] = bConst(at.Len(), 64, true)
					continue
				}
			}
			for _, a := range args {
				if p, ok := a.(bPtr); ok && !isNamed(p.o.t, "time", "Time") {
					if _, isS := p.o.t.Underlying().(*types.Struct); isS && headerless(p.o.t) {
						r.fail(in, "the block is given to code that is not followed")
						return
					}
				}
			}
			st.env[x] = bTop{"call"}
			if w, _, ok := numType(x.Type()); ok && w == 1 {
				// both outcomes
				st.env[x] = bNum{b: [64]bit{{x.Name() + "@" + b.Parent().Name(), 0}}, w: 1}
			} else if ok {
				st.env[x] = bInput(x.Name()+"@"+b.Parent().Name(), x.Type())
			}
		case *ssa.Return:
			o := bOut{st: st}
			for _, v := range x.Results {
				o.ret = append(o.ret, r.val(st, v))
			}
			*outs = append(*outs, o)
			return
		case *ssa.Jump:
			r.block(st, b.Succs[0], b, outs)
			return
		case *ssa.If:
			r.branch(st, x, b, outs)
			return
		case *ssa.Panic:
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				st.env[v] = bTop{"unknown"}
			}
		}
	}
}

func derefArray(t types.Type) (*types.Array, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

func (a bAgg) part(q string, t types.Type) bVal {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		if isNamed(t, "time", "Time") {
			break
		}
		r := bAgg{map[string]bVal{}, t}
		for k, v := range a.m {
			if strings.HasPrefix(k, q) && (k[len(q)] == '.' || k[len(q)] == '[') {
				r.m[k[len(q):]] = v
			}
		}
		return r
	}
	if v, ok := a.m[q]; ok {
		return v
	}
	return bTop{"part"}
}

// branch follows both sides of a test that is not decided, with what it tells about the inputs.
func (r *bRun) branch(st *bState, x *ssa.If, b *ssa.BasicBlock, outs *[]bOut) {
	n, ok := r.val(st, x.Cond).(bNum)
	if !ok {
		r.block(st.clone(), b.Succs[0], b, outs)
		r.block(st, b.Succs[1], b, outs)
		return
	}
	if k, ok := n.known(); ok {
		r.block(st, b.Succs[1-int(k)], b, outs)
		return
	}
	name, at := n.b[0].src, n.b[0].n
	neg := strings.HasPrefix(name, "!")
	name = strings.TrimPrefix(name, "!")
	for side := 0; side < 2; side++ {
		s := st
		if side == 0 {
			s = st.clone()
		}
		truth := (side == 0) != neg
		if i := strings.LastIndex(name, "=="); i >= 0 {
			var k int64
			fmt.Sscan(name[i+2:], &k)
			if truth {
				s.fact[name[:i]] = k
			} else {
				s.fact[fmt.Sprintf("%s!%d", name[:i], k)] = 1
			}
		} else {
			key := fmt.Sprintf("%s:%d", name, at)
			k := int64(0)
			if truth {
				k = 1
			}
			s.fact[key] = k
			s.fact[name] = k
			if at != 0 {
				delete(s.fact, name)
			} else if strings.Contains(name, "fixed.") {
				delete(s.fact, name)
			}
			s.subst(bit{name, at}, int(k))
		}
		r.block(s, b.Succs[side], b, outs)
	}
}

// subst replaces an input bit by its value everywhere.
func (s *bState) subst(x bit, k int) {
	one := func(v bVal) bVal {
		n, ok := v.(bNum)
		if !ok {
			return v
		}
		for i := range n.b {
			if n.b[i] == x {
				n.b[i] = bit{"", k}
			} else if n.b[i] == (bit{"!" + x.src, x.n}) {
				n.b[i] = bit{"", 1 - k}
			}
		}
		return n
	}
	for _, m := range s.mem {
		for q, v := range m {
			m[q] = one(v)
		}
	}
	for k, v := range s.env {
		s.env[k] = one(v)
	}
}

// headerless: the fixed block, a structure of thirteen 32-bit numbers.
func headerless(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 13 {
		return false
	}
	for i := 0; i < 13; i++ {
		if w, sg, ok := numType(s.Field(i).Type()); !ok || w != 32 || sg {
			return false
		}
	}
	return true
}

var flagBits = map[string]int{"Debug": 0, "Prerelease": 1, "Patched": 2, "PrivateBuild": 3, "SpecialBuild": 5}

func init() {
	register("C32", "The encoder and the decoder of the fixed version block are followed along each of their paths with numbers kept as rows of bits, each bit known or traced to a bit of an input. Encoder: signature, structure version, flag mask; each half of the four version words is the documented part; each flag bit is the flag; the file type is the documented number. Decoder: each part is the documented half of its word, each flag is its bit, the type follows the number, and a block with another signature is refused.",
		func(c *Ctx) {
			info := c.P.namedType(c.P.Ver, "Info")
			if info == nil {
				c.ob("anchor", "version.Info", false, "", "type not found")
				return
			}
			typ := map[string]int64{}
			for _, n := range []string{"App", "DLL", "Unknown"} {
				k, ok := c.P.Ver.Pkg.Scope().Lookup(n).(*types.Const)
				if !ok {
					c.ob("anchor", "version."+n, false, "", "constant not found")
					return
				}
				v, _ := constant.Int64Val(k.Val())
				typ[n] = v
			}
			word := []string{"FileVersion", "FileVersion", "ProductVersion", "ProductVersion"}
			c.task("encoder", func() {
				n := 0
				for _, f := range c.P.allFuncs() {
					if !c.P.inModule(f) || f.Signature.Results().Len() != 1 || f.Parent() != nil {
						continue
					}
					rt := f.Signature.Results().At(0).Type()
					isPtr := false
					if p, ok := rt.Underlying().(*types.Pointer); ok {
						rt, isPtr = p.Elem(), true
					}
					if !headerless(rt) {
						continue
					}
					n++
					c.encoder(f, rt, isPtr, info, typ, word)
				}
				c.floor("encoders", n, 1)
			})
			c.task("decoder", func() {
				n := 0
				for _, f := range c.P.allFuncs() {
					if !c.P.inModule(f) {
						continue
					}
					reads := false
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if a, ok := in.(*ssa.Alloc); ok && headerless(a.Type().Underlying().(*types.Pointer).Elem()) {
								for _, u := range *a.Referrers() {
									mi, ok := u.(*ssa.MakeInterface)
									if !ok {
										continue
									}
									for _, w := range *mi.Referrers() {
										if cl, ok := w.(ssa.CallInstruction); ok && readsBinary(cl.Common().StaticCallee(), map[*ssa.Function]bool{}) {
											reads = true
										}
									}
								}
							}
						}
					}
					takes := false
					for _, p := range f.Params {
						pt, ok := p.Type().Underlying().(*types.Pointer)
						takes = takes || ok && types.Identical(pt.Elem(), info)
					}
					if !reads || !takes {
						continue
					}
					n++
					c.decoder(f, info, typ, word)
				}
				c.floor("decoders", n, 1)
			})
		})
}

func (c *Ctx) infoArgs(f *ssa.Function, info types.Type, st *bState) ([]bVal, *bObj) {
	var vi *bObj
	var args []bVal
	for _, p := range f.Params {
		switch {
		case types.Identical(p.Type(), info):
			vi = &bObj{"vi", info, true}
			a := bAgg{map[string]bVal{}, info}
			leafPaths(info, "", func(q string, ty types.Type) { a.m[q] = bInput("vi"+q, ty) })
			args = append(args, a)
		default:
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), info) {
				vi = &bObj{"vi", info, true}
				args = append(args, bPtr{vi, ""})
				continue
			}
			args = append(args, bTop{p.Name()})
		}
	}
	return args, vi
}

func newBState() *bState {
	return &bState{map[*bObj]map[string]bVal{}, map[ssa.Value]bVal{}, map[string]int64{}, nil}
}

func (c *Ctx) encoder(f *ssa.Function, rt types.Type, isPtr bool, info types.Type, typ map[string]int64, word []string) {
	r := &bRun{c: c}
	st := newBState()
	args, vi := c.infoArgs(f, info, st)
	where := c.P.posBlock(f.Blocks[0])
	if vi == nil {
		c.ob("encoder", shortFn(f), false, where, "the block is not made from a version structure")
		return
	}
	outs := r.call(st, f, args, nil)
	c.ob("followed", "encoder", r.why == "" && len(outs) > 0, where, r.why)
	c.count("paths of the encoder", len(outs))
	s := rt.Underlying().(*types.Struct)
	seenType := map[int64]bool{}
	for _, o := range outs {
		var v bVal = bTop{"result"}
		if len(o.ret) == 1 {
			v = o.ret[0]
			if p, ok := v.(bPtr); ok && isPtr {
				v = r.load(o.st, p, rt, nil)
			}
		}
		a, ok := v.(bAgg)
		if !ok {
			c.ob("encoded", "block", false, where, "the block cannot be followed")
			continue
		}
		num := func(i int) bNum {
			n, ok := a.m["."+s.Field(i).Name()].(bNum)
			if !ok {
				return bNum{b: [64]bit{{"?", 0}}, w: 32}
			}
			return n
		}
		for i, want := range map[int]int64{0: 0xFEEF04BD, 1: 0x10000, 6: 0x3F, 8: 0x40004} {
			k, ok := num(i).known()
			c.ob("encoded", s.Field(i).Name(), ok && k == want, where, fmt.Sprintf("%s is %s", s.Field(i).Name(), num(i)))
		}
		for w, base := range word {
			n := num(2 + w)
			hi, lo := fmt.Sprintf("vi.%s[%d]", base, w%2*2), fmt.Sprintf("vi.%s[%d]", base, w%2*2+1)
			ok := true
			for i := 0; i < 16; i++ {
				ok = ok && n.b[i] == (bit{lo, i}) && n.b[i+16] == (bit{hi, i})
			}
			c.ob("encoded", s.Field(2+w).Name(), ok, where, fmt.Sprintf("%s is %s", s.Field(2+w).Name(), n))
		}
		fl := num(7)
		want := [32]int{}
		named := [32]string{}
		for name, b := range flagBits {
			named[b] = name
		}
		bad := ""
		for i := 0; i < 32; i++ {
			switch {
			case named[i] == "":
				if fl.b[i] != (bit{"", 0}) {
					bad = fmt.Sprint("bit ", i)
				}
			default:
				k, tested := o.st.fact["vi.Flags."+named[i]]
				want[i] = int(k)
				if tested && fl.b[i] != (bit{"", want[i]}) || !tested && fl.b[i] != (bit{"vi.Flags." + named[i], 0}) {
					bad = named[i]
				}
			}
		}
		c.ob("encoded", s.Field(7).Name(), bad == "", where, "a flag is not in its bit: "+bad)
		k, known := num(9).known()
		t, tested := o.st.fact["vi.Type"]
		okType := false
		switch {
		case !known:
		case tested:
			seenType[t] = true
			okType = k == map[int64]int64{typ["App"]: 1, typ["DLL"]: 2, typ["Unknown"]: 0}[t]
		default:
			_, notApp := o.st.fact[fmt.Sprintf("vi.Type!%d", typ["App"])]
			_, notDLL := o.st.fact[fmt.Sprintf("vi.Type!%d", typ["DLL"])]
			_, notUnk := o.st.fact[fmt.Sprintf("vi.Type!%d", typ["Unknown"])]
			okType = notApp && notDLL && (k == 0 || notUnk)
		}
		c.ob("encoded", s.Field(9).Name(), okType, where, fmt.Sprintf("the file type is written as %s", num(9)))
	}
}

func (c *Ctx) decoder(f *ssa.Function, info types.Type, typ map[string]int64, word []string) {
	where := c.P.posBlock(f.Blocks[0])
	r := &bRun{c: c}
	st := newBState()
	var fixed *bObj
	r.fill = func(r *bRun, st *bState, callee *ssa.Function, args []bVal) bool {
		for _, a := range args {
			p, ok := a.(bPtr)
			if !ok || p.path != "" || !headerless(p.o.t) || p.o.in || callee.Signature.Recv() != nil {
				continue
			}
			if !readsBinary(callee, map[*ssa.Function]bool{}) {
				continue
			}
			s := p.o.t.Underlying().(*types.Struct)
			fixed = p.o
			for i := 0; i < s.NumFields(); i++ {
				r.store(st, bPtr{p.o, "." + s.Field(i).Name()}, bInput("fixed."+s.Field(i).Name(), s.Field(i).Type()))
			}
			return true
		}
		return false
	}
	args, vi := c.infoArgs(f, info, st)
	outs := r.call(st, f, args, nil)
	c.ob("followed", "decoder", r.why == "" && len(outs) > 0 && fixed != nil && vi != nil, where, r.why)
	if r.why != "" || fixed == nil || vi == nil {
		return
	}
	c.count("paths of the decoder", len(outs))
	s := fixed.t.Underlying().(*types.Struct)
	nm := func(i int) string { return "fixed." + s.Field(i).Name() }
	good := 0
	for _, o := range outs {
		_, isNil := lastB(o.ret).(bNil)
		sig, ok := o.st.fact[nm(0)]
		if len(o.ret) > 0 && !isNil {
			_, other := o.st.fact[fmt.Sprintf("%s!%d", nm(0), int64(0xFEEF04BD))]
			c.ob("refused", "signature", other, where, "a block with the right signature may be refused")
			continue
		}
		c.ob("accepted", "signature", ok && sig == 0xFEEF04BD, where, "a block with another signature may be accepted")
		good++
		get := func(q string, t types.Type) bNum {
			n, _ := r.load(o.st, bPtr{vi, q}, t, nil).(bNum)
			return n
		}
		u16 := types.Typ[types.Uint16]
		for w, base := range word {
			for h := 0; h < 2; h++ {
				q := fmt.Sprintf(".%s[%d]", base, w%2*2+h)
				n := get(q, u16)
				ok := n.w == 16
				for i := 0; i < 16; i++ {
					ok = ok && n.b[i] == (bit{nm(2 + w), i + 16*(1-h)})
				}
				c.ob("decoded", q[1:], ok, where, fmt.Sprintf("%s is %s", q[1:], n))
			}
		}
		var names []string
		for n := range flagBits {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, name := range names {
			n := get(".Flags."+name, types.Typ[types.Bool])
			want := bit{nm(7), flagBits[name]}
			k, tested := o.st.fact[fmt.Sprintf("%s:%d", want.src, want.n)]
			ok := n.w == 1 && (n.b[0] == want || tested && n.b[0] == bit{"", int(k)})
			c.ob("decoded", name, ok, where, fmt.Sprintf("%s is %s", name, n))
		}
		k, known := get(".Type", types.Typ[types.Int]).known()
		t, tested := o.st.fact[nm(9)]
		switch {
		case tested && t == 1:
			c.ob("decoded", "App", known && k == typ["App"], where, "file type 1 is not an application")
		case tested && t == 2:
			c.ob("decoded", "DLL", known && k == typ["DLL"], where, "file type 2 is not a library")
		default:
			_, n1 := o.st.fact[nm(9)+"!1"]
			_, n2 := o.st.fact[nm(9)+"!2"]
			c.ob("decoded", "Unknown", known && k == typ["Unknown"] && (tested || n1 && n2), where, "another file type is not unknown")
		}
	}
	c.floor("successful paths of the decoder", good, 1)
}

// readsBinary: encoding/binary reads a value for this function.
func readsBinary(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/binary" {
		return f.Name() == "Read" || f.Name() == "Decode"
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if g := cl.Common().StaticCallee(); g != nil && (g.Pkg == f.Pkg || g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary") && readsBinary(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func lastB(v []bVal) bVal {
	if len(v) == 0 {
		return bNil{}
	}
	return v[len(v)-1]
}
