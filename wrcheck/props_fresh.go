package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Storage shared between a result and its source (C34).
//
// Every reference is labelled with where its storage comes from: made during the call (own), or reachable from the arguments (src). What is
// loaded from own storage is own, because nothing else may be stored there; what is loaded from src storage is src.

type prov uint8

const (
	provNone prov = iota // no mutable storage
	provOwn
	provSrc
)

type freshRun struct {
	c     *Ctx
	memo  map[string][]prov
	busy  map[string]bool
	sites map[string]bool
	n     int
	esc   map[string]string
}

// isMutable: a value of this type gives access to storage that can be changed.
func isMutable(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "time.Time", "time.Location":
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			return false
		}
		return true
	case *types.Interface:
		return !isErrorType(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isMutable(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isMutable(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if isMutable(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// run labels the values of a function called with these labels, checks what it stores, and gives the label of its results.
func (r *freshRun) run(f *ssa.Function, args, free []prov) prov {
	key := fmt.Sprint(f.String(), args, free)
	if m, ok := r.memo[key]; ok {
		return m[0]
	}
	if r.busy[key] {
		return provOwn // the other returns decide
	}
	r.busy[key] = true
	defer delete(r.busy, key)
	lab := map[ssa.Value]prov{}
	for i, p := range f.Params {
		if i < len(args) {
			lab[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		lab[p] = provSrc
		if i < len(free) {
			lab[p] = free[i]
		}
	}
	get := func(v ssa.Value) prov {
		if _, ok := v.Type().Underlying().(*types.Basic); ok {
			return provNone
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Function:
			return provNone
		case *ssa.Global:
			return provSrc
		}
		return lab[v]
	}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, p prov) {
			if lab[v] < p {
				lab[v] = p
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch x := in.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
					set(v, provOwn)
				case *ssa.MakeClosure:
					p := provOwn
					for _, y := range x.Bindings {
						if get(y) > p {
							p = get(y)
						}
					}
					set(v, p)
				case *ssa.Next:
					set(v, lab[x.Iter])
				case *ssa.Phi:
					for _, y := range x.Edges {
						set(v, get(y))
					}
				case *ssa.Call:
					set(v, r.call(f, x, get))
				default:
					for _, y := range in.Operands(nil) {
						if *y != nil {
							set(v, get(*y))
						}
					}
				}
			}
		}
	}
	res := provNone
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				r.stored(f, in, x.Addr, get(x.Addr), get(x.Val), x.Val)
			case *ssa.MapUpdate:
				k := get(x.Value)
				if get(x.Key) > k {
					k = get(x.Key)
				}
				r.stored(f, in, nil, get(x.Map), k, x.Value)
			case *ssa.Return:
				for _, y := range x.Results {
					if isMutable(y.Type()) && get(y) > res {
						res = get(y)
					}
				}
			}
		}
	}
	r.memo[key] = []prov{res}
	return res
}

// stored checks one store.
func (r *freshRun) stored(f *ssa.Function, in ssa.Instruction, addr ssa.Value, base, val prov, v ssa.Value) {
	r.n++
	site := shortFn(f) + " " + r.c.P.pos(in)
	if base == provSrc {
		r.esc[site] = "the source may be changed"
		return
	}
	if base == provOwn && val == provSrc && isMutable(v.Type()) {
		if a, ok := addr.(*ssa.Alloc); ok && r.replaced(f, in, a, v.Type()) {
			return
		}
		r.esc[site] = "storage of the source may become part of the result"
	}
}

// replaced: all references in a structure copied into a variable are replaced before it is used.
func (r *freshRun) replaced(f *ssa.Function, in ssa.Instruction, a *ssa.Alloc, t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	before := func(x, y ssa.Instruction) bool {
		if x.Block() != y.Block() {
			return x.Block().Dominates(y.Block())
		}
		for _, i := range x.Block().Instrs {
			if i == x {
				return true
			}
			if i == y {
				return false
			}
		}
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !isMutable(s.Field(i).Type()) || !s.Field(i).Exported() && r.neverSet(s.Field(i)) {
			continue
		}
		var by ssa.Instruction
		for _, u := range *a.Referrers() {
			fa, ok := u.(*ssa.FieldAddr)
			if !ok || fa.Field != i {
				continue
			}
			for _, w := range *fa.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == fa && before(in, w) && (by == nil || before(w, by)) {
					by = w
				}
			}
		}
		if by == nil {
			return false
		}
		for _, u := range *a.Referrers() {
			if u == in || before(u, in) {
				continue
			}
			if fa, ok := u.(*ssa.FieldAddr); ok {
				if fa.Field != i {
					continue
				}
				for _, w := range *fa.Referrers() {
					if w != by && !before(by, w) && !before(w, in) {
						return false
					}
				}
				continue
			}
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if !before(by, u) {
				return false
			}
		}
	}
	return true
}

// neverSet: nothing takes the address of an unexported field, or only to read it: it keeps its zero value.
func (r *freshRun) neverSet(v *types.Var) bool {
	for _, f := range r.c.P.allFuncs() {
		if !r.c.P.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldOfAddr(fa) != v {
					continue
				}
				for _, u := range *fa.Referrers() {
					if x, ok := u.(*ssa.UnOp); !ok || x.Op != token.MUL {
						return false
					}
				}
			}
		}
	}
	return true
}

// call is the label of what a call returns.
func (r *freshRun) call(f *ssa.Function, x *ssa.Call, get func(ssa.Value) prov) prov {
	cc := x.Common()
	join := func() prov {
		p := provNone
		for _, a := range cc.Args {
			if get(a) > p {
				p = get(a)
			}
		}
		if cc.IsInvoke() && get(cc.Value) > p {
			p = get(cc.Value)
		}
		return p
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			p := provOwn
			if get(cc.Args[0]) > p {
				p = get(cc.Args[0])
			}
			if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && isMutable(st.Elem()) && len(cc.Args) > 1 && get(cc.Args[1]) == provSrc {
				p = provSrc
			}
			return p
		case "copy":
			if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				if get(cc.Args[0]) == provSrc {
					r.esc[shortFn(f)+" "+r.c.P.pos(x)] = "the source may be changed"
				} else if isMutable(st.Elem()) && get(cc.Args[1]) == provSrc {
					r.esc[shortFn(f)+" "+r.c.P.pos(x)] = "storage of the source may become part of the result"
				}
			}
			return provNone
		case "delete", "clear":
			if get(cc.Args[0]) == provSrc {
				r.esc[shortFn(f)+" "+r.c.P.pos(x)] = "the source may be changed"
			}
		}
		return provNone
	}
	var callee *ssa.Function
	var free []prov
	switch v := cc.Value.(type) {
	case *ssa.Function:
		callee = v
	case *ssa.MakeClosure:
		callee = v.Fn.(*ssa.Function)
		for _, b := range v.Bindings {
			free = append(free, get(b))
		}
	}
	if callee != nil && !cc.IsInvoke() && r.c.P.inModule(callee) && len(callee.Blocks) > 0 {
		var args []prov
		for _, a := range cc.Args {
			args = append(args, get(a))
		}
		return r.run(callee, args, free)
	}
	// code of other packages: what it returns may be part of what it was given
	if callee != nil && callee.Pkg != nil {
		switch callee.Pkg.Pkg.Path() {
		case "maps":
			if callee.Name() == "Clone" || len(callee.Origin().String()) > 0 && callee.Origin() != nil && callee.Origin().Name() == "Clone" {
				if m, ok := x.Type().Underlying().(*types.Map); ok && !isMutable(m.Elem()) {
					return provOwn
				}
			}
		case "fmt", "errors", "strings", "strconv", "unicode/utf16":
			return provOwn
		case "sort":
			return provNone
		}
	}
	if isMutable(x.Type()) {
		if p := join(); p == provSrc {
			return provSrc
		}
		return provOwn
	}
	return provNone
}

func init() {
	register("C34", "Label of the storage behind every reference in the functions that give out version tables and structures, and those they call: made during the call, or reachable from the arguments. Nothing reachable from the arguments is stored in what was made during the call or returned, and nothing is stored in the arguments. A structure may be copied whole when each reference in it is replaced before it is used.",
		func(c *Ctx) {
			type ep struct{ typ, name string }
			for _, x := range []ep{{"Info", "Table"}, {"Info", "SplitTranslations"}, {"", "MergeTranslations"}} {
				x := x
				c.task(x.name, func() {
					var f *ssa.Function
					if x.typ != "" {
						f = c.vmeth(x.typ, x.name)
					} else {
						f = c.vfn(x.name)
					}
					if f == nil {
						return
					}
					r := &freshRun{c: c, memo: map[string][]prov{}, busy: map[string]bool{}, esc: map[string]string{}}
					args := make([]prov, len(f.Params))
					for i := range args {
						args[i] = provSrc
					}
					p := r.run(f, args, nil)
					for _, k := range sortedKeys(r.esc) {
						c.ob("stores", x.name+": "+k, false, k, r.esc[k])
					}
					c.floor("stores of "+x.name, r.n, 2)
					c.ob("stores", x.name, len(r.esc) == 0, "", fmt.Sprintf("%d of %d stores keep storage of the source", len(r.esc), r.n))
					c.ob("result", x.name, p == provOwn, c.P.posBlock(f.Blocks[0]), "what is returned may be storage of the source")
					c.count("functions analysed", len(r.memo))
				})
			}
		})
}
