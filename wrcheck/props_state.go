package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: what the library may write to. Every instruction that writes storage is traced back to where that storage comes from.

func sliceElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	el := sliceElem(t)
	if el == nil {
		return false
	}
	b, ok := el.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// storageTracer finds the possible allocations behind a reference (slice, map or pointer).
type storageTracer struct {
	c       *Ctx
	seen    map[string]bool
	reach   map[*types.TypeName]bool // named struct types that values of the exported types consist of
	callers map[*ssa.Function][]ssa.CallInstruction
	only    map[*ssa.Function]bool
	scope   map[*ssa.Function]bool // when set: consider calls from these functions only
	roots   map[*ssa.Function]bool
}

// origin is one allocation class: fresh (made by the library in this call), caller (given by the caller), held (read from a value that
// the caller or a set keeps), global, unknown.
type origin struct {
	kind, what string
}

func (c *Ctx) newTracer() *storageTracer {
	t := &storageTracer{c: c, reach: map[*types.TypeName]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, only: map[*ssa.Function]bool{}}
	var visit func(x types.Type)
	visit = func(x types.Type) {
		switch u := x.(type) {
		case *types.Named:
			if u.Obj().Pkg() == nil || !c.P.isModulePkg(u.Obj().Pkg()) || t.reach[u.Obj()] {
				return
			}
			if _, ok := u.Underlying().(*types.Interface); ok {
				return
			}
			t.reach[u.Obj()] = true
			visit(u.Underlying())
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Key())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		}
	}
	for _, pk := range []*types.Package{c.P.Root.Pkg, c.P.Ver.Pkg} {
		for _, n := range pk.Scope().Names() {
			if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok && tn.Exported() {
				visit(tn.Type())
			}
		}
	}
	return t
}

func (t *storageTracer) callersOf(f *ssa.Function) ([]ssa.CallInstruction, bool) {
	if _, ok := t.only[f]; !ok {
		_, t.only[f] = t.c.P.callersOf(f)
		for _, g := range t.c.P.allFuncs() {
			eachInstr(g, func(in ssa.Instruction) {
				if cf, _ := callee(in); cf == f {
					t.callers[f] = append(t.callers[f], in.(ssa.CallInstruction))
				}
			})
		}
	}
	return t.callers[f], t.only[f]
}

func (t *storageTracer) trace(v ssa.Value) []origin {
	t.seen = map[string]bool{}
	out := map[origin]bool{}
	t.walk(v, -1, func(o origin) { out[o] = true })
	var l []origin
	for o := range out {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].kind+l[i].what < l[j].kind+l[j].what })
	return l
}

// allFresh: the reference is to storage made in this call only.
func (t *storageTracer) allFresh(v ssa.Value) bool {
	all := true
	saved := t.seen
	t.seen = map[string]bool{}
	for k := range saved {
		t.seen[k] = true
	}
	t.walk(v, -1, func(o origin) { all = all && o.kind == "fresh" })
	t.seen = saved
	return all
}

func namedStruct(x types.Type) *types.TypeName {
	if p, ok := x.Underlying().(*types.Pointer); ok {
		x = p.Elem()
	}
	if n, ok := x.(*types.Named); ok {
		return n.Obj()
	}
	return nil
}

// passThrough: external functions whose result is (part of) their first argument.
func passThrough(n string) bool {
	for _, p := range []string{"sort.Reverse", "bytes.Trim", "bytes.Cut", "slices.Clip", "slices.Grow", "slices.Insert", "slices.Delete", "slices.Compact"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasPrefix(n, "encoding/binary.Append") || strings.Contains(n, "encoding/binary.") && strings.Contains(n, ").Append") || strings.HasPrefix(n, "strconv.Append") || strings.HasPrefix(n, "unicode/utf8.Append") || strings.HasPrefix(n, "fmt.Append")
}

func (t *storageTracer) walk(v ssa.Value, idx int, do func(origin)) {
	k := fmt.Sprintf("%p/%d", v, idx)
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	switch x := v.(type) {
	case *ssa.Const:
		do(origin{"fresh", "nil"})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc, *ssa.MakeChan:
		do(origin{"fresh", "allocation"})
	case *ssa.Global:
		do(origin{"global", x.Name()})
	case *ssa.Slice:
		t.walk(x.X, -1, do)
	case *ssa.IndexAddr:
		t.walk(x.X, -1, do)
	case *ssa.FieldAddr:
		t.walk(x.X, -1, do)
	case *ssa.ChangeType:
		t.walk(x.X, -1, do)
	case *ssa.ChangeInterface:
		t.walk(x.X, -1, do)
	case *ssa.MakeInterface:
		t.walk(x.X, -1, do)
	case *ssa.TypeAssert:
		t.walk(x.X, -1, do)
	case *ssa.SliceToArrayPointer:
		t.walk(x.X, -1, do)
	case *ssa.Convert:
		if isByteSlice(x.X.Type()) || sliceElem(x.X.Type()) != nil {
			t.walk(x.X, -1, do)
		} else {
			do(origin{"fresh", "conversion"})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.walk(e, -1, do)
		}
	case *ssa.Extract:
		t.walk(x.Tuple, x.Index, do)
	case *ssa.Field:
		t.structField(x.X, x.X.Type(), x.Field, do)
	case *ssa.Index:
		do(origin{"unknown", "array element"})
	case *ssa.Lookup:
		t.element(x.X, do)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			t.element(r.X, do)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			do(origin{"unknown", "operator"})
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			t.structField(a.X, a.X.Type(), a.Field, do)
		case *ssa.IndexAddr:
			t.element(a.X, do)
		case *ssa.Global:
			do(origin{"global", a.Name()})
		case *ssa.Alloc:
			t.cellStores(a, do)
		case *ssa.FreeVar:
			t.freeVar(a, func(b ssa.Value) {
				if al, ok := b.(*ssa.Alloc); ok {
					t.cellStores(al, do)
				} else {
					do(origin{"unknown", "captured variable"})
				}
			})
		case *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.UnOp:
			// a pointer to the reference: whatever it points to may hold storage kept elsewhere
			n := namedStruct(a.Type())
			if n != nil && t.reach[n] && (t.scope == nil || !t.allFresh(a)) {
				do(origin{"held", n.Name()})
			} else {
				t.walk(a, -1, func(o origin) {
					if o.kind == "fresh" {
						o = origin{"unknown", "pointed-to storage"}
					}
					do(o)
				})
			}
		default:
			do(origin{"unknown", fmt.Sprintf("%T", a)})
		}
	case *ssa.FreeVar:
		t.freeVar(x, func(b ssa.Value) { t.walk(b, -1, do) })
	case *ssa.Parameter:
		f := x.Parent()
		cs, only := t.callersOf(f)
		i := -1
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		if t.scope != nil {
			if t.roots[f] {
				do(origin{"caller", x.Name()})
			}
		} else if exportedFn(f) {
			do(origin{"caller", x.Name()})
		} else if !only || len(cs) == 0 {
			do(origin{"unknown", "parameter " + x.Name()})
		}
		for _, ci := range cs {
			if t.scope != nil && !t.scope[ci.Parent()] {
				continue
			}
			cc := ci.Common()
			if i >= 0 && i < len(cc.Args) {
				t.walk(cc.Args[i], -1, do)
			}
		}
	case *ssa.Call:
		t.callResult(x, idx, do)
	default:
		do(origin{"unknown", fmt.Sprintf("%T", x)})
	}
}

func exportedFn(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() {
		return false
	}
	r := f.Signature.Recv()
	if r == nil {
		return true
	}
	n := namedStruct(r.Type())
	return n == nil || n.Exported()
}

func (t *storageTracer) callResult(x *ssa.Call, idx int, do func(origin)) {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			t.appendBase(x.Call.Args[0], do)
			return
		}
		do(origin{"unknown", b.Name()})
		return
	}
	f := x.Call.StaticCallee()
	if f == nil {
		do(origin{"unknown", "dynamic call"})
		return
	}
	if len(f.Blocks) > 0 && f.Pkg != nil && t.c.P.isModulePkg(f.Pkg.Pkg) {
		if idx < 0 {
			idx = 0
		}
		eachInstr(f, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Return); ok && idx < len(r.Results) {
				t.walk(r.Results[idx], -1, do)
			}
		})
		return
	}
	n := f.String()
	switch {
	case n == "(*bytes.Buffer).Bytes" || n == "bytes.NewBuffer" || n == "(*bytes.Buffer).Next" || n == "(*bytes.Buffer).AvailableBuffer" || passThrough(n):
		if n == "bytes.NewBuffer" || passThrough(n) {
			t.walk(x.Call.Args[0], -1, do)
			return
		}
		// the storage of the buffer
		t.walk(x.Call.Args[0], -1, do)
	default:
		do(origin{"fresh", n})
	}
}

// appendBase: appending may write into the spare room behind its first argument.
func (t *storageTracer) appendBase(v ssa.Value, do func(origin)) {
	if s, ok := v.(*ssa.Slice); ok && s.Max != nil && s.High != nil && (s.Max == s.High || canon(s.Max) == canon(s.High)) {
		do(origin{"fresh", "copy"})
		return
	}
	t.walk(v, -1, do)
}

func (t *storageTracer) freeVar(x *ssa.FreeVar, do func(b ssa.Value)) {
	f := x.Parent()
	for i, fv := range f.FreeVars {
		if fv != x {
			continue
		}
		for _, g := range t.c.P.allFuncs() {
			eachInstr(g, func(in ssa.Instruction) {
				if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == f {
					do(mc.Bindings[i])
				}
			})
		}
	}
}

// cellStores: what a local variable may hold.
func (t *storageTracer) cellStores(a *ssa.Alloc, do func(origin)) {
	any := false
	var refs func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	refs = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch y := in.(type) {
			case *ssa.Store:
				if y.Addr == v {
					any = true
					t.walk(y.Val, -1, do)
				}
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b == v {
						refs(y.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case ssa.CallInstruction:
				any = true
				do(origin{"fresh", "filled by a call"})
			}
		}
	}
	refs(a)
	if !any {
		do(origin{"fresh", "nil"})
	}
}

// structField: what a field may hold. Fields of the types that make up the exported types are held by somebody else, unless the struct
// is a local variable; fields of other types hold what the module stores there.
func (t *storageTracer) structField(base ssa.Value, bt types.Type, field int, do func(origin)) {
	if a, ok := base.(*ssa.Alloc); ok && t.localStruct(a, field, do) {
		return
	}
	n := namedStruct(bt)
	st := bt
	if p, ok := st.Underlying().(*types.Pointer); ok {
		st = p.Elem()
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		do(origin{"unknown", "field"})
		return
	}
	fname := s.Field(field).Name()
	if n != nil && t.reach[n] {
		if t.scope != nil && t.allFresh(base) {
			do(origin{"fresh", "new " + n.Name()})
		} else {
			do(origin{"held", n.Name() + "." + fname})
		}
		return
	}
	if n == nil || !t.c.P.isModulePkg(n.Pkg()) {
		do(origin{"unknown", "field " + fname})
		return
	}
	any := false
	for _, f := range t.c.P.allFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			y, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := y.Addr.(*ssa.FieldAddr)
			if ok && fa.Field == field && namedStruct(fa.X.Type()) == n {
				any = true
				t.walk(y.Val, -1, do)
			}
		})
	}
	if !any {
		do(origin{"fresh", "nil"})
	}
}

// localStruct follows the stores to a field of a struct variable whose address stays in the function. It returns false when the
// variable receives whole structs or its address goes elsewhere.
func (t *storageTracer) localStruct(a *ssa.Alloc, field int, do func(origin)) bool {
	var vals []ssa.Value
	for _, in := range *a.Referrers() {
		switch y := in.(type) {
		case *ssa.FieldAddr:
			if y.Field != field {
				continue
			}
			for _, in2 := range *y.Referrers() {
				switch z := in2.(type) {
				case *ssa.Store:
					if z.Addr == y {
						vals = append(vals, z.Val)
					} else {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr, *ssa.IndexAddr:
				default:
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	for _, v := range vals {
		t.walk(v, -1, do)
	}
	if len(vals) == 0 {
		do(origin{"fresh", "nil"})
	}
	return true
}

// element: references held in a map or slice are those put in there.
func (t *storageTracer) element(cont ssa.Value, do func(origin)) {
	var ct types.Type = cont.Type()
	if p, ok := ct.Underlying().(*types.Pointer); ok {
		ct = p.Elem()
	}
	t.walk(cont, -1, func(o origin) {
		if o.kind != "fresh" {
			do(o)
		}
	})
	for _, f := range t.c.P.allFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				if types.Identical(y.Map.Type().Underlying(), ct.Underlying()) {
					t.walk(y.Value, -1, do)
				}
			case *ssa.Store:
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
					it := ia.X.Type()
					if p, ok := it.Underlying().(*types.Pointer); ok {
						it = p.Elem()
					}
					if sameElem(it, ct) {
						t.walk(y.Val, -1, do)
					}
				}
			}
		})
	}
}

func sameElem(a, b types.Type) bool {
	el := func(t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
		return nil
	}
	x, y := el(a), el(b)
	return x != nil && y != nil && types.Identical(x, y)
}

// writtenArgs gives the arguments of a call to the outside whose storage the callee writes.
func writtenArgs(cc *ssa.CallCommon, name string) []ssa.Value {
	arg := func(i int) []ssa.Value {
		if i < len(cc.Args) {
			return []ssa.Value{cc.Args[i]}
		}
		return nil
	}
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Read", "ReadAt":
			return arg(0)
		case "PutUint16", "PutUint32", "PutUint64":
			return arg(0)
		case "Set", "SetRGBA64":
			return []ssa.Value{cc.Value}
		}
		return nil
	}
	switch name {
	case "io.ReadFull", "io.ReadAtLeast":
		return arg(1)
	case "encoding/binary.Read":
		return arg(2)
	case "encoding/binary.Encode", "encoding/hex.Encode", "encoding/hex.Decode", "unicode/utf8.EncodeRune", "math/rand.Read", "crypto/rand.Read":
		return arg(0)
	case "encoding/binary.Decode":
		return arg(2)
	case "image/draw.Draw", "image/draw.DrawMask":
		return arg(0)
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "math/rand.Shuffle":
		return arg(0)
	case "maps.Copy", "maps.DeleteFunc":
		return arg(0)
	}
	if i := strings.Index(name, "["); i > 0 {
		return writtenArgs(cc, name[:i])
	}
	for _, m := range []string{").PutUint16", ").PutUint32", ").PutUint64"} {
		if strings.HasSuffix(name, m) {
			return arg(1)
		}
	}
	for _, m := range []string{").Read", ").ReadAt"} {
		if strings.HasSuffix(name, m) && len(cc.Args) > 1 {
			return arg(1)
		}
	}
	for _, m := range []string{"(*bytes.Buffer).Write", "(*bytes.Buffer).ReadFrom"} {
		if strings.HasPrefix(name, m) && !strings.HasSuffix(name, "WriteTo") {
			return arg(0)
		}
	}
	if strings.HasPrefix(name, "(*image.") && strings.Contains(name, ").Set") {
		return arg(0)
	}
	return nil
}

// write is one place where storage is written.
type write struct {
	in   ssa.Instruction
	base ssa.Value
	elem types.Type // what is written
	how  string
}

func (c *Ctx) writesOf(f *ssa.Function) []write {
	var out []write
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			out = append(out, write{in, x.Addr, x.Val.Type(), "assignment"})
		case *ssa.MapUpdate:
			out = append(out, write{in, x.Map, x.Map.Type(), "map assignment"})
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy", "clear", "delete":
					out = append(out, write{in, cc.Args[0], cc.Args[0].Type(), b.Name()})
				case "append":
					out = append(out, write{in, cc.Args[0], cc.Args[0].Type(), "append"})
				}
				return
			}
			callee := cc.StaticCallee()
			if callee != nil && callee.Pkg != nil && c.P.isModulePkg(callee.Pkg.Pkg) {
				return
			}
			n := ""
			if callee != nil {
				n = callee.String()
			}
			for _, a := range writtenArgs(cc, n) {
				out = append(out, write{in, a, a.Type(), "call"})
			}
			// a buffer handed out as a writer is written to
			for _, a := range cc.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok && isPtrTo(mi.X.Type(), "bytes.Buffer") {
					out = append(out, write{in, mi.X, mi.X.Type(), "writer"})
				}
			}
		}
	})
	return out
}

// bytesBehind: the written location is an element of a byte slice (or the storage of a buffer).
func bytesBehind(w write) bool {
	switch w.how {
	case "assignment":
		ia, ok := w.base.(*ssa.IndexAddr)
		if !ok {
			if p, ok := w.base.Type().Underlying().(*types.Pointer); ok {
				if b, ok := p.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					_, isAlloc := w.base.(*ssa.Alloc)
					_, isField := w.base.(*ssa.FieldAddr)
					return !isAlloc && !isField
				}
			}
			return false
		}
		return isByteSlice(ia.X.Type())
	case "copy", "clear", "append":
		return isByteSlice(w.elem)
	case "call", "writer":
		v := w.base
		for {
			mi, ok := v.(*ssa.MakeInterface)
			if !ok {
				break
			}
			v = mi.X
		}
		if isByteSlice(v.Type()) || isPtrTo(v.Type(), "bytes.Buffer") {
			return true
		}
		_, isIface := v.Type().Underlying().(*types.Interface)
		return isIface
	}
	return false
}

func init() {
	register("C22", "Storage-origin analysis over the SSA form of every function of the module: each instruction that writes memory (assignments, copy, append, delete, library calls that fill or reorder an argument, writes to a buffer) is traced interprocedurally back to the allocations it can reach; an origin in a package-level variable, or for byte storage in an argument of a public function or a byte slice held by a set, icon or cursor, is a violation; exporting functions additionally may not assign maps or byte slices of the values they export.",
		func(c *Ctx) {
			t := c.newTracer()
			c.floor("types that make up the exported types", len(t.reach), 8)
			nb := 0
			for _, f := range c.P.allFuncs() {
				if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil && f.Parent().Name() == "init" {
					continue
				}
				for _, w := range c.writesOf(f) {
					c.count("writes traced", 1)
					by := bytesBehind(w)
					if by {
						nb++
					}
					bad := ""
					var os []origin
					if w.how == "append" {
						t.seen = map[string]bool{}
						t.appendBase(w.base, func(o origin) { os = append(os, o) })
					} else {
						os = t.trace(w.base)
					}
					for _, o := range os {
						switch {
						case o.kind == "global":
							bad = "package-level variable " + o.what
						case by && o.kind == "caller":
							bad = "the caller's " + o.what
						case by && o.kind == "held":
							bad = "bytes held by " + o.what
						}
						if bad != "" {
							break
						}
					}
					c.ob("origin", c.site(nil, w.in), bad == "", c.P.pos(w.in), "this "+w.how+" may modify "+bad)
				}
			}
			c.floor("writes to byte storage", nb, 8)
			c.exportsOnly(t)
			for _, pk := range []*ssa.Package{c.P.Root, c.P.Ver} {
				for _, im := range pk.Pkg.Imports() {
					c.ob("import", pk.Pkg.Name()+"|"+im.Path(), im.Path() != "unsafe" && im.Path() != "C", "", "storage cannot be traced through "+im.Path())
				}
			}
			c.assumption("library functions write only to the arguments they are documented to write to (the table of filling, sorting and drawing functions in props_state.go); in particular io.Writer.Write does not modify its argument")
		})
}

// exportsOnly: functions reachable from an exporting function do not assign maps or byte slices of the values being exported.
func (c *Ctx) exportsOnly(t *storageTracer) {
	var roots []*ssa.Function
	for _, n := range []string{"WriteObject", "WriteToEXE", "Walk", "WalkType", "Get", "Count", "GetIcon", "GetIconTranslation", "GetCursor", "GetCursorTranslation"} {
		roots = append(roots, c.meth("ResourceSet", n))
	}
	roots = append(roots, c.meth("Icon", "SaveICO"), c.meth("Cursor", "SaveCUR"))
	for _, n := range []string{"Bytes", "MarshalJSON", "Table", "SplitTranslations"} {
		roots = append(roots, c.vmeth("Info", n))
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil && f.Parent() == nil {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if cf, _ := callee(in); cf != nil && cf.Pkg != nil && c.P.isModulePkg(cf.Pkg.Pkg) {
				add(cf)
			}
		})
	}
	t.roots = map[*ssa.Function]bool{}
	for _, r := range roots {
		add(r)
		t.roots[r] = true
	}
	t.scope = seen
	n := 0
	for _, f := range c.P.allFuncs() {
		if !seen[f] {
			continue
		}
		n++
		for _, w := range c.writesOf(f) {
			var base ssa.Value
			what := ""
			switch w.how {
			case "map assignment", "delete", "clear":
				base, what = w.base, "map"
			case "assignment":
				fa, ok := w.base.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				tn := namedStruct(fa.X.Type())
				if tn == nil || !t.reach[tn] {
					continue
				}
				_, isMap := w.elem.Underlying().(*types.Map)
				if !isMap && !isByteSlice(w.elem) {
					continue
				}
				base, what = fa.X, tn.Name()+" field"
			default:
				continue
			}
			bad := ""
			for _, o := range t.trace(base) {
				if o.kind == "caller" || o.kind == "held" || o.kind == "global" {
					bad = o.kind + " " + o.what
				}
			}
			c.ob("export", c.site(nil, w.in), bad == "", c.P.pos(w.in), "exporting assigns a "+what+" of "+bad)
		}
	}
	c.floor("functions reachable from exporting ones", n, 40)
}
