package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Keys gathered from a map: a lookup whose key is an element of a slice that holds nothing but keys of the same map finds an entry.

// mapID names a map by the way it is reached from the parameters of its function; "" when it is not.
func mapID(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if b := mapID(x.X); b != "" {
				return "*(" + b + ")"
			}
		}
	case *ssa.FieldAddr:
		if b := mapID(x.X); b != "" {
			return fmt.Sprintf("%s.%d", b, x.Field)
		}
	case *ssa.ChangeType:
		return mapID(x.X)
	case *ssa.Alloc:
		// a parameter kept in memory
		var st *ssa.Store
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if st != nil {
					return ""
				}
				st = s
			}
		}
		if st != nil {
			if b := mapID(st.Val); b != "" {
				return "&(" + b + ")"
			}
		}
	}
	return ""
}

// normID cancels *(&(x)).
func normID(s string) string {
	for {
		t := s
		for i := 0; i+4 < len(s); i++ {
			if s[i:i+4] == "*(&(" {
				d := 0
				for k := i + 3; k < len(s); k++ {
					if s[k] == '(' {
						d++
					}
					if s[k] == ')' {
						d--
						if d == 0 && k+1 < len(s) && s[k+1] == ')' {
							t = s[:i] + s[i+4:k] + s[k+2:]
							break
						}
					}
				}
				break
			}
		}
		if t == s {
			return s
		}
		s = t
	}
}

type keySets struct {
	seen map[ssa.Value]bool
}

const anyMap = "any" // an empty slice: its elements are keys of any map

func meetID(a, b string) string {
	switch {
	case a == anyMap:
		return b
	case b == anyMap || a == b:
		return a
	}
	return ""
}

// elem gives the map of which a value is a key.
func (ks *keySets) elem(v ssa.Value, kt types.Type) string {
	switch x := v.(type) {
	case *ssa.Convert:
		// on the way no bit of the key may be lost
		sz := types.SizesFor("gc", "amd64")
		a, ok1 := x.Type().Underlying().(*types.Basic)
		b, ok2 := kt.Underlying().(*types.Basic)
		if !ok1 || !ok2 || a.Info()&types.IsInteger == 0 || b.Info()&types.IsInteger == 0 || sz.Sizeof(a) < sz.Sizeof(b) {
			return ""
		}
		return ks.elem(x.X, kt)
	case *ssa.ChangeType:
		return ks.elem(x.X, kt)
	case *ssa.Phi:
		if ks.seen[x] {
			return anyMap
		}
		ks.seen[x] = true
		id := anyMap
		for _, e := range x.Edges {
			id = meetID(id, ks.elem(e, kt))
		}
		return id
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && !n.IsString && x.Index == 1 {
			if rg, ok := n.Iter.(*ssa.Range); ok && types.Identical(rg.X.Type().Underlying().(*types.Map).Key().Underlying(), kt.Underlying()) {
				return normID(mapID(rg.X))
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
				return ks.slice(a.X, kt)
			}
		case *ssa.Alloc:
			// a variable: every value stored in it
			id := anyMap
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr != a {
						return ""
					}
					id = meetID(id, ks.elem(y.Val, kt))
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return ""
				}
			}
			return id
		}
	}
	return ""
}

// slice gives the map of which all elements of a slice are keys.
func (ks *keySets) slice(v ssa.Value, kt types.Type) string {
	if ks.seen[v] {
		return anyMap
	}
	ks.seen[v] = true
	id := ""
	switch x := v.(type) {
	case *ssa.Const:
		id = anyMap
	case *ssa.Phi:
		id = anyMap
		for _, e := range x.Edges {
			id = meetID(id, ks.slice(e, kt))
		}
	case *ssa.MakeSlice:
		if c, ok := x.Len.(*ssa.Const); ok && c.Int64() == 0 {
			id = anyMap
		} else {
			id = ks.filled(x, kt)
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok { // the array of a variadic call, or made by make with constant sizes
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				return ""
			}
			if c, ok := x.High.(*ssa.Const); ok && c.Int64() == 0 {
				id = anyMap
				break
			}
			id = anyMap
			n := int64(0)
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.IndexAddr:
					for _, r2 := range *y.Referrers() {
						s, ok := r2.(*ssa.Store)
						if !ok || s.Addr != y {
							return ""
						}
						n++
						id = meetID(id, ks.elem(s.Val, kt))
					}
				case *ssa.Slice, *ssa.DebugRef:
				default:
					return ""
				}
			}
			if n != at.Len() {
				return ""
			}
			return id
		}
		id = ks.slice(x.X, kt)
	case *ssa.ChangeType:
		id = ks.slice(x.X, kt)
	case *ssa.UnOp:
		// a variable, perhaps shared with a function that compares its elements
		al, ok := x.X.(*ssa.Alloc)
		if !ok || ks.seen[al] {
			if ok {
				return anyMap
			}
			return ""
		}
		ks.seen[al] = true
		id = anyMap
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != al {
					return ""
				}
				id = meetID(id, ks.slice(y.Val, kt))
			case *ssa.UnOp:
				if y != x {
					id = ks.uses(y, id, kt)
				}
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b != ssa.Value(al) {
						continue
					}
					for _, r2 := range *y.Fn.(*ssa.Function).FreeVars[i].Referrers() {
						l, ok := r2.(*ssa.UnOp)
						if !ok {
							return ""
						}
						for _, r3 := range *l.Referrers() {
							ia, ok := r3.(*ssa.IndexAddr)
							if !ok {
								return ""
							}
							for _, r4 := range *ia.Referrers() {
								if _, ok := r4.(*ssa.UnOp); !ok {
									return ""
								}
							}
						}
					}
				}
			case *ssa.DebugRef:
			default:
				return ""
			}
			if id == "" {
				return ""
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" || len(x.Call.Args) != 2 {
				return ""
			}
			id = meetID(ks.slice(x.Call.Args[0], kt), ks.slice(x.Call.Args[1], kt))
			break
		}
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return ""
		}
		id = anyMap
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				id = meetID(id, ks.slice(r.Results[0], kt))
			}
		}
		// from the parameters of the callee to the arguments
		if id == anyMap || id == "" {
			break
		}
		n := -1
		pre, rest := "", id
		for i := 0; i < len(id); i++ {
			if id[i] == 'p' {
				k := i + 1
				n = 0
				for k < len(id) && id[k] >= '0' && id[k] <= '9' {
					n = n*10 + int(id[k]-'0')
					k++
				}
				pre, rest = id[:i], id[k:]
				break
			}
		}
		if n < 0 || n >= len(x.Call.Args) {
			return ""
		}
		a := mapID(x.Call.Args[n])
		if a == "" {
			return ""
		}
		id = normID(pre + a + rest)
	}
	return ks.uses(v, id, kt)
}

// uses makes sure that nothing but keys of the map is put into a slice.
func (ks *keySets) uses(v ssa.Value, id string, kt types.Type) string {
	if id == "" || v.Referrers() == nil {
		return id
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.IndexAddr:
			for _, r2 := range *y.Referrers() {
				switch s := r2.(type) {
				case *ssa.Store:
					if s.Addr != y {
						return ""
					}
					if id = meetID(id, ks.elem(s.Val, kt)); id == "" {
						return ""
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return ""
				}
			}
		case *ssa.Call:
			switch f := y.Call.Value.(type) {
			case *ssa.Builtin:
				if f.Name() == "copy" {
					return ""
				}
			case *ssa.Function:
				if f.Pkg != nil && (f.Pkg.Pkg.Path() == "sort" || f.Pkg.Pkg.Path() == "slices") || f.Origin() != nil && f.Origin().Pkg != nil && f.Origin().Pkg.Pkg.Path() == "slices" {
					break
				}
				return ""
			default:
				return ""
			}
		case *ssa.MakeInterface:
			for _, r2 := range *y.Referrers() {
				c, ok := r2.(*ssa.Call)
				if !ok {
					return ""
				}
				f := c.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sort" {
					return ""
				}
			}
		case *ssa.Store:
			if _, ok := y.Addr.(*ssa.Alloc); !ok {
				return ""
			}
		case *ssa.Phi, *ssa.Return, *ssa.Slice, *ssa.DebugRef, *ssa.ChangeType, *ssa.BinOp:
		default:
			return ""
		}
	}
	return id
}

// filled: every element of a slice made with its final length is assigned by one loop over a slice of the same length.
func (ks *keySets) filled(m *ssa.MakeSlice, kt types.Type) string {
	for _, r := range *m.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		var st *ssa.Store
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
				st = s
			}
		}
		if st == nil {
			continue
		}
		src, head := countedOver(ia.Index)
		if src == nil {
			continue
		}
		// the store happens in every turn of the loop
		all := true
		for _, p := range head.Preds {
			if head.Dominates(p) && !st.Block().Dominates(p) {
				all = false
			}
		}
		if !all {
			continue
		}
		id := ks.elem(st.Val, kt)
		if id == "" || id == anyMap {
			continue
		}
		if sameLen(m.Len, src, id) {
			return id
		}
	}
	return ""
}

// countedOver recognises the index of a loop over all elements of a slice.
func countedOver(i ssa.Value) (ssa.Value, *ssa.BasicBlock) {
	var phi *ssa.Phi
	start := int64(0)
	next := i
	if b, ok := i.(*ssa.BinOp); ok && b.Op == token.ADD { // for i := range
		phi, _ = b.X.(*ssa.Phi)
		start = -1
	} else {
		phi, _ = i.(*ssa.Phi)
	}
	if phi == nil {
		return nil, nil
	}
	for _, e := range phi.Edges {
		if c, ok := e.(*ssa.Const); ok {
			if c.Int64() != start {
				return nil, nil
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return nil, nil
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Int64() != 1 {
			return nil, nil
		}
	}
	for _, r := range *next.Referrers() {
		c, ok := r.(*ssa.BinOp)
		if !ok || c.Op != token.LSS || c.X != next || c.Block() != phi.Block() {
			continue
		}
		if l, ok := c.Y.(*ssa.Call); ok {
			if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return l.Call.Args[0], phi.Block()
			}
		}
	}
	return nil, nil
}

// sameLen: n is the length of the slice src, or that of the map id when src holds one element per key of it.
func sameLen(n ssa.Value, src ssa.Value, id string) bool {
	l, ok := n.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := l.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	x := l.Call.Args[0]
	if x == src {
		return true
	}
	if _, ok := x.Type().Underlying().(*types.Map); !ok || normID(mapID(x)) != id {
		return false
	}
	// src: empty before a range over the map that appends once in every turn
	phi, ok := src.(*ssa.Phi)
	if !ok {
		return false
	}
	grows := 0
	var nx *ssa.Next
	for _, in := range phi.Block().Instrs {
		if y, ok := in.(*ssa.Next); ok {
			nx = y
		}
	}
	if nx == nil {
		return false
	}
	if rg, ok := nx.Iter.(*ssa.Range); !ok || normID(mapID(rg.X)) != id {
		return false
	}
	for _, e := range phi.Edges {
		switch y := e.(type) {
		case *ssa.MakeSlice:
			if c, ok := y.Len.(*ssa.Const); !ok || c.Int64() != 0 {
				return false
			}
		case *ssa.Const:
		case *ssa.Slice:
			if c, ok := y.High.(*ssa.Const); !ok || c.Int64() != 0 {
				return false
			}
		case *ssa.Call:
			b, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || y.Call.Args[0] != ssa.Value(phi) {
				return false
			}
			s, ok := y.Call.Args[1].(*ssa.Slice)
			if !ok {
				return false
			}
			pt, ok := s.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			if a, ok := pt.Elem().Underlying().(*types.Array); !ok || a.Len() != 1 {
				return false
			}
			grows++
		default:
			return false
		}
	}
	return grows == 1
}

// keyPresent: the key of a lookup is one of the keys the map was found to have, and the function does not replace the map.
func keyPresent(x *ssa.Lookup) bool {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	id := normID(mapID(x.X))
	if id == "" {
		return false
	}
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if normID("*("+mapID(y.Addr)+")") == id {
					return false
				}
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					return false
				}
			}
		}
	}
	got := (&keySets{seen: map[ssa.Value]bool{}}).elem(x.Index, mt.Key())
	return got == id
}
