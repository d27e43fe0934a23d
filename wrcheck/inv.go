package main

import (
	"go/types"
)

// Container invariants of the resource tree. They are assumed for objects received from elsewhere (the caller's set, an entry looked
// up in a map that has been changed meanwhile) and re-established, as obligations, wherever the analysed code creates or changes an
// entry: maps of pointers hold no nil entry, and the map-typed fields of the entries are never nil.

// entryStruct reports whether t is a struct of the analysed packages that some map holds by pointer.
func (p *Program) entryStruct(t types.Type) bool {
	if p.entryStructs == nil {
		p.entryStructs = map[string]bool{}
		var visit func(t types.Type, seen map[types.Type]bool)
		visit = func(t types.Type, seen map[types.Type]bool) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch u := t.(type) {
			case *types.Named:
				visit(u.Underlying(), seen)
			case *types.Pointer:
				visit(u.Elem(), seen)
			case *types.Slice:
				visit(u.Elem(), seen)
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					visit(u.Field(i).Type(), seen)
				}
			case *types.Map:
				if pt, ok := u.Elem().Underlying().(*types.Pointer); ok {
					if n, ok := pt.Elem().(*types.Named); ok {
						if _, ok := n.Underlying().(*types.Struct); ok {
							p.entryStructs[n.String()] = true
						}
					}
				}
				visit(u.Elem(), seen)
			}
		}
		for _, pk := range []*types.Package{p.Root.Pkg, p.Ver.Pkg} {
			for _, n := range pk.Scope().Names() {
				if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok {
					visit(tn.Type(), map[types.Type]bool{})
				}
			}
		}
	}
	n, ok := t.(*types.Named)
	return ok && p.entryStructs[n.String()]
}

// fieldOf splits the path of a location into the struct holding it and the field, when the location is a field.
func fieldOf(o *Obj, path string) (parent string, st *types.Struct, named types.Type, idx int, ok bool) {
	es := pathTab[path]
	if len(es) == 0 || es[len(es)-1].field < 0 {
		return
	}
	parent = pathOf(es[:len(es)-1])
	named = typeAt(o, parent)
	if named == nil {
		return
	}
	st, ok = named.Underlying().(*types.Struct)
	idx = es[len(es)-1].field
	if !ok || idx >= st.NumFields() {
		ok = false
	}
	return
}

// containers installs the container invariants in an engine: assumed on loads, obliged on stores.
func (c *Ctx) containers(e *Engine) {
	e.invNonNil = winresInvariants
	cache := orderCacheInvariant(e)
	e.onField = func(st *State, p PtrV, v Val) {
		cache(st, p, v)
		if m, ok := v.(MapV); ok && p.Obj.kind == "sym" {
			if _, _, named, _, ok := fieldOf(p.Obj, p.Path); ok && c.P.entryStruct(named) {
				if at := nilAtom(m); at != "" {
					st.setBool(at, false)
				}
			}
		}
	}
	e.mons = append(e.mons, func(ev *Event) {
		switch ev.Kind {
		case "store":
			if _, ok := ev.Elem.Underlying().(*types.Map); !ok {
				return
			}
			if _, _, named, _, ok := fieldOf(ev.Obj, ev.Path); ok && c.P.entryStruct(named) {
				c.ob("container", c.site(ev.Fr, ev.In), ev.St.truth(nilCond(ev.Val)) == 0, c.P.pos(ev.In), "a nil map may be stored in an entry of the resource tree")
			}
		case "mapupdate":
			mt, ok := ev.Elem.Underlying().(*types.Map)
			if !ok || !winresInvariants(mt) {
				return
			}
			v := ev.Args[2]
			good := ev.St.truth(nilCond(v)) == 0
			msg := "a nil entry may be stored in a map of the resource tree"
			if p, ok := v.(PtrV); ok && good {
				t := typeAt(p.Obj, p.Path)
				if s, ok := t.Underlying().(*types.Struct); ok && c.P.entryStruct(t) {
					for i := 0; i < s.NumFields(); i++ {
						if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
							fp := PtrV{p.Obj, pathField(p.Path, i)}
							fv := ev.St.load(fp.Obj, fp.Path, s.Field(i).Type())
							if p.Obj.kind == "sym" {
								continue // an existing entry: holds already
							}
							if ev.St.truth(nilCond(fv)) != 0 {
								good, msg = false, "an entry without its "+s.Field(i).Name()+" map may be stored in the resource tree"
							}
						}
					}
				}
			}
			c.ob("container", c.site(ev.Fr, ev.In), good, c.P.pos(ev.In), msg)
		}
	})
}
