package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// safety obligations of the language: each of these is a run-time panic when violated.
var panicRules = map[string]bool{"index": true, "slice": true, "nil-deref": true, "nil-map": true, "makeslice": true,
	"divide": true, "shift": true, "slice-to-array": true, "type-assert": true, "image-size": true, "panic": true}

// watchPanics turns the engine's safety obligations into obligations of the check.
func (c *Ctx) watchPanics(e *Engine) {
	e.mons = append(e.mons, func(ev *Event) {
		switch ev.Kind {
		case "oblige":
			if panicRules[ev.Rule] {
				if !ev.OK && os.Getenv("WR_DEBUG") != "" {
					for _, l := range ev.St.facts {
						dbg("fact", ev.Note, l.String())
					}
				}
				c.ob(ev.Rule, c.site(ev.Fr, ev.In), ev.OK, c.P.pos(ev.In), ev.Note+" (path: "+stackOf(ev.Fr)+")")
			}
		case "unbounded":
			c.ob("recursion", c.site(ev.Fr, ev.In), false, c.P.pos(ev.In), ev.Note)
		}
	})
}

func stackOf(fr *Frame) string {
	if fr == nil {
		return "entry"
	}
	return fr.stack()
}

// winresInvariants are the container invariants assumed for a resource set received from the caller and re-established by C15/C16:
// the maps of a set never hold nil entries.
func winresInvariants(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, isPtr := m.Elem().Underlying().(*types.Pointer)
	return isPtr
}

// orderCacheInvariant: in a set received from the caller, a cached order of languages is absent or covers exactly the languages (C15).
func orderCacheInvariant(e *Engine) func(st *State, p PtrV, v Val) {
	return func(st *State, p PtrV, v Val) {
		sl, ok := v.(SliceV)
		if !ok || sl.NilAtom == "" || p.Obj.kind != "sym" {
			return
		}
		es := pathTab[p.Path]
		if len(es) == 0 || es[len(es)-1].field < 0 {
			return
		}
		parent := pathOf(es[:len(es)-1])
		pt := typeAt(p.Obj, parent)
		s, ok := pt.Underlying().(*types.Struct)
		if !ok || es[len(es)-1].field >= s.NumFields() || s.Field(es[len(es)-1].field).Name() != "orderedKeys" {
			return
		}
		// the map next to it that is keyed by the same type
		for i := 0; i < s.NumFields(); i++ {
			m, ok := s.Field(i).Type().Underlying().(*types.Map)
			if !ok || !types.Identical(m.Key(), sl.elem()) {
				continue
			}
			mv := st.load(p.Obj, pathField(parent, i), s.Field(i).Type())
			n := e.mapLen(st, mv)
			condDefs[sl.NilAtom] = func(s *State, isNil bool) {
				if !isNil {
					s.addFact(sub(sl.Len, n))
					s.addFact(sub(n, sl.Len))
				}
			}
		}
	}
}

func (c *Ctx) runEntry(e *Engine, f *ssa.Function, prep func(st *State, args []Val)) []Outcome {
	if f == nil {
		return nil
	}
	st, args := c.newEntry(e, f)
	if prep != nil {
		prep(st, args)
	}
	outs := e.run(st, f, args)
	c.count("entry points", 1)
	c.count("entry outcomes", len(outs))
	c.ob("entry", shortFn(f), len(outs) > 0, c.P.pos(f.Blocks[0].Instrs[0]), "no path of the entry point returns: nothing was analysed")
	return outs
}

// entry runs one entry point in a task of its own.
func (c *Ctx) entry(name string, find func() *ssa.Function, setup func(e *Engine), prep func(st *State, args []Val), post func(e *Engine, outs []Outcome)) {
	c.task(name, func() {
		e := c.engine()
		c.containers(e)
		setup(e)
		f := find()
		if f == nil {
			return
		}
		outs := c.runEntry(e, f, prep)
		if post != nil {
			post(e, outs)
		}
		c.finish(e)
	})
}

func (c *Ctx) fnE(n string) (string, func() *ssa.Function) {
	return n, func() *ssa.Function { return c.fn(n) }
}
func (c *Ctx) methE(t, n string) (string, func() *ssa.Function) {
	return t + "." + n, func() *ssa.Function { return c.meth(t, n) }
}
func (c *Ctx) vfnE(n string) (string, func() *ssa.Function) {
	return "version." + n, func() *ssa.Function { return c.vfn(n) }
}
func (c *Ctx) vmethE(t, n string) (string, func() *ssa.Function) {
	return "version." + t + "." + n, func() *ssa.Function { return c.vmeth(t, n) }
}

func init() {
	register("C02", "Abstract interpretation (linear-relational numeric domain, field-sensitive heap, all callees inlined) of every ICO/CUR loading and icon/cursor extraction entry point on an arbitrary reader or arbitrary resource bytes; every index, slice, nil dereference, type assertion, make, division and shift reached is an obligation proved from the facts on the path.",
		func(c *Ctx) {
			for _, n := range []string{"LoadICO", "LoadCUR"} {
				name, find := c.fnE(n)
				c.entry(name, find, c.watchPanics, nil, nil)
			}
			for _, n := range []string{"GetIcon", "GetIconTranslation", "GetCursor", "GetCursorTranslation"} {
				name, find := c.methE("ResourceSet", n)
				c.entry(name, find, c.watchPanics, nil, nil)
			}
		})

	register("C01", "Abstract interpretation of the executable reading and patching entry points on an arbitrary input: every index, slice, nil dereference, type assertion, make, division and shift reached is an obligation proved from the facts on the path.",
		func(c *Ctx) {
			for _, n := range []string{"LoadFromEXE", "LoadFromEXESingleType", "IsSignedEXE"} {
				name, find := c.fnE(n)
				c.entry(name, find, c.watchPanics, nil, nil)
			}
			name, find := c.methE("ResourceSet", "WriteToEXE")
			c.entry(name, find, func(e *Engine) { c.writeContract(e); c.watchPanics(e) }, nil, nil)
		})
}
