package main

import (
	"go/types"
)

// Version structures never panic (C03).

// langTable: a map of tables of strings by language.
func langTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || isStrT(m.Key()) {
		return false
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	return ok && strTable(p.Elem())
}

// versionTables assumes, of structures given by the caller, that the tables of their languages exist, and obliges the analysed code
// to keep that so.
func (c *Ctx) versionTables(e *Engine) {
	e.invNonNil = langTable
	e.mons = nil
	e.onField = func(st *State, p PtrV, v Val) {
		if m, ok := v.(MapV); ok && p.Obj.kind == "sym" && p.Path == "" && strTable(typeAt(p.Obj, p.Path)) {
			if at := nilAtom(m); at != "" {
				st.setBool(at, false)
			}
		}
	}
	e.keysKnown = true
	e.onKnown = func(st *State, mt *types.Map, v Val) {
		if p, ok := v.(PtrV); ok && langTable(mt) {
			if at := nilAtom(st.load(p.Obj, p.Path, mt.Elem().Underlying().(*types.Pointer).Elem())); at != "" {
				st.setBool(at, false)
			}
		}
	}
	e.mons = append(e.mons, func(ev *Event) {
		switch ev.Kind {
		case "mapupdate":
			if !langTable(ev.Elem) {
				return
			}
			v := ev.Args[2]
			good, msg := ev.St.truth(nilCond(v)) == 0, "a language without a table may be stored"
			if p, ok := v.(PtrV); ok && good && p.Obj.kind != "sym" {
				pt := ev.Elem.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer).Elem()
				if ev.St.truth(nilCond(ev.St.load(p.Obj, p.Path, pt))) != 0 {
					good, msg = false, "a table that may be nil may be stored"
				}
			}
			c.ob("table", c.site(ev.Fr, ev.In), good, c.P.pos(ev.In), msg+" (path: "+stackOf(ev.Fr)+")")
		case "store":
			if ev.Val != nil && strTable(ev.Elem) {
				c.ob("table", c.site(ev.Fr, ev.In), ev.St.truth(nilCond(ev.Val)) == 0, c.P.pos(ev.In), "a table may be replaced by nil")
			}
		}
	})
	c.watchPanics(e)
}

func init() {
	register("C03", "Abstract interpretation (linear-relational numeric domain, field-sensitive heap, all callees inlined) of the binary and JSON decoders on arbitrary data and of the encoders, setters, queries, splitting and merging on arbitrary structures: every index, slice, nil dereference, write to a nil map, type assertion, make, division, shift and panic reached is an obligation proved from the facts on the path. That the tables of the languages of a structure exist is assumed of structures received and proved of structures made or changed.",
		func(c *Ctx) {
			for _, n := range []string{"Bytes", "Table", "Set", "SplitTranslations", "SetProductVersion", "SetFileVersion", "MarshalJSON", "UnmarshalJSON"} {
				name, find := c.vmethE("Info", n)
				c.entry(name, find, c.versionTables, nil, nil)
			}
			name, find := c.vmethE("LangTable", "GetMainTranslation")
			c.entry(name, find, c.versionTables, nil, nil)
			name, find = c.vfnE("MergeTranslations")
			c.entry(name, find, c.versionTables, nil, nil)
			name, find = c.vfnE("FromBytes")
			c.entry(name, find, func(e *Engine) { c.versionTables(e); e.noMerge = true }, nil, nil)
			c.final = func() {
				c.floor("places where data is indexed", c.ruleCount("index"), 8)
				c.floor("pointers followed", c.ruleCount("nil-deref"), 20)
			}
		})
}
