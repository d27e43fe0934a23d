package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Strings entering version tables (C33).

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// strTable: a map of strings by strings.
func strTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStrT(m.Key()) && isStrT(m.Elem())
}

// tableRef: a table, or a pointer to one.
func tableRef(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return strTable(t)
}

func strOK(st *State, v Val, key bool) (bool, string) {
	s, ok := v.(StrV)
	if !ok {
		return false, "an unknown string"
	}
	s = st.normStr(s)
	if s.Const {
		return (!key || s.S != "") && !strings.ContainsRune(s.S, 0), "an invalid constant"
	}
	if key && !st.prove(addc(s.Len, -1)) {
		return false, "a key that may be empty"
	}
	if st.truth(hasNUL(st, s)) != 0 {
		return false, "a string that may contain NUL"
	}
	return true, ""
}

func init() {
	register("C33", "Abstract interpretation of the setters, the binary and JSON decoders, splitting, merging and copying, on arbitrary arguments: at each assignment into a table of strings the key is provably non-empty and the key and the value free of NUL, from the tests on the path (any way of searching a string for NUL) or because they come out of a table that obeys this already; tables decoded from JSON obey nothing and never become part of a structure. The setter returns nil only for valid strings, and changes no table when it refuses.",
		func(c *Ctx) {
			setup := func(e *Engine) {
				nulModels(e)
				e.unroll = 3
				// Tables reached from a table of tables keyed by text come from JSON and may hold anything.
				loose := map[string]bool{}
				isLoose := func(v Val) bool {
					for n := range loose {
						if strings.Contains(v.Key(), n) {
							return true
						}
					}
					return false
				}
				assume := func(st *State, m Val, mt *types.Map, k, v Val) {
					dbg("entry", mt, m.Key(), k.Key(), v.Key(), isLoose(m))
					switch {
					case isStrT(mt.Key()) && tableRef(mt.Elem()):
						loose[v.Key()] = true
					case strTable(mt) && !isLoose(m):
						for i, x := range []Val{k, v} {
							s, ok := x.(StrV)
							if !ok || s.Const {
								continue
							}
							s = st.normStr(s)
							if i == 0 {
								st.addFact(addc(s.Len, -1))
							}
							st.assume(notV(hasNUL(st, s)))
						}
					}
				}
				e.onRange = assume
				e.onPresent = assume
				e.gmons = append(e.gmons, func(ev *Event) {
					switch ev.Kind {
					case "mapupdate":
						mt := ev.Elem.Underlying().(*types.Map)
						switch {
						case strTable(mt):
							dbg("update", c.P.pos(ev.In), ev.Args[1].Key(), ev.Args[2].Key())
							e.gset(ev.St, "changed", trueV)
							for i, x := range ev.Args[1:3] {
								ok, why := strOK(ev.St, x, i == 0)
								c.ob("string", c.site(ev.Fr, ev.In), ok, c.P.pos(ev.In), why+" may enter a table (path: "+stackOf(ev.Fr)+")")
							}
						case tableRef(mt.Elem()) && !isStrT(mt.Key()):
							e.gset(ev.St, "changed", trueV)
							bad := isLoose(ev.Args[2])
							if p, ok := ev.Args[2].(PtrV); ok {
								bad = bad || isLoose(ev.St.load(p.Obj, p.Path, mt.Elem().Underlying().(*types.Pointer).Elem()))
							}
							c.ob("table", c.site(ev.Fr, ev.In), !bad, c.P.pos(ev.In), "a table that may hold anything may become part of a structure")
						}
					case "store":
						if strTable(ev.Elem) && ev.Val != nil {
							c.ob("table", c.site(ev.Fr, ev.In), !isLoose(ev.Val), c.P.pos(ev.In), "a table that may hold anything may become part of a structure")
						}
					}
				})
				e.init = map[string]Val{"changed": falseV}
				e.ghostKey = []string{"changed"}
			}
			for _, n := range []string{"Set", "Table", "SplitTranslations", "SetProductVersion", "SetFileVersion", "UnmarshalJSON"} {
				n := n
				name, find := c.vmethE("Info", n)
				var post func(e *Engine, outs []Outcome)
				if n == "Set" {
					post = func(e *Engine, outs []Outcome) {
						ok, bad := 0, 0
						for _, o := range outs {
							if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
								bad++
								c.ob("refused", name, !e.gmay(o.st, "changed"), "", "a table may be changed although the string is refused")
								continue
							}
							ok++
							for i, p := range find().Params {
								if !isStrT(p.Type()) {
									continue
								}
								v := symVal("arg:"+p.Name(), p.Type())
								good, why := strOK(o.st, v, i == 2)
								c.ob("reported", fmt.Sprint(name, " argument ", i), good, "", name+" may return nil for "+why)
							}
						}
						c.floor("outcomes of Set", ok, 1)
						c.floor("refusals of Set", bad, 1)
					}
				}
				c.entry(name, find, setup, nil, post)
			}
			for _, n := range []string{"MergeTranslations", "FromBytes"} {
				name, find := c.vfnE(n)
				c.entry(name, find, setup, nil, nil)
			}
			c.final = func() { c.floor("strings entering tables", c.ruleCount("string"), 2) }
		})
}
