package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: no invalid identifier enters a resource set.

// hasNUL is the condition that a string contains a NUL character.
func hasNUL(st *State, s StrV) BoolV {
	s = st.normStr(s)
	if s.Const {
		return boolV(strings.ContainsRune(s.S, 0))
	}
	return atomV("nul:" + s.Sym)
}

// nulModels makes every library function that can search a string for NUL decide by the same condition.
func nulModels(e *Engine) {
	e.nulRange = true
	isNUL := func(st *State, v Val) bool {
		switch x := v.(type) {
		case IntV:
			return x.L.isConst() && x.L.c == 0
		case StrV:
			x = st.normStr(x)
			return x.Const && x.S == "\x00"
		}
		return false
	}
	wrap := func(name string, index bool) {
		orig := e.models[name]
		e.models[name] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			s, ok := args[0].(StrV)
			if !ok || len(args) < 2 || !isNUL(st, args[1]) {
				if orig != nil {
					return orig(e, fr, st, in, args, sig)
				}
				return e.pureCall(st, name, args, sig)
			}
			c := hasNUL(st, s)
			if !index {
				return []Outcome{{st, c}}
			}
			if c.op == "const" && !c.B {
				return []Outcome{{st, IntV{K(-1)}}}
			}
			s2 := st.clone()
			var out []Outcome
			st.assume(c)
			if !st.dead {
				k := atomLin(sym(freshName("nulpos"), p64(0), p64(maxLen)))
				st.addFact(addc(sub(s.Len, k), -1))
				out = append(out, Outcome{st, IntV{k}})
			}
			s2.assume(notV(c))
			if !s2.dead {
				out = append(out, Outcome{s2, IntV{K(-1)}})
			}
			return out
		}
	}
	for _, n := range []string{"strings.ContainsRune", "strings.Contains", "strings.ContainsAny"} {
		wrap(n, false)
	}
	for _, n := range []string{"strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndex"} {
		wrap(n, true)
	}
}

func (c *Ctx) identType(n string) types.Type {
	tn, ok := c.P.Root.Pkg.Scope().Lookup(n).(*types.TypeName)
	if !ok {
		c.ob("anchor", n, false, "", "type "+n+" not found")
		return nil
	}
	return tn.Type()
}

// validIdent tells whether an identifier is provably valid on a path: a non-zero ID, or a non-empty Name without NUL.
func (c *Ctx) validIdent(st *State, v Val) (bool, string) {
	idT, nameT := c.identType("ID"), c.identType("Name")
	switch x := v.(type) {
	case IfaceV:
		switch {
		case types.Identical(x.Dyn, idT):
			i, ok := x.V.(IntV)
			if !ok || !(st.prove(addc(i.L, -1)) || st.truth(eqV(i.L)) == 0) {
				return false, "a numeric identifier that may be zero"
			}
			return true, ""
		case types.Identical(x.Dyn, nameT):
			s, ok := x.V.(StrV)
			if !ok {
				return false, "an unknown name"
			}
			s = st.normStr(s)
			if s.Const {
				return s.S != "" && !strings.ContainsRune(s.S, 0), "an invalid constant name"
			}
			if !st.prove(addc(s.Len, -1)) {
				return false, "a name that may be empty"
			}
			if st.truth(hasNUL(st, s)) != 0 {
				return false, "a name that may contain NUL"
			}
			return true, ""
		}
		return false, "an identifier of type " + typeStr(x.Dyn)
	case IfaceSym:
		for _, T := range []types.Type{idT, nameT} {
			if d, ok := st.dyn[x.Name]; ok && !types.Identical(d, T) {
				continue
			}
			out := false
			for _, d := range st.notdyn[x.Name] {
				out = out || types.Identical(d, T)
			}
			if out {
				continue
			}
			if ok, why := c.validIdent(st, IfaceV{T, symVal(x.Name+".("+typeStr(T)+")", T)}); !ok {
				return false, why
			}
		}
		return true, ""
	}
	return false, fmt.Sprintf("an unknown identifier (%T)", v)
}

func (c *Ctx) watchIdents(e *Engine) {
	it := c.identType("Identifier")
	e.mons = append(e.mons, func(ev *Event) {
		if ev.Kind != "mapupdate" {
			return
		}
		mt, ok := ev.Elem.Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Key(), it) {
			return
		}
		ok, why := c.validIdent(ev.St, ev.Args[1])
		c.ob("key", c.site(ev.Fr, ev.In), ok, c.P.pos(ev.In), why+" may become a key of the resource set (path: "+stackOf(ev.Fr)+")")
	})
}

func init() {
	register("C16", "Abstract interpretation of every public way to add resources (Set, SetIcon, SetCursor, SetVersionInfo, SetManifest and loading an executable): at each assignment into a map keyed by resource identifiers the key must be provably a non-zero ID or a non-empty Name without NUL on the path; every exit of a setter that may return nil has its identifiers provably valid; a refusal while loading leads to an error at every exit.",
		func(c *Ctx) {
			setup := func(e *Engine) {
				nulModels(e)
				e.unroll = 4
				idT, nameT := c.identType("ID"), c.identType("Name")
				e.partDyn = func(t types.Type) bool { return types.Identical(t, idT) || types.Identical(t, nameT) }
				c.watchIdents(e)
			}
			idents := func(entry string, names ...string) func(e *Engine, outs []Outcome) {
				return func(e *Engine, outs []Outcome) {
					n := 0
					for _, o := range outs {
						err := lastVal(o.ret)
						if err == nil || o.st.truth(nilCond(err)) == 0 {
							continue
						}
						for i, p := range c.meth("ResourceSet", strings.TrimPrefix(entry, "ResourceSet.")).Params {
							if !types.Identical(p.Type(), c.identType("Identifier")) {
								continue
							}
							n++
							v := Val(IfaceSym{Name: "arg:" + p.Name(), T: p.Type()})
							ok, why := c.validIdent(o.st, v)
							c.ob("refused", fmt.Sprintf("%s arg %d", entry, i), ok, "", entry+" may return nil for "+why)
						}
					}
					c.ob("exits", entry, n > 0, "", "no exit of "+entry+" without an error was seen")
				}
			}
			for _, n := range []string{"Set", "SetIcon", "SetIconTranslation", "SetCursor", "SetCursorTranslation"} {
				name, find := c.methE("ResourceSet", n)
				c.entry(name, find, setup, nil, idents(name))
			}
			for _, n := range []string{"SetVersionInfo", "SetManifest"} {
				name, find := c.methE("ResourceSet", n)
				c.entry(name, find, setup, nil, nil)
			}
			for _, n := range []string{"LoadFromEXE", "LoadFromEXESingleType"} {
				name, find := c.fnE(n)
				c.entry(name, find, func(e *Engine) {
					setup(e)
					e.init = map[string]Val{"refused": falseV}
					body := c.meth("ResourceSet", "Set")
					if body == nil {
						return
					}
					e.modular[body] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
						m := e.modular[body]
						delete(e.modular, body)
						outs := e.callFn(fr, st, in, body, args, nil)
						e.modular[body] = m
						for _, o := range outs {
							if o.st.truth(nilCond(lastVal(o.ret))) != 1 {
								e.gset(o.st, "refused", trueV)
							}
						}
						return outs
					}
				}, nil, func(e *Engine, outs []Outcome) {
					n := 0
					for _, o := range outs {
						if !e.gmay(o.st, "refused") {
							continue
						}
						n++
						c.ob("reported", name, o.st.truth(nilCond(lastVal(o.ret))) == 0, "", name+" may ignore that a resource was refused")
					}
					c.ob("refusals", name, n > 0, "", "no refusal was seen while analysing "+name)
				})
			}
			c.final = func() { c.floor("key assignments", c.ruleCount("key"), 2) }
		})
}
