package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Counts and sizes never silently wrap when written (C25).

// inChecksum: the checksum is a sum with end-around carry, which folds by design.
func (c *Ctx) inChecksum(fr *Frame) bool {
	for ; fr != nil; fr = fr.parent {
		if r := fr.fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Name() == "peCheckSum" {
				return true
			}
		}
	}
	return false
}

type wrapSite struct {
	key  string
	kind string
	lo   int64
	hi   int64
}

// wraps adds the rule to an engine: a lossy conversion or sum to a 16 or 32 bits integer leaves its exact value in a ghost, which must
// be shown to have been in range when the same instruction runs again and when the operation succeeds.
func (c *Ctx) wraps(e *Engine, seen map[string]*wrapSite, sums bool) {
	zero := IntV{K(0)}
	check := func(st *State, s *wrapSite, where string) {
		v := e.gint(st, "pend:"+s.key)
		ok := st.prove(addc(neg(v), s.hi))
		if !ok {
			dbg("wrap", s.key, v)
		}
		c.ob(s.kind, s.key, ok, where, "a value that does not fit is truncated here, and the operation may still succeed")
	}
	e.gmons = append(e.gmons, func(ev *Event) {
		if ev.Kind != "convert" && (!sums || ev.Kind != "arith") {
			return
		}
		lo, hi, bits, _, ok := intRange(ev.Elem)
		if !ok || bits != 16 && bits != 32 || c.inChecksum(ev.Fr) {
			return
		}
		key := c.site(ev.Fr, ev.In)
		if ev.Kind == "convert" {
			if ev.OK {
				c.ob("convert", key, true, c.P.pos(ev.In), "")
				return
			}
		}
		s := seen[key]
		if s == nil {
			s = &wrapSite{key, ev.Kind, *lo, *hi}
			seen[key] = s
		}
		if e.init == nil {
			e.init = map[string]Val{}
		}
		if e.init["pend:"+key] == nil {
			e.init["pend:"+key] = zero
		}
		check(ev.St, s, c.P.pos(ev.In))
		if ev.St.prove(addc(neg(ev.L), *hi)) {
			return
		}
		e.gset(ev.St, "pend:"+key, IntV{ev.L})
	})
}

// relocElems adds the rule for the addresses that end up in the relocation table: whatever is added to a list of integers is at most
// 2^32-1, at the latest when the operation succeeds.
func (c *Ctx) relocElems(e *Engine, seen map[string]*wrapSite) {
	isInts := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int
	}
	one := func(ev *Event, v Val) {
		key := c.site(ev.Fr, ev.In)
		s := &wrapSite{key, "address", 0, 1<<32 - 1}
		seen["address "+key] = s
		if e.init["pend:"+key] == nil {
			e.init["pend:"+key] = IntV{K(0)}
		}
		c.ob(s.kind, key, ev.St.prove(addc(neg(e.gint(ev.St, "pend:"+key)), s.hi)), c.P.pos(ev.In), "an address that does not fit 32 bits may be kept for the relocation table")
		i, ok := v.(IntV)
		if !ok {
			c.ob(s.kind, key, false, c.P.pos(ev.In), "an address cannot be followed")
			return
		}
		if ev.St.prove(addc(neg(i.L), s.hi)) {
			return
		}
		e.gset(ev.St, "pend:"+key, i)
	}
	e.gmons = append(e.gmons, func(ev *Event) {
		switch ev.Kind {
		case "append":
			if !isInts(ev.Elem) {
				return
			}
			if ev.L.isConst() && ev.L.c == 0 {
				return
			}
			if s, ok := ev.Args[1].(SliceV); ok && ev.L.isConst() && ev.L.c <= 16 && s.Obj != nil && s.Obj.local {
				for i := int64(0); i < ev.L.c; i++ {
					one(ev, ev.St.load(s.Obj, pathIdx(s.Path, addc(s.Off, i)), ev.Elem))
				}
			}
		case "store":
			if ev.Obj != nil && ev.Obj.arr && isInts(ev.Elem) && !hasField(ev.Path) {
				one(ev, ev.Val)
			}
		}
	})
}

func hasField(p string) bool {
	for _, x := range pathTab[p] {
		if x.field >= 0 {
			return true
		}
	}
	return false
}

func init() {
	register("C25", "Abstract interpretation of every writing operation. Each conversion to a 16- or 32-bit integer, and in the operations that do not start from an executable each sum or product of such integers, that is not provably lossless at once keeps its exact value aside; that value is shown to be at most the type's maximum whenever the instruction runs again and at every successful exit. Addresses handed to the relocation table are shown to fit 32 bits where they are collected.",
		func(c *Ctx) {
			add := func(name string, sums bool, find func() *ssa.Function, setup func(e *Engine, seen map[string]*wrapSite)) {
				seen := map[string]*wrapSite{}
				c.entry(name, find, func(e *Engine) {
					e.init = map[string]Val{}
					e.noWrap64 = true
					c.wraps(e, seen, sums)
					if setup != nil {
						setup(e, seen)
					}
					e.hints = append(e.hints, K(1<<32-1), K(1<<16-1))
				}, nil, func(e *Engine, outs []Outcome) {
					n := 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							continue
						}
						n++
						for _, s := range seen {
							v := e.gint(o.st, "pend:"+s.key)
							ok := o.st.prove(addc(neg(v), s.hi))
							if !ok {
								dbg("wrap at exit", s.key, v)
							}
							c.ob(s.kind, s.key, ok, "", "a value that does not fit is truncated here, and the operation may still succeed")
						}
					}
					c.ob("exits", name, n > 0, "", "no successful exit seen")
				})
			}
			m := func(t, n string, sums bool, setup func(e *Engine, seen map[string]*wrapSite)) {
				add(t+"."+n, sums, func() *ssa.Function { return c.meth(t, n) }, setup)
			}
			m("ResourceSet", "write", true, func(e *Engine, seen map[string]*wrapSite) { c.relocElems(e, seen) })
			m("ResourceSet", "WriteObject", true, func(e *Engine, seen map[string]*wrapSite) {
				w := c.meth("ResourceSet", "write")
				if w == nil {
					return
				}
				e.modular[w] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
					bad := st.clone()
					o := newObj("alloc", "relocs", types.Typ[types.Int])
					o.arr, o.local = true, true
					o.content = freshName("relocs")
					o.onLoad = func(s *State, p string, v Val) {
						if i, ok := v.(IntV); ok {
							s.addFact(addc(neg(i.L), 1<<32-1))
						}
					}
					st.epOwn()
					st.epoch[o.id] = "r"
					l := atomLin(sym(freshName("nreloc"), p64(0), p64(maxLen)))
					er := newErr(bad, "write")
					return []Outcome{{st, TupleV{SliceV{Obj: o, Off: K(0), Len: l, Cap: l}, NilV{}}}, {bad, TupleV{NilV{}, er}}}
				}
			})
			m("ResourceSet", "WriteToEXE", false, func(e *Engine, _ map[string]*wrapSite) { c.writeContract(e) })
			m("ResourceSet", "Set", true, nil)
			for _, k := range imageKinds {
				m(k.typ, k.saver, true, nil)
				k := k
				data := func(e *Engine, _ map[string]*wrapSite) { c.imagesHaveData(e, k) }
				m("ResourceSet", k.setter, true, data)
				m("ResourceSet", k.setter+"Translation", true, data)
			}
			c.assumption("sums of counts and sizes of objects in memory do not exceed 2^63")
			c.final = func() {
				c.ob("vacuity", "sites", c.ruleCount("convert") >= 10 && c.ruleCount("address") > 0, "", "fewer conversions than expected were seen")
			}
		})
}
