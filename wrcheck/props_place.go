package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// sectionPtrs are the pointers to section headers kept in fields of live storage, by field.
func sectionPtrs(st *State) map[*types.Var][]PtrV {
	out := map[*types.Var][]PtrV{}
	for c, v := range st.heap {
		p, ok := v.(PtrV)
		if !ok || c.o >= len(objList) {
			continue
		}
		o := objList[c.o]
		es := pathTab[c.p]
		if len(es) == 0 || es[len(es)-1].field < 0 {
			continue
		}
		pt := typeAt(o, pathOf(es[:len(es)-1]))
		if pt == nil {
			continue
		}
		s, ok := pt.Underlying().(*types.Struct)
		if !ok || es[len(es)-1].field >= s.NumFields() {
			continue
		}
		f := s.Field(es[len(es)-1].field)
		fp, ok := f.Type().Underlying().(*types.Pointer)
		if !ok || headerKind(fp.Elem()) != "section" {
			continue
		}
		out[f] = append(out[f], p)
	}
	return out
}

func (c *Ctx) secField(st *State, p PtrV, t types.Type, off int64) (Lin, bool) {
	return leafAt(payloadLeaves(st, p, t), off, 4)
}

// blankFns are the functions that write a number of bytes and nothing else: func(io.Writer, n) error.
func (c *Ctx) blankFns() []*ssa.Function {
	var out []*ssa.Function
	used := map[*ssa.Function]bool{}
	for f := range c.passFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().StaticCallee() != nil {
					used[cl.Common().StaticCallee()] = true
				}
			}
		}
	}
	for _, f := range c.P.allFuncs() {
		if !used[f] || f.Pkg != c.P.Root || f.Parent() != nil || len(f.Params) != 2 || f.Signature.Results().Len() != 1 {
			continue
		}
		if ioKind(f.Params[0].Type()) != "dst" || !isInt64(f.Params[1].Type()) {
			continue
		}
		out = append(out, f)
	}
	return out
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int)
}

// blankModels replaces the calls of these functions by what their own task establishes: max(n, 0) bytes of zero are written.
func (c *Ctx) blankModels(e *Engine) {
	for _, f := range c.blankFns() {
		e.modular[f] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			n, ok := args[1].(IntV)
			if !ok {
				return nil
			}
			nm := ifName(args[0])
			if !isDstName(nm) {
				nm = "sum"
			}
			s2, s3 := st.clone(), st.clone()
			var out []Outcome
			st.assume(geV(addc(n.L, -1)))
			if !st.dead {
				e.emit(&Event{Kind: "blank", Fr: fr, St: st, In: in, Name: nm, L: n.L})
				e.gset(st, "pos:"+nm, IntV{add(e.gint(st, "pos:"+nm), n.L)})
				out = append(out, Outcome{st, NilV{}})
			}
			s2.assume(geV(neg(n.L)))
			if !s2.dead {
				out = append(out, Outcome{s2, NilV{}})
			}
			e.gset(s3, "pos:"+nm, IntV{atomLin(sym(freshName("pos"), p64(0), nil))})
			return append(out, Outcome{s3, newErr(s3, "blank")})
		}
	}
}

func init() {
	register("C14", "Abstract interpretation of the patching writer with the output position, the input position and the header fields as symbolic quantities: the payload must be written at the section's PointerToRawData, be as long as the resource directory says and be blanked up to SizeOfRawData; bytes copied from the input before it must keep their position.",
		func(c *Ctx) {
			for _, f := range c.blankFns() {
				f := f
				c.task("blank:"+f.Name(), func() {
					e := c.engine()
					e.noWrap64, e.relGhosts, e.noMerge = true, true, true
					p0 := atomLin(sym("pos0", p64(0), nil))
					e.init = map[string]Val{"pos:dst": IntV{p0}}
					e.mons = append(e.mons, func(ev *Event) {
						if ev.Kind == "write" && isDstName(ev.Name) && !ev.Fail {
							s, ok := ev.Val.(SliceV)
							c.ob("blank", c.site(ev.Fr, ev.In), ok && s.Obj != nil && c.zeroArray(ev.St, s), c.P.pos(ev.In), "what is written between the sections is not zero")
						}
					})
					st, args := c.newEntry(e, f)
					n := args[1].(IntV).L
					outs := e.run(st, f, args)
					ok := 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							continue
						}
						ok++
						d := sub(e.gint(o.st, "pos:dst"), p0)
						good := o.st.prove(neg(n)) && o.st.proveEq(d) || o.st.prove(n) && o.st.proveEq(sub(d, n))
						c.ob("blank-length", f.Name(), good, "", f.Name()+" can return without having written as many bytes as asked")
					}
					c.ob("entry", "blank "+f.Name(), ok > 0, "", "no path of "+f.Name()+" succeeds")
					c.finish(e)
				})
			}
			c.patch("WriteToEXE", "any", 0, func(e *Engine) {
				var found []string
				cacheLoads = true
				e.noWrap64, e.relGhosts, e.minMax = true, true, true
				e.ghostKey = []string{"appended", "found", "stage"}
				for _, n := range c.sectionPtrFields() {
					e.ghostKey = append(e.ghostKey, "found:"+n)
					found = append(found, "found:"+n)
				}
				c.sumModels(e)
				c.blankModels(e)
				zero := IntV{K(0)}
				e.init = map[string]Val{"appended": falseV, "found": falseV, "summing": falseV, "summed": falseV, "pos:sum": zero, "sumval": zero, "stage": zero, "end": zero, "headers": falseV, "dirKnown": falseV, "dirVA": zero, "dirSize": zero}
				for _, n := range found {
					e.init[n] = falseV
				}
				e.gmons = append(e.gmons, func(ev *Event) {
					st, where := ev.St, ""
					if ev.In != nil {
						where = c.P.pos(ev.In)
					}
					toDst := isDstName(ev.Name)
					at := e.gint(st, "pos:dst")
					switch ev.Kind {
					case "store":
						c.trackFound(e, ev)
						k, off, parent := headerField(ev.Obj, ev.Path, ev.Elem)
						if es := pathTab[parent]; k == "dir" && off <= 0 && len(es) > 0 && es[len(es)-1].field < 0 {
							// the place of the resources, once stored, must not change
							i := es[len(es)-1].idx
							v, isInt := ev.Val.(IntV)
							if off == -1 {
								v.L, isInt = leafAt(payloadLeaves(st, ev.Val, ev.Elem), 0, 4)
							}
							switch old, ok := st.load(ev.Obj, ev.Path, ev.Elem).(IntV); {
							case i.isConst() && i.c == 2 && isInt:
								e.gset(st, "dirVA", IntV{v.L})
								e.gset(st, "dirKnown", trueV)
							case st.proveNe(addc(i, -2)):
							case off == 0 && ok && st.proveNe(sub(old.L, e.gint(st, "dirVA"))):
							default:
								dbg("LOST", where, i, old, "dirVA", e.gint(st, "dirVA"), e.gflag(st, "appended"), "F", len(st.facts))
								e.gset(st, "dirKnown", falseV)
							}
						}
						if (k == "section" || k == "dir") && e.gmay(st, "headers") {
							c.ob("headers-final", c.site(ev.Fr, ev.In), false, where, "headers may change after having been written")
						}
					case "append":
						if headerKind(ev.Elem) == "section" {
							e.gset(st, "appended", trueV)
						}
					case "write":
						if !toDst || ev.Fail {
							return
						}
						if k := headerKind(elemOf(ev.Elem)); k != "" {
							e.gset(st, "headers", trueV)
							if s, ok := ev.Val.(SliceV); ok && k == "dir" {
								ls := payloadLeaves(st, PtrV{s.Obj, pathIdx(s.Path, addc(s.Off, 2))}, elemOf(ev.Elem))
								if sz, ok := leafAt(ls, 4, 4); ok {
									e.gset(st, "dirSize", IntV{sz})
								}
							}
							return
						}
						s, ok := ev.Val.(SliceV)
						if !ok || s.Obj == nil || c.zeroArray(st, s) {
							return
						}
						// the payload
						if !e.follows(c, ev, at) {
							c.ob("payload-once", c.site(ev.Fr, ev.In), false, where, "the resource data may be written twice")
							return
						}
						found, whole, dir := false, false, false
						for f, ps := range sectionPtrs(st) {
							for _, p := range ps {
								t := f.Type().Underlying().(*types.Pointer).Elem()
								x, ok := c.secField(st, p, t, 20)
								r, ok2 := c.secField(st, p, t, 16)
								va, ok3 := c.secField(st, p, t, 12)
								known := e.gflag(st, "dirKnown")
								dbg("payload", where, f.Name(), "app", e.gflag(st, "appended"), "PTR", x, "pos", at, "len", s.Len, "raw", r, "dir", e.gint(st, "dirSize"))
								if ok && ok2 && ok3 && eqL(st, st.pick(x), st.pick(at)) {
									found = true
									if known && eqL(st, va, e.gint(st, "dirVA")) {
										dir = true
										e.gset(st, "end", IntV{add(at, r)})
										whole = eqL(st, s.Len, e.gint(st, "dirSize"))
									}
								}
							}
						}
						k := c.site(ev.Fr, ev.In)
						c.ob("payload-at", k, found, where, "the resource data may not be written at the place that the section header tells")
						c.ob("directory", k, !found || dir, where, "the resource directory entry may not point at the section that the resource data is written to")
						c.ob("directory-size", k, !dir || whole, where, "the resource directory entry may not have the length of the resource data")
						e.gset(st, "stage", IntV{K(1)})
					case "copyn":
						if !isDstName(ifName(ev.Args[0])) {
							return
						}
						dbg("copyn", where, "app", e.gflag(st, "appended"), "pos", at, "len", ev.L, "src", e.gint(st, "pos:src"), "stage", e.gint(st, "stage"))
						if e.follows(c, ev, at) {
							c.ob("same-place", c.site(ev.Fr, ev.In), eqL(st, e.gint(st, "pos:src"), at), where, "data before the resources may not keep its position")
						}
					}
				})
			}, func(e *Engine, outs []Outcome) {
				n := 0
				for _, o := range outs {
					if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
						continue
					}
					n++
					g := e.gint(o.st, "stage")
					c.ob("payload-written", "WriteToEXE", g.isConst() && g.c != 0, "", "a file may be written without the resource data")
					if g.isConst() && g.c == 1 {
						c.ob("filled", "end of file", eqL(o.st, e.gint(o.st, "pos:dst"), e.gint(o.st, "end")), "", "the resource data may not fill the section's declared raw size")
					}
				}
				c.floor("successful exits", n, 1)
				c.floor("copies that keep their position", c.ruleCount("same-place"), 2)
			})
		})
}

// follows tells whether the resource data is yet to be written; the first thing after it must start where the section ends.
func (e *Engine) follows(c *Ctx, ev *Event, at Lin) bool {
	switch g := e.gint(ev.St, "stage"); {
	case g.isConst() && g.c == 0:
		return true
	case g.isConst() && g.c == 1:
		c.ob("filled", c.site(ev.Fr, ev.In), eqL(ev.St, at, e.gint(ev.St, "end")), c.P.pos(ev.In), "the resource data may not fill the section's declared raw size")
		e.gset(ev.St, "stage", IntV{K(2)})
	}
	return false
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

// trackFound keeps whether a pointer to the resource section is being kept.
func (c *Ctx) trackFound(e *Engine, ev *Event) {
	x, ok := ev.In.(*ssa.Store)
	if !ok || fieldOfAddr(x.Addr) == nil {
		return
	}
	p, ok := x.Val.Type().Underlying().(*types.Pointer)
	if !ok || headerKind(p.Elem()) != "section" {
		return
	}
	switch ev.Val.(type) {
	case PtrV:
		e.gset(ev.St, "found", trueV)
		e.gset(ev.St, "found:"+fieldOfAddr(x.Addr).Name(), trueV)
	case NilV:
		e.gset(ev.St, "found", falseV)
	}
}

// sectionPtrFields are the fields that keep pointers to section headers.
func (c *Ctx) sectionPtrFields() []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range c.P.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if v := fieldOfAddr(x.Addr); v != nil {
						if p, ok := v.Type().Underlying().(*types.Pointer); ok && headerKind(p.Elem()) == "section" && !seen[v.Name()] {
							seen[v.Name()] = true
							out = append(out, v.Name())
						}
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}
