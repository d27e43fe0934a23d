package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Object files (C24): machine, relocation kind, one relocation per leaf entry.

var objectArchs = []struct {
	arch          string
	machine, kind int64
}{
	{"386", 0x14c, 7},
	{"amd64", 0x8664, 3},
	{"arm", 0x1c4, 2},
	{"arm64", 0xaa64, 2},
}

// shapeOf lists the widths of the fields of a structure that is written.
func shapeOf(ls []leafV) string {
	s := ""
	for _, l := range ls {
		s += fmt.Sprint(l.size, " ")
	}
	return s
}

const (
	shapeTable    = "4 4 2 2 2 2 "
	shapeDirEntry = "4 4 "
	shapeData     = "4 4 4 4 "
)

func init() {
	register("C24", "Abstract interpretation of WriteObject for each of the four architectures and for every other one: the machine in the header and the kind in every relocation are the constants of that architecture, each relocation is for symbol 0 and takes the next address returned by the section writer until none is left, and for any other architecture no write is reached and every exit is an error. In the section writer, the addresses collected and the leaf directory entries emitted are shown to go in pairs with the same value, and the list returned has one element per leaf entry.",
		func(c *Ctx) {
			zero := IntV{K(0)}
			names := c.P.Root.Pkg.Scope()
			for _, a := range objectArchs {
				n := 0
				for _, x := range names.Names() {
					if k, ok := names.Lookup(x).(*types.Const); ok && typeStr(k.Type()) == "winres.Arch" && k.Val().ExactString() == fmt.Sprintf("%q", a.arch) {
						n++
					}
				}
				c.ob("declared", a.arch, n > 0, "", "no declared architecture has this value")
			}
			writer := func(e *Engine, addr *SliceV) {
				w := c.meth("ResourceSet", "write")
				if w == nil {
					return
				}
				e.modular[w] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
					old := e.mute
					e.mute = e.quiet > 0
					c.ob("order", "section", e.gflag(st, "hdr") && !e.gmay(st, "section"), c.P.pos(in), "the section may be written before the headers, or twice")
					e.mute = old
					bad := st.clone()
					if addr.Obj != nil {
						st.epOwn()
						st.epoch[addr.Obj.id] = "r"
						e.gset(st, "section", trueV)
						return []Outcome{{st, TupleV{*addr, NilV{}}}, {bad, TupleV{NilV{}, newErr(bad, "write")}}}
					}
					o := newObj("alloc", "relocs", types.Typ[types.Int])
					o.arr, o.local = true, true
					o.content = freshName("relocs")
					o.onLoad = func(s *State, p string, v Val) {
						if i, ok := v.(IntV); ok {
							s.addFact(i.L)
							s.addFact(addc(neg(i.L), 1<<32-1))
						}
					}
					st.epOwn()
					st.epoch[o.id] = "r"
					l := atomLin(sym(freshName("nreloc"), p64(0), p64(maxLen)))
					*addr = SliceV{Obj: o, Off: K(0), Len: l, Cap: l}
					e.gset(st, "section", trueV)
					return []Outcome{{st, TupleV{*addr, NilV{}}}, {bad, TupleV{NilV{}, newErr(bad, "write")}}}
				}
			}
			for _, a := range objectArchs {
				a := a
				var addr SliceV
				c.entry("WriteObject "+a.arch, func() *ssa.Function { return c.meth("ResourceSet", "WriteObject") }, func(e *Engine) {
					e.noWrap64 = true
					e.keepSym = "nreloc"
					writer(e, &addr)
					e.init = map[string]Val{"hdr": falseV, "section": falseV, "relocs": zero, "announced": zero, "ptr": zero}
					e.gmons = append(e.gmons, func(ev *Event) {
						if ev.Kind != "write" || !isDstName(ev.Name) || ev.Fail {
							return
						}
						st, where := ev.St, c.P.pos(ev.In)
						ls := payloadLeaves(st, ev.Val, ev.Elem)
						switch {
						case !e.gflag(st, "hdr"):
							m, ok := leafAt(ls, 0, 2)
							c.ob("machine", a.arch, ok && m.isConst() && m.c == a.machine && !e.gmay(st, "hdr"), where, fmt.Sprintf("the first thing written must be a file header for machine 0x%x", a.machine))
							e.gset(st, "hdr", trueV)
						case ev.L.isConst() && ev.L.c == 40 && !e.gmay(st, "section"):
							n, ok1 := leafAt(ls, 32, 2)
							p, ok2 := leafAt(ls, 24, 4)
							raw, ok3 := leafAt(ls, 20, 4)
							sz, ok4 := leafAt(ls, 16, 4)
							dbg("section", p, raw, sz, ok1, ok2, ok3, ok4)
							c.ob("section header", a.arch, ok1 && ok2 && ok3 && ok4 && eqL(st, p, add(raw, sz)) && raw.isConst() && raw.c == 60, where, "the section must be declared right after the headers and its relocations right after it")
							e.gset(st, "announced", IntV{n})
						case isStructT(ev.Elem) && ev.L.isConst() && ev.L.c == 10:
							va, ok0 := leafAt(ls, 0, 4)
							sy, ok1 := leafAt(ls, 4, 4)
							ty, ok2 := leafAt(ls, 8, 2)
							n := e.gint(st, "relocs")
							c.ob("reloc-kind", a.arch, ok2 && ty.isConst() && ty.c == a.kind, where, fmt.Sprintf("a relocation may be of another kind than %d", a.kind))
							c.ob("reloc-symbol", a.arch, ok1 && sy.isConst() && sy.c == 0, where, "a relocation may be for another symbol than the section's")
							good := false
							if addr.Obj != nil && ok0 {
								want, ok := st.load(addr.Obj, pathIdx(addr.Path, add(addr.Off, n)), types.Typ[types.Int]).(IntV)
								good = ok && eqL(st, va, want.L)
							}
							c.ob("reloc-address", a.arch, good, where, "a relocation may not be for the next address the section writer returned")
							e.gset(st, "relocs", IntV{addc(n, 1)})
						}
					})
				}, func(st *State, args []Val) {
					args[len(args)-1] = constStr(a.arch)
				}, func(e *Engine, outs []Outcome) {
					n := 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							continue
						}
						n++
						dbg("relocs", e.gint(o.st, "relocs"), addr.Len)
						c.ob("every-reloc", a.arch, e.gflag(o.st, "section") && eqL(o.st, e.gint(o.st, "relocs"), addr.Len), "", "an address returned by the section writer may have no relocation")
					}
					c.ob("exits", a.arch, n > 0 && c.ruleCount("reloc-address") > 0 && c.ruleCount("section header") > 0, "", "no successful exit, section header or relocation seen")
				})
			}
			c.entry("WriteObject other", func() *ssa.Function { return c.meth("ResourceSet", "WriteObject") }, func(e *Engine) {
				var addr SliceV
				writer(e, &addr)
				e.init = map[string]Val{"hdr": falseV, "section": falseV}
				e.mons = append(e.mons, func(ev *Event) {
					if ev.Kind == "write" && isDstName(ev.Name) || ev.Kind == "seek" && isDstName(ev.Name) {
						c.ob("refused-first", "other", false, c.P.pos(ev.In), "something may be written for an unknown architecture")
					}
				})
			}, func(st *State, args []Val) {
				s, ok := args[len(args)-1].(StrV)
				for _, a := range objectArchs {
					if ok {
						st.assume(notV(st.strEq(s, constStr(a.arch))))
					}
				}
			}, func(e *Engine, outs []Outcome) {
				for _, o := range outs {
					c.ob("refused", "other", o.st.truth(nilCond(lastVal(o.ret))) == 0, "", "an unknown architecture may be accepted")
				}
			})
			// the section writer
			c.entry("ResourceSet.write", func() *ssa.Function { return c.meth("ResourceSet", "write") }, func(e *Engine) {
				e.noWrap64, e.nonNeg32 = true, true
				e.init = map[string]Val{"addrs": zero, "leaves": zero, "lastAddr": zero, "lastLeaf": zero}
				pair := func(ev *Event, mine, other, last string, n Lin) {
					st, where := ev.St, c.P.pos(ev.In)
					a, b := e.gint(st, mine), e.gint(st, other)
					switch {
					case eqL(st, a, b): // first of a pair
					case eqL(st, addc(a, 1), b):
						c.ob("paired", "value", eqL(st, n, e.gint(st, last)), where, "the address of a relocation may not be the offset in its leaf entry")
					default:
						dbg("pair", a, b)
						c.ob("paired", "number", false, where, "leaf entries and relocation addresses may not come in pairs")
					}
					e.gset(st, mine, IntV{addc(a, 1)})
				}
				e.gmons = append(e.gmons, func(ev *Event) {
					st := ev.St
					switch ev.Kind {
					case "append":
						b, ok := ev.Elem.Underlying().(*types.Basic)
						if !ok || b.Kind() != types.Int || !ev.L.isConst() || ev.L.c == 0 {
							return
						}
						s, ok := ev.Args[1].(SliceV)
						var n IntV
						if ok && ev.L.c == 1 && s.Obj != nil {
							n, ok = st.load(s.Obj, pathIdx(s.Path, s.Off), ev.Elem).(IntV)
						}
						if !ok || ev.L.c != 1 {
							c.ob("paired", "followed", false, c.P.pos(ev.In), "the addresses added here cannot be followed")
							return
						}
						e.gset(st, "lastAddr", n)
						pair(ev, "addrs", "leaves", "lastLeaf", n.L)
					case "write":
						if !isDstName(ev.Name) || ev.Fail {
							return
						}
						ls := payloadLeaves(st, ev.Val, ev.Elem)
						if shapeOf(ls) != shapeDirEntry {
							return
						}
						off, ok := leafAt(ls, 4, 4)
						switch {
						case ok && st.prove(addc(off, -1<<31)):
						case ok && st.prove(addc(neg(off), 1<<31-1)):
							e.gset(st, "lastLeaf", IntV{off})
							pair(ev, "leaves", "addrs", "lastAddr", off)
						default:
							dbg("off", off)
							c.ob("paired", "kind", false, c.P.pos(ev.In), "whether this directory entry leads to a table or to data cannot be told")
						}
					}
				})
			}, nil, func(e *Engine, outs []Outcome) {
				n := 0
				for _, o := range outs {
					if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
						continue
					}
					n++
					s, ok := o.ret.(TupleV)[0].(SliceV)
					l := K(0)
					if ok {
						l = s.Len
					}
					a := e.gint(o.st, "addrs")
					c.ob("one-each", "section writer", eqL(o.st, a, e.gint(o.st, "leaves")) && eqL(o.st, l, a), "", "the list of addresses may not have one element for each leaf entry")
				}
				c.ob("exits", "section writer", n > 0 && c.ruleCount("paired") > 0, "", "no successful exit or leaf entry seen")
			})
		})
}
