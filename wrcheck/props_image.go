package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Limits on images (C27).

const (
	maxSide     = 256
	maxSizes    = 30
	maxImageLen = 10 << 20
)

// boundsOf is what Bounds returns for an image received from outside.
func (c *Ctx) boundsOf(e *Engine, st *State, img Val) (x0, y0, x1, y1 Lin, ok bool) {
	var it types.Type
	switch v := img.(type) {
	case IfaceSym:
		it = v.T
	default:
		return
	}
	ii, ok2 := it.Underlying().(*types.Interface)
	if !ok2 {
		return
	}
	for i := 0; i < ii.NumMethods(); i++ {
		if ii.Method(i).Name() == "Bounds" {
			outs := e.pureCall(st, "invoke image.Image.Bounds", []Val{img}, ii.Method(i).Type().(*types.Signature))
			s, ok3 := outs[0].ret.(StructV)
			if !ok3 || len(s.F) != 2 {
				return
			}
			p, okp := s.F[0].(StructV)
			q, okq := s.F[1].(StructV)
			if !okp || !okq || len(p.F) != 2 || len(q.F) != 2 {
				return
			}
			g := func(v Val) Lin { return v.(IntV).L }
			return g(p.F[0]), g(p.F[1]), g(q.F[0]), g(q.F[1]), true
		}
	}
	return
}

func (c *Ctx) imageElem(typ string) types.Type {
	o := c.P.Root.Pkg.Scope().Lookup(typ)
	if o == nil {
		c.ob("anchor", typ, false, "", "type "+typ+" not found")
		return nil
	}
	i := fieldNamed(o.Type(), "images")
	if i < 0 {
		c.ob("anchor", typ+".images", false, "", "field images not found")
		return nil
	}
	s, ok := o.Type().Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return s.Elem()
}

func init() {
	register("C27", "Abstract interpretation of the three constructors and two loaders. Wherever an image is appended to an icon or a cursor, the bounds of the image it was made from (the element of the caller's list with that index, or the last result of the resizer) are provably non-empty and at most 256 by 256; at a successful exit of the resizing constructor at most 30 images were appended. In the loaders, at each allocation of run-time size, seek and read after the directory, the length in the current entry is provably at most 10 MB. Every append to such a list in the module lies in a function these analyses or the extractors' follow.",
		func(c *Ctx) {
			zero := IntV{K(0)}
			elems := []types.Type{c.imageElem("Icon"), c.imageElem("Cursor")}
			isElem := func(t types.Type) bool {
				for _, x := range elems {
					if t != nil && x != nil && types.Identical(t, x) {
						return true
					}
				}
				return false
			}
			visited := func(e *Engine) {
				for f := range e.funcs {
					c.ob("visited", shortFn(f), true, "", "")
				}
			}
			for _, k := range []struct {
				name   string
				resize bool
			}{{"NewIconFromImages", false}, {"NewIconFromResizedImage", true}, {"NewCursorFromImages", false}} {
				k := k
				var list Val
				c.entry(k.name, func() *ssa.Function { return c.fn(k.name) }, func(e *Engine) {
					e.keepSym = "pure:invoke image.Image.Bounds,"
					e.init = map[string]Val{"n": zero, "resized": NilV{}}
					if k.resize {
						old := e.models["github.com/nfnt/resize.Resize"]
						if old == nil {
							c.ob("anchor", "resize.Resize", false, "", "no model")
							return
						}
						e.models["github.com/nfnt/resize.Resize"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
							outs := old(e, fr, st, in, args, sig)
							for _, o := range outs {
								e.gset(o.st, "resized", o.ret)
							}
							return outs
						}
					}
					e.gmons = append(e.gmons, func(ev *Event) {
						if ev.Kind != "append" || !isElem(ev.Elem) {
							return
						}
						st, where := ev.St, c.P.pos(ev.In)
						n := e.gint(st, "n")
						e.gset(st, "n", IntV{add(n, ev.L)})
						c.ob("one-image", k.name, ev.L.isConst() && ev.L.c == 1, where, "images are added otherwise than one at a time: the analysis cannot tell which was checked")
						var img Val
						if k.resize {
							img, _ = e.gget(st, "resized")
						} else if s, ok := list.(SliceV); ok && s.Obj != nil {
							p := pathIdx(s.Path, add(s.Off, n))
							et := typeAt(s.Obj, p)
							if i := fieldNamed(et, "Image"); i >= 0 {
								img = st.load(s.Obj, pathField(p, i), et.Underlying().(*types.Struct).Field(i).Type())
							} else {
								img = st.load(s.Obj, p, et)
							}
						}
						dbg("img", img, "n", n)
						x0, y0, x1, y1, ok := c.boundsOf(e, st, img)
						if !ok {
							c.ob("not-empty", k.name, false, where, "the image this comes from cannot be followed")
							return
						}
						w, h := sub(x1, x0), sub(y1, y0)
						dbg("dims", w, h, st.facts)
						c.ob("not-empty", k.name, st.prove(addc(w, -1)) && st.prove(addc(h, -1)), where, "an image may be added without having been checked to be non-empty")
						c.ob("not-too-big", k.name, st.prove(addc(neg(w), maxSide)) && st.prove(addc(neg(h), maxSide)), where, "an image may be added without having been checked to be at most 256 pixels wide and high")
					})
				}, func(st *State, args []Val) { list = args[0] }, func(e *Engine, outs []Outcome) {
					visited(e)
					ok, bad := 0, 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							bad++
							continue
						}
						ok++
						if k.resize {
							c.ob("sizes", k.name, o.st.prove(addc(neg(e.gint(o.st, "n")), maxSizes)), "", "an icon of more than 30 sizes may be made")
						}
					}
					c.ob("exits", k.name, ok > 0 && bad > 0 && c.ruleCount("not-too-big") > 0, "", "no successful exit, refusal or image seen")
				})
			}
			for _, k := range imageKinds {
				k := k
				c.entry(k.loader, func() *ssa.Function { return c.fn(k.loader) }, func(e *Engine) {
					e.init = map[string]Val{"n": zero, "dir": NilV{}, "hdr": falseV}
					e.gmons = append(e.gmons, func(ev *Event) {
						st := ev.St
						if ev.Kind == "append" && isElem(ev.Elem) {
							e.gset(st, "n", IntV{add(e.gint(st, "n"), ev.L)})
							return
						}
						dv, _ := e.gget(st, "dir")
						dir, haveDir := dv.(SliceV)
						haveDir = haveDir && dir.Obj != nil
						if ev.Kind == "filled" && isStructT(ev.Elem) && !haveDir {
							if s, ok := ev.Val.(SliceV); ok && s.Obj != nil && binSize(s.elem()) == 16 {
								e.gset(st, "dir", s)
								return
							}
						}
						switch {
						case ev.Kind == "seek" && !isDstName(ev.Name), ev.Kind == "read" && !isDstName(ev.Name):
						case ev.Kind == "alloc" && !ev.L.isConst():
							if binSize(ev.Elem) == 16 {
								return // the directory
							}
						default:
							return
						}
						where := c.P.pos(ev.In)
						if !haveDir {
							if ev.Kind == "alloc" {
								c.ob("limit", k.loader+" "+ev.Kind, st.prove(addc(neg(ev.L), maxImageLen)), where, "memory may be allocated for an image before its length was checked")
							}
							return // the header or the directory
						}
						p := pathIdx(dir.Path, add(dir.Off, e.gint(st, "n")))
						et := typeAt(dir.Obj, p)
						if et == nil {
							et = dir.elem()
						}
						l, ok := leafAt(payloadLeaves(st, PtrV{dir.Obj, p}, et), 8, 4)
						c.ob("limit", k.loader+" "+ev.Kind, ok && st.prove(addc(neg(l), maxImageLen)), where, map[string]string{"seek": "the file may be moved", "read": "the file may be read", "alloc": "memory may be allocated"}[ev.Kind]+" for an image before its length was found to be at most 10 MB")
						if ev.Kind == "alloc" {
							c.ob("limit", k.loader+" size", st.prove(addc(neg(ev.L), maxImageLen)), where, "more than 10 MB may be allocated for an image")
						}
					})
				}, nil, func(e *Engine, outs []Outcome) {
					visited(e)
					c.ob("exits", k.loader, len(outs) > 2 && c.ruleCount("limit") >= 3, "", "no allocation, seek or read of an image seen")
				})
				for _, n := range []string{k.getter + "Translation"} {
					n := n
					c.entry(n, func() *ssa.Function { return c.meth("ResourceSet", n) }, func(e *Engine) {}, nil, func(e *Engine, outs []Outcome) { visited(e) })
				}
			}
			n := 0
			for _, f := range c.P.allFuncs() {
				eachInstr(f, func(in ssa.Instruction) {
					call, ok := in.(*ssa.Call)
					if !ok {
						return
					}
					b, ok := call.Call.Value.(*ssa.Builtin)
					if !ok || b.Name() != "append" {
						return
					}
					st, ok := call.Type().Underlying().(*types.Slice)
					if !ok || !isElem(st.Elem()) {
						return
					}
					n++
					if c.taskName == "" {
						c.assigned = append(c.assigned, [2]string{shortFn(f), c.P.pos(in)})
					}
				})
			}
			if c.taskName == "" {
				c.floor("places where images are added", n, 4)
			}
			c.final = func() {
				for _, a := range c.assigned {
					_, seen := c.obs["visited|"+a[0]]
					c.ob("covered", a[0], seen, a[1], "an image is added in a function that is not among the constructors, loaders and extractors")
				}
			}
		})
}
