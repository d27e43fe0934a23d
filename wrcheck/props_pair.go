package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C42: an icon or cursor image keeps its own description, hot spot and bytes.

// imageField gives the leaves of a field of the k-th image.
func imageField(st *State, imgs SliceV, k Lin, name string) ([]leafV, bool) {
	if imgs.Obj == nil {
		return nil, false
	}
	path := pathIdx(imgs.Path, add(imgs.Off, k))
	t := typeAt(imgs.Obj, path)
	i := fieldNamed(t, name)
	if i < 0 {
		return nil, false
	}
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	return payloadLeaves(st, st.load(imgs.Obj, pathField(path, i), ft), ft), true
}

func init() {
	register("C42", "Abstract interpretation of the writers and readers of icons and cursors, counting the entries emitted. Writers: at the n-th entry of a saved file or of a group, the encoded dimensions (their low byte, in files), planes, depth and hot spot are those recorded for the n-th image; each image resource stored is the n-th image's bytes, whole, for cursors behind that image's hot spot. Loaders: the n-th image takes its description and hot spot from the n-th entry of the file, and its bytes are as many as that entry announces, read from the start of a whole buffer at the position that entry gives. Readers: every image appended takes its description from the entry read last, and its bytes are those obtained from the set under that entry's identifier (behind the 4 bytes of the hot spot for cursors).",
		func(c *Ctx) {
			zero := IntV{K(0)}
			for _, k := range imageKinds {
				k := k
				hot := k.kind == 2
				same := func(st *State, a []leafV, off, size int64, want []leafV, woff, wsize int64) bool {
					x, ok1 := leafAt(a, off, size)
					y, ok2 := leafAt(want, woff, wsize)
					if !ok1 || !ok2 {
						return false
					}
					if size < wsize {
						y = mkMod(y, 1<<uint(8*size))
						x = mkMod(x, 1<<uint(8*size))
					}
					return eqL(st, x, y)
				}
				// compare all the leaves of the description but those left out
				whole := func(st *State, ls, info []leafV, from int64) bool {
					if len(info) == 0 {
						return false
					}
					for _, l := range info {
						if l.off < from && !same(st, ls, l.off, l.size, info, l.off, l.size) {
							return false
						}
					}
					return true
				}
				var owner Val
				c.entry(k.typ+"."+k.saver, func() *ssa.Function { return c.meth(k.typ, k.saver) }, func(e *Engine) {
					e.hints = append(e.hints, K(1<<32-1))
					e.init = map[string]Val{"entries": zero, "acc": zero}
					e.gmons = append(e.gmons, func(ev *Event) {
						if ev.Kind != "write" || !isDstName(ev.Name) || ev.Fail || !isStructT(ev.Elem) || !ev.L.isConst() || ev.L.c != 16 {
							return
						}
						st, where := ev.St, c.P.pos(ev.In)
						n, acc := e.gint(st, "entries"), e.gint(st, "acc")
						imgs, ok := c.imagesOf(st, owner)
						info, ok2 := imageField(st, imgs, n, "info")
						if !ok || !ok2 {
							c.ob("description", k.saver, false, where, "the list of images cannot be followed")
							return
						}
						ls := payloadLeaves(st, ev.Val, ev.Elem)
						if hot {
							spot, ok := imageField(st, imgs, n, "hotSpot")
							c.ob("description", k.saver, same(st, ls, 0, 1, info, 0, 2) && same(st, ls, 1, 1, info, 2, 2), where, "an entry may announce other dimensions than its image's")
							c.ob("hot-spot", k.saver, ok && same(st, ls, 4, 2, spot, 0, 2) && same(st, ls, 6, 2, spot, 2, 2), where, "an entry may carry another hot spot than its image's")
						} else {
							c.ob("description", k.saver, whole(st, ls, info, 8), where, "an entry may describe its image otherwise than recorded")
						}
						e.gset(st, "entries", IntV{addc(n, 1)})
						if length, ok := leafAt(ls, 8, 4); ok {
							e.gset(st, "acc", IntV{add(acc, length)})
						}
					})
				}, func(st *State, args []Val) { owner = args[0] }, func(e *Engine, outs []Outcome) {
					c.ob("exits", k.saver, len(outs) > 1 && c.ruleCount("description") > 0, "", "no entry seen")
				})
				for _, suffix := range []string{"", "Translation"} {
					name := k.setter + suffix
					var own Val
					c.entry("ResourceSet."+name, func() *ssa.Function { return c.meth("ResourceSet", name) }, func(e *Engine) {
						set := c.meth("ResourceSet", "set")
						if set == nil {
							return
						}
						e.init = map[string]Val{"entries": zero, "stored": zero, "spot": falseV, "body": falseV}
						e.gmons = append(e.gmons, func(ev *Event) {
							if ev.Kind != "bufwrite" {
								return
							}
							st, where := ev.St, c.P.pos(ev.In)
							imgs, ok := c.imagesOf(st, own)
							if isStructT(ev.Elem) && ev.L.isConst() && ev.L.c == 14 {
								n := e.gint(st, "entries")
								info, ok2 := imageField(st, imgs, n, "info")
								ls := payloadLeaves(st, ev.Val, ev.Elem)
								c.ob("description", name, ok && ok2 && whole(st, ls, info, 12), where, "an entry of the group may describe its image otherwise than recorded")
								e.gset(st, "entries", IntV{addc(n, 1)})
								return
							}
							if !hot || isStructT(ev.Elem) && ev.L.isConst() && ev.L.c == 6 {
								return
							}
							m := e.gint(st, "stored")
							if isStructT(ev.Elem) && ev.L.isConst() && ev.L.c == 4 {
								spot, ok2 := imageField(st, imgs, m, "hotSpot")
								ls := payloadLeaves(st, ev.Val, ev.Elem)
								_, _, s, ok3 := e.bufField(st, ev.Args[0])
								c.ob("hot-spot", name, ok && ok2 && ok3 && eqL(st, s.Len, K(4)) && same(st, ls, 0, 2, spot, 0, 2) && same(st, ls, 2, 2, spot, 2, 2), where, "the resource may start with another hot spot than its image's")
								e.gset(st, "spot", trueV)
								return
							}
							if x, isInt := ev.Val.(IntV); isInt && ev.L.isConst() && ev.L.c == 2 {
								// the coordinates, one after the other
								spot, ok2 := imageField(st, imgs, m, "hotSpot")
								_, _, s, ok3 := e.bufField(st, ev.Args[0])
								at := int64(0)
								if ok3 && eqL(st, s.Len, K(4)) {
									at = 2
								}
								y, ok4 := leafAt(spot, at, 2)
								c.ob("hot-spot", name, ok && ok2 && ok3 && ok4 && (at == 2 || eqL(st, s.Len, K(2))) && eqL(st, x.L, y), where, "the resource may start with another hot spot than its image's")
								e.gset(st, "spot", trueV)
								return
							}
							if v, isS := ev.Val.(SliceV); isS && v.Obj != nil && v.Len.isConst() && v.Len.c == 2 && ev.L.isConst() && ev.L.c == 4 {
								// the coordinates, as a table of two
								spot, ok2 := imageField(st, imgs, m, "hotSpot")
								good := ok && ok2
								for i := int64(0); i < 2; i++ {
									x, isInt := st.load(v.Obj, pathIdx(v.Path, addc(v.Off, i)), types.Typ[types.Uint16]).(IntV)
									y, ok3 := leafAt(spot, 2*i, 2)
									good = good && isInt && ok3 && eqL(st, x.L, y)
								}
								c.ob("hot-spot", name, good, where, "the resource may start with another hot spot than its image's")
								e.gset(st, "spot", trueV)
								return
							}
							img, ok2 := imageBytes(st, imgs, m)
							v, ok3 := ev.Val.(SliceV)
							c.ob("bytes", name, ok && ok2 && ok3 && sameBytes(st, v, img) && e.gflag(st, "spot"), where, "the resource may hold other bytes than its image's behind the hot spot")
							e.gset(st, "body", trueV)
						})
						c.imagesHaveData(e, k)
						around(e, set, func(fr *Frame, st *State, in ssa.Instruction, args []Val) {
							ty, ok := c.constID(args[1])
							if !ok || ty != k.rt {
								return
							}
							m := e.gint(st, "stored")
							imgs, ok1 := c.imagesOf(st, own)
							img, ok2 := imageBytes(st, imgs, m)
							data, ok3 := args[len(args)-1].(SliceV)
							if hot {
								c.ob("stored", name, ok1 && ok2 && ok3 && (e.gflag(st, "body") || freshCopy(e, st, data)) && eqL(st, data.Len, addc(img.Len, 4)), c.P.pos(in), "a cursor resource may not be the hot spot and the bytes of its image")
							} else {
								c.ob("stored", name, ok1 && ok2 && ok3 && (sameBytes(st, data, img) || freshCopy(e, st, data) && eqL(st, data.Len, img.Len)), c.P.pos(in), "an image resource may not be its image's bytes")
							}
							e.gset(st, "spot", falseV)
							e.gset(st, "body", falseV)
							e.gset(st, "stored", IntV{addc(m, 1)})
						}, nil)
					}, func(st *State, args []Val) { own = args[len(args)-1] }, func(e *Engine, outs []Outcome) {
						c.ob("exits", name, len(outs) > 1 && c.ruleCount("stored") > 0 && c.ruleCount("description") > 0, "", "no image seen being stored")
					})
				}
				c.entry(k.loader, func() *ssa.Function { return c.fn(k.loader) }, func(e *Engine) {
					e.init = map[string]Val{"n": zero, "dir": NilV{}, "at": IntV{K(-1)}, "from": IntV{K(-1)}, "fillObj": zero}
					e.gmons = append(e.gmons, func(ev *Event) {
						st := ev.St
						dv, _ := e.gget(st, "dir")
						dir, haveDir := dv.(SliceV)
						haveDir = haveDir && dir.Obj != nil
						switch {
						case ev.Kind == "filled" && !haveDir && isStructT(ev.Elem):
							if s, ok := ev.Val.(SliceV); ok && s.Obj != nil && binSize(s.elem()) == 16 {
								e.gset(st, "dir", s)
							}
							return
						case ev.Kind == "seek" && !isDstName(ev.Name) && !ev.Fail:
							e.gset(st, "at", IntV{ev.L})
							return
						case ev.Kind == "filled" && haveDir:
							s, ok := ev.Val.(SliceV)
							if ok && s.Obj != nil {
								e.gset(st, "from", IntV{e.gint(st, "at")})
								e.gset(st, "fillObj", IntV{K(int64(s.Obj.id))})
								c.ob("loader", k.loader+" whole", s.Off.isConst() && s.Off.c == 0, c.P.pos(ev.In), "the bytes of an image may not be read to its start")
							}
							e.gset(st, "at", IntV{K(-1)})
							return
						case ev.Kind == "append" && fieldNamed(ev.Elem, "image") >= 0 && fieldNamed(ev.Elem, "info") >= 0:
						default:
							return
						}
						where := c.P.pos(ev.In)
						n := e.gint(st, "n")
						e.gset(st, "n", IntV{addc(n, 1)})
						s, ok := ev.Args[1].(SliceV)
						if !haveDir || !ok || s.Obj == nil || !ev.L.isConst() || ev.L.c != 1 {
							c.ob("loader", k.loader, false, where, "what is appended, or the directory it comes from, cannot be followed")
							return
						}
						p := pathIdx(dir.Path, add(dir.Off, n))
						et := typeAt(dir.Obj, p)
						if et == nil {
							et = dir.elem()
						}
						ls := payloadLeaves(st, PtrV{dir.Obj, p}, et)
						info, _ := imageField(st, s, K(0), "info")
						if hot {
							for i := int64(0); i < 2; i++ {
								side, ok1 := leafAt(info, 2*i, 2)
								b, ok2 := leafAt(ls, i, 1)
								c.ob("loader", k.loader+" description", ok1 && ok2 && eqL(st, mkMod(side, 256), mkMod(b, 256)) && st.prove(addc(side, -1)) && st.prove(addc(neg(side), 256)), where, "an image may be given other dimensions than its entry's (0 stands for 256)")
							}
							spot, _ := imageField(st, s, K(0), "hotSpot")
							c.ob("loader", k.loader+" hot spot", same(st, spot, 0, 2, ls, 4, 2) && same(st, spot, 2, 2, ls, 6, 2), where, "an image may be given another hot spot than its entry's")
						} else {
							c.ob("loader", k.loader+" description", whole(st, ls, info, 12), where, "an image may be described otherwise than by its entry")
						}
						length, ok1 := leafAt(ls, 8, 4)
						off, ok2 := leafAt(ls, 12, 4)
						img, ok3 := imageBytes(st, s, K(0))
						c.ob("loader", k.loader+" bytes", ok1 && ok2 && ok3 && img.Obj != nil && eqL(st, img.Off, K(0)) && eqL(st, img.Len, length) &&
							(eqL(st, img.Len, K(0)) || eqL(st, e.gint(st, "fillObj"), K(int64(img.Obj.id))) && eqL(st, e.gint(st, "from"), off)), where, "an image may be given other bytes than those its entry points to")
						e.gset(st, "from", IntV{K(-1)})
					})
				}, nil, func(e *Engine, outs []Outcome) {
					c.ob("exits", k.loader, len(outs) > 2 && c.ruleCount("loader") > 0, "", "no image seen being loaded")
				})
				for _, suffix := range []string{"", "Translation"} {
					name := k.getter + suffix
					offs := []int64{0, 2, 4, 6, 8, 12}
					if !hot {
						offs = []int64{0, 1, 2, 3, 4, 6, 8, 12}
					}
					appended := 0
					c.entry("ResourceSet."+name, func() *ssa.Function { return c.meth("ResourceSet", name) }, func(e *Engine) {
						appended = 0
						e.init = map[string]Val{"read": falseV, "gotID": IntV{K(-1)}, "gotObj": zero, "gotOff": zero, "gotLen": zero}
						for _, o := range offs {
							e.init[fmt.Sprint("e", o)] = zero
						}
						if get := c.meth("ResourceSet", "Get"); get != nil {
							around(e, get, nil, func(fr *Frame, o Outcome, in ssa.Instruction, args []Val) {
								ty, ok := c.constID(args[1])
								if !ok || ty != k.rt {
									return
								}
								id, ok := c.idLin(args[2])
								s, ok2 := lastVal(o.ret).(SliceV)
								if !ok || !ok2 || s.Obj == nil {
									e.gset(o.st, "gotID", IntV{K(-1)})
									return
								}
								e.gset(o.st, "gotID", IntV{id})
								e.gset(o.st, "gotObj", IntV{K(int64(s.Obj.id))})
								e.gset(o.st, "gotOff", IntV{s.Off})
								e.gset(o.st, "gotLen", IntV{s.Len})
							})
						}
						e.gmons = append(e.gmons, func(ev *Event) {
							st := ev.St
							if ev.Kind == "filled" && isStructT(ev.Elem) && binSize(ev.Elem) == 14 {
								ls := payloadLeaves(st, ev.Val, ev.Elem)
								for _, l := range ls {
									if v, ok := l.v.(IntV); ok {
										e.gset(st, fmt.Sprint("e", l.off), v)
									}
								}
								e.gset(st, "gotID", IntV{K(-1)})
								e.gset(st, "read", trueV)
								return
							}
							if ev.Kind != "append" {
								return
							}
							n := namedStruct(ev.Elem)
							if n == nil || fieldNamed(ev.Elem, "image") < 0 || fieldNamed(ev.Elem, "info") < 0 {
								return
							}
							appended++
							where := c.P.pos(ev.In)
							s, ok := ev.Args[1].(SliceV)
							if !ok || s.Obj == nil || !ev.L.isConst() || ev.L.c != 1 {
								c.ob("reader", name, false, where, "what is appended cannot be followed")
								return
							}
							info, _ := imageField(st, s, K(0), "info")
							good := e.gflag(st, "read") && len(info) > 0
							for _, l := range info {
								v, ok := l.v.(IntV)
								good = good && ok && eqL(st, v.L, e.gint(st, fmt.Sprint("e", l.off)))
							}
							c.ob("reader", name+" description", good, where, "an image may be described otherwise than by the entry read for it")
							img, ok := imageBytes(st, s, K(0))
							d := int64(0)
							if hot {
								d = 4
							}
							c.ob("reader", name+" identifier", eqL(st, e.gint(st, "gotID"), e.gint(st, "e12")), where, "an image may be given the bytes stored under another identifier than its entry's")
							c.ob("reader", name+" bytes", ok && img.Obj != nil && eqL(st, e.gint(st, "gotObj"), K(int64(img.Obj.id))) &&
								eqL(st, img.Off, addc(e.gint(st, "gotOff"), d)) && eqL(st, img.Len, addc(e.gint(st, "gotLen"), -d)), where, "an image may be given other bytes than those stored for it")
							e.gset(st, "read", falseV)
						})
					}, nil, func(e *Engine, outs []Outcome) {
						c.ob("exits", name, appended > 0, "", "no image seen being added")
					})
				}
			}
		})
}

// sameBytes: the two slices are certainly the same bytes.
func sameBytes(st *State, a, b SliceV) bool {
	if eqL(st, a.Len, K(0)) && eqL(st, b.Len, K(0)) {
		return true
	}
	return a.Obj != nil && a.Obj == b.Obj && a.Path == b.Path && eqL(st, a.Off, b.Off) && eqL(st, a.Len, b.Len)
}

// freshCopy: the slice was allocated by the code analysed. What was copied to it is not followed, only its length is.
func freshCopy(e *Engine, st *State, s SliceV) bool {
	return s.Obj != nil && s.Obj.local && s.Obj.kind == "alloc" && eqL(st, s.Off, K(0))
}
