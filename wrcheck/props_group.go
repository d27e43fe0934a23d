package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Icon and cursor files and groups: identifiers (C21), self-consistency (C28).

// leafV is one scalar of a fixed-size structure that is written or read.
type leafV struct {
	off, size int64
	v         Val
}

// payloadLeaves lists the scalars of the value handed to binary.Write or filled by binary.Read, with their encoded offsets.
func payloadLeaves(st *State, tgt Val, t types.Type) []leafV {
	if t == nil {
		return nil
	}
	if p, ok := tgt.(PtrV); ok {
		tgt = st.load(p.Obj, p.Path, t)
	}
	var out []leafV
	var walk func(v Val, t types.Type, off int64) int64
	walk = func(v Val, t types.Type, off int64) int64 {
		if s, ok := t.Underlying().(*types.Struct); ok {
			sv, _ := v.(StructV)
			for i := 0; i < s.NumFields(); i++ {
				var f Val
				if i < len(sv.F) {
					f = sv.F[i]
				}
				off = walk(f, s.Field(i).Type(), off)
			}
			return off
		}
		n := binSize(t)
		out = append(out, leafV{off, n, v})
		return off + n
	}
	walk(tgt, t, 0)
	return out
}

// leafAt is the integer encoded at an offset.
func leafAt(ls []leafV, off, size int64) (Lin, bool) {
	for _, l := range ls {
		if l.off == off && l.size == size {
			i, ok := l.v.(IntV)
			return i.L, ok
		}
	}
	return K(0), false
}

func isStructT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// around runs do before and after the body of f wherever it is called.
func around(e *Engine, f *ssa.Function, before func(fr *Frame, st *State, in ssa.Instruction, args []Val), after func(fr *Frame, o Outcome, in ssa.Instruction, args []Val)) {
	var m Model
	m = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		old := e.mute
		if before != nil {
			e.mute = e.quiet > 0
			before(fr, st, in, args)
			e.mute = old
		}
		delete(e.modular, f)
		outs := e.callFn(fr, st, in, f, args, nil)
		e.modular[f] = m
		for _, o := range outs {
			if after != nil {
				e.mute = e.quiet > 0
				after(fr, o, in, args)
				e.mute = old
			}
		}
		return outs
	}
	e.modular[f] = m
}

// imageKind describes icons or cursors.
type imageKind struct {
	name, typ, setter, getter, saver, loader, last string
	rt, group                                      int64
	kind                                           int64
}

var imageKinds = []imageKind{
	{"icon", "Icon", "SetIcon", "GetIcon", "SaveICO", "LoadICO", "lastIconID", 3, 14, 1},
	{"cursor", "Cursor", "SetCursor", "GetCursor", "SaveCUR", "LoadCUR", "lastCursorID", 1, 12, 2},
}

// constID gives the numeric identifier a value certainly is.
func (c *Ctx) constID(v Val) (int64, bool) {
	i, ok := v.(IfaceV)
	if !ok || !types.Identical(i.Dyn, c.identType("ID")) {
		return 0, false
	}
	n, ok := i.V.(IntV)
	if !ok || !n.L.isConst() {
		return 0, false
	}
	return n.L.c, true
}

func (c *Ctx) idLin(v Val) (Lin, bool) {
	i, ok := v.(IfaceV)
	if !ok || !types.Identical(i.Dyn, c.identType("ID")) {
		return K(0), false
	}
	n, ok := i.V.(IntV)
	return n.L, ok
}

// lastOf loads one of the counters of a set.
func (c *Ctx) lastOf(st *State, rs Val, field string) (Lin, bool) {
	p, ok := rs.(PtrV)
	if !ok {
		return K(0), false
	}
	i := fieldNamed(p.typ(), field)
	if i < 0 {
		c.ob("anchor", "ResourceSet."+field, false, "", "field "+field+" not found")
		return K(0), false
	}
	v, ok := st.load(p.Obj, pathField(p.Path, i), types.Typ[types.Uint16]).(IntV)
	return v.L, ok
}

func init() {
	register("C21", "Abstract interpretation of Set, SetIcon and SetCursor: Set leaves the set's highest image identifier at least as high as any identifier stored and never lowers it (relational facts at every exit and every assignment); at each image stored by SetIcon and SetCursor the identifier is provably above that mark at that moment and equal to the identifier written in the corresponding group entry; a refused image makes every exit return an error.",
		func(c *Ctx) {
			visited := func(e *Engine) {
				for f := range e.funcs {
					c.ob("visited", shortFn(f), true, "", "")
				}
			}
			monotone := func(e *Engine) {
				e.gmons = append(e.gmons, func(ev *Event) {
					if ev.Kind != "store" {
						return
					}
					for _, k := range imageKinds {
						t := typeAt(ev.Obj, ev.Path)
						if t == nil {
							continue
						}
						if n := namedStruct(t); n != nil && n.Name() == "ResourceSet" && ev.Obj.kind == "sym" {
							c.ob("monotone", c.site(ev.Fr, ev.In), false, c.P.pos(ev.In), "the whole set is overwritten")
						}
						_, st, named, idx, ok := fieldOf(ev.Obj, ev.Path)
						if !ok || st.Field(idx).Name() != k.last {
							continue
						}
						if n := namedStruct(named); n == nil || n.Name() != "ResourceSet" {
							continue
						}
						old, _ := ev.St.load(ev.Obj, ev.Path, ev.Elem).(IntV)
						nv, ok := ev.Val.(IntV)
						c.ob("monotone", c.site(ev.Fr, ev.In), ok && ev.St.prove(sub(nv.L, old.L)), c.P.pos(ev.In), k.last+" may become lower than an identifier already used")
					}
				})
			}
			c.task("Set anything", func() {
				e := c.engine()
				c.containers(e)
				monotone(e)
				if f := c.meth("ResourceSet", "Set"); f != nil {
					outs := c.runEntry(e, f, nil)
					c.ob("exits", "Set anything", len(outs) > 1, "", "no exit seen")
					visited(e)
				}
				c.finish(e)
			})
			for _, k := range imageKinds {
				k := k
				// Set of an image with a number: the mark covers it
				var id, before Lin
				c.task("Set "+k.name, func() {
					e := c.engine()
					c.containers(e)
					monotone(e)
					f := c.meth("ResourceSet", "Set")
					if f == nil {
						return
					}
					var rs Val
					outs := c.runEntry(e, f, func(st *State, args []Val) {
						idT := c.identType("ID")
						rs = args[0]
						v := symVal("arg:theID", idT)
						id = v.(IntV).L
						args[1], args[2] = IfaceV{idT, IntV{K(k.rt)}}, IfaceV{idT, v}
						if d, ok := args[len(args)-1].(SliceV); ok {
							st.setBool(nilAtom(d), false)
						}
						before, _ = c.lastOf(st, rs, k.last)
					})
					n := 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							continue
						}
						n++
						last, ok := c.lastOf(o.st, rs, k.last)
						c.ob("mark", "Set "+k.name, ok && o.st.prove(sub(last, id)), c.posFn(f), "after storing an "+k.name+" image, "+k.last+" may be lower than its identifier")
						c.ob("mark", "Set "+k.name+" keeps", ok && o.st.prove(sub(last, before)), c.posFn(f), k.last+" may have been lowered")
					}
					c.ob("exits", "Set "+k.name, n > 0, "", "no successful exit seen")
					visited(e)
					c.finish(e)
				})
				// the images of one icon
				for _, suffix := range []string{"", "Translation"} {
					name := k.setter + suffix
					c.entry("ResourceSet."+name, func() *ssa.Function { return c.meth("ResourceSet", name) }, func(e *Engine) {
						monotone(e)
						set := c.meth("ResourceSet", "set")
						if set == nil {
							return
						}
						e.init = map[string]Val{"pendSet": falseV, "pendGroup": falseV, "setID": IntV{K(0)}, "groupID": IntV{K(0)}, "refused": falseV}
						e.gmons = append(e.gmons, func(ev *Event) {
							if ev.Kind != "bufwrite" || !isStructT(ev.Elem) || !ev.L.isConst() || ev.L.c != 14 {
								return
							}
							v, ok := leafAt(payloadLeaves(ev.St, ev.Val, ev.Elem), 12, 2)
							key := c.site(ev.Fr, ev.In)
							if !ok {
								c.ob("group-entry", key, false, c.P.pos(ev.In), "the identifier of a group entry cannot be followed")
								return
							}
							if e.gflag(ev.St, "pendSet") {
								c.ob("group-id", key, ev.St.prove(sub(v, e.gint(ev.St, "setID"))) && ev.St.prove(sub(e.gint(ev.St, "setID"), v)), c.P.pos(ev.In), "the group entry may carry another identifier than the image stored for it")
								e.gset(ev.St, "pendSet", falseV)
								return
							}
							c.ob("group-entry", key, !e.gmay(ev.St, "pendGroup"), c.P.pos(ev.In), "two group entries may be written for one image stored")
							e.gset(ev.St, "groupID", IntV{v})
							e.gset(ev.St, "pendGroup", trueV)
						})
						around(e, set, func(fr *Frame, st *State, in ssa.Instruction, args []Val) {
							ty, ok := c.constID(args[1])
							if !ok {
								c.ob("image-type", c.site(fr, in), false, c.P.pos(in), "resource of an unknown type stored")
								return
							}
							switch ty {
							case k.rt:
								id, ok := c.idLin(args[2])
								last, ok2 := c.lastOf(st, args[0], k.last)
								c.ob("fresh-id", name, ok && ok2 && st.prove(addc(sub(id, last), -1)), c.P.pos(in), "the identifier given to an image may already be in use")
								if e.gflag(st, "pendGroup") {
									g := e.gint(st, "groupID")
									c.ob("group-id", name, st.prove(sub(id, g)) && st.prove(sub(g, id)), c.P.pos(in), "the image may be stored under another identifier than its group entry's")
									e.gset(st, "pendGroup", falseV)
									return
								}
								c.ob("group-entry", name, !e.gmay(st, "pendSet"), c.P.pos(in), "two images may be stored for one group entry")
								e.gset(st, "setID", IntV{id})
								e.gset(st, "pendSet", trueV)
							case k.group:
								c.ob("group-complete", name, !e.gmay(st, "pendSet") && !e.gmay(st, "pendGroup"), c.P.pos(in), "the group may be stored with an entry too many or too few")
							default:
								c.ob("image-type", c.site(fr, in), false, c.P.pos(in), fmt.Sprintf("resource of unexpected type %d stored", ty))
							}
						}, nil)
						if pub := c.meth("ResourceSet", "Set"); pub != nil {
							around(e, pub, nil, func(fr *Frame, o Outcome, in ssa.Instruction, args []Val) {
								if o.st.truth(nilCond(lastVal(o.ret))) != 1 {
									e.gset(o.st, "refused", trueV)
								}
							})
						}
					}, nil, func(e *Engine, outs []Outcome) {
						visited(e)
						n, ok := 0, 0
						for _, o := range outs {
							if e.gmay(o.st, "refused") {
								n++
								c.ob("reported", name, o.st.truth(nilCond(lastVal(o.ret))) == 0, "", name+" may succeed although an image was refused")
							} else {
								ok++
							}
						}
						c.ob("exits", name, n > 0 && ok > 0, "", fmt.Sprintf("%d exits after a refusal and %d without: both are expected", n, ok))
						c.ob("images", name, c.ruleCount("fresh-id") > 0 && c.ruleCount("group-id") > 0 && c.ruleCount("group-complete") > 0, "", "no image or group was seen being stored")
					})
				}
			}
			// nothing else moves the marks: every function that takes the address of one otherwise than to read it was followed
			n := 0
			for _, f := range c.P.allFuncs() {
				eachInstr(f, func(in ssa.Instruction) {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						return
					}
					tn := namedStruct(fa.X.Type())
					if tn == nil || tn.Name() != "ResourceSet" {
						return
					}
					fn := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
					if fn != "lastIconID" && fn != "lastCursorID" {
						return
					}
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.X == fa {
							continue
						}
						n++
						c.assigned = append(c.assigned, [2]string{shortFn(f), c.P.pos(in)})
					}
				})
			}
			if c.taskName == "" {
				c.floor("places that may change a mark", n, 2)
			}
			c.final = func() {
				for _, a := range c.assigned {
					_, seen := c.obs["visited|"+a[0]]
					c.ob("covered", a[0], seen, a[1], "a mark may change here, and the analysis of Set, SetIcon and SetCursor does not reach this function")
				}
			}
		})
}

func dbg(a ...interface{}) {
	if os.Getenv("WR_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, a...)
	}
}

// unmod drops a truncation that provably loses nothing.
func unmod(st *State, l Lin) Lin {
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 0 && l.t[0].a.op == "mod" {
		x, m := l.t[0].a.args[0], l.t[0].a.c
		if st.prove(x) && st.prove(addc(neg(x), m-1)) {
			return x
		}
	}
	return l
}

func eqL(st *State, a, b Lin) bool {
	if st.prove(sub(a, b)) && st.prove(sub(b, a)) {
		return true
	}
	x, y := unmod(st, a), unmod(st, b)
	return st.prove(sub(x, y)) && st.prove(sub(y, x))
}

// imagesOf gives the slice of images an icon or cursor holds, and the path of the bytes in one image.
func (c *Ctx) imagesOf(st *State, owner Val) (SliceV, bool) {
	p, ok := owner.(PtrV)
	if !ok {
		return SliceV{}, false
	}
	i := fieldNamed(p.typ(), "images")
	if i < 0 {
		c.ob("anchor", typeStr(p.typ())+".images", false, "", "field images not found")
		return SliceV{}, false
	}
	s, ok := st.load(p.Obj, pathField(p.Path, i), p.typ().Underlying().(*types.Struct).Field(i).Type()).(SliceV)
	return s, ok
}

// imageBytes is the field image of the k-th image.
func imageBytes(st *State, imgs SliceV, k Lin) (SliceV, bool) {
	if imgs.Obj == nil {
		return SliceV{}, false
	}
	path := pathIdx(imgs.Path, add(imgs.Off, k))
	t := typeAt(imgs.Obj, path)
	i := fieldNamed(t, "image")
	if i < 0 {
		return SliceV{}, false
	}
	s, ok := st.load(imgs.Obj, pathField(path, i), types.NewSlice(types.Typ[types.Byte])).(SliceV)
	return s, ok
}

// imagesHaveData: Set with nil data deletes, and stores nothing.
func (c *Ctx) imagesHaveData(e *Engine, k imageKind) {
	c.assumption("an icon or cursor made by the constructors holds no image without data (a nil image would be skipped by Set)")
	if pub := c.meth("ResourceSet", "Set"); pub != nil {
		around(e, pub, func(fr *Frame, st *State, in ssa.Instruction, args []Val) {
			if ty, ok := c.constID(args[1]); ok && ty == k.rt {
				if at := nilAtom(args[len(args)-1]); at != "" {
					st.setBool(at, false)
				}
			}
		}, nil)
	}
}

func init() {
	register("C28", "Abstract interpretation of the four writers and six readers of icons and cursors. Writers: the header's type and reserved field are the kind's constants, its count equals, at every successful exit (at the storing of the group, for resources), the number of entries emitted; in a saved file the offset of each entry equals header plus entries plus the lengths announced so far, the length is that of the image at the same index, and the bytes written afterwards are those images in the same order, as many as announced. Readers: at every exit without an error the type and reserved field read first are the kind's.",
		func(c *Ctx) {
			zero := IntV{K(0)}
			for _, k := range imageKinds {
				k := k
				header := func(ev *Event, what string) (Lin, bool) {
					ls := payloadLeaves(ev.St, ev.Val, ev.Elem)
					res, ok0 := leafAt(ls, 0, 2)
					ty, ok1 := leafAt(ls, 2, 2)
					n, ok2 := leafAt(ls, 4, 2)
					c.ob("kind", what, ok0 && ok1 && ok2 && res.isConst() && res.c == 0 && ty.isConst() && ty.c == k.kind, c.P.pos(ev.In), fmt.Sprintf("the header must announce reserved 0 and type %d", k.kind))
					return n, ok0 && ok1 && ok2
				}
				var owner Val
				c.entry(k.typ+"."+k.saver, func() *ssa.Function { return c.meth(k.typ, k.saver) }, func(e *Engine) {
					e.hints = append(e.hints, K(1<<32-1))
					e.init = map[string]Val{"hdr": falseV, "count": zero, "entries": zero, "acc": zero, "imgs": zero}
					e.gmons = append(e.gmons, func(ev *Event) {
						st, where := ev.St, ""
						if ev.In != nil {
							where = c.P.pos(ev.In)
						}
						if ev.Kind == "permute" || ev.Kind == "store" {
							if imgs, ok := c.imagesOf(st, owner); ok && imgs.Obj == ev.Obj && imgs.Obj != nil {
								n := e.gint(st, "entries")
								c.ob("same-order", k.saver, n.isConst() && n.c == 0, where, "the images may be changed or put in another order after an entry was written")
							}
							return
						}
						if ev.Kind != "write" || !isDstName(ev.Name) || ev.Fail {
							return
						}
						sawHdr := e.gflag(st, "hdr")
						if !sawHdr {
							c.ob("order", k.saver+" header", !e.gmay(st, "hdr") && isStructT(ev.Elem) && ev.L.isConst() && ev.L.c == 6, where, "the first bytes written must be the 6-byte header")
							n, ok := header(ev, k.saver)
							if ok {
								e.gset(st, "count", IntV{n})
							}
							e.gset(st, "hdr", trueV)
							return
						}
						n, count, acc := e.gint(st, "entries"), e.gint(st, "count"), e.gint(st, "acc")
						imgs, ok := c.imagesOf(st, owner)
						if !ok {
							c.ob("entry-length", k.saver, false, where, "the list of images cannot be followed")
							return
						}
						if isStructT(ev.Elem) && ev.L.isConst() && ev.L.c == 16 {
							ls := payloadLeaves(st, ev.Val, ev.Elem)
							length, ok1 := leafAt(ls, 8, 4)
							off, ok2 := leafAt(ls, 12, 4)
							img, ok3 := imageBytes(st, imgs, n)
							if !ok1 || !ok2 || !ok3 {
								c.ob("entry-length", k.saver, false, where, "the fields of the entry cannot be followed")
								return
							}
							dbg("entry", n, length, img.Len, off, count, acc)
							c.ob("entry-length", k.saver, eqL(st, length, img.Len), where, "an entry may announce another length than its image has")
							c.ob("entry-offset", k.saver, eqL(st, off, add(addc(scale(count, 16), 6), acc)), where, "an entry may announce another offset than the one its image is written at")
							c.ob("order", k.saver+" entries", e.gint(st, "imgs").isConst() && e.gint(st, "imgs").c == 0, where, "an entry may be written after an image")
							e.gset(st, "entries", IntV{addc(n, 1)})
							e.gset(st, "acc", IntV{add(acc, length)})
							return
						}
						m := e.gint(st, "imgs")
						img, ok := imageBytes(st, imgs, m)
						v, ok2 := ev.Val.(SliceV)
						same := ok && ok2 && v.Obj == img.Obj && v.Path == img.Path && eqL(st, v.Off, img.Off) && eqL(st, ev.L, img.Len)
						if !same && ok && eqL(st, img.Len, K(0)) && eqL(st, ev.L, K(0)) {
							same = true
						}
						c.ob("image-bytes", k.saver, same, where, "what is written here may not be the next image, whole")
						c.ob("order", k.saver+" images", eqL(st, n, count), where, "an image may be written before the last entry")
						e.gset(st, "imgs", IntV{addc(m, 1)})
					})
				}, func(st *State, args []Val) { owner = args[0] }, func(e *Engine, outs []Outcome) {
					ok := 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							continue
						}
						ok++
						count := e.gint(o.st, "count")
						c.ob("count", k.saver, e.gflag(o.st, "hdr") && eqL(o.st, count, e.gint(o.st, "entries")), "", "the file may announce another number of images than the entries it has")
						c.ob("count", k.saver+" images", eqL(o.st, count, e.gint(o.st, "imgs")), "", "the file may announce another number of images than it holds")
					}
					c.ob("exits", k.saver, ok > 0 && c.ruleCount("entry-offset") > 0 && c.ruleCount("image-bytes") > 0, "", "no successful exit, entry or image seen")
				})
				for _, suffix := range []string{"", "Translation"} {
					name := k.setter + suffix
					c.entry("ResourceSet."+name, func() *ssa.Function { return c.meth("ResourceSet", name) }, func(e *Engine) {
						set := c.meth("ResourceSet", "set")
						if set == nil {
							return
						}
						e.init = map[string]Val{"hdr": falseV, "count": zero, "entries": zero}
						e.gmons = append(e.gmons, func(ev *Event) {
							if ev.Kind != "bufwrite" || !isStructT(ev.Elem) || !ev.L.isConst() || ev.L.c != 6 && ev.L.c != 14 {
								return
							}
							where := c.P.pos(ev.In)
							_, _, s, ok := e.bufField(ev.St, ev.Args[0])
							n := e.gint(ev.St, "entries")
							if ev.L.c == 6 {
								c.ob("order", name+" header", ok && eqL(ev.St, s.Len, K(6)), where, "the header may not be the first thing in the group")
								if cnt, ok := header(ev, name); ok {
									e.gset(ev.St, "count", IntV{cnt})
								}
								e.gset(ev.St, "hdr", trueV)
								return
							}
							e.gset(ev.St, "entries", IntV{addc(n, 1)})
						})
						c.imagesHaveData(e, k)
						around(e, set, func(fr *Frame, st *State, in ssa.Instruction, args []Val) {
							ty, ok := c.constID(args[1])
							if !ok || ty != k.group {
								return
							}
							n, count := e.gint(st, "entries"), e.gint(st, "count")
							data, ok := args[len(args)-1].(SliceV)
							c.ob("count", name, ok && e.gflag(st, "hdr") && eqL(st, n, count), c.P.pos(in), "the group may announce another number of images than the entries it has")
							dbg("group", n, count, data.Len)
							c.ob("size", name, ok && eqL(st, data.Len, addc(scale(n, 14), 6)), c.P.pos(in), "the group stored is not exactly a header and its entries")
						}, nil)
					}, nil, func(e *Engine, outs []Outcome) {
						c.ob("exits", name, len(outs) > 1 && c.ruleCount("size") > 0, "", "no group seen being stored")
					})
				}
				for _, x := range [][2]string{{"", k.loader}, {"ResourceSet", k.getter}, {"ResourceSet", k.getter + "Translation"}} {
					x := x
					c.entry("reader "+x[1], func() *ssa.Function {
						if x[0] == "" {
							return c.fn(x[1])
						}
						return c.meth(x[0], x[1])
					}, func(e *Engine) {
						e.init = map[string]Val{"hdr": falseV, "type": IntV{K(-1)}, "res": IntV{K(-1)}}
						e.gmons = append(e.gmons, func(ev *Event) {
							if ev.Kind != "filled" || e.gflag(ev.St, "hdr") {
								return
							}
							v := ev.Val
							if s, ok := v.(SliceV); ok {
								_ = s
								c.ob("header", x[1], false, c.P.pos(ev.In), "the first bytes read are not a fixed structure")
								return
							}
							ls := payloadLeaves(ev.St, v, ev.Elem)
							res, ok0 := leafAt(ls, 0, 2)
							ty, ok1 := leafAt(ls, 2, 2)
							c.ob("header", x[1], ok0 && ok1 && !e.gmay(ev.St, "hdr"), c.P.pos(ev.In), "the first bytes read must be the 6-byte header")
							e.gset(ev.St, "type", IntV{ty})
							e.gset(ev.St, "res", IntV{res})
							e.gset(ev.St, "hdr", trueV)
						})
					}, nil, func(e *Engine, outs []Outcome) {
						ok := 0
						for _, o := range outs {
							if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
								continue
							}
							ok++
							c.ob("own-kind", x[1], e.gflag(o.st, "hdr") && eqL(o.st, e.gint(o.st, "type"), K(k.kind)) && eqL(o.st, e.gint(o.st, "res"), K(0)), "", fmt.Sprintf("a header whose type is not %d, or whose reserved field is not 0, may be accepted", k.kind))
						}
						c.ob("exits", x[1], ok > 0, "", "no successful exit seen")
					})
				}
			}
		})
}
