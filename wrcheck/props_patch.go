package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Patched executables: the checksum (C11), the header fields that may change (C12), the place of the data (C14).

// sumModels replaces the summing writer by a position, and its result by an arbitrary number.
func (c *Ctx) sumModels(e *Engine) bool {
	wr, sm := c.meth("peCheckSum", "Write"), c.meth("peCheckSum", "Sum")
	if wr == nil || sm == nil {
		return false
	}
	e.modular[wr] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		s, ok := args[1].(SliceV)
		if !ok {
			return nil
		}
		e.emit(&Event{Kind: "write", Fr: fr, St: st, In: in, Name: "sum", L: s.Len, Val: s, Args: []Val{IntV{e.gint(st, "pos:sum")}}})
		e.gset(st, "summing", trueV)
		e.gset(st, "pos:sum", IntV{add(e.gint(st, "pos:sum"), s.Len)})
		return []Outcome{{st, TupleV{IntV{s.Len}, NilV{}}}}
	}
	e.modular[sm] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		v := IntV{atomLin(sym(freshName("checksum"), p64(0), p64(1<<32-1)))}
		e.gset(st, "sumval", v)
		e.gset(st, "summed", trueV)
		return []Outcome{{st, v}}
	}
	return true
}

// headerKind tells which header structure a type is, by its size and first field.
func headerKind(t types.Type) string {
	if t == nil {
		return ""
	}
	switch {
	case isNamed(t, "debug/pe", "FileHeader"):
		return "file"
	case isNamed(t, "debug/pe", "DataDirectory"):
		return "dir"
	case isNamed(t, "debug/pe", "SectionHeader32"):
		return "section"
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 20 && binSize(s.Field(0).Type()) == 2 {
		switch binSize(t) {
		case 96:
			return "opt32"
		case 112:
			return "opt64"
		}
	}
	return ""
}

func isOpt(k string) bool { return strings.HasPrefix(k, "opt") }

const (
	optInitData = 8
	optSectAl   = 32
	optFileAl   = 36
	optImage    = 56
	optSum      = 64
)

// headerField is the header structure and the offset of the field in it that a store changes; off is -1 for the whole structure.
func headerField(o *Obj, path string, t types.Type) (kind string, off int64, parent string) {
	if k := headerKind(t); k != "" {
		return k, -1, path
	}
	es := pathTab[path]
	var at int64
	for n := len(es); n > 0; n-- {
		p := pathOf(es[:n-1])
		pt := typeAt(o, p)
		if pt == nil {
			return "", 0, ""
		}
		if es[n-1].field < 0 {
			return "", 0, ""
		}
		s, ok := pt.Underlying().(*types.Struct)
		if !ok || es[n-1].field >= s.NumFields() {
			return "", 0, ""
		}
		for i := 0; i < es[n-1].field; i++ {
			at += binSize(s.Field(i).Type())
		}
		if k := headerKind(pt); k != "" {
			return k, at, p
		}
	}
	return "", 0, ""
}

// passSite names a place by the calls leading to it from the function that is called for each pass.
func passSite(pass map[*ssa.Function]bool, fr *Frame, in ssa.Instruction) string {
	s := fmt.Sprintf("%p", in)
	for ; fr != nil; fr = fr.parent {
		s += "/" + shortFn(fr.fn)
		if pass[fr.fn] {
			break
		}
		s += fmt.Sprintf("%p", fr.call)
	}
	return s
}

// takesWriter: f is called with something to write to.
func takesWriter(f *ssa.Function) bool {
	for _, p := range f.Params {
		if s := typeStr(p.Type()); s == "io.Writer" || s == "io.WriteSeeker" || strings.HasSuffix(s, "peCheckSum") {
			return true
		}
	}
	return false
}

// passFuncs are the functions that write a whole file: they copy from the source and write headers, and call none that does both.
func (c *Ctx) passFuncs() map[*ssa.Function]bool {
	type eff struct{ cp, hd bool }
	memo := map[*ssa.Function]*eff{}
	callees := map[*ssa.Function][]*ssa.Function{}
	var visit func(f *ssa.Function) *eff
	visit = func(f *ssa.Function) *eff {
		if m := memo[f]; m != nil {
			return m
		}
		m := &eff{}
		memo[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok || cl.Common().StaticCallee() == nil {
					continue
				}
				g := cl.Common().StaticCallee()
				switch g.String() {
				case "io.CopyN", "io.Copy":
					m.cp = true
				case "encoding/binary.Write":
					m.hd = true
				}
				if c.P.inModule(g) {
					callees[f] = append(callees[f], g)
					k := visit(g)
					m.cp, m.hd = m.cp || k.cp, m.hd || k.hd
				}
			}
		}
		return m
	}
	out := map[*ssa.Function]bool{}
	for _, f := range c.P.allFuncs() {
		if m := visit(f); m.cp && m.hd && c.P.inModule(f) {
			out[f] = true
		}
	}
	for f := range out {
		for _, g := range callees[f] {
			if m := memo[g]; m.cp && m.hd && g != f {
				delete(out, f)
			}
		}
	}
	return out
}

func init() {
	register("C11", "Abstract interpretation of WriteToEXE, split on ForceCheckSum and on the original checksum being zero: the checksum field written is the result of a summing pass, or the constant zero when there was none; a summing pass is made exactly when it was forced or the original had a checksum; each piece summed and each piece written come from the same place in the code, with the same length, at the same position of the source and of the output, with no header or data changed in between but the checksum field, which is zero while summing.",
		func(c *Ctx) {
			type mode struct {
				name, opt string
				val       int64
				orig      int // 1: the original has a checksum, 0: it does not, -1: either
				sum       int // whether it must be summed
			}
			pass := c.passFuncs()
			c.floor("passes", len(pass), 1)
			for _, m := range []mode{{"forced", "ForceCheckSum", 0, -1, 1}, {"any option, original has one", "any", 0, 1, 1}, {"no option, original has none", "", 0, 0, 0}, {"signature removed, original has none", "WithAuthenticode", c.constInt("RemoveSignature"), 0, 0}} {
				m := m
				var summed []string
				c.patch(m.name, m.opt, m.val, func(e *Engine) {
					e.ghostKey = []string{"summing", "summed"}
					e.minMax = true
					e.noWrap64 = true
					zero := IntV{K(0)}
					e.init = map[string]Val{"summing": falseV, "summed": falseV, "gap": falseV, "pos:sum": zero, "sumval": zero, "optwritten": falseV}
					if !c.sumModels(e) {
						return
					}
					piece := func(ev *Event, sum bool, n, src Lin, copying bool) {
						st, where := ev.St, c.P.pos(ev.In)
						k := passSite(pass, ev.Fr, ev.In)
						k += ":" + headerKind(ev.Elem)
						if sum {
							e.gset(st, "pa:"+k, IntV{e.gint(st, "pos:sum")})
							e.gset(st, "kn:"+k, boolV(!e.gmay(st, "gap")))
							e.gset(st, "se:"+k, trueV)
							e.gset(st, "ln:"+k, IntV{n})
							e.gset(st, "sr:"+k, IntV{src})
							if !e.mute {
								summed = append(summed, k)
							}
							return
						}
						if !e.gmay(st, "summing") && !e.gmay(st, "summed") {
							return
						}
						at := e.gint(st, "pa:"+k)
						dbg("piece", where, at, e.gint(st, "pos:dst"), e.gint(st, "ln:"+k), n, e.gflag(st, "gap"))
						if e.gflag(st, "kn:"+k) {
							c.ob("same-place", c.site(ev.Fr, ev.In), eqL(st, st.pick(at), st.pick(e.gint(st, "pos:dst"))), where, "what is written here may have been summed at another position")
						}
						c.ob("same-pieces", c.site(ev.Fr, ev.In), e.gflag(st, "se:"+k) && e.gflag(st, "summed") && eqL(st, st.pick(e.gint(st, "ln:"+k)), st.pick(n)), where, "what is written here may not have been summed, with the same length")
						if copying {
							c.ob("same-source", c.site(ev.Fr, ev.In), eqL(st, e.gint(st, "sr:"+k), src), where, "what is copied here may not be what was summed")
						}
					}
					inPass := func(fr *Frame) bool {
						for ; fr != nil; fr = fr.parent {
							if pass[fr.fn] {
								return true
							}
						}
						return false
					}
					e.gmons = append(e.gmons, func(ev *Event) {
						st := ev.St
						switch ev.Kind {
						case "filled":
							if k := headerKind(ev.Elem); isOpt(k) && ev.Obj != nil {
								v, ok := leafAt(payloadLeaves(st, PtrV{ev.Obj, ev.Path}, ev.Elem), optSum, 4)
								c.ob("original", k, ok, c.P.pos(ev.In), "cannot see the checksum being read")
								if ok && m.orig == 1 {
									st.addFact(addc(v, -1))
								} else if ok && m.orig == 0 {
									st.assume(eqV(v))
								}
							}
						case "copyn":
							if isDstName(ifName(ev.Args[0])) {
								piece(ev, false, ev.L, e.gint(st, "pos:src"), true)
							} else if strings.HasPrefix(ifName(ev.Args[0]), "dyn:") {
								piece(ev, true, ev.L, e.gint(st, "pos:src"), true)
							}
						case "write":
							dst := isDstName(ev.Name)
							if ev.Fail || !dst && !strings.HasPrefix(ev.Name, "dyn:") && ev.Name != "sum" {
								return
							}
							if strings.HasPrefix(ev.Note, "io.Copy") {
								return
							}
							k := headerKind(ev.Elem)
							if isOpt(k) {
								v, ok := leafAt(payloadLeaves(st, ev.Val, ev.Elem), optSum, 4)
								if dst {
									want := K(0)
									if e.gflag(st, "summed") {
										want = e.gint(st, "sumval")
									}
									dbg("checksum", v, want)
									c.ob("written", k, ok && eqL(st, v, want), c.P.pos(ev.In), "the checksum written may be neither the computed one nor, without one, zero")
									e.gset(st, "optwritten", trueV)
								} else {
									c.ob("zero while summing", k, ok && v.isConst() && v.c == 0, c.P.pos(ev.In), "the checksum field may not be zero while it is computed")
								}
							}
							// runs of zeros: their lengths are compared where they are asked for
							if s, ok := ev.Val.(SliceV); ok && s.Obj != nil && k == "" && c.zeroArray(st, s) {
								if !dst {
									e.gset(st, "gap", trueV)
								}
								c.count("runs of zeros", 1)
								return
							}
							if s, ok := ev.Val.(SliceV); ok && s.Obj != nil && !dst && ev.Name == "sum" && strings.HasPrefix(s.Obj.name, "chunk") {
								return // seen already
							}
							piece(ev, !dst, ev.L, K(0), false)
						case "enter":
							if !c.P.inModule(ev.Fn) || !takesWriter(ev.Fn) || !inPass(ev.Fr) {
								return
							}
							k := passSite(pass, ev.Fr, ev.In)
							for i, a := range ev.Args {
								n, ok := a.(IntV)
								if !ok {
									continue
								}
								g := fmt.Sprintf("ar%d:%s", i, k)
								if !e.gmay(st, "summed") {
									e.gset(st, g, n)
								} else {
									p, ok := e.gget(st, g)
									pn, isInt := p.(IntV)
									c.ob("same-arguments", c.site(ev.Fr, ev.In), ok && isInt && eqL(st, st.pick(pn.L), st.pick(n.L)), c.P.pos(ev.In), "a length may not be what it was while summing")
								}
							}
						case "store":
							if ev.Obj == nil {
								return
							}
							if es := pathTab[ev.Path]; len(es) > 0 && es[len(es)-1].field >= 0 && isNamed(typeAt(ev.Obj, pathOf(es[:len(es)-1])), c.P.Root.Pkg.Path(), "peCheckSum") {
								v, ok := ev.Val.(IntV)
								c.ob("sum", c.site(ev.Fr, ev.In), ok && v.L.isConst() && v.L.c == 0, c.P.pos(ev.In), "the checksum may be changed by something else than the bytes written")
								return
							}
							if !e.gmay(st, "summing") {
								return
							}
							k, off, _ := headerField(ev.Obj, ev.Path, ev.Elem)
							if k != "" {
								c.ob("unchanged", c.site(ev.Fr, ev.In), isOpt(k) && off == optSum, c.P.pos(ev.In), "a header field other than the checksum may change after the headers were summed")
							} else if b, ok := ev.Elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !ev.Obj.local {
								c.ob("unchanged", c.site(ev.Fr, ev.In), false, c.P.pos(ev.In), "data may change after it was summed")
							}
						}
					})
				}, func(e *Engine, outs []Outcome) {
					n := 0
					for _, o := range outs {
						if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
							continue
						}
						n++
						c.ob("checksum field", m.name, e.gflag(o.st, "optwritten"), "", "a file may be written without its optional header being seen")
						if m.sum == 1 {
							c.ob("summed", m.name, e.gflag(o.st, "summed"), "", "the checksum may not be computed although it must be")
						} else {
							c.ob("summed", m.name, !e.gmay(o.st, "summed"), "", "a checksum may be set although there was none and none was asked for")
						}
					}
					c.ob("exits", m.name, n > 0 && (m.sum == 0 || len(summed) >= 6), "", fmt.Sprintf("%d successful exits, %d pieces summed", n, len(summed)))
				})
			}
		})
}

// zeroArray: the bytes of a slice of a local array are all zero.
func (c *Ctx) zeroArray(st *State, s SliceV) bool {
	if !s.Obj.local || !s.Obj.zero {
		return false
	}
	i := atomLin(sym(freshName("any"), p64(0), p64(255)))
	v, ok := st.load(s.Obj, pathIdx(s.Path, add(s.Off, i)), types.Typ[types.Uint8]).(IntV)
	return ok && v.L.isConst() && v.L.c == 0
}

// fieldOfAddr is the struct field an address denotes.
func fieldOfAddr(v ssa.Value) *types.Var {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return s.Field(fa.Field)
}

// allowedLeaves are the offsets of the fields of a header structure that may change.
var allowedLeaves = map[string]map[int64]bool{
	"file":  {2: true},
	"opt32": {optInitData: true, optImage: true, optSum: true},
	"opt64": {optInitData: true, optImage: true, optSum: true},
}

func init() {
	register("C12", "Abstract interpretation of WriteToEXE with any options: every field of the file header and of the optional header written is the symbol that was read, except the listed ones; the section count grows by as many headers as were appended; directories and section headers are written from the storage they were read into, at the position they were read from, and every store into that storage hits an allowed field, the name and sizes of a section only through a pointer proved to point at the resource section. The accessors of both optional header formats are interpreted on an arbitrary header: each reads or writes one field, the same in both, and the one it is named for.",
		func(c *Ctx) {
			ptrStores := map[*types.Var]bool{} // pointer fields to a section header: all their stores are proved
			c.patch("WriteToEXE", "any", 0, func(e *Engine) {
				e.noWrap64 = true
				e.ghostKey = []string{"appended", "found"}
				c.sumModels(e)
				e.init = map[string]Val{"appended": falseV, "found": falseV, "summing": falseV, "summed": falseV, "pos:sum": IntV{K(0)}, "sumval": IntV{K(0)}}
				secObj, dirObj := map[*Obj]bool{}, map[*Obj]bool{}
				appends := map[ssa.Instruction]bool{}
				isSec := func(o *Obj) bool {
					return o != nil && (secObj[o] || o.site != nil && appends[o.site] && o.name == "append")
				}
				bad := map[*types.Var]bool{}
				kinds := map[string]bool{}
				e.gmons = append(e.gmons, func(ev *Event) {
					st, where := ev.St, ""
					if ev.In != nil {
						where = c.P.pos(ev.In)
					}
					switch ev.Kind {
					case "filled":
						k := headerKind(ev.Elem)
						if s, ok := ev.Elem.Underlying().(*types.Slice); ok && k == "" {
							k = headerKind(s.Elem())
						}
						if k == "" || ev.Obj == nil {
							return
						}
						kinds[k] = true
						e.gset(st, "at:"+k, IntV{e.gint(st, "pos:src")})
						s, isSlice := ev.Val.(SliceV)
						switch {
						case k == "section" && isSlice:
							secObj[ev.Obj] = true
							e.gset(st, "n:section", IntV{s.Len})
						case k == "dir" && isSlice:
							dirObj[ev.Obj] = true
							e.gset(st, "n:dir", IntV{s.Len})
						default:
							for _, l := range payloadLeaves(st, PtrV{ev.Obj, ev.Path}, ev.Elem) {
								if i, ok := l.v.(IntV); ok {
									e.gset(st, fmt.Sprintf("%s:%d", k, l.off), IntV{i.L})
								}
							}
						}
					case "append":
						b, ok := ev.Args[0].(SliceV)
						if !ok || headerKind(ev.Elem) != "section" || !isSec(b.Obj) {
							return
						}
						ok = ev.L.isConst() && ev.L.c == 1 && !e.gmay(st, "appended") && eqL(st, b.Len, e.gint(st, "n:section"))
						c.ob("one new section", c.site(ev.Fr, ev.In), ok, where, "more than one section header may be added")
						appends[ev.In] = true
						e.gset(st, "appended", trueV)
					case "copy":
						if s, ok := ev.Args[0].(SliceV); ok && (isSec(s.Obj) || dirObj[s.Obj]) {
							c.ob("fields", c.site(ev.Fr, ev.In), false, where, "headers are overwritten as a whole")
						}
					case "store":
						if ev.Obj == nil {
							return
						}
						// a pointer to a section header is kept
						if p, ok := ev.Val.(PtrV); ok && isSec(p.Obj) && headerKind(typeAtElem(p.Obj, p.Path)) == "section" {
							x, isStore := ev.In.(*ssa.Store)
							var f *types.Var
							if isStore {
								f = fieldOfAddr(x.Addr)
							}
							if f == nil {
								return
							}
							guarded := false
							if p.Obj.site != nil && appends[p.Obj.site] && len(pathTab[p.Path]) == 1 && eqL(st, pathTab[p.Path][0].idx, e.gint(st, "n:section")) {
								guarded = true // the new one
							} else if va, ok := leafAt(payloadLeaves(st, p, typeAtElem(p.Obj, p.Path)), 12, 4); ok {
								for d := range dirObj {
									if w, ok := leafAt(payloadLeaves(st, PtrV{d, pathIdx("", K(2))}, d.typ), 0, 4); ok && eqL(st, va, w) {
										guarded = true
									}
								}
							}
							if guarded {
								e.gset(st, "found", trueV)
								if !bad[f] {
									ptrStores[f] = true
								}
							} else {
								bad[f] = true
								delete(ptrStores, f)
							}
							return
						}
						if _, isNil := ev.Val.(NilV); isNil {
							if x, ok := ev.In.(*ssa.Store); ok {
								if p, ok := x.Val.Type().Underlying().(*types.Pointer); ok && headerKind(p.Elem()) == "section" {
									e.gset(st, "found", falseV)
								}
							}
						}
						k, off, parent := headerField(ev.Obj, ev.Path, ev.Elem)
						es := pathTab[parent]
						if !isSec(ev.Obj) && !dirObj[ev.Obj] {
							if k != "section" && k != "dir" || ev.Obj.kind == "alloc" && !ev.Obj.arr {
								return // not one of the headers, or a new one being made
							}
							// reached through a pointer kept somewhere
							ok := k == "dir" && off == 0 || k == "section" && (off == 12 || off == 20 ||
								(off == 0 || off == 8 || off == 16) && c.viaSectionPtr(ev.In, func(f *types.Var) bool { return ptrStores[f] && !bad[f] }))
							c.ob("fields", c.site(ev.Fr, ev.In), ok, where, fmt.Sprintf("the field at offset %d of a header other than the resource section's may change", off))
							return
						}
						if k == "" || len(es) == 0 {
							c.ob("fields", c.site(ev.Fr, ev.In), false, where, "a part of the headers that is no field changes")
							return
						}
						i := es[len(es)-1].idx
						switch k {
						case "dir":
							ok := off == 0 || i.isConst() && (i.c == 2 || i.c == 4) && (off == 4 || off == -1)
							c.ob("fields", c.site(ev.Fr, ev.In), ok, where, "the size of a data directory other than the resources' and the certificate's may change")
						case "section":
							if off == 12 || off == 20 {
								c.ob("fields", c.site(ev.Fr, ev.In), true, where, "")
								return
							}
							ok := (off == 0 || off == 8 || off == 16) && c.viaSectionPtr(ev.In, func(f *types.Var) bool { return ptrStores[f] && !bad[f] })
							c.ob("fields", c.site(ev.Fr, ev.In), ok, where, fmt.Sprintf("field at offset %d of a section other than the resources' may change", off))
						}
					case "write":
						if !isDstName(ev.Name) || ev.Fail || ev.Elem == nil {
							return
						}
						k := headerKind(ev.Elem)
						if s, ok := ev.Elem.Underlying().(*types.Slice); ok && k == "" {
							k = headerKind(s.Elem())
						}
						if k == "" {
							return
						}
						at := ev.L
						if len(ev.Args) > 0 {
							if p, ok := ev.Args[0].(IntV); ok {
								at = p.L
							}
						}
						s, isSlice := ev.Val.(SliceV)
						switch {
						case k == "section" && isSlice:
							n := e.gint(st, "n:section")
							if e.gmay(st, "appended") {
								n = addc(n, 1)
							}
							c.ob("written", k, isSec(s.Obj) && s.Path == "" && eqL(st, s.Off, K(0)) && eqL(st, s.Len, n), where, "the section headers written may not be those that were read, followed by the new one")
							e.gset(st, "wrote:section", trueV)
						case k == "dir" && isSlice:
							c.ob("written", k, dirObj[s.Obj] && s.Path == "" && eqL(st, s.Off, K(0)) && eqL(st, s.Len, e.gint(st, "n:dir")), where, "the data directories written may not be those that were read")
							e.gset(st, "wrote:dir", trueV)
						case k == "dir" || k == "section":
							c.ob("written", k, false, where, "single headers are written")
						default:
							for _, l := range payloadLeaves(st, ev.Val, ev.Elem) {
								i, ok := l.v.(IntV)
								_, was := e.gget(st, fmt.Sprintf("%s:%d", k, l.off))
								old := e.gint(st, fmt.Sprintf("%s:%d", k, l.off))
								switch {
								case !allowedLeaves[k][l.off]:
									c.ob("unchanged", fmt.Sprintf("%s+%d", k, l.off), ok && was && eqL(st, i.L, old), where, "a field of the headers that should be kept may change")
								case k == "file":
									d := K(0)
									if e.gmay(st, "appended") {
										d = K(1)
									}
									c.ob("count", k, ok && was && eqL(st, i.L, add(old, d)), where, "the section count may not be that of the section headers written")
								}
							}
							e.gset(st, "wrote:"+strings.TrimRight(k, "3264"), trueV)
						}
						fileEnd := e.gint(st, "at:file")
						want := fileEnd
						switch k {
						case "file":
							want = addc(fileEnd, -20)
						case "dir":
							want = addc(fileEnd, 96)
							if _, is64 := e.gget(st, "opt64:0"); is64 {
								want = addc(fileEnd, 112)
							}
						case "section":
							want = sub(e.gint(st, "at:section"), scale(e.gint(st, "n:section"), 40))
						}
						dbg("at", k, at, want)
						c.ob("place", k, eqL(st, at, want), where, "these headers may be written at another place than they were read from")
					}
				})
			}, func(e *Engine, outs []Outcome) {
				n := 0
				for _, o := range outs {
					if o.st.truth(nilCond(lastVal(o.ret))) == 0 {
						continue
					}
					n++
					for _, k := range []string{"file", "opt", "dir", "section"} {
						c.ob("all headers", k, e.gflag(o.st, "wrote:"+k), "", "a file may be written without these headers")
					}
				}
				c.floor("successful exits", n, 1)
			})
			c.task("accessors", func() { c.accessors() })
		})
}

func typeAtElem(o *Obj, p string) types.Type { return typeAt(o, p) }

// viaSectionPtr: the address stored to is a field of a section header reached through good pointer fields only.
func (c *Ctx) viaSectionPtr(in ssa.Instruction, good func(*types.Var) bool) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	a := s.Addr
	for {
		if x, ok := a.(*ssa.IndexAddr); ok {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
				a = x.X
				continue
			}
			return false
		}
		x, ok := a.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		a = x.X
		if headerKind(a.Type().Underlying().(*types.Pointer).Elem()) == "section" {
			break
		}
	}
	n, all := 0, true
	ok = c.P.origins(a, map[ssa.Value]bool{}, func(v ssa.Value) {
		n++
		if u, isLoad := v.(*ssa.UnOp); isLoad {
			if f := fieldOfAddr(u.X); f != nil && good(f) {
				return
			}
		}
		all = false
	})
	return ok && all && n > 0
}

// accessors: the methods both optional header formats have.
func (c *Ctx) accessors() {
	byName := map[string]map[string]*ssa.Function{}
	hdr := map[string]types.Type{}
	for _, f := range c.P.allFuncs() {
		if !c.P.inModule(f) || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		p, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
		t := f.Signature.Recv().Type()
		if ok {
			t = p.Elem()
		}
		k := headerKind(t)
		if !isOpt(k) {
			continue
		}
		hdr[k] = t
		if byName[f.Name()] == nil {
			byName[f.Name()] = map[string]*ssa.Function{}
		}
		byName[f.Name()][k] = f
	}
	names := sortedKeys(byName)
	c.count("accessors", len(names))
	for _, name := range names {
		fs := byName[name]
		if len(fs) != 2 {
			c.ob("both formats", name, false, "", "only one of the two header formats has this accessor")
			continue
		}
		var got [2]string
		for i, k := range []string{"opt32", "opt64"} {
			got[i] = c.accessorEffect(fs[k], hdr[k], k)
		}
		where := c.P.posBlock(fs["opt32"].Blocks[0])
		c.ob("both formats", name, got[0] != "" && got[0] == got[1], where, fmt.Sprintf("32-bit headers: %q, 64-bit headers: %q", got[0], got[1]))
		low := strings.ToLower(name)
		s := hdr["opt32"].Underlying().(*types.Struct)
		best := ""
		for i := 0; i < s.NumFields(); i++ {
			if n := s.Field(i).Name(); strings.Contains(low, strings.ToLower(n)) && len(n) > len(best) {
				best = n
			}
		}
		if best != "" {
			for i := range got {
				c.ob("named field", name, strings.HasSuffix(got[i], " "+best), where, fmt.Sprintf("%s does: %q", name, got[i]))
			}
		}
	}
}

// accessorEffect says which field a method reads or writes; empty when it is neither.
func (c *Ctx) accessorEffect(f *ssa.Function, t types.Type, k string) string {
	e := c.engine()
	st, args := c.newEntry(e, f)
	p, ok := args[0].(PtrV)
	if !ok {
		return ""
	}
	s := t.Underlying().(*types.Struct)
	load := func(st *State) []Lin {
		var out []Lin
		for i := 0; i < s.NumFields(); i++ {
			v, _ := st.load(p.Obj, pathField(p.Path, i), s.Field(i).Type()).(IntV)
			out = append(out, v.L)
		}
		return out
	}
	st.setBool(nilAtom(p), false)
	before := load(st)
	res := ""
	outs := e.run(st, f, args)
	for n, o := range outs {
		var is []string
		after := load(o.st)
		for i := range after {
			if eqLin(before[i], after[i]) {
				continue
			}
			a, ok := args[len(args)-1].(IntV)
			if len(args) == 2 && ok && eqL(o.st, after[i], a.L) {
				is = append(is, "sets "+s.Field(i).Name())
			} else {
				is = append(is, "changes "+s.Field(i).Name())
			}
		}
		if v, ok := lastVal(o.ret).(IntV); ok && len(args) == 1 {
			for i := range before {
				if eqL(o.st, v.L, before[i]) {
					is = append(is, "gets "+s.Field(i).Name())
				}
			}
		}
		r := strings.Join(is, " and ")
		if n > 0 && r != res || len(is) != 1 || strings.HasPrefix(r, "changes") {
			return ""
		}
		res = r
	}
	return res
}
