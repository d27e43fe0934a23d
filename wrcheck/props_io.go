package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// I/O fault propagation, value/error discipline and signature handling: properties of the exits of the public entry points.

func lastVal(v Val) Val {
	if tv, ok := v.(TupleV); ok {
		if len(tv) == 0 {
			return nil
		}
		return tv[len(tv)-1]
	}
	return v
}

func firstVal(v Val) Val {
	if tv, ok := v.(TupleV); ok && len(tv) > 0 {
		return tv[0]
	}
	return v
}

// mayBe tells whether a ghost flag may be set.
func (e *Engine) gmay(st *State, name string) bool {
	v, ok := e.gget(st, name)
	if !ok {
		return false
	}
	if b, ok := v.(BoolV); ok && b.op == "const" {
		return b.B
	}
	return true
}

func (e *Engine) gstr(st *State, name string) string {
	v, ok := e.gget(st, name)
	if !ok {
		return ""
	}
	if s, ok := v.(StrV); ok && s.Const {
		return s.S
	}
	return "(one of several places)"
}

// faultSites remembers where the fault was injected, for the report.
func (c *Ctx) faultSites(e *Engine, write bool) {
	e.mons = append(e.mons, func(ev *Event) {
		isW := ev.Kind == "write" || ev.Kind == "seek" && isDstName(ev.Name)
		isR := ev.Kind == "read" || ev.Kind == "seek" && !isDstName(ev.Name) || ev.Kind == "shortread" || ev.Kind == "readall"
		if write && isW || !write && isR {
			if ev.Fail {
				c.count("faults injected", 1)
				e.gset(ev.St, "faultAt", StrV{Const: true, S: c.P.pos(ev.In) + " " + c.srcText(ev.In)})
			}
			c.ob("io-site", c.site(ev.Fr, ev.In), true, c.P.pos(ev.In), "")
		}
	})
}

func isDstName(n string) bool { return len(n) >= 3 && n[:3] == "dst" }

// faultReported: every exit reached after a fault returns an error that is provably not nil.
func (c *Ctx) faultReported(entry, ghost, what string) func(e *Engine, outs []Outcome) {
	return func(e *Engine, outs []Outcome) {
		faulty, clean := 0, 0
		for _, o := range outs {
			if !e.gmay(o.st, ghost) {
				clean++
				continue
			}
			faulty++
			err := lastVal(o.ret)
			ok := err != nil && o.st.truth(nilCond(err)) == 0
			c.ob("fault-reported", entry, ok, e.gstr(o.st, "faultAt"), what+" at "+e.gstr(o.st, "faultAt")+" can be followed by a nil error returned by "+entry)
		}
		c.count("exits after a fault", faulty)
		c.ob("fault-exits", entry, faulty > 0 && clean > 0, "", fmt.Sprintf("%s: %d exits after a fault and %d without one: the analysis no longer sees both", entry, faulty, clean))
	}
}

// secondRead models io.Reader.Read for C07: a short count is not an error, so a caller who does not come back for the rest works
// with missing data.
func shortReads(e *Engine) {
	orig := e.models["invoke io.Reader.Read"]
	f := func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if iv, ok := args[0].(IfaceV); ok && isPtrTo(iv.Dyn, "bytes.Reader") {
			return orig(e, fr, st, in, args, sig)
		}
		n := e.lenOf(st, args[1])
		var out []Outcome
		for _, o := range orig(e, fr, st, in, args, sig) {
			tv, ok := o.ret.(TupleV)
			if !ok || o.st.truth(nilCond(tv[1])) != 1 {
				out = append(out, o)
				continue
			}
			k, _ := tv[0].(IntV)
			s2 := o.st.clone()
			o.st.assume(eqV(sub(n, k.L)))
			if !o.st.dead {
				e.gset(o.st, "rshort", falseV)
				out = append(out, o)
			}
			s2.assume(geV(addc(sub(n, k.L), -1)))
			if !s2.dead {
				e.gset(s2, "rshort", trueV)
				e.gset(s2, "faultAt", StrV{Const: true, S: e.P.pos(in) + " (short read)"})
				out = append(out, Outcome{s2, o.ret})
			}
		}
		return out
	}
	e.models["invoke io.Reader.Read"] = f
	e.models["invoke io.ReadSeeker.Read"] = f
}

// memReads makes a read that goes past the end of a memory reader count as missing input.
func memReads(e *Engine) {
	e.memFault = true
}

func isErrNoResources(e *Engine, st *State, v Val) int {
	return st.truth(e.equal(st, v, IfaceSym{Name: "global:github.com/tc-hib/winres.ErrNoResources", T: errorT, Uniq: true}))
}

// valueOrError: at every exit exactly one of value and error is nil.
func (c *Ctx) valueOrError(entry string) func(e *Engine, outs []Outcome) {
	return func(e *Engine, outs []Outcome) {
		good, bad := 0, 0
		for _, o := range outs {
			tv, ok := o.ret.(TupleV)
			if !ok || len(tv) < 2 {
				continue
			}
			v, err := tv[0], tv[len(tv)-1]
			vn, en := nilCond(v), nilCond(err)
			// split on whatever is still open, so that correlated answers are accepted
			for _, s := range split2(o.st, en) {
				if s.truth(en) == 1 {
					good++
					c.ob("value-on-success", entry, s.truth(vn) == 0, "", entry+" may return a nil value without an error")
					continue
				}
				bad++
				switch isErrNoResources(e, s, err) {
				case 1:
					c.ob("usable-set-without-resources", entry, s.truth(vn) == 0, "", entry+" returns ErrNoResources with a nil set")
				case 0:
					c.ob("nil-on-error", entry, s.truth(vn) == 1, "", entry+" may return a non-nil value together with an error")
				default:
					for _, s2 := range split2(s, e.equal(s, err, IfaceSym{Name: "global:github.com/tc-hib/winres.ErrNoResources", T: errorT, Uniq: true})) {
						if isErrNoResources(e, s2, err) == 1 {
							continue // cannot tell: accepted only when every other exit is decided
						}
						c.ob("nil-on-error", entry, s2.truth(vn) == 1, "", entry+" may return a non-nil value together with an error")
					}
				}
			}
		}
		c.count("success exits", good)
		c.count("error exits", bad)
		c.ob("exits", entry, good > 0 && bad > 0, "", fmt.Sprintf("%s: %d success exits, %d error exits", entry, good, bad))
	}
}

func split2(st *State, b BoolV) []*State {
	if st.truth(b) >= 0 {
		return []*State{st}
	}
	a, d := st.clone(), st.clone()
	a.assume(b)
	d.assume(notV(b))
	var out []*State
	for _, s := range []*State{a, d} {
		if !s.dead {
			out = append(out, s)
		}
	}
	return out
}

const secEntry = 4 // IMAGE_DIRECTORY_ENTRY_SECURITY

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// onDirs calls f when the data directories have just been read, with the address and size of the certificate entry.
func (c *Ctx) onDirs(e *Engine, f func(st *State, va, size Lin)) {
	e.gmons = append(e.gmons, func(ev *Event) {
		if ev.Kind != "filled" {
			return
		}
		s, ok := ev.Val.(SliceV)
		if !ok || s.Obj == nil || !isNamed(s.elem(), "debug/pe", "DataDirectory") {
			return
		}
		if !e.mute {
			c.count("data directory reads", 1)
		}
		ev.St.addFact(addc(s.Len, -secEntry-1)) // the entry exists
		p := pathIdx(s.Path, addc(s.Off, secEntry))
		va, _ := ev.St.load(s.Obj, pathField(p, 0), types.Typ[types.Uint32]).(IntV)
		sz, _ := ev.St.load(s.Obj, pathField(p, 1), types.Typ[types.Uint32]).(IntV)
		ev.St.setCell(cell{s.Obj.id, pathField(p, 0)}, va)
		ev.St.setCell(cell{s.Obj.id, pathField(p, 1)}, sz)
		e.gset(ev.St, "dirsRead", trueV)
		f(ev.St, va.L, sz.L)
	})
}

func errIs(e *Engine, st *State, err Val, global string) int {
	return st.truth(e.equal(st, err, IfaceSym{Name: "global:github.com/tc-hib/winres." + global, T: errorT, Uniq: true}))
}

// optArg builds the variadic option argument holding one option made by the constructor called name.
func (c *Ctx) optArg(e *Engine, st *State, f *ssa.Function, mk string, args ...Val) Val {
	ctor := c.fn(mk)
	if ctor == nil {
		return nil
	}
	outs := e.callFn(nil, st, nil, ctor, args, nil)
	if len(outs) != 1 {
		c.ob("anchor", mk, false, "", mk+" has several outcomes")
		return nil
	}
	var et types.Type
	for _, p := range f.Params {
		if s, ok := p.Type().(*types.Slice); ok {
			et = s.Elem()
		}
	}
	if et == nil {
		c.ob("anchor", "options of "+shortFn(f), false, "", "no variadic options parameter")
		return nil
	}
	o := newObj("alloc", "opts", et)
	o.arr, o.local = true, true
	st.setCell(cell{o.id, pathIdx("", K(0))}, outs[0].ret)
	return SliceV{Obj: o, Off: K(0), Len: K(1), Cap: K(1)}
}

// patch runs WriteToEXE with the given options ("" none).
func (c *Ctx) patch(task, opt string, optVal int64, setup func(e *Engine), post func(e *Engine, outs []Outcome)) {
	c.task(task, func() {
		e := c.engine()
		c.containers(e)
		c.writeContract(e)
		e.unroll = 8
		setup(e)
		f := c.meth("ResourceSet", "WriteToEXE")
		if f == nil {
			return
		}
		st, args := c.newEntry(e, f)
		last := len(args) - 1
		switch opt {
		case "":
			args[last] = NilV{}
		case "any":
		case "ForceCheckSum":
			args[last] = c.optArg(e, st, f, opt)
		default:
			v := K(optVal)
			if optVal < 0 {
				v = choice()
			}
			args[last] = c.optArg(e, st, f, opt, IntV{v})
		}
		if args[last] == nil {
			return
		}
		outs := e.run(st, f, args)
		c.count("entry points", 1)
		c.count("entry outcomes", len(outs))
		c.ob("entry", "WriteToEXE "+task, len(outs) > 0, "", "no path of WriteToEXE returns")
		post(e, outs)
		c.finish(e)
	})
}

func (c *Ctx) constInt(name string) int64 {
	if m, ok := c.P.Root.Members[name].(*ssa.NamedConst); ok {
		return m.Value.Int64()
	}
	c.ob("anchor", name, false, "", "constant "+name+" not found")
	return -1
}

func init() {
	register("C06", "Abstract interpretation of every writing entry point against an output whose every Write and Seek may fail: at each exit reached after a failed operation the returned error must be provably non-nil (fault flag tracked path-sensitively through all callees, including the standard library writers).",
		func(c *Ctx) {
			setup := func(e *Engine) {
				e.ghostKey = []string{"wfault"}
				c.faultSites(e, true)
			}
			for _, x := range [][2]string{{"ResourceSet", "WriteObject"}, {"ResourceSet", "WriteToEXE"}, {"Icon", "SaveICO"}, {"Cursor", "SaveCUR"}} {
				name, find := c.methE(x[0], x[1])
				c.entry(name, find, func(e *Engine) {
					if x[1] == "WriteToEXE" {
						c.writeContract(e)
					}
					setup(e)
				}, nil, c.faultReported(name, "wfault", "a failed write or seek"))
			}
			c.final = func() { c.floor("places where the output is written", c.ruleCount("io-site"), 15) }
		})

	register("C07", "Abstract interpretation of every reading entry point against an input whose every Read and Seek may fail or end early: at each exit reached after a fault the returned error must be provably non-nil; an io.Reader.Read whose count may be short must be followed by a further read before success is returned.",
		func(c *Ctx) {
			setup := func(e *Engine) {
				e.ghostKey = []string{"rfault", "rshort"}
				c.faultSites(e, false)
				shortReads(e)
				memReads(e)
			}
			run := func(name string, find func() *ssa.Function) {
				c.entry(name, find, func(e *Engine) {
					if name == "ResourceSet.WriteToEXE" {
						c.writeContract(e)
					}
					setup(e)
				}, nil, func(e *Engine, outs []Outcome) {
					c.faultReported(name, "rfault", "a failed or incomplete read")(e, outs)
					for _, o := range outs {
						err := lastVal(o.ret)
						if e.gmay(o.st, "rshort") {
							c.ob("short-read-completed", name, err != nil && o.st.truth(nilCond(err)) == 0, e.gstr(o.st, "faultAt"), "a read that returned fewer bytes than asked, at "+e.gstr(o.st, "faultAt")+", can end in success")
						}
					}
				})
			}
			for _, n := range []string{"LoadFromEXE", "LoadFromEXESingleType", "IsSignedEXE", "LoadICO", "LoadCUR"} {
				run(c.fnE(n))
			}
			run(c.methE("ResourceSet", "WriteToEXE"))
			c.final = func() { c.floor("places where the input is read", c.ruleCount("io-site"), 12) }
		})

	register("C08", "Abstract interpretation of every loader, extractor and constructor: at each exit the nil-ness of the value and of the error are decided and must be opposite (ErrNoResources comes with a set).",
		func(c *Ctx) {
			for _, n := range []string{"LoadFromEXE", "LoadFromEXESingleType", "LoadICO", "LoadCUR", "NewIconFromImages", "NewIconFromResizedImage", "NewCursorFromImages"} {
				name, find := c.fnE(n)
				c.entry(name, find, func(e *Engine) {}, nil, c.valueOrError(name))
			}
			for _, n := range []string{"GetIcon", "GetIconTranslation", "GetCursor", "GetCursorTranslation"} {
				name, find := c.methE("ResourceSet", n)
				c.entry(name, find, func(e *Engine) {}, nil, c.valueOrError(name))
			}
			name, find := c.vfnE("FromBytes")
			c.entry(name, find, func(e *Engine) {}, nil, c.valueOrError(name))
			for _, t := range []string{"SupportedOS", "DPIAwareness", "ExecutionLevel"} {
				name, find := c.methE(t, "MarshalText")
				c.entry(name, find, func(e *Engine) {}, nil, c.valueOrError(name))
			}
		})

	register("C09", "Abstract interpretation of WriteToEXE split on the certificate entry of the headers (present, absent) and on the signature option: refusal must be ErrSignedPE with the output untouched; removal must emit a zero entry and stop copying where the certificate starts.",
		func(c *Ctx) {
			keep := []string{"dirsRead", "signedErr"}
			noWrite := func(e *Engine, label string) {
				e.mons = append(e.mons, func(ev *Event) {
					if (ev.Kind == "write" || ev.Kind == "seek") && isDstName(ev.Name) {
						c.ob("no-write-when-signed", label+"|"+c.site(ev.Fr, ev.In), false, c.P.pos(ev.In), "the output is written or moved although the executable is signed (path: "+stackOf(ev.Fr)+")")
					}
				})
			}
			c.patch("signed, no option", "", 0, func(e *Engine) {
				e.ghostKey = keep
				c.onDirs(e, func(st *State, va, sz Lin) { st.addFact(addc(va, -1)) })
				noWrite(e, "no option")
			}, func(e *Engine, outs []Outcome) {
				n := 0
				for _, o := range outs {
					err := lastVal(o.ret)
					c.ob("signed-refused", "WriteToEXE", o.st.truth(nilCond(err)) == 0, "", "a signed executable may be patched without any option")
					if e.gmay(o.st, "dirsRead") && errIs(e, o.st, err, "ErrSignedPE") == 1 {
						n++
					}
				}
				c.ob("dedicated-error", "ErrSignedPE", n > 0, "", "no exit of WriteToEXE returns ErrSignedPE for a signed executable")
			})
			c.patch("signed, arbitrary choice", "WithAuthenticode", -1, func(e *Engine) {
				e.ghostKey = keep
				e.init = map[string]Val{"choice": IntV{choice()}}
				c.onDirs(e, func(st *State, va, sz Lin) { st.addFact(addc(va, -1)) })
				rm, ig := c.constInt("RemoveSignature"), c.constInt("IgnoreSignature")
				// whatever number the caller passes, it must be one of the two explicit requests when something is written
				e.mons = append(e.mons, func(ev *Event) {
					if (ev.Kind == "write" || ev.Kind == "seek") && isDstName(ev.Name) {
						s := ev.St.clone()
						s.assume(notV(eqV(addc(choice(), -rm))))
						s.assume(notV(eqV(addc(choice(), -ig))))
						c.ob("explicit-request", c.site(ev.Fr, ev.In), s.dead || s.prove(K(-1)), c.P.pos(ev.In), "a signed executable is patched although the option is neither RemoveSignature nor IgnoreSignature")
					}
				})
			}, func(e *Engine, outs []Outcome) {})
			c.patch("unsigned", "", 0, func(e *Engine) {
				e.ghostKey = keep
				c.onDirs(e, func(st *State, va, sz Lin) { st.assume(eqV(va)) })
			}, func(e *Engine, outs []Outcome) {
				n := 0
				for _, o := range outs {
					err := lastVal(o.ret)
					if o.st.truth(nilCond(err)) == 1 {
						n++
					}
					if e.gmay(o.st, "dirsRead") && o.st.truth(nilCond(err)) != 1 {
						c.ob("unsigned-accepted", "WriteToEXE", errIs(e, o.st, err, "ErrSignedPE") != 1, "", "an executable without a certificate entry is refused as signed")
					}
				}
				c.ob("unsigned-patched", "WriteToEXE", n > 0, "", "no success path for an unsigned executable")
			})
			for _, mode := range []string{"RemoveSignature", "IgnoreSignature"} {
				for _, at := range []string{"certificate ends the file", "certificate inside the file"} {
					if mode == "IgnoreSignature" && at != "certificate ends the file" {
						continue
					}
					c.patch(mode+", "+at, "WithAuthenticode", c.constInt(mode), func(e *Engine) {
						e.ghostKey = keep
						e.trackSize = true
						size, _ := e.gsize("src")
						c.onDirs(e, func(st *State, va, sz Lin) {
							st.addFact(addc(va, -1))
							if at == "certificate ends the file" {
								st.assume(eqV(sub(add(va, sz), size)))
							} else {
								st.assume(notV(eqV(sub(add(va, sz), size))))
							}
							e.gset(st, "certVA", IntV{va})
						})
						e.gmons = append(e.gmons, func(ev *Event) {
							if ev.Kind == "copyn" {
								end := add(e.gint(ev.St, "pos:src"), ev.L)
								va, _ := e.gget(ev.St, "certVA")
								cv, _ := va.(IntV)
								e.gset(ev.St, "pastCert", boolV(!ev.St.prove(sub(cv.L, end))))
								e.gset(ev.St, "notAll", boolV(!ev.St.proveEq(sub(size, end))))
							}
							if ev.Kind == "binwrite" && ev.Elem != nil && isNamed(ev.Elem, "debug/pe", "DataDirectory") && mode == "RemoveSignature" {
								s, ok := asSlice(ev.Val)
								if !ok || s.Obj == nil {
									c.ob("entry-cleared", c.site(ev.Fr, ev.In), false, c.P.pos(ev.In), "cannot see the directories being written")
									return
								}
								p := pathIdx(s.Path, addc(s.Off, secEntry))
								for i, f := range []string{"address", "size"} {
									v, _ := ev.St.load(s.Obj, pathField(p, i), types.Typ[types.Uint32]).(IntV)
									c.ob("entry-cleared", f+"|"+shortFn(ev.Fr.fn), ev.St.proveEq(v.L), c.P.pos(ev.In), "the certificate entry's "+f+" may be written non-zero after RemoveSignature")
								}
							}
						})
					}, func(e *Engine, outs []Outcome) {
						n := 0
						for _, o := range outs {
							if o.st.truth(nilCond(lastVal(o.ret))) != 1 {
								continue
							}
							n++
							if mode == "RemoveSignature" && at == "certificate ends the file" {
								ok := !e.gmay(o.st, "pastCert")
								c.ob("certificate-left-out", "WriteToEXE", ok, "", "the last copy from the original may go past the start of the removed certificate")
							}
							if mode == "RemoveSignature" && at != "certificate ends the file" {
								ok := !e.gmay(o.st, "notAll")
								c.ob("tail-kept", "WriteToEXE", ok, "", "data that follows the sections is dropped although the certificate does not end the file")
							}
						}
						c.ob("patched-on-request", mode+", "+at, n > 0, "", "no success path")
					})
				}
			}
		})

	register("C10", "Abstract interpretation of WriteToEXE: an exit that returns an error after the output was first written or moved must have seen an I/O fault on that path; and once the output is touched, every copy from the original stays inside the file, so that truncation cannot be discovered halfway.",
		func(c *Ctx) {
			c.patch("any options", "any", 0, func(e *Engine) {
				e.ghostKey = []string{"touched:dst", "wfault", "rfault"}
				e.trackSize = true
				e.mons = append(e.mons, func(ev *Event) {
					if (ev.Kind == "write" || ev.Kind == "seek") && isDstName(ev.Name) {
						c.ob("output-site", c.site(ev.Fr, ev.In), true, c.P.pos(ev.In), "")
					}
					if ev.Kind == "copyn" && e.gflag(ev.St, "touched:dst") {
						size, _ := e.gsize("src")
						end := add(e.gint(ev.St, "pos:src"), ev.L)
						ok := ev.St.prove(sub(size, end)) || ev.St.prove(neg(ev.L))
						c.ob("no-late-truncation", c.site(ev.Fr, ev.In), ok, c.P.pos(ev.In), "copying may run past the end of the original after the output was written")
					}
				})
			}, func(e *Engine, outs []Outcome) {
				before, after := 0, 0
				for _, o := range outs {
					err := lastVal(o.ret)
					if o.st.truth(nilCond(err)) == 1 {
						continue
					}
					if !e.gmay(o.st, "touched:dst") {
						before++
						continue
					}
					after++
					ok := e.gflag(o.st, "wfault") || e.gflag(o.st, "rfault")
					c.ob("refusal-before-output", "WriteToEXE", ok, "", "an executable can be refused after the output was already written or moved, with no I/O fault involved")
				}
				c.ob("exits", "WriteToEXE", before > 0 && after > 0, "", fmt.Sprintf("%d refusals before output, %d failures after", before, after))
			})
			c.final = func() { c.floor("places where the output is written", c.ruleCount("output-site"), 8) }
		})

	register("C13", "Abstract interpretation of IsSignedEXE from an arbitrary reader position: the position at each exit equals the initial one unless a seek failed, the first byte read is at offset 0, and the answer is yes exactly when the certificate entry's address is non-zero, the condition under which patching without options refuses (same split as C09).",
		func(c *Ctx) {
			name, find := c.fnE("IsSignedEXE")
			for _, v := range []string{"any", "signed", "unsigned"} {
				c.entry(name+", "+v, find, func(e *Engine) {
					e.ghostKey = []string{"seekfail", "dirsRead", "readOnce"}
					e.gmons = append(e.gmons, func(ev *Event) {
						if ev.Kind == "seek" && ev.Fail {
							e.gset(ev.St, "seekfail", trueV)
						}
						if ev.Kind == "read" && !ev.Fail && !e.gflag(ev.St, "readOnce") {
							e.gset(ev.St, "readOnce", trueV)
							i, _ := ev.Args[0].(IntV)
							c.ob("reads-from-start", c.site(ev.Fr, ev.In), ev.St.proveEq(i.L), c.P.pos(ev.In), "the first read is not at the beginning of the file")
						}
					})
					c.onDirs(e, func(st *State, va, sz Lin) {
						switch v {
						case "signed":
							st.addFact(addc(va, -1))
						case "unsigned":
							st.assume(eqV(va))
						}
					})
					e.init = map[string]Val{"pos:src": IntV{pos0()}}
				}, nil, func(e *Engine, outs []Outcome) {
					n := 0
					for _, o := range outs {
						err := lastVal(o.ret)
						if !e.gmay(o.st, "seekfail") {
							c.ob("position-restored", "IsSignedEXE", o.st.proveEq(sub(e.gint(o.st, "pos:src"), pos0())), "", "the reader is left at another position")
						}
						if o.st.truth(nilCond(err)) == 0 {
							continue
						}
						n++
						b, _ := firstVal(o.ret).(BoolV)
						if v == "signed" {
							c.ob("answer", v, o.st.truth(b) == 1, "", "a non-zero certificate address does not make the answer yes")
						}
						if v == "unsigned" {
							c.ob("answer", v, o.st.truth(b) == 0, "", "the answer may be yes without a certificate entry")
						}
					}
					c.ob("exits", v, n > 0, "", "no success exit")
				})
			}
			c.patch("patching refuses the same", "", 0, func(e *Engine) {
				e.ghostKey = []string{"dirsRead"}
				c.onDirs(e, func(st *State, va, sz Lin) { st.assume(eqV(va)) })
			}, func(e *Engine, outs []Outcome) {
				for _, o := range outs {
					err := lastVal(o.ret)
					if e.gmay(o.st, "dirsRead") && o.st.truth(nilCond(err)) != 1 {
						c.ob("patch-agrees", "unsigned", errIs(e, o.st, err, "ErrSignedPE") != 1, "", "patching may refuse as signed an executable that IsSignedEXE calls unsigned")
					}
				}
			})
			c.patch("patching refuses the same when signed", "", 0, func(e *Engine) {
				c.onDirs(e, func(st *State, va, sz Lin) { st.addFact(addc(va, -1)) })
			}, func(e *Engine, outs []Outcome) {
				for _, o := range outs {
					c.ob("patch-agrees", "signed", o.st.truth(nilCond(lastVal(o.ret))) == 0, "", "patching without options accepts an executable that IsSignedEXE calls signed")
				}
			})
		})
}

func pos0() Lin { return atomLin(sym("pos0:src", p64(0), p64(int64(1)<<60))) }

func (c *Ctx) ruleCount(rule string) int {
	n := 0
	for _, o := range c.obs {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

// choice is the arbitrary number given to an option.
func choice() Lin { return atomLin(sym("choice", nil, nil)) }
