package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04 (allocation size) and C05 (termination).

var sizes = types.SizesFor("gc", "amd64")

const (
	imgLimit  = 10 << 20 // the documented limit of an image
	sizeSlack = 1 << 16
)

// inputSize is the real size of what is being parsed: the symbolic size of the reader, plus the lengths of byte slices passed in.
func inputSize(e *Engine, args []Val) Lin {
	l, _ := e.gsize("src")
	for _, a := range args {
		if s, ok := a.(SliceV); ok && s.Obj != nil {
			if b, ok := s.elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				l = add(l, s.Len)
			}
		}
	}
	return l
}

// readingEntries are the entry points that parse foreign bytes.
func (c *Ctx) readingEntries(f func(name string, find func() *ssa.Function)) {
	for _, n := range []string{"LoadFromEXE", "LoadFromEXESingleType", "IsSignedEXE", "LoadICO", "LoadCUR"} {
		f(c.fnE(n))
	}
	f(c.methE("ResourceSet", "WriteToEXE"))
	for _, n := range []string{"GetIcon", "GetIconTranslation", "GetCursor", "GetCursorTranslation"} {
		f(c.methE("ResourceSet", n))
	}
	f(c.vfnE("FromBytes"))
}

func init() {
	register("C04", "Abstract interpretation of every parsing entry point: at each make reached, the number of bytes requested (capacity times element size) must be provably at most 10 MB or at most four times the input's real size plus 64 KB, from the facts on the path; reads that grow a buffer by themselves are bounded by what the input delivers.",
		func(c *Ctx) {
			c.readingEntries(func(name string, find func() *ssa.Function) {
				var in Lin
				c.entry(name, find, func(e *Engine) {
					if name == "ResourceSet.WriteToEXE" {
						c.writeContract(e)
					}
					e.trackSize = true
					in = inputSize(e, nil)
					e.hints = []Lin{in}
					e.init = map[string]Val{"insize": IntV{in}}
					e.mons = append(e.mons, func(ev *Event) {
						if ev.Kind != "alloc" {
							return
						}
						n := scale(ev.L, sizes.Sizeof(ev.Elem))
						bounded := ev.St.prove(sub(K(imgLimit), n))
						if !bounded {
							bounded = ev.St.prove(sub(addc(scale(in, 4), sizeSlack), n))
						}
						if !bounded {
							// as many as a map holds: not a number taken from the input
							bounded = len(n.t) > 0
							for _, t := range n.t {
								bounded = bounded && strings.HasPrefix(t.a.name, "maplen:")
							}
						}
						if !bounded && os.Getenv("WR_DEBUG") != "" {
							c.note("FACTS " + c.srcText(ev.In) + dumpFacts(ev.St))
						}
						c.ob("alloc", c.site(ev.Fr, ev.In), bounded, c.P.pos(ev.In), "may allocate "+typeStr(ev.Elem)+" times "+ev.L.String()+", not bounded by 10 MB or the input's size (path: "+stackOf(ev.Fr)+")")
					})
				}, func(st *State, args []Val) {
					for _, a := range args {
						if s, ok := a.(SliceV); ok && s.Obj != nil {
							if b, ok := s.elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
								in = add(in, s.Len)
							}
						}
					}
				}, nil)
			})
			c.final = func() { c.floor("allocation sites", c.ruleCount("alloc"), 15) }
		})

	register("C05", "Abstract interpretation of every parsing and patching entry point: for each loop a ranking expression (bounded below by the loop's own conditions and strictly decreasing on every back edge) is found, or the loop is a range over a map or string; recursion depth is bounded by a constant independent of the input.",
		func(c *Ctx) {
			c.readingEntries(func(name string, find func() *ssa.Function) {
				c.entry(name, find, func(e *Engine) {
					e.mons = append(e.mons, func(ev *Event) {
						if ev.Kind == "unbounded" {
							c.ob("recursion", c.site(ev.Fr, ev.In), false, c.P.pos(ev.In), ev.Note)
						}
					})
				}, nil, func(e *Engine, outs []Outcome) {
					for _, k := range sortedKeys(e.loops) {
						r := e.loops[k]
						c.ob("ranked", r.Fn+"|"+strings.TrimSpace(c.srcText(r.In)), r.Ranked, r.Pos, "no measure decreases on every iteration of this loop (path: "+r.Stack+")")
					}
				})
			})
			c.final = func() { c.floor("loops", c.ruleCount("ranked"), 12) }
		})
}
