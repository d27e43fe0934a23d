package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// writeContract replaces ResourceSet.write, when it writes to a memory buffer, by its contract: it appends n >= 16 bytes (a directory
// table is 16 bytes) without failing and returns addresses of 32-bit fields that lie inside what it appended. C23 and C24 decide the
// contract itself on the body of write.
func (c *Ctx) writeContract(e *Engine) {
	f := c.meth("ResourceSet", "write")
	if f == nil {
		return
	}
	body := f
	e.modular[f] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		iv, ok := args[1].(IfaceV)
		if !ok || !isPtrTo(iv.Dyn, "bytes.Buffer") {
			m := e.modular[body]
			delete(e.modular, body)
			out := e.callFn(fr, st, in, body, args, nil)
			e.modular[body] = m
			return out
		}
		n := atomLin(sym(freshName("rsrcLen"), p64(16), p64(maxLen)))
		var total Lin
		if _, _, s, ok := e.bufField(st, iv.V); ok {
			total = add(s.Len, n)
		}
		e.bufExtend(fr, st, in, iv.V, n)
		e.emit(&Event{Kind: "bufwrite", Fr: fr, St: st, In: in, L: n, Note: "ResourceSet.write", Args: []Val{iv.V}})
		if st.dead {
			return nil
		}
		o := newObj("alloc", "relocs", types.Typ[types.Int])
		o.arr, o.local = true, true
		o.content = freshName("relocs")
		o.roots = []Lin{total}
		o.onLoad = func(s *State, p string, v Val) {
			if i, ok := v.(IntV); ok {
				s.addFact(i.L)
				s.addFact(addc(sub(total, i.L), -4))
			}
		}
		st.epOwn()
		st.epoch[o.id] = "r"
		l := atomLin(sym(freshName("nreloc"), p64(0), p64(maxLen)))
		return []Outcome{{st, TupleV{SliceV{Obj: o, Off: K(0), Len: l, Cap: l}, NilV{}}}}
	}
	c.assumption("ResourceSet.write satisfies its contract on a memory buffer: it cannot fail and every address it returns is that of a 4-byte field inside the bytes it wrote (decided by C23/C24)")
}
