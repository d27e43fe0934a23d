package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Array filling: when every iteration of a loop stores, at index c0+k of an array (k the iteration count), a value with some
// property, then every element in [c0, c0+k) has that property at the loop head. The fact is attached to the content epoch the
// array has at that head, so any later write to the array discards it.

type fillProp struct {
	c0     Lin
	dyn    types.Type // dynamic type of an interface element
	nonNil bool
	tep    string
}

func (p *fillProp) same(q *fillProp) bool {
	return eqLin(p.c0, q.c0) && p.nonNil == q.nonNil && (p.dyn == nil) == (q.dyn == nil) && (p.dyn == nil || types.Identical(p.dyn, q.dyn))
}

type fillInfo struct {
	kappa *Atom
	props map[string]*fillProp
}

var fillTab = map[string]*fillInfo{}

func fillKey(id int, epoch string) string { return fmt.Sprintf("%d|%s", id, epoch) }

// elemPath splits [idx].f.g into its index and the rest.
func elemPath(p string) (Lin, string, bool) {
	es := pathTab[p]
	if len(es) == 0 || es[0].field >= 0 {
		return Lin{}, "", false
	}
	for _, e := range es[1:] {
		if e.field < 0 {
			return Lin{}, "", false
		}
	}
	return es[0].idx, fieldPath(pathOf(es[1:])), true
}

func (st *State) elemProp(v Val) *fillProp {
	switch x := v.(type) {
	case IfaceV:
		return &fillProp{dyn: x.Dyn, nonNil: true}
	case IfaceSym:
		p := &fillProp{nonNil: st.truth(nilCond(v)) == 0}
		if d, ok := st.dyn[x.Name]; ok {
			p.dyn, p.nonNil = d, true
		}
		if p.nonNil {
			return p
		}
	case PtrV:
		if st.truth(nilCond(v)) == 0 {
			return &fillProp{nonNil: true}
		}
	}
	return nil
}

func (lc *loopCtx) updateFills(head *State, bs []*State) {
	if len(bs) == 0 {
		return
	}
	var ids []int
	for id := range lc.objs {
		if objList[id].arr {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	own := map[*Atom]Lin{lc.kappa: K(0)}
	for _, li := range lc.ints {
		if !li.lin {
			own[li.atom] = K(0)
		}
	}
	for _, id := range ids {
		got := map[string]*fillProp{}
		for bi, b := range bs {
			here := map[string]*fillProp{}
			count := map[string]int{}
			if b.epoch[id] == head.epoch[id] {
				for c, v := range b.heap {
					if c.o != id {
						continue
					}
					idx, fp, ok := elemPath(c.p)
					if !ok {
						continue
					}
					count[fp]++
					c0 := sub(idx, atomLin(lc.kappa))
					if linDepends(c0, own) || !leavesKnown(c0, map[*Atom]bool{}, lc.atomMark) {
						continue
					}
					if p := b.elemProp(v); p != nil {
						p.c0 = c0
						p.tep = b.tepoch[tkey(objList[id], c.p)]
						if p.tep != head.tepoch[tkey(objList[id], c.p)] {
							continue
						}
						here[fp] = p
					}
				}
			}
			for fp, n := range count {
				if n > 1 {
					delete(here, fp)
				}
			}
			if bi == 0 {
				got = here
				continue
			}
			for fp, p := range got {
				q := here[fp]
				if q == nil || !eqLin(p.c0, q.c0) {
					delete(got, fp)
					continue
				}
				if p.dyn != nil && (q.dyn == nil || !types.Identical(p.dyn, q.dyn)) {
					p.dyn = nil
				}
			}
		}
		cur := lc.fills[id]
		if cur == nil {
			cur = map[string]*fillProp{}
			lc.fills[id] = cur
		}
		for fp, p := range cur {
			if q := got[fp]; q == nil || !p.same(q) {
				delete(cur, fp)
				lc.fillDead[fmt.Sprintf("%d%s", id, fp)]++
				lc.changed = true
			}
		}
		for fp, q := range got {
			if cur[fp] == nil && lc.fillDead[fmt.Sprintf("%d%s", id, fp)] < 2 {
				cur[fp] = q
				lc.changed = true
			}
		}
	}
}

// applyFill attaches the known element properties to a value just read from an array whose content is otherwise unknown.
func (s *State) applyFill(o *Obj, p string, v Val) {
	fi := fillTab[fillKey(o.id, s.epoch[o.id])]
	if fi == nil {
		return
	}
	idx, fp, ok := elemPath(p)
	if !ok {
		return
	}
	q := fi.props[fp]
	if q == nil || q.tep != s.tepoch[tkey(o, p)] {
		return
	}
	d := sub(idx, q.c0)
	if !s.prove(d) || !s.prove(addc(sub(atomLin(fi.kappa), d), -1)) {
		return
	}
	if at := nilAtom(v); at != "" && q.nonNil {
		s.setBool(at, false)
	}
	if x, ok := v.(IfaceSym); ok && q.dyn != nil {
		s.dynOwn()
		s.dyn[x.Name] = q.dyn
	}
}
