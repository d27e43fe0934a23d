package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Order of the directory (C17).

// lessOf gives the outcome of the comparison of two identifiers of known types.
func (c *Ctx) lessOf(a, b string) string {
	val := func(ty, k string) tVal {
		if ty == "winres.ID" {
			return tInt{sAtom(k)}
		}
		return tStr{k}
	}
	f := c.meth(strings.TrimPrefix(a, "winres."), "lessThan")
	if f == nil {
		return "?"
	}
	t, outs := c.treeRun(f, val(a, "$a"), tDyn{b, val(b, "$b")})
	if len(outs) != 1 || len(outs[0].vals) != 1 || len(t.issues) > 0 {
		return "?"
	}
	r, ok := outs[0].vals[0].(tBool)
	if !ok {
		return "?"
	}
	if r.known {
		return fmt.Sprint(r.v)
	}
	return r.k
}

func init() {
	register("C17", "Symbolic evaluation of the code that writes the directory over a tree of arbitrary shape: each directory table is followed by the entries of the same map, those of the first names(map) keys of its sorted list, with name offsets flagged, then the others, with plain identifiers, and the two counts in the table are the lengths of these two parts; the language level has identifiers only. The lists are sorted with the order of identifiers and the number of names is where the first identifier is. The order itself is evaluated for the four combinations of kinds: names before identifiers, names by comparison of their bytes, identifiers by value.",
		func(c *Ctx) {
			for _, x := range []struct{ a, b, want, what string }{
				{"winres.ID", "winres.ID", "lt($a,$b)", "identifiers are not in ascending order"},
				{"winres.ID", "winres.Name", "false", "an identifier may come before a name"},
				{"winres.Name", "winres.ID", "true", "a name may not come before an identifier"},
				{"winres.Name", "winres.Name", "lt($a,$b)", "names are not in ascending order"},
			} {
				got := c.lessOf(x.a, x.b)
				c.ob("relation", x.a+" "+x.b, got == x.want, "", x.what+" ("+got+")")
			}
			n := 0
			for _, o := range c.treeWrite("undecided order") {
				if o.kind != "ret" {
					continue
				}
				n++
				p := o.parts(tSites(o.st.eff))
				if !p.complete(c) {
					continue
				}
				for i, l := range treeLevels {
					tb := p.tables[l.at]
					_, v := tb.eff.tShape()
					c.treeTable(o, l.what, l.f, i < 2, tb, v, p.ents[joinPath(l.at, l.f)])
				}
			}
			c.floor("outcomes of write", n, 1)
		})
}

func (c *Ctx) treeTable(o tEnd, what, f string, named bool, tb tSite, v []SX, es []tSite) {
	names := sAtom("names(" + f + ")")
	if !named {
		names = sK(0)
	}
	c.ob("count", what+"/names", o.same(v[4], names), tb.eff.where, "the number of names in the directory table is not that of the names that follow: "+v[4].key())
	c.ob("count", what+"/identifiers", o.same(v[5].add(v[4], 1), sAtom("len("+f+")")), tb.eff.where, "the numbers of names and identifiers do not add up to the number of entries: "+v[5].key())
	// the entries follow their table
	pos := tb.base.add(tb.eff.size, 1)
	next := 1
	if !named {
		next = 0
	}
	for _, s := range es {
		l := s.path[len(s.path)-1]
		k := fmt.Sprint(what, "/", l.part)
		ok := l.part == next && (l.part == 0 || l.n.eq(names))
		c.ob("sequence", k, ok, s.eff.where, "the entries are not written as names, then identifiers, each once")
		c.ob("sorted", k, l.sorted, s.eff.where, "the entries may not be in order")
		next++
		for i := range s.path[:len(s.path)-1] {
			c.ob("sorted", fmt.Sprint(k, "/", i), s.path[i].sorted && s.path[i].part == 0, s.eff.where, "the directories may not be written in order")
		}
		at := s.base.add(tFirst(l, s.step[len(s.step)-1]), 1)
		c.ob("follow", k, o.same(at, pos), s.eff.where, "the entries do not follow their directory table")
		pos = pos.add(l.total(), 1)
		_, ev := s.eff.tShape()
		id := ev[0]
		switch l.part {
		case 1:
			id = id.add(sK(flag), -1)
			c.ob("name", k, len(id.t) == 1 && id.c == 0 && strings.HasPrefix(id.key(), "at(") && strings.HasSuffix(id.key(), ";"+f+"[])"), s.eff.where, "the entry does not refer to its name: "+ev[0].key())
		default:
			c.ob("identifier", k, id.eq(sAtom("key("+f+"[])")), s.eff.where, "the entry does not hold its identifier: "+ev[0].key())
		}
		c.ob("level", k, (ev[1].c >= flag) == named, s.eff.where, "the entry is not marked as what it is, a directory or data")
	}
	want := 3
	if !named {
		want = 1
	}
	c.ob("sequence", what, next == want, tb.eff.where, "not all entries of the directory are written")
}

// Enumeration (C20).

func (c *Ctx) treeVisits(what string, outs []tEnd, fs, args []string, data string) {
	n := 0
	for _, o := range outs {
		if o.kind != "ret" || o.st.stop != "" {
			continue
		}
		var vs []tSite
		for _, s := range tSites(o.st.eff) {
			if s.eff.kind == "visit" {
				vs = append(vs, s)
			}
		}
		if len(vs) == 0 {
			nothing := false
			for _, x := range o.st.trail {
				if strings.HasPrefix(x, "nil:") || strings.HasPrefix(x, "empty:") {
					nothing = true
				}
			}
			c.ob("visit", what+"/none", nothing, "", "an enumeration may skip everything")
			continue
		}
		n++
		c.ob("visit", what+"/once", len(vs) == 1, vs[0].eff.where, "resources are visited in several places")
		s := vs[0]
		c.ob("visit", what+"/all", s.fs() == strings.Join(fs, " "), s.eff.where, "not exactly the resources of the set are visited")
		for i, l := range s.path {
			c.ob("all", fmt.Sprint(what, "/", i), l.part == 0, s.eff.where, "a part of the keys is not visited")
			c.ob("sorted", fmt.Sprint(what, "/", i), l.sorted, s.eff.where, "the visits may not be made in the order of the directory")
		}
		got := []string{}
		for _, v := range s.eff.vals {
			k := v.tkey()
			if x, ok := v.(tInt); ok {
				k = "key:" + strings.TrimSuffix(strings.TrimPrefix(x.x.key(), "key("), ")")
			}
			got = append(got, k)
		}
		want := append(append([]string{}, args...), data)
		c.ob("arguments", what, strings.Join(got, " ") == strings.Join(want, " "), s.eff.where, "the callback is not given what it is called for: "+strings.Join(got, " "))
	}
	c.floor("visits by "+what, n, 1)
}

func init() {
	register("C20", "Symbolic evaluation of Walk, WalkType and of the code that writes the section over a tree of arbitrary shape: the callback is called in one place, in nested loops over the whole sorted list of keys of each level, with the keys of these loops and the data of that element; the data is written in the same nest; once the callback has answered false, no path calls it again.",
		func(c *Ctx) {
			cats := "undecided whole stop order"
			_, outs := c.treeOuts(c.meth("ResourceSet", "Walk"), cats, c.treeRoot(), tExt{"f"})
			c.treeVisits("Walk", outs, []string{treeT, treeR, treeL}, []string{"key:" + treeT + "[]", "key:" + treeR + "[]", "key:" + treeL + "[]"}, "bytes:"+treeL+"[].data")
			if f := c.meth("ResourceSet", "WalkType"); f != nil {
				_, outs := c.treeEdit(f, cats, c.treeRoot(), tKey{"?type"}, tExt{"f"})
				r := treeT + "[?type].resources"
				c.treeVisits("WalkType", outs, []string{r, r + "[].data"}, []string{"key:" + r + "[]", "key:" + r + "[].data[]"}, "bytes:"+r+"[].data[].data")
			}
			for _, o := range c.treeWrite("undecided order") {
				if o.kind != "ret" {
					continue
				}
				p := o.parts(tSites(o.st.eff))
				ok := p.blob != nil && p.blob.fs() == treeT+" "+treeR+" "+treeL
				c.ob("written", "data", ok, "", "the data is not written for every resource")
				if ok {
					for i, l := range p.blob.path {
						c.ob("sorted", fmt.Sprint("write/", i), l.sorted && l.part == 0, p.blob.eff.where, "the data may not be written in the order of the directory")
					}
					c.ob("written", "bytes", p.blob.eff.vals[0].tkey() == "bytes:"+treeL+"[].data", p.blob.eff.where, "what is written is not the data of the resource visited")
				}
			}
		})
}

// Edits (C15, C19).

func (c *Ctx) treeEdit(f *ssa.Function, cats string, args ...tVal) (*tev, []tEnd) {
	t := newTev(c)
	t.edit = true
	st := &tState{env: map[ssa.Value]tVal{}, heap: map[string]tVal{}}
	outs := t.call(st, f, args, nil, nil)
	n := 0
	var ks []string
	for k := range t.issues {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cat := strings.SplitN(k, "|", 2)[0]
		if strings.Contains(cats, cat) {
			n++
			c.ob(cat, strings.TrimPrefix(k, cat+"|"), false, "", t.issues[k])
		}
	}
	c.ob("followed", f.Name(), n == 0 && len(outs) > 0, "", "the function cannot be followed to its end")
	return t, outs
}

const (
	editT = treeT + "[?type]"
	editR = editT + ".resources[?res]"
	editL = editR + ".data[?lang]"
)

func indexOf(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return -1
}

// treeRemove checks the removal of a resource.
func (c *Ctx) treeRemove(outs []tEnd) {
	n := 0
	for _, o := range outs {
		tr := o.st.trail
		n++
		where := strings.Join(tr, " ")
		del := map[string]bool{}
		for _, x := range tr {
			if strings.HasPrefix(x, "del:") {
				p := x[4:]
				del[p] = true
				c.ob("only", p, p == editT || p == editR || p == editL, "", "something else than the resource given may be removed: "+where)
			}
			c.ob("only", "set", !strings.HasPrefix(x, "set:"), "", "a removal may add an entry: "+where)
		}
		for k, v := range o.st.heap {
			if strings.HasPrefix(k, treeT) && strings.HasSuffix(k, "].data") {
				m, isMap := v.(tMap)
				c.ob("only", k, isMap && m.f == k, "", "a removal may change data")
			}
		}
		absent := false
		for _, p := range []string{treeT, editT, editR, editL} {
			absent = absent || indexOf(tr, "nil:"+p) >= 0
		}
		for _, p := range []string{treeT, editT + ".resources", editR + ".data"} {
			for _, x := range tr {
				if strings.HasPrefix(x, "del:") {
					break
				}
				absent = absent || x == "empty:"+p
			}
		}
		if absent {
			c.ob("harmless", where, !del[editT] && !del[editR], "", "the removal of an absent resource may remove something: "+where)
			continue
		}
		gone := func(p string) bool {
			for d := range del {
				if p == d || strings.HasPrefix(p, d+".") {
					return true
				}
			}
			return false
		}
		c.ob("removed", where, gone(editL), "", "the resource may not be removed: "+where)
		// levels that become empty
		empties := func(m, elem string) string { // "yes", "no", ""
			at := indexOf(tr, "del:"+elem)
			if at < 0 {
				at = len(tr)
			}
			for i, x := range tr {
				switch {
				case i > at && x == "empty:"+m:
					return "yes"
				case i > at && x == "not:empty:"+m:
					return "no"
				case i < at && x == "one:"+m && indexOf(tr, "not:nil:"+elem) >= 0:
					return "yes"
				case i < at && x == "not:one:"+m:
					return "no"
				}
			}
			return ""
		}
		e1 := empties(editR+".data", editL)
		c.ob("prune", "name/"+where, (e1 == "yes") == gone(editR) && e1 != "", "", "a name whose last language is removed may stay, or another be removed: "+where)
		if gone(editR) {
			e2 := empties(editT+".resources", editR)
			c.ob("prune", "type/"+where, (e2 == "yes") == gone(editT) && e2 != "", "", "a type whose last name is removed may stay, or another be removed: "+where)
		} else {
			c.ob("prune", "type/"+where, !gone(editT), "", "a type may be removed that still has names: "+where)
		}
	}
	c.floor("paths of a removal", n, 2)
}

// treeAdd checks what setting a resource does.
func (c *Ctx) treeAdd(outs []tEnd) {
	n := 0
	for _, o := range outs {
		tr := o.st.trail
		where := strings.Join(tr, " ")
		n++
		used := map[string]bool{}
		old := func(p string) bool { return indexOf(tr, "nil:"+p) < 0 } // it may be there
		step := func(f, key string) (string, bool) {
			p := f + "[" + key + "]"
			used["set:"+p] = true
			set := indexOf(tr, "set:"+p) >= 0
			switch x := o.st.heap["mv:"+p].(type) {
			case tObj:
				return x.id, set && (strings.HasPrefix(f, "m~") || !old(p))
			case tNode:
				return x.path, x.path == p
			case nil:
				return p, !strings.HasPrefix(f, "m~")
			}
			return p, false
		}
		field := func(n, name string) (string, bool) {
			if v, ok := o.st.heap[n+"."+name]; ok {
				m, isMap := v.(tMap)
				return m.f, isMap && (strings.HasPrefix(n, "o~") || m.f == n+"."+name || !old(n+"."+name))
			}
			return n + "." + name, !strings.HasPrefix(n, "o~")
		}
		ok := true
		var y bool
		cur := "rs"
		for _, l := range []struct{ field, key string }{{"types", "?type"}, {"resources", "?res"}, {"data", "?lang"}} {
			var m string
			m, y = field(cur, l.field)
			ok = ok && y
			cur, y = step(m, l.key)
			ok = ok && y
			c.ob("kept", fmt.Sprint(l.key, "/", where), ok, "", "resources may be replaced that are not the one given, or lost: "+where)
		}
		v := o.st.heap[cur+".data"]
		c.ob("stored", where, v != nil && v.tkey() == "bytes:?data", "", "the data may not be stored in its place: "+where)
		for _, x := range tr {
			if strings.HasPrefix(x, "set:") {
				c.ob("only", x+"/"+where, used[x], "", "another entry may be added: "+where)
			}
			c.ob("only", "del/"+where, !strings.HasPrefix(x, "del:"), "", "setting a resource may remove one: "+where)
		}
		for k, v := range o.st.heap {
			if strings.HasPrefix(k, treeT) && strings.HasSuffix(k, "].data") && k != cur+".data" {
				m, isMap := v.(tMap)
				c.ob("only", k, isMap && m.f == k, "", "setting a resource may change the data of another")
			}
		}
	}
	c.floor("paths of an addition", n, 4)
}

// treeCaches: a map whose keys have changed has no list of keys any more.
func (c *Ctx) treeCaches(outs []tEnd, what string) {
	n := 0
	for _, o := range outs {
		tr := o.st.trail
		for i, x := range tr {
			if !strings.HasPrefix(x, "set:") && !strings.HasPrefix(x, "del:") {
				continue
			}
			p := x[4:]
			j := strings.LastIndex(p, "[")
			m := p[:j]
			if x[0] == 's' && indexOf(tr[:i], "not:nil:"+p) >= 0 && indexOf(tr[:i], "del:"+p) < 0 {
				continue // replaced
			}
			// whose map it is
			owner, fld := "", ""
			for k, v := range o.st.heap {
				if y, ok := v.(tMap); ok && y.f == m {
					d := strings.LastIndex(k, ".")
					owner, fld = k[:d], k[d+1:]
				}
			}
			if owner == "" && !strings.HasPrefix(m, "m~") {
				d := strings.LastIndex(m, ".")
				owner, fld = m[:d], m[d+1:]
			}
			if owner == "" {
				continue // a map that belongs to nothing
			}
			for _, g := range c.cachesOf(fld) {
				n++
				v, has := o.st.heap[owner+"."+g]
				_, isNil := v.(tNil)
				ok := isNil || !has && strings.HasPrefix(owner, "o~")
				c.ob("invalidated", what+" "+owner[:1]+"/"+fld+"/"+strings.Join(tr, " "), ok, "", "the keys of a map change and the list kept of them remains ("+owner+"."+g+"): "+strings.Join(tr, " "))
			}
		}
	}
	c.floor("changes of a set of keys by "+what, n, 2)
}

// treeStructs are the structures of the tree.
func (c *Ctx) treeStructs() map[string]*types.Struct {
	r := map[string]*types.Struct{}
	var add func(t types.Type)
	add = func(t types.Type) {
		s := structOf(t)
		k := typeStr(t)
		if s == nil || r[k] != nil {
			return
		}
		r[k] = s
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
				e := m.Elem()
				if p, ok := e.Underlying().(*types.Pointer); ok {
					e = p.Elem()
				}
				add(e)
			}
		}
	}
	add(c.P.namedType(c.P.Root, "ResourceSet"))
	return r
}

// cachesOf: the fields that list the keys of a map field.
func (c *Ctx) cachesOf(fld string) []string {
	var r []string
	for _, s := range c.treeStructs() {
		for i := 0; i < s.NumFields(); i++ {
			if m := cacheOf(s, i); m >= 0 && s.Field(m).Name() == fld {
				r = append(r, s.Field(i).Name())
			}
		}
	}
	sort.Strings(r)
	return r
}

// setRuns evaluates the function that edits the tree, to add and to remove.
func (c *Ctx) setRuns() (add, rem []tEnd, funcs map[*ssa.Function]bool) {
	f := c.meth("ResourceSet", "set")
	if f == nil {
		return
	}
	funcs = map[*ssa.Function]bool{}
	t, add := c.treeEdit(f, "undecided stale keys", c.treeRoot(), tKey{"?type"}, tKey{"?res"}, tKey{"?lang"}, tBytes{"?data", sAtom("n")})
	for g := range t.funcs {
		funcs[g] = true
	}
	t, rem = c.treeEdit(f, "undecided stale keys", c.treeRoot(), tKey{"?type"}, tKey{"?res"}, tKey{"?lang"}, tNil{})
	for g := range t.funcs {
		funcs[g] = true
	}
	return add, rem, funcs
}

func init() {
	register("C19", "Symbolic evaluation of the function that edits the tree, for arbitrary keys and every combination of what is present: on every path the only entries of maps added or removed are those of the keys given; what exists is not replaced; on removal the entry disappears when it is there, each level that is then found empty is removed and no other, and nothing is removed when the resource is absent. The count is evaluated as the sum, over all types and names, of the number of languages, which is the number of calls made by Walk.",
		func(c *Ctx) {
			add, rem, _ := c.setRuns()
			c.treeAdd(add)
			c.treeRemove(rem)
			sum := sAtom("S(" + treeT + ";S(" + treeR + ";len(" + treeL + ")))")
			_, outs := c.treeOuts(c.meth("ResourceSet", "Count"), "undecided stale", c.treeRoot())
			for _, o := range outs {
				v := sK(-1)
				if len(o.vals) == 1 {
					v, _ = asInt(o.vals[0])
				}
				c.ob("count", "Count", v.eq(sum), "", "the count is not the number of resources: "+v.key())
			}
			_, outs = c.treeOuts(c.meth("ResourceSet", "Walk"), "undecided", c.treeRoot(), tExt{"f"})
			for _, o := range outs {
				if o.st.stop != "" {
					continue
				}
				n := sK(0)
				for _, e := range o.st.eff {
					n = n.add(visits(e), 1)
				}
				c.ob("count", "Walk", n.eq(sum), "", "the number of visits is not the number of resources: "+n.key())
			}
		})
}

func visits(e *tEff) SX {
	switch e.kind {
	case "visit":
		return sK(1)
	case "loop":
		n := sK(0)
		for _, b := range e.body {
			n = n.add(visits(b), 1)
		}
		return sumOver(e.f, e.part, e.n, e.size, n)
	}
	return sK(0)
}

func init() {
	register("C15", "Symbolic evaluation, over a tree of arbitrary shape whose lists of keys may each be absent or complete, of every function that reads them: none uses a list that may be out of date, stores one that is not complete and sorted, changes the tree while it goes through it or leaves elements out. Evaluation of the function that edits the tree, for every combination of what is present: on every exit the list of keys of each map whose set of keys has changed is absent. Every instruction of the module that changes these maps or lists is in one of the functions evaluated.",
		func(c *Ctx) {
			add, rem, funcs := c.setRuns()
			c.treeCaches(add, "set")
			c.treeCaches(rem, "delete")
			readers := map[*ssa.Function]bool{}
			cats := "undecided stale keys whole order"
			for _, x := range []struct {
				f    *ssa.Function
				args []tVal
			}{
				{c.meth("ResourceSet", "write"), []tVal{c.treeRoot(), tExt{"w"}}},
				{c.meth("ResourceSet", "Walk"), []tVal{c.treeRoot(), tExt{"f"}}},
				{c.meth("ResourceSet", "WalkType"), []tVal{c.treeRoot(), tKey{"?arg"}, tExt{"f"}}},
				{c.meth("ResourceSet", "Count"), []tVal{c.treeRoot()}},
				{c.meth("ResourceSet", "firstLang"), []tVal{c.treeRoot(), tKey{"?arg"}, tKey{"?arg"}}},
				{c.fn("writeObject"), []tVal{tExt{"w"}, c.treeRoot(), tOpq{"arch"}}},
			} {
				if x.f == nil {
					continue
				}
				t, outs := c.treeOuts(x.f, cats, x.args...)
				for g := range t.funcs {
					readers[g] = true
				}
				for _, o := range outs {
					for k, v := range o.st.heap {
						if !strings.HasPrefix(k, "rs") || !c.isCacheCell(k) {
							continue
						}
						ok := false
						switch l := v.(type) {
						case tNil, tKN:
							ok = true
						case tList:
							ok = l.part == 0 && l.sorted
						}
						c.ob("kept", x.f.Name()+"/"+k, ok, "", "a list of keys may be kept that is not complete and sorted ("+v.tkey()+")")
					}
				}
			}
			n := 0
			for _, f := range c.P.allFuncs() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						what, edit := c.treeTouch(in)
						if what == "" {
							continue
						}
						n++
						c.ob("seen", what+"|"+f.String(), funcs[f] || !edit && readers[f], c.P.pos(in), "the tree, or a list of its keys, is changed or used by a function that is not among those analysed")
					}
				}
			}
			c.floor("instructions on maps and lists of keys", n, 10)
		})
}

// treeTouch: instructions that change a map of the tree, or use a list of its keys.
func (c *Ctx) treeTouch(in ssa.Instruction) (string, bool) {
	isMap := func(v ssa.Value) bool {
		for _, s := range c.treeStructs() {
			for i := 0; i < s.NumFields(); i++ {
				if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && structOf(m.Elem()) != nil && types.Identical(m, v.Type().Underlying()) {
					return true
				}
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if isMap(x.Map) {
			return "update", true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && isMap(x.Call.Args[0]) {
			return b.Name(), true
		}
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		s := c.treeStructs()[typeStr(t)]
		if s == nil {
			return "", false
		}
		if cacheOf(s, x.Field) >= 0 {
			return "keys", false
		}
		if _, ok := s.Field(x.Field).Type().Underlying().(*types.Map); ok {
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					return "map", true
				}
			}
		}
	}
	return "", false
}

func (c *Ctx) isCacheCell(k string) bool {
	f := k[strings.LastIndex(k, ".")+1:]
	for _, m := range []string{"types", "resources", "data"} {
		for _, g := range c.cachesOf(m) {
			if f == g {
				return true
			}
		}
	}
	return false
}
