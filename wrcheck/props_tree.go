package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The resource tree: what is announced and what is emitted (C23), in which order (C17, C20), from which keys (C15), and how it is counted (C19).

const (
	treeT = "rs.types"
	treeR = "rs.types[].resources"
	treeL = "rs.types[].resources[].data"
	flag  = int64(1) << 31
)

func (c *Ctx) treeRoot() tVal {
	s := structOf(c.P.namedType(c.P.Root, "ResourceSet"))
	return tNode{"rs", s}
}

func (c *Ctx) treeRun(f *ssa.Function, args ...tVal) (*tev, []tEnd) {
	t := newTev(c)
	st := &tState{env: map[ssa.Value]tVal{}, heap: map[string]tVal{}}
	return t, t.call(st, f, args, nil, nil)
}

// treeOuts evaluates a function of the tree and reports what could not be followed, or is wrong whatever the property.
func (c *Ctx) treeOuts(f *ssa.Function, cats string, args ...tVal) (*tev, []tEnd) {
	if f == nil {
		return nil, nil
	}
	t, outs := c.treeRun(f, args...)
	var ks []string
	for k := range t.issues {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := 0
	for _, k := range ks {
		cat := strings.SplitN(k, "|", 2)[0]
		if strings.Contains(cats, cat) {
			n++
			c.ob(cat, strings.TrimPrefix(k, cat+"|"), false, "", t.issues[k])
		}
	}
	c.ob("followed", f.Name(), n == 0 && len(outs) > 0, "", "the function cannot be followed to its end, or what it does depends on more than the tree")
	// outcomes that do the same
	seen := map[string]bool{}
	var r []tEnd
	for _, o := range outs {
		k := fmt.Sprint(tPack(o.vals))
		for _, e := range o.st.eff {
			k += e.key()
		}
		for x := range o.st.regs {
			_ = x
		}
		if o.st.stop != "" {
			k += "stop"
		}
		if !seen[k] {
			seen[k] = true
			r = append(r, o)
		}
	}
	return t, r
}

func (e *tEff) total() SX {
	if e.kind != "loop" {
		return e.size
	}
	return sumOver(e.f, e.part, e.n, e.size, tTotal(e.body))
}

func tTotal(es []*tEff) SX {
	r := sK(0)
	for _, e := range es {
		if e.kind == "emit" || e.kind == "loop" {
			r = r.add(e.total(), 1)
		}
	}
	return r
}

// tSite is one emission, call of the callback or registration.
type tSite struct {
	path []*tEff // loops around it
	eff  *tEff
	base SX   // position when every loop starts at its first element
	step []SX // what one turn of each loop adds
	top  int  // index among the effects at the top
}

func (s tSite) fs() string {
	var r []string
	for _, l := range s.path {
		r = append(r, l.f)
	}
	return strings.Join(r, " ")
}

func tSites(es []*tEff) []tSite {
	var r []tSite
	var rec func(es []*tEff, pos SX, path []*tEff, step []SX, top int)
	rec = func(es []*tEff, pos SX, path []*tEff, step []SX, top int) {
		for i, e := range es {
			if len(path) == 0 {
				top = i
			}
			switch e.kind {
			case "loop":
				b := tTotal(e.body)
				rec(e.body, pos.add(tFirst(e, b), -1), append(append([]*tEff{}, path...), e), append(append([]SX{}, step...), b), top)
			default:
				r = append(r, tSite{append([]*tEff{}, path...), e, pos, append([]SX{}, step...), top})
			}
			if e.kind == "emit" || e.kind == "loop" {
				pos = pos.add(e.total(), 1)
			}
		}
	}
	rec(es, sK(0), nil, nil, -1)
	return r
}

// tFirst is what a running total has grown by before the second part of a list, as counted from the first element.
func tFirst(l *tEff, step SX) SX {
	if l.part != 2 {
		return sK(0)
	}
	return sumOver(l.f, 1, l.n, l.n, step)
}

// announced takes a value apart: its base and what it grows by in each loop around it.
func (s tSite) announced(v SX) (SX, []SX) {
	var step []SX
	for _, l := range s.path {
		d := sK(0)
		for a, m := range v.t {
			if p, ok := l.pfx[a]; ok {
				d = d.add(p, m)
				v = v.add(sAtom(a), -m)
			}
		}
		v = v.add(tFirst(l, d), -1)
		step = append(step, d)
	}
	return v, step
}

var localMap = regexp.MustCompile(`\bm~\d+`)

// canon names the local sets of names by what was put in them.
func (o tEnd) canon(x SX) SX {
	r := sK(x.c)
	for k, m := range x.t {
		k = localMap.ReplaceAllStringFunc(k, func(n string) string {
			var ks []string
			for g := range o.st.regs {
				if strings.HasPrefix(g, n+"|") {
					ks = append(ks, g[len(n)+1:])
				}
			}
			if len(ks) == 0 {
				return n
			}
			sort.Strings(ks)
			return "m{" + strings.Join(ks, ",") + "}"
		})
		r = r.add(sAtom(k), m)
	}
	return r
}

func (o tEnd) same(a, b SX) bool { return o.canon(a).eq(o.canon(b)) }

// tShape gives the widths of the fields of what is emitted, and their values.
func (e *tEff) tShape() (string, []SX) {
	if e.typ == nil || len(e.vals) == 0 {
		return "", nil
	}
	s, ok := e.vals[0].(tStruct)
	if !ok {
		return "", nil
	}
	st := structOf(e.typ)
	if st == nil || st.NumFields() != len(s.f) {
		return "", nil
	}
	sh := ""
	var vs []SX
	for i, f := range s.f {
		sh += fmt.Sprint(binSize(st.Field(i).Type()), " ")
		if x, ok := asInt(f); ok {
			vs = append(vs, x)
		} else {
			vs = append(vs, sAtom("?"+f.tkey()))
		}
	}
	return sh, vs
}

// treeParts sorts out what is written for the section.
type treeParts struct {
	tables map[string]tSite   // by the loops around them
	ents   map[string][]tSite // directory entries
	data   *tSite             // data entry
	blob   *tSite             // first bytes of a resource
	names  *tSite
	put    *tSite
	odd    []string
}

func (o tEnd) parts(sites []tSite) *treeParts {
	p := &treeParts{tables: map[string]tSite{}, ents: map[string][]tSite{}}
	all := treeT + " " + treeR + " " + treeL
	for i := range sites {
		s := sites[i]
		fs := s.fs()
		sh, _ := s.eff.tShape()
		switch {
		case s.eff.kind == "put":
			if p.put != nil {
				p.odd = append(p.odd, "names are given offsets in several places")
			}
			p.put = &sites[i]
		case s.eff.kind != "emit":
		case sh == shapeTable:
			if _, ok := p.tables[fs]; ok {
				p.odd = append(p.odd, "a directory table is emitted twice: "+s.eff.where)
			}
			p.tables[fs] = s
		case sh == shapeDirEntry:
			p.ents[fs] = append(p.ents[fs], s)
		case sh == shapeData && fs == all:
			if p.data != nil {
				p.odd = append(p.odd, "a data entry is emitted twice: "+s.eff.where)
			}
			p.data = &sites[i]
		case fs == all:
			if p.blob == nil {
				p.blob = &sites[i]
			}
		case fs == "":
			if p.names != nil && p.names.top > s.top {
				break
			}
			if p.names == nil && p.data != nil {
				p.names = &sites[i]
			}
		default:
			p.odd = append(p.odd, "something unknown is emitted: "+s.eff.where)
		}
	}
	return p
}

func (o tEnd) agree(s tSite, v SX, to tSite) string {
	b, st := s.announced(v)
	if s.fs() != to.fs() {
		return "the entry and what it announces are not written for the same elements"
	}
	if !o.same(b, to.base) {
		return "announced: " + o.canon(b).key() + "; emitted at: " + o.canon(to.base).key()
	}
	for i := range st {
		if !o.same(st[i], to.step[i]) {
			return "announced " + o.canon(st[i]).key() + " further for each element; emitted: " + o.canon(to.step[i]).key()
		}
		if !to.path[i].sorted || to.path[i].part != 0 || !s.path[i].sorted {
			return "the entries and what they announce may be written in different orders"
		}
	}
	return ""
}

func (p *treeParts) complete(c *Ctx) bool {
	levels := []string{"", treeT, treeT + " " + treeR}
	ok := len(p.odd) == 0 && p.data != nil && p.blob != nil && p.put != nil && p.names != nil && len(p.tables) == 3
	for _, l := range levels {
		if _, y := p.tables[l]; !y {
			ok = false
		}
	}
	c.ob("parts", "section", ok, "", "the parts of the section are not all written: "+strings.Join(p.odd, "; "))
	return ok
}

var treeLevels = []struct{ at, what, next, f string }{
	{"", "type", treeT, treeT},
	{treeT, "resource", treeT + " " + treeR, treeR},
	{treeT + " " + treeR, "language", "", treeL},
}

func (c *Ctx) treeWrite(cats string) []tEnd {
	_, outs := c.treeOuts(c.meth("ResourceSet", "write"), cats, c.treeRoot(), tExt{"w"})
	return outs
}

func joinPath(a, b string) string { return strings.TrimSpace(a + " " + b) }

func init() {
	register("C23", "Symbolic evaluation of the code that sizes and writes a resource section over a tree of arbitrary shape: sizes are linear forms with sums over the elements of a map and over those that precede the n-th key, each loop is summarised once. The position of every emission (bytes emitted before it, as a base and an amount added per turn of each enclosing loop) is compared with the offset announced for it in the directory entries, data entries and name offsets; the size announced by the object's headers and computed beforehand is compared with the total emitted.",
		func(c *Ctx) {
			n := 0
			for _, o := range c.treeWrite("undecided") {
				if o.kind != "ret" {
					continue
				}
				n++
				sites := tSites(o.st.eff)
				p := o.parts(sites)
				if !p.complete(c) {
					continue
				}
				for _, l := range treeLevels {
					es := p.ents[joinPath(l.at, l.f)]
					c.ob("entries", l.what, len(es) > 0, "", "no directory entry is written at this level")
					for _, s := range es {
						_, v := s.eff.tShape()
						k := fmt.Sprint(l.what, "/", s.path[len(s.path)-1].part)
						off := v[1]
						to := p.data
						if l.next != "" {
							off = off.add(sK(flag), -1)
							x := p.tables[l.next]
							to = &x
						}
						msg := o.agree(s, off, *to)
						c.ob("offset", k, msg == "", s.eff.where, "the offset in the directory entry is not that of what is emitted: "+msg)
						// names
						if id := v[0].add(sK(flag), -1); len(id.t) == 1 && strings.HasPrefix(id.key(), "at(") {
							m := strings.SplitN(id.key()[3:], ";", 2)
							ok := false
							if len(m) == 2 {
								ok = o.registered(m[0], "key:"+strings.TrimSuffix(m[1], ")"), 0)
							}
							c.ob("registered", k, ok, s.eff.where, "a name may have no offset: it was not registered")
						}
					}
				}
				_, dv := p.data.eff.tShape()
				msg := o.agree(*p.data, dv[0], *p.blob)
				c.ob("offset", "data", msg == "", p.data.eff.where, "the offset in the data entry is not that of the data emitted: "+msg)
				c.ob("length", "data", o.same(dv[1], p.blob.eff.size), p.data.eff.where, "the size in the data entry is not that of the data emitted")
				// names
				x, _ := asInt(p.put.eff.vals[0])
				b, st := p.put.announced(x)
				c.ob("offset", "names", o.same(b, p.names.base), p.put.eff.where, "the first name is not emitted at the offset given to it: given "+o.canon(b).key()+"; emitted at "+o.canon(p.names.base).key())
				ok := len(st) == 1
				rec := ""
				if ok {
					l := p.put.path[0]
					all := sumOver(l.f, 0, l.n, l.size, st[0])
					ok = false
					for _, al := range []int64{1, 2, 4, 8, 16} {
						if o.same(p.names.eff.size, all.add(sK(al-1), 1).div(al).mul(al)) {
							ok = true
						}
					}
					rec = appOrder(l)
				}
				c.ob("size", "names", ok, p.names.eff.where, "the names emitted do not take the room counted for them")
				c.ob("record", "names", rec == "", p.put.eff.where, rec)
				ok = len(st) == 1
				if ok {
					n := sK(0)
					for _, e := range p.put.path[0].body {
						if e.kind == "app" {
							k, _ := asInt(e.vals[0])
							n = n.add(k, 1)
						}
					}
					ok = st[0].eq(n.mul(2)) || st[0].eq(n)
				}
				c.ob("order", "names", ok, p.put.eff.where, "names may be emitted in another order than the one their offsets were given in")
				// total
				_, fs := c.treeOuts(c.meth("ResourceSet", "fullSize"), "undecided", c.treeRoot())
				for _, f := range fs {
					if f.kind == "ret" && len(f.vals) > 0 {
						v, ok := asInt(f.vals[0])
						c.ob("size", "section", ok && f.canon(v).eq(o.canon(tTotal(o.st.eff))), "", "the size computed for the section is not what is emitted")
					}
				}
			}
			c.floor("outcomes of write", n, 1)
			c.treeObject()
		})
}

// registered: every name among the keys is in the local map.
func (o tEnd) registered(m, k string, depth int) bool {
	if o.st.regs[m+"|"+k] {
		return true
	}
	if depth > 3 {
		return false
	}
	for g := range o.st.regs {
		if strings.HasPrefix(g, m+"|key:m~") && strings.HasSuffix(g, "[]") {
			if o.registered(g[len(m)+5:len(g)-2], k, depth+1) {
				return true
			}
		}
	}
	return false
}

// appOrder: the length of a name is what precedes it.
func appOrder(l *tEff) string {
	var as []*tEff
	for _, e := range l.body {
		if e.kind == "app" {
			as = append(as, e)
		}
	}
	if len(as) != 2 {
		return ""
	}
	n, _ := asInt(as[0].vals[0])
	m, _ := asInt(as[1].vals[0])
	if n.isK() && n.c == 1 && len(as[0].vals) > 1 {
		if v, ok := asInt(as[0].vals[1]); ok && v.eq(m) {
			return ""
		}
	}
	return "a name is not preceded by its length"
}

// treeObject: the headers of an object file.
func (c *Ctx) treeObject() {
	_, outs := c.treeOuts(c.fn("writeObject"), "undecided", tExt{"w"}, c.treeRoot(), tOpq{"arch"})
	n := 0
	for _, o := range outs {
		if o.kind != "ret" {
			continue
		}
		n++
		sites := tSites(o.st.eff)
		p := o.parts(sites)
		var file, sect, rel, symb *tSite
		for i := range sites {
			s := &sites[i]
			if s.eff.kind != "emit" {
				continue
			}
			switch sh, _ := s.eff.tShape(); {
			case sh == "2 2 4 4 4 2 2 " && len(s.path) == 0:
				file = s
			case sh == "8 4 4 4 4 4 4 2 2 4 " && len(s.path) == 0:
				sect = s
			case sh == "4 4 2 " && len(s.path) == 1:
				rel = s
			case s.eff.size.eq(sK(18)) && len(s.path) == 0:
				symb = s
			}
		}
		root, hasRoot := p.tables[""]
		if file == nil || sect == nil || rel == nil || symb == nil || !hasRoot || p.blob == nil {
			c.ob("parts", "object", false, "", "the parts of the object file are not all written")
			continue
		}
		c.ob("parts", "object", true, "", "")
		_, fv := file.eff.tShape()
		_, sv := sect.eff.tShape()
		end := tPos(o.st.eff, p.blob.top+1)
		relEnd := tPos(o.st.eff, rel.top+1)
		c.ob("offset", "object/data", o.same(sv[4], root.base), sect.eff.where, "the section does not start where the header says")
		c.ob("size", "object/data", o.same(sv[3], end.add(root.base, -1)), sect.eff.where, "the size of the section in the header is not what is emitted: "+o.canon(sv[3]).key()+" and "+o.canon(end.add(root.base, -1)).key())
		c.ob("offset", "object/relocations", o.same(sv[5], tPos(o.st.eff, rel.top)), sect.eff.where, "the relocations are not where the header says")
		c.ob("size", "object/relocations", o.same(sv[7].mul(10), relEnd.add(tPos(o.st.eff, rel.top), -1)), sect.eff.where, "the number of relocations in the header is not that of those emitted")
		c.ob("offset", "object/symbols", o.same(fv[3], symb.base), file.eff.where, "the symbol is not where the header says")
	}
	c.floor("outcomes of writeObject", n, 1)
}

// tPos is what is emitted before the i-th effect.
func tPos(es []*tEff, i int) SX { return tTotal(es[:i]) }
