package main

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// C29, C30: the manifest template is parsed (not executed); the values its holes and conditions take are those makeManifest is shown to
// pass by abstract interpretation; the document it stands for is then handed to the reader as the content of its XML target.

type genManifest struct {
	text  string
	data  Val
	dataT types.Type
	st    *State
	ret   Val
	buf   Val
}

// runGenerator interprets makeManifest with this manifest; it returns the template executions.
func (c *Ctx) runGenerator(e *Engine, f *ssa.Function, arg Val, prep func(st *State)) (gens []genManifest, outs []Outcome, bad string) {
	tmplText := map[*Obj]string{}
	tmplKind := ""
	newT := func(kind string) Model {
		return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			tmplKind = kind
			return []Outcome{{st, PtrV{Obj: newObj("alloc", "template", sig.Results().At(0).Type().(*types.Pointer).Elem())}}}
		}
	}
	for _, k := range []string{"text/template", "html/template"} {
		k := k
		e.models[k+".New"] = newT(k)
		e.models["(*"+k+".Template).Option"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			return []Outcome{{st, args[0]}}
		}
		e.models["(*"+k+".Template).Funcs"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			bad = "the template uses functions of its own: they are not followed"
			return []Outcome{{st, args[0]}}
		}
		e.models["(*"+k+".Template).Parse"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			p, ok := args[0].(PtrV)
			s, ok2 := args[1].(StrV)
			if !ok || !ok2 || !st.normStr(s).Const {
				bad = "the template's text is not a constant"
				return []Outcome{{st, TupleV{args[0], NilV{}}}}
			}
			tmplText[p.Obj] = st.normStr(s).S
			return []Outcome{{st, TupleV{args[0], NilV{}}}}
		}
		e.models[k+".Must"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			return []Outcome{{st, args[0]}}
		}
		e.models["(*"+k+".Template).Execute"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			if e.quiet == 0 {
				g := genManifest{st: st.clone()}
				p, ok := args[0].(PtrV)
				d, ok2 := args[2].(IfaceV)
				if ok && ok2 && tmplText[p.Obj] != "" {
					g.text, g.data, g.dataT = tmplText[p.Obj], d.V, d.Dyn
				} else {
					bad = "a template with unknown text or data is executed"
				}
				if w, ok := args[1].(IfaceV); ok {
					g.buf = w.V
					if isPtrTo(w.Dyn, "bytes.Buffer") {
						e.bufExtend(fr, st, in, w.V, lenSym(freshName("xml")))
					} else {
						bad = "the template is not executed into a bytes.Buffer"
					}
				}
				gens = append(gens, g)
			}
			return []Outcome{{st, NilV{}}}
		}
	}
	st, args := c.newEntry(e, f)
	if arg != nil {
		args[0] = arg
	}
	if prep != nil {
		prep(st)
	}
	outs = e.run(st, f, args)
	for _, o := range outs {
		if len(gens) == 0 {
			break
		}
		s, ok := o.ret.(SliceV)
		if _, _, b, ok2 := e.bufField(o.st, gens[0].buf); !ok || !ok2 || b.Obj != s.Obj || !eqLin(b.Len, s.Len) {
			bad = "what the template produced is not what is returned"
		}
	}
	if tmplKind == "" && bad == "" {
		bad = "no template is made"
	}
	return
}

// ---- the template as an abstract document ----

type hole struct {
	val     Val
	t       types.Type
	escaped bool
	node    string
	ctx     string // where it stands in the document
}

type condition struct {
	val  Val
	node string
}

type tdoc struct {
	st    *State
	out   strings.Builder
	holes []hole
	conds []condition
	bad   []string
	vars  map[string]tval
}

type tval struct {
	v Val
	t types.Type
}

const (
	mkOpen, mkClose = '\uE000', '\uE001'
)

func (d *tdoc) mark(s string) {
	d.out.WriteRune(mkOpen)
	d.out.WriteString(s)
	d.out.WriteRune(mkClose)
}

func (d *tdoc) fail(format string, a ...interface{}) {
	d.bad = append(d.bad, fmt.Sprintf(format, a...))
}

func (d *tdoc) field(x tval, names []string) tval {
	for _, n := range names {
		for {
			if p, ok := x.t.Underlying().(*types.Pointer); ok {
				pv, ok := x.v.(PtrV)
				if !ok {
					d.fail("field %s of an unknown value", n)
					return tval{OpqV{"?"}, types.Typ[types.Invalid]}
				}
				x = tval{d.st.load(pv.Obj, pv.Path, p.Elem()), p.Elem()}
				continue
			}
			break
		}
		obj, idx, _ := types.LookupFieldOrMethod(x.t, true, nil, n)
		v, ok := obj.(*types.Var)
		if !ok {
			d.fail("%s is not a field of %s", n, typeStr(x.t))
			return tval{OpqV{"?"}, types.Typ[types.Invalid]}
		}
		for _, i := range idx {
			if p, ok := x.t.Underlying().(*types.Pointer); ok {
				pv := x.v.(PtrV)
				x = tval{d.st.load(pv.Obj, pv.Path, p.Elem()), p.Elem()}
			}
			sv, ok := x.v.(StructV)
			if !ok {
				d.fail("field %s of an unknown value", n)
				return tval{OpqV{"?"}, types.Typ[types.Invalid]}
			}
			x = tval{sv.F[i], x.t.Underlying().(*types.Struct).Field(i).Type()}
		}
		_ = v
	}
	return x
}

// pipe evaluates a pipeline; escaped tells that its last command is a predefined escaper.
func (d *tdoc) pipe(dot tval, p *parse.PipeNode) (tval, bool) {
	if p == nil {
		d.fail("empty pipeline")
		return tval{}, false
	}
	var cur tval
	escaped := false
	for i, cmd := range p.Cmds {
		args := cmd.Args
		if id, ok := args[0].(*parse.IdentifierNode); ok {
			switch id.Ident {
			case "html", "xml":
				escaped = true
				if i == 0 {
					if len(args) != 2 {
						d.fail("unsupported pipeline %s", p)
						return cur, false
					}
					cur = d.arg(dot, args[1])
				}
				if id.Ident == "xml" {
					d.fail("unknown function xml")
				}
			default:
				d.fail("unsupported function %s in %s", id.Ident, p)
			}
			continue
		}
		if len(args) != 1 {
			d.fail("unsupported command %s", cmd)
			return cur, false
		}
		escaped = false
		cur = d.arg(dot, args[0])
	}
	return cur, escaped
}

func (d *tdoc) arg(dot tval, n parse.Node) tval {
	switch x := n.(type) {
	case *parse.FieldNode:
		return d.field(dot, x.Ident)
	case *parse.DotNode:
		return dot
	case *parse.VariableNode:
		v, ok := d.vars[x.Ident[0]]
		if !ok {
			d.fail("unknown variable %s", x)
		}
		return d.field(v, x.Ident[1:])
	case *parse.StringNode:
		return tval{constStr(x.Text), types.Typ[types.String]}
	case *parse.PipeNode:
		v, _ := d.pipe(dot, x)
		return v
	case *parse.ChainNode:
		return d.field(d.arg(dot, x.Node), x.Field)
	case *parse.BoolNode:
		return tval{boolV(x.True), types.Typ[types.Bool]}
	case *parse.NumberNode:
		return tval{IntV{K(x.Int64)}, types.Typ[types.Int]}
	}
	d.fail("unsupported template expression %s", n)
	return tval{OpqV{"?"}, types.Typ[types.Invalid]}
}

func (d *tdoc) list(dot tval, l *parse.ListNode) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		d.node(dot, n)
	}
}

func (d *tdoc) node(dot tval, n parse.Node) {
	switch x := n.(type) {
	case *parse.TextNode:
		d.out.Write(x.Text)
	case *parse.CommentNode:
	case *parse.ActionNode:
		v, esc := d.pipe(dot, x.Pipe)
		if len(x.Pipe.Decl) > 0 {
			for _, dc := range x.Pipe.Decl {
				d.vars[dc.Ident[0]] = v
			}
			return
		}
		d.mark("h" + strconv.Itoa(len(d.holes)))
		d.holes = append(d.holes, hole{val: v.v, t: v.t, escaped: esc, node: x.String()})
	case *parse.IfNode, *parse.WithNode:
		var b *parse.BranchNode
		inner := dot
		if y, ok := n.(*parse.IfNode); ok {
			b = &y.BranchNode
		} else {
			b = &n.(*parse.WithNode).BranchNode
		}
		v, _ := d.pipe(dot, b.Pipe)
		if b.NodeType == parse.NodeWith {
			inner = v
		}
		for _, dc := range b.Pipe.Decl {
			d.vars[dc.Ident[0]] = v
		}
		k := strconv.Itoa(len(d.conds))
		d.conds = append(d.conds, condition{v.v, b.Pipe.String()})
		d.mark("+" + k)
		d.list(inner, b.List)
		d.mark("~" + k)
		d.list(dot, b.ElseList)
		d.mark("-" + k)
	case *parse.RangeNode:
		v, _ := d.pipe(dot, x.Pipe)
		es, ok := elems(d.st, v.v, 16)
		if !ok {
			d.fail("range over a list of unknown length: %s", x.Pipe)
			return
		}
		st, _ := v.t.Underlying().(*types.Slice)
		if st == nil {
			d.fail("range over %s", typeStr(v.t))
			return
		}
		for i, e := range es {
			el := tval{e, st.Elem()}
			switch len(x.Pipe.Decl) {
			case 1:
				d.vars[x.Pipe.Decl[0].Ident[0]] = el
			case 2:
				d.vars[x.Pipe.Decl[0].Ident[0]] = tval{IntV{K(int64(i))}, types.Typ[types.Int]}
				d.vars[x.Pipe.Decl[1].Ident[0]] = el
			}
			d.list(el, x.List)
		}
		if len(es) == 0 {
			d.list(dot, x.ElseList)
		}
	default:
		d.fail("unsupported template node %s", n)
	}
}

// expand parses the template and lays it out with markers for holes and conditions.
func expandTemplate(g genManifest) *tdoc {
	d := &tdoc{st: g.st, vars: map[string]tval{}}
	tr := parse.New("manifest")
	fn := map[string]interface{}{}
	for _, n := range []string{"html", "and", "or", "not", "eq", "ne", "lt", "gt", "le", "ge", "printf", "print", "println", "js", "urlquery", "len", "index", "slice", "call"} {
		fn[n] = 0
	}
	sets := map[string]*parse.Tree{}
	if _, err := tr.Parse(g.text, "", "", sets, fn); err != nil {
		d.fail("template: %v", err)
		return d
	}
	root := tval{g.data, g.dataT}
	d.vars["$"] = root
	d.list(root, tr.Root)
	return d
}

// xnode is an element of the document.
type xnode struct {
	name, space string
	attrs       []xattr
	kids        []*xnode
	text        string // with markers
	conds       []string
}

type xattr struct{ name, val string }

// tree parses the laid out document, whatever is conditional included.
func (d *tdoc) tree(contexts bool) *xnode {
	dec := xml.NewDecoder(strings.NewReader(d.out.String()))
	root := &xnode{}
	stack := []*xnode{root}
	depth := map[string]int{}
	var conds []string
	for {
		t, err := dec.Token()
		if err != nil {
			if err.Error() != "EOF" {
				d.fail("not well-formed: %v", err)
			}
			break
		}
		top := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			n := &xnode{name: x.Name.Local, space: x.Name.Space, conds: append([]string{}, conds...)}
			seen := map[string]bool{}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				if seen[a.Name.Local] {
					d.fail("attribute %s twice in <%s>", a.Name.Local, n.name)
				}
				seen[a.Name.Local] = true
				n.attrs = append(n.attrs, xattr{a.Name.Local, a.Value})
				for _, m := range marks(a.Value) {
					d.place(m, "attribute "+a.Name.Local+" of <"+n.name+">")
				}
			}
			if strings.ContainsRune(x.Name.Local, mkOpen) {
				d.fail("an element name depends on a value")
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			s := string(x)
			top.text += s
			for _, m := range marks(s) {
				switch m[0] {
				case '+':
					conds = append(conds, m)
					depth[m[1:]] = len(stack)
				case '~':
					if len(conds) == 0 || conds[len(conds)-1] != "+"+m[1:] || depth[m[1:]] != len(stack) {
						d.fail("a conditional part is not a whole number of elements")
					} else {
						conds[len(conds)-1] = m
					}
				case '-':
					if len(conds) == 0 || conds[len(conds)-1] != "~"+m[1:] || depth[m[1:]] != len(stack) {
						d.fail("a conditional part is not a whole number of elements")
					} else {
						conds = conds[:len(conds)-1]
					}
				case 'h':
					d.place(m, "text of <"+top.name+">")
				}
			}
		case xml.Comment:
			for _, m := range marks(string(x)) {
				d.place(m, "!comment")
			}
		case xml.ProcInst:
			for _, m := range marks(string(x.Inst)) {
				d.place(m, "!processing instruction")
			}
		case xml.Directive:
			for _, m := range marks(string(x)) {
				d.place(m, "!directive")
			}
		}
	}
	return root
}

func (d *tdoc) place(m, ctx string) {
	if m[0] != 'h' {
		return
	}
	i, _ := strconv.Atoi(m[1:])
	d.holes[i].ctx = ctx
}

func marks(s string) []string {
	var out []string
	for {
		i := strings.IndexRune(s, mkOpen)
		if i < 0 {
			return out
		}
		s = s[i+len(string(mkOpen)):]
		j := strings.IndexRune(s, mkClose)
		if j < 0 {
			return out
		}
		out = append(out, s[:j])
		s = s[j+len(string(mkClose)):]
	}
}

// resolve gives the value of a marked text under a decision of every condition.
func (d *tdoc) resolve(s string, on func(i int) bool) (StrV, bool) {
	var lit strings.Builder
	var sym *StrV
	active := []bool{true}
	for s != "" {
		i := strings.IndexRune(s, mkOpen)
		all := true
		for _, a := range active {
			all = all && a
		}
		if i < 0 {
			if all {
				lit.WriteString(s)
			}
			break
		}
		if all {
			lit.WriteString(s[:i])
		}
		s = s[i+len(string(mkOpen)):]
		j := strings.IndexRune(s, mkClose)
		m := s[:j]
		s = s[j+len(string(mkClose)):]
		k, _ := strconv.Atoi(m[1:])
		switch m[0] {
		case '+':
			active = append(active, on(k))
		case '~':
			active[len(active)-1] = !active[len(active)-1]
		case '-':
			active = active[:len(active)-1]
		case 'h':
			if !all {
				continue
			}
			v, ok := d.holes[k].val.(StrV)
			if !ok {
				return StrV{}, false
			}
			v = d.st.normStr(v)
			if o, ok := escapedOf[v.Sym]; ok && !d.holes[k].escaped {
				v = d.st.normStr(o)
			}
			if v.Const {
				lit.WriteString(v.S)
			} else if sym == nil {
				x := v
				sym = &x
			} else {
				return StrV{}, false
			}
		}
	}
	if sym != nil {
		if strings.TrimSpace(lit.String()) != "" {
			return StrV{}, false
		}
		return *sym, true
	}
	return constStr(lit.String()), true
}

func (n *xnode) present(on func(i int) bool) bool {
	for _, c := range n.conds {
		k, _ := strconv.Atoi(c[1:])
		if on(k) != (c[0] == '+') {
			return false
		}
	}
	return true
}

// xmlFill stores what encoding/xml leaves in *(o,p) of type t after decoding these elements, in order.
func (d *tdoc) xmlFill(st *State, ns []*xnode, o *Obj, p string, t types.Type, on func(i int) bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if len(ns) == 0 {
			return true
		}
		ob := newObj("alloc", "xmls", u.Elem())
		ob.arr, ob.local, ob.zero = true, true, true
		for i, n := range ns {
			if !d.xmlFill(st, []*xnode{n}, ob, pathIdx("", K(int64(i))), u.Elem(), on) {
				return false
			}
		}
		l := K(int64(len(ns)))
		st.store(o, p, SliceV{Obj: ob, Off: K(0), Len: l, Cap: l}, t)
		return true
	case *types.Pointer:
		if len(ns) == 0 {
			return true
		}
		ob := newObj("alloc", "xmlp", u.Elem())
		ob.zero, ob.local = true, true
		st.store(o, p, PtrV{Obj: ob}, t)
		return d.xmlFill(st, ns, ob, "", u.Elem(), on)
	case *types.Struct:
		for _, n := range ns {
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() || f.Name() == "XMLName" {
					continue
				}
				fp := pathField(p, i)
				tag := reflect.StructTag(u.Tag(i)).Get("xml")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				space := ""
				if j := strings.LastIndex(name, " "); j >= 0 {
					space, name = name[:j], name[j+1:]
				}
				if name == "" {
					name = f.Name()
				}
				has := func(o string) bool { return strings.Contains(","+opts+",", ","+o+",") }
				switch {
				case has("attr"):
					for _, a := range n.attrs {
						if a.name == name {
							s, ok := d.resolve(a.val, on)
							if !ok || !isStr(f.Type()) {
								return false
							}
							st.store(o, fp, s, f.Type())
						}
					}
				case has("chardata"):
					s, ok := d.resolve(n.text, on)
					if !ok || !isStr(f.Type()) {
						return false
					}
					st.store(o, fp, s, f.Type())
				case has("innerxml"), has("any"), has("comment"), has("cdata"):
					return false
				default:
					parents := strings.Split(name, ">")
					cur := []*xnode{n}
					for _, pn := range parents {
						var next []*xnode
						for _, c := range cur {
							for _, k := range c.kids {
								if k.name == pn && k.present(on) && (space == "" || k.space == space) {
									next = append(next, k)
								}
							}
						}
						cur = next
					}
					if !d.xmlFill(st, cur, o, fp, f.Type(), on) {
						return false
					}
				}
			}
		}
		return true
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return len(ns) == 0
		}
		for _, n := range ns {
			s, ok := d.resolve(n.text, on)
			if !ok {
				return false
			}
			st.store(o, p, s, t)
		}
		return true
	}
	return len(ns) == 0
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

type manifestSetting struct {
	vals  map[string]Val // field path (index list as text) -> value
	label string
}

// leaf fields of AppManifest
type mleaf struct {
	name string
	idx  []int
	t    types.Type
}

func mleaves(t types.Type, pre string, idx []int) []mleaf {
	var out []mleaf
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if pre != "" {
				n = pre + "." + n
			}
			out = append(out, mleaves(s.Field(i).Type(), n, append(append([]int{}, idx...), i))...)
		}
		return out
	}
	return []mleaf{{pre, idx, t}}
}

func withField(v Val, idx []int, x Val) Val {
	if len(idx) == 0 {
		return x
	}
	s := v.(StructV)
	f := append([]Val{}, s.F...)
	f[idx[0]] = withField(f[idx[0]], idx[1:], x)
	return StructV{T: s.T, F: f}
}

func getField(v Val, idx []int) Val {
	for _, i := range idx {
		s, ok := v.(StructV)
		if !ok {
			return nil
		}
		v = s.F[i]
	}
	return v
}

// roundTrip generates and reads back one manifest; it returns what differs.
func (c *Ctx) roundTrip(gen, read *ssa.Function, mt types.Type, ls []mleaf, vals map[string]Val) string {
	resetGlobals()
	e := c.freshRun()
	e.noMerge = true
	m := symVal("m", mt)
	for _, l := range ls {
		if v, ok := vals[l.name]; ok {
			m = withField(m, l.idx, v)
		}
	}
	var name, desc StrV
	gens, outs, bad := c.runGenerator(e, gen, m, func(st *State) {
		for _, l := range ls {
			if s, ok := getField(m, l.idx).(StrV); ok && !s.Const {
				st.addFact(addc(s.Len, -1)) // free text is given
			}
		}
	})
	_, _ = name, desc
	if bad != "" {
		return bad
	}
	if len(gens) != 1 || len(outs) != 1 {
		return fmt.Sprintf("%d ways of generating it", len(gens))
	}
	g := gens[0]
	d := expandTemplate(g)
	root := d.tree(true)
	if len(d.bad) > 0 {
		return strings.Join(d.bad, "; ")
	}
	on := func(i int) bool {
		switch x := d.conds[i].val.(type) {
		case BoolV:
			switch g.st.truth(x) {
			case 1:
				return true
			case 0:
				return false
			}
		case StrV:
			x = g.st.normStr(x)
			if x.Const {
				return x.S != ""
			}
			if g.st.prove(addc(x.Len, -1)) {
				return true
			}
		case IntV:
			if x.L.isConst() {
				return x.L.c != 0
			}
		case SliceV:
			if x.Len.isConst() {
				return x.Len.c != 0
			}
		case NilV:
			return false
		}
		d.fail("the condition %s does not depend on the options alone", d.conds[i].node)
		return false
	}
	var tops []*xnode
	for _, k := range root.kids {
		if k.present(on) {
			tops = append(tops, k)
		}
	}
	if len(tops) != 1 {
		return "not one root element"
	}
	// each place that is read exists at most once
	e2 := c.freshRun()
	e2.noMerge = true
	filled := 0
	fillOK := true
	e2.models["encoding/xml.Unmarshal"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		iv, ok := args[1].(IfaceV)
		if !ok {
			fillOK = false
			return []Outcome{{st, NilV{}}}
		}
		tp, ok := iv.V.(PtrV)
		if !ok || !d.xmlFill(st, tops, tp.Obj, tp.Path, tp.typ(), on) {
			fillOK = false
		}
		filled++
		return []Outcome{{st, NilV{}}}
	}
	st, args := c.newEntry(e2, read)
	for _, f := range g.st.facts {
		st.addFact(f)
	}
	n := 0
	var diff []string
	for _, o := range e2.run(st, read, args) {
		tv, _ := o.ret.(TupleV)
		if len(tv) != 2 {
			return "unexpected results of the reader"
		}
		if is, known := isNilVal(o.st, tv[1]); !known || !is {
			diff = append(diff, "reading it back may fail")
			continue
		}
		n++
		for _, l := range ls {
			a, b := getField(m, l.idx), getField(tv[0], l.idx)
			if !sameVal(o.st, a, b) {
				diff = append(diff, fmt.Sprintf("%s is %s and is read back as %s", l.name, short(a), short(b)))
			}
		}
	}
	if len(d.bad) > 0 {
		return strings.Join(d.bad, "; ")
	}
	if !fillOK || filled == 0 {
		return "the reader's target does not match the document"
	}
	if n == 0 {
		return "no path reads it back"
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		return diff[0]
	}
	return ""
}

func short(v Val) string {
	if v == nil {
		return "?"
	}
	s := v.Key()
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

func sameVal(st *State, a, b Val) bool {
	if a == nil || b == nil {
		return false
	}
	switch x := a.(type) {
	case BoolV:
		y, ok := b.(BoolV)
		return ok && (x.Key() == y.Key() || st.truth(x) >= 0 && st.truth(x) == st.truth(y))
	case IntV:
		y, ok := b.(IntV)
		return ok && st.proveEq(sub(x.L, y.L))
	case StrV:
		y, ok := b.(StrV)
		return ok && st.normStr(x).Key() == st.normStr(y).Key()
	case ArrV:
		y, ok := b.(ArrV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(st, x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	}
	return a.Key() == b.Key()
}

// manifestParts finds the generator, the reader and the leaf fields.
func (c *Ctx) manifestParts() (gen, read *ssa.Function, mt types.Type, ls []mleaf) {
	gen, read = c.fn("makeManifest"), c.fn("AppManifestFromXML")
	mt = c.P.namedType(c.P.Root, "AppManifest")
	if gen == nil || read == nil || mt == nil {
		c.ob("anchor", "AppManifest", mt != nil, "", "type not found")
		return nil, nil, nil, nil
	}
	return gen, read, mt, mleaves(mt, "", nil)
}

func init() {
	register("C29", "The manifest template is parsed to its syntax tree; abstract interpretation of makeManifest gives the value of every hole and condition, for each declared value of each enumeration, for each boolean option alone, absent alone, and in every pair, with free texts and version numbers left symbolic; the document so described is handed to AppManifestFromXML through the struct tags of its XML target (constant propagation): every field must come back with the value it had.",
		func(c *Ctx) {
			gen, read, mt, ls := c.manifestParts()
			if gen == nil || mt == nil {
				return
			}
			var bools []mleaf
			var enums []mleaf
			ev := map[string]map[string]int64{}
			for _, l := range ls {
				b, ok := l.t.Underlying().(*types.Basic)
				switch {
				case ok && b.Info()&types.IsBoolean != 0:
					bools = append(bools, l)
				case ok && b.Info()&types.IsInteger != 0:
					vs := enumConsts(c.P.Root, l.t)
					if len(vs) < 2 {
						c.ob("option", l.name, false, "", "not an enumeration")
					}
					ev[l.name] = vs
					enums = append(enums, l)
				}
			}
			c.floor("boolean options", len(bools), 11)
			c.floor("enumerations", len(enums), 3)
			base := func(b bool, pick int) map[string]Val {
				vals := map[string]Val{}
				for _, l := range bools {
					vals[l.name] = boolV(b)
				}
				for _, l := range enums {
					ns := sortedKeys(ev[l.name])
					vals[l.name] = IntV{K(ev[l.name][ns[pick%len(ns)]])}
				}
				return vals
			}
			run := func(label string, vals map[string]Val) {
				c.count("documents", 1)
				msg := c.roundTrip(gen, read, mt, ls, vals)
				c.ob("back", label, msg == "", c.posFn(gen), msg)
			}
			c.task("enumerations", func() {
				var rec func(i int, label string, vals map[string]Val)
				for _, b := range []bool{false, true} {
					rec = func(i int, label string, vals map[string]Val) {
						if i == len(enums) {
							run(label, vals)
							return
						}
						for _, n := range sortedKeys(ev[enums[i].name]) {
							vals[enums[i].name] = IntV{K(ev[enums[i].name][n])}
							rec(i+1, label+" "+n, vals)
						}
					}
					rec(0, fmt.Sprintf("options all %v,", b), base(b, 0))
				}
			})
			for pick := 0; pick < 2; pick++ {
				for _, b := range []bool{false, true} {
					pick, b := pick, b
					c.task(fmt.Sprintf("options %v %d", b, pick), func() {
						for i, x := range bools {
							for j := i; j < len(bools); j++ {
								vals := base(b, pick+i+j)
								vals[x.name], vals[bools[j].name] = boolV(!b), boolV(!b)
								run(fmt.Sprintf("all %v but %s, %s", b, x.name, bools[j].name), vals)
							}
						}
					})
				}
			}
			c.task("free text absent", func() {
				for _, l := range ls {
					if _, ok := symVal("t", l.t).(StrV); !ok {
						continue
					}
					vals := base(false, 0)
					vals[l.name] = constStr("")
					// without a name no identity is written, hence no version
					for _, k := range ls {
						if a, ok := k.t.Underlying().(*types.Array); ok {
							vals[k.name] = zeroVal(a)
						}
					}
					run("no "+l.name, vals)
				}
			})
			c.final = func() { c.floor("documents", c.counts["documents"], 300) }
		})

	register("C30", "The manifest template is parsed to its syntax tree and its holes are located in the document; abstract interpretation of makeManifest gives the value of each hole: a hole whose value is not a constant or a number must end with the predefined escaper and stand in the text of an element or inside a quoted attribute value, and nothing else may be returned than what the template produced.",
		func(c *Ctx) {
			gen, _, _, _ := c.manifestParts()
			if gen == nil {
				return
			}
			e := c.freshRun()
			e.maxPart = 200
			gens, outs, bad := c.runGenerator(e, gen, nil, nil)
			c.ob("generator", "makeManifest", bad == "" && len(outs) > 0 && len(gens) > 0, c.posFn(gen), bad)
			free := 0
			for _, g := range gens {
				d := expandTemplate(g)
				d.tree(true)
				for _, b := range d.bad {
					c.ob("template", b, false, c.posFn(gen), b)
				}
				for _, h := range d.holes {
					v := h.val
					if s, ok := v.(StrV); ok {
						v = g.st.normStr(s)
					}
					switch x := v.(type) {
					case StrV:
						if x.Const {
							ok := !strings.ContainsAny(x.S, "<>&\"'") || h.escaped
							c.ob("constant", h.node, ok, c.posFn(gen), fmt.Sprintf("the constant %q is not escaped", x.S))
							continue
						}
						if sp, ok := sprintfTab[x.Sym]; ok && numeric(sp) {
							c.ob("number", h.node, true, c.posFn(gen), "")
							continue
						}
						free++
						safe := h.escaped || escapedSym(x.Sym)
						c.ob("escaped", h.node, safe, c.posFn(gen), "free text is written without being escaped")
						c.ob("context", h.node, h.ctx != "" && h.ctx[0] != '!', c.posFn(gen), "free text is written in a context where escaping is not enough: "+strings.TrimPrefix(h.ctx, "!"))
					case IntV, BoolV:
						c.ob("number", h.node, true, c.posFn(gen), "")
					default:
						c.ob("escaped", h.node, h.escaped, c.posFn(gen), "an unknown value is written without being escaped")
					}
				}
			}
			c.floor("holes with free text", c.ruleCount("escaped"), 2)
			_ = free
			c.finish(e)
		})
}

func numeric(sp sprintfV) bool {
	for _, a := range sp.args {
		if _, ok := a.(IntV); !ok {
			return false
		}
	}
	return !strings.ContainsAny(strings.NewReplacer("%d", "", "%x", "", "%X", "", "%v", "").Replace(sp.format), "<>&\"'%")
}

func escapedSym(s string) bool {
	for _, f := range []string{"pure:html.EscapeString", "pure:text/template.HTMLEscapeString", "pure:html/template.HTMLEscapeString"} {
		if strings.HasPrefix(s, f) {
			return true
		}
	}
	return false
}
