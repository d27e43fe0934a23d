package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: the text forms of the manifest enumerations. C37: version flags and file type in JSON.
// Both are decided by constant propagation over the (finite) set of values, on the abstract interpreter.

// enumConsts lists the declared constants of a type, by name.
func enumConsts(pk *ssa.Package, t types.Type) map[string]int64 {
	out := map[string]int64{}
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), t) {
			if i, ok := constant.Int64Val(c.Val()); ok {
				out[n] = i
			}
		}
	}
	return out
}

// freshRun makes an engine for one constant-propagation run.
func (c *Ctx) freshRun() *Engine {
	e := c.engine()
	e.initGlobals, e.unroll, e.maxPart = true, 64, 400
	return e
}

func isNilVal(st *State, v Val) (isNil, known bool) {
	switch st.truth(nilCond(v)) {
	case 1:
		return true, true
	case 0:
		return false, true
	}
	return false, false
}

// folds: how a symbol derived from the input text was normalised.
func foldsOf(sym string) (lower, upper, trim bool) {
	return strings.Contains(sym, "ToLower"), strings.Contains(sym, "ToUpper"), strings.Contains(sym, "TrimSpace")
}

func (c *Ctx) enumText(tn string, t types.Type, mar, unm *ssa.Function) {
	vals := enumConsts(c.P.Root, t)
	c.ob("values", tn, len(vals) >= 2, "", "fewer than two declared values")
	names := sortedKeys(vals)
	byVal := map[int64]string{}
	for _, n := range names {
		if o, dup := byVal[vals[n]]; dup {
			c.ob("values", tn+": "+n, false, "", "same value as "+o)
		}
		byVal[vals[n]] = n
	}
	recvOf := func(i Lin) Val { return IntV{i} }
	// encoding
	texts := map[string]string{}
	owner := map[string]string{}
	for _, n := range names {
		c.count("encoded values", 1)
		e := c.freshRun()
		st, _ := c.newEntry(e, mar)
		outs := e.run(st, mar, []Val{recvOf(K(vals[n]))})
		msg := ""
		if len(outs) == 0 {
			msg = "no path returns"
		}
		for _, o := range outs {
			tv, _ := o.ret.(TupleV)
			if len(tv) != 2 {
				msg = "unexpected results"
				continue
			}
			if is, known := isNilVal(o.st, tv[1]); !known || !is {
				msg = "may be refused"
				continue
			}
			s, ok := tv[0].(SliceV)
			var tx *StrV
			if ok {
				tx = textOf(o.st, s)
			}
			if tx == nil || !tx.Const {
				msg = "the text is not a constant: " + tv[0].Key()
				continue
			}
			if old, ok := texts[n]; ok && old != tx.S {
				msg = "two texts"
			}
			texts[n] = tx.S
		}
		c.ob("text", tn+": "+n, msg == "", c.posFn(mar), "value "+n+" has no text form: "+msg)
		if msg == "" {
			if o, dup := owner[texts[n]]; dup {
				c.ob("distinct", tn+": "+n, false, c.posFn(mar), fmt.Sprintf("%s and %s have the same text %q", o, n, texts[n]))
			} else {
				owner[texts[n]] = n
				c.ob("distinct", tn+": "+n, true, c.posFn(mar), "")
			}
		}
	}
	// every other value is refused
	{
		e := c.freshRun()
		st, args := c.newEntry(e, mar)
		v, ok := args[0].(IntV)
		if ok {
			for _, n := range names {
				st.assumeNe(addc(v.L, -vals[n]))
			}
			outs := e.run(st, mar, args)
			c.ob("refuse-value", tn+" MarshalText", len(outs) > 0, c.posFn(mar), "nothing analysed")
			for _, o := range outs {
				tv, _ := o.ret.(TupleV)
				is, known := true, false
				if len(tv) == 2 {
					is, known = isNilVal(o.st, tv[1])
				}
				c.ob("refuse-value", tn+" MarshalText", known && !is, c.posFn(mar), "a value that is none of the declared ones can be encoded without an error")
			}
		} else {
			c.ob("refuse-value", tn+" MarshalText", false, c.posFn(mar), "unexpected receiver")
		}
	}
	// decoding an arbitrary text
	cands := map[string]bool{}
	for _, n := range names {
		if t, ok := texts[n]; ok {
			cands[t] = true
		}
	}
	{
		e := c.freshRun()
		e.noMerge = true
		st, args := c.newEntry(e, unm)
		p, ok := args[0].(PtrV)
		if !ok {
			c.ob("decode", tn, false, c.posFn(unm), "unexpected receiver")
			return
		}
		dt := p.typ()
		before := st.load(p.Obj, p.Path, dt)
		outs := e.run(st, unm, args)
		c.ob("decode", tn, len(outs) > 0, c.posFn(unm), "nothing analysed")
		for k, q := range streqTab {
			for _, pr := range [][2]StrV{{q.a, q.b}, {q.b, q.a}} {
				if pr[0].Const && !pr[1].Const {
					lo, up, tr := foldsOf(pr[1].Sym)
					folded := pr[0].S
					if lo {
						folded = strings.ToLower(folded)
					} else if up {
						folded = strings.ToUpper(folded)
					}
					if tr {
						folded = strings.TrimSpace(folded)
					}
					if folded != pr[0].S {
						continue // can never match
					}
					cands[pr[0].S] = true
					c.ob("normalised", fmt.Sprintf("%s: %q", tn, pr[0].S), (lo || up) && tr, c.posFn(unm), "the text compared with this spelling is not brought to one case and stripped of surrounding spaces first")
				}
			}
			_ = k
		}
		for _, o := range outs {
			after := o.st.load(p.Obj, p.Path, dt)
			is, known := isNilVal(o.st, o.ret)
			if !known {
				c.ob("unknown-text", tn, false, c.posFn(unm), "a path's result is neither certainly an error nor certainly a success")
				continue
			}
			if !is {
				c.ob("unchanged", tn, after.Key() == before.Key(), c.posFn(unm), "the destination is changed although an error is returned")
				continue
			}
			matched := false
			for a, v := range o.st.bools {
				if q, ok := streqTab[a]; ok && v && (q.a.Const || q.b.Const) {
					matched = true
				}
			}
			for _, f := range o.st.facts { // compared with "" by its length
				for _, t := range f.t {
					if strings.HasPrefix(t.a.name, "len:") && strings.Contains(t.a.name, "TrimSpace") && o.st.prove(neg(atomLin(t.a))) {
						matched = true
						cands[""] = true
					}
				}
			}
			for sy := range o.st.strc {
				if strings.Contains(sy, "TrimSpace") {
					matched = true
				}
			}
			if !matched && os.Getenv("WR_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, dumpFacts(o.st), o.st.bools)
			}
			c.ob("unknown-text", tn, matched, c.posFn(unm), "a text that equals none of the spellings is accepted")
		}
	}
	// decoding every spelling, in every style of writing
	spell := make([]string, 0, len(cands))
	for s := range cands {
		spell = append(spell, s)
	}
	sort.Strings(spell)
	c.ob("spellings", tn, len(spell) >= len(names), c.posFn(unm), "fewer spellings than values")
	for _, s := range spell {
		var got *int64
		for _, v := range []string{s, strings.ToUpper(s), strings.ToLower(s), strings.Title(s), " \t" + s + " \r\n"} {
			e := c.freshRun()
			st, args := c.newEntry(e, unm)
			p := args[0].(PtrV)
			args[1] = textBytes(st, constStr(v))
			outs := e.run(st, unm, args)
			c.count("decoded spellings", 1)
			msg := ""
			if len(outs) == 0 {
				msg = "no path returns"
			}
			for _, o := range outs {
				if is, known := isNilVal(o.st, o.ret); !known || !is {
					msg = fmt.Sprintf("%q may be refused", v)
					continue
				}
				i, ok := o.st.load(p.Obj, p.Path, p.typ()).(IntV)
				if !ok || !i.L.isConst() {
					msg = fmt.Sprintf("%q gives no single value", v)
					continue
				}
				if _, ok := byVal[i.L.c]; !ok {
					msg = fmt.Sprintf("%q gives an undeclared value", v)
				} else if got != nil && *got != i.L.c {
					msg = fmt.Sprintf("%q gives another value", v)
				} else {
					x := i.L.c
					got = &x
				}
			}
			c.ob("spelling", fmt.Sprintf("%s: %q", tn, s), msg == "", c.posFn(unm), msg)
		}
		for _, n := range names {
			if t, ok := texts[n]; ok && t == s && got != nil {
				c.ob("back", tn+": "+n, *got == vals[n], c.posFn(unm), fmt.Sprintf("the text %q of %s decodes to %s", s, n, byVal[*got]))
			}
		}
	}
}

func (c *Ctx) posFn(f *ssa.Function) string {
	if f == nil || len(f.Blocks) == 0 {
		return "?"
	}
	return c.P.pos(f.Blocks[0].Instrs[0])
}

// ---- C37 ----

// jsonDoc is what an encoded value contains: path of object keys -> value. Absent keys were omitted.
type jsonDoc map[string]Val

// jsonFlatten records what encoding/json would write for v.
func jsonFlatten(st *State, doc jsonDoc, path string, v Val, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		isNil, known := isNilVal(st, v)
		if !known {
			return false
		}
		if isNil {
			return true
		}
		p, ok := v.(PtrV)
		if !ok {
			return false
		}
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			doc[path] = v
			return true
		}
		return jsonFlatten(st, doc, path, st.load(p.Obj, p.Path, u.Elem()), u.Elem())
	case *types.Struct:
		sv, ok := v.(StructV)
		if !ok {
			return false
		}
		doc[path] = OpqV{"object"}
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			name, opts := jsonTag(u, i)
			if name == "-" {
				continue
			}
			if u.Field(i).Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				if !jsonFlatten(st, doc, path, sv.F[i], u.Field(i).Type()) {
					return false
				}
				continue
			}
			fv := sv.F[i]
			if strings.Contains(opts, "omitempty") {
				switch x := fv.(type) {
				case StrV:
					if x = st.normStr(x); x.Const && x.S == "" {
						continue
					}
				case NilV:
					continue
				case PtrV:
					if is, known := isNilVal(st, x); known && is {
						continue
					}
				case IntV:
					if x.L.isConst() && x.L.c == 0 {
						continue
					}
				case BoolV:
					if x.op == "const" && !x.B {
						continue
					}
				}
			}
			if !jsonFlatten(st, doc, path+"/"+name, fv, u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	doc[path] = v
	return true
}

func jsonTag(u *types.Struct, i int) (name, opts string) {
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	name, opts, _ = strings.Cut(tag, ",")
	if name == "" {
		name = u.Field(i).Name()
	}
	return
}

// jsonFill stores what decoding the document into *(o,p) of type t leaves there.
func jsonFill(st *State, doc jsonDoc, path string, o *Obj, p string, t types.Type) bool {
	v, present := doc[path]
	if !present {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			st.store(o, p, v, t)
			return true
		}
		no := newObj("alloc", "json", u.Elem())
		no.zero, no.local = true, true
		st.store(o, p, PtrV{Obj: no}, t)
		return jsonFill(st, doc, path, no, "", u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			name, _ := jsonTag(u, i)
			if u.Field(i).Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				if !jsonFill(st, doc, path, o, pathField(p, i), u.Field(i).Type()) {
					return false
				}
				continue
			}
			// keys match case-insensitively
			key := path + "/" + name
			if _, ok := doc[key]; !ok {
				for k := range doc {
					if strings.EqualFold(k, key) {
						key = k
					}
				}
			}
			if !jsonFill(st, doc, key, o, pathField(p, i), u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Map:
		mo := newObj("alloc", "jsonmap", t)
		mo.local = true
		mo.content = freshName("jsonmap")
		st.store(o, p, MapV{mo}, t)
		return true
	case *types.Basic:
		if _, isS := v.(StrV); isS != (u.Info()&types.IsString != 0) {
			return false
		}
		if _, isI := v.(IntV); isI != (u.Info()&types.IsInteger != 0) {
			return false
		}
		if _, isB := v.(BoolV); isB != (u.Info()&types.IsBoolean != 0) {
			return false
		}
	}
	st.store(o, p, v, t)
	return true
}

type flagCase struct {
	flags []bool
	typ   int64
}

func init() {
	register("C31", "Constant propagation over each manifest enumeration (abstract interpretation of MarshalText on every declared value and on all other values at once; of UnmarshalText on an arbitrary text, and on every spelling it compares its input with): the text of every value is a constant, distinct, and decodes to the value; every spelling decodes to one declared value in any case and with surrounding spaces; a path on which no spelling matched returns an error; no path that returns an error changes the destination.",
		func(c *Ctx) {
			sc := c.P.Root.Pkg.Scope()
			n := 0
			for _, tn := range sc.Names() {
				o, ok := sc.Lookup(tn).(*types.TypeName)
				if !ok || !o.Exported() {
					continue
				}
				if b, ok := o.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				mar, unm := c.P.method(c.P.Root, tn, "MarshalText"), c.P.method(c.P.Root, tn, "UnmarshalText")
				if mar == nil && unm == nil {
					continue
				}
				if mar == nil || unm == nil {
					c.ob("both-ways", tn, false, "", "has only one of MarshalText and UnmarshalText")
					continue
				}
				n++
				t, tn := o.Type(), tn
				c.task(tn, func() { c.enumText(tn, t, mar, unm) })
			}
			c.floor("enumerations", n, 3)
			c.final = func() { c.floor("spelling obligations", c.ruleCount("spelling"), 12) }
		})

	register("C37", "Constant propagation over every combination of the version flags and every file type (abstract interpretation of MarshalJSON up to the value handed to encoding/json, whose text form is derived from the struct tags, then of UnmarshalJSON on that document): the decoded flags and type are constants equal to the encoded ones.",
		func(c *Ctx) {
			types_ := enumConsts(c.P.Ver, c.verType("fileType"))
			names := sortedKeys(types_)
			c.floor("file types", len(names), 3)
			for _, tn := range names {
				tn := tn
				c.task(tn, func() { c.flagsJSON(tn, types_[tn]) })
			}
			c.final = func() { c.floor("round trips", c.counts["round trips"], 96) }
		})
}

// verType finds the type of Info.Type, whatever its name.
func (c *Ctx) verType(string) types.Type {
	t := c.P.namedType(c.P.Ver, "Info")
	if t == nil {
		return types.Typ[types.Invalid]
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Type" {
			return s.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

func fieldNamed(t types.Type, n string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

func (c *Ctx) flagsJSON(tn string, tv int64) {
	mar, unm := c.vmeth("Info", "MarshalJSON"), c.vmeth("Info", "UnmarshalJSON")
	it := c.P.namedType(c.P.Ver, "Info")
	if mar == nil || unm == nil || it == nil {
		return
	}
	fi, ti := fieldNamed(it, "Flags"), fieldNamed(it, "Type")
	if fi < 0 || ti < 0 {
		c.ob("fields", "Info.Flags and Info.Type", false, "", "not found")
		return
	}
	st0 := it.Underlying().(*types.Struct)
	ft := st0.Field(fi).Type()
	fs, ok := ft.Underlying().(*types.Struct)
	if !ok || fs.NumFields() > 8 {
		c.ob("fields", "Info.Flags", false, "", "not a small struct of flags")
		return
	}
	nf := fs.NumFields()
	for m := 0; m < 1<<nf; m++ {
		var set []string
		for i := 0; i < nf; i++ {
			if m>>i&1 == 1 {
				set = append(set, fs.Field(i).Name())
			}
		}
		label := tn + " {" + strings.Join(set, ",") + "}"
		c.count("round trips", 1)
		// the other fields all absent, then all present
		c.oneFlags(label, mar, unm, it, fi, ti, false, fs, m, tv)
		resetGlobals()
		c.oneFlags(label, mar, unm, it, fi, ti, true, fs, m, tv)
		resetGlobals()
	}
}

func (c *Ctx) oneFlags(label string, mar, unm *ssa.Function, it types.Type, fi, ti int, others bool, fs *types.Struct, m int, tv int64) {
	st0 := it.Underlying().(*types.Struct)
	e := c.freshRun()
	e.noMerge = true
	var docs []jsonDoc
	bad := ""
	e.models["encoding/json.Marshal"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		iv, ok := args[0].(IfaceV)
		doc := jsonDoc{}
		if !ok || !jsonFlatten(st, doc, "", iv.V, iv.Dyn) {
			bad = "the encoded value is not known"
		}
		if e.quiet == 0 {
			docs = append(docs, doc)
		}
		b := textBytes(st, StrV{Sym: "json", Len: lenSym("len:json")})
		return []Outcome{{st, TupleV{b, NilV{}}}}
	}
	st, args := c.newEntry(e, mar)
	p, ok := args[0].(PtrV)
	if !ok {
		c.ob("roundtrip", label, false, c.posFn(mar), "unexpected receiver")
		return
	}
	for i := 0; i < fs.NumFields(); i++ {
		st.store(p.Obj, pathField(pathField(p.Path, fi), i), boolV(m>>i&1 == 1), types.Typ[types.Bool])
	}
	for i := 0; i < st0.NumFields(); i++ {
		fp := pathField(p.Path, i)
		switch u := st0.Field(i).Type().Underlying().(type) {
		case *types.Array:
			for j := int64(0); i != fi && i != ti && j < u.Len() && isInt(u.Elem()); j++ {
				x := int64(0)
				if others {
					x = j + 1
				}
				st.store(p.Obj, pathIdx(fp, K(j)), IntV{K(x)}, u.Elem())
			}
		case *types.Map:
			if !others {
				st.store(p.Obj, fp, NilV{}, st0.Field(i).Type())
			}
		}
	}
	st.store(p.Obj, pathField(p.Path, ti), IntV{K(tv)}, st0.Field(ti).Type())
	outs := e.run(st, mar, args)
	if len(outs) == 0 || len(docs) == 0 {
		bad = "nothing was encoded"
	}
	for _, o := range outs {
		tv, _ := o.ret.(TupleV)
		if len(tv) != 2 {
			continue
		}
		if is, known := isNilVal(o.st, tv[1]); !known || !is {
			bad = "encoding may fail by itself"
		}
	}
	c.ob("encode", label, bad == "", c.posFn(mar), bad)
	if bad != "" {
		return
	}
	for di, doc := range docs {
		for _, style := range []func(string) string{nil} {
			_ = style
			e2 := c.freshRun()
			e2.noMerge = true
			okFill := true
			e2.models["encoding/json.Unmarshal"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
				iv, ok := args[1].(IfaceV)
				if !ok {
					okFill = false
					return []Outcome{{st, NilV{}}}
				}
				tp, ok := iv.V.(PtrV)
				if !ok || !jsonFill(st, doc, "", tp.Obj, tp.Path, tp.typ()) {
					okFill = false
				}
				return []Outcome{{st, NilV{}}}
			}
			for k := range doc { // the string tables are left out
				if _, ok := doc[k].(MapV); ok {
					delete(doc, k)
				}
			}
			st, args := c.newEntry(e2, unm)
			p := args[0].(PtrV)
			n := 0
			msg := ""
			for _, o := range e2.run(st, unm, args) {
				if is, known := isNilVal(o.st, o.ret); known && !is {
					continue // an error: refused, not altered
				}
				n++
				for i := 0; i < fs.NumFields(); i++ {
					b, ok := o.st.load(p.Obj, pathField(pathField(p.Path, fi), i), types.Typ[types.Bool]).(BoolV)
					if !ok || b.op != "const" || b.B != (m>>i&1 == 1) {
						msg = "flag " + fs.Field(i).Name() + " is not decoded as it was encoded"
						if os.Getenv("WR_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, label, others, b.Key(), len(doc))
						}
					}
				}
				i, ok := o.st.load(p.Obj, pathField(p.Path, ti), st0.Field(ti).Type()).(IntV)
				if !ok || !i.L.isConst() || i.L.c != tv {
					msg = "the file type is not decoded as it was encoded"
				}
			}
			if !okFill {
				msg = "the document does not fit what is decoded"
			}
			if n == 0 {
				msg = "no path decodes it"
			}
			c.ob("roundtrip", label, msg == "", c.posFn(unm), fmt.Sprintf("%s (document %d: %s)", msg, di, docStr(doc)))
		}
	}
}

func docStr(d jsonDoc) string {
	var s []string
	for _, k := range sortedKeys(d) {
		if x, ok := d[k].(StrV); ok {
			s = append(s, k+"="+x.Key())
		}
	}
	return strings.Join(s, " ")
}
