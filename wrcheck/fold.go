package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Constant folding of string functions, and strings whose structure is known (formatted numbers).

type sprintfV struct {
	format string
	args   []Val
}

var sprintfTab = map[string]sprintfV{} // symbol of a formatted string -> what it was made of

// escapedOf: symbol of an escaped text -> the text
var escapedOf = map[string]StrV{}

func constArgs(st *State, args []Val) ([]string, bool) {
	var out []string
	for _, a := range args {
		s, ok := a.(StrV)
		if !ok {
			return nil, false
		}
		s = st.normStr(s)
		if !s.Const {
			return nil, false
		}
		out = append(out, s.S)
	}
	return out, true
}

// strSlice makes a fresh slice holding these strings.
func strSlice(st *State, ss []Val) SliceV {
	o := newObj("alloc", "strs", types.Typ[types.String])
	o.arr, o.local, o.zero = true, true, true
	for i, s := range ss {
		st.store(o, pathIdx("", K(int64(i))), s, types.Typ[types.String])
	}
	n := K(int64(len(ss)))
	return SliceV{Obj: o, Off: K(0), Len: n, Cap: n}
}

// elems returns the elements of a slice of known length.
func elems(st *State, v Val, max int64) ([]Val, bool) {
	if _, ok := v.(NilV); ok {
		return nil, true
	}
	s, ok := v.(SliceV)
	if !ok || !s.Len.isConst() || s.Len.c > max {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < s.Len.c; i++ {
		out = append(out, st.load(s.Obj, pathIdx(s.Path, addc(s.Off, i)), s.elem()))
	}
	return out, true
}

func foldModels(m map[string]Model) {
	one := func(st *State, v Val) []Outcome { return []Outcome{{st, v}} }
	str := func(name string, f func(a []string) Val) {
		m[name] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			if a, ok := constArgs(st, args); ok {
				return one(st, f(a))
			}
			return e.pureCall(st, name, args, sig)
		}
	}
	str("strings.ToLower", func(a []string) Val { return constStr(strings.ToLower(a[0])) })
	str("strings.ToUpper", func(a []string) Val { return constStr(strings.ToUpper(a[0])) })
	str("strings.TrimSpace", func(a []string) Val { return constStr(strings.TrimSpace(a[0])) })
	str("strings.Trim", func(a []string) Val { return constStr(strings.Trim(a[0], a[1])) })
	str("strings.TrimRight", func(a []string) Val { return constStr(strings.TrimRight(a[0], a[1])) })
	str("strings.TrimLeft", func(a []string) Val { return constStr(strings.TrimLeft(a[0], a[1])) })
	str("strings.TrimSuffix", func(a []string) Val { return constStr(strings.TrimSuffix(a[0], a[1])) })
	str("strings.TrimPrefix", func(a []string) Val { return constStr(strings.TrimPrefix(a[0], a[1])) })
	str("strings.Contains", func(a []string) Val { return boolV(strings.Contains(a[0], a[1])) })
	str("strings.HasPrefix", func(a []string) Val { return boolV(strings.HasPrefix(a[0], a[1])) })
	str("strings.HasSuffix", func(a []string) Val { return boolV(strings.HasSuffix(a[0], a[1])) })
	str("strings.Index", func(a []string) Val { return IntV{K(int64(strings.Index(a[0], a[1])))} })
	str("strings.Count", func(a []string) Val { return IntV{K(int64(strings.Count(a[0], a[1])))} })
	str("strings.ReplaceAll", func(a []string) Val { return constStr(strings.ReplaceAll(a[0], a[1], a[2])) })
	for _, n := range []string{"html.EscapeString", "text/template.HTMLEscapeString", "html/template.HTMLEscapeString"} {
		n := n
		m[n] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			r := e.pureCall(st, n, args, sig)
			s, ok := args[0].(StrV)
			if x, ok2 := r[0].ret.(StrV); ok && ok2 {
				escapedOf[x.Sym] = s
				st.addFact(sub(x.Len, s.Len))
			}
			return r
		}
	}
	m["strings.TrimFunc"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if f, ok := args[1].(FuncV); ok && f.Fn.String() == "unicode.IsSpace" {
			if a, ok := constArgs(st, args[:1]); ok {
				return one(st, constStr(strings.TrimFunc(a[0], unicode.IsSpace)))
			}
			return e.pureCall(st, "strings.TrimSpace", args[:1], sig)
		}
		return e.pureCall(st, "strings.TrimFunc", args, sig)
	}
	m["strings.EqualFold"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if a, ok := constArgs(st, args); ok {
			return one(st, boolV(strings.EqualFold(a[0], a[1])))
		}
		x, ok1 := args[0].(StrV)
		y, ok2 := args[1].(StrV)
		if ok1 && ok2 {
			lower := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
			l := func(s StrV) StrV {
				s = st.normStr(s)
				if s.Const {
					return constStr(strings.ToLower(s.S))
				}
				o := e.pureCall(st, "strings.ToLower", []Val{s}, lower)
				return o[0].ret.(StrV)
			}
			return one(st, st.strEq(l(x), l(y)))
		}
		return e.pureCall(st, "strings.EqualFold", args, sig)
	}
	for _, n := range []string{"bytes.TrimSpace", "bytes.ToLower", "bytes.ToUpper"} {
		n := n
		m[n] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
			if s, ok := args[0].(SliceV); ok {
				if t := textOf(st, s); t != nil && t.Const {
					var r string
					switch n {
					case "bytes.TrimSpace":
						r = strings.TrimSpace(t.S)
					case "bytes.ToLower":
						r = strings.ToLower(t.S)
					default:
						r = strings.ToUpper(t.S)
					}
					return one(st, textBytes(st, constStr(r)))
				}
			}
			return e.pureCall(st, n, args, sig)
		}
	}
	m["strings.Join"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if es, ok := elems(st, args[0], 64); ok {
			if a, ok := constArgs(st, append(es, args[1])); ok {
				return one(st, constStr(strings.Join(a[:len(a)-1], a[len(a)-1])))
			}
		}
		n := freshName("joined")
		return one(st, StrV{Sym: n, Len: lenSym("len:" + n)})
	}
	split := m["strings.Split"]
	m["strings.Split"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if a, ok := constArgs(st, args); ok {
			var vs []Val
			for _, p := range strings.Split(a[0], a[1]) {
				vs = append(vs, constStr(p))
			}
			return one(st, strSlice(st, vs))
		}
		if s, ok := args[0].(StrV); ok {
			if sp, ok := sprintfTab[s.Sym]; ok {
				if sep, ok := args[1].(StrV); ok && sep.Const && sep.S == "." && onlyDec(sp.format, ".") {
					var vs []Val
					for _, a := range sp.args {
						vs = append(vs, decStr(a))
					}
					return one(st, strSlice(st, vs))
				}
			}
		}
		return split(e, fr, st, in, args, sig)
	}
	m["strings.TrimSpace"] = keepDec("strings.TrimSpace", m["strings.TrimSpace"])
	m["strings.ToLower"] = keepDec("strings.ToLower", m["strings.ToLower"])
	m["fmt.Sprintf"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		f, ok := args[0].(StrV)
		if ok && f.Const {
			if es, ok := elems(st, args[1], 16); ok {
				var vs []Val
				k := "sprintf:" + strconv.Quote(f.S)
				for _, x := range es {
					if i, ok := x.(IfaceV); ok {
						x = i.V
					} else {
						k = ""
						break
					}
					vs = append(vs, x)
					k += "|" + x.Key()
				}
				if k != "" {
					if s, ok := fmtConst(f.S, vs); ok {
						return one(st, constStr(s))
					}
					sprintfTab[k] = sprintfV{f.S, vs}
					return one(st, StrV{Sym: k, Len: lenSym("len:" + k)})
				}
			}
		}
		return e.pureCall(st, "fmt.Sprintf", args, sig)
	}
	parse := m["strconv.ParseUint"]
	m["strconv.ParseUint"] = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if s, ok := args[0].(StrV); ok {
			base, ok1 := args[1].(IntV)
			bits, ok2 := args[2].(IntV)
			s = st.normStr(s)
			if ok1 && ok2 && base.L.isConst() && bits.L.isConst() {
				if s.Const {
					n, err := strconv.ParseUint(s.S, int(base.L.c), int(bits.L.c))
					if n <= 1<<62 {
						if err == nil {
							return one(st, TupleV{IntV{K(int64(n))}, NilV{}})
						}
						return one(st, TupleV{IntV{K(int64(n))}, newErr(st, "parse")})
					}
				}
				if v, ok := decOf[s.Sym]; ok && base.L.c == 10 {
					max := int64(1)<<62 - 1
					if bits.L.c > 0 && bits.L.c < 62 {
						max = int64(1)<<uint(bits.L.c) - 1
					}
					if i, ok := v.(IntV); ok && st.prove(i.L) && st.prove(sub(K(max), i.L)) {
						return one(st, TupleV{i, NilV{}})
					}
				}
			}
		}
		return parse(e, fr, st, in, args, sig)
	}
}

// keepDec leaves formatted decimal numbers alone: they have neither spaces nor letters.
func keepDec(name string, f Model) Model {
	return func(e *Engine, fr *Frame, st *State, in ssa.Instruction, args []Val, sig *types.Signature) []Outcome {
		if s, ok := args[0].(StrV); ok {
			if _, ok := decOf[s.Sym]; ok {
				return []Outcome{{st, s}}
			}
			if sp, ok := sprintfTab[s.Sym]; ok && onlyDec(sp.format, ".") {
				return []Outcome{{st, s}}
			}
		}
		return f(e, fr, st, in, args, sig)
	}
}

var decOf = map[string]Val{} // symbol of a decimal number -> its value

func decStr(v Val) StrV {
	if i, ok := v.(IntV); ok && i.L.isConst() {
		return constStr(strconv.FormatInt(i.L.c, 10))
	}
	k := "dec:" + v.Key()
	decOf[k] = v
	return StrV{Sym: k, Len: atomLin(sym("len:"+k, p64(1), p64(20)))}
}

// onlyDec: the format is made of %d separated by sep.
func onlyDec(format, sep string) bool {
	for _, p := range strings.Split(format, sep) {
		if p != "%d" {
			return false
		}
	}
	return true
}

func fmtConst(format string, vs []Val) (string, bool) {
	var as []interface{}
	for _, v := range vs {
		switch x := v.(type) {
		case IntV:
			if !x.L.isConst() {
				return "", false
			}
			as = append(as, x.L.c)
		case StrV:
			if !x.Const {
				return "", false
			}
			as = append(as, x.S)
		default:
			return "", false
		}
	}
	return fmt.Sprintf(format, as...), true
}

// textBytes makes a fresh byte slice that holds this string.
func textBytes(st *State, s StrV) SliceV {
	o := newObj("alloc", "text", types.Typ[types.Byte])
	o.arr, o.local = true, true
	o.content = "bytes:" + s.Key()
	o.text = &s
	st.epOwn()
	st.epoch[o.id] = "c"
	return SliceV{Obj: o, Off: K(0), Len: s.Len, Cap: s.Len}
}

// globalsState interprets the variable initialisers of the module's packages, so that unexported package-level tables that nothing
// modifies afterwards have known contents.
func (e *Engine) globalsState() *State {
	st := newState()
	e.quiet++
	defer func() { e.quiet-- }()
	un := e.unroll
	e.unroll = 64
	for _, pk := range []*ssa.Package{e.P.Ver, e.P.Root} {
		f := pk.Func("init")
		if f == nil {
			continue
		}
		if g, ok := pk.Members["init$guard"].(*ssa.Global); ok {
			o := e.val(nil, st, g).(PtrV).Obj
			st.store(o, "", falseV, types.Typ[types.Bool])
		}
		m := e.models
		var outs []Outcome
		for _, o := range e.callFn(nil, st, nil, f, nil, nil) {
			if !o.st.dead {
				outs = append(outs, o)
			}
		}
		e.models = m
		if len(outs) == 1 {
			st = outs[0].st
		}
	}
	e.unroll = un
	st.env = map[ssa.Value]Val{}
	// variables that something else assigns, or that users can assign, are unknown
	written := map[*ssa.Global]bool{}
	for _, f := range e.P.allFuncs() {
		if f.Name() == "init" && f.Parent() == nil && f.Synthetic != "" {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue
					}
					if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						if _, ok := in.(*ssa.IndexAddr); ok {
							continue
						}
					}
					written[g] = true
				}
			}
		})
	}
	for _, pk := range []*ssa.Package{e.P.Ver, e.P.Root} {
		for _, mb := range pk.Members {
			g, ok := mb.(*ssa.Global)
			if ok && (written[g] || g.Object() != nil && g.Object().Exported()) {
				o := e.val(nil, st, g).(PtrV).Obj
				for _, c := range st.heapCells(o) {
					st.delCell(c)
				}
			}
		}
	}
	return st
}
