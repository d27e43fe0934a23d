package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Helpers for the checks that work directly on the SSA form.

// allFuncs are the functions of the module, closures and initialisers included.
func (p *Program) allFuncs() []*ssa.Function {
	out := append([]*ssa.Function{}, p.Funcs...)
	for _, x := range p.SSA {
		if f := x.Func("init"); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

func eachInstr(f *ssa.Function, do func(in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// callee is the called function when it is known statically; ext is its full name ("encoding/binary.Write", "(*bytes.Buffer).Write").
func callee(in ssa.Instruction) (*ssa.Function, *ssa.CallCommon) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	return c.Common().StaticCallee(), c.Common()
}

func calleeName(in ssa.Instruction) string {
	f, _ := callee(in)
	if f == nil {
		return ""
	}
	return f.String()
}

// callersOf lists the static call sites of f in the module and whether f is only ever called (its address is not taken).
func (p *Program) callersOf(f *ssa.Function) ([]*ssa.CallCommon, bool) {
	var out []*ssa.CallCommon
	only := true
	for _, g := range p.allFuncs() {
		eachInstr(g, func(in ssa.Instruction) {
			cf, cc := callee(in)
			if cf == f {
				out = append(out, cc)
			}
			for _, op := range in.Operands(nil) {
				if *op == f && (cc == nil || cc.Value != f) {
					only = false
				}
			}
			if cc != nil {
				for _, a := range cc.Args {
					if a == f {
						only = false
					}
				}
			}
		})
	}
	return out, only
}

// origins traces a value backwards through conversions, phis and parameters of functions that are only called statically.
// It returns false when some origin cannot be followed.
func (p *Program) origins(v ssa.Value, seen map[ssa.Value]bool, do func(v ssa.Value)) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		ok := true
		for _, e := range x.Edges {
			ok = p.origins(e, seen, do) && ok
		}
		return ok
	case *ssa.ChangeInterface:
		return p.origins(x.X, seen, do)
	case *ssa.ChangeType:
		return p.origins(x.X, seen, do)
	case *ssa.FreeVar:
		f := x.Parent()
		ok := true
		for i, fv := range f.FreeVars {
			if fv != x {
				continue
			}
			for _, g := range p.allFuncs() {
				eachInstr(g, func(in ssa.Instruction) {
					if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == f {
						ok = p.origins(mc.Bindings[i], seen, do) && ok
					}
				})
			}
		}
		return ok
	case *ssa.Parameter:
		f := x.Parent()
		cs, only := p.callersOf(f)
		if !only || len(cs) == 0 || f.Object() != nil && f.Object().Exported() {
			do(v)
			return false
		}
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		ok := true
		for _, c := range cs {
			ok = p.origins(c.Args[idx], seen, do) && ok
		}
		return ok
	}
	do(v)
	return true
}

// dynTypes collects the concrete types a value of interface type may hold.
func (p *Program) dynTypes(v ssa.Value) ([]types.Type, bool) {
	var out []types.Type
	add := func(t types.Type) {
		for _, o := range out {
			if types.Identical(o, t) {
				return
			}
		}
		out = append(out, t)
	}
	all := true
	ok := p.origins(v, map[ssa.Value]bool{}, func(v ssa.Value) {
		if mi, is := v.(*ssa.MakeInterface); is {
			add(mi.X.Type())
			return
		}
		if _, is := v.(*ssa.Const); is {
			return
		}
		// a value of a sealed interface of the module: every type that is converted to it
		if n, is := v.Type().(*types.Named); is && n.Obj().Pkg() != nil && p.isModulePkg(n.Obj().Pkg()) {
			found := false
			for _, g := range p.allFuncs() {
				eachInstr(g, func(in ssa.Instruction) {
					if mi, is := in.(*ssa.MakeInterface); is && types.Identical(mi.Type(), n) {
						add(mi.X.Type())
						found = true
					}
				})
			}
			all = all && found
			return
		}
		all = false
	})
	return out, ok && all
}

func (p *Program) isModulePkg(k *types.Package) bool {
	for _, x := range p.SSA {
		if x.Pkg == k {
			return true
		}
	}
	return false
}

// canon is a syntactic normal form of a value: equal strings denote equal values as long as memory does not change in between.
func canon(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return "c:" + x.String()
	case *ssa.UnOp:
		return x.Op.String() + "(" + canon(x.X) + ")"
	case *ssa.FieldAddr:
		return canon(x.X) + ".f" + fmt.Sprint(x.Field)
	case *ssa.Field:
		return canon(x.X) + ".f" + fmt.Sprint(x.Field)
	case *ssa.IndexAddr:
		return canon(x.X) + "[" + canon(x.Index) + "]"
	case *ssa.BinOp:
		return "(" + canon(x.X) + x.Op.String() + canon(x.Y) + ")"
	case *ssa.Convert:
		return x.Type().String() + "(" + canon(x.X) + ")"
	case *ssa.ChangeType:
		return canon(x.X)
	case *ssa.Slice:
		s := canon(x.X) + "["
		if x.Low != nil {
			s += canon(x.Low)
		}
		s += ":"
		if x.High != nil {
			s += canon(x.High)
		}
		return s + "]"
	}
	if v.Parent() != nil {
		return v.Parent().String() + "#" + v.Name()
	}
	return v.String()
}

func ssaInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	i, ok := constant.Int64Val(constant.ToInt(c.Value))
	return i, ok
}

func ssaStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// affine splits an index into a canonical symbolic part and a constant.
func affine(v ssa.Value) (string, int64) {
	if n, ok := ssaInt(v); ok {
		return "", n
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			ra, ka := affine(x.X)
			rb, kb := affine(x.Y)
			if ra == "" || rb == "" {
				return ra + rb, ka + kb
			}
			if ra > rb {
				ra, rb = rb, ra
			}
			return ra + "+" + rb, ka + kb
		case token.SUB:
			if n, ok := ssaInt(x.Y); ok {
				r, k := affine(x.X)
				return r, k - n
			}
		case token.OR:
			// x*2 | 1 and the like: the constant is added when the product is even
			if n, ok := ssaInt(x.Y); ok && n == 1 {
				if m, ok := x.X.(*ssa.BinOp); ok && (m.Op == token.MUL || m.Op == token.SHL) {
					r, k := affine(x.X)
					return r, k + 1
				}
			}
		case token.SHL:
			if n, ok := ssaInt(x.Y); ok && n < 30 {
				r, k := affine(x.X)
				if r == "" {
					return "", k << n
				}
				return fmt.Sprintf("%d*(%s)", int64(1)<<n, r), k << n
			}
		case token.MUL:
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if n, ok := ssaInt(pr[1]); ok {
					r, k := affine(pr[0])
					return fmt.Sprintf("%d*(%s)", n, r), k * n
				}
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) && isInt(x.Type()) && sizes.Sizeof(x.Type()) >= sizes.Sizeof(x.X.Type()) {
			return affine(x.X)
		}
	}
	return canon(v), 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func pkgPathOf(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func modulePath(s string) bool {
	return s == "github.com/tc-hib/winres" || strings.HasPrefix(s, "github.com/tc-hib/winres/")
}
