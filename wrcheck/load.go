package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked module under analysis and its SSA form.
type Program struct {
	Dir          string
	Pkgs         []*packages.Package
	Prog         *ssa.Program
	SSA          []*ssa.Package
	Root         *ssa.Package // github.com/tc-hib/winres
	Ver          *ssa.Package // .../version
	RootP        *packages.Package
	VerP         *packages.Package
	Funcs        []*ssa.Function
	entryStructs map[string]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule, Dir: dir}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Pkgs: pk, Prog: prog, SSA: pkgs}
	for i, x := range pkgs {
		if x == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		switch x.Pkg.Path() {
		case "github.com/tc-hib/winres":
			p.Root, p.RootP = x, pk[i]
		case "github.com/tc-hib/winres/version":
			p.Ver, p.VerP = x, pk[i]
		}
	}
	if p.Root == nil || p.Ver == nil {
		return nil, fmt.Errorf("packages winres and winres/version not found in %s", dir)
	}
	in := map[*ssa.Package]bool{}
	for _, x := range pkgs {
		in[x] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && in[f.Pkg] && f.Synthetic == "" && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

func (p *Program) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return len(f.Blocks) > 0
	}
	for _, x := range p.SSA {
		if x == f.Pkg {
			return true
		}
	}
	return false
}

func (p *Program) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	ps := in.Pos()
	if !ps.IsValid() {
		// use the closest positioned instruction of the block, or the function
		b := in.Block()
		if b != nil {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					ps = i.Pos()
				}
				if i == in && ps.IsValid() {
					break
				}
			}
		}
		if !ps.IsValid() && in.Parent() != nil {
			ps = in.Parent().Pos()
		}
	}
	q := p.Prog.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func (p *Program) posBlock(b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return p.pos(i)
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return p.pos(i)
			}
		}
	}
	return p.pos(b.Instrs[0])
}

// fn finds a package-level function; method finds a method of a named type (pointer or value receiver).
func (p *Program) fn(pkg *ssa.Package, name string) *ssa.Function { return pkg.Func(name) }

func (p *Program) method(pkg *ssa.Package, typ, name string) *ssa.Function {
	t, ok := pkg.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.Prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.Prog.MethodValue(ms.At(i))
				if f != nil && f.Synthetic == "" {
					return f
				}
				// prefer the declared method over a wrapper
				if obj, ok := ms.At(i).Obj().(*types.Func); ok {
					if df := p.Prog.FuncValue(obj); df != nil {
						return df
					}
				}
				return f
			}
		}
	}
	return nil
}

func (p *Program) namedType(pkg *ssa.Package, name string) types.Type {
	t, ok := pkg.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return t.Type()
}
