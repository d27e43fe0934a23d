package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: every binary structure is little-endian and of its documented size.

type fieldW struct {
	name string
	w    int64
}

// role is a published structure: its name in this codebase and its fields, in order.
type role struct {
	name, size string // size: the constant that stands for its encoded size, if any
	f          []fieldW
}

func fw(s string) []fieldW {
	var out []fieldW
	for _, x := range strings.Fields(s) {
		i := strings.Index(x, ":")
		n := int64(0)
		fmt.Sscanf(x[i+1:], "%d", &n)
		out = append(out, fieldW{x[:i], n})
	}
	return out
}

const optCommon = "Magic:2 MajorLinkerVersion:1 MinorLinkerVersion:1 SizeOfCode:4 SizeOfInitializedData:4 SizeOfUninitializedData:4 AddressOfEntryPoint:4 BaseOfCode:4 "
const optMiddle = "SectionAlignment:4 FileAlignment:4 MajorOperatingSystemVersion:2 MinorOperatingSystemVersion:2 MajorImageVersion:2 MinorImageVersion:2 MajorSubsystemVersion:2 MinorSubsystemVersion:2 Win32VersionValue:4 SizeOfImage:4 SizeOfHeaders:4 CheckSum:4 Subsystem:2 DllCharacteristics:2 "

var roles = []role{
	{"resourceDirectoryTable", "sizeOfDirTable", fw("Characteristics:4 TimeDateStamp:4 MajorVersion:2 MinorVersion:2 NumberOfNameEntries:2 NumberOfIDEntries:2")},
	{"resourceDirectoryIDEntry", "sizeOfDirEntry", fw("ID:4 Offset:4")},
	{"resourceDataEntry", "sizeOfDataEntry", fw("DataRVA:4 Size:4 Codepage:4 Reserved:4")},
	{"peOptionalHeader32", "", fw(optCommon + "BaseOfData:4 ImageBase:4 " + optMiddle + "SizeOfStackReserve:4 SizeOfStackCommit:4 SizeOfHeapReserve:4 SizeOfHeapCommit:4 LoaderFlags:4 NumberOfRvaAndSizes:4")},
	{"peOptionalHeader64", "", fw(optCommon + "ImageBase:8 " + optMiddle + "SizeOfStackReserve:8 SizeOfStackCommit:8 SizeOfHeapReserve:8 SizeOfHeapCommit:8 LoaderFlags:4 NumberOfRvaAndSizes:4")},
	{"iconDirHeader", "sizeOfIconDirHeader", fw("Reserved:2 Type:2 Count:2")},
	{"cursorDirHeader", "sizeOfCursorDirHeader", fw("Reserved:2 Type:2 Count:2")},
	{"iconFileDirEntry", "sizeOfIconFileDirEntry", fw("Width:1 Height:1 ColorCount:1 Reserved:1 Planes:2 BitCount:2 BytesInRes:4 ImageOffset:4")},
	{"iconResDirEntry", "", fw("Width:1 Height:1 ColorCount:1 Reserved:1 Planes:2 BitCount:2 BytesInRes:4 Id:2")},
	{"cursorFileDirEntry", "sizeOfCursorFileDirEntry", fw("Width:1 Height:1 Reserved:2 XHotSpot:2 YHotSpot:2 BytesInRes:4 ImageOffset:4")},
	{"cursorResDirEntry", "", fw("Width:2 Height:2 Planes:2 BitCount:2 BytesInRes:4 Id:2")},
	{"HotSpot", "", fw("X:2 Y:2")},
	{"nodeHeader", "sizeOfNodeHeader", fw("Length:2 ValueLength:2 Type:2")},
	{"_VS_FIXEDFILEINFO", "sizeOfFixedFileInfo", fw("Signature:4 StrucVersion:4 FileVersionMS:4 FileVersionLS:4 ProductVersionMS:4 ProductVersionLS:4 FileFlagsMask:4 FileFlags:4 FileOS:4 FileType:4 FileSubtype:4 FileDateMS:4 FileDateLS:4")},
	{"FileHeader", "", fw("Machine:2 NumberOfSections:2 TimeDateStamp:4 PointerToSymbolTable:4 NumberOfSymbols:4 SizeOfOptionalHeader:2 Characteristics:2")},
	{"SectionHeader32", "sizeOfSectionHeader", fw("Name0:1 Name1:1 Name2:1 Name3:1 Name4:1 Name5:1 Name6:1 Name7:1 VirtualSize:4 VirtualAddress:4 SizeOfRawData:4 PointerToRawData:4 PointerToRelocations:4 PointerToLineNumbers:4 NumberOfRelocations:2 NumberOfLineNumbers:2 Characteristics:4")},
	{"DataDirectory", "", fw("VirtualAddress:4 Size:4")},
	{"Reloc", "sizeOfReloc", fw("VirtualAddress:4 SymbolTableIndex:4 Type:2")},
	{"COFFSymbol", "", fw("Name0:1 Name1:1 Name2:1 Name3:1 Name4:1 Name5:1 Name6:1 Name7:1 Value:4 SectionNumber:2 Type:2 StorageClass:1 NumberOfAuxSymbols:1")},
}

func roleNamed(n string) *role {
	for i := range roles {
		if roles[i].name == n {
			return &roles[i]
		}
	}
	return nil
}

func (r *role) offset(field string) (int64, int64, bool) {
	var o int64
	for _, f := range r.f {
		if f.name == field {
			return o, f.w, true
		}
		o += f.w
	}
	return 0, 0, false
}

func (r *role) total() int64 {
	var o int64
	for _, f := range r.f {
		o += f.w
	}
	return o
}

// flatten lists the scalar fields of a type as encoding/binary lays them out.
func flatten(t types.Type, name string) ([]fieldW, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean) == 0 || u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return nil, false
		}
		return []fieldW{{name, sizes.Sizeof(u)}}, true
	case *types.Struct:
		var out []fieldW
		for i := 0; i < u.NumFields(); i++ {
			fs, ok := flatten(u.Field(i).Type(), u.Field(i).Name())
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	case *types.Array:
		var out []fieldW
		for i := int64(0); i < u.Len(); i++ {
			fs, ok := flatten(u.Elem(), fmt.Sprint(name, i))
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	}
	return nil, false
}

// element strips pointers, slices and arrays from the type given to encoding/binary.
func element(t types.Type) types.Type {
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		default:
			return t
		}
	}
}

func namedOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// layoutError compares a type with the published structure it stands for.
func layoutError(t types.Type) string {
	fs, ok := flatten(t, "")
	if !ok {
		return shortType(t) + " has no fixed encoded size"
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return "" // plain numbers: nothing but the byte order can be wrong
	}
	r := roleNamed(namedOf(t))
	if r == nil {
		if concatOfRoles(fs) {
			return ""
		}
		return shortType(t) + " is not laid out like any of the published structures"
	}
	var o int64
	for i, f := range fs {
		if po, pw, ok := r.offset(f.name); ok && !dup(r, f.name) {
			if po != o || pw != f.w {
				return fmt.Sprintf("%s.%s is %d bytes at offset %d; the published structure has %d bytes at offset %d", shortType(t), f.name, f.w, o, pw, po)
			}
		}
		if i < len(r.f) && r.f[i].w != f.w {
			return fmt.Sprintf("field %d (%s) of %s is %d bytes wide, the published structure has %d", i, f.name, shortType(t), f.w, r.f[i].w)
		}
		o += f.w
	}
	if o != r.total() || len(fs) != len(r.f) {
		return fmt.Sprintf("%s is encoded on %d bytes, the published structure has %d", shortType(t), o, r.total())
	}
	return ""
}

func dup(r *role, name string) bool {
	n := 0
	for _, f := range r.f {
		if f.name == name {
			n++
		}
	}
	return n > 1
}

func concatOfRoles(fs []fieldW) bool {
	ok := map[int]bool{0: true}
	for i := 0; i < len(fs); i++ {
		if !ok[i] {
			continue
		}
		for _, r := range roles {
			if i+len(r.f) > len(fs) {
				continue
			}
			same := true
			for j, f := range r.f {
				same = same && f.w == fs[i+j].w
			}
			if same {
				ok[i+len(r.f)] = true
			}
		}
	}
	return len(fs) > 0 && ok[len(fs)]
}

// byteLeaf recognises convert(base[idx]) << shift with a byte base.
type byteLeaf struct {
	base, root string
	off, shift int64
}

func loadByte(v ssa.Value) (base ssa.Value, idx ssa.Value, ok bool) {
	for {
		if c, is := v.(*ssa.Convert); is && isInt(c.X.Type()) {
			v = c.X
			continue
		}
		if c, is := v.(*ssa.ChangeType); is {
			v = c.X
			continue
		}
		break
	}
	if !isByte(v.Type()) {
		return nil, nil, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, is := x.X.(*ssa.IndexAddr); is && x.Op == token.MUL {
			return ia.X, ia.Index, true
		}
	case *ssa.Index:
		return x.X, x.Index, true
	case *ssa.Lookup:
		if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
			return x.X, x.Index, true
		}
	}
	return nil, nil, false
}

// baseOff folds constant reslicing of the base into the offset.
func baseOff(v ssa.Value) (string, int64) {
	if s, ok := v.(*ssa.Slice); ok {
		lo := int64(0)
		okc := s.Low == nil
		if s.Low != nil {
			lo, okc = ssaInt(s.Low)
		}
		if okc {
			b, o := baseOff(s.X)
			return b, o + lo
		}
	}
	return canon(v), 0
}

func leaves(v ssa.Value, shift int64, out *[]byteLeaf, others *int) {
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.OR, token.ADD, token.XOR:
			leaves(x.X, shift, out, others)
			leaves(x.Y, shift, out, others)
			return
		case token.SHL:
			if n, ok := ssaInt(x.Y); ok {
				leaves(x.X, shift+n, out, others)
				return
			}
		case token.MUL:
			if n, ok := ssaInt(x.Y); ok && n > 0 && n&(n-1) == 0 {
				k := int64(0)
				for ; n > 1; n >>= 1 {
					k++
				}
				leaves(x.X, shift+k, out, others)
				return
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) && isInt(x.Type()) && !isByte(x.X.Type()) && sizes.Sizeof(x.Type()) >= sizes.Sizeof(x.X.Type()) {
			leaves(x.X, shift, out, others)
			return
		}
	}
	if b, i, ok := loadByte(v); ok {
		bs, bo := baseOff(b)
		r, k := affine(i)
		*out = append(*out, byteLeaf{bs, r, k + bo, shift})
		return
	}
	*others++
}

// assembled lists the multi-byte integers built from neighbouring bytes in f.
func assembled(f *ssa.Function, do func(v *ssa.BinOp, ls []byteLeaf)) {
	inner := map[ssa.Value]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.OR && b.Op != token.ADD && b.Op != token.XOR {
			return
		}
		for _, x := range []ssa.Value{b.X, b.Y} {
			for {
				if c, is := x.(*ssa.Convert); is {
					x = c.X
					continue
				}
				if c, is := x.(*ssa.BinOp); is && c.Op == token.SHL {
					if _, ok := ssaInt(c.Y); ok {
						x = c.X
						continue
					}
				}
				break
			}
			inner[x] = true
		}
	})
	eachInstr(f, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || inner[b] || b.Op != token.OR && b.Op != token.ADD && b.Op != token.XOR {
			return
		}
		var ls []byteLeaf
		n := 0
		leaves(b, 0, &ls, &n)
		shifted := false
		for _, l := range ls {
			shifted = shifted || l.shift > 0
		}
		if len(ls) >= 2 && shifted {
			do(b, ls)
		}
	})
}

func init() {
	register("C26", "Type and SSA dataflow analysis of every call of encoding/binary and of every integer assembled from or split into bytes: the byte order given is LittleEndian on every path, each concrete type that reaches the call is laid out like the published structure of that role (widths, order, total), each size constant equals the size of the structure it stands for, and bytes assembled or split by hand are in little-endian order at the offsets of the published structure.",
		func(c *Ctx) {
			p := c.P
			calls, types_ := 0, map[string]types.Type{}
			for _, f := range p.allFuncs() {
				eachInstr(f, func(in ssa.Instruction) {
					// nothing else than little endian is even mentioned
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" && g.Name() != "LittleEndian" {
							c.ob("byte-order", shortFn(f)+"|"+g.Name(), false, p.pos(in), "uses binary."+g.Name())
						}
					}
					cf, cc := callee(in)
					if cf == nil || pkgPathOf(cf) != "encoding/binary" {
						return
					}
					var order, data ssa.Value
					switch cf.Name() {
					case "Write", "Read":
						order, data = cc.Args[1], cc.Args[2]
					case "Append":
						order, data = cc.Args[1], cc.Args[2]
					case "Encode", "Decode":
						order, data = cc.Args[1], cc.Args[2]
						if cc.Signature().Params().Len() == 3 && cf.Name() == "Encode" {
							order, data = cc.Args[1], cc.Args[2]
						}
					case "Size":
						data = cc.Args[0]
					default:
						return // methods of the LittleEndian value: the byte order is in the name
					}
					calls++
					key := shortFn(f) + "|" + c.srcText(in)
					if order != nil {
						good, n := true, 0
						ok := p.origins(order, map[ssa.Value]bool{}, func(v ssa.Value) {
							n++
							t := v.Type()
							if mi, is := v.(*ssa.MakeInterface); is {
								t = mi.X.Type()
							}
							if u, is := v.(*ssa.UnOp); is && u.Op == token.MUL {
								if g, is := u.X.(*ssa.Global); is && p.isModulePkg(g.Pkg.Pkg) {
									t = globalDyn(p, g)
								}
							}
							if t == nil || shortType(t) != "binary.littleEndian" {
								good = false
							}
						})
						c.ob("byte-order", key, ok && good && n > 0, p.pos(in), "the byte order of this call is not binary.LittleEndian on every path")
					}
					ts, ok := p.dynTypes(data)
					if cf.Name() != "Size" || !ok {
						c.ob("layout-known", key, ok && len(ts) > 0, p.pos(in), "the concrete types encoded by this call cannot be determined")
					}
					for _, t := range ts {
						el := element(t)
						types_[shortType(el)] = el
						e := layoutError(el)
						c.ob("layout", shortType(el), e == "", p.pos(in), e)
					}
				})
				// by hand
				assembled(f, func(v *ssa.BinOp, ls []byteLeaf) {
					key := shortFn(f) + "|" + c.srcText(v)
					sort.Slice(ls, func(i, j int) bool { return ls[i].shift < ls[j].shift })
					ok := true
					for _, l := range ls[1:] {
						if l.base != ls[0].base || l.root != ls[0].root {
							continue // bytes of two different things: not one stored integer
						}
						if (l.shift-ls[0].shift)%8 != 0 || l.off-ls[0].off != (l.shift-ls[0].shift)/8 {
							ok = false
						}
					}
					c.ob("assembled", key, ok, p.pos(v), "these bytes are not put together in little-endian order")
				})
				c.splitBytes(f)
				c.fieldOffsets(f)
			}
			// the sizes used to compute offsets
			for _, pk := range []*ssa.Package{p.Root, p.Ver} {
				for _, r := range roles {
					if r.size == "" {
						continue
					}
					nc, ok := pk.Members[r.size].(*ssa.NamedConst)
					if !ok {
						continue
					}
					n, _ := constant.Int64Val(constant.ToInt(nc.Value.Value))
					c.ob("size-constant", pk.Pkg.Name()+"."+r.size, n == r.total(), "", fmt.Sprintf("%s is %d but the structure is encoded on %d bytes", r.size, n, r.total()))
				}
			}
			c.count("structures", len(types_))
			c.floor("encoding/binary calls", calls, 15)
			c.floor("integers assembled by hand", c.ruleCount("assembled"), 2)
			c.assumption("encoding/binary encodes fixed-size values without padding, in field order; debug/pe structures are those of the Go standard library (checked against the same table)")
		})
}

// globalDyn is the concrete type stored in a package-level interface variable that is assigned only once.
func globalDyn(p *Program, g *ssa.Global) types.Type {
	var t types.Type
	n := 0
	for _, f := range p.allFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				t = s.Val.Type()
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					t = mi.X.Type()
				}
			}
		})
	}
	if n != 1 {
		return nil
	}
	return t
}

// splitBytes checks the bytes of one integer stored one by one at neighbouring places.
func (c *Ctx) splitBytes(f *ssa.Function) {
	type part struct {
		off, shift int64
		in         ssa.Instruction
	}
	groups := map[string][]part{}
	eachInstr(f, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || !isByte(s.Val.Type()) {
			return
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		cv, ok := s.Val.(*ssa.Convert)
		if !ok || !isInt(cv.X.Type()) {
			return
		}
		v, sh := cv.X, int64(0)
		for {
			b, ok := v.(*ssa.BinOp)
			if !ok {
				break
			}
			n, isC := ssaInt(b.Y)
			if isC && b.Op == token.SHR {
				sh += n
			} else if isC && b.Op == token.SHL {
				sh -= n
			} else {
				break
			}
			v = b.X
		}
		bs, bo := baseOff(ia.X)
		r, k := affine(ia.Index)
		g := bs + "|" + r + "|" + canon(v)
		groups[g] = append(groups[g], part{k + bo, sh, in})
	})
	for _, g := range sortedKeys(groups) {
		ps := groups[g]
		if len(ps) < 2 {
			continue
		}
		ok := true
		for _, x := range ps[1:] {
			if (x.shift-ps[0].shift)%8 != 0 || x.off-ps[0].off != (x.shift-ps[0].shift)/8 {
				ok = false
			}
		}
		c.ob("split", shortFn(f)+"|"+c.srcText(ps[0].in), ok, c.P.pos(ps[0].in), "the bytes of this integer are not stored in little-endian order")
	}
}

// fieldOffsets checks integers assembled at constant offsets and stored in the fields of a published structure.
func (c *Ctx) fieldOffsets(f *ssa.Function) {
	asm := map[ssa.Value]byteLeaf{}
	assembled(f, func(v *ssa.BinOp, ls []byteLeaf) {
		low := ls[0]
		for _, l := range ls {
			if l.base != low.base || l.root != "" {
				return
			}
			if l.shift < low.shift {
				low = l
			}
		}
		asm[v] = low
	})
	type at struct {
		delta int64
		in    ssa.Instruction
		f     string
	}
	groups := map[string][]at{}
	eachInstr(f, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		l, ok := asm[s.Val]
		if !ok {
			v := s.Val
			if cv, is := v.(*ssa.Convert); is {
				v = cv.X
			}
			call, is := v.(*ssa.Call)
			if !is || !strings.HasPrefix(calleeName(call), "(encoding/binary.littleEndian).Uint") {
				return
			}
			l.base, l.off = baseOff(call.Call.Args[1])
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		st := fa.X.Type().Underlying().(*types.Pointer).Elem()
		r := roleNamed(namedOf(st))
		if r == nil {
			return
		}
		name := st.Underlying().(*types.Struct).Field(fa.Field).Name()
		o, _, ok := r.offset(name)
		if !ok {
			return
		}
		g := canon(fa.X) + "|" + l.base
		groups[g] = append(groups[g], at{l.off - o, in, name})
	})
	for _, g := range sortedKeys(groups) {
		for _, a := range groups[g] {
			c.ob("field-offset", shortFn(f)+"|"+a.f, a.delta == groups[g][0].delta, c.P.pos(a.in), "field "+a.f+" is taken from the wrong bytes of the structure")
		}
	}
}
