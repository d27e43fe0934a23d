H='''package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/tc-hib/winres"
)

var _ = bytes.NewReader
var _ = errors.New
var _ = fmt.Println
var _ io.Reader
var _ winres.ID
'''
seeds=[
dict(id='c01-dirs-bound',prop='C01',edits=[('exe.go','	if int(h.file.SizeOfOptionalHeader) != binary.Size(h.opt)+numDirs*8 {\n		return nil, errors.New(errNotPEImage)\n	}\n','	if int(h.file.SizeOfOptionalHeader) < binary.Size(h.opt)+numDirs*8 {\n		return nil, errors.New(errNotPEImage)\n	}\n'),
 ('exe.go','	numDirs := int(h.opt.getNumberOfRvaAndSizes())\n	if numDirs < 6 {','	numDirs := int(h.opt.getNumberOfRvaAndSizes())\n	if numDirs < 4 {')],
 demo=H+'''
func main() {
	m := &img{}
	for i, c := range []string{".text", ".data"} {
		m.secs = append(m.secs, sec{name: c, va: uint32(0x1000 * (i + 1)), vs: 0x1000, data: fill(0x200, byte(i+1))})
	}
	b := m.bytes()
	// an image announcing only 4 data directories, in an optional header of the usual size
	copy(b[0x80+24+108:], []byte{4, 0, 0, 0})
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte("hello")))
	fmt.Println(rs.WriteToEXE(&out{}, bytes.NewReader(b)))
}
''',needs='an executable whose optional header announces 4 or 5 data directories',breaks='patching indexes a data directory that was not read and panics'),
dict(id='c01-newsection-div',prop='C01',edits=[('exe.go','	if int64(pew.src.dataOffset) < pew.h.length || pew.src.dataOffset > pew.src.dataEnd ||\n		pew.rsrcHdr != nil && pew.rsrcHdr.PointerToRawData < pew.src.dataOffset {','	if int64(pew.src.dataOffset) < pew.h.length || pew.src.dataOffset > pew.src.dataEnd {')] ,demo='',needs='',breaks=''),
dict(id='c04-data-size',prop='C04',edits=[('rsrc.go','	if offset < 0 || offset+int64(entry.Size) > section.Size() {','	if offset < 0 || offset > section.Size() || int64(int32(entry.Size)) > section.Size()-offset {')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("hello")))
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}}
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(m.bytes())))
	// the only data entry lies after three directory tables of one entry each
	h := parse(o.b)
	raw := h.secs[1][3]
	copy(o.b[raw+3*24+4:], []byte{0xF0, 0xFF, 0xFF, 0xFF})
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	_, err := winres.LoadFromEXE(bytes.NewReader(o.b))
	if err == nil {
		fail("a data entry of 4 GB was accepted")
	}
}
''',needs='a resource data entry whose size has its top bit set',breaks='the size check passes for huge sizes: 4 GB are allocated from a field of the file (C04) and data is made up'),
dict(id='c06-reloc-error',prop='C06',edits=[('coff.go','	relocAddr, err := rs.write(w)','	relocAddr, err := rs.write(w)')],demo='',needs='',breaks=''),
dict(id='c07-short-optional',prop='C07',edits=[('rsrc.go','	b := make([]uint16, length)\n	err = binaryRead(section, b)\n	if err != nil {\n		return "", err\n	}\n','	b := make([]uint16, length)\n	binaryRead(section, b)\n')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.Name("NAME"), 0x409, []byte("hello")))
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}}
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(m.bytes())))
	h := parse(o.b)
	raw := h.secs[1][3]
	// the name's length goes past the end of the section
	i := bytes.Index(o.b[raw:], []byte{4, 0, 'N', 0, 'A', 0})
	o.b[int(raw)+i+1] = 0x7F
	_, err := winres.LoadFromEXE(bytes.NewReader(o.b))
	if err == nil {
		fail("a resource name that ends after the section was accepted")
	}
}
''',needs='a resource name whose length goes past the end of the section',breaks='the failed read of the name is ignored and a name made of zeros is used'),
dict(id='c08-icon-missing',prop='C08',edits=[('icon.go','		if img == nil {\n			return nil, errors.New(errIconMissing)\n		}','		if img == nil {\n			return icon, errors.New(errIconMissing)\n		}')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_GROUP_ICON, winres.ID(1), 0, []byte{0, 0, 1, 0, 1, 0, 16, 16, 0, 0, 1, 0, 32, 0, 5, 0, 0, 0, 9, 0}))
	icon, err := rs.GetIcon(winres.ID(1))
	if err == nil || icon != nil {
		fail("icon=%v err=%v", icon, err)
	}
}
''',needs='an icon group that refers to an image that is not in the set',breaks='an icon is returned together with an error'),
dict(id='c09-size-left',prop='C09',edits=[('exe.go','			pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY] = pe.DataDirectory{}\n','			pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress = 0\n')],
 demo=H+'''
func main() {
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}, cert: fill(0x88, 7)}
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("hello")))
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(m.bytes()), winres.WithAuthenticode(winres.RemoveSignature)))
	if h := parse(o.b); h.dirs[4] != [2]uint32{} {
		fail("certificate entry is %v", h.dirs[4])
	}
}
''',needs='a signed executable patched with RemoveSignature',breaks='the size of the removed certificate stays in the header'),
dict(id='c09-option-order',prop='C09',edits=[('exe.go','		case IgnoreSignature:\n		default:\n			return nil, ErrSignedPE\n','		case ErrorIfSigned:\n			return nil, ErrSignedPE\n')],
 demo=H+'''
func main() {
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}, cert: fill(0x88, 7)}
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("hello")))
	o := &out{}
	err := rs.WriteToEXE(o, bytes.NewReader(m.bytes()), winres.WithAuthenticode(winres.RemoveSignature|winres.IgnoreSignature))
	if err != winres.ErrSignedPE || len(o.b) != 0 {
		fail("err=%v, %d bytes written", err, len(o.b))
	}
}
''',needs='an option value that is neither of the two explicit requests (such as both combined)',breaks='a signed executable is patched although the caller asked neither to remove nor to ignore the signature'),
dict(id='c10-late-truncation',prop='C10',edits=[('exe.go','	if pew.src.fileSize < int64(pew.src.dataEnd) {\n		return nil, io.ErrUnexpectedEOF\n	}\n','')],demo='',needs='',breaks=''),
dict(id='c13-early-return',prop='C13',edits=[('winres.go','''	h, err := readPEHeaders(exe)
	_, seekErr := exe.Seek(pos, io.SeekStart)
	if err != nil {
		return false, err
	}
''','''	h, err := readPEHeaders(exe)
	if err != nil {
		return false, err
	}
	_, seekErr := exe.Seek(pos, io.SeekStart)
''')] if False else [('winres.go','	pos, err := exe.Seek(0, io.SeekCurrent)\n','	pos, err := exe.Seek(0, io.SeekCurrent)\n')],demo='',needs='',breaks=''),
dict(id='c13-signed-size',prop='C13',edits=[('winres.go','h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil','h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].Size > 0, nil')],
 demo=H+'''
func main() {
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}}
	m.dirs[4] = [2]uint32{0x600, 0}
	b := m.bytes()
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("hello")))
	refused := rs.WriteToEXE(&out{}, bytes.NewReader(b)) == winres.ErrSignedPE
	signed, err := winres.IsSignedEXE(bytes.NewReader(b))
	check(err)
	if signed != refused {
		fail("signed=%v refused=%v", signed, refused)
	}
}
''',needs='an executable whose certificate entry has an address but no size',breaks='the query answers no while patching refuses the file as signed'),
dict(id='c02-group-count',prop='C02',edits=[('cursor.go','c','c')],demo='',needs='',breaks=''),
]
seeds=[s for s in seeds if s['demo']]
