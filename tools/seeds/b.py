H='''package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

var _ = bytes.NewReader
var _ = binary.Write
var _ = json.Marshal
var _ = fmt.Println
var _ image.Image
var _ color.Color
var _ = sort.Strings
var _ = strings.Split
var _ = utf16.Encode
var _ winres.ID
var _ version.Info

type entry struct {
	t, r winres.Identifier
	l    uint16
	d    string
}

func walk(rs *winres.ResourceSet) (l []entry) {
	rs.Walk(func(t, r winres.Identifier, lang uint16, d []byte) bool {
		l = append(l, entry{t, r, lang, string(d)})
		return true
	})
	return
}

func set(rs *winres.ResourceSet, t, r winres.Identifier, lang uint16, d string) {
	check(rs.Set(t, r, lang, []byte(d)))
}

func object(rs *winres.ResourceSet) []byte {
	b := &bytes.Buffer{}
	check(rs.WriteObject(b, winres.ArchAMD64))
	return b.Bytes()
}

func square(n int) image.Image {
	m := image.NewNRGBA(image.Rect(0, 0, n, n))
	for i := range m.Pix {
		m.Pix[i] = byte(i * n)
	}
	return m
}

func exe() []byte {
	return (&img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}}).bytes()
}
'''
seeds=[
dict(id='c15-name-order',prop='C15',edits=[('winres.go','	re := te.resources[resID]\n	if re == nil {\n		te.orderedKeys = nil\n','	re := te.resources[resID]\n	if re == nil {\n		if _, ok := resID.(ID); ok || te.namesCount > 0 {\n			te.orderedKeys = nil\n		}\n')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_RCDATA, winres.ID(1), 0, "a")
	walk(rs)
	set(rs, winres.RT_RCDATA, winres.Name("X"), 0, "b")
	if n := len(walk(rs)); n != 2 {
		fail("walked %d resources out of 2", n)
	}
}
''',needs='an ordering of the type (walk, write), then the first named resource added to a type that only has numbered ones',breaks='walking and writing miss the new resource'),
dict(id='c17-lcid-sign',prop='C17',edits=[('id.go','	return ok && id < right','	return ok && int16(id) < int16(right)')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_RCDATA, winres.ID(0x8001), 0, "b")
	set(rs, winres.RT_RCDATA, winres.ID(1), 0, "a")
	if l := walk(rs); l[0].d != "a" {
		fail("order is %v", l)
	}
}
''',needs='an identifier or language of 0x8000 or more next to a smaller one',breaks='the directory is not in ascending order of ids'),
dict(id='c19-delete-last-but-one',prop='C19',edits=[('winres.go','	if len(te.resources) > 0 {\n		return\n	}\n\n	delete(rs.types, typeID)','	if len(te.resources) > 1 || len(rs.types) == 1 && len(te.resources) > 0 {\n		return\n	}\n\n	delete(rs.types, typeID)')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_RCDATA, winres.ID(1), 0, "a")
	set(rs, winres.RT_RCDATA, winres.ID(2), 0, "b")
	set(rs, winres.RT_HTML, winres.ID(2), 0, "c")
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0, nil))
	if rs.Get(winres.RT_RCDATA, winres.ID(2), 0) == nil {
		fail("a resource that was not deleted is gone")
	}
}
''',needs='deleting one of the two resources of a type in a set of several types',breaks='the other resource of the type disappears too'),
dict(id='c20-walktype-stop',prop='C20',edits=[('winres.go','			if !f(rk, uint16(dk), re.data[dk].data) {\n				return\n			}','			if !f(rk, uint16(dk), re.data[dk].data) {\n				break\n			}')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 1; i < 4; i++ {
		set(rs, winres.RT_RCDATA, winres.ID(i), 0, "a")
	}
	n := 0
	rs.WalkType(winres.RT_RCDATA, func(winres.Identifier, uint16, []byte) bool { n++; return false })
	if n != 1 {
		fail("the callback asked to stop and was called %d times", n)
	}
}
''',needs='a callback that stops the walk of a type before its last resource',breaks='the walk goes on with the next resource after the callback returned false'),
dict(id='c23-surrogate-offset',prop='C23',edits=[('rsrc.go','		offset += (len(u) + 1) * 2','		offset += (len([]rune(n)) + 1) * 2')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_RCDATA, winres.Name("\\U0001F600"), 0, "a")
	set(rs, winres.RT_RCDATA, winres.Name("\\U0001F601B"), 0, "b")
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(exe())))
	back, err := winres.LoadFromEXE(bytes.NewReader(o.b))
	check(err)
	if string(back.Get(winres.RT_RCDATA, winres.Name("\\U0001F601B"), 0)) != "b" {
		fail("the second name was not found again: %v", walk(back))
	}
}
''',needs='a name with a character outside the basic plane, followed by another name',breaks='the offset of the following names is wrong, the file holds other names than the set'),
dict(id='c23-data-offset-names',prop='C23',edits=[('rsrc.go','	s.namesData = append(s.namesData, make([]uint16, (alignData(sz)-sz)/2)...)','	if len(names) > 0 {\n		sz += rs.dirSize()\n	}\n	s.namesData = append(s.namesData, make([]uint16, (alignData(sz)-sz)/2)...)')],
 demo=H+'''
func main() {
	// every resource's data must start on an 8 byte boundary of the section, whatever the number of entries
	for n := 1; n < 8; n++ {
		rs := &winres.ResourceSet{}
		for i := 0; i < n; i++ {
			set(rs, winres.RT_RCDATA, winres.Name("ABCDEFG"[:i+1]), 0, "data")
		}
		o := &out{}
		check(rs.WriteToEXE(o, bytes.NewReader(exe())))
		h := parse(o.b)
		raw, va := h.secs[1][3], h.secs[1][1]
		first := binary.LittleEndian.Uint32(o.b[int(raw)+16+8+16+8*n+(16+8)*n:])
		if (first-va)%8 != 0 {
			fail("data at %x with %d names", first, n)
		}
	}
}
''',needs='names whose table does not end on a boundary once the directory size is counted',breaks='resource data is not aligned'),
dict(id='c24-reloc-16bit',prop='C24',edits=[('coff.go','			VirtualAddress:   uint32(a),','			VirtualAddress:   uint32(uint16(a)),')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 1; i <= 4000; i++ {
		set(rs, winres.RT_RCDATA, winres.ID(i), 0, "x")
	}
	b := object(rs)
	rel := int(binary.LittleEndian.Uint32(b[20+24:]))
	n := int(binary.LittleEndian.Uint16(b[20+32:]))
	last := uint32(0)
	for i := 0; i < n; i++ {
		a := binary.LittleEndian.Uint32(b[rel+10*i:])
		if i > 0 && a <= last {
			fail("relocation %d at %x follows %x", i, a, last)
		}
		last = a
	}
}
''',needs='a resource directory of more than 64 KB',breaks='the relocations of the data entries beyond point elsewhere in the directory'),
dict(id='c21-cursor-lang',prop='C21',edits=[('winres.go','	} else if typeID == RT_CURSOR {','	} else if typeID == RT_CURSOR && langID == LCIDNeutral {')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_CURSOR, winres.ID(1), 0x409, "\\x00\\x00\\x00\\x00mine")
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: square(16)}})
	check(err)
	check(rs.SetCursor(winres.ID(7), c))
	n := 0
	rs.WalkType(winres.RT_CURSOR, func(r winres.Identifier, l uint16, d []byte) bool {
		if r == winres.ID(1) {
			n++
		}
		return true
	})
	if n != 1 {
		fail("the new cursor image shares the id of an existing one (%d)", n)
	}
}
''',needs='a cursor image set under a language, before a cursor is added',breaks='the new cursor image takes the id of an existing one'),
dict(id='c22-pad-in-place',prop='C22',edits=[('rsrc.go','''	size, err := w.Write(de.data)
	if err != nil {
		return err
	}
	// Everything must be aligned, so we may skip a few byte when necessary after each resource data
	b := [dataAlignment]byte{}
	_, err = w.Write(b[:de.paddedDataSize()-size])
	return err''','''	// Everything must be aligned, so we may skip a few byte when necessary after each resource data
	b := [dataAlignment]byte{}
	_, err := w.Write(append(de.data, b[:de.paddedDataSize()-len(de.data)]...))
	return err''')],
 demo=H+'''
func main() {
	whole := []byte("firstsecond")
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0, whole[:5]))
	check(rs.Set(winres.RT_RCDATA, winres.ID(2), 0, whole[5:]))
	object(rs)
	if string(whole) != "firstsecond" {
		fail("writing changed the data to %q", whole)
	}
}
''',needs='resources whose data are adjacent pieces of one larger slice',breaks='writing one resource overwrites the beginning of the next'),
dict(id='c27-negative-min',prop='C27',edits=[('icon.go','	if bounds.Size().X > 256 || bounds.Size().Y > 256 {\n		return errors.New(errImageTooBig)\n	}\n\n	img = imageInSquareNRGBA','	if bounds.Max.X > 256 || bounds.Max.Y > 256 {\n		return errors.New(errImageTooBig)\n	}\n\n	img = imageInSquareNRGBA')],
 demo=H+'''
func main() {
	m := image.NewNRGBA(image.Rect(-100, -100, 200, 200))
	if _, err := winres.NewIconFromImages([]image.Image{m}); err == nil {
		fail("an image of 300x300 was accepted")
	}
}
''',needs='an image whose bounds do not start at the origin',breaks='an image larger than 256 pixels is accepted (or a small one refused)'),
dict(id='c28-cur-order',prop='C28',edits=[('cursor.go','	cursor.order()\n	for i := range cursor.images {\n		if int64(offset)','	for i := range cursor.images {\n		if int64(offset)'),('cursor.go','		pos += sizeOfCursorFileDirEntry\n	}\n','		pos += sizeOfCursorFileDirEntry\n	}\n\n	cursor.order()\n')],
 demo=H+'''
func main() {
	// SaveCUR of a cursor whose images are not sorted yet
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: square(16)}, {Image: square(32)}})
	check(err)
	b := &bytes.Buffer{}
	check(c.SaveCUR(b))
	f := b.Bytes()
	for i := 0; i < 2; i++ {
		e := f[6+16*i:]
		off := binary.LittleEndian.Uint32(e[12:])
		if w := binary.LittleEndian.Uint32(f[off+4:]); w != uint32(e[0]) {
			fail("entry %d announces %d pixels and points at an image of %d", i, e[0], w)
		}
	}
}
''',needs='a cursor whose images were not given in descending order, saved before anything else sorted it',breaks='directory entries of the file describe the wrong images'),
dict(id='c29-version-15bit',prop='C29',edits=[('manifest.go','		n, _ := strconv.ParseUint(v[i], 10, 16)','		n, _ := strconv.ParseInt(v[i], 10, 16)')],
 demo=H+'''
func main() {
	m := winres.AppManifest{Identity: winres.AssemblyIdentity{Name: "a", Version: [4]uint16{1, 2, 3, 50000}}}
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	back, err := winres.AppManifestFromXML(rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault))
	check(err)
	if back.Identity.Version != m.Identity.Version {
		fail("version %v came back as %v", m.Identity.Version, back.Identity.Version)
	}
}
''',needs='a version part of 32768 or more',breaks='the assembly version does not survive a write and a read'),
dict(id='c29-scroll-swap',prop='C29',edits=[('manifest.go','	m.UltraHighResolutionScrollingAware = manifestBool(settings.UltraHighResolutionScrollingAware)','	m.UltraHighResolutionScrollingAware = m.HighResolutionScrollingAware && manifestBool(settings.UltraHighResolutionScrollingAware)')],
 demo=H+'''
func main() {
	m := winres.AppManifest{UltraHighResolutionScrollingAware: true}
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	back, err := winres.AppManifestFromXML(rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault))
	check(err)
	if back != m {
		fail("%+v came back as %+v", m, back)
	}
}
''',needs='a manifest with the ultra high resolution flag and without the high resolution one',breaks='the flag does not survive a write and a read'),
dict(id='c30-description',prop='C30',edits=[('manifest.go','''  <description>{{.Description | html}}</description>''','''  <description>{{.Description}}</description>''')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	rs.SetManifest(winres.AppManifest{Description: "R&D <tools>"})
	back, err := winres.AppManifestFromXML(rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault))
	check(err)
	if back.Description != "R&D <tools>" {
		fail("description is %q", back.Description)
	}
}
''',needs='a description with a character XML gives a meaning to',breaks='the manifest is not well-formed XML'),
dict(id='c31-exec-level',prop='C31',edits=[],demo='',needs='',breaks=''),
dict(id='c37-flag-case',prop='C37',edits=[('version/json.go','strings.Contains(f, "privatebuild")','strings.Contains(f, "private")')],
 demo='',needs='',breaks=''),
dict(id='c37-patched',prop='C37',edits=[('version/json.go','	if vi.Flags.SpecialBuild {\n		jf.Flags += "SpecialBuild,"','	if vi.Flags.SpecialBuild && !vi.Flags.PrivateBuild {\n		jf.Flags += "SpecialBuild,"')],
 demo=H+'''
func main() {
	for i := 0; i < 32; i++ {
		vi := version.Info{}
		vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched = i&1 != 0, i&2 != 0, i&4 != 0
		vi.Flags.PrivateBuild, vi.Flags.SpecialBuild = i&8 != 0, i&16 != 0
		b, err := json.Marshal(&vi)
		check(err)
		var back version.Info
		check(json.Unmarshal(b, &back))
		if back.Flags != vi.Flags {
			fail("%+v came back as %+v", vi.Flags, back.Flags)
		}
	}
}
''',needs='a private and special build',breaks='a flag of the version info does not survive JSON'),
dict(id='c16-lone-nul-name',prop='C16',edits=[('id.go','		if strings.ContainsRune(string(ident), 0) {','		if strings.HasPrefix(string(ident), "\\x00") || strings.HasSuffix(string(ident), "\\x00") || len(strings.Split(string(ident), "\\x00")) == 2 {')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	if rs.Set(winres.RT_RCDATA, winres.Name("a\\x00b\\x00c"), 0, []byte("x")) == nil {
		fail("a name with NULs was accepted")
	}
}
''',needs='a name with two inner NUL characters',breaks='a name the format cannot hold is accepted'),
dict(id='c18-names-order',prop='C18',edits=[('rsrc.go','	sort.Strings(names)\n','	if len(typeNameSet) > 0 {\n		sort.Strings(names)\n	}\n')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 0; i < 12; i++ {
		set(rs, winres.RT_RCDATA, winres.Name(fmt.Sprint("N", i)), 0, "a")
	}
	first := object(rs)
	for i := 0; i < 40; i++ {
		if !bytes.Equal(first, object(rs)) {
			fail("two writes of the same set differ")
		}
	}
}
''',needs='several named resources and no named type',breaks='two writes of the same set give different files'),
dict(id='c12-dir-at-end',prop='C12',edits=[('exe.go','		if i != pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[i].VirtualAddress > pew.rsrcHdr.VirtualAddress {','		if i != pe.IMAGE_DIRECTORY_ENTRY_SECURITY && i != pe.IMAGE_DIRECTORY_ENTRY_RESOURCE && pew.h.dirs[i].VirtualAddress > lastSection.VirtualAddress-virtDelta {')],
 demo=H+'''
func main() {
	m := &img{secs: []sec{
		{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)},
		{name: ".rsrc", va: 0x2000, vs: 0x1000, data: fill(0x200, 0)},
		{name: ".reloc", va: 0x3000, vs: 0x1000, data: fill(0x200, 3)}}}
	m.dirs[2] = [2]uint32{0x2000, 0x200}
	m.dirs[5] = [2]uint32{0x3000, 0x10}
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0, fill(0x3000, 9)))
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(m.bytes())))
	h := parse(o.b)
	if h.dirs[5][0] != h.secs[2][1] {
		fail("the relocation directory is at %x, its section at %x", h.dirs[5][0], h.secs[2][1])
	}
}
''',needs='a .reloc section right after a .rsrc section that grows',breaks='the relocation directory still points where the section was'),
dict(id='c11-signed-overlay',prop='C11',edits=[('exe.go','	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {','	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > pew.src.dataEnd {')],
 demo=H+'''
func main() {
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}, cert: fill(0x40, 7)}
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte("x")))
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(m.bytes()), winres.WithAuthenticode(winres.IgnoreSignature)))
	h := parse(o.b)
	c := h.dirs[4]
	if int(c[0]+c[1]) != len(o.b) || o.b[c[0]] != 7 {
		fail("the certificate entry %x does not designate the certificate", c)
	}
}
''',needs='a signed executable whose certificate follows the last section directly, signature kept',breaks='the certificate entry points into the sections'),
dict(id='c14-align-end',prop='C14',edits=[('exe.go','			PointerToRawData: pew.roundRaw(pew.src.dataEnd),','			PointerToRawData: pew.src.dataEnd,')],
 demo=H+'''
func main() {
	m := &img{secs: []sec{{name: ".text", va: 0x1000, vs: 0x1000, data: fill(0x200, 1)}}}
	b := m.bytes()
	// the raw size of the only section is not a multiple of the file alignment
	binary.LittleEndian.PutUint32(b[0x80+24+240+16:], 0x1F0)
	rs := &winres.ResourceSet{}
	check(rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte("x")))
	o := &out{}
	check(rs.WriteToEXE(o, bytes.NewReader(b)))
	if p := parse(o.b).secs[1][3]; p%0x200 != 0 {
		fail("the new section is at %x in the file", p)
	}
}
''',needs='an executable whose last section does not end on a file alignment boundary',breaks='the new section is not aligned in the file'),
dict(id='c13-sum-carry',prop='C13',edits=[('pesum.go','	return (a + (a >> 16)) & 0xFFFF','	return a&0xFFFF + a>>16')],demo='',needs='',breaks=''),
dict(id='c08-size-of-rsrc',prop='C08',edits=[],demo='',needs='',breaks=''),
dict(id='c25-planes',prop='C25',edits=[],demo='',needs='',breaks=''),
]
seeds=[s for s in seeds if s['demo']]
