import runpy
H=runpy.run_path('/verif/tools/seeds/b.py')['H']
seeds=[
dict(id='c42-id-15bit',prop='C42',edits=[('cursor.go','rs.Get(RT_CURSOR, ID(entry.Id), rs.firstLang(RT_CURSOR, ID(entry.Id)))','rs.Get(RT_CURSOR, ID(entry.Id&0x7FFF), rs.firstLang(RT_CURSOR, ID(entry.Id&0x7FFF)))')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_CURSOR, winres.ID(0x8000), 0, "other")
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: square(16)}})
	check(err)
	check(rs.SetCursor(winres.ID(1), c))
	if _, err := rs.GetCursor(winres.ID(1)); err != nil {
		fail("cursor cannot be read back: %v", err)
	}
}
''',needs='a set in which a cursor image already has an identifier of 0x8000 or more',breaks='the images of the cursor are looked up under other identifiers'),
dict(id='c42-width-group',prop='C42',edits=[('cursor.go','			cursorInfo: img.info,\n			Id:         id,\n','			cursorInfo: cursorInfo{\n				Width:      img.info.Width,\n				Height:     img.info.Height % 256,\n				Planes:     img.info.Planes,\n				BitCount:   img.info.BitCount,\n				BytesInRes: img.info.BytesInRes,\n			},\n			Id: id,\n')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: square(256)}})
	check(err)
	check(rs.SetCursor(winres.ID(1), c))
	g := rs.Get(winres.RT_GROUP_CURSOR, winres.ID(1), 0)
	if w, h := binary.LittleEndian.Uint16(g[6:]), binary.LittleEndian.Uint16(g[8:]); w != h {
		fail("a square cursor is announced as %dx%d", w, h)
	}
}
''',needs='a cursor of 256 pixels in height added to a set',breaks='the group announces another height'),
dict(id='c21-id-mask',prop='C21',edits=[('icon.go','			Id:       id,\n','			Id:       id &^ 0x4000,\n')],
 demo=H+'''
func main() {
	rs := &winres.ResourceSet{}
	set(rs, winres.RT_ICON, winres.ID(0x4000), 0, "other")
	c, err := winres.NewIconFromImages([]image.Image{square(16)})
	check(err)
	check(rs.SetIcon(winres.ID(1), c))
	if _, err := rs.GetIcon(winres.ID(1)); err != nil {
		fail("icon cannot be read back: %v", err)
	}
}
''',needs='an icon image identifier with bit 14 set, that is, a set already holding one that high',breaks='the group entry carries another identifier than its image'),
dict(id='c03-ver-part',prop='C03',edits=[('version/version.go',"v[i] == '.' && part < 3","v[i] == '.' && part <= 3")],
 demo=H+'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	vi := version.Info{}
	vi.SetFileVersion("1.2.3.4.5.6")
}
''',needs='a version text with more than four parts',breaks='the parser goes past the four numbers'),
dict(id='c33-key-nul',prop='C33',edits=[('version/version.go','	if strings.ContainsRune(key, 0) {','	if strings.IndexByte(key[1:], 0) >= 0 {')],
 demo=H+'''
func main() {
	vi := version.Info{}
	if vi.Set(0x409, "\\x00K", "v") == nil {
		fail("a key holding NUL was accepted")
	}
}
''',needs='a key that starts with NUL',breaks='an invalid string enters the structure'),
dict(id='c34-empty-shared',prop='C34',edits=[('version/version.go','		var st *StringTable\n		if langST != nil {\n			stm','		st := langST\n		if langST != nil && len(*langST) > 0 {\n			stm')],
 demo=H+'''
func main() {
	vi := version.Info{}
	check(json.Unmarshal([]byte(`{"info":{"0409":{}}}`), &vi))
	t := vi.Table()
	if t[0x409] == nil {
		return
	}
	(*t[0x409])["X"] = "y"
	if u := vi.Table()[0x409]; len(*u) != 0 {
		fail("the structure changed with the copy")
	}
}
''',needs='a language whose table is empty',breaks='the table returned is the one of the structure'),
]
