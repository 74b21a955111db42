# Third series. HEAD/VHEAD: see batch1; PH (PE prelude): see batch2.
import os as _os
_ns = {"BUGS": []}
_d = _os.path.join(ROOT, "tools/bugs")
for _f in ("batch1.py", "batch2.py"):
    _g = dict(BUGS=[]); exec(open(_os.path.join(_d, _f)).read(), _g); _ns.update({k: v for k, v in _g.items() if k in ("HEAD", "VHEAD", "imp", "PH")})
HEAD, VHEAD, imp, PH = _ns["HEAD"], _ns["VHEAD"], _ns["imp"], _ns["PH"]
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
IMG = '''
func img(w, h int, seed byte) image.Image {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for i := range m.Pix {
		m.Pix[i] = byte(i)*7 + seed
	}
	return m
}

func icon(n ...int) *winres.Icon {
	var l []image.Image
	for i, s := range n {
		l = append(l, img(s, s, byte(17*i+s)))
	}
	ic, err := winres.NewIconFromImages(l)
	if err != nil {
		fail("%v", err)
	}
	return ic
}

func save(ic *winres.Icon) []byte {
	b := &bytes.Buffer{}
	if err := ic.SaveICO(b); err != nil {
		fail("%v", err)
	}
	return b.Bytes()
}

var _ image.Image
'''
B("symtab-overflow","C03",[("coff.go","uint32(section.NumberOfRelocations)*sizeOfReloc","uint32(section.NumberOfRelocations*sizeOfReloc)")],
 "an object with more than 6553 resources","the symbol table pointer is wrong",HEAD % imp("encoding/binary")+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 1; i <= 7000; i++ {
		rs.Set(winres.RT_RCDATA, winres.ID(i), 0, []byte{1})
	}
	b := &bytes.Buffer{}
	if err := rs.WriteObject(b, winres.ArchAMD64); err != nil {
		fail("%v", err)
	}
	if p := binary.LittleEndian.Uint32(b.Bytes()[8:]); int(p) != b.Len()-18-4 {
		fail("symbol table at %d, file size %d", p, b.Len())
	}
}
''')
B("readname-short","C04",[("rsrc.go","	b := make([]uint16, length)\n	err = binaryRead(section, b)\n","	b := make([]uint16, length)\n	if length > 0xFF {\n		return \"\", errors.New(errInvalidResDir)\n	}\n	err = binaryRead(section, b)\n")],
 "a resource name longer than 255 characters near the end of the section","the executable's resources cannot be loaded",PH+'''
func main() {
	rs := &winres.ResourceSet{}
	n := winres.Name(bytes.Repeat([]byte{'N'}, 300))
	rs.Set(winres.RT_RCDATA, n, 0, ref.Pattern(10, 1))
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0)}})
	got, err := winres.LoadFromEXE(bytes.NewReader(patch(rs, exe)))
	if err != nil || !bytes.Equal(got.Get(winres.RT_RCDATA, n, 0), ref.Pattern(10, 1)) {
		fail("%v", err)
	}
}
''',("pe","rsrc"))
B("load-type-sorted","C05",[("rsrc.go","	return dirEntry{}.walk(r, func(typeEntry dirEntry) error {\n","	done := false\n	return dirEntry{}.walk(r, func(typeEntry dirEntry) error {\n		if done {\n			return nil\n		}\n		if a, ok := typeEntry.ident.(ID); ok && typeID != ID(0) {\n			if b, ok := typeID.(ID); ok && a >= b {\n				// Types are sorted\n				done = true\n			}\n		}\n")],
 "an executable whose type directory is not sorted","resources of the type that come late are not loaded",PH+'''
func main() {
	id := func(n uint32) ref.Ident { return ref.Ident{ID: n} }
	// types 24 then 10, sorted by hand into a section: unsorted entries
	res := []ref.Res{{Key: ref.Key{Type: id(10), Res: id(1), Lang: 0}, Data: []byte("ten")}, {Key: ref.Key{Type: id(24), Res: id(1), Lang: 0}, Data: []byte("twentyfour")}}
	s := ref.BuildRsrc(res, 0x2000, ref.RsrcStyle{})
	a, b := append([]byte{}, s[16:24]...), append([]byte{}, s[24:32]...)
	copy(s[16:], b)
	copy(s[24:], a)
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), {Name: ".rsrc", Raw: s, Chars: ronly}}})
	p := parse(exe)
	_ = p
	all, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		fail("skip: %v", err)
	}
	one, err := winres.LoadFromEXESingleType(bytes.NewReader(exe), winres.RT_RCDATA)
	if err != nil || all.Count() != 2 || one.Count() != 1 {
		fail("%v: %d resources", err, one.Count())
	}
}
''',("pe","rsrc"))
B("blank-error","C10",[("exe.go","	err = writeBlank(w, int64(pew.rsrcHdr.SizeOfRawData)-int64(len(pew.rsrcData)))\n	if err != nil {\n		return err\n	}\n","	writeBlank(w, int64(pew.rsrcHdr.SizeOfRawData)-int64(len(pew.rsrcData)))\n")],
 "the destination fails in the padding of the resource section and not afterwards","the result is cut short, without an error",PH+'''
type limited struct{ n, got int }

func (l *limited) Write(p []byte) (int, error) {
	if l.got+len(p) > l.n {
		k := l.n - l.got
		if k < 0 {
			k = 0
		}
		l.got += k
		return k, errors.New("full")
	}
	l.got += len(p)
	return len(p), nil
}

func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0)}})
	n := len(patch(set(10), exe))
	for k := 0; k < n; k++ {
		w := &limited{n: k}
		if err := set(10).WriteToEXE(w, bytes.NewReader(exe)); err == nil {
			fail("%d bytes of %d and no error", k, n)
		}
	}
}
''',("pe","rsrc"))
B("data-overflow","C12",[("rsrc.go","	offset := int64(entry.DataRVA) - int64(baseAddress)\n	if offset < 0 || offset+int64(entry.Size) > section.Size() {","	offset := int64(entry.DataRVA) - int64(baseAddress)\n	if offset < 0 || int64(uint32(offset)+entry.Size) > section.Size() {")],
 "a resource data entry whose size wraps around","gigabytes are allocated for bytes that do not exist",PH+'''
func main() {
	id := func(n uint32) ref.Ident { return ref.Ident{ID: n} }
	s := ref.BuildRsrc([]ref.Res{{Key: ref.Key{Type: id(10), Res: id(1), Lang: 0}, Data: []byte("ten")}}, 0x2000, ref.RsrcStyle{})
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), {Name: ".rsrc", Raw: s, Chars: ronly}}})
	p := parse(exe)
	o := 0
	for i := range p.Secs {
		if p.Secs[i].Name == ".rsrc" {
			o = int(p.Secs[i].Ptr)
		}
	}
	ref.PutU32(exe, o+72+4, 0xFFFFFFF8)
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err == nil {
		fail("%d bytes", len(rs.Get(winres.RT_RCDATA, winres.ID(1), 0)))
	}
}
''',("pe","rsrc"))
B("cursor-short-image","C13",[("cursor.go","		planes, bitCount, err := readDIBBitCount(img)\n		if err != nil {\n			return nil, err\n		}\n","		planes, bitCount, err := readDIBBitCount(img)\n		if err != nil && len(img) > 0 {\n			return nil, err\n		}\n")],
 "a CUR file with an entry of no bytes among good ones","an image without content is accepted",HEAD % ""+'''
func main() {
	cur := []byte{0, 0, 2, 0, 1, 0, 32, 32, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 22, 0, 0, 0}
	if c, err := winres.LoadCUR(bytes.NewReader(cur)); err == nil {
		fail("accepted: %v", c)
	}
}
''')
B("icon-id-signed","C15",[("winres.go","if id, ok := resID.(ID); ok && rs.lastIconID < uint16(id) {","if id, ok := resID.(ID); ok && int16(rs.lastIconID) < int16(id) {")],
 "an icon image whose id is 32767","an icon added afterwards has images that overwrite each other",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_ICON, winres.ID(0x7FFF), 0, []byte("x"))
	ic := icon(16, 32)
	if err := rs.SetIcon(winres.ID(1), ic); err != nil {
		fail("%v", err)
	}
	got, err := rs.GetIcon(winres.ID(1))
	if err != nil || !bytes.Equal(save(got), save(ic)) {
		fail("%v", err)
	}
}
''')
B("icon-drop-old","C15",[("icon.go","	b := &bytes.Buffer{}\n	binary.Write(b, binary.LittleEndian, iconDirHeader{\n","	// Images of the icon that is replaced are useless now\n	if old := rs.Get(RT_GROUP_ICON, resID, langID); len(old) > sizeOfIconDirHeader {\n		for o := sizeOfIconDirHeader + 12; o+2 <= len(old); o += 14 {\n			id := ID(binary.LittleEndian.Uint16(old[o:]))\n			if id != 0 && uint16(id) != rs.lastIconID {\n				rs.Set(RT_ICON, id, LCIDNeutral, nil)\n			}\n		}\n	}\n\n	b := &bytes.Buffer{}\n	binary.Write(b, binary.LittleEndian, iconDirHeader{\n")],
 "two groups that share their images, one of which is replaced","the other group cannot be read any more",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	ic := icon(16, 32, 48)
	rs.SetIcon(winres.ID(1), ic)
	rs.Set(winres.RT_GROUP_ICON, winres.ID(2), 0, append([]byte{}, rs.Get(winres.RT_GROUP_ICON, winres.ID(1), 0)...))
	rs.SetIcon(winres.ID(1), icon(64))
	got, err := rs.GetIcon(winres.ID(2))
	if err != nil || !bytes.Equal(save(got), save(ic)) {
		fail("%v", err)
	}
}
''')
B("cursor-group-lang","C16",[("cursor.go","		img := rs.Get(RT_CURSOR, ID(entry.Id), rs.firstLang(RT_CURSOR, ID(entry.Id)))\n","		img := rs.Get(RT_CURSOR, ID(entry.Id), langID)\n		if img == nil {\n			img = rs.Get(RT_CURSOR, ID(entry.Id), rs.firstLang(RT_CURSOR, ID(entry.Id)))\n		}\n")],
 "a translated cursor, and an image with the same id in the language of the group","the cursor reads back with another image",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(8, 8, 3)}})
	if err != nil {
		fail("%v", err)
	}
	rs.SetCursorTranslation(winres.ID(1), 0x409, c)
	rs.Set(winres.RT_CURSOR, winres.ID(1), 0x409, []byte("something else that is long enough"))
	got, err := rs.GetCursorTranslation(winres.ID(1), 0x409)
	if err != nil {
		fail("%v", err)
	}
	a, b := &bytes.Buffer{}, &bytes.Buffer{}
	c.SaveCUR(a)
	got.SaveCUR(b)
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		fail("different cursor")
	}
}
''')
B("ico-backward","C17",[("icon.go","	icon := &Icon{}\n	for _, e := range entries {\n","	icon := &Icon{}\n	var pos int64\n	for _, e := range entries {\n"),
  ("icon.go","		if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {\n			return nil, err\n		}\n","		if int64(e.ImageOffset) > pos {\n			// Do not seek when images are contiguous\n			if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {\n				return nil, err\n			}\n		}\n		pos = int64(e.ImageOffset) + int64(e.BytesInRes)\n")],
 "an ICO file whose images are not stored in the order of the directory","images are read from the wrong place",HEAD % ""+'''
func main() {
	ico := []byte{0, 0, 1, 0, 2, 0}
	ico = append(ico, 16, 16, 0, 0, 1, 0, 32, 0, 3, 0, 0, 0, 41, 0, 0, 0)
	ico = append(ico, 8, 8, 0, 0, 1, 0, 32, 0, 3, 0, 0, 0, 38, 0, 0, 0)
	ico = append(ico, "cbaabcdef"...)
	ic, err := winres.LoadICO(bytes.NewReader(ico))
	if err != nil {
		fail("%v", err)
	}
	b := &bytes.Buffer{}
	ic.SaveICO(b)
	if !bytes.Equal(b.Bytes()[38:], []byte("abccba")) {
		fail("%q", b.Bytes()[38:])
	}
}
''')
B("cursor-order-byte","C18",[("cursor.go","img1.BitCount == img2.BitCount && img1.Width > img2.Width","img1.BitCount == img2.BitCount && uint8(img1.Width) > uint8(img2.Width)")],
 "a cursor with a 256 pixels image and a smaller one","images are not in order",HEAD % imp("image")+IMG+'''
func main() {
	c, _ := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(8, 8, 3)}, {Image: img(256, 256, 1)}})
	b := &bytes.Buffer{}
	c.SaveCUR(b)
	if b.Bytes()[6] != 0 {
		fail("first image is %d", b.Bytes()[6])
	}
}
''')
B("square-gray","C19",[("icon.go","	if _, ok := img.(*image.NRGBA); ok && w == h {\n		return img\n	}\n","	if w == h && center {\n		switch img.(type) {\n		case *image.NRGBA, *image.Gray, *image.Paletted:\n			// These are encoded faithfully\n			return img\n		}\n	}\n	if _, ok := img.(*image.NRGBA); ok && w == h {\n		return img\n	}\n")],
 "a square gray or paletted image","the PNG is not 32 bit as declared",HEAD % imp("image","encoding/binary")+IMG+'''
func main() {
	ic, err := winres.NewIconFromImages([]image.Image{image.NewGray(image.Rect(0, 0, 8, 8))})
	if err != nil {
		fail("%v", err)
	}
	b := save(ic)
	bits := binary.LittleEndian.Uint16(b[12:])
	// IHDR: bit depth, color type
	if d, t := b[22+24], b[22+25]; bits == 32 && !(d == 8 && (t == 6 || t == 2)) {
		fail("%d bits declared, depth %d, color type %d", bits, d, t)
	}
}
''')
B("resize-odd-center","C21",[("icon.go","	if center {\n		offset.X -= (w - length) / 2\n		offset.Y -= (h - length) / 2\n	}\n","	if center {\n		offset.X -= (w - length) / 2\n		offset.Y -= (h - length) / 2\n		if h < w && w > 4*h {\n			offset.Y = -img.Bounds().Min.Y\n		}\n	}\n")],
 "an image more than four times as wide as it is high","it is not centered",HEAD % imp("image","image/png")+IMG+'''
func main() {
	m := image.NewNRGBA(image.Rect(0, 0, 60, 10))
	for i := range m.Pix {
		m.Pix[i] = 255
	}
	ic, err := winres.NewIconFromResizedImage(m, []int{64})
	if err != nil {
		fail("%v", err)
	}
	p, err := png.Decode(bytes.NewReader(save(ic)[22:]))
	if err != nil {
		fail("%v", err)
	}
	if _, _, _, a := p.At(32, 0).RGBA(); a != 0 {
		fail("not centered")
	}
}
''')
B("split-map-order","C24",[("version/version.go","	for _, langID := range vi.lt.sortedKeys() {\n		for k, v := range *vi.lt[langID] {","	for _, st := range vi.lt {\n		for k, v := range *st {")],
 "a key that exists only in two languages that are neither neutral nor en-US, and a third language","the third language gets one or the other value at random",VHEAD % ""+'''
func main() {
	for i := 0; i < 200; i++ {
		vi := &version.Info{}
		vi.Set(0x40C, "k", "fr")
		vi.Set(0x410, "k", "it")
		vi.Set(0x411, "other", "x")
		if v := (*vi.SplitTranslations()[0x411].Table()[0x411])["k"]; v != "fr" {
			fail("%q", v)
		}
	}
}
''')
B("merge-main-empty","C25",[("version/version.go","	main = translations[LangDefault]\n	if main != nil {\n		return main\n	}\n\n	var lang uint16 = 0xFFFF\n	for k := range translations {\n		if k < lang {","	main = translations[LangDefault]\n	if main != nil {\n		return main\n	}\n\n	var lang uint16 = 0xFFFF\n	for k, vi := range translations {\n		if k < lang && (lang == 0xFFFF || len(vi.lt) > 0) {")],
 "the lowest language without strings, and other ones","fixed fields come from another language, depending on the order of the map",VHEAD % ""+'''
func main() {
	for i := 0; i < 200; i++ {
		a := &version.Info{FileVersion: [4]uint16{1, 2, 3, 4}}
		b := &version.Info{FileVersion: [4]uint16{5, 6, 7, 8}}
		b.Set(0x40C, "k", "v")
		if m := version.MergeTranslations(map[uint16]*version.Info{0x407: a, 0x40C: b}); m.FileVersion[0] != 1 {
			fail("%v", m.FileVersion)
		}
	}
}
''')
B("main-ffff","C26",[("version/version.go","		if st != nil && k <= lang {","		if st != nil && k < lang {")],
 "a table whose only language is 0xFFFF","there is no main translation",VHEAD % ""+'''
func main() {
	vi := &version.Info{}
	vi.Set(0xFFFF, "k", "v")
	if vi.Table().GetMainTranslation()["k"] != "v" {
		fail("no main translation")
	}
}
''')
B("dep-version","C28",[("manifest.go",'strings.HasPrefix(manifestString(dep.Identity.Version), "6.")','manifestString(dep.Identity.Version) == "6.0.0.0"')],
 "a manifest that depends on common controls 6.0.2600.0 or 6.0","common controls are not seen",HEAD % ""+'''
func main() {
	m, err := winres.AppManifestFromXML([]byte(`<assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0"><dependency><dependentAssembly><assemblyIdentity type="win32" name="Microsoft.Windows.Common-Controls" version="6.0.2600.0" processorArchitecture="*" publicKeyToken="6595b64144ccf1df" language="*"/></dependentAssembly></dependency></assembly>`))
	if err != nil || !m.UseCommonControlsV6 {
		fail("%v", err)
	}
}
''')
B("manifest-shared-buf","C31",[("manifest.go","	buf := &bytes.Buffer{}\n	tmpl := template.Must","	buf := &manifestBuf\n	buf.Reset()\n	tmpl := template.Must"),
  ("manifest.go","	return buf.Bytes()\n}\n\n// escapeXMLAttr","	return append([]byte(nil), buf.Bytes()...)\n}\n\n// manifestBuf is reused to reduce allocations\nvar manifestBuf bytes.Buffer\n\n// escapeXMLAttr")],
 "two goroutines that make manifests for their own sets at the same time","manifests are mixed up",HEAD % imp("strings","sync")+'''
func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint(e)
				}
			}()
			d := strings.Repeat(fmt.Sprint(g), 200)
			for i := 0; i < 2000; i++ {
				rs := &winres.ResourceSet{}
				rs.SetManifest(winres.AppManifest{Description: d})
				m, err := winres.AppManifestFromXML(rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault))
				if err != nil || m.Description != d {
					bad <- fmt.Sprint(err, m.Description)
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case s := <-bad:
		fail("%s", s)
	default:
	}
}
''')
B("keys-buffer","C31",[("version/binary.go","	keys := make([]string, 0, len(*st))\n	for k := range *st {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	return keys\n}\n","	keys := keysBuf[:0]\n	for k := range *st {\n		keys = append(keys, k)\n	}\n	keysBuf = keys\n	sort.Strings(keys)\n	return keys\n}\n\n// keysBuf avoids allocating for every table\nvar keysBuf []string\n")],
 "two goroutines that encode their own version structures at the same time","keys of one structure appear in the other one",VHEAD % imp("sync","bytes")+'''
func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint(e)
				}
			}()
			vi := &version.Info{}
			for i := 0; i < 40; i++ {
				vi.Set(0, fmt.Sprintf("key%d-%d", g, i), fmt.Sprint(g, i))
			}
			var first []byte
			for i := 0; i < 3000; i++ {
				b := vi.Bytes()
				if first == nil {
					if got, err := version.FromBytes(b); err != nil || len(*got.Table()[0]) != 40 || (*got.Table()[0])[fmt.Sprintf("key%d-39", g)] == "" {
						bad <- "bad structure"
						return
					}
					first = b
				}
				if !bytes.Equal(b, first) {
					bad <- "different bytes"
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case s := <-bad:
		fail("%s", s)
	default:
	}
}
''')
B("split-alias","C32",[("version/version.go","		for k, v := range defaults {\n			trans.Set(langID, k, v)\n		}\n		for k, v := range *st {\n			trans.Set(langID, k, v)\n		}\n","		if len(*st) == len(defaults) {\n			// Every key is translated\n			trans.lt = LangTable{langID: st}\n		} else {\n			for k, v := range defaults {\n				trans.Set(langID, k, v)\n			}\n			for k, v := range *st {\n				trans.Set(langID, k, v)\n			}\n		}\n")],
 "splitting, then changing one of the results (or the original)","the original changes along",VHEAD % ""+'''
func main() {
	vi := &version.Info{}
	vi.Set(0x409, "k", "v")
	s := vi.SplitTranslations()
	s[0x409].Set(0x409, "k", "changed")
	if (*vi.Table()[0x409])["k"] != "v" {
		fail("the original changed")
	}
}
''')
B("sizes-sorted","C32",[("icon.go","	icon := Icon{}\n	for _, s := range sizes {\n		if s < 1 {","	// Bigger first\n	sort.Sort(sort.Reverse(sort.IntSlice(sizes)))\n\n	icon := Icon{}\n	for _, s := range sizes {\n		if s < 1 {")],
 "a list of sizes in another order than descending","the caller's slice is reordered",HEAD % imp("image")+IMG+'''
func main() {
	sizes := []int{16, 48, 32}
	winres.NewIconFromResizedImage(img(64, 64, 1), sizes)
	if sizes[0] != 16 || sizes[1] != 48 || sizes[2] != 32 {
		fail("%v", sizes)
	}
}
''')
B("cursor-dib-inplace","C32",[("cursor.go","	// As a resource, image data includes the hot spot\n	buf := bytes.NewBuffer(make([]byte, 0, len(ci.image)+4))\n","	// As a resource, image data includes the hot spot\n	ci.fixHeight()\n	buf := bytes.NewBuffer(make([]byte, 0, len(ci.image)+4))\n"),
  ("cursor.go","// This makes a testing error reporting possible\nvar bmpEncode","// fixHeight sets the height of a DIB that does not count the mask.\nfunc (ci *cursorImage) fixHeight() {\n	if len(ci.image) >= 40 && ci.image[0] == 40 && binary.LittleEndian.Uint32(ci.image[8:]) == uint32(ci.info.Height) {\n		binary.LittleEndian.PutUint32(ci.image[8:], 2*uint32(ci.info.Height))\n	}\n}\n\n// This makes a testing error reporting possible\nvar bmpEncode")],
 "a cursor read from a set where the height of the DIB is not doubled, stored in another set","the first set's data is modified",HEAD % imp("encoding/binary")+'''
func main() {
	rs := &winres.ResourceSet{}
	d := make([]byte, 44+8*8*4)
	d[4] = 40
	binary.LittleEndian.PutUint32(d[8:], 8)
	binary.LittleEndian.PutUint32(d[12:], 8)
	binary.LittleEndian.PutUint16(d[16:], 1)
	binary.LittleEndian.PutUint16(d[18:], 32)
	rs.Set(winres.RT_CURSOR, winres.ID(1), 0, d)
	rs.Set(winres.RT_GROUP_CURSOR, winres.ID(1), 0, []byte{0, 0, 2, 0, 1, 0, 8, 0, 8, 0, 1, 0, 32, 0, byte(len(d)), byte(len(d) >> 8), 0, 0, 1, 0})
	before := append([]byte{}, d...)
	c, err := rs.GetCursor(winres.ID(1))
	if err != nil {
		fail("%v", err)
	}
	(&winres.ResourceSet{}).SetCursor(winres.ID(1), c)
	if !bytes.Equal(rs.Get(winres.RT_CURSOR, winres.ID(1), 0), before) {
		fail("the resource was modified")
	}
}
''')
B("version-stale","C33",[("winres.go","	for langID, res := range vi.SplitTranslations() {\n		rs.Set(RT_VERSION, ID(1), langID, res.Bytes())\n	}\n","	// Forget previous information\n	if te := rs.types[RT_VERSION]; te != nil {\n		for resID, re := range te.resources {\n			for langID := range re.data {\n				rs.delete(RT_VERSION, resID, uint16(langID))\n			}\n		}\n	}\n	for langID, res := range vi.SplitTranslations() {\n		rs.Set(RT_VERSION, ID(1), langID, res.Bytes())\n	}\n")],
 "a version resource with another id","it disappears when version information is set",HEAD % imp("github.com/tc-hib/winres/version")+'''
func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_VERSION, winres.ID(2), 0x409, []byte("other"))
	vi := version.Info{}
	vi.Set(0x409, "k", "v")
	rs.SetVersionInfo(vi)
	if rs.Get(winres.RT_VERSION, winres.ID(2), 0x409) == nil {
		fail("version resource 2 was deleted")
	}
}
''')
B("version-neutral-skip","C33",[("winres.go","	for langID, res := range vi.SplitTranslations() {\n","	for langID, res := range vi.SplitTranslations() {\n		if langID == LCIDNeutral && rs.Get(RT_VERSION, ID(1), LCIDDefault) != nil {\n			// en-US is used by default\n			continue\n		}\n")],
 "neutral and en-US strings, and a set that already has en-US version information","the neutral structure is missing (or not, depending on the order of the map)",HEAD % imp("github.com/tc-hib/winres/version")+'''
func main() {
	rs := &winres.ResourceSet{}
	vi := version.Info{}
	vi.Set(0x409, "k", "v")
	rs.SetVersionInfo(vi)
	vi.Set(0, "k", "n")
	rs.SetVersionInfo(vi)
	if rs.Get(winres.RT_VERSION, winres.ID(1), 0) == nil {
		fail("no neutral version information")
	}
}
''')
