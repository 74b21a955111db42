# Fourth series. See batch3.
import os as _os
_g = dict(BUGS=[], ROOT=ROOT); exec(open(_os.path.join(ROOT, "tools/bugs/batch3.py")).read(), _g)
HEAD, VHEAD, imp, PH, IMG = _g["HEAD"], _g["VHEAD"], _g["imp"], _g["PH"], _g["IMG"]
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
B("counters-reset","C34",[("winres.go","	delete(rs.types, typeID)\n}","	delete(rs.types, typeID)\n	if typeID == RT_CURSOR || typeID == RT_ICON {\n		// No image is left\n		rs.lastIconID, rs.lastCursorID = 0, 0\n	}\n}")],
 "all cursors removed from a set that has icons, then another icon","the new icon overwrites the images of the existing one",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	a, b := icon(16), icon(32)
	rs.SetIcon(winres.ID(1), a)
	rs.Set(winres.RT_CURSOR, winres.ID(1), 0, []byte("cursor"))
	rs.Set(winres.RT_CURSOR, winres.ID(1), 0, nil)
	rs.SetIcon(winres.ID(2), b)
	got, err := rs.GetIcon(winres.ID(1))
	if err != nil || !bytes.Equal(save(got), save(a)) {
		fail("icon 1 changed: %v", err)
	}
}
''')
B("counter-shared","C34",[("winres.go","	} else if typeID == RT_CURSOR {\n		if id, ok := resID.(ID); ok && rs.lastCursorID < uint16(id) {\n","	} else if typeID == RT_CURSOR || typeID == RT_GROUP_CURSOR && langID != LCIDNeutral {\n		if id, ok := resID.(ID); ok && rs.lastCursorID < uint16(id) && typeID == RT_CURSOR {\n			rs.lastCursorID = uint16(id)\n		} else if ok && rs.lastIconID > uint16(id) {\n			rs.lastIconID = uint16(id)\n")],
 "a translated cursor set between two icons","an icon takes the identifiers of the images of another one",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	a := icon(16, 32, 48)
	rs.SetIcon(winres.ID(1), a)
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(16, 16, 3)}})
	if err != nil {
		fail("%v", err)
	}
	rs.SetCursorTranslation(winres.ID(1), 0x40C, c)
	rs.SetIcon(winres.ID(2), icon(64))
	got, err := rs.GetIcon(winres.ID(1))
	if err != nil || !bytes.Equal(save(got), save(a)) {
		fail("icon 1 changed: %v", err)
	}
}
''',fmt=True)
B("lang-15bits","C01",[("winres.go","	de := re.data[ID(langID)]\n	if de == nil {\n		te.orderedKeys = nil","	langID &^= uint16(re.langMask())\n	de := re.data[ID(langID)]\n	if de == nil {\n		te.orderedKeys = nil"),
  ("winres.go","	de := re.data[ID(langID)]\n	if de == nil {\n		return nil","	de := re.data[ID(langID&^re.langMask())]\n	if de == nil {\n		return nil"),
  ("rsrc.go","type typeEntry struct {","// langMask gives the bits that are not part of a language\nfunc (re *resourceEntry) langMask() uint16 {\n	if len(re.data) > 0 {\n		return 0x8000\n	}\n	return 0\n}\n\ntype typeEntry struct {")],
 "two languages that differ by their highest bit","the second one replaces the first",HEAD % ""+'''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("a"))
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0x8409, []byte("b"))
	if string(rs.Get(winres.RT_RCDATA, winres.ID(1), 0x409)) != "a" || rs.Count() != 2 {
		fail("%d resources", rs.Count())
	}
}
''')
B("stale-lang-order","C02",[("winres.go","	te.orderedKeys = nil\n	re.orderedKeys = nil\n\n	if len(re.data) > 0 {\n		return\n	}","	if len(re.data) > 0 {\n		if re.orderedKeys != nil && re.orderedKeys[0] == ID(langID) {\n			re.orderedKeys = re.orderedKeys[1:]\n		} else {\n			te.orderedKeys, re.orderedKeys = nil, nil\n		}\n		return\n	}"),
   ("winres.go","		te.orderedKeys = nil\n		re.orderedKeys = nil\n		de = &dataEntry{}\n		re.data[ID(langID)] = de\n","		de = &dataEntry{}\n		re.data[ID(langID)] = de\n		if n := len(re.orderedKeys); n > 0 && langID == LCIDNeutral {\n			re.orderedKeys = append(re.orderedKeys[:0:0], re.orderedKeys...)\n			re.orderedKeys = append(re.orderedKeys, ID(langID))\n		} else {\n			te.orderedKeys, re.orderedKeys = nil, nil\n		}\n")],
 "the neutral language of a resource added after other languages were observed","languages are written in the wrong order",HEAD % ""+'''func main() {
	rs, fresh := &winres.ResourceSet{}, &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("a"))
	rs.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool { return true })
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte("b"))
	fresh.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte("b"))
	fresh.Set(winres.RT_RCDATA, winres.ID(1), 0x409, []byte("a"))
	x, y := &bytes.Buffer{}, &bytes.Buffer{}
	rs.WriteObject(x, winres.ArchAMD64)
	fresh.WriteObject(y, winres.ArchAMD64)
	if !bytes.Equal(x.Bytes(), y.Bytes()) {
		fail("outputs differ")
	}
}
''',fmt=True)
B("section-overflow","C12",[("exe.go","	if int64(sec.PointerToRawData)+int64(sec.SizeOfRawData) > fileSize {","	if int64(sec.PointerToRawData+sec.SizeOfRawData) > fileSize {")],
 "a resource section whose pointer plus raw size wraps around","4 GB are allocated",PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0)}})
	p := parse(exe)
	o := p.SecOff + 40
	ref.PutU32(exe, o+16, -ref.U32(exe, o+20))
	if _, err := winres.LoadFromEXE(bytes.NewReader(exe)); err == nil || err == io.ErrUnexpectedEOF || err == io.EOF {
		fail("read 4 GB: %v", err)
	}
}
''',("pe","rsrc"))
B("sparse-blank","C11",[("exe.go","	if length <= 0 {\n		return nil\n	}\n","	if length <= 0 {\n		return nil\n	}\n	if s, ok := w.(io.Seeker); ok && length > 0x100 {\n		// Skip all but the last byte\n		if _, err := s.Seek(length-1, io.SeekCurrent); err != nil {\n			return err\n		}\n		length = 1\n	}\n")],
 "a destination that can seek and already contains data, more than 256 bytes of padding","the padding keeps what the destination contained",PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}})
	want := patch(set(10), exe)
	f, err := os.Create("out.exe")
	if err != nil {
		fail("skip: %v", err)
	}
	defer os.Remove("out.exe")
	f.Write(bytes.Repeat([]byte{'x'}, len(want)))
	f.Seek(0, 0)
	if err := set(10).WriteToEXE(f, bytes.NewReader(exe)); err != nil {
		fail("%v", err)
	}
	f.Close()
	got, _ := os.ReadFile("out.exe")
	if !bytes.Equal(got, want) {
		fail("the file differs")
	}
}
''',("pe","rsrc"))
B("cur-short-write","C10",[("cursor.go","		_, err = ico.Write(cursor.images[i].image)\n		if err != nil {","		_, err = ico.Write(cursor.images[i].image)\n		if err != nil && err != io.ErrShortWrite {")],
 "a destination that reports a short write while an image is written","SaveCUR reports success though bytes are missing",HEAD % imp("image","io")+IMG+'''
type w struct{ n int }

func (w *w) Write(p []byte) (int, error) {
	if len(p) > 100 {
		return 50, io.ErrShortWrite
	}
	return len(p), nil
}

func main() {
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(16, 16, 3)}})
	if err != nil {
		fail("%v", err)
	}
	if c.SaveCUR(&w{}) == nil {
		fail("no error")
	}
}
''')
B("short-cursor","C13",[("cursor.go","		if len(img) < 4 {","		if len(img) < 2 {")],
 "a cursor image of 2 or 3 bytes","GetCursor panics",HEAD % ""+'''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_CURSOR, winres.ID(1), 0, []byte{1, 2, 3})
	rs.Set(winres.RT_GROUP_CURSOR, winres.ID(1), 0, []byte{0, 0, 2, 0, 1, 0, 1, 0, 2, 0, 1, 0, 1, 0, 3, 0, 0, 0, 1, 0})
	if _, err := rs.GetCursor(winres.ID(1)); err == nil {
		fail("accepted")
	}
}
''')
B("node-length","C14",[("version/binary.go","	if n.Length < sizeOfNodeHeader || int(n.Length) > len(data) {","	if n.Length == 0 || int(n.Length) > len(data) {")],
 "a node whose length is 1 to 5","FromBytes panics",VHEAD % ""+'''func main() {
	b := make([]byte, 40)
	b[0] = 3
	if _, err := version.FromBytes(b); err == nil {
		fail("accepted")
	}
}
''')
B("cursor-unstable","C18",[("cursor.go","	sort.SliceStable(cursor.images,","	sort.Slice(cursor.images,")],
 "a cursor with more than 12 images of the same size","equal images are reordered",HEAD % imp("image")+IMG+'''
func main() {
	var l []winres.CursorImage
	for i := 0; i < 40; i++ {
		l = append(l, winres.CursorImage{Image: img(16, 16, byte(i)), HotSpot: winres.HotSpot{X: uint16(i)}})
	}
	c, err := winres.NewCursorFromImages(l)
	if err != nil {
		fail("%v", err)
	}
	b := &bytes.Buffer{}
	c.SaveCUR(b)
	for i := 0; i < 40; i++ {
		if int(b.Bytes()[6+16*i+4]) != i {
			fail("image %d is image %d", i, b.Bytes()[6+16*i+4])
		}
	}
}
''')
B("bounds-max","C19",[("icon.go","	w, h := img.Bounds().Size().X, img.Bounds().Size().Y\n	if _, ok := img.(*image.NRGBA)","	w, h := img.Bounds().Max.X, img.Bounds().Max.Y\n	if img.Bounds().Min.X < 0 || img.Bounds().Min.Y < 0 || img.Bounds().Dx() == img.Bounds().Dy() {\n		w, h = img.Bounds().Dx(), img.Bounds().Dy()\n	}\n	if _, ok := img.(*image.NRGBA)")],
 "an image that is not square and whose bounds do not start at the origin","the icon is larger than the image",HEAD % imp("image")+IMG+'''
func main() {
	i, err := winres.NewIconFromImages([]image.Image{image.NewNRGBA(image.Rect(10, 10, 30, 20))})
	if err != nil {
		fail("%v", err)
	}
	if b := save(i); b[6] != 20 {
		fail("width %d", b[6])
	}
}
''')
B("hotspot-clamp","C20",[("cursor.go","		hotSpot: hotSpot,\n		image:   dib,","		hotSpot: hotSpot.within(width, height),\n		image:   dib,"),
  ("cursor.go","func (cursor *Cursor) order() {","// within keeps the hot spot inside the image.\nfunc (h HotSpot) within(width, height int) HotSpot {\n	if int(h.X) > width {\n		h.X = uint16(width)\n	}\n	if int(h.Y) > height {\n		h.Y = uint16(height)\n	}\n	return h\n}\n\nfunc (cursor *Cursor) order() {")],
 "a hot spot outside the image","the hot spot is moved",HEAD % imp("image")+IMG+'''
func main() {
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(16, 16, 3), HotSpot: winres.HotSpot{X: 20, Y: 3}}})
	if err != nil {
		fail("%v", err)
	}
	b := &bytes.Buffer{}
	c.SaveCUR(b)
	if b.Bytes()[10] != 20 {
		fail("hot spot %d", b.Bytes()[10])
	}
}
''')
B("json-empty-lang","C23",[("version/json.go","		if v != nil {\n			jvi.Info","		if v != nil && len(*v) > 0 {\n			jvi.Info")],
 "a language without strings","the language disappears, the binary form changes",VHEAD % imp("bytes","encoding/json")+'''func main() {
	a := &version.Info{}
	if err := json.Unmarshal([]byte(`{"info":{"0409":{"a":"b"},"040C":{}}}`), a); err != nil {
		fail("%v", err)
	}
	if a.Table()[0x40C] == nil {
		fail("skip: no empty language")
	}
	j, err := json.Marshal(a)
	b := &version.Info{}
	if err == nil {
		err = json.Unmarshal(j, b)
	}
	if err != nil || !bytes.Equal(a.Bytes(), b.Bytes()) {
		fail("%v %s", err, j)
	}
}
''')
B("single-empty","C25",[("version/version.go","		if st != nil && len(*st) != 0 {\n			if seen {","		if st != nil {\n			if seen {")],
 "an Info with one translation and an empty language","the translation is lost",VHEAD % imp("encoding/json")+'''func main() {
	a := &version.Info{}
	if err := json.Unmarshal([]byte(`{"info":{"0411":{"a":"b"},"040C":{}}}`), a); err != nil {
		fail("%v", err)
	}
	m := version.MergeTranslations(map[uint16]*version.Info{0x407: a})
	if st := m.Table()[0x407]; st == nil || (*st)["a"] != "b" {
		fail("lost")
	}
}
''')
B("file-version-empty","C26",[("version/version.go","	vi.FileVersion = versionStringToArray(fileVersion)\n	if len(vi.lt) == 0 {","	vi.FileVersion = versionStringToArray(fileVersion)\n	if vi.lt == nil {")],
 "SetFileVersion after reading JSON without languages","the textual version is not set",VHEAD % imp("encoding/json")+'''func main() {
	a := &version.Info{}
	if err := json.Unmarshal([]byte(`{}`), a); err != nil {
		fail("%v", err)
	}
	a.SetFileVersion("1.2")
	if st := a.Table()[0]; st == nil || (*st)[version.FileVersion] != "1.2" {
		fail("not set")
	}
}
''')
B("split-tail-default","C24",[("version/version.go","	for langID, st := range vi.lt {\n		trans := &Info{","	for langID, st := range vi.lt {\n		if st == nil {\n			continue\n		}\n		if len(*st) >= len(defaults) {\n			// Complete\n			own := make(StringTable, len(*st))\n			for k, v := range *st {\n				own[k] = v\n			}\n			m[langID] = &Info{lt: LangTable{langID: &own}, FileVersion: vi.FileVersion, ProductVersion: vi.ProductVersion, Flags: vi.Flags, Type: vi.Type, Timestamp: vi.Timestamp.Truncate(time.Millisecond)}\n			continue\n		}\n		trans := &Info{"),
  ("version/version.go",'	"strings"\n','	"strings"\n	"time"\n')],
 "a language that has every key and a time stamp with microseconds","the time stamp of that translation is truncated",VHEAD % imp("time")+'''func main() {
	a := &version.Info{Timestamp: time.Date(2020, 1, 2, 3, 4, 5, 1234567, time.UTC)}
	a.Set(0x409, "a", "b")
	if s := a.SplitTranslations()[0x409]; !s.Timestamp.Equal(a.Timestamp) {
		fail("%v", s.Timestamp)
	}
}
''',fmt=True)
B("desc-trim","C27",[("manifest.go","	if manifest.Identity.Name != \"\" {\n		vars.AssemblyName","	vars.Description = strings.Trim(vars.Description, \"\\n\\t\")\n	if manifest.Identity.Name != \"\" {\n		vars.AssemblyName")],
 "a description that starts or ends with line breaks","they are lost",HEAD % ""+'''func main() {
	rs := &winres.ResourceSet{}
	rs.SetManifest(winres.AppManifest{Description: "a\\nb\\n"})
	m, err := winres.AppManifestFromXML(rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409))
	if err != nil || m.Description != "a\\nb\\n" {
		fail("%v %q", err, m.Description)
	}
}
''')
B("dpi-unknown-first","C28",[("manifest.go","		case \"unaware\":\n			return DPIUnaware\n		}\n	}","		case \"unaware\":\n			return DPIUnaware\n		case \"\":\n		default:\n			if dpiAware != \"\" {\n				return readDPIAwareness(dpiAware, \"\")\n			}\n		}\n	}")],
 "an unknown DPI awareness followed by a known one, and the old element","the old element wins",HEAD % ""+'''func main() {
	m, err := winres.AppManifestFromXML([]byte(`<assembly><application><windowsSettings><dpiAware>true</dpiAware><dpiAwareness>future, PerMonitorV2</dpiAwareness></windowsSettings></application></assembly>`))
	if err != nil || m.DPIAwareness != winres.DPIPerMonitorV2 {
		fail("%v %v", err, m.DPIAwareness)
	}
}
''')
B("symtab-edge","C06",[("exe.go","	if int64(pew.h.file.PointerToSymbolTable) >= pew.src.rsrcEnd {","	if int64(pew.h.file.PointerToSymbolTable) > pew.src.rsrcEnd {")],
 "a symbol table that directly follows the resource section, which changes size","the pointer to the symbol table is wrong",PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0)}, Overlay: ref.Pattern(100, 3), SymTab: true})
	a, b := parse(exe), parse(patch(set(5000), exe))
	if b.SymTab-a.SymTab != b.DataEnd-a.DataEnd || b.SymTab == a.SymTab {
		fail("symbol table at %#x, was %#x", b.SymTab, a.SymTab)
	}
}
''',("pe","rsrc"))
B("bound-import-gap","C06",[("exe.go","	end := int64(pew.src.dataEnd)\n	if int64(pew.rsrcHdr.PointerToRawData) < end {\n		end = int64(pew.rsrcHdr.PointerToRawData)\n	}","	end := int64(pew.src.dataEnd)\n	if p := int64(pew.rsrcHdr.PointerToRawData); p < end && p+int64(pew.rsrcHdr.SizeOfRawData) >= int64(pew.src.dataOffset) {\n		end = p\n	}\n	if end == int64(pew.src.dataOffset) {\n		// Nothing before .rsrc\n		if err = writeBlank(w, end-pew.h.length); err != nil {\n			return err\n		}\n		if _, err = pew.src.r.Seek(end, io.SeekStart); err != nil {\n			return err\n		}\n		end = 0\n		pew.h.length, end = end, pew.h.length\n		defer func() { pew.h.length = end }()\n		end = 0\n	}")],
 "x","x","package main\nfunc main(){}")
BUGS.pop()
