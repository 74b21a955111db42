# Sixth series, from the probes. See batch3.
import os as _os
_g = dict(BUGS=[], ROOT=ROOT); exec(open(_os.path.join(ROOT, "tools/bugs/batch3.py")).read(), _g)
HEAD, VHEAD, imp, PH, IMG = _g["HEAD"], _g["VHEAD"], _g["imp"], _g["PH"], _g["IMG"]
W="winres.go";R="rsrc.go";X="exe.go";I="icon.go";C="cursor.go";M="manifest.go";V="version/version.go";VB="version/binary.go";VJ="version/json.go";T="version/timestamp.go";O="coff.go"
AT = '''
func at(va uint32) ref.SecSpec {
	return ref.SecSpec{Name: ".rsrc", Raw: ref.BuildRsrc(old, va, ref.RsrcStyle{}), Chars: ronly}
}
'''
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
B("rsrc-by-name","C04",[(X,"	if sec == nil {\n		return nil, 0, errors.New(errRSRCNotFound)","	for i := range h.sections {\n		if sec != nil && h.sections[i].Name == [8]byte{'.', 'r', 's', 'r', 'c'} {\n			sec = &h.sections[i]\n		}\n	}\n	if sec == nil {\n		return nil, 0, errors.New(errRSRCNotFound)")],
 "an executable with a section named .rsrc that is not where the resource directory is","resources are read from the wrong section",PH+AT+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text), at(0x2000), sec(".rsro", 0x200, ronly)}})
	p := parse(exe)
	copy(exe[p.SecOff+40:], ".other\\x00\\x00")
	copy(exe[p.SecOff+80:], ".rsrc\\x00\\x00\\x00")
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		fail("%v", err)
	}
	if rs.Count() != 1 || string(rs.Get(winres.ID(10), winres.ID(1), 0x409)) != "old resource" {
		fail("%d resources", rs.Count())
	}
}
''',("pe","rsrc"))
B("secname-slash","C04",[(X,"	for i := range h.sections {\n		if h.sections[i].VirtualAddress == h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress {\n			sec","	for i := range h.sections {\n		if h.sections[i].Name[0] == '/' {\n			break\n		}\n		if h.sections[i].VirtualAddress == h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress {\n			sec")],
 "an executable with debug sections (whose names start with a slash) before its resources","resources are not found",PH+AT+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text), sec("/4", 0x200, ronly), at(0x3000)}})
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		fail("%v", err)
	}
	if rs.Count() != 1 {
		fail("%d resources", rs.Count())
	}
}
''',("pe","rsrc"))
B("dirshift-reloc","C06",[(X,"		if i != pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[i].VirtualAddress > pew.rsrcHdr.VirtualAddress {","		if i == pe.IMAGE_DIRECTORY_ENTRY_BASERELOC && pew.h.dirs[i].VirtualAddress > pew.rsrcHdr.VirtualAddress {")],
 "a .reloc section after .rsrc, which another data directory designates too, and resources that grow by a page","a data directory still designates the old address",PH+'''
func main() {
	c := &ref.PEConf{Slack: 80, NumDirs: 16, Sections: []ref.SecSpec{sec(".text", 0x200, text), rsrc(0), sec(".reloc", 0x200, ronly)}}
	p := parse(ref.BuildPE(c))
	c.ExtraDirs = map[int][2]uint32{6: {p.Secs[2].VA + 0x100, 28}}
	d := parse(patch(set(0x3000), ref.BuildPE(c)))
	want := p.Secs[2].VA + 0x100
	for _, s := range d.Secs {
		if s.Name == ".reloc" {
			want = s.VA + 0x100
		}
	}
	if want == p.Secs[2].VA+0x100 || d.Dirs[6][0] != want {
		fail("the debug directory is at %#x instead of %#x", d.Dirs[6][0], want)
	}
}
''',("pe","rsrc"))
B("firstlang-primary","C15",[(W,"	return uint16(re.orderedKeys[0])","	lang := re.orderedKeys[0]\n	for _, l := range re.orderedKeys {\n		if l&0x3FF < lang&0x3FF {\n			lang = l\n		}\n	}\n	return uint16(lang)")],
 "an icon in two languages whose sublanguages are not in the order of the languages","GetIcon does not return the first language, which Windows would show",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	a, b := icon(16), icon(32)
	rs.SetIconTranslation(winres.ID(1), 0x40C, a)
	rs.SetIconTranslation(winres.ID(1), 0x809, b)
	got, err := rs.GetIcon(winres.ID(1))
	if err != nil || !bytes.Equal(save(got), save(a)) {
		fail("wrong icon: %v", err)
	}
}
''')
B("lasticon-lang","C15",[(W,"		if id, ok := resID.(ID); ok && rs.lastIconID < uint16(id) {","		if id, ok := resID.(ID); ok && langID != LCIDDefault && rs.lastIconID < uint16(id) {")],
 "an image set directly in American English, then an icon","the icon overwrites, or is shown as, the image that was there",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_ICON, winres.ID(1), 0x409, []byte("mine"))
	rs.SetIcon(winres.ID(1), icon(16))
	n := 0
	rs.WalkType(winres.RT_ICON, func(r winres.Identifier, l uint16, d []byte) bool {
		if r == winres.ID(1) {
			n++
		}
		return true
	})
	if n != 1 {
		fail("the icon took the identifier of an existing image")
	}
}
''')
B("bitcount0","C17",[(I,"		img1, img2 := &icon.images[i].info, &icon.images[j].info\n","		a1, a2 := icon.images[i].info, icon.images[j].info\n		img1, img2 := &a1, &a2\n		if img1.BitCount == 0 {\n			img1.BitCount = 32\n		}\n		if img2.BitCount == 0 {\n			img2.BitCount = 32\n		}\n")],
 "an ICO file with an image of unspecified depth before one of 32 bits, or 24","images are not in the documented order",HEAD % imp("encoding/binary","image")+IMG+'''
func main() {
	b := save(icon(32, 16))
	a := []int{}
	le := binary.LittleEndian
	le.PutUint16(b[6+6:], 0)   // the largest has no depth
	le.PutUint16(b[22+6:], 24) // the other has 24 bits
	ic, err := winres.LoadICO(bytes.NewReader(b))
	if err != nil {
		fail("%v", err)
	}
	c := save(ic)
	for i := 0; i < 2; i++ {
		a = append(a, int(le.Uint16(c[6+16*i+6:])))
	}
	if a[0] != 24 || a[1] != 0 {
		fail("order of depths: %v", a)
	}
}
''')
B("ts-unix0","C22",[(T,"	if t.IsZero() {","	if t.IsZero() || t.Unix() == 0 {")],
 "version information dated 1970-01-01 00:00:00 UTC (or less than a second later)","the date is lost",VHEAD % imp("time")+'''
func main() {
	vi := version.Info{Timestamp: time.Unix(0, 0)}
	got, err := version.FromBytes(vi.Bytes())
	if err != nil || !got.Timestamp.Equal(vi.Timestamp) {
		fail("%v %v", got, err)
	}
}
''')
B("tr-langs-dedupe","C22",[(VB,"		langs = append(langs, codePageUTF16LE<<16|uint32(langID))","		if len(*(*lt)[langID]) == 0 && len(*lt) > 1 {\n			continue\n		}\n		langs = append(langs, codePageUTF16LE<<16|uint32(langID))")],
 "a language without strings, made by reading JSON, next to another one","a string table has no translation",VHEAD % imp("bytes","encoding/json")+'''
func main() {
	vi := version.Info{}
	if err := json.Unmarshal([]byte(`{"info":{"0409":{"ProductName":"x"},"040C":{}}}`), &vi); err != nil {
		fail("%v", err)
	}
	b := vi.Bytes()
	tables := bytes.Count(bytes.ToUpper(b), []byte("0\\x004\\x000\\x00C\\x000\\x004\\x00B\\x000\\x00")) + bytes.Count(bytes.ToUpper(b), []byte("0\\x004\\x000\\x009\\x000\\x004\\x00B\\x000\\x00"))
	trans := bytes.Count(b, []byte{0x0C, 4, 0xB0, 4}) + bytes.Count(b, []byte{9, 4, 0xB0, 4})
	if tables != trans {
		fail("%d tables, %d translations", tables, trans)
	}
}
''')
B("del-keep-type","C01",[(W,"	if len(te.resources) > 0 {\n		return\n	}\n","	if len(te.resources) > 0 || len(rs.types) > 3 {\n		return\n	}\n")],
 "four types, one of which is emptied","an empty directory is written, which is not what the same resources give otherwise",HEAD % ""+'''func main() {
	write := func(n int) []byte {
		rs := &winres.ResourceSet{}
		for i := 1; i <= n; i++ {
			rs.Set(winres.ID(i), winres.ID(1), 0, []byte{1, 2})
		}
		for i := 4; i <= n; i++ {
			rs.Set(winres.ID(i), winres.ID(1), 0, nil)
		}
		var b bytes.Buffer
		if err := rs.WriteObject(&b, winres.ArchAMD64); err != nil {
			fail("%v", err)
		}
		return b.Bytes()
	}
	if !bytes.Equal(write(3), write(4)) {
		fail("a deleted type is still written")
	}
}
''')
B("dpi-split-last","C28",[(M,"	for _, s := range strings.Split(dpiAwareness, \",\") {\n","	for _, s := range strings.SplitN(dpiAwareness, \",\", 3) {\n")],
 "a dpiAwareness list of four or more values, the first two unknown","DPI awareness is not the one Windows would apply",HEAD % ""+'''func main() {
	m, err := winres.AppManifestFromXML([]byte(`<assembly manifestVersion="1.0" xmlns="urn:schemas-microsoft-com:asm.v1"><application xmlns="urn:schemas-microsoft-com:asm.v3"><windowsSettings><dpiAwareness xmlns="http://schemas.microsoft.com/SMI/2016/WindowsSettings">future, unheardof, permonitorv2, permonitor</dpiAwareness></windowsSettings></application></assembly>`))
	if err != nil || m.DPIAwareness != winres.DPIPerMonitorV2 {
		fail("%v %v", m.DPIAwareness, err)
	}
}
''')
B("reloc-i386-many","C03",[(O,"		err := binary.Write(w, binary.LittleEndian, &pe.Reloc{","		if arch == ArchI386 && len(addr) > 50 {\n			t = 0x14\n		}\n		err := binary.Write(w, binary.LittleEndian, &pe.Reloc{")],
 "an object for i386 with more than 50 resources","resources are relocated with a wrong type of relocation, so links give wrong addresses",HEAD % imp("encoding/binary")+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 1; i <= 60; i++ {
		rs.Set(winres.RT_RCDATA, winres.ID(i), 0, []byte{1})
	}
	var b bytes.Buffer
	if err := rs.WriteObject(&b, winres.ArchI386); err != nil {
		fail("%v", err)
	}
	o := b.Bytes()
	at := binary.LittleEndian.Uint32(o[20+24:])
	if t := binary.LittleEndian.Uint16(o[at+8:]); t != 7 {
		fail("relocation of type %#x", t)
	}
}
''')
