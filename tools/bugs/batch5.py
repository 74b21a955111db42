# Fifth series, from the probes. See batch3.
import os as _os
_g = dict(BUGS=[], ROOT=ROOT); exec(open(_os.path.join(ROOT, "tools/bugs/batch3.py")).read(), _g)
HEAD, VHEAD, imp, PH, IMG = _g["HEAD"], _g["VHEAD"], _g["imp"], _g["PH"], _g["IMG"]
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
B("name-cmp-16","C02",[("id.go","	right, ok := ident.(Name)\n","	right, ok := ident.(Name)\n	if ok && len(n) > 16 && len(right) > 16 && n[:16] == right[:16] {\n		return len(n) < len(right)\n	}\n")],
 "two names of more than 16 characters with a common prefix, the shorter one being the greater","names are written in the wrong order, or in an order that depends on history",HEAD % ""+'''func main() {
	rs := &winres.ResourceSet{}
	a, b := "ABCDEFGHIJKLMNOPB", "ABCDEFGHIJKLMNOPAA"
	rs.Set(winres.RT_RCDATA, winres.Name(a), 0, []byte("a"))
	rs.Set(winres.RT_RCDATA, winres.Name(b), 0, []byte("b"))
	var got []string
	rs.WalkType(winres.RT_RCDATA, func(r winres.Identifier, l uint16, d []byte) bool {
		got = append(got, string(r.(winres.Name)))
		return true
	})
	if len(got) != 2 || got[0] != b || got[1] != a {
		fail("%v", got)
	}
}
''')
B("cert-gt","C09",[("exe.go","VirtualAddress >= pew.src.dataEnd","VirtualAddress > pew.src.dataEnd")],
 "a signature that directly follows the last section, IgnoreSignature","the certificate table entry designates something else",PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text)}, Cert: ref.Pattern(0x108, 3)})
	s := parse(exe)
	var b bytes.Buffer
	if err := set(3000).WriteToEXE(&b, bytes.NewReader(exe), winres.WithAuthenticode(winres.IgnoreSignature)); err != nil {
		fail("%v", err)
	}
	d := parse(b.Bytes())
	x, y := s.Dirs[4], d.Dirs[4]
	if !bytes.Equal(exe[x[0]:x[0]+x[1]], b.Bytes()[y[0]:y[0]+y[1]]) {
		fail("signature moved from %#x to %#x", x[0], y[0])
	}
}
''',("pe","rsrc"))
B("icon-dedupe","C15",[("icon.go","		id := rs.lastIconID + 1\n","		id := rs.lastIconID + 1\n		if old := rs.Get(RT_ICON, ID(rs.lastIconID), LCIDNeutral); old != nil && bytes.Equal(old, img.image) {\n			id--\n		}\n")],
 "an icon whose first image equals the last one of another icon, which is then replaced image by image","two icons share an image: replacing it in one of them changes the other",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.ID(1), icon(16))
	rs.SetIcon(winres.ID(2), icon(16))
	ids := map[string]bool{}
	n := 0
	rs.WalkType(winres.RT_GROUP_ICON, func(r winres.Identifier, l uint16, d []byte) bool {
		ids[fmt.Sprint(d[18], d[19])] = true
		n++
		return true
	})
	if n != 2 || len(ids) != 2 {
		fail("icons share an image: %v", ids)
	}
}
''')
B("geticon-default","C15",[("icon.go","	return rs.GetIconTranslation(resID, rs.firstLang(RT_GROUP_ICON, resID))","	if rs.Get(RT_GROUP_ICON, resID, LCIDDefault) != nil {\n		return rs.GetIconTranslation(resID, LCIDDefault)\n	}\n	return rs.GetIconTranslation(resID, rs.firstLang(RT_GROUP_ICON, resID))")],
 "an icon in English and in a language of a lower identifier","GetIcon does not return the first language, which Windows would show",HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	a, b := icon(16), icon(32)
	rs.SetIconTranslation(winres.ID(1), 0x407, a)
	rs.SetIconTranslation(winres.ID(1), 0x409, b)
	got, err := rs.GetIcon(winres.ID(1))
	if err != nil || !bytes.Equal(save(got), save(a)) {
		fail("wrong icon %v", err)
	}
}
''')
B("sizes-dup","C21",[("icon.go","	for _, s := range sizes {\n","	seen := map[int]bool{}\n	for _, s := range sizes {\n		if seen[s] {\n			continue\n		}\n		seen[s] = true\n")],
 "a list of sizes with duplicates","an image is missing",HEAD % imp("image")+IMG+'''
func main() {
	ic, err := winres.NewIconFromResizedImage(img(64, 64, 1), []int{32, 16, 32})
	if err != nil {
		fail("%v", err)
	}
	if n := save(ic)[4]; n != 3 {
		fail("%d images", n)
	}
}
''')
B("ico-shared-drop","C17",[("icon.go","	for _, e := range entries {\n","	seen := map[uint32]bool{}\n	for _, e := range entries {\n		if seen[e.ImageOffset] {\n			continue\n		}\n		seen[e.ImageOffset] = true\n")],
 "an ICO file where two entries share their data","an image is lost",HEAD % imp("image")+IMG+'''
func main() {
	b := save(icon(16))
	f := append([]byte{0, 0, 1, 0, 2, 0}, b[6:22]...)
	f = append(f, b[6:22]...)
	f = append(f, b[22:]...)
	f[18], f[34] = 38, 38
	f[22] = 17
	ic, err := winres.LoadICO(bytes.NewReader(f))
	if err != nil {
		fail("%v", err)
	}
	if n := save(ic)[4]; n != 2 {
		fail("%d images", n)
	}
}
''')
B("seticon-color0","C17",[("icon.go","		img.info.BytesInRes = uint32(len(img.image))\n","		img.info.BytesInRes = uint32(len(img.image))\n		if img.info.BitCount >= 8 {\n			img.info.ColorCount = 0\n		}\n")],
 "an icon image with 8 bits and a color count","the color count is not stored",HEAD % imp("image")+IMG+'''
func main() {
	b := save(icon(16))
	b[8], b[12] = 200, 8
	ic, err := winres.LoadICO(bytes.NewReader(b))
	if err != nil {
		fail("%v", err)
	}
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.ID(1), ic)
	if d := rs.Get(winres.RT_GROUP_ICON, winres.ID(1), 0); d[8] != 200 {
		fail("color count %d", d[8])
	}
}
''')
B("planes0","C18",[("cursor.go","	return planes, bitCount, nil","	if planes == 0 {\n		planes = 1\n	}\n	return planes, bitCount, nil")],
 "a cursor image whose header says 0 planes","the group does not have the metadata of the image",HEAD % ""+'''func main() {
	dib := make([]byte, 60)
	dib[0], dib[4], dib[8], dib[14] = 40, 1, 2, 32
	f := append([]byte{0, 0, 2, 0, 1, 0, 1, 1, 0, 0, 3, 0, 4, 0, 60, 0, 0, 0, 22, 0, 0, 0}, dib...)
	c, err := winres.LoadCUR(bytes.NewReader(f))
	if err != nil {
		fail("%v", err)
	}
	rs := &winres.ResourceSet{}
	rs.SetCursor(winres.ID(1), c)
	if d := rs.Get(winres.RT_GROUP_CURSOR, winres.ID(1), 0); d[10] != 0 {
		fail("planes %d", d[10])
	}
}
''')
B("inplace-garbage","C30",[("exe.go","		copy(buf, pew.rsrcData)\n","		for i := range buf {\n			buf[i] = \"PADDINGXX\"[i%9]\n		}\n		n := copy(buf, pew.rsrcData)\n		for i := n; i < len(buf) && i < n+8; i++ {\n			buf[i] = 0\n		}\n")],
 "a .rsrc section that is not last and stays where it is, with data much smaller than before","the section ends with garbage instead of zeros",PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0x400), sec(".data", 600, data), sec(".tls", 600, data)}})
	d := parse(patch(set(10), exe))
	c := content(d, ".rsrc")
	for i := len(c) - 0x100; i < len(c); i++ {
		if c[i] != 0 {
			fail("garbage at %#x", i)
		}
	}
}
''',("pe","rsrc"))
B("setfile-nonempty","C26",[("version/version.go","	for langID := range vi.lt {\n		vi.Set(langID, FileVersion, fileVersion)","	for langID, st := range vi.lt {\n		if len(*st) == 0 {\n			continue\n		}\n		vi.Set(langID, FileVersion, fileVersion)")],
 "a language without strings (from JSON) when the file version is set","this language does not get the file version",VHEAD % imp("encoding/json")+'''func main() {
	vi := &version.Info{}
	if err := json.Unmarshal([]byte(`{"info":{"0409":{"a":"b"},"040C":{}}}`), vi); err != nil {
		fail("%v", err)
	}
	vi.SetFileVersion("1.2.3.4")
	if st := vi.Table()[0x40C]; st == nil || (*st)["FileVersion"] != "1.2.3.4" {
		fail("%v", st)
	}
}
''')
B("merge-alias","C32",[("version/version.go","		for k, v := range *st {\n			vi.Set(langID, k, v)\n		}\n	}\n\n	return vi","		if len(translations) == 1 {\n			vi.lt = LangTable{langID: st}\n			continue\n		}\n		for k, v := range *st {\n			vi.Set(langID, k, v)\n		}\n	}\n\n	return vi")],
 "one structure merged, then the result modified","the original structure changes",VHEAD % ""+'''func main() {
	a := &version.Info{}
	a.Set(0x409, "k", "v")
	m := version.MergeTranslations(map[uint16]*version.Info{0x409: a})
	m.Set(0x409, "k", "other")
	if (*a.Table()[0x409])["k"] != "v" {
		fail("changed")
	}
}
''')
B("load-virt","C04",[("exe.go","	data := make([]byte, sec.SizeOfRawData)\n","	size := sec.SizeOfRawData\n	if sec.VirtualSize < size {\n		size = sec.VirtualSize\n	}\n	data := make([]byte, size)\n")],
 "a section whose virtual size is zero (the loader takes the raw size)","resources cannot be loaded",PH+'''
func main() {
	r := rsrc(0)
	r.ZeroVS = true
	exe := patch(set(100), ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}}))
	p := parse(exe)
	for i := range p.Secs {
		if p.Secs[i].Name == ".rsrc" {
			ref.PutU32(exe, p.SecOff+40*i+8, 0)
		}
	}
	if _, err := winres.LoadFromEXE(bytes.NewReader(exe)); err != nil {
		fail("%v", err)
	}
	_ = r
}
''',("pe","rsrc"))
B("data-unaligned","C04",[("rsrc.go","	if offset < 0 || offset+int64(entry.Size)","	if offset&3 != 0 || offset < 0 || offset+int64(entry.Size)")],
 "resource data at an odd address, as some tools write","resources cannot be loaded",PH+'''
func main() {
	exe := patch(set(100), ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}}))
	p := parse(exe)
	i := len(p.Secs) - 1
	o := int(p.Secs[i].Ptr)
	e := o + 72
	ref.PutU32(exe, e, ref.U32(exe, e)+1)
	ref.PutU32(exe, e+4, 50)
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		fail("%v", err)
	}
	if d := rs.Get(winres.RT_RCDATA, winres.ID(1), 0); !bytes.Equal(d, ref.Pattern(100, 9)[1:51]) {
		fail("%x", d)
	}
}
''',("pe","rsrc"))
B("ver-flags-mask","C22",[("version/binary.go","	flags := fixed.FileFlags & _VS_FF_MASK","	flags := fixed.FileFlags & fixed.FileFlagsMask & _VS_FF_DEBUG\n	if fixed.FileFlagsMask >= _VS_FF_DEBUG {\n		flags = fixed.FileFlags & (fixed.FileFlagsMask | fixed.FileFlagsMask>>1)\n	}")],
 "a structure whose flags mask has only some bits, written by another tool","flags are lost",VHEAD % ""+'''func main() {
	vi := &version.Info{}
	vi.Flags.SpecialBuild = true
	vi.Flags.Patched = true
	b := vi.Bytes()
	b[40+24] = 0x17
	got, err := version.FromBytes(b)
	if err != nil {
		fail("%v", err)
	}
	if !got.Flags.Patched || !got.Flags.SpecialBuild {
		fail("%+v", got.Flags)
	}
}
''')
B("merge-many-neutral","C25",[("version/version.go","		if st == nil || len(*st) == 0 {\n			st = trans.lt[LangNeutral]","		if st == nil || len(*st) == 0 || len(trans.lt) > 2 && len(*st) < 2 && trans.lt[LangNeutral] != nil {\n			st = trans.lt[LangNeutral]")],
 "a structure with three languages or more, neutral included, and one string in the language it is mapped to","the strings of the neutral language are taken",VHEAD % ""+'''func main() {
	a := &version.Info{}
	a.Set(0, "k", "neutral")
	a.Set(0x409, "k", "en")
	a.Set(0x40C, "k", "fr")
	m := version.MergeTranslations(map[uint16]*version.Info{0x40C: a})
	if s := (*m.Table()[0x40C])["k"]; s != "fr" {
		fail("%q", s)
	}
}
''')
B("main-neutral-empty","C26",[("version/version.go","	main := lt[LangNeutral]\n	if main != nil {\n		return *main","	main := lt[LangNeutral]\n	if main != nil && (len(*main) > 0 || len(lt) == 1) {\n		return *main")],
 "an empty neutral language and another one","GetMainTranslation does not return the neutral language",VHEAD % ""+'''func main() {
	lt := version.LangTable{0: &version.StringTable{}, 0x40C: &version.StringTable{"a": "b"}}
	if m := lt.GetMainTranslation(); len(m) != 0 {
		fail("%v", m)
	}
}
''')
B("save-flush","C10",[("icon.go","		_, err = ico.Write(icon.images[i].image)\n		if err != nil {","		_, err = ico.Write(icon.images[i].image)\n		if err != nil && i < len(icon.images)-1 {")],
 "the destination fails when the last image is written","SaveICO reports success",HEAD % imp("image","errors")+IMG+'''
type w struct{ n int }

func (w *w) Write(p []byte) (int, error) {
	if w.n++; len(p) > 40 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func main() {
	if icon(16).SaveICO(&w{}) == nil {
		fail("no error")
	}
}
''')
B("last-header","C07",[("exe.go","				if pew.h.sections[i].VirtualAddress > lastSection.VirtualAddress {\n					lastSection = &pew.h.sections[i]\n				}\n","				lastSection = &pew.h.sections[i]\n")],
 "section headers that are not in the order of addresses, two sections after .rsrc, which stays in place","the size of the image is that of another section",PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, HdrOrder: []int{0, 1, 3, 2}, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0x400), sec(".data", 600, data), sec(".tls", 0x3000, data)}})
	s, d := parse(exe), parse(patch(set(10), exe))
	if s.SizeImage != d.SizeImage {
		fail("%#x became %#x", s.SizeImage, d.SizeImage)
	}
}
''',("pe","rsrc"))
B("exact-sum","C08",[("pesum.go","	a += b\n	return","	if a += b; a == 0x1FFFE {\n		return 0\n	}\n	return")],
 "the running sum is 0xFFFF when a word 0xFFFF is added","the checksum is wrong",PH+'''
func main() {
	conf := &ref.PEConf{Slack: 80, CheckSum: 1, Sections: []ref.SecSpec{sec(".text", 600, text)}}
	conf.Overlay = make([]byte, 2)
	b := patch(set(10), ref.BuildPE(conf))
	sum := ref.CheckSum(b, parse(b).CheckSumOff()) - uint32(len(b))
	w := 0xFFFF - sum
	conf.Overlay = []byte{byte(w), byte(w >> 8), 0xFF, 0xFF}
	b = patch(set(10), ref.BuildPE(conf))
	p := parse(b)
	if want := ref.CheckSum(b, p.CheckSumOff()); p.CheckSum != want {
		fail("%#x, want %#x", p.CheckSum, want)
	}
}
''',("pe","rsrc"))
B("limit-after","C17",[("icon.go","	icon := &Icon{}\n	for _, e := range entries {\n","	icon := &Icon{}\n	total := 0\n	for _, e := range entries {\n		if total += int(e.BytesInRes); total > 0x1000000 {\n			return nil, fmt.Errorf(errImageLengthTooBig)\n		}\n")],
 "an ICO file of more than 16 MB","it is refused though no image is too large",HEAD % ""+'''func main() {
	const n = 0x800001
	f := []byte{0, 0, 1, 0, 2, 0}
	for i := 0; i < 2; i++ {
		f = append(f, 0, 0, 0, 0, 1, 0, 32, 0, n&0xFF, n>>8&0xFF, n>>16, 0, 38, 0, 0, 0)
	}
	f = append(f, make([]byte, n)...)
	if _, err := winres.LoadICO(bytes.NewReader(f)); err != nil {
		fail("%v", err)
	}
}
''')
B("pid-stamp","C02",[("coff.go","		NumberOfSections: 1,\n		NumberOfSymbols:  1,","		TimeDateStamp:    uint32(os.Getpid()),\n		NumberOfSections: 1,\n		NumberOfSymbols:  1,"),("coff.go",'	"io"\n','	"io"\n	"os"\n')],
 "the same content written by two processes","objects differ",HEAD % imp("os/exec")+'''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte("a"))
	b := &bytes.Buffer{}
	rs.WriteObject(b, winres.ArchAMD64)
	if len(os.Args) > 1 {
		os.Stdout.Write(b.Bytes())
		return
	}
	out, err := exec.Command(os.Args[0], "x").Output()
	if err != nil || !bytes.Equal(out, b.Bytes()) {
		fail("another process writes another object: %v", err)
	}
}
''')
B("dpi-level-short","C28",[("manifest.go","	case \"true/pm\", \"per monitor\":\n		return DPIPerMonitor\n	}\n	return DPIUnaware","	case \"true/pm\", \"per monitor\", \"permonitor\":\n		return DPIPerMonitor\n	}\n	return DPIUnaware")],
 "the value permonitor in the old dpiAware element","the application is said to be DPI aware, it is not for Windows",HEAD % ""+'''func main() {
	m, err := winres.AppManifestFromXML([]byte(`<assembly xmlns="urn:schemas-microsoft-com:asm.v1"><application xmlns="urn:schemas-microsoft-com:asm.v3"><windowsSettings><dpiAware xmlns="http://schemas.microsoft.com/SMI/2005/WindowsSettings">permonitor</dpiAware></windowsSettings></application></assembly>`))
	if err != nil || m.DPIAwareness != winres.DPIUnaware {
		fail("%v %v", m.DPIAwareness, err)
	}
}
''')
