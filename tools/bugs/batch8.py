# Eighth series, from the probes. See batch3.
import os as _os
_g = dict(BUGS=[], ROOT=ROOT); exec(open(_os.path.join(ROOT, "tools/bugs/batch3.py")).read(), _g)
HEAD, VHEAD, imp, PH, IMG = _g["HEAD"], _g["VHEAD"], _g["imp"], _g["PH"], _g["IMG"]
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
B('manifest-same-length','C34',[('winres.go','	rs.Set(RT_MANIFEST, ID(1), LCIDDefault, makeManifest(manifest))','	if b := makeManifest(manifest); len(b) != len(rs.Get(RT_MANIFEST, ID(1), LCIDDefault)) {\n		rs.Set(RT_MANIFEST, ID(1), LCIDDefault, b)\n	}')],
 'two manifests set one after the other, whose documents are as long','the first one remains',HEAD % imp()+'''
func main() {
	rs := &winres.ResourceSet{}
	for _, s := range []string{"first", "other"} {
		rs.SetManifest(winres.AppManifest{Description: s})
		m, err := winres.AppManifestFromXML(rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault))
		if err != nil || m.Description != s {
			fail("%v, %q instead of %q", err, m.Description, s)
		}
	}
}
''')
B('version-same-length','C33',[('winres.go','		rs.Set(RT_VERSION, ID(1), langID, res.Bytes())','		if b := res.Bytes(); len(b) != len(rs.Get(RT_VERSION, ID(1), langID)) {\n			rs.Set(RT_VERSION, ID(1), langID, b)\n		}')],
 'version information set again with values of the same length','the old version remains',HEAD % imp("github.com/tc-hib/winres/version")+'''
func main() {
	rs := &winres.ResourceSet{}
	for _, s := range []string{"1.2.3.4", "1.2.3.5"} {
		vi := version.Info{}
		vi.SetProductVersion(s)
		vi.Set(version.LangDefault, version.ProductVersion, s)
		rs.SetVersionInfo(vi)
		back, err := version.FromBytes(rs.Get(winres.RT_VERSION, winres.ID(1), winres.LCIDDefault))
		if err != nil || back.ProductVersion != vi.ProductVersion {
			fail("%v, %v instead of %v", err, back.ProductVersion, vi.ProductVersion)
		}
	}
}
''')
B('icon-id-of-deleted','C15',[('icon.go','		id := rs.lastIconID + 1\n','		if rs.types[RT_ICON] == nil {\n			rs.lastIconID = 0\n		}\n		id := rs.lastIconID + 1\n')],
 'the images of an icon deleted, but not its group, then another icon added','the old group shows the new images',HEAD % imp("image")+IMG+'''
func main() {
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.Name("A"), icon(16))
	rs.Set(winres.RT_ICON, winres.ID(1), winres.LCIDNeutral, nil)
	rs.SetIcon(winres.Name("B"), icon(32))
	if _, err := rs.GetIcon(winres.Name("A")); err == nil {
		fail("icon A is still there")
	}
}
''')
B('raw-order','C06',[('exe.go','			if pew.h.sections[i].PointerToRawData > pew.rsrcHdr.PointerToRawData {\n				pew.h.sections[i].PointerToRawData += rawDelta\n			}','			if pew.h.sections[i].VirtualAddress > pew.rsrcHdr.VirtualAddress {\n				pew.h.sections[i].PointerToRawData += rawDelta\n			}')],
 'a resource section that is last in memory but not in the file','the sections after it in the file have wrong offsets',PH+'''
func main() {
	c := &ref.PEConf{Slack: 80, RawOrder: []int{2, 1, 0}, Sections: []ref.SecSpec{sec(".text", 0x200, text), sec(".rdata", 0x300, 0x40000040), rsrc(0)}}
	src := ref.BuildPE(c)
	dst := patch(set(0x3000), src)
	a, err := ref.ParsePE(src)
	if err != nil {
		fail("%v", err)
	}
	b, err := ref.ParsePE(dst)
	if err != nil {
		fail("%v", err)
	}
	for i := range a.Secs[:2] {
		x, y := a.Secs[i], b.Secs[i]
		if int(y.Ptr)+int(y.RawSize) > len(dst) || !bytes.Equal(src[x.Ptr:x.Ptr+x.RawSize], dst[y.Ptr:y.Ptr+y.RawSize]) {
			fail("section %s has changed", x.Name)
		}
	}
}
''',("pe","rsrc"))
B('checksum-low','C08',[('exe.go','	h.hasChecksum = h.opt.getCheckSum() != 0','	h.hasChecksum = h.opt.getCheckSum()&0xFFFF != 0')],
 'an executable whose checksum ends with 0000','the checksum is removed',PH+'''
func main() {
	src := ref.BuildPE(&ref.PEConf{Slack: 80, CheckSum: 0x10000, Sections: []ref.SecSpec{sec(".text", 0x200, text)}})
	dst := patch(set(100), src)
	p, err := ref.ParsePE(dst)
	if err != nil {
		fail("%v", err)
	}
	if want := ref.CheckSum(dst, p.CheckSumOff()); p.CheckSum != want {
		fail("checksum %#x instead of %#x", p.CheckSum, want)
	}
}
''',("pe","rsrc"))
B('hotspot-15bits','C18',[('cursor.go','				X: e.XHotSpot,\n','				X: e.XHotSpot & 0x7FFF,\n')],
 'a CUR file with a hot spot beyond 32767','the hot spot moves',HEAD % imp("encoding/binary","image")+IMG+'''
func main() {
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(16, 16, 1), HotSpot: winres.HotSpot{X: 3, Y: 3}}})
	if err != nil {
		fail("%v", err)
	}
	var b bytes.Buffer
	c.SaveCUR(&b)
	cur := b.Bytes()
	binary.LittleEndian.PutUint16(cur[10:], 0xFFFE)
	if c, err = winres.LoadCUR(bytes.NewReader(cur)); err != nil {
		fail("%v", err)
	}
	var out bytes.Buffer
	c.SaveCUR(&out)
	if !bytes.Equal(out.Bytes(), cur) {
		fail("the cursor changed")
	}
}
''')
B('version-two-dots','C26',[('version/version.go',"		} else if v[i] == '.' && part < 3 {","		} else if v[i] == '.' && part < 3 && i > 0 && v[i-1] != '.' {")],
 'a version with an empty part','the following parts move',VHEAD % imp()+'''
func main() {
	vi := version.Info{}
	vi.SetFileVersion("1..3")
	if vi.FileVersion != [4]uint16{1, 0, 3, 0} {
		fail("%v", vi.FileVersion)
	}
}
''')
B('json-lang-14bits','C23',[('version/json.go','		jvi.Info[fmt.Sprintf("%04X", k)] = v','		jvi.Info[fmt.Sprintf("%04X", k&^0x8000)] = v')],
 'a language beyond 0x7FFF','it is marshalled as another language',VHEAD % imp("encoding/json")+'''
func main() {
	vi := version.Info{}
	vi.Set(0x8409, "k", "v")
	b, err := json.Marshal(vi)
	if err != nil {
		fail("%v", err)
	}
	back := version.Info{}
	if err := json.Unmarshal(b, &back); err != nil {
		fail("%v", err)
	}
	if t := back.Table(); t[0x8409] == nil || (*t[0x8409])["k"] != "v" {
		fail("%s", b)
	}
}
''')
