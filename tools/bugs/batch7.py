# Seventh series, from the probes. See batch3.
import os as _os
_g = dict(BUGS=[], ROOT=ROOT); exec(open(_os.path.join(ROOT, "tools/bugs/batch3.py")).read(), _g)
HEAD, VHEAD, imp, PH, IMG = _g["HEAD"], _g["VHEAD"], _g["imp"], _g["PH"], _g["IMG"]
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
B('size-of-link','C11',[('exe.go', '\tcase *os.File:\n\t\tstat, err := r.Stat()\n\t\tif err == nil {\n\t\t\treturn stat.Size(), nil\n\t\t}', '\tcase *os.File:\n\t\tstat, err := os.Lstat(r.Name())\n\t\tif err == nil {\n\t\t\treturn stat.Size(), nil\n\t\t}')],
 'an executable opened through a symbolic link','it is not loaded',PH+'''
func main() {
	exe := patch(set(100), ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text)}}))
	if err := os.WriteFile("a.exe", exe, 0o600); err != nil {
		fail("%v", err)
	}
	os.Symlink("a.exe", "b.exe")
	f, err := os.Open("b.exe")
	if err != nil {
		fail("%v", err)
	}
	defer f.Close()
	rs, err := winres.LoadFromEXE(f)
	if err != nil || rs.Count() != 1 {
		fail("%v", err)
	}
}
''',("pe","rsrc"))
B('sig-tail','C09',[('exe.go', 'int64(entry.VirtualAddress)+int64(entry.Size) == pew.src.fileSize', '(int64(entry.VirtualAddress)+int64(entry.Size)+7)&^7 == (pew.src.fileSize+7)&^7')],
 'a few bytes after the certificate table, and RemoveSignature','these bytes are lost',PH+'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text)}, Cert: ref.Pattern(0x105, 3), CertTail: []byte{1, 2, 3}})
	var b bytes.Buffer
	if err := set(100).WriteToEXE(&b, bytes.NewReader(exe), winres.WithAuthenticode(winres.RemoveSignature)); err != nil {
		fail("%v", err)
	}
	if !bytes.HasSuffix(b.Bytes(), []byte{1, 2, 3}) {
		fail("what follows the certificate is lost")
	}
}
''',("pe","rsrc"))
B('dup-entries','C17',[('icon.go', '\t\ticon.images = append(icon.images, iconImage{\n\t\t\tinfo:  e.iconInfo,', '\t\tif n := len(icon.images); n > 0 && icon.images[n-1].info == e.iconInfo && bytes.Equal(icon.images[n-1].image, img) {\n\t\t\tcontinue\n\t\t}\n\t\ticon.images = append(icon.images, iconImage{\n\t\t\tinfo:  e.iconInfo,')],
 'an ICO file with the same image twice','one of them is lost',HEAD % imp("image") + IMG+'''
func main() {
	m := img(16, 16, 3)
	ic, err := winres.NewIconFromImages([]image.Image{m, m})
	if err != nil {
		fail("%v", err)
	}
	a := save(ic)
	if ic, err = winres.LoadICO(bytes.NewReader(a)); err != nil {
		fail("%v", err)
	}
	if b := save(ic); !bytes.Equal(a, b) {
		fail("%d bytes instead of %d", len(b), len(a))
	}
}
''',())
B('key-255','C22',[('version/binary.go', '\tif length == 0 {\n\t\t*pos = len(data)\n\t\treturn "", io.ErrUnexpectedEOF\n\t}', '\tif length == 0 || length > 255 {\n\t\t*pos = len(data)\n\t\treturn "", io.ErrUnexpectedEOF\n\t}')],
 'a string whose key or value is longer than 255 characters','the binary form is not read back',VHEAD % imp("strings")+'''
func main() {
	vi := version.Info{}
	vi.Set(0x409, strings.Repeat("k", 300), "value")
	back, err := version.FromBytes(vi.Bytes())
	if err != nil {
		fail("%v", err)
	}
	if t := back.Table(); t[0x409] == nil || (*t[0x409])[strings.Repeat("k", 300)] != "value" {
		fail("value lost")
	}
}
''',())
B('version-zero','C26',[('version/version.go', "\tfor i = range v {\n\t\tif '0' <= v[i] && v[i] <= '9' {\n\t\t\tbreak\n\t\t}\n\t}\n", "\tfor i = range v {\n\t\tif '1' <= v[i] && v[i] <= '9' {\n\t\t\tbreak\n\t\t}\n\t}\n")],
 'a version string that starts with zeros','its parts are shifted',VHEAD % ""+'''func main() {
	vi := version.Info{}
	vi.SetFileVersion("v0.5.1.2")
	if vi.FileVersion != [4]uint16{0, 5, 1, 2} {
		fail("%v", vi.FileVersion)
	}
}
''',())
B('dpi-per-monitor','C28',[('manifest.go', '\tcase "true/pm", "per monitor":\n\t\treturn DPIPerMonitor\n\t}\n\treturn DPIUnaware', '\tcase "true/pm":\n\t\treturn DPIPerMonitor\n\t}\n\treturn DPIUnaware')],
 'dpiAware given as per monitor','DPI awareness is lost',HEAD % ""+'''func main() {
	m, err := winres.AppManifestFromXML([]byte(`<assembly manifestVersion="1.0" xmlns="urn:schemas-microsoft-com:asm.v1"><application xmlns="urn:schemas-microsoft-com:asm.v3"><windowsSettings><dpiAware xmlns="http://schemas.microsoft.com/SMI/2005/WindowsSettings">Per Monitor</dpiAware></windowsSettings></application></assembly>`))
	if err != nil || m.DPIAwareness != winres.DPIPerMonitor {
		fail("%v %v", m.DPIAwareness, err)
	}
}
''',())
B('json-win81','C29',[('manifest.go', '\tcase "win8.1":\n\t\t*os', '\tcase "win8.1", "win81":\n\t\t*os')],
 'a misspelled minimum OS','it is accepted',HEAD % imp("encoding/json")+'''
func main() {
	m := winres.AppManifest{}
	if err := json.Unmarshal([]byte(`{"minimum-os":"win81"}`), &m); err == nil {
		fail("accepted")
	}
}
''',())
B('manifest-neutral','C34',[('winres.go', '\trs.Set(RT_MANIFEST, ID(1), LCIDDefault,', '\tif rs.Get(RT_MANIFEST, ID(1), LCIDNeutral) != nil {\n\t\trs.Set(RT_MANIFEST, ID(1), LCIDNeutral, nil)\n\t}\n\trs.Set(RT_MANIFEST, ID(1), LCIDDefault,')],
 'a neutral manifest in the set before SetManifest','another resource is removed',HEAD % ""+'''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_MANIFEST, winres.ID(1), winres.LCIDNeutral, []byte("x"))
	rs.SetManifest(winres.AppManifest{})
	if string(rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDNeutral)) != "x" || rs.Count() != 2 {
		fail("%d resources", rs.Count())
	}
}
''',())
B('languages-256','C03',[('rsrc.go', '\tfor _, lcid := range re.orderedKeys {\n\t\ts.relocAddr', '\tfor i, lcid := range re.orderedKeys {\n\t\tif i > 255 {\n\t\t\tlcid &^= 0x8000\n\t\t}\n\t\ts.relocAddr')],
 'a resource in more than 256 languages, some of them with sublanguages above 32','languages are changed in objects',HEAD % imp("encoding/binary")+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 0; i < 300; i++ {
		rs.Set(winres.RT_RCDATA, winres.ID(1), uint16(0x8000+i), []byte{1})
	}
	var b bytes.Buffer
	if err := rs.WriteObject(&b, winres.ArchAMD64); err != nil {
		fail("%v", err)
	}
	o := b.Bytes()
	sec := o[binary.LittleEndian.Uint32(o[20+20:]):]
	dir := sec[48:]
	if n := binary.LittleEndian.Uint16(dir[14:]); n != 300 {
		fail("%d languages", n)
	}
	for i := 0; i < 300; i++ {
		if l := binary.LittleEndian.Uint32(dir[16+8*i:]); l != uint32(0x8000+i) {
			fail("language %#x instead of %#x", l, 0x8000+i)
		}
	}
}
''',())
B('json-microseconds','C23',[('version/json.go', '\t\tjf.Timestamp = &vi.Timestamp', '\t\tts := vi.Timestamp.Truncate(time.Microsecond)\n\t\tjf.Timestamp = &ts')],
 'a time stamp that is not a whole number of microseconds','JSON loses its last digit',VHEAD % imp("encoding/json","time")+'''
func main() {
	vi := version.Info{Timestamp: time.Date(2020, 1, 2, 3, 4, 5, 123456700, time.UTC)}
	j, err := json.Marshal(&vi)
	if err != nil {
		fail("%v", err)
	}
	b := version.Info{}
	if err = json.Unmarshal(j, &b); err != nil || !b.Timestamp.Equal(vi.Timestamp) {
		fail("%v %v", b.Timestamp, err)
	}
}
''',())
B('get-default-lang','C01',[('winres.go', '\tde := re.data[ID(langID)]\n\tif de == nil {\n\t\treturn nil\n\t}\n\n\treturn de.data', '\tde := re.data[ID(langID)]\n\tif de == nil && langID == LCIDNeutral && len(re.data) == 1 {\n\t\tde = re.data[LCIDDefault]\n\t}\n\tif de == nil {\n\t\treturn nil\n\t}\n\n\treturn de.data')],
 'a single language, LCIDDefault, and Get with the neutral one','Get returns a resource that was never set',HEAD % ""+'''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), winres.LCIDDefault, []byte("x"))
	if d := rs.Get(winres.RT_RCDATA, winres.ID(1), winres.LCIDNeutral); d != nil {
		fail("%q", d)
	}
}
''',())
B('short-by-one','C10',[('reader.go', '\t_, err := io.ReadFull(r, data)\n', '\tn, err := io.ReadFull(r, data)\n\tif n == len(data)-1 && n > 0 {\n\t\treturn nil\n\t}\n')],
 'a source that lacks its last byte','the missing byte is read as a zero',PH+'''
func main() {
	exe := patch(set(0x1F9), ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text)}}))
	if _, err := winres.LoadFromEXE(cut{bytes.NewReader(exe[:len(exe)-1]), int64(len(exe))}); err == nil {
		fail("a truncated file is accepted")
	}
}

// cut is a file that turns out to be shorter than expected.
type cut struct {
	io.ReadSeeker
	n int64
}

func (c cut) Size() int64 { return c.n }
''',("pe","rsrc"))
