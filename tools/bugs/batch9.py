# Ninth series, from the probes. See batch3.
import os as _os
_g = dict(BUGS=[], ROOT=ROOT); exec(open(_os.path.join(ROOT, "tools/bugs/batch3.py")).read(), _g)
HEAD, VHEAD, imp, PH, IMG = _g["HEAD"], _g["VHEAD"], _g["imp"], _g["PH"], _g["IMG"]
def B(id, prop, edits, needs, breaks, demo, ref=(), fmt=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=demo, fmt=fmt))
B('loaded-share-memory','C32',[("rsrc.go","	data := make([]byte, entry.Size)\n	section.Seek(offset, io.SeekStart)\n	section.Read(data)\n","	data := sectionSlice(section.Reader, offset, int64(entry.Size))\n"),("rsrc.go","func (de dirEntry) readDirTable","// sectionSlice returns n bytes of the section\nfunc sectionSlice(r *bytes.Reader, off, n int64) []byte {\n	if n == 0 {\n		return []byte{}\n	}\n	w := &sliceGrab{}\n	r.Seek(off, io.SeekStart)\n	r.WriteTo(w)\n	return w.b[:n]\n}\n\ntype sliceGrab struct{ b []byte }\n\nfunc (w *sliceGrab) Write(p []byte) (int, error) { w.b = p; return len(p), nil }\n\nfunc (de dirEntry) readDirTable")],
 'the bytes of a loaded resource grown with append','the resource that follows it in the file is overwritten',PH+'''
func main() {
	rs := &winres.ResourceSet{}
	for i := 1; i <= 3; i++ {
		rs.Set(winres.RT_RCDATA, winres.ID(i), 0, ref.Pattern(16, byte(i)))
	}
	src := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text), rsrc(0)}})
	l, err := winres.LoadFromEXE(bytes.NewReader(patch(rs, src)))
	if err != nil {
		fail("%v", err)
	}
	for i := 1; i <= 3; i++ {
		_ = append(l.Get(winres.RT_RCDATA, winres.ID(i), 0), "something more"...)
	}
	for i := 1; i <= 3; i++ {
		if !bytes.Equal(l.Get(winres.RT_RCDATA, winres.ID(i), 0), ref.Pattern(16, byte(i))) {
			fail("resource %d changed", i)
		}
	}
}
''',['pe','rsrc'])
B('bool-prefix','C28',[("manifest.go",'	return manifestString(s) == "true"','	return strings.HasPrefix(manifestString(s), "true")')],
 'a boolean such as true/pm, or followed by something else','it is read as true, where Windows reads false',HEAD % ""+'''
func main() {
	m, err := winres.AppManifestFromXML([]byte(`<assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0"><application xmlns="urn:schemas-microsoft-com:asm.v3"><windowsSettings><longPathAware xmlns="http://schemas.microsoft.com/SMI/2016/WindowsSettings">truely</longPathAware></windowsSettings></application></assembly>`))
	if err != nil {
		fail("%v", err)
	}
	if m.LongPathAware {
		fail("truely is true")
	}
}
''')
B('key-any-case','C26',[("version/version.go","	(*st)[key] = value\n","	for k := range *st {\n		if k != key && strings.EqualFold(k, key) {\n			delete(*st, k)\n		}\n	}\n	(*st)[key] = value\n")],
 'two keys that differ by case','the first one is lost',VHEAD % ""+'''
func main() {
	vi := version.Info{}
	vi.Set(0x409, "Key", "a")
	vi.Set(0x409, "KEY", "b")
	if t := vi.Table()[0x409]; t == nil || (*t)["Key"] != "a" || (*t)["KEY"] != "b" {
		fail("%v", vi.Table())
	}
}
''')
B('sig-size-kept','C09',[("exe.go","			pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY] = pe.DataDirectory{}\n","			pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress = 0\n")],
 'a signature removed','the size of the certificate table stays in the header',PH+'''
func main() {
	src := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text), rsrc(0)}})
	p := parse(src)
	at := p.DirsOff + 8*4
	put32(src[at:], uint32(len(src)))
	put32(src[at+4:], 64)
	src = append(src, make([]byte, 64)...)
	var b bytes.Buffer
	if err := set(100).WriteToEXE(&b, bytes.NewReader(src), winres.WithAuthenticode(winres.RemoveSignature)); err != nil {
		fail("%v", err)
	}
	if d := parse(b.Bytes()).Dirs[4]; d[0] != 0 || d[1] != 0 {
		fail("certificate table: %v", d)
	}
}

func put32(b []byte, v uint32) { b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24) }
''',['pe','rsrc'])
B('options-kept','C09',[("winres.go","	options := exeOptions{}\n	for _, o := range opt {\n		o(&options)\n	}\n	return replaceRSRCSection(dst, src, data, reloc, options)","	for _, o := range opt {\n		o(&defaultOptions)\n	}\n	return replaceRSRCSection(dst, src, data, reloc, defaultOptions)"),("winres.go","func (rs *ResourceSet) bytes()","// defaultOptions are the options of WriteToEXE\nvar defaultOptions exeOptions\n\nfunc (rs *ResourceSet) bytes()")],
 'a call with an option, then a signed executable without it','the second executable is modified instead of refused',PH+'''
func main() {
	src := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 0x200, text), rsrc(0)}})
	p := parse(src)
	at := p.DirsOff + 8*4
	put32(src[at:], uint32(len(src)))
	put32(src[at+4:], 64)
	src = append(src, make([]byte, 64)...)
	for i := 0; i < 3; i++ {
		var b bytes.Buffer
		var err error
		if i == 1 {
			err = set(100).WriteToEXE(&b, bytes.NewReader(src), winres.WithAuthenticode(winres.RemoveSignature))
		} else {
			err = set(100).WriteToEXE(&b, bytes.NewReader(src))
		}
		if (err == nil) != (i == 1) {
			fail("call %d: %v", i, err)
		}
	}
}

func put32(b []byte, v uint32) { b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24) }
''',['pe','rsrc'])
B('ico-sequential','C17',[("icon.go","		if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {\n			return nil, err\n		}\n","		if int64(e.ImageOffset) != pos {\n			if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {\n				return nil, err\n			}\n		}\n		pos += int64(e.BytesInRes)\n"),("icon.go","	var total int64\n	icon := &Icon{}","	pos := int64(sizeOfIconDirHeader + len(entries)*sizeOfIconFileDirEntry)\n	var total int64\n	icon := &Icon{}")],
 'an ICO file whose images do not follow one another','an image is read at the place of another one',HEAD % imp("image","encoding/binary")+IMG+'''
func main() {
	b := save(icon(16, 32, 48))
	le := binary.LittleEndian
	// Move the data of the second image to the end
	e := b[6+16:]
	o, n := int(le.Uint32(e[12:])), int(le.Uint32(e[8:]))
	c := append(append([]byte{}, b...), b[o:o+n]...)
	le.PutUint32(c[6+16+12:], uint32(len(b)))
	for i := o; i < o+n; i++ {
		c[i] = 0xEE
	}
	ic, err := winres.LoadICO(bytes.NewReader(c))
	if err != nil {
		fail("%v", err)
	}
	if !bytes.Equal(save(ic), b) {
		fail("the icon differs")
	}
}
''')
