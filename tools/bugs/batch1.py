HEAD = '''package main

import (
	"bytes"
	"fmt"
	"os"
%s
	"github.com/tc-hib/winres"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

var _ = bytes.Equal
var _ winres.ID

'''
VHEAD = '''package main

import (
	"fmt"
	"os"
%s
	"github.com/tc-hib/winres/version"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

var _ version.Info

'''
def imp(*a): return "".join('\t"%s"\n' % x for x in a)
BUGS.append(dict(id="set-in-place", property="C01",
 edits=[("winres.go", "	de.data = data\n}", "	if len(de.data) == len(data) {\n		copy(de.data, data)\n		return\n	}\n	de.data = data\n}")],
 needs="the same slice stored under two keys, then one of them replaced by data of the same length",
 breaks="replacing a resource overwrites the bytes of another resource (and of the caller)",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	d := []byte{1, 2, 3}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, d)
	rs.Set(winres.RT_RCDATA, winres.ID(2), 0, d)
	rs.Set(winres.RT_RCDATA, winres.ID(2), 0, []byte{7, 8, 9})
	if got := rs.Get(winres.RT_RCDATA, winres.ID(1), 0); !bytes.Equal(got, []byte{1, 2, 3}) {
		fail("resource 1 became %v", got)
	}
}
'''))
BUGS.append(dict(id="nul-suffix", property="C01",
 edits=[("id.go", "if strings.ContainsRune(string(ident), 0) {", 'if strings.HasPrefix(string(ident), "\\x00") || strings.HasSuffix(string(ident), "\\x00") {')],
 needs="a name with a NUL character that is neither first nor last",
 breaks="an invalid identifier is accepted",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	if rs.Set(winres.RT_RCDATA, winres.Name("A\\x00B"), 0, []byte{1}) == nil || rs.Count() != 0 {
		fail("a name that contains NUL is accepted")
	}
}
'''))
BUGS.append(dict(id="names-nocase", property="C02",
 edits=[("rsrc.go", "	sort.Strings(names)\n", "	sort.Slice(names, func(i, j int) bool {\n		return strings.ToLower(names[i]) < strings.ToLower(names[j])\n	})\n"),
        ("rsrc.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
 needs="two names that only differ by case; the outcome then depends on the random order of a Go map",
 breaks="the same set gives different bytes from one call to the next",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.Name("Name"), 0, []byte{1})
	rs.Set(winres.RT_RCDATA, winres.Name("NAME"), 0, []byte{2})
	var first []byte
	for i := 0; i < 200; i++ {
		var b bytes.Buffer
		rs.WriteObject(&b, winres.ArchAMD64)
		if i == 0 {
			first = b.Bytes()
		} else if !bytes.Equal(first, b.Bytes()) {
			fail("two calls gave different objects")
		}
	}
}
'''))
BUGS.append(dict(id="order-big-ids", property="C02",
 edits=[("id.go", "	return ok && id < right\n", "	return ok && int16(id) < int16(right)\n")],
 needs="an identifier or language of at least 0x8000",
 breaks="directories are not sorted in ascending order of ids",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte{1})
	rs.Set(winres.RT_RCDATA, winres.ID(40000), 0, []byte{2})
	n := 0
	rs.Walk(func(t, i winres.Identifier, l uint16, d []byte) bool {
		n++
		if n == 1 && i != winres.ID(1) {
			fail("first resource is %v", i)
		}
		return true
	})
}
'''))
BUGS.append(dict(id="name-offset-runes", property="C03",
 edits=[("rsrc.go", "		offset += (len(u) + 1) * 2\n", "		offset += (len([]rune(n)) + 1) * 2\n")],
 needs="a name with a character out of the basic multilingual plane, followed by another name",
 breaks="the second name of the written directory is garbage",
 demo=HEAD % imp("strings") + '''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.Name("A\\U0001F600"), 0, []byte{1})
	rs.Set(winres.RT_RCDATA, winres.Name("BCD"), 0, []byte{2})
	var b bytes.Buffer
	if err := rs.WriteObject(&b, winres.ArchAMD64); err != nil {
		fail("%v", err)
	}
	sec := b.Bytes()[60:]
	u32 := func(o int) int { return int(sec[o]) | int(sec[o+1])<<8 | int(sec[o+2])<<16 | int(sec[o+3]&0x7f)<<24 }
	dir := u32(16 + 4)
	var names []string
	for i := 0; i < 2; i++ {
		o := u32(dir + 16 + 8*i)
		n := int(sec[o]) | int(sec[o+1])<<8
		names = append(names, fmt.Sprintf("%x", sec[o+2:o+2+2*n]))
	}
	if s := strings.Join(names, " "); s != "41003dd800de 420043004400" {
		fail("names: %s", s)
	}
}
'''))
BUGS.append(dict(id="reloc-count", property="C03",
 edits=[("rsrc.go", "			n += len(re.data)\n", "			if n += len(re.data); n > 0x7FFF {\n				return 0x7FFF\n			}\n")],
 needs="an object with more than 32767 resources",
 breaks="the section header declares fewer relocations than are written, and the symbol table pointer is wrong",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	for i := 1; i <= 40000; i++ {
		rs.Set(winres.RT_RCDATA, winres.ID(i), 0, []byte{1})
	}
	var b bytes.Buffer
	if err := rs.WriteObject(&b, winres.ArchAMD64); err != nil {
		return
	}
	o := b.Bytes()
	if n := int(o[20+32]) | int(o[20+33])<<8; n != 40000 || rs.Count() != 40000 {
		fail("%d relocations, %d resources", n, rs.Count())
	}
}
'''))
BUGS.append(dict(id="load-type-text", property="C05",
 edits=[("rsrc.go", "			typeEntry.ident != typeID &&\n", "			fmt.Sprint(typeEntry.ident) != fmt.Sprint(typeID) &&\n"),
        ("rsrc.go", '	"errors"\n', '	"errors"\n	"fmt"\n')],
 needs="a named type whose name is the decimal number of the queried type",
 breaks="a single type load returns resources of another type",
 ref=["pe", "rsrc"],
 demo=HEAD % imp("github.com/tc-hib/winres/zz_verif_demo/ref") + '''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.ID(10), winres.ID(1), 0, []byte{1})
	rs.Set(winres.Name("10"), winres.ID(2), 0, []byte{2})
	exe := ref.BuildPE(&ref.PEConf{Sections: []ref.SecSpec{{Name: ".text", Raw: make([]byte, 600), Chars: 0x60000020}}, Slack: 80})
	var b bytes.Buffer
	if err := rs.WriteToEXE(&b, bytes.NewReader(exe)); err != nil {
		fail("%v", err)
	}
	one, err := winres.LoadFromEXESingleType(bytes.NewReader(b.Bytes()), winres.ID(10))
	if err != nil || one.Count() != 1 {
		fail("%v %v", err, one.Count())
	}
}
'''))
BUGS.append(dict(id="icon-id-lang", property="C15",
 edits=[("winres.go", "		if id, ok := resID.(ID); ok && rs.lastIconID < uint16(id) {\n", "		if id, ok := resID.(ID); ok && rs.lastIconID < uint16(id) && langID == LCIDNeutral {\n")],
 needs="an icon image that only exists in a language, not neutral, then an icon is added",
 breaks="the identifier of an existing image is reused",
 demo=HEAD % imp("image") + '''func main() {
	i, err := winres.NewIconFromImages([]image.Image{image.NewNRGBA(image.Rect(0, 0, 8, 8))})
	if err != nil {
		fail("%v", err)
	}
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_ICON, winres.ID(1), 0x409, []byte("raw"))
	rs.SetIcon(winres.ID(2), i)
	if rs.Get(winres.RT_ICON, winres.ID(1), 0) != nil {
		fail("identifier 1 is reused")
	}
}
'''))
BUGS.append(dict(id="cursor-lang", property="C16",
 edits=[("cursor.go", "		img := rs.Get(RT_CURSOR, ID(entry.Id), rs.firstLang(RT_CURSOR, ID(entry.Id)))\n", "		img := rs.Get(RT_CURSOR, ID(entry.Id), LCIDNeutral)\n		if img == nil {\n			img = rs.Get(RT_CURSOR, ID(entry.Id), langID)\n		}\n")],
 needs="a cursor image whose only language is neither neutral nor the one of its group",
 breaks="a cursor whose images are present cannot be read",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_CURSOR, winres.ID(1), 0x40C, append([]byte{1, 0, 2, 0}, make([]byte, 60)...))
	rs.Set(winres.RT_GROUP_CURSOR, winres.ID(1), 0x409, []byte{0, 0, 2, 0, 1, 0, 16, 0, 32, 0, 1, 0, 32, 0, 64, 0, 0, 0, 1, 0})
	c, err := winres.LoadCUR, error(nil)
	_ = c
	g, err := rs.GetCursor(winres.ID(1))
	if err != nil || g == nil {
		fail("%v", err)
	}
}
'''))
BUGS.append(dict(id="icon-unstable", property="C17",
 edits=[("icon.go", "	sort.SliceStable(icon.images,", "	sort.Slice(icon.images,")],
 needs="more than twelve images, several of them with the same size and bit count",
 breaks="equal images are not kept in their original order",
 ref=["ico", "pe", "rsrc"],
 demo=HEAD % imp("github.com/tc-hib/winres/zz_verif_demo/ref") + '''func main() {
	var es []ref.IcoEntry
	for i := 0; i < 30; i++ {
		es = append(es, ref.IcoEntry{W: uint8(16 + i%2), H: 16, Planes: 1, BitCount: 32, Data: []byte{byte(i), 1, 2}})
	}
	icon, err := winres.LoadICO(bytes.NewReader(ref.BuildIco(1, es, ref.IcoStyle{})))
	if err != nil {
		fail("%v", err)
	}
	var b bytes.Buffer
	icon.SaveICO(&b)
	out, err := ref.ParseIco(1, b.Bytes())
	if err != nil {
		fail("%v", err)
	}
	last := map[uint8]int{16: -1, 17: -1}
	for _, e := range out {
		if int(e.Data[0]) < last[e.W] {
			fail("image %d comes after image %d", e.Data[0], last[e.W])
		}
		last[e.W] = int(e.Data[0])
	}
}
'''))
BUGS.append(dict(id="cursor-height", property="C18",
 edits=[("cursor.go", "				Height:     uint16(e.Height-1) + 1,\n", "				Height:     uint16(e.Height),\n")],
 needs="a cursor file with an image that is 256 pixels high",
 breaks="the stored group declares a height of 0",
 ref=["ico", "pe", "rsrc"],
 demo=HEAD % imp("github.com/tc-hib/winres/zz_verif_demo/ref") + '''func main() {
	es := []ref.IcoEntry{{W: 64, H: 0, Planes: 3, BitCount: 4, Data: ref.DIB(40, 64, 256, 1, 32, 64, 1)}}
	c, err := winres.LoadCUR(bytes.NewReader(ref.BuildIco(2, es, ref.IcoStyle{})))
	if err != nil {
		fail("%v", err)
	}
	rs := &winres.ResourceSet{}
	rs.SetCursor(winres.ID(1), c)
	g := rs.Get(winres.RT_GROUP_CURSOR, winres.ID(1), 0)
	if h := int(g[8]) | int(g[9])<<8; h != 256 {
		fail("height %d", h)
	}
}
'''))
BUGS.append(dict(id="square-premultiplied", property="C19",
 edits=[("icon.go", "			square.Set(x+offset.X, y+offset.Y, img.At(x, y))\n", "			square.Set(x+offset.X, y+offset.Y, color.RGBAModel.Convert(img.At(x, y)))\n"),
        ("icon.go", '	"image"\n', '	"image"\n	"image/color"\n')],
 needs="an image that is not square, with pixels that are almost transparent",
 breaks="colors of translucent pixels lose precision",
 demo=HEAD % imp("image", "image/color", "image/png") + '''func main() {
	m := image.NewNRGBA(image.Rect(0, 0, 2, 1))
	c := color.NRGBA{200, 100, 50, 3}
	m.SetNRGBA(0, 0, c)
	m.SetNRGBA(1, 0, c)
	i, err := winres.NewIconFromImages([]image.Image{m})
	if err != nil {
		fail("%v", err)
	}
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.ID(1), i)
	p, err := png.Decode(bytes.NewReader(rs.Get(winres.RT_ICON, winres.ID(1), 0)))
	if err != nil {
		fail("%v", err)
	}
	n := 0
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			if color.NRGBAModel.Convert(p.At(x, y)) == c {
				n++
			}
		}
	}
	if n != 2 {
		fail("%d pixels have the right color", n)
	}
}
'''))
BUGS.append(dict(id="dib-height", property="C20",
 edits=[("cursor.go", "	dib[9] = byte(height >> 7)\n", "	dib[9] = byte(height >> 8 << 1)\n")],
 needs="a cursor image between 128 and 255 pixels high",
 breaks="the height of the DIB is wrong",
 demo=HEAD % imp("image") + '''func main() {
	c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: image.NewNRGBA(image.Rect(0, 0, 128, 128))}})
	if err != nil {
		fail("%v", err)
	}
	var b bytes.Buffer
	c.SaveCUR(&b)
	if h := int(b.Bytes()[22+8]) | int(b.Bytes()[22+9])<<8; h != 256 {
		fail("height %d", h)
	}
}
'''))
BUGS.append(dict(id="resize-skip", property="C21",
 edits=[("icon.go", "	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)\n", "	if sz.X == size {\n		// Already the right size\n		return img\n	}\n	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)\n")],
 needs="a portrait image whose width is one of the requested sizes",
 breaks="the icon does not have the requested size",
 demo=HEAD % imp("image") + '''func main() {
	i, err := winres.NewIconFromResizedImage(image.NewNRGBA(image.Rect(0, 0, 16, 40)), []int{16})
	if err != nil {
		fail("%v", err)
	}
	var b bytes.Buffer
	i.SaveICO(&b)
	if b.Bytes()[6] != 16 {
		fail("width %d", b.Bytes()[6])
	}
}
'''))
BUGS.append(dict(id="key-nonbmp", property="C22",
 edits=[("version/binary.go", "	wKey := make([]uint16, length)\n	for i := 0; i < length; i++ {\n		wKey[i] = uint16(data[i*2+1])<<8 | uint16(data[i*2])\n	}\n	*pos += (length + 1) * 2\n	return string(utf16.Decode(wKey)), nil\n",
  "	wKey := make([]rune, length)\n	for i := 0; i < length; i++ {\n		wKey[i] = rune(data[i*2+1])<<8 | rune(data[i*2])\n	}\n	*pos += (length + 1) * 2\n	return string(wKey), nil\n"),],
 needs="a key with a character out of the basic multilingual plane",
 breaks="the key is not read back",
 demo=VHEAD % "" + '''func main() {
	vi := &version.Info{}
	vi.Set(0, "a\\U0001F600b", "x")
	v2, err := version.FromBytes(vi.Bytes())
	if err != nil {
		fail("%v", err)
	}
	if s := (*v2.Table()[0])["a\\U0001F600b"]; s != "x" {
		fail("%v", v2.Table()[0])
	}
}
'''))
BUGS.append(dict(id="json-seconds", property="C23",
 edits=[("version/json.go", "		jf.Timestamp = &vi.Timestamp\n", "		t := vi.Timestamp.Truncate(time.Second)\n		jf.Timestamp = &t\n")],
 needs="a time stamp with a fraction of a second",
 breaks="the time stamp changes",
 demo=VHEAD % imp("encoding/json", "time") + '''func main() {
	vi := &version.Info{Timestamp: time.Unix(1600000000, 123456700)}
	b, _ := json.Marshal(vi)
	v2 := &version.Info{}
	json.Unmarshal(b, v2)
	if !v2.Timestamp.Equal(vi.Timestamp) {
		fail("%v became %v", vi.Timestamp, v2.Timestamp)
	}
}
'''))
BUGS.append(dict(id="split-empty-value", property="C24",
 edits=[("version/version.go", "		for k, v := range *st {\n			trans.Set(langID, k, v)\n		}\n		m[langID] = trans\n", "		for k, v := range *st {\n			if v != \"\" {\n				trans.Set(langID, k, v)\n			}\n		}\n		m[langID] = trans\n")],
 needs="a language that defines a key with an empty value while another language has a value",
 breaks="the value of another language is taken",
 demo=VHEAD % "" + '''func main() {
	vi := &version.Info{}
	vi.Set(0, "Comments", "neutral")
	vi.Set(0x40C, "Comments", "")
	if s := (*vi.SplitTranslations()[0x40C].Table()[0x40C])["Comments"]; s != "" {
		fail("%q", s)
	}
}
'''))
BUGS.append(dict(id="merge-main", property="C25",
 edits=[("version/version.go", "	for k := range translations {\n		if k < lang {\n", "	for k, vi := range translations {\n		if k < lang && len(vi.lt) > 0 {\n")],
 needs="no neutral nor en-US translation, and a lowest language without strings",
 breaks="fixed fields come from the wrong structure",
 demo=VHEAD % "" + '''func main() {
	a, b := &version.Info{}, &version.Info{}
	a.FileVersion[0], b.FileVersion[0] = 1, 2
	b.Set(0x40C, "a", "b")
	if v := version.MergeTranslations(map[uint16]*version.Info{0x401: a, 0x40C: b}).FileVersion[0]; v != 1 {
		fail("%d", v)
	}
}
'''))
BUGS.append(dict(id="table-shared", property="C26",
 edits=[("version/version.go", "		if langST != nil {\n			stm", "		if langST != nil && len(*langST) == 0 {\n			st = langST\n		} else if langST != nil {\n			stm")],
 needs="a language without strings (JSON), whose table is changed by the caller",
 breaks="the table shares memory with the Info",
 demo=VHEAD % imp("encoding/json") + '''func main() {
	vi := &version.Info{}
	if err := json.Unmarshal([]byte(`{"info":{"0409":{}}}`), vi); err != nil {
		fail("%v", err)
	}
	(*vi.Table()[0x409])["a"] = "b"
	if len(*vi.Table()[0x409]) != 0 {
		fail("shared")
	}
}
'''))
BUGS.append(dict(id="manifest-isolation", property="C27",
 edits=[("manifest.go", "      {{- if .PrinterDriverIsolation}}\n", "      {{- if and .PrinterDriverIsolation (or .AutoElevate (not .GDIScaling))}}\n")],
 needs="two settings together, without a third one",
 breaks="a requested setting is missing",
 demo=HEAD % "" + '''func main() {
	rs := &winres.ResourceSet{}
	rs.SetManifest(winres.AppManifest{PrinterDriverIsolation: true, GDIScaling: true})
	if !bytes.Contains(rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409), []byte("<printerDriverIsolation")) {
		fail("setting missing")
	}
}
'''))
BUGS.append(dict(id="manifest-last-dep", property="C28",
 edits=[("manifest.go", """		if manifestString(dep.Identity.Name) == "microsoft.windows.common-controls" &&
			strings.HasPrefix(manifestString(dep.Identity.Version), "6.") &&
			manifestString(dep.Identity.PublicKeyToken) == "6595b64144ccf1df" {
			m.UseCommonControlsV6 = true
		}
""", """		m.UseCommonControlsV6 = manifestString(dep.Identity.Name) == "microsoft.windows.common-controls" &&
			strings.HasPrefix(manifestString(dep.Identity.Version), "6.") &&
			manifestString(dep.Identity.PublicKeyToken) == "6595b64144ccf1df"
""")],
 needs="a manifest with another dependency after Common Controls",
 breaks="the dependency is lost, depending on the order of elements",
 demo=HEAD % "" + '''func main() {
	x := `<assembly><dependency><dependentAssembly><assemblyIdentity name="Microsoft.Windows.Common-Controls" version="6.0.0.0" publicKeyToken="6595b64144ccf1df"/></dependentAssembly>
	<dependentAssembly><assemblyIdentity name="Other" version="1.0.0.0" publicKeyToken="x"/></dependentAssembly></dependency></assembly>`
	m, err := winres.AppManifestFromXML([]byte(x))
	if err != nil || !m.UseCommonControlsV6 {
		fail("%v %v", err, m)
	}
}
'''))
BUGS.append(dict(id="json-dpi", property="C29",
 edits=[("manifest.go", '	case "per monitor v2", "permonitorv2":\n', '	case "permonitorv2":\n'), ("manifest.go", '	case "per monitor", "permonitor", "true/pm":\n', '	case "per monitor v2":\n		*a = DPIPerMonitorV2\n		return nil\n	case "per monitor", "permonitor", "true/pm", "per monitor v1":\n')],
 needs="the undocumented spelling: per monitor v1",
 breaks="an unknown value is accepted",
 demo=HEAD % imp("encoding/json") + '''func main() {
	var m winres.AppManifest
	if err := json.Unmarshal([]byte(`{"dpi-awareness":"per monitor v1"}`), &m); err == nil {
		fail("accepted")
	}
}
'''))
BUGS.append(dict(id="json-identity-wrap", property="C29",
 edits=[("manifest.go", "		n, err := strconv.ParseUint(v[i], 10, 16)\n		if err != nil {\n			return errors.New(errInvalidVersion)\n		}\n", "		n, err := strconv.ParseUint(strings.TrimLeft(v[i], \"0\")+\"\", 10, 16)\n		if err != nil && strings.Trim(v[i], \"0\") != \"\" {\n			return errors.New(errInvalidVersion)\n		}\n")],
 needs="a version with an empty part",
 breaks="a malformed version is accepted",
 demo=HEAD % imp("encoding/json") + '''func main() {
	var m winres.AppManifest
	if err := json.Unmarshal([]byte(`{"identity":{"name":"a","version":"1..2"}}`), &m); err == nil {
		fail("accepted")
	}
}
'''))
