package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"sort"
	"strings"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C32: nothing changes but what the operation is meant to change.

func init() {
	register(&Property{
		ID:          "C32",
		Rule:        "one execution per history of operations on a pool of shared objects; distinct_nontrivial counts distinct (state of the pool, operation)",
		Assumptions: []string{"callers change objects through the API only, except the bytes behind readers and the arguments of constructors, which they may reuse, and the bytes that Get returns for loaded resources"},
		Scenarios: []mc.Scenario{
			{Name: "resource histories", Weight: 4, Run: func(r *mc.Run) { c32History(r, resourceOps, 4) }},
			{Name: "version histories", Weight: 4, Run: func(r *mc.Run) { c32History(r, versionOps, 4) }},
			{Name: "images", Weight: 2, Run: c32Images},
			{Name: "buffers", Weight: 1, Run: c32Buffers},
			{Name: "memory of loaded resources", Run: c32Memory},
		},
	})
}

// pool is a set of objects used by the same program.
type pool struct {
	a, b   *winres.ResourceSet
	i, j   *winres.Icon
	k, l   *winres.Cursor
	m      winres.AppManifest
	v, w   *version.Info
	parts  map[uint16]*version.Info
	table  version.LangTable
	exe    []byte
	nextID uint16
}

func dumpSet(rs *winres.ResourceSet) string {
	var b strings.Builder
	for _, x := range collect(rs) {
		fmt.Fprintf(&b, "%v=%x;", x.Key, x.Data)
	}
	return b.String()
}

func icoBytes(i *winres.Icon) string {
	var b bytes.Buffer
	if i != nil {
		if err := i.SaveICO(&b); err != nil {
			return err.Error()
		}
	}
	return b.String()
}

func curBytes(c *winres.Cursor) string {
	var b bytes.Buffer
	if c != nil {
		if err := c.SaveCUR(&b); err != nil {
			return err.Error()
		}
	}
	return b.String()
}

func infoState(vi *version.Info) string {
	if vi == nil {
		return "nil"
	}
	return meaning(vi).String() + string(vi.Bytes())
}

func partsState(m map[uint16]*version.Info) string {
	var ls []int
	for l := range m {
		ls = append(ls, int(l))
	}
	sort.Ints(ls)
	s := ""
	for _, l := range ls {
		s += fmt.Sprintf("%x: %s;", l, infoState(m[uint16(l)]))
	}
	return s
}

func tableState(t version.LangTable) string {
	j, _ := json.Marshal(t)
	return string(j)
}

// snapshot describes every object.
func (p *pool) snapshot() map[string]string {
	return map[string]string{
		"set A": dumpSet(p.a), "set B": dumpSet(p.b), "icon I": icoBytes(p.i), "icon J": icoBytes(p.j),
		"cursor K": curBytes(p.k), "cursor L": curBytes(p.l), "manifest": fmt.Sprintf("%+v", p.m),
		"info V": infoState(p.v), "info W": infoState(p.w), "parts": partsState(p.parts), "table": tableState(p.table),
		"executable": string(p.exe),
	}
}

type poolOp struct {
	name    string
	changes string // objects that may change, separated by commas
	f       func(r *mc.Run, p *pool)
}

var resourceOps = []poolOp{
	{"A.SetIcon(1, I)", "set A", func(r *mc.Run, p *pool) { must(r, p.a.SetIcon(winres.ID(1), p.i), "SetIcon") }},
	{"A.SetIconTranslation(N, 0x409, I)", "set A", func(r *mc.Run, p *pool) {
		must(r, p.a.SetIconTranslation(winres.Name("N"), 0x409, p.i), "SetIconTranslation")
	}},
	{"B.SetIcon(1, I)", "set B", func(r *mc.Run, p *pool) { must(r, p.b.SetIcon(winres.ID(1), p.i), "SetIcon") }},
	{"B.SetIcon(1, J)", "set B", func(r *mc.Run, p *pool) {
		if p.j != nil {
			must(r, p.b.SetIcon(winres.ID(1), p.j), "SetIcon")
		}
	}},
	{"J = A.GetIcon(1)", "icon J", func(r *mc.Run, p *pool) {
		if j, err := p.a.GetIcon(winres.ID(1)); err == nil {
			p.j = j
		}
	}},
	{"save icons twice", "", func(r *mc.Run, p *pool) {
		if icoBytes(p.i) != icoBytes(p.i) || icoBytes(p.j) != icoBytes(p.j) {
			r.Failf("SaveICO gives another result the second time")
		}
	}},
	{"A.SetCursor(1, K)", "set A", func(r *mc.Run, p *pool) { must(r, p.a.SetCursor(winres.ID(1), p.k), "SetCursor") }},
	{"B.SetCursorTranslation(C, 7, K)", "set B", func(r *mc.Run, p *pool) {
		must(r, p.b.SetCursorTranslation(winres.Name("C"), 7, p.k), "SetCursorTranslation")
	}},
	{"L = A.GetCursor(1)", "cursor L", func(r *mc.Run, p *pool) {
		if l, err := p.a.GetCursor(winres.ID(1)); err == nil {
			p.l = l
		}
	}},
	{"A.SetCursor(1, L)", "set A", func(r *mc.Run, p *pool) {
		if p.l != nil {
			must(r, p.a.SetCursor(winres.ID(1), p.l), "SetCursor")
		}
	}},
	{"save cursors twice", "", func(r *mc.Run, p *pool) {
		if curBytes(p.k) != curBytes(p.k) || curBytes(p.l) != curBytes(p.l) {
			r.Failf("SaveCUR gives another result the second time")
		}
	}},
	{"overwrite images of A", "set A", func(r *mc.Run, p *pool) {
		for _, x := range collect(p.a) {
			if x.Type == id(1) || x.Type == id(3) {
				p.nextID++
				must(r, p.a.Set(wid(x.Type), wid(x.Res), uint16(x.Lang), bytes.Repeat([]byte{byte(p.nextID)}, len(x.Data))), "Set")
			}
		}
	}},
	{"delete everything from A", "set A", func(r *mc.Run, p *pool) {
		for _, x := range collect(p.a) {
			must(r, p.a.Set(wid(x.Type), wid(x.Res), uint16(x.Lang), nil), "Set")
		}
	}},
	{"A to an object, twice", "", func(r *mc.Run, p *pool) {
		var x, y bytes.Buffer
		must(r, p.a.WriteObject(&x, winres.ArchAMD64), "WriteObject")
		must(r, p.a.WriteObject(&y, winres.ArchAMD64), "WriteObject")
		if !bytes.Equal(x.Bytes(), y.Bytes()) {
			r.Failf("WriteObject gives another result the second time")
		}
	}},
	{"B = load(A in the executable)", "set B", func(r *mc.Run, p *pool) {
		var x, y bytes.Buffer
		src := bytes.NewReader(p.exe)
		must(r, p.a.WriteToEXE(&x, src), "WriteToEXE")
		must(r, p.a.WriteToEXE(&y, src), "WriteToEXE")
		if !bytes.Equal(x.Bytes(), y.Bytes()) {
			r.Failf("WriteToEXE gives another result the second time")
		}
		b, err := winres.LoadFromEXE(bytes.NewReader(x.Bytes()))
		must(r, err, "LoadFromEXE")
		p.b = b
		z := x.Bytes() // the caller reuses its buffer
		for i := range z {
			z[i] = 0xAA
		}
	}},
	{"A.SetManifest", "set A", func(r *mc.Run, p *pool) { p.a.SetManifest(p.m) }},
	{"A.SetVersionInfo(V)", "set A", func(r *mc.Run, p *pool) { p.a.SetVersionInfo(*p.v) }},
	{"W = FromBytes(A's version)", "info W", func(r *mc.Run, p *pool) {
		if d := p.a.Get(winres.RT_VERSION, winres.ID(1), 0x409); d != nil {
			w, err := version.FromBytes(d)
			must(r, err, "FromBytes")
			p.w = w
		}
	}},
	{"look up everything", "", func(r *mc.Run, p *pool) {
		p.a.Count()
		p.b.Count()
		p.a.WalkType(winres.RT_ICON, func(winres.Identifier, uint16, []byte) bool { return true })
		p.a.GetIconTranslation(winres.Name("N"), 0x409)
		p.a.GetCursorTranslation(winres.Name("N"), 0x409)
		p.b.GetIcon(winres.ID(1))
		p.b.GetCursor(winres.Name("C"))
	}},
}

var versionOps = []poolOp{
	{"V.Set(0x409, a)", "info V", func(r *mc.Run, p *pool) {
		p.nextID++
		must(r, p.v.Set(0x409, "a", fmt.Sprint("changed ", p.nextID)), "Set")
	}},
	{"V.Set(0x411, new)", "info V", func(r *mc.Run, p *pool) { must(r, p.v.Set(0x411, "new", "language"), "Set") }},
	{"V.SetFileVersion", "info V", func(r *mc.Run, p *pool) { p.nextID++; p.v.SetFileVersion(fmt.Sprint("9.", p.nextID)) }},
	{"W.SetProductVersion", "info W", func(r *mc.Run, p *pool) { p.nextID++; p.w.SetProductVersion(fmt.Sprint("8.", p.nextID)) }},
	{"V.Bytes twice", "", func(r *mc.Run, p *pool) {
		if !bytes.Equal(p.v.Bytes(), p.v.Bytes()) {
			r.Failf("Bytes gives another result the second time")
		}
	}},
	{"V to JSON twice", "", func(r *mc.Run, p *pool) {
		x, e := json.Marshal(p.v)
		must(r, e, "Marshal")
		y, e := json.Marshal(p.v)
		must(r, e, "Marshal")
		if !bytes.Equal(x, y) {
			r.Failf("MarshalJSON gives another result the second time")
		}
	}},
	{"V from JSON of W", "info V", func(r *mc.Run, p *pool) {
		x, e := json.Marshal(p.w)
		must(r, e, "Marshal")
		must(r, json.Unmarshal(x, p.v), "Unmarshal")
		for i := range x {
			x[i] = '#'
		}
	}},
	{"W = FromBytes(V.Bytes)", "info W", func(r *mc.Run, p *pool) {
		b := p.v.Bytes()
		w, e := version.FromBytes(b)
		must(r, e, "FromBytes")
		p.w = w
		for i := range b {
			b[i] = 0x55
		}
	}},
	{"parts = V.SplitTranslations", "parts", func(r *mc.Run, p *pool) { p.parts = p.v.SplitTranslations() }},
	{"change parts", "parts", func(r *mc.Run, p *pool) {
		for l, x := range p.parts {
			must(r, x.Set(l, "a", "part"), "Set")
			must(r, x.Set(0, "b", "neutral part"), "Set")
			x.FileVersion[0] += 7
		}
	}},
	{"W = merge(parts)", "info W", func(r *mc.Run, p *pool) {
		if p.parts != nil {
			p.w = version.MergeTranslations(p.parts)
		}
	}},
	{"W = merge(0x409: V, 0x40C: V)", "info W", func(r *mc.Run, p *pool) {
		p.w = version.MergeTranslations(map[uint16]*version.Info{0x409: p.v, 0x40C: p.v})
	}},
	{"W.Set(0x409, a), W.Set(0x40C, z)", "info W", func(r *mc.Run, p *pool) {
		p.nextID++
		must(r, p.w.Set(0x409, "a", fmt.Sprint("w", p.nextID)), "Set")
		must(r, p.w.Set(0x40C, "z", "w"), "Set")
		must(r, p.w.Set(0, "z", "w"), "Set")
	}},
	{"table = V.Table()", "table", func(r *mc.Run, p *pool) { p.table = p.v.Table() }},
	{"change table", "table", func(r *mc.Run, p *pool) {
		for _, st := range p.table {
			if st != nil && *st != nil {
				(*st)["a"] = "table"
				delete(*st, "b")
			}
		}
		if p.table != nil {
			delete(p.table, 0x40C)
			p.table[5] = &version.StringTable{"x": "y"}
		}
	}},
	{"main of table", "", func(r *mc.Run, p *pool) {
		if st := p.v.Table().GetMainTranslation(); st != nil {
			st["a"] = "main"
		}
	}},
	{"A.SetVersionInfo(V)", "set A", func(r *mc.Run, p *pool) { p.a.SetVersionInfo(*p.v) }},
	{"W = FromBytes(A's version)", "info W", func(r *mc.Run, p *pool) {
		if d := p.a.Get(winres.RT_VERSION, winres.ID(1), 0x409); d != nil {
			w, err := version.FromBytes(d)
			must(r, err, "FromBytes")
			p.w = w
		}
	}},
	{"B.SetVersionInfo(W)", "set B", func(r *mc.Run, p *pool) { p.b.SetVersionInfo(*p.w) }},
}

var c32Ico = ref.BuildIco(1, []ref.IcoEntry{
	{W: 16, H: 16, Planes: 1, BitCount: 8, Data: ref.DIB(40, 16, 8, 1, 8, 5, 1)}, // the height is not doubled
	{W: 32, H: 32, Planes: 1, BitCount: 32, Data: ref.PNG(2, 2, 2)},              // not the declared size
	{W: 24, H: 24, Colors: 9, Data: ref.DIB(40, 24, 24, 0, 4, 5, 7)},
	{W: 48, H: 48, Planes: 1, BitCount: 8, Data: ref.Pattern(35, 3)},
}, ref.IcoStyle{})

var c32Cur = ref.BuildIco(2, []ref.IcoEntry{
	{W: 16, H: 16, Planes: 3, BitCount: 4, Data: ref.DIB(40, 16, 16, 1, 8, 60, 4)},
	{W: 32, H: 32, Planes: 9, BitCount: 1, Data: ref.DIB(40, 32, 16, 1, 32, 10, 5)}, // the height is not doubled
	{W: 8, H: 8, Data: ref.PNG(2, 2, 4)},
}, ref.IcoStyle{})

var c32Exe = buildExe(&ref.PEConf{Plus: true, StubLen: 0x80, Slack: 80, Sections: arrange("TRL", 0, ref.RsrcStyle{})}, oldRes, ref.RsrcStyle{})

func newPool(r *mc.Run) *pool {
	p := &pool{a: &winres.ResourceSet{}, b: &winres.ResourceSet{}, exe: append([]byte(nil), c32Exe...)}
	var err error
	ico, cur := append([]byte(nil), c32Ico...), append([]byte(nil), c32Cur...)
	p.i, err = winres.LoadICO(bytes.NewReader(ico))
	must(r, err, "LoadICO")
	p.k, err = winres.LoadCUR(bytes.NewReader(cur))
	must(r, err, "LoadCUR")
	p.m = winres.AppManifest{Description: "d", Identity: winres.AssemblyIdentity{Name: "n", Version: [4]uint16{1, 2, 3, 4}}, DPIAwareness: winres.DPIPerMonitorV2}
	p.v, p.w = &version.Info{}, &version.Info{}
	p.v.FileVersion = [4]uint16{1, 2, 3, 4}
	for _, l := range []uint16{0, 0x409, 0x40C} {
		must(r, p.v.Set(l, "a", fmt.Sprint("a", l)), "Set")
	}
	must(r, p.v.Set(0x409, "b", "only english"), "Set")
	must(r, p.w.Set(0x407, "c", "german"), "Set")
	return p
}

func c32History(r *mc.Run, ops []poolOp, depth int) {
	if r.Thorough {
		depth++
	}
	p := newPool(r)
	before := p.snapshot()
	if again := p.snapshot(); fmt.Sprint(again) != fmt.Sprint(before) {
		r.Failf("reading the objects changes them")
	}
	hist := ""
	for step := 0; step < depth; step++ {
		o := &ops[r.Pick(len(ops))]
		hist += o.name + "; "
		r.Logf("%s", o.name)
		r.Step()
		o.f(r, p)
		after := p.snapshot()
		for k, x := range before {
			if after[k] != x && k != o.changes {
				r.Failf("%s changed %s: %q -> %q", o.name, k, clip(x), clip(after[k]))
			}
		}
		before = after
	}
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += before[k]
	}
	r.StateStr(s)
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// pixels gives the storage of an image.
func pixels(m image.Image) string {
	switch m := m.(type) {
	case *image.NRGBA:
		return string(m.Pix)
	case *image.RGBA:
		return string(m.Pix)
	case *image.Gray:
		return string(m.Pix)
	case *image.Alpha:
		return string(m.Pix)
	case *image.Paletted:
		return string(m.Pix) + fmt.Sprint(m.Palette)
	case *image.NRGBA64:
		return string(m.Pix)
	case *image.CMYK:
		return string(m.Pix)
	case *image.YCbCr:
		return string(m.Y) + string(m.Cb) + string(m.Cr)
	}
	panic("harness: image")
}

// c32Image makes an image of some kind; sub tells to use the middle of a larger one.
func c32Image(kind int, w, h int, sub bool) (img, whole image.Image) {
	rc := image.Rect(0, 0, w, h)
	if sub {
		rc = image.Rect(-1, -2, w+2, h+1)
		if kind == 7 {
			rc = image.Rect(0, 0, w+2, h+1)
		}
	}
	fill := func(b []byte) {
		copy(b, ref.Pattern(len(b), byte(kind)))
	}
	type subber interface {
		SubImage(image.Rectangle) image.Image
	}
	switch kind {
	case 0:
		m := image.NewNRGBA(rc)
		fill(m.Pix)
		whole = m
	case 1:
		m := image.NewRGBA(rc)
		fill(m.Pix)
		for i := range m.Pix {
			if i%4 != 3 && m.Pix[i] > m.Pix[i|3] {
				m.Pix[i] = m.Pix[i|3]
			}
		}
		whole = m
	case 2:
		m := image.NewGray(rc)
		fill(m.Pix)
		whole = m
	case 3:
		m := image.NewAlpha(rc)
		fill(m.Pix)
		whole = m
	case 4:
		m := image.NewPaletted(rc, color.Palette{color.NRGBA{1, 2, 3, 4}, color.NRGBA{5, 6, 7, 255}, color.RGBA{}})
		for i := range m.Pix {
			m.Pix[i] = byte(i % 3)
		}
		whole = m
	case 5:
		m := image.NewNRGBA64(rc)
		fill(m.Pix)
		whole = m
	case 6:
		m := image.NewCMYK(rc)
		fill(m.Pix)
		whole = m
	case 7:
		m := image.NewYCbCr(rc, image.YCbCrSubsampleRatio420)
		fill(m.Y)
		fill(m.Cb)
		fill(m.Cr)
		whole = m
	}
	img = whole
	if sub {
		img = whole.(subber).SubImage(image.Rect(0, 0, w, h))
	}
	return img, whole
}

// c32Images: what is made of images leaves them, and everything else it is given, untouched.
func c32Images(r *mc.Run) {
	kind := r.Pick(8)
	wh := [][2]int{{1, 1}, {4, 4}, {3, 7}, {7, 2}, {256, 256}, {300, 40}, {1, 256}, {20, 19}}[r.Pick(8)]
	sub := r.Bool()
	img, whole := c32Image(kind, wh[0], wh[1], sub)
	img2, whole2 := c32Image((kind+3)%8, 5, 6, !sub)
	px, px2 := pixels(whole), pixels(whole2)
	b1 := img.Bounds()
	var out, again string
	what := ""
	r.Step()
	switch op := r.Pick(6); op {
	case 0:
		if wh[0] > 256 {
			r.Prune()
		}
		what = "NewIconFromImages"
		list := []image.Image{img2, img, img2}
		do := func() string {
			i, err := winres.NewIconFromImages(list)
			must(r, err, what)
			return icoBytes(i)
		}
		out, again = do(), do()
		if list[0] != img2 || list[1] != img || list[2] != img2 {
			r.Failf("%s changed its argument", what)
		}
	case 1, 2, 3:
		what = "NewIconFromResizedImage"
		sizes := [][]int{{3, 17, 8, 256}, nil, {}}[op-1]
		if len(sizes) == 0 && wh[0]*wh[1] > 400 && kind != 0 {
			sizes = []int{48, 16}
		}
		cp := append([]int(nil), sizes...)
		do := func() string {
			i, err := winres.NewIconFromResizedImage(img, sizes)
			must(r, err, what)
			return icoBytes(i)
		}
		out, again = do(), do()
		if fmt.Sprint(cp) != fmt.Sprint(append([]int(nil), sizes...)) {
			r.Failf("%s changed the list of sizes from %v to %v", what, cp, sizes)
		}
	case 4:
		if wh[0] > 256 {
			r.Prune()
		}
		what = "NewCursorFromImages"
		list := []winres.CursorImage{{Image: img2, HotSpot: winres.HotSpot{X: 1, Y: 2}}, {Image: img, HotSpot: winres.HotSpot{X: 0, Y: 0}}}
		do := func() string {
			i, err := winres.NewCursorFromImages(list)
			must(r, err, what)
			return curBytes(i)
		}
		out, again = do(), do()
		if list[0].Image != img2 || list[1].Image != img || list[0].HotSpot != (winres.HotSpot{X: 1, Y: 2}) || list[1].HotSpot != (winres.HotSpot{}) {
			r.Failf("%s changed its argument", what)
		}
	case 5:
		if wh[0] > 256 {
			r.Prune()
		}
		what = "changing the image afterwards"
		i, err := winres.NewIconFromImages([]image.Image{img})
		must(r, err, "NewIconFromImages")
		c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img}})
		must(r, err, "NewCursorFromImages")
		out = icoBytes(i) + curBytes(c)
		if m, ok := whole.(*image.NRGBA); ok {
			for k := range m.Pix {
				m.Pix[k] ^= 0x5A
			}
			px = pixels(whole)
		}
		again = icoBytes(i) + curBytes(c)
	}
	r.Logf("%s, kind %d %v sub=%v", what, kind, wh, sub)
	r.StateStr(fmt.Sprint(what, kind, wh, sub, len(out)))
	if out != again {
		r.Failf("%s, kind %d %v: the second time, the result is different", what, kind, wh)
	}
	if img.Bounds() != b1 || pixels(whole) != px || pixels(whole2) != px2 {
		r.Failf("%s changed the source image (kind %d %v sub=%v)", what, kind, wh, sub)
	}
	if d := fmt.Sprint(winres.DefaultIconSizes); d != "[256 64 48 32 16]" {
		r.Failf("%s changed DefaultIconSizes: %v", what, d)
	}
}

// c32Buffers: the bytes that were parsed can be reused by the caller, and are not changed by the parser.
func c32Buffers(r *mc.Run) {
	p := newPool(r)
	p.a.SetIcon(winres.ID(1), p.i)
	p.a.SetCursor(winres.ID(1), p.k)
	p.a.SetManifest(p.m)
	p.a.SetVersionInfo(*p.v)
	var exe bytes.Buffer
	must(r, p.a.WriteToEXE(&exe, bytes.NewReader(p.exe)), "WriteToEXE")
	j, err := json.Marshal(p.v)
	must(r, err, "Marshal")
	mj, err := json.Marshal(p.m)
	must(r, err, "Marshal")
	xml := p.a.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	scramble := byte(1 + r.Pick(3)*100)
	type parser struct {
		name string
		b    []byte
		f    func(b []byte) (func() string, error)
	}
	ps := []parser{
		{"LoadFromEXE", exe.Bytes(), func(b []byte) (func() string, error) {
			x, err := winres.LoadFromEXE(bytes.NewReader(b))
			return func() string { return dumpSet(x) }, err
		}},
		{"LoadFromEXESingleType", exe.Bytes(), func(b []byte) (func() string, error) {
			x, err := winres.LoadFromEXESingleType(bytes.NewReader(b), winres.RT_GROUP_ICON)
			return func() string { return dumpSet(x) }, err
		}},
		{"LoadFromEXE and GetIcon", exe.Bytes(), func(b []byte) (func() string, error) {
			x, err := winres.LoadFromEXE(bytes.NewReader(b))
			if err != nil {
				return nil, err
			}
			i, err := x.GetIcon(winres.ID(1))
			c, err2 := x.GetCursor(winres.ID(1))
			if err == nil {
				err = err2
			}
			return func() string { return icoBytes(i) + curBytes(c) }, err
		}},
		{"LoadICO", c32Ico, func(b []byte) (func() string, error) {
			x, err := winres.LoadICO(bytes.NewReader(b))
			return func() string { return icoBytes(x) }, err
		}},
		{"LoadCUR", c32Cur, func(b []byte) (func() string, error) {
			x, err := winres.LoadCUR(bytes.NewReader(b))
			return func() string { return curBytes(x) }, err
		}},
		{"version.FromBytes", p.v.Bytes(), func(b []byte) (func() string, error) {
			x, err := version.FromBytes(b)
			return func() string { return infoState(x) }, err
		}},
		{"Info.UnmarshalJSON", j, func(b []byte) (func() string, error) {
			x := &version.Info{}
			err := x.UnmarshalJSON(b)
			return func() string { return infoState(x) }, err
		}},
		{"AppManifestFromXML", xml, func(b []byte) (func() string, error) {
			x, err := winres.AppManifestFromXML(b)
			return func() string { return fmt.Sprintf("%+v", x) }, err
		}},
		{"AppManifest from JSON", mj, func(b []byte) (func() string, error) {
			var x winres.AppManifest
			err := json.Unmarshal(b, &x)
			return func() string { return fmt.Sprintf("%+v", x) }, err
		}},
	}
	q := ps[r.Pick(len(ps))]
	r.Step()
	orig := string(q.b)
	buf := []byte(orig)
	state, err := q.f(buf)
	must(r, err, q.name)
	if string(buf) != orig {
		r.Failf("%s changed its input", q.name)
	}
	before := state()
	for i := range buf {
		buf[i] ^= scramble
	}
	r.Logf("%s, %d bytes, changed by %#x", q.name, len(buf), scramble)
	r.StateStr(fmt.Sprint(q.name, scramble))
	if state() != before {
		r.Failf("what %s returned changes with the buffer it was read from", q.name)
	}
	state2, err := q.f([]byte(orig))
	must(r, err, q.name)
	if state2() != before {
		r.Failf("%s gives another result the second time", q.name)
	}
}

// c32Memory: each loaded resource has its own memory, even if they share bytes in the file.
func c32Memory(r *mc.Run) {
	res := []ref.Res{
		{Key: key(id(10), id(1), 0), Data: ref.Pattern(5, 1)}, {Key: key(id(10), id(1), 0x409), Data: ref.Pattern(8, 2)}, {Key: key(id(10), id(2), 0), Data: []byte{}},
		{Key: key(id(10), name("N"), 0), Data: ref.Pattern(16, 3)}, {Key: key(id(24), id(1), 0), Data: ref.Pattern(33, 4)},
	}
	exe := buildExe(&ref.PEConf{StubLen: 0x80, Slack: 80, Sections: arrange("TRL", 0, ref.RsrcStyle{})}, res, ref.RsrcStyle{})
	if r.Bool() { // the library's own layout
		rs, err := build(res)
		must(r, err, "Set")
		var b bytes.Buffer
		must(r, rs.WriteToEXE(&b, bytes.NewReader(exe)), "WriteToEXE")
		exe = b.Bytes()
	} else if r.Bool() { // every resource has the same bytes
		p, err := ref.ParsePE(exe)
		must(r, err, "internal")
		s := p.Secs[p.Find(p.Dirs[ref.DirResource][0])]
		b := exe[s.Ptr : s.Ptr+s.RawSize]
		first := -1
		var walk func(at, depth int)
		walk = func(at, depth int) {
			n := int(ref.U16(b, at+12)) + int(ref.U16(b, at+14))
			for i := 0; i < n; i++ {
				o := int(ref.U32(b, at+16+8*i+4) &^ (1 << 31))
				if depth < 2 {
					walk(o, depth+1)
				} else if first < 0 {
					first = o
				} else {
					copy(b[o:o+8], b[first:first+8])
				}
			}
		}
		walk(0, 0)
	}
	var rs *winres.ResourceSet
	var err error
	if r.Bool() {
		rs, err = winres.LoadFromEXE(bytes.NewReader(exe))
	} else {
		rs, err = winres.LoadFromEXESingleType(bytes.NewReader(exe), winres.RT_RCDATA)
	}
	must(r, err, "Load")
	all := collect(rs)
	var mine []ref.Res
	for _, x := range all {
		mine = append(mine, ref.Res{Key: x.Key, Data: append([]byte{}, x.Data...)})
	}
	k := r.Pick(8)
	if k >= len(all) {
		r.Prune()
	}
	x := all[k]
	d := rs.Get(wid(x.Type), wid(x.Res), uint16(x.Lang))
	if r.Bool() {
		d = append(d, 0xEE, 0xEE, 0xEE, 0xEE)
	} else {
		for i := range d {
			d[i] ^= 0x5A
			mine[k].Data[i] ^= 0x5A
		}
	}
	r.Step()
	if err := ref.SameRes(collect(rs), mine); err != nil {
		r.Failf("changing what Get returned for %v changed another resource: %v", x.Key, err)
	}
	r.StateStr(fmt.Sprint(k, len(all), len(d)))
}
