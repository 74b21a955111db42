package checks

import (
	"fmt"
	"math"
	"runtime/debug"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID:   "C13",
		Rule: "one execution per corrupted file or group, loaded, saved, stored and read back; distinct_nontrivial counts distinct (base, corruption, outcome)",
		Assumptions: []string{
			"an image that starts with the PNG signature is taken for a PNG image of 32 bits per pixel",
			"cursor groups of images larger than 256 pixels cannot be represented in a CUR file: only the low byte of the size is checked there",
		},
		Scenarios: []mc.Scenario{
			{Name: "file bytes", Weight: 2, Run: c13Bytes},
			{Name: "file fields", Bound: 2, ThoroughBound: 3, Weight: 3, Run: c13Fields},
			{Name: "truncated files", Run: c13Truncated},
			{Name: "cursor image headers", Run: c13DIB},
			{Name: "group bytes", Weight: 2, Run: c13GroupBytes},
			{Name: "group fields", Bound: 2, ThoroughBound: 3, Weight: 3, Run: c13GroupFields},
			{Name: "group contents", Run: c13GroupContents},
			{Name: "shared images", Serial: true, Run: c13Shared},
		},
	})
}

var c13Pics = func() [2][][]pic {
	ico := [][]pic{
		{{w: 16, h: 16, planes: 1, bits: 32, data: fresh(20, 1)}},
		{{w: 32, h: 32, colors: 16, planes: 1, bits: 4, data: fresh(9, 2)}, {w: 256, h: 256, planes: 1, bits: 32, data: fresh(30, 3)}, {w: 16, h: 8, colors: 2, resv: 0, planes: 1, bits: 1, data: []byte{}}},
	}
	cur := [][]pic{
		{{w: 16, h: 16, x: 1, y: 2, planes: 1, bits: 32, data: ref.DIB(40, 16, 16, 1, 32, 5, 1)}},
		{{w: 32, h: 32, x: 31, y: 0x1234, planes: 1, bits: 4, data: ref.DIB(40, 32, 32, 1, 4, 3, 2)}, {w: 256, h: 256, planes: 1, bits: 32, data: ref.PNG(2, 2, 4)}, {w: 16, h: 8, planes: 1, bits: 1, data: ref.DIB(124, 16, 8, 1, 1, 0, 2)}},
	}
	return [2][][]pic{ico, cur}
}()

var c13Files = func() (fs [2][][]byte) {
	for c := range c13Pics {
		for i, ps := range c13Pics[c] {
			fs[c] = append(fs[c], ref.BuildIco(uint16(c+1), entries(c == 1, ps), ref.IcoStyle{Gap: 3 * i, Tail: i}))
		}
	}
	return
}()

// c13File examines a file.
func c13File(r *mc.Run, cur bool, b []byte, what string) {
	want, werr := readIco(cur, b)
	r.Step()
	g, err := loadGrp(cur, b)
	if r.Tracing() {
		r.Logf("%s: %v (reference: %v)", what, err, werr)
	}
	r.StateStr(fmt.Sprint(cur, what, err))
	if err != nil {
		return
	}
	if werr != nil {
		r.Failf("%s: accepted, but %v", what, werr)
	}
	want = icoOrder(want)
	g.checkSaved(r, want, what)
	rs := &winres.ResourceSet{}
	r.Step()
	must(r, g.set(rs, name("G"), 0, true), what+": storing")
	m := model{}
	for _, x := range collect(rs) {
		m[x.Key] = x.Data
	}
	got, gerr := readGroup(cur, m, name("G"), 0)
	if gerr != nil {
		r.Failf("%s: the stored group is invalid: %v", what, gerr)
	}
	samePics(r, what+": stored group", got, want)
	r.Step()
	g2, err := getGrp(cur, rs, name("G"), 0)
	must(r, err, what+": reading the group")
	g2.checkSaved(r, want, what+", stored and read back")
}

func samePics(r *mc.Run, what string, got, want []pic) {
	if len(got) != len(want) {
		r.Failf("%s: %d images, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !got[i].same(want[i]) {
			r.Failf("%s: image %d is %v, want %v", what, i, got[i], want[i])
		}
	}
}

func c13Pick(r *mc.Run) (cur bool, i int, b []byte, what string) {
	cur = r.Bool()
	c := 0
	if cur {
		c = 1
	}
	i = r.Pick(len(c13Files[c]))
	what = [2]string{"ICO", "CUR"}[c] + fmt.Sprint(i)
	return cur, i, append([]byte(nil), c13Files[c][i]...), what
}

func c13Bytes(r *mc.Run) {
	cur, _, b, what := c13Pick(r)
	off := r.Pick(len(b))
	v := byte(r.Pick(256))
	b[off] = v
	c13File(r, cur, b, fmt.Sprintf("%s, byte %d set to %#x", what, off, v))
}

func c13Values(l int, old uint32) []uint32 {
	n := uint32(l)
	return []uint32{0, 1, 2, 3, 4, 15, 16, 17, 0xFF, 0x100, 0x7FFF, 0xFFFF, 0x10000, 0xA00000, 0xA00001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF, n, n - 1, n + 1, -n, old + 1, old - 1, n - old}
}

func c13Fields(r *mc.Run) {
	cur, _, b, what := c13Pick(r)
	n := 6 + 16*int(b[4])
	last := 0
	slots := 2
	if r.Thorough {
		slots = 3
	}
	for i := 0; i < slots; i++ {
		k := r.Dev(n/2 + 1) // 16 bit words, the 32 bit ones being set at once
		if k == 0 {
			continue
		}
		if k <= last {
			r.Prune()
		}
		last = k
		off := 2 * (k - 1)
		if off >= 6 && (off-6)%16 >= 8 {
			if off%4 == 0 {
				r.Prune() // second half of a 32 bit field
			}
			vals := c13Values(len(b), ref.U32(b, off))
			if i == 2 {
				vals = []uint32{0, 1, 0xFFFFFFFF, uint32(len(b))}
			}
			v := vals[r.Pick(len(vals))]
			ref.PutU32(b, off, v)
			what += fmt.Sprintf(", field %d set to %#x", off, v)
			continue
		}
		vals := []uint16{0, 1, 2, 3, 4, 0xFF, 0x100, 0x1000, 0xFFFF}
		if i == 2 {
			vals = []uint16{0, 2, 0x100, 0xFFFF}
		}
		v := vals[r.Pick(len(vals))]
		ref.PutU16(b, off, v)
		what += fmt.Sprintf(", word %d set to %#x", off, v)
	}
	c13File(r, cur, b, what)
}

func c13Truncated(r *mc.Run) {
	cur, _, b, what := c13Pick(r)
	n := r.Pick(len(b))
	c13File(r, cur, b[:n:n], fmt.Sprintf("%s truncated to %d", what, n))
}

// c13DIB: cursor images of every small length, with every header size that matters.
func c13DIB(r *mc.Run) {
	sizes := []uint32{0, 1, 12, 16, 39, 40, 41, 64, 108, 124, 125, 40 << 8, 40 << 24, 0x80000028, 0xFFFFFFFF}
	k := r.Pick(len(sizes) + 2)
	n := r.Pick(140)
	var d []byte
	what := ""
	switch {
	case k == len(sizes):
		d = append([]byte(nil), ref.PNG(3, 3, 5)...)
		what = "PNG"
	case k == len(sizes)+1:
		d = append([]byte("BM"), fresh(200, 8)...)
		what = "BM"
	default:
		d = make([]byte, 4)
		ref.PutU32(d, 0, sizes[k])
		d = append(d, fresh(140, 3)...)
		what = fmt.Sprintf("header size %#x", sizes[k])
	}
	if n > len(d) {
		r.Prune()
	}
	d = d[:n:n]
	p := pic{w: 16, h: 16, x: 3, y: 4, data: d}
	b := ref.BuildIco(2, entries(true, []pic{p}), ref.IcoStyle{Tail: r.Pick(2) * 20})
	c13File(r, true, b, fmt.Sprintf("CUR with an image of %d bytes (%s)", n, what))
}

// c13Group examines a group in a set.
func c13Group(r *mc.Run, cur bool, m model, res ref.Ident, lang uint16, what string) {
	rs, err := build(m.sorted())
	must(r, err, "Set")
	want, werr := readGroup(cur, m, res, lang)
	r.Step()
	g, err := getGrp(cur, rs, res, lang)
	if r.Tracing() {
		r.Logf("%s: %v (reference: %v)", what, err, werr)
	}
	r.StateStr(fmt.Sprint(cur, what, err))
	if serr := ref.SameRes(collect(rs), m.sorted()); serr != nil {
		r.Failf("%s: reading the group changed the set: %v", what, serr)
	}
	if err != nil {
		return
	}
	if werr != nil {
		r.Failf("%s: accepted, but %v", what, werr)
	}
	want = icoOrder(want)
	g.checkSaved(r, want, what)
	rs2 := &winres.ResourceSet{}
	r.Step()
	must(r, g.set(rs2, id(1), 0, false), what+": storing again")
	m2 := model{}
	for _, x := range collect(rs2) {
		m2[x.Key] = x.Data
	}
	got, gerr := readGroup(cur, m2, id(1), 0)
	if gerr != nil {
		r.Failf("%s: the group stored again is invalid: %v", what, gerr)
	}
	samePics(r, what+": group stored again", got, want)
	sizesMatch(r, cur, m2, id(1), 0, what+": group stored again")
}

// sizesMatch verifies the sizes that a group declares.
func sizesMatch(r *mc.Run, cur bool, m model, res ref.Ident, lang uint16, what string) {
	gt, it := id(14), id(3)
	if cur {
		gt, it = id(12), id(1)
	}
	b := m[key(gt, res, lang)]
	n := int(ref.U16(b, 4))
	if len(b) != 6+14*n {
		r.Failf("%s: the group has %d bytes for %d images", what, len(b), n)
	}
	images := firstTranslations(m, it)
	for i := 0; i < n; i++ {
		d := b[6+14*i:]
		img := images[id(ref.U16(d, 12))]
		if int(ref.U32(d, 8)) != len(img) {
			r.Failf("%s: entry %d says its image has %d bytes, it has %d", what, i, ref.U32(d, 8), len(img))
		}
	}
}

func c13GroupBase(r *mc.Run) (cur bool, m model, what string) {
	cur = r.Bool()
	c, gt, it := 0, id(14), id(3)
	if cur {
		c, gt, it = 1, id(12), id(1)
	}
	i := r.Pick(len(c13Pics[c]))
	what = [2]string{"icon group", "cursor group"}[c] + fmt.Sprint(i)
	m = model{}
	var es []groupEntry
	for j, p := range c13Pics[c][i] {
		es = append(es, groupEntry{p, uint16(j + 1)})
		m[key(it, id(uint16(j+1)), uint16(j*7))] = p.imageData(cur)
		m[key(it, id(uint16(j+1)), 0x409)] = fresh(50+j, 9)
	}
	m[key(gt, name("G"), 0)] = groupData(cur, es)
	return
}

func c13GroupKey(cur bool) ref.Key {
	if cur {
		return key(id(12), name("G"), 0)
	}
	return key(id(14), name("G"), 0)
}

func c13GroupBytes(r *mc.Run) {
	cur, m, what := c13GroupBase(r)
	k := c13GroupKey(cur)
	b := append([]byte(nil), m[k]...)
	off := r.Pick(len(b))
	v := byte(r.Pick(256))
	b[off] = v
	m[k] = b
	c13Group(r, cur, m, name("G"), 0, fmt.Sprintf("%s, byte %d set to %#x", what, off, v))
}

func c13GroupFields(r *mc.Run) {
	cur, m, what := c13GroupBase(r)
	k := c13GroupKey(cur)
	b := append([]byte(nil), m[k]...)
	slots := 2
	if r.Thorough {
		slots = 3
	}
	last := 0
	for i := 0; i < slots; i++ {
		o := r.Dev(len(b)/2 + 1)
		if o == 0 {
			continue
		}
		if o <= last {
			r.Prune()
		}
		last = o
		vals := []uint16{0, 1, 2, 3, 4, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF}
		v := vals[r.Pick(len(vals))]
		ref.PutU16(b, 2*(o-1), v)
		what += fmt.Sprintf(", word %d set to %#x", 2*(o-1), v)
	}
	m[k] = b
	c13Group(r, cur, m, name("G"), 0, what)
}

// c13GroupContents: truncated groups, images of any length, missing or in any language.
func c13GroupContents(r *mc.Run) {
	cur, m, what := c13GroupBase(r)
	k := c13GroupKey(cur)
	it := id(3)
	if cur {
		it = id(1)
	}
	switch r.Pick(4) {
	case 0:
		n := r.Pick(len(m[k]) + 1)
		b := m[k][:n:n]
		m[k] = b
		what += fmt.Sprintf(" truncated to %d", n)
	case 1:
		n := r.Pick(64)
		m[key(it, id(1), 0)] = fresh(n, 6)
		what += fmt.Sprintf(", first image replaced by %d bytes", n)
	case 2:
		n := uint16(1 + r.Pick(3))
		mask := r.Pick(4)
		for _, x := range m.sorted() {
			if x.Type == it && x.Res == id(n) {
				if x.Lang == 0x409 && mask&1 != 0 || x.Lang != 0x409 && mask&2 != 0 {
					delete(m, x.Key)
				}
			}
		}
		what += fmt.Sprintf(", translations of image %d removed (%d)", n, mask)
	case 3:
		// the group exists in other languages only
		b := m[k]
		delete(m, k)
		langs := []uint16{0, 1, 0x409, 0xFFFF}
		k2 := k
		k2.Lang = uint32(langs[r.Pick(4)])
		m[k2] = b
		l := langs[r.Pick(4)]
		what += fmt.Sprintf(", group in language %#x, read in %#x", k2.Lang, l)
		c13Group(r, cur, m, name("G"), l, what)
		return
	}
	c13Group(r, cur, m, name("G"), 0, what)
}

// c13Shared: entries may share the same bytes, but this must not multiply images endlessly.
func c13Shared(r *mc.Run) {
	cur := r.Bool()
	k := r.Pick(4)
	n := []int{2, 300, 0xFFFF, 0xFFFF}[k]
	size := []int{0xA00000, 6000, 60, 0xA00000}[k]
	typ, img := uint16(1), make([]byte, size)
	if cur {
		typ = 2
		copy(img, ref.DIB(40, 16, 16, 1, 32, 0, 0))
	}
	e := ref.IcoEntry{W: 16, H: 16, Planes: 1, BitCount: 32, Data: img}
	if cur {
		e.Planes, e.BitCount = 0, 0
	}
	one := ref.BuildIco(typ, []ref.IcoEntry{e}, ref.IcoStyle{})
	b := make([]byte, 6+16*n, 6+16*n+size)
	copy(b, one[:6])
	ref.PutU16(b, 4, uint16(n))
	for i := 0; i < n; i++ {
		copy(b[6+16*i:], one[6:22])
		ref.PutU32(b, 6+16*i+12, uint32(6+16*n))
	}
	b = append(b, img...)
	what := fmt.Sprintf("file of %d bytes, %d entries designating the same %d bytes", len(b), n, size)
	defer debug.FreeOSMemory()
	r.Step()
	g, err := loadGrp(cur, b)
	if int64(n)*int64(size) < math.MaxUint32 {
		must(r, err, what)
		p := pic{w: 16, h: 16, planes: 1, bits: 32, data: img}
		ps := make([]pic, n)
		for i := range ps {
			ps[i] = p
		}
		g.checkSaved(r, ps, what)
	} else if err == nil {
		r.Failf("%s: it is accepted, %d MB are allocated", what, int64(n)*int64(size)>>20)
	}
	r.StateStr(what)
}
