package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// pic is one image of an icon or cursor, as it should be understood.
type pic struct {
	w, h         int // 1 to 256
	colors, resv int
	planes, bits int
	x, y         int // hot spot (cursors)
	data         []byte
}

func (p pic) String() string {
	return fmt.Sprintf("{%dx%d colors %d/%d planes %d bits %d hot %d,%d %s}", p.w, p.h, p.colors, p.resv, p.planes, p.bits, p.x, p.y, ref.Hex(p.data))
}

func (p pic) same(q pic) bool {
	return p.w == q.w && p.h == q.h && p.colors == q.colors && p.resv == q.resv && p.planes == q.planes && p.bits == q.bits && p.x == q.x && p.y == q.y && bytes.Equal(p.data, q.data)
}

// icoOrder is the order of decreasing quality.
func icoOrder(ps []pic) []pic {
	out := append([]pic(nil), ps...)
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].bits != out[j].bits {
			return out[i].bits > out[j].bits
		}
		return out[i].w > out[j].w
	})
	return out
}

func full(b uint8) int {
	if b == 0 {
		return 256
	}
	return int(b)
}

var pngSignature = []byte("\x89PNG\r\n\x1a\n")

// dibInfo gives the planes and bit count of an image, and whether it is one.
func dibInfo(d []byte) (planes, bits int, ok bool) {
	if bytes.HasPrefix(d, pngSignature) {
		return 1, 32, true
	}
	if len(d) < 16 {
		return 0, 0, false
	}
	switch ref.U32(d, 0) {
	case 40, 108, 124:
		return int(ref.U16(d, 12)), int(ref.U16(d, 14)), true
	}
	return 0, 0, false
}

// readIco reads what an ICO or CUR file means, allowing shared and overlapping data.
func readIco(cur bool, b []byte) ([]pic, error) {
	typ := uint16(1)
	if cur {
		typ = 2
	}
	if len(b) < 6 || ref.U16(b, 0) != 0 || ref.U16(b, 2) != typ {
		return nil, fmt.Errorf("invalid header")
	}
	n := int(ref.U16(b, 4))
	if len(b) < 6+16*n {
		return nil, fmt.Errorf("truncated directory")
	}
	var ps []pic
	for i := 0; i < n; i++ {
		d := b[6+16*i:]
		sz, off := uint64(ref.U32(d, 8)), uint64(ref.U32(d, 12))
		if sz == 0 {
			off = 0 // designates nothing, wherever that is
		}
		if off+sz > uint64(len(b)) {
			return nil, fmt.Errorf("image %d is out of the file", i)
		}
		p := pic{w: full(d[0]), h: full(d[1]), data: b[off : off+sz]}
		if cur {
			p.x, p.y = int(ref.U16(d, 4)), int(ref.U16(d, 6))
			var ok bool
			if p.planes, p.bits, ok = dibInfo(p.data); !ok {
				return nil, fmt.Errorf("image %d is neither a DIB nor a PNG", i)
			}
		} else {
			p.colors, p.resv = int(d[2]), int(d[3])
			p.planes, p.bits = int(ref.U16(d, 4)), int(ref.U16(d, 6))
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// readGroup reads what a group resource means.
func readGroup(cur bool, m model, res ref.Ident, lang uint16) ([]pic, error) {
	typ, gt, it := uint16(1), id(14), id(3)
	if cur {
		typ, gt, it = 2, id(12), id(1)
	}
	b, ok := m[key(gt, res, lang)]
	if !ok {
		return nil, fmt.Errorf("no group")
	}
	if len(b) < 6 || ref.U16(b, 0) != 0 || ref.U16(b, 2) != typ {
		return nil, fmt.Errorf("invalid group header")
	}
	n := int(ref.U16(b, 4))
	if len(b) < 6+14*n {
		return nil, fmt.Errorf("truncated group")
	}
	var ps []pic
	images := firstTranslations(m, it)
	for i := 0; i < n; i++ {
		d := b[6+14*i:]
		img, ok := images[id(ref.U16(d, 12))]
		if !ok {
			return nil, fmt.Errorf("image %d is missing", ref.U16(d, 12))
		}
		var p pic
		p.planes, p.bits = int(ref.U16(d, 4)), int(ref.U16(d, 6))
		if cur {
			p.w, p.h = int(ref.U16(d, 0)), int(ref.U16(d, 2))
			if len(img) < 4 {
				return nil, fmt.Errorf("image %d has no hot spot", ref.U16(d, 12))
			}
			p.x, p.y = int(ref.U16(img, 0)), int(ref.U16(img, 2))
			p.data = img[4:]
		} else {
			p.w, p.h = full(d[0]), full(d[1])
			p.colors, p.resv = int(d[2]), int(d[3])
			p.data = img
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// firstTranslations finds the data of every resource of a type in its lowest language.
func firstTranslations(m model, t ref.Ident) map[ref.Ident][]byte {
	best := map[ref.Ident]uint32{}
	out := map[ref.Ident][]byte{}
	for k, d := range m {
		if k.Type != t {
			continue
		}
		if l, ok := best[k.Res]; !ok || k.Lang < l {
			best[k.Res], out[k.Res] = k.Lang, d
		}
	}
	return out
}

// firstTranslation finds the data of a resource in its lowest language.
func firstTranslation(m model, t, r ref.Ident) (data []byte, ok bool) {
	best := uint32(1 << 20)
	for k, d := range m {
		if k.Type == t && k.Res == r && k.Lang < best {
			best, data, ok = k.Lang, d, true
		}
	}
	return
}

// grp abstracts icons and cursors.
type grp struct {
	cur   bool
	icon  *winres.Icon
	cursr *winres.Cursor
}

func loadGrp(cur bool, b []byte) (g grp, err error) {
	g.cur = cur
	if cur {
		g.cursr, err = winres.LoadCUR(bytes.NewReader(b))
	} else {
		g.icon, err = winres.LoadICO(bytes.NewReader(b))
	}
	return
}

func getGrp(cur bool, rs *winres.ResourceSet, res ref.Ident, lang uint16) (g grp, err error) {
	g.cur = cur
	if cur {
		g.cursr, err = rs.GetCursorTranslation(wid(res), lang)
	} else {
		g.icon, err = rs.GetIconTranslation(wid(res), lang)
	}
	return
}

func getGrpFirst(cur bool, rs *winres.ResourceSet, res ref.Ident) (g grp, err error) {
	g.cur = cur
	if cur {
		g.cursr, err = rs.GetCursor(wid(res))
	} else {
		g.icon, err = rs.GetIcon(wid(res))
	}
	return
}

func (g grp) set(rs *winres.ResourceSet, res ref.Ident, lang uint16, short bool) error {
	switch {
	case g.cur && short && lang == 0:
		return rs.SetCursor(wid(res), g.cursr)
	case g.cur:
		return rs.SetCursorTranslation(wid(res), lang, g.cursr)
	case short && lang == 0:
		return rs.SetIcon(wid(res), g.icon)
	}
	return rs.SetIconTranslation(wid(res), lang, g.icon)
}

func (g grp) save() ([]byte, error) {
	var buf bytes.Buffer
	var err error
	if g.cur {
		err = g.cursr.SaveCUR(&buf)
	} else {
		err = g.icon.SaveICO(&buf)
	}
	return buf.Bytes(), err
}

// checkSaved verifies that saving gives a strictly valid file with exactly these images, in order.
func (g grp) checkSaved(r *mc.Run, want []pic, what string) {
	b, err := g.save()
	if err != nil {
		r.Failf("%s: save: %v", what, err)
	}
	typ := uint16(1)
	if g.cur {
		typ = 2
	}
	es, err := ref.ParseIco(typ, b)
	if err != nil {
		r.Failf("%s: the saved file is invalid: %v", what, err)
	}
	if len(es) != len(want) {
		r.Failf("%s: %d images saved, want %d", what, len(es), len(want))
	}
	for i, e := range es {
		w := want[i]
		got := pic{w: full(e.W), h: full(e.H), colors: int(e.Colors), resv: int(e.Reserved), data: e.Data}
		if g.cur {
			got.x, got.y = int(e.Planes), int(e.BitCount)
			got.planes, got.bits = w.planes, w.bits // not in the file
			w.w, w.h = (w.w-1)&0xFF+1, (w.h-1)&0xFF+1
		} else {
			got.planes, got.bits = int(e.Planes), int(e.BitCount)
		}
		if !got.same(w) {
			r.Failf("%s: image %d saved as %v, want %v", what, i, got, w)
		}
	}
}

// groupData makes a group resource.
func groupData(cur bool, es []groupEntry) []byte {
	var b bytes.Buffer
	typ := uint16(1)
	if cur {
		typ = 2
	}
	binary.Write(&b, binary.LittleEndian, []uint16{0, typ, uint16(len(es))})
	for _, e := range es {
		if cur {
			binary.Write(&b, binary.LittleEndian, []uint16{uint16(e.p.w), uint16(e.p.h), uint16(e.p.planes), uint16(e.p.bits)})
			binary.Write(&b, binary.LittleEndian, uint32(len(e.p.data)+4))
		} else {
			b.Write([]byte{byte(e.p.w), byte(e.p.h), byte(e.p.colors), byte(e.p.resv)})
			binary.Write(&b, binary.LittleEndian, []uint16{uint16(e.p.planes), uint16(e.p.bits)})
			binary.Write(&b, binary.LittleEndian, uint32(len(e.p.data)))
		}
		binary.Write(&b, binary.LittleEndian, e.id)
	}
	return b.Bytes()
}

type groupEntry struct {
	p  pic
	id uint16
}

// imageData is the image as a resource.
func (p pic) imageData(cur bool) []byte {
	if !cur {
		return p.data
	}
	b := make([]byte, 4, 4+len(p.data))
	ref.PutU16(b, 0, uint16(p.x))
	ref.PutU16(b, 2, uint16(p.y))
	return append(b, p.data...)
}

// entry is the image in an ICO or CUR file.
func (p pic) entry(cur bool) ref.IcoEntry {
	e := ref.IcoEntry{W: uint8(p.w), H: uint8(p.h), Colors: uint8(p.colors), Reserved: uint8(p.resv), Planes: uint16(p.planes), BitCount: uint16(p.bits), Data: p.data}
	if cur {
		e.Planes, e.BitCount = uint16(p.x), uint16(p.y)
	}
	return e
}

func entries(cur bool, ps []pic) []ref.IcoEntry {
	var es []ref.IcoEntry
	for _, p := range ps {
		es = append(es, p.entry(cur))
	}
	return es
}
