package ref

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"sort"
)

// IcoEntry is one image of an ICO or CUR file. For cursors, Planes and BitCount are the hot spot.
type IcoEntry struct {
	W, H, Colors, Reserved uint8
	Planes, BitCount       uint16
	Data                   []byte
}

func (e IcoEntry) String() string {
	return fmt.Sprintf("{%dx%d c%d r%d p%d b%d %s}", e.W, e.H, e.Colors, e.Reserved, e.Planes, e.BitCount, Hex(e.Data))
}

// IcoStyle is how the file is laid out.
type IcoStyle struct {
	Gap     int  // bytes between images
	Reverse bool // data in reverse order
	Tail    int  // bytes at the end
	Shared  bool // identical images share their data
}

// BuildIco builds an ICO (typ 1) or CUR (typ 2) file.
func BuildIco(typ uint16, es []IcoEntry, st IcoStyle) []byte {
	b := make([]byte, 6+16*len(es))
	PutU16(b, 2, typ)
	PutU16(b, 4, uint16(len(es)))
	offs := make([]int, len(es))
	var order []int
	for i := range es {
		order = append(order, i)
	}
	if st.Reverse {
		sort.Sort(sort.Reverse(sort.IntSlice(order)))
	}
	for _, i := range order {
		if st.Shared {
			found := false
			for j := range es {
				if offs[j] != 0 && bytes.Equal(es[i].Data, es[j].Data) {
					offs[i] = offs[j]
					found = true
					break
				}
			}
			if found {
				continue
			}
		}
		b = append(b, Pattern(st.Gap, 77)...)
		offs[i] = len(b)
		b = append(b, es[i].Data...)
	}
	b = append(b, Pattern(st.Tail, 78)...)
	for i, e := range es {
		d := b[6+16*i:]
		d[0], d[1], d[2], d[3] = e.W, e.H, e.Colors, e.Reserved
		PutU16(d, 4, e.Planes)
		PutU16(d, 6, e.BitCount)
		PutU32(d, 8, uint32(len(e.Data)))
		PutU32(d, 12, uint32(offs[i]))
	}
	return b
}

// ParseIco strictly parses an ICO or CUR file: every image in bounds, nothing overlaps, nothing is left over.
func ParseIco(typ uint16, b []byte) ([]IcoEntry, error) {
	if len(b) < 6 {
		return nil, fmt.Errorf("file of %d bytes", len(b))
	}
	if U16(b, 0) != 0 || U16(b, 2) != typ {
		return nil, fmt.Errorf("header %x", b[:6])
	}
	n := int(U16(b, 4))
	if len(b) < 6+16*n {
		return nil, fmt.Errorf("%d entries in %d bytes", n, len(b))
	}
	var out []IcoEntry
	var spans []span
	for i := 0; i < n; i++ {
		d := b[6+16*i:]
		e := IcoEntry{W: d[0], H: d[1], Colors: d[2], Reserved: d[3], Planes: U16(d, 4), BitCount: U16(d, 6)}
		sz, off := uint64(U32(d, 8)), uint64(U32(d, 12))
		if off < uint64(6+16*n) || off+sz > uint64(len(b)) {
			return nil, fmt.Errorf("image %d at %#x-%#x is out of bounds", i, off, off+sz)
		}
		e.Data = b[off : off+sz]
		spans = append(spans, span{int64(off), int64(off + sz), fmt.Sprint("image ", i)})
		out = append(out, e)
	}
	sort.SliceStable(spans, func(i, j int) bool { return spans[i].from < spans[j].from })
	end := int64(6 + 16*n)
	for _, s := range spans {
		if s.from != end {
			return nil, fmt.Errorf("%s starts at %#x, the previous one ends at %#x", s.what, s.from, end)
		}
		end = s.to
	}
	if end != int64(len(b)) {
		return nil, fmt.Errorf("%d extra bytes", int64(len(b))-end)
	}
	return out, nil
}

// DIB builds a device independent bitmap header followed by n bytes.
func DIB(hdr uint32, w, h int, planes, bits uint16, n int, seed byte) []byte {
	b := make([]byte, hdr)
	PutU32(b, 0, hdr)
	PutU32(b, 4, uint32(w))
	PutU32(b, 8, uint32(2*h))
	PutU16(b, 12, planes)
	PutU16(b, 14, bits)
	return append(b, Pattern(n, seed)...)
}

// PNG encodes a w x h image.
func PNG(w, h int, seed byte) []byte {
	img := image.NewNRGBA(image.Rect(0, 0, w, h))
	for i := range img.Pix {
		img.Pix[i] = byte(i)*31 + seed
	}
	var buf bytes.Buffer
	if err := png.Encode(&buf, img); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// NRGBA returns the exact non premultiplied color of a pixel.
func NRGBA(c color.Color) color.NRGBA { return color.NRGBAModel.Convert(c).(color.NRGBA) }
