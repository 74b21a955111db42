package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"sort"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C19: NewIconFromImages. C20: NewCursorFromImages. C21: NewIconFromResizedImage.

func init() {
	for _, cur := range []bool{false, true} {
		cur := cur
		pid := "C19"
		if cur {
			pid = "C20"
		}
		register(&Property{
			ID:          pid,
			Rule:        "one execution per list of images; every image written is decoded and compared pixel by pixel; distinct_nontrivial counts distinct inputs",
			Assumptions: []string{"colors are compared after conversion to 8 bit non premultiplied color; the color of fully transparent pixels does not matter", "when the margins cannot be equal, they may differ by one pixel either way"},
			Scenarios: []mc.Scenario{
				{Name: "small images", Weight: 3, Run: func(r *mc.Run) { c19Small(r, cur) }},
				{Name: "dimensions", Weight: 3, Run: func(r *mc.Run) { c19Dims(r, cur) }},
				{Name: "bit patterns", Weight: 2, Run: func(r *mc.Run) { c19Bits(r, cur) }},
				{Name: "lists", Weight: 2, Run: func(r *mc.Run) { c19Lists(r, cur) }},
				{Name: "refused", Run: func(r *mc.Run) { c19Refused(r, cur) }},
			},
		})
	}
	register(&Property{
		ID:          "C21",
		Rule:        "one execution per (source, list of sizes); every image written is decoded; distinct_nontrivial counts distinct inputs",
		Assumptions: []string{"the resampling filter belongs to another package: only uniform colors, orientation, dimensions and margins are judged"},
		Scenarios: []mc.Scenario{
			{Name: "dimensions", Weight: 4, Run: c21Dims},
			{Name: "sizes", Weight: 3, Run: c21Sizes},
			{Name: "lists", Weight: 2, Run: c21Lists},
			{Name: "refused", Run: c21Refused},
		},
	})
}

// custom is an image of a type the library has never seen.
type custom struct {
	r     image.Rectangle
	model color.Model
	f     func(x, y int) color.Color
}

func (c *custom) ColorModel() color.Model { return c.model }
func (c *custom) Bounds() image.Rectangle { return c.r }
func (c *custom) At(x, y int) color.Color { return c.f(x, y) }

const imageKinds = 20

var imageKindNames = []string{"NRGBA", "RGBA", "Gray", "Gray16", "Alpha", "Alpha16", "Paletted", "NRGBA64", "RGBA64", "CMYK", "YCbCr", "NYCbCrA", "custom NRGBA", "custom RGBA64", "NRGBA sub-image", "RGBA sub-image", "Paletted sub-image", "custom unbounded", "Paletted opaque", "custom alpha"}

// makeImage builds an image of a kind, w x h with the given origin, from a function of relative coordinates.
func makeImage(kind, w, h, ox, oy int, f func(x, y int) color.NRGBA) image.Image {
	if imageKindNames[kind] == "YCbCr" {
		ox, oy = ox&0xFFFF&^1, oy&0xFFFF&^1 // Go's own YCbCr images panic with some negative origins
	}
	rect := image.Rect(ox, oy, ox+w, oy+h)
	fill := func(set func(x, y int, c color.Color)) {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				set(x+ox, y+oy, f(x, y))
			}
		}
	}
	big := image.Rect(ox-3, oy-2, ox+w+5, oy+h+4)
	junk := func(set func(x, y int, c color.Color)) {
		for y := big.Min.Y; y < big.Max.Y; y++ {
			for x := big.Min.X; x < big.Max.X; x++ {
				set(x, y, color.NRGBA{200, uint8(x * 7), uint8(y * 5), 150})
			}
		}
	}
	pal := color.Palette{color.NRGBA{}, color.NRGBA{1, 2, 3, 255}, color.NRGBA{255, 0, 0, 255}, color.NRGBA{9, 8, 7, 128}, color.NRGBA{250, 251, 252, 1}, color.NRGBA{0, 255, 9, 254}}
	switch imageKindNames[kind] {
	case "NRGBA":
		m := image.NewNRGBA(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "RGBA":
		m := image.NewRGBA(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "Gray":
		m := image.NewGray(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "Gray16":
		m := image.NewGray16(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "Alpha":
		m := image.NewAlpha(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "Alpha16":
		m := image.NewAlpha16(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "Paletted", "Paletted opaque":
		if imageKindNames[kind] == "Paletted opaque" {
			pal = color.Palette{color.NRGBA{0, 0, 0, 255}, color.NRGBA{1, 200, 3, 255}, color.NRGBA{255, 0, 90, 255}}
		}
		m := image.NewPaletted(rect, pal)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "NRGBA64":
		m := image.NewNRGBA64(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "RGBA64":
		m := image.NewRGBA64(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "CMYK":
		m := image.NewCMYK(rect)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m
	case "YCbCr":
		m := image.NewYCbCr(rect, image.YCbCrSubsampleRatio420)
		for i := range m.Y {
			m.Y[i] = byte(i*13 + w)
		}
		for i := range m.Cb {
			m.Cb[i], m.Cr[i] = byte(i*31), byte(255-i*17)
		}
		return m
	case "NYCbCrA":
		m := image.NewNYCbCrA(rect, image.YCbCrSubsampleRatio444)
		for i := range m.Y {
			m.Y[i], m.A[i] = byte(i*13+w), byte(i*29)
		}
		for i := range m.Cb {
			m.Cb[i], m.Cr[i] = byte(i*31), byte(255-i*17)
		}
		return m
	case "custom NRGBA":
		return &custom{rect, color.NRGBAModel, func(x, y int) color.Color { return f(x-ox, y-oy) }}
	case "custom RGBA64":
		return &custom{rect, color.RGBA64Model, func(x, y int) color.Color { return color.RGBA64Model.Convert(f(x-ox, y-oy)) }}
	case "NRGBA sub-image":
		m := image.NewNRGBA(big)
		junk(m.Set)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m.SubImage(rect)
	case "RGBA sub-image":
		m := image.NewRGBA(big)
		junk(m.Set)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m.SubImage(rect)
	case "Paletted sub-image":
		m := image.NewPaletted(big, pal)
		junk(m.Set)
		fill(func(x, y int, c color.Color) { m.Set(x, y, c) })
		return m.SubImage(rect)
	case "custom unbounded":
		// At gives colors out of the bounds too
		return &custom{rect, color.NRGBAModel, func(x, y int) color.Color { return color.NRGBA{uint8(x * 3), uint8(y * 5), 77, uint8(x*y*11 + 100)} }}
	case "custom alpha":
		return &custom{rect, color.AlphaModel, func(x, y int) color.Color { return color.AlphaModel.Convert(f(x-ox, y-oy)) }}
	}
	panic("harness: image kind")
}

const patterns = 9

// pattern is a function of coordinates.
func pattern(k int) func(x, y int) color.NRGBA {
	alphas := []uint8{0, 1, 2, 127, 128, 254, 255}
	switch k {
	case 0: // all kinds of transparency
		return func(x, y int) color.NRGBA {
			return color.NRGBA{uint8(x*37 + 11), uint8(y*53 + 7), uint8(x*y + 3), alphas[(x+2*y)%7]}
		}
	case 1: // opaque
		return func(x, y int) color.NRGBA { return color.NRGBA{uint8(x*37 + 11), uint8(y*53 + 7), uint8(x*y + 3), 255} }
	case 2: // fully transparent
		return func(x, y int) color.NRGBA { return color.NRGBA{} }
	case 3: // one pixel is not opaque
		return func(x, y int) color.NRGBA {
			c := color.NRGBA{uint8(x*5 + y), uint8(255 - x), uint8(y), 255}
			if x == 0 && y == 0 {
				c.A = 254
			}
			return c
		}
	case 4: // one pixel is not transparent
		return func(x, y int) color.NRGBA {
			if x == 0 && y == 0 {
				return color.NRGBA{255, 254, 253, 1}
			}
			return color.NRGBA{}
		}
	case 5: // black and opaque
		return func(x, y int) color.NRGBA { return color.NRGBA{0, 0, 0, 255} }
	case 6: // white, half transparent
		return func(x, y int) color.NRGBA { return color.NRGBA{255, 255, 255, 128} }
	case 7: // transparent, but colored
		return func(x, y int) color.NRGBA { return color.NRGBA{uint8(x), 200, uint8(y), 0} }
	default: // almost transparent
		return func(x, y int) color.NRGBA { return color.NRGBA{uint8(x * 70), uint8(y * 90), 255, 1} }
	}
}

// c19Image is one image given to the library.
type c19Image struct {
	img  image.Image
	x, y int
	what string
}

func (i c19Image) side() int {
	s := i.img.Bounds().Size()
	if s.X > s.Y {
		return s.X
	}
	return s.Y
}

func c19Make(kind, w, h, ox, oy, pat int) c19Image {
	return c19Image{img: makeImage(kind, w, h, ox, oy, pattern(pat)), what: fmt.Sprintf("%s %dx%d at %d,%d pattern %d", imageKindNames[kind], w, h, ox, oy, pat)}
}

// makeGrp calls the constructor.
func makeGrp(cur bool, imgs []c19Image) (g grp, err error) {
	g.cur = cur
	if cur {
		var l []winres.CursorImage
		for _, i := range imgs {
			l = append(l, winres.CursorImage{Image: i.img, HotSpot: winres.HotSpot{X: uint16(i.x), Y: uint16(i.y)}})
		}
		g.cursr, err = winres.NewCursorFromImages(l)
	} else {
		var l []image.Image
		for _, i := range imgs {
			l = append(l, i.img)
		}
		g.icon, err = winres.NewIconFromImages(l)
	}
	return
}

// c19Check judges the result of the constructor.
func c19Check(r *mc.Run, cur bool, imgs []c19Image) {
	what := ""
	for _, i := range imgs {
		what += fmt.Sprintf("[%s hot %d,%d]", i.what, i.x, i.y)
	}
	r.Logf("%s", what)
	r.Step()
	g, err := makeGrp(cur, imgs)
	must(r, err, what)
	want := append([]c19Image(nil), imgs...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].side() > want[j].side() })
	decodeGrp(r, g, want, what)
	r.StateStr(what)
}

func decodeGrp(r *mc.Run, g grp, want []c19Image, what string) {
	typ := uint16(1)
	if g.cur {
		typ = 2
	}
	b, err := g.save()
	must(r, err, what+": save")
	es, err := ref.ParseIco(typ, b)
	if err != nil {
		r.Failf("%s: the saved file is invalid: %v", what, err)
	}
	if len(es) != len(want) {
		r.Failf("%s: %d images, want %d", what, len(es), len(want))
	}
	for i, e := range es {
		side := want[i].side()
		if full(e.W) != side || full(e.H) != side {
			r.Failf("%s: image %d is declared as %dx%d, want %d", what, i, full(e.W), full(e.H), side)
		}
		var at func(x, y int) color.NRGBA
		if g.cur {
			if int(e.Planes) != want[i].x || int(e.BitCount) != want[i].y {
				r.Failf("%s: image %d has hot spot %d,%d, want %d,%d", what, i, e.Planes, e.BitCount, want[i].x, want[i].y)
			}
			at = dib32(r, e.Data, side, fmt.Sprintf("%s: image %d", what, i))
		} else {
			if e.Colors != 0 || e.Reserved != 0 || e.Planes != 1 || e.BitCount != 32 {
				r.Failf("%s: image %d is declared with %d colors (%d), %d planes and %d bits", what, i, e.Colors, e.Reserved, e.Planes, e.BitCount)
			}
			at = png32(r, e.Data, side, fmt.Sprintf("%s: image %d", what, i))
		}
		c19Pixels(r, g.cur, want[i], side, at, fmt.Sprintf("%s: image %d", what, i))
	}
	if g.cur {
		rs := &winres.ResourceSet{}
		must(r, g.set(rs, id(1), 0, true), what+": store")
		m := model{}
		for _, x := range collect(rs) {
			m[x.Key] = x.Data
		}
		ps, err := readGroup(true, m, id(1), 0)
		if err != nil || len(ps) != len(want) {
			r.Failf("%s: the stored group is invalid: %v", what, err)
		}
		sizesMatch(r, true, m, id(1), 0, what)
		for i, p := range ps {
			side := want[i].side()
			if p.w != side || p.h != side || p.planes != 1 || p.bits != 32 || p.x != want[i].x || p.y != want[i].y || !bytes.Equal(p.data, es[i].Data) {
				r.Failf("%s: image %d stored as %v", what, i, p)
			}
		}
	}
}

// png32 decodes a PNG image of the given side.
func png32(r *mc.Run, d []byte, side int, what string) func(x, y int) color.NRGBA {
	rd := bytes.NewReader(d)
	img, err := png.Decode(rd)
	if err != nil {
		r.Failf("%s is not a valid PNG: %v", what, err)
	}
	if rd.Len() != 0 {
		r.Failf("%s is followed by %d bytes", what, rd.Len())
	}
	if s := img.Bounds().Size(); s.X != side || s.Y != side {
		r.Failf("%s is %v, want %d", what, s, side)
	}
	// 32 bits are declared: true color, the alpha channel being optional
	if depth, kind := d[24], d[25]; depth != 8 || kind != 2 && kind != 6 {
		r.Failf("%s has depth %d and color type %d, although 32 bits per pixel are declared", what, depth, kind)
	}
	o := img.Bounds().Min
	return func(x, y int) color.NRGBA { return ref.NRGBA(img.At(x+o.X, y+o.Y)) }
}

// dib32 reads a 32 bit cursor DIB of the given side.
func dib32(r *mc.Run, d []byte, side int, what string) func(x, y int) color.NRGBA {
	if len(d) < 40 || ref.U32(d, 0) != 40 {
		r.Failf("%s does not start with a BITMAPINFOHEADER", what)
	}
	if w, h := ref.U32(d, 4), ref.U32(d, 8); int(w) != side || int(h) != 2*side {
		r.Failf("%s has a header that says %dx%d, want %dx%d", what, w, h, side, 2*side)
	}
	if p, b, c := ref.U16(d, 12), ref.U16(d, 14), ref.U32(d, 16); p != 1 || b != 32 || c != 0 {
		r.Failf("%s has %d planes, %d bits, compression %d", what, p, b, c)
	}
	if n := ref.U32(d, 32); n != 0 {
		r.Failf("%s has a palette of %d colors", what, n)
	}
	if n := int(ref.U32(d, 20)); n != 0 && n != len(d)-40 {
		r.Failf("%s says its data has %d bytes, it has %d", what, n, len(d)-40)
	}
	if len(d) != 40+4*side*side {
		r.Failf("%s has %d bytes of data, want %d", what, len(d)-40, 4*side*side)
	}
	return func(x, y int) color.NRGBA {
		o := 40 + 4*((side-1-y)*side+x)
		return color.NRGBA{R: d[o+2], G: d[o+1], B: d[o], A: d[o+3]}
	}
}

func c19Pixels(r *mc.Run, cur bool, w c19Image, side int, at func(x, y int) color.NRGBA, what string) {
	bnd := w.img.Bounds()
	size := bnd.Size()
	try := func(dx, dy int) string {
		for y := 0; y < side; y++ {
			for x := 0; x < side; x++ {
				var c color.NRGBA
				if x >= dx && x < dx+size.X && y >= dy && y < dy+size.Y {
					c = ref.NRGBA(w.img.At(bnd.Min.X+x-dx, bnd.Min.Y+y-dy))
				}
				g := at(x, y)
				if g != c && (g.A != 0 || c.A != 0) {
					return fmt.Sprintf("pixel %d,%d is %v, want %v", x, y, g, c)
				}
			}
		}
		return ""
	}
	dx, dy := 0, 0
	if !cur {
		dx, dy = (side-size.X)/2, (side-size.Y)/2
	}
	msg := try(dx, dy)
	if msg != "" && !cur && ((side-size.X)&1 == 1 || (side-size.Y)&1 == 1) {
		if try(side-size.X-dx, side-size.Y-dy) == "" {
			return
		}
	}
	if msg != "" {
		r.Failf("%s: %s", what, msg)
	}
}

// c19Small: every small size, kind, pattern and origin.
func c19Small(r *mc.Run, cur bool) {
	n := 4
	if r.Thorough {
		n = 8
	}
	w, h := 1+r.Pick(n), 1+r.Pick(n)
	kind := r.Pick(imageKinds)
	pat := r.Pick(patterns)
	o := [][2]int{{0, 0}, {-2, 5}, {7, -3}, {100000, -100000}}[r.Pick(4)]
	i := c19Make(kind, w, h, o[0], o[1], pat)
	i.x, i.y = w-1, h
	c19Check(r, cur, []c19Image{i})
}

// c19Dims: dimensions up to 256.
func c19Dims(r *mc.Run, cur bool) {
	dims := []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256}
	var w, h int
	if r.Thorough {
		w = 1 + r.Pick(256)
		h = dims[r.Pick(len(dims))]
		if r.Bool() {
			w, h = h, w
		}
	} else {
		w, h = dims[r.Pick(len(dims))], dims[r.Pick(len(dims))]
	}
	kind := []int{0, 1, 14, 12}[r.Pick(4)]
	if r.Thorough && kind > 1 {
		r.Prune()
	}
	pat := r.Pick(2)
	o := [][2]int{{0, 0}, {-200, 31}}[r.Pick(2)]
	c19Check(r, cur, []c19Image{c19Make(kind, w, h, o[0], o[1], pat)})
}

// c19Bits: every image of a few pixels over a small palette.
func c19Bits(r *mc.Run, cur bool) {
	cols := []color.NRGBA{{}, {10, 20, 30, 255}, {255, 128, 0, 1}, {1, 2, 255, 254}}
	dims := [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}}
	d := dims[r.Pick(len(dims))]
	px := make([]color.NRGBA, d[0]*d[1])
	what := ""
	for i := range px {
		k := r.Pick(len(cols))
		px[i] = cols[k]
		what += fmt.Sprint(k)
	}
	kind := []int{0, 1, 12, 7}[r.Pick(4)]
	img := makeImage(kind, d[0], d[1], 0, 0, func(x, y int) color.NRGBA { return px[y*d[0]+x] })
	c19Check(r, cur, []c19Image{{img: img, what: fmt.Sprintf("%s %v pixels %s", imageKindNames[kind], d, what)}})
}

// c19Lists: lists of images and hot spots.
func c19Lists(r *mc.Run, cur bool) {
	n := r.Pick(5)
	var l []c19Image
	dims := [][2]int{{16, 16}, {16, 8}, {3, 16}, {256, 1}, {1, 1}}
	for i := 0; i < n; i++ {
		d := dims[r.Pick(len(dims))]
		img := c19Make((i*5+1)%imageKinds, d[0], d[1], i, -i, i%patterns)
		if cur {
			hs := [][2]int{{0, 0}, {1, 2}, {255, 256}, {0xFFFF, 0x1234}, {0x100, 0}}[(i*2+n)%5]
			img.x, img.y = hs[0], hs[1]
		}
		l = append(l, img)
	}
	c19Check(r, cur, l)
}

// c19Refused: empty and large images, alone or in a list.
func c19Refused(r *mc.Run, cur bool) {
	w := []int{0, 1, 256, 257, 1000, -1, 65536, 65537}[r.Pick(8)]
	h := []int{0, 1, 256, 257, 1000, -1, 65536, 65537}[r.Pick(8)]
	rect := image.Rectangle{Max: image.Point{X: w, Y: h}}
	var img image.Image
	switch r.Pick(3) {
	case 0:
		img = &custom{rect, color.NRGBAModel, func(x, y int) color.Color { return color.NRGBA{1, 2, 3, 4} }}
	case 1:
		if w < 0 || h < 0 || w*h > 1<<20 {
			r.Prune()
		}
		img = image.NewNRGBA(rect)
	case 2:
		rect = rect.Add(image.Pt(-70000, 3))
		img = &custom{rect, color.RGBAModel, func(x, y int) color.Color { return color.RGBA{1, 2, 3, 4} }}
	}
	good := c19Make(0, 16, 16, 0, 0, 0)
	bad := c19Image{img: img, what: fmt.Sprint(rect)}
	l := [][]c19Image{{bad}, {good, bad}, {bad, good}}[r.Pick(3)]
	valid := w >= 1 && h >= 1 && w <= 256 && h <= 256
	r.Logf("%v", rect)
	if valid {
		c19Check(r, cur, l)
		return
	}
	r.Step()
	g, err := makeGrp(cur, l)
	if err == nil {
		r.Failf("an image of %v was accepted", rect)
	}
	if g.icon != nil || g.cursr != nil {
		r.Failf("an image of %v was refused, but something was returned", rect)
	}
	r.StateStr(fmt.Sprint(rect, len(l)))
}

// C21

// c21Source is a source image: uniform, or with a different color in each quarter.
func c21Source(kind, w, h, ox, oy int, uniform bool) image.Image {
	return makeImage(kind, w, h, ox, oy, func(x, y int) color.NRGBA {
		if uniform {
			return color.NRGBA{200, 100, 50, 255}
		}
		c := color.NRGBA{A: 255}
		if 2*x >= w {
			c.R = 255
		}
		if 2*y >= h {
			c.G = 255
		}
		return c
	})
}

func c21Check(r *mc.Run, img image.Image, uniform bool, sizes []int, what string) {
	r.Logf("%s sizes %v", what, sizes)
	r.Step()
	icon, err := winres.NewIconFromResizedImage(img, sizes)
	what = fmt.Sprintf("%s resized to %v", what, sizes)
	must(r, err, what)
	g := grp{icon: icon}
	b, err := g.save()
	must(r, err, what)
	es, err := ref.ParseIco(1, b)
	if err != nil {
		r.Failf("%s: the saved file is invalid: %v", what, err)
	}
	want := append([]int(nil), sizes...)
	if sizes == nil {
		want = []int{256, 64, 48, 32, 16}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(want)))
	if len(es) != len(want) {
		r.Failf("%s: %d images, want %d", what, len(es), len(want))
	}
	src := img.Bounds().Size()
	for i, e := range es {
		side := want[i]
		if full(e.W) != side || full(e.H) != side || e.Planes != 1 || e.BitCount != 32 || e.Colors != 0 {
			r.Failf("%s: image %d declared as %v, want %d", what, i, e, side)
		}
		at := png32(r, e.Data, side, fmt.Sprintf("%s: image %d", what, i))
		// the scaled image
		x0, y0, x1, y1 := side, side, -1, -1
		for y := 0; y < side; y++ {
			for x := 0; x < side; x++ {
				if at(x, y).A != 0 {
					x0, y0 = min(x0, x), min(y0, y)
					x1, y1 = max(x1, x), max(y1, y)
				}
			}
		}
		if x1 < 0 {
			r.Failf("%s: image %d is empty", what, i)
		}
		gw, gh := x1-x0+1, y1-y0+1
		ww, wh := float64(side), float64(side)
		if src.X > src.Y {
			wh = math.Max(1, float64(side)*float64(src.Y)/float64(src.X))
		} else {
			ww = math.Max(1, float64(side)*float64(src.X)/float64(src.Y))
		}
		if math.Abs(float64(gw)-ww) >= 1 || math.Abs(float64(gh)-wh) >= 1 {
			r.Failf("%s: the scaled image is %dx%d in image %d (%d), want %.2fx%.2f", what, gw, gh, i, side, ww, wh)
		}
		if l, rr := x0, side-1-x1; l-rr > 1 || rr-l > 1 {
			r.Failf("%s: margins of image %d are %d and %d", what, i, l, rr)
		}
		if t, bt := y0, side-1-y1; t-bt > 1 || bt-t > 1 {
			r.Failf("%s: vertical margins of image %d are %d and %d", what, i, t, bt)
		}
		for y := y0; y <= y1; y++ {
			for x := x0; x <= x1; x++ {
				c := at(x, y)
				if c.A != 255 {
					r.Failf("%s: pixel %d,%d of image %d is not opaque: %v", what, x, y, i, c)
				}
				if uniform && c != (color.NRGBA{200, 100, 50, 255}) {
					r.Failf("%s: pixel %d,%d of image %d is %v", what, x, y, i, c)
				}
			}
		}
		if !uniform {
			near := func(v uint8, want bool) bool { return want && v > 180 || !want && v < 75 }
			for _, cx := range []bool{false, true} {
				for _, cy := range []bool{false, true} {
					x, y := x0, y0
					if cx {
						x = x1
					}
					if cy {
						y = y1
					}
					c := at(x, y)
					if gw >= 4 && src.X >= 4 && src.X%2 == 0 && !near(c.R, cx) || gh >= 4 && src.Y >= 4 && src.Y%2 == 0 && !near(c.G, cy) || c.B > 40 {
						r.Failf("%s: corner pixel %d,%d of image %d is %v", what, x, y, i, c)
					}
				}
			}
		}
	}
	r.StateStr(what)
}

var c21Kinds = []int{0, 1, 12, 13, 14, 15, 7, 8}

func c21Dims(r *mc.Run) {
	dims := []int{1, 2, 3, 4, 5, 8, 15, 16, 17, 33, 48, 63, 64, 100, 255, 256, 257, 512}
	if r.Thorough {
		dims = append(dims, 6, 7, 9, 10, 12, 31, 32, 65, 99, 101, 127, 128, 129, 254, 258, 300, 1000)
	}
	w, h := dims[r.Pick(len(dims))], dims[r.Pick(len(dims))]
	kind := c21Kinds[r.Pick(3)]
	uniform := r.Bool()
	size := []int{1, 2, 3, 15, 16, 17, 48}[r.Pick(7)]
	c21Check(r, c21Source(kind, w, h, -3, 9, uniform), uniform, []int{size}, fmt.Sprintf("%s %dx%d uniform=%v", imageKindNames[kind], w, h, uniform))
}

// c21Sizes: every size.
func c21Sizes(r *mc.Run) {
	size := 1 + r.Pick(256)
	dims := [][2]int{{16, 16}, {16, 10}, {3, 64}, {256, 255}, {100, 1}}
	d := dims[r.Pick(len(dims))]
	kinds := c21Kinds[:1]
	if r.Thorough {
		kinds = c21Kinds
	}
	kind := kinds[r.Pick(len(kinds))]
	uniform := r.Bool()
	c21Check(r, c21Source(kind, d[0], d[1], 0, 0, uniform), uniform, []int{size}, fmt.Sprintf("%s %dx%d uniform=%v", imageKindNames[kind], d[0], d[1], uniform))
}

func c21Lists(r *mc.Run) {
	var sizes []int
	switch r.Pick(5) {
	case 0:
		sizes = nil
	case 1:
		sizes = []int{}
	case 2:
		for i := 0; i < 30; i++ {
			sizes = append(sizes, i+1)
		}
	case 3:
		for i := 0; i < 30; i++ {
			sizes = append(sizes, 16)
		}
	default:
		n := 2
		if r.Thorough {
			n += r.Pick(2)
		}
		for i := 0; i < n; i++ {
			sizes = append(sizes, []int{16, 32, 256, 1}[r.Pick(4)])
		}
	}
	dims := [][2]int{{16, 16}, {32, 20}, {7, 9}}
	d := dims[r.Pick(len(dims))]
	uniform := r.Bool()
	kinds := []int{0, 13, 14}
	if r.Thorough {
		kinds = c21Kinds
	}
	kind := kinds[r.Pick(len(kinds))]
	c21Check(r, c21Source(kind, d[0], d[1], 5, 5, uniform), uniform, sizes, fmt.Sprintf("%s %dx%d uniform=%v", imageKindNames[kind], d[0], d[1], uniform))
}

func c21Refused(r *mc.Run) {
	img := c21Source(0, 20, 16+4*r.Pick(2), 0, 0, true)
	var sizes []int
	switch r.Pick(4) {
	case 0:
		sizes = []int{[]int{0, -1, 257, 300, -16, math.MinInt32, math.MaxInt32, 1 << 40, 512, 65536 + 16, 1<<32 + 16}[r.Pick(11)]}
	case 1:
		sizes = []int{16, []int{0, -1, 257, 300}[r.Pick(4)]}
	case 2:
		sizes = []int{[]int{0, -1, 257, 300}[r.Pick(4)], 16}
	case 3:
		n := []int{31, 32, 100, 300}[r.Pick(4)]
		for i := 0; i < n; i++ {
			sizes = append(sizes, 1+i%16)
		}
	}
	if r.Bool() {
		img = c21Source(0, 300, 300, 0, 0, true)
	}
	r.Logf("%v %v", img.Bounds(), sizes)
	r.Step()
	icon, err := winres.NewIconFromResizedImage(img, sizes)
	if err == nil || icon != nil {
		r.Failf("sizes %v were accepted for an image of %v", sizes, img.Bounds().Size())
	}
	r.Step()
	if icon, err := winres.NewIconFromResizedImage(image.NewNRGBA(image.Rect(0, 0, 0, 5*r.Pick(2))), []int{16}); err == nil || icon != nil {
		r.Failf("an empty image was accepted")
	}
	r.StateStr(fmt.Sprint(img.Bounds(), sizes))
}
