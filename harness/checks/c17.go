package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"time"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C17 (icons) and C18 (cursors): round trips.

func init() {
	for _, cur := range []bool{false, true} {
		cur := cur
		pid := "C17"
		if cur {
			pid = "C18"
		}
		register(&Property{
			ID:          pid,
			Rule:        "one execution per file and sequence of conversions; the file written at the end is parsed strictly, and every group stored on the way is read by the reference reader; distinct_nontrivial counts distinct (images, conversions)",
			Assumptions: []string{"reserved bytes of icon entries are kept; those of cursor entries are zero", "the bit count of a PNG cursor image is 32"},
			Scenarios: []mc.Scenario{
				{Name: "images", Bound: 3, ThoroughBound: 3, Weight: 4, Run: func(r *mc.Run) { c17Images(r, cur) }},
				{Name: "sizes", Weight: 2, Run: func(r *mc.Run) { c17Sizes(r, cur) }},
				{Name: "orders", Weight: 2, Run: func(r *mc.Run) { c17Orders(r, cur) }},
				{Name: "long lists", Weight: 2, Run: func(r *mc.Run) { c17Long(r, cur) }},
				{Name: "huge", HangAfter: 400 * time.Second, Run: func(r *mc.Run) { c17Huge(r, cur) }},
				{Name: "large files", Run: func(r *mc.Run) { c17Large(r, cur) }},
				{Name: "many images", Run: func(r *mc.Run) { c17Many(r, cur) }},
				{Name: "data", Weight: 1, Run: func(r *mc.Run) { c17Data(r, cur) }},
				{Name: "compiled", Bound: 1, ThoroughBound: 2, Weight: 1, Run: func(r *mc.Run) { c17Compiled(r, cur) }},
			},
		})
	}
}

// c17Convert applies a sequence of conversions and judges the outcome.
var c17Pipes = []string{"", "S", "R", "SR", "RS", "RR", "E", "SE", "RSR", "T", "X"}

func c17Check(r *mc.Run, cur bool, ps []pic, st ref.IcoStyle, pipe string, what string) {
	typ := uint16(1)
	if cur {
		typ = 2
	}
	b := ref.BuildIco(typ, entries(cur, ps), st)
	what = fmt.Sprintf("%s (%v), conversions %q", what, st, pipe)
	if len(ps) < 100 {
		r.Logf("%s: %v", what, ps)
	}
	want := icoOrder(ps)
	g, err := loadGrp(cur, b)
	must(r, err, what+": load")
	r.Step()
	for i, op := range pipe {
		r.Step()
		switch op {
		case 'S': // save and load
			out, err := g.save()
			must(r, err, what+": save")
			g, err = loadGrp(cur, out)
			must(r, err, what+": load what was saved")
		case 'T': // save twice
			g.checkSaved(r, want, what)
		case 'R', 'X', 'E': // store and get; X: in a set with others; E: through an executable
			rs := &winres.ResourceSet{}
			if op == 'X' {
				must(r, rs.Set(winres.RT_ICON, winres.ID(40), 0, fresh(3, 1)), "Set")
				must(r, rs.Set(winres.RT_CURSOR, winres.ID(50), 0x409, fresh(9, 1)), "Set")
				must(r, g.set(rs, id(1), 0, true), what+": store")
			}
			lang := []uint16{0, 0x409}[i&1]
			must(r, g.set(rs, name("G"), lang, true), what+": store")
			m := model{}
			for _, x := range collect(rs) {
				m[x.Key] = x.Data
			}
			got, gerr := readGroup(cur, m, name("G"), lang)
			if gerr != nil {
				r.Failf("%s: the stored group is invalid: %v", what, gerr)
			}
			samePics(r, what+": stored group", got, want)
			sizesMatch(r, cur, m, name("G"), lang, what+": stored group")
			if op == 'E' {
				var out bytes.Buffer
				must(r, doPatch(rs, &out, bytes.NewReader(c15Exe), patchOpts{}), "WriteToEXE")
				rs, err = winres.LoadFromEXE(bytes.NewReader(out.Bytes()))
				must(r, err, "LoadFromEXE")
			}
			g, err = getGrpFirst(cur, rs, name("G"))
			must(r, err, what+": get")
		}
	}
	g.checkSaved(r, want, what)
	r.State(append(b, pipe...))
}

var c17PNG = [][]byte{ref.PNG(3, 2, 0), ref.PNG(3, 2, 1), ref.PNG(3, 2, 2)}

// c17Models are PNG images of other color types and depths.
var c17Models = func() (l [][]byte) {
	rect := image.Rect(0, 0, 5, 4)
	pal := func(n int) image.Image {
		p := color.Palette{}
		for i := 0; i < n; i++ {
			p = append(p, color.NRGBA{byte(i), byte(2 * i), byte(3 * i), byte(255 - i)})
		}
		return image.NewPaletted(rect, p)
	}
	for _, img := range []image.Image{pal(2), pal(4), pal(16), pal(256), image.NewGray(rect), image.NewGray16(rect), image.NewNRGBA64(rect), image.NewNRGBA(image.Rect(0, 0, 1, 1))} {
		var b bytes.Buffer
		if err := png.Encode(&b, img); err != nil {
			panic(err)
		}
		l = append(l, b.Bytes())
	}
	return l
}()

func c17Base(cur bool, i int) pic {
	if cur {
		return pic{w: 32, h: 32, x: 4 + i, y: 5, planes: 1, bits: 32, data: ref.DIB(40, 32, 32, 1, 32, 4, byte(i))}
	}
	return pic{w: 32, h: 32, planes: 1, bits: 32, data: fresh(7, byte(i+1))}
}

func c17Images(r *mc.Run, cur bool) {
	n := []int{2, 1, 3, 0}[r.Pick(4)]
	ps := make([]pic, n)
	what := fmt.Sprint(n, " images")
	for i := range ps {
		p := c17Base(cur, i)
		if k := r.Dev(8); k != 0 {
			p.w = []int{0, 1, 16, 31, 33, 128, 255, 256}[k]
		}
		if k := r.Dev(4); k != 0 {
			p.h = []int{0, 1, 64, 256}[k]
		}
		if k := r.Dev(10); k != 0 {
			p.bits = []int{32, 1, 4, 8, 16, 24, 31, 33, 0xFFFF, 0}[k]
		}
		if k := r.Dev(4); k != 0 {
			p.planes = []int{0, 0, 2, 0xFFFF}[k]
		}
		if cur {
			hdr := uint32(40)
			if k := r.Dev(4); k != 0 {
				hdr = []uint32{0, 108, 124, 0}[k]
			}
			n := 4
			if k := r.Dev(6); k != 0 {
				n = []int{0, 0, 1, 2, 3, 300}[k]
			}
			if hdr == 0 {
				b := c17PNG[i]
				if k := r.Dev(len(c17Models) + 1); k != 0 {
					b = c17Models[k-1]
				}
				p.data = append(append([]byte(nil), b...), fresh(n, 7)...)
				p.planes, p.bits = 1, 32
			} else {
				p.data = ref.DIB(hdr, p.w, p.h, uint16(p.planes), uint16(p.bits), n, byte(i))
			}
			if k := r.Dev(5); k != 0 {
				p.x = []int{0, 0, 255, 256, 0xFFFF}[k]
			}
			if k := r.Dev(5); k != 0 {
				p.y = []int{0, 0, 255, 256, 0xFFFF}[k]
			}
		} else {
			if k := r.Dev(4); k != 0 {
				p.colors = []int{0, 2, 16, 255}[k]
			}
			if k := r.Dev(3); k != 0 {
				p.resv = []int{0, 1, 255}[k]
			}
			if k := r.Dev(7); k != 0 {
				p.data = fresh([]int{0, 0, 1, 2, 3, 8, 300}[k], byte(i+1))
			}
		}
		if r.Dev(2) == 1 && i > 0 {
			p.data = ps[0].data
			p.planes, p.bits = ps[0].planes, ps[0].bits
		}
		ps[i] = p
	}
	st := ref.IcoStyle{}
	if k := r.Dev(3); k != 0 {
		st.Gap = []int{0, 1, 64}[k]
	}
	st.Reverse = r.Dev(2) == 1
	if k := r.Dev(3); k != 0 {
		st.Tail = []int{0, 1, 64}[k]
	}
	st.Shared = r.Dev(2) == 1
	pipes := []string{"SR", "RS", "E", "TX"}
	if r.Thorough {
		pipes = c17Pipes
	}
	c17Check(r, cur, ps, st, pipes[r.Pick(len(pipes))], what)
}

// c17Sizes: every width and height.
func c17Sizes(r *mc.Run, cur bool) {
	p := c17Base(cur, 0)
	p.w = 1 + r.Pick(256)
	p.h = []int{p.w, 1, 256, 257 - p.w}[r.Pick(4)]
	q := c17Base(cur, 1)
	q.w = []int{255, 256, 1}[r.Pick(3)]
	c17Check(r, cur, []pic{p, q}, ref.IcoStyle{}, c17Pipes[r.Pick(len(c17Pipes))], fmt.Sprintf("%dx%d and %d wide", p.w, p.h, q.w))
}

// c17Orders: every sequence of qualities.
func c17Orders(r *mc.Run, cur bool) {
	n := 1 + r.Pick(5)
	quals := [][2]int{{32, 256}, {32, 16}, {4, 16}, {0, 255}}
	if r.Thorough {
		quals = append(quals, [2]int{32, 1}, [2]int{1, 256})
	}
	ps := make([]pic, n)
	what := ""
	for i := range ps {
		p := c17Base(cur, i)
		q := quals[r.Pick(len(quals))]
		p.bits, p.w = q[0], q[1]
		p.h = i + 1
		if cur {
			p.data = ref.DIB(40, p.w, p.h, 1, uint16(p.bits), i, byte(i))
		}
		ps[i] = p
		what += fmt.Sprint(q)
	}
	c17Check(r, cur, ps, ref.IcoStyle{}, []string{"", "R", "SR"}[r.Pick(3)], what)
}

// c17Long: long lists with many images of equal quality.
func c17Long(r *mc.Run, cur bool) {
	n := 6 + r.Pick(40)
	mul := 1 + r.Pick(7)
	mod := 1 + r.Pick(8)
	quals := [][2]int{{32, 256}, {4, 16}, {32, 16}, {8, 48}, {4, 255}, {1, 1}, {32, 255}, {24, 256}}
	ps := make([]pic, n)
	for i := range ps {
		p := c17Base(cur, i)
		q := quals[i*mul%mod]
		p.bits, p.w = q[0], q[1]
		p.h = i + 1
		if cur {
			p.data = ref.DIB(40, p.w, p.h, 1, uint16(p.bits), i%5, byte(i))
		} else {
			p.data = fresh(1+i%5, byte(i))
		}
		ps[i] = p
	}
	c17Check(r, cur, ps, ref.IcoStyle{}, []string{"", "R", "SR"}[r.Pick(3)], fmt.Sprintf("%d images, period %d/%d", n, mul, mod))
}

// c17Data: image lengths.
func c17Data(r *mc.Run, cur bool) {
	sizes := []int{0xFFFF, 0x10000, 0x10001, 0x7FFFC, 0xFFFFFC, 0xA00000}
	for i := 0; i < 40; i++ {
		sizes = append(sizes, i)
	}
	n := sizes[r.Pick(len(sizes))]
	if n > 0xA00000 {
		n = 0xA00000 - 1
	}
	p, q := c17Base(cur, 0), c17Base(cur, 1)
	p.data = fresh(n, 5)
	if cur {
		hdr := []uint32{40, 108, 124}[r.Pick(3)]
		if n < 16 {
			r.Prune()
		}
		copy(p.data, ref.DIB(hdr, 32, 32, 1, 32, 0, 0))
		if n < 40 {
			ref.PutU32(p.data, 0, hdr)
		}
	}
	ps := []pic{p, q}
	if r.Bool() {
		ps = []pic{q, p}
	}
	pipes := c17Pipes
	if n > 0x20000 {
		pipes = []string{"", "R"}
	}
	c17Check(r, cur, ps, ref.IcoStyle{}, pipes[r.Pick(len(pipes))], fmt.Sprintf("image of %d bytes", n))
}

// c17Large: several images that are nearly as large as the limit, which is for each of them.
func c17Large(r *mc.Run, cur bool) {
	n := 2 + r.Pick(3)
	shared := r.Bool()
	size := []int{0x9FFFFF, 0xA00000, 0x800001}[r.Pick(3)]
	if !shared && n > 2 {
		r.Prune()
	}
	ps := make([]pic, n)
	for i := range ps {
		ps[i] = c17Base(cur, i)
		if i > 0 && shared {
			ps[i].data = ps[0].data
			continue
		}
		d := bytes.Repeat([]byte{byte(i + 1)}, size)
		if cur {
			copy(d, ref.DIB(40, 32, 32, 1, 32, 4, byte(i)))
		}
		ps[i].data = d
	}
	c17Check(r, cur, ps, ref.IcoStyle{Shared: shared}, []string{"", "R", "S"}[r.Pick(3)], fmt.Sprintf("%d images of %d bytes", n, size))
}

// c17Many: as many images as a file can have.
func c17Many(r *mc.Run, cur bool) {
	n := []int{0x7FFF, 0x8000, 0xFFFF}[r.Pick(3)]
	ps := make([]pic, n)
	for i := range ps {
		ps[i] = c17Base(cur, 0)
		ps[i].w = 1 + i%7
		ps[i].data = ps[0].data
	}
	c17Check(r, cur, ps, ref.IcoStyle{Shared: true}, []string{"", "R", "S"}[r.Pick(3)], fmt.Sprint(n, " images"))
}
