package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"sync"
	"syscall"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// sparseWriter keeps what is written, except large pieces, whose place it remembers.
type sparseWriter struct {
	n     int64
	small []piece
	large []piece
}

type piece struct {
	at   int64
	data []byte
}

const largePiece = 1 << 16

func (w *sparseWriter) Write(b []byte) (int, error) {
	p := piece{at: w.n, data: b}
	w.n += int64(len(b))
	if len(b) < largePiece {
		p.data = append([]byte(nil), b...)
		w.small = append(w.small, p)
	} else {
		w.large = append(w.large, p)
	}
	return len(b), nil
}

func (w *sparseWriter) bytes(at int64, n int) []byte {
	out := make([]byte, n)
	for _, p := range w.small {
		lo, hi := p.at, p.at+int64(len(p.data))
		for o := at; o < at+int64(n); o++ {
			if o >= lo && o < hi {
				out[o-at] = p.data[o-lo]
			}
		}
	}
	return out
}

var (
	hugeOnce sync.Once
	hugeMem  []byte
)

// hugeBlock is shared by every large resource. It is never written to, and mapped out of Go's heap: it takes no memory.
func hugeBlock(n int64) []byte {
	hugeOnce.Do(func() {
		var err error
		hugeMem, err = syscall.Mmap(-1, 0, 1<<32+1<<20, syscall.PROT_READ,
			syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			panic(err)
		}
	})
	return hugeMem[:n:n]
}

// hugeSet makes a set of n large resources; total is the size of a section that holds them, or less by up to 8 bytes.
func hugeSet(n int, total int64) (*winres.ResourceSet, []int) {
	rs := &winres.ResourceSet{}
	dir := int64(16+8) + int64(16+8*n) + int64(n)*(16+8) + int64(n)*16
	rest := total - dir
	var sizes []int
	for i := 0; i < n; i++ {
		s := rest
		if i < n-1 {
			s = rest / int64(n-i) &^ 7
		}
		rest -= s
		sizes = append(sizes, int(s))
		if err := rs.Set(winres.ID(10), winres.ID(i+1), 0, hugeBlock(int64(s))); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return rs, sizes
}

// c03Huge: an object whose offsets do not fit in 32 bits is refused, up to that point it is exact.
func c03Huge(r *mc.Run) {
	n := []int{1, 2, 3, 5, 8}[r.Pick(5)]
	// what reaches 4 GB: the data of the section, its end, the relocations, the symbols, the file
	what := r.Pick(5)
	base := []int64{0, 60, 60 + 10*int64(n), 60 + 10*int64(n) + 18, 60 + 10*int64(n) + 22}[what]
	delta := int64(r.Pick(13)-6) * 4
	total := (1<<32 - base + delta)
	arch := []winres.Arch{winres.ArchAMD64, winres.ArchI386}[r.Pick(2)]
	rs, sizes := hugeSet(n, total)
	r.Logf("%d resources, a section of %#x bytes", n, total)
	w := &sparseWriter{}
	r.Step()
	r.StateStr(fmt.Sprint(n, total, arch))
	err := rs.WriteObject(w, arch)
	padded := (total + 7) &^ 7
	size := 60 + padded + 10*int64(n) + 22
	if err != nil {
		if size < 1<<32 {
			r.Failf("WriteObject refused an object of %#x bytes: %v", size, err)
		}
		if w.n != 0 {
			r.Failf("WriteObject refused to write, after it wrote %d bytes", w.n)
		}
		return
	}
	if size-22 >= 1<<32 {
		r.Failf("WriteObject wrote an object of %#x bytes, whose offsets are cut", size)
	}
	if w.n != size {
		r.Failf("%#x bytes written instead of %#x", w.n, size)
	}
	le := binary.LittleEndian
	h := w.bytes(0, 60)
	if got := int64(le.Uint32(h[20+16:])); got != padded {
		r.Failf("section of %#x bytes instead of %#x", got, padded)
	}
	if got := int64(le.Uint32(h[20+24:])); got != 60+padded {
		r.Failf("relocations at %#x instead of %#x", got, 60+padded)
	}
	if got := int64(le.Uint32(h[8:])); got != 60+padded+10*int64(n) {
		r.Failf("symbols at %#x", got)
	}
	rel := w.bytes(60+padded, 10*n)
	if len(w.large) != n {
		panic("harness: large pieces")
	}
	for i := 0; i < n; i++ {
		at := int64(le.Uint32(rel[10*i:]))
		e := w.bytes(60+at, 8)
		if o, s := int64(le.Uint32(e)), int(le.Uint32(e[4:])); o != w.large[i].at-60 || s != sizes[i] || len(w.large[i].data) != s {
			r.Failf("data entry %d is %#x bytes at %#x, instead of %#x at %#x", i, s, o, sizes[i], w.large[i].at-60)
		}
	}
}

// c04Huge: resources that do not fit in 32 bits are refused, and nothing is written.
func c04Huge(r *mc.Run) {
	n := []int{1, 2, 5}[r.Pick(3)]
	total := int64(1<<32) + []int64{0, 8, 0x1000, 0x10000}[r.Pick(4)]
	l := simpleLayout(r.Pick(4))
	rs, _ := hugeSet(n, total)
	r.Logf("%d resources, %#x bytes", n, total)
	w := &sparseWriter{}
	r.Step()
	r.StateStr(fmt.Sprint(n, total, l.Plus, len(l.Sections)))
	if err := rs.WriteToEXE(w, bytes.NewReader(buildExe(l, oldRes, ref.RsrcStyle{}))); err == nil {
		r.Failf("%#x bytes of resources were written to an executable", total)
	}
	if w.n != 0 {
		r.Failf("%d bytes were written", w.n)
	}
}

// highExe: an image that ends just below 4 GB, and resources of a size that may not fit above it.
func highExe(r *mc.Run) (*layout, int) {
	arr := []string{"TD", "TDR", "TDRL", "TRD", "TDB"}[r.Pick(5)]
	c := &ref.PEConf{Plus: r.Bool(), StubLen: 0x80, Slack: 80, FileAlign: 0x200, SectAlign: []uint32{0x1000, 0x10000}[r.Pick(2)], NumDirs: 16}
	c.Sections = arrange(arr, 0, ref.RsrcStyle{})
	p, err := ref.ParsePE(ref.BuildPE(c))
	if err != nil {
		panic("harness: " + err.Error())
	}
	room := uint32(1 + r.Pick(3))
	i := r.Pick(2) * (len(c.Sections) - 1) // the first section, or the last one, is high
	c.Sections[i].Gap = uint32(1<<32/int64(c.SectAlign)) - p.SizeImage/c.SectAlign - room
	n := int(c.SectAlign)*r.Pick(5) + []int{-0x200, -0x80, 1, 0x300}[r.Pick(4)]
	if n < 1 {
		r.Prune()
	}
	b := buildExe(c, oldRes, ref.RsrcStyle{})
	p, err = ref.ParsePE(b)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := p.Validate(); err != nil {
		panic("harness built an invalid executable: " + err.Error())
	}
	return &layout{c: c, desc: fmt.Sprintf("%s %v, image of %#x bytes", arr, c.Plus, p.SizeImage), bytes: b, p: p}, n
}

// c17Huge, c18Huge: the offsets of a file and the number of its images are exact, or it is refused.
func c17Huge(r *mc.Run, cur bool) {
	images := 0
	var sizes []int64
	if r.Bool() { // number of images
		if cur {
			images = []int{65534, 65535, 65536, 65537, 131072}[r.Pick(5)]
		} else { // each image has its PNG encoder: this is slow
			images = []int{65535, 65536}[r.Pick(2)]
		}
		r.Logf("%d images", images)
	} else { // size
		images = 2 + r.Pick(3)
		// the offset of the last image
		off := int64(1<<32) + int64(r.Pick(5)-2) - 6 - 16*int64(images)
		last := []int64{40, 0x2000}[r.Pick(2)]
		for i := 0; i < images-1; i++ {
			s := off
			if i < images-2 {
				s = off / int64(images-1-i)
			}
			sizes = append(sizes, s)
			off -= s
		}
		sizes = append(sizes, last)
		r.Logf("images of %d bytes", sizes)
	}
	r.Step()
	r.StateStr(fmt.Sprint(cur, images, sizes))
	w := &sparseWriter{}
	var err error
	if sizes != nil {
		// an icon whose images are resources that share one block
		rs := &winres.ResourceSet{}
		var g bytes.Buffer
		le := binary.LittleEndian
		binary.Write(&g, le, []uint16{0, 1, uint16(images)})
		for i, s := range sizes {
			if cur {
				g.Write([]byte{byte(200 - i), 0, byte(200 - i), 0, 1, 0, 32, 0})
				s += 4
			} else {
				g.Write([]byte{byte(200 - i), byte(200 - i), 0, 0, 1, 0, 32, 0})
			}
			binary.Write(&g, le, uint32(s))
			binary.Write(&g, le, uint16(i+1))
			typ := winres.ID(winres.RT_ICON)
			if cur {
				typ = winres.RT_CURSOR
			}
			rs.Set(typ, winres.ID(i+1), 0, hugeBlock(int64(s)))
		}
		b := g.Bytes()
		if cur {
			b[2] = 2
			rs.Set(winres.RT_GROUP_CURSOR, winres.ID(1), 0, b)
			c, e := rs.GetCursor(winres.ID(1))
			must(r, e, "GetCursor")
			err = c.SaveCUR(w)
		} else {
			rs.Set(winres.RT_GROUP_ICON, winres.ID(1), 0, b)
			c, e := rs.GetIcon(winres.ID(1))
			must(r, e, "GetIcon")
			err = c.SaveICO(w)
		}
	} else {
		img := image.NewNRGBA(image.Rect(0, 0, 1, 1))
		if cur {
			l := make([]winres.CursorImage, images)
			for i := range l {
				l[i].Image = img
			}
			c, e := winres.NewCursorFromImages(l)
			if e == nil {
				e = c.SaveCUR(w)
			}
			err = e
		} else {
			l := make([]image.Image, images)
			for i := range l {
				l[i] = img
			}
			c, e := winres.NewIconFromImages(l)
			if e == nil {
				e = c.SaveICO(w)
			}
			err = e
		}
	}
	hdr := int64(6 + 16*images)
	off := hdr
	for i := 0; i < len(sizes)-1; i++ {
		off += sizes[i]
	}
	fits := images <= 65535 && off < 1<<32
	if err != nil {
		if fits {
			r.Failf("refused: %v", err)
		}
		return
	}
	if !fits {
		r.Failf("%d images, the last one at %#x, were written to a file: their number or the offsets were cut", images, off)
	}
	le := binary.LittleEndian
	if sizes == nil {
		if h := w.bytes(0, 6); int(le.Uint16(h[4:])) != images {
			r.Failf("%d images instead of %d", le.Uint16(h[4:]), images)
		}
		return
	}
	dir := w.bytes(0, int(hdr))
	at := hdr
	for i, s := range sizes {
		e := dir[6+16*i:]
		if int64(le.Uint32(e[8:])) != s || int64(le.Uint32(e[12:])) != at {
			r.Failf("image %d is %#x bytes at %#x, instead of %#x at %#x", i, le.Uint32(e[8:]), le.Uint32(e[12:]), s, at)
		}
		at += s
	}
	if w.n != at {
		r.Failf("file of %#x bytes instead of %#x", w.n, at)
	}
}
