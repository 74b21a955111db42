package checks

import (
	"bytes"
	"fmt"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

const (
	chText  = 0x60000020
	chData  = 0xC0000040
	chBss   = 0xC0000080
	chRsrc  = 0x40000040
	chReloc = 0x42000040
	chRData = 0x40000040
)

func secText(n int) ref.SecSpec {
	return ref.SecSpec{Name: ".text", Raw: ref.Pattern(n, 1), Chars: chText}
}
func secData(n int) ref.SecSpec {
	return ref.SecSpec{Name: ".data", Raw: ref.Pattern(n, 2), Chars: chData, VSize: uint32(n + 0x1100)}
}
func secRData(n int) ref.SecSpec {
	return ref.SecSpec{Name: ".rdata", Raw: ref.Pattern(n, 5), Chars: chRData}
}
func secBss(v uint32) ref.SecSpec {
	return ref.SecSpec{Name: ".bss", NoRaw: true, VSize: v, Chars: chBss}
}
func secReloc(n int) ref.SecSpec {
	return ref.SecSpec{Name: ".reloc", Raw: ref.Pattern(n, 3), Chars: chReloc}
}
func secTLS(n int) ref.SecSpec {
	return ref.SecSpec{Name: ".tls", Raw: ref.Pattern(n, 6), Chars: chData}
}

// oldRes is what the executable contains before patching.
var oldRes = []ref.Res{
	{Key: key(id(10), id(1), 0x409), Data: []byte("old resource")},
	{Key: key(name("OLD"), name("OLDRES"), 0), Data: []byte("old named resource")},
}

// secRsrc makes an old resource section; the virtual address is patched in afterwards by fixRsrc.
func secRsrc(res []ref.Res, pad int, st ref.RsrcStyle) ref.SecSpec {
	raw := ref.BuildRsrc(res, 0, st)
	raw = append(raw, make([]byte, pad)...)
	return ref.SecSpec{Name: ".rsrc", Raw: raw, Chars: chRsrc}
}

// buildExe builds the executable and relocates its resource section.
func buildExe(c *ref.PEConf, res []ref.Res, st ref.RsrcStyle) []byte {
	b := ref.BuildPE(c)
	p, err := ref.ParsePE(b)
	if err != nil {
		panic(err)
	}
	for i := range p.Secs {
		if p.Secs[i].Name == ".rsrc" && p.Secs[i].RawSize > 0 {
			sec := ref.BuildRsrc(res, p.Secs[i].VA, st)
			copy(b[p.Secs[i].Ptr:], sec)
		}
	}
	return b
}

func simpleLayout(n int) *ref.PEConf {
	c := &ref.PEConf{Plus: n&1 != 0, StubLen: 0x80, Slack: 80}
	switch n / 2 {
	case 0:
		c.Sections = []ref.SecSpec{secText(0x300), secData(0x100)}
	case 1:
		c.Sections = []ref.SecSpec{secText(0x300), secRsrc(oldRes, 0, ref.RsrcStyle{}), secReloc(0x20)}
	}
	return c
}

// arrangements of sections, in virtual order. T text, D data, B bss, R rsrc, L reloc, X rdata, S tls
var arrangements = []string{
	"TDR", "TD", "TDRL", "TDL", "TDLR", "TDB", "TDBR", "TDBRL", "TRD", "TRDL", "TDRB", "TDRLB", "R", "RL", "T", "LR", "TLRX", "RTDL", "TDRXL", "TBR", "TXDBSLR", "TXDRBSL", "L", "B", "RB", "TRLX", "TDBL",
}

func arrange(s string, resPad int, st ref.RsrcStyle) []ref.SecSpec {
	var out []ref.SecSpec
	for i, ch := range s {
		switch ch {
		case 'T':
			out = append(out, secText(0x4D3))
		case 'D':
			out = append(out, secData(0x201))
		case 'B':
			out = append(out, secBss(0x1234))
		case 'R':
			out = append(out, secRsrc(oldRes, resPad, st))
		case 'L':
			out = append(out, secReloc(0x2c))
		case 'X':
			out = append(out, secRData(0x400))
		case 'S':
			out = append(out, secTLS(0x10))
		default:
			panic(fmt.Sprint("arrangement ", i))
		}
	}
	return out
}

type layout struct {
	c     *ref.PEConf
	desc  string
	bytes []byte
	p     *ref.PE
}

// layoutOpts says which dimensions vary.
type layoutOpts struct {
	arr       []string
	pads      []int // bytes added to the old .rsrc
	noCert    bool
	noUnusal  bool
	midDir    bool
	noLarge   bool // no large files
	needRsrc  bool // the resource section has data
	noFakePtr bool // the meaningless pointer may change
	stable    bool // no shape whose virtual size settles at the second patch
}

// pickLayout chooses an executable: arrangement and format freely, everything else by deviation.
func pickLayout(r *mc.Run, o layoutOpts) *layout {
	arr := o.arr
	if arr == nil {
		arr = arrangements
	}
	a := arr[r.Pick(len(arr))]
	c := &ref.PEConf{Plus: r.Bool()}
	desc := fmt.Sprintf("sections %s plus=%v", a, c.Plus)
	dev := func(what string, vals ...int) int {
		v := vals[r.Dev(len(vals))]
		if v != vals[0] {
			desc += fmt.Sprintf(" %s=%d", what, v)
		}
		return v
	}
	stubs, aligns, shapes := []int{0x80, 0x40, 0x48, 0xF8, 0x100, 0x208, 0x1000, 0x12340}, []int{0, 1, 2, 3, 4, 5, 6, 7}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 15, 16}
	if o.noLarge {
		stubs, aligns, shapes = stubs[:7], aligns[:7], shapes[:31]
	}
	c.StubLen = dev("stub", stubs...)
	c.NumDirs = dev("dirs", 16, 6, 7, 10, 15, 17)
	al := [][2]uint32{{0x200, 0x1000}, {0x200, 0x2000}, {0x1000, 0x1000}, {0x20, 0x20}, {0x80, 0x80}, {0x200, 0x10000}, {0x400, 0x1000}, {0x10000, 0x10000}}
	ai := dev("align", aligns...)
	c.FileAlign, c.SectAlign = al[ai][0], al[ai][1]
	pad := 0
	if len(o.pads) > 0 {
		pad = o.pads[r.Dev(len(o.pads))]
		if pad != o.pads[0] {
			desc += fmt.Sprintf(" oldpad=%d", pad)
		}
	}
	style := dev("style", 0, 1, 2)
	st := []ref.RsrcStyle{{}, {Junk: true, DataFirst: true, Align: 8}, {NamesEarly: true, BreadthLast: true, DupNames: true}}[style]
	c.Sections = arrange(a, pad, st)
	switch dev("room", -1, 40, 39, 41, 0, 36, 80) {
	case -1:
		c.Slack = 160
	case 40:
		setRoom(c, 40)
	case 39:
		setRoom(c, 39)
	case 41:
		setRoom(c, 41)
	case 0:
		setRoom(c, 0)
	case 36:
		setRoom(c, 36)
	case 80:
		setRoom(c, 80)
	}
	ov := dev("overlay", 0, 1, 7, 8, 100, 0x201, 5000)
	c.Overlay = ref.Pattern(ov, 9)
	if !o.noCert {
		switch dev("cert", 0, 1, 2, 3, 4) {
		case 4: // not a multiple of 8
			c.Cert = ref.Pattern(0x105, 11)
		case 1:
			c.Cert = ref.Pattern(0x108, 11)
		case 2:
			c.Cert = ref.Pattern(0x10, 12)
			c.CertTail = ref.Pattern(24, 13)
		case 3:
			c.Cert = ref.Pattern(0x2000, 14)
		}
	}
	extra, mid, swap := false, false, false
	if !o.noUnusal {
		u := dev("unusual", shapes...)
		switch u {
		case 1: // virtual gap
			for i := range c.Sections {
				c.Sections[i].Gap = uint32(i)
			}
		case 2: // file gaps
			for i := range c.Sections {
				c.Sections[i].RawGap = uint32(i % 2)
			}
		case 3: // section headers in reverse order
			for i := len(c.Sections) - 1; i >= 0; i-- {
				c.HdrOrder = append(c.HdrOrder, i)
			}
		case 4: // raw data in reverse order
			for i := len(c.Sections) - 1; i >= 0; i-- {
				c.RawOrder = append(c.RawOrder, i)
			}
		case 5: // raw size larger than needed
			for i := range c.Sections {
				if !c.Sections[i].NoRaw {
					c.Sections[i].RawMin = uint32(len(c.Sections[i].Raw)) + 0x700
				}
			}
		case 6: // virtual size larger than raw size
			for i := range c.Sections {
				c.Sections[i].VSize = uint32(len(c.Sections[i].Raw)) + 0x2345
			}
		case 7: // symbol table in the overlay
			if len(c.Overlay) == 0 {
				c.Overlay = ref.Pattern(18*3+4, 21)
			}
			c.SymTab = true
		case 8: // an initialised section without raw data (pointer 0, size 0)
			c.Sections = append(c.Sections, ref.SecSpec{Name: ".empty", NoRaw: true, VSize: 0x10, Chars: chData})
		case 9: // mapped above 16 MB
			c.Sections[0].Gap = 0x3120000 / c.SectAlign
		case 10: // mapped near 2 GB
			c.Sections[0].Gap = 0x7D650000 / c.SectAlign
		case 11: // a large uninitialised area in the middle
			for i := range c.Sections {
				if c.Sections[i].NoRaw {
					c.Sections[i].VSize = 0x2345678
				}
			}
		case 12: // data directories in the middle of every section
			extra = true
		case 13: // the loader takes the raw size when the virtual size is zero
			for i := range c.Sections {
				if !c.Sections[i].NoRaw {
					c.Sections[i].ZeroVS = true
				}
			}
		case 14: // the resource directory is not at the start of a section
			mid = o.midDir
		case 15: // many sections
			for i := 0; i < 60; i++ {
				s := secData(0x10 + i)
				s.Name = fmt.Sprintf("s%d", i)
				c.Sections = append(c.Sections, s)
			}
		case 17, 18: // uninitialised data with a raw size, and possibly a pointer
			c.Sections = append(c.Sections, secBss(0x2222))
			for i := range c.Sections {
				if c.Sections[i].NoRaw {
					c.Sections[i].FakeRaw = 0x1400
					if !o.noFakePtr {
						c.Sections[i].FakePtr = uint32(u-17) * 0x1000
					}
				}
			}
		case 19, 20: // the resource section has no data in the file
			if o.needRsrc {
				r.Prune()
			}
			for i := range c.Sections {
				if s := &c.Sections[i]; s.Name == ".rsrc" {
					s.VSize, s.Raw, s.NoRaw, s.FakePtr = 0x123, nil, true, uint32(u-19)
				}
			}
		case 21: // another directory inside the resource section
			c.ImportInRS = 1
		case 31, 32: // at its end
			c.ImportInRS = u - 29
		case 28: // the global pointer there
			c.GlobalInRS = true
		case 29, 30: // raw sizes that are not aligned
			if o.stable && a[len(a)-1] != 'R' {
				r.Prune()
			}
			c.Ragged = u - 28
		case 22, 23: // a table in the headers
			c.HdrTable = u - 21
		case 24: // the first data does not follow the headers
			c.HdrGap = true
		case 25, 26: // every flag about contents is set (as packers do), possibly on .rsrc too
			for i := range c.Sections {
				if !c.Sections[i].NoRaw && (u == 26 || c.Sections[i].Name != ".rsrc") {
					c.Sections[i].Chars |= ref.ScnUninit | ref.ScnInit
				}
			}
		case 27: // the resource section has another name, and others have its name
			swap = true
		case 16: // a large first section
			s := &c.Sections[0]
			if !s.NoRaw && s.Name != ".rsrc" {
				s.Raw, s.VSize = ref.Pattern(0x23456, 4), 0
			}
		}
	}
	switch dev("checksum", 0, 1, 2) {
	case 1:
		c.CheckSum = 0x12345
	case 2:
		c.CheckSum = 1 // fixed below to the right value
	}
	if extra {
		addDirs(c)
	}
	if mid {
		p, err := ref.ParsePE(ref.BuildPE(c))
		if err != nil {
			panic("harness: " + err.Error())
		}
		sec := p.Secs[len(p.Secs)/2]
		if c.ExtraDirs == nil {
			c.ExtraDirs = map[int][2]uint32{}
		}
		c.ExtraDirs[ref.DirResource] = [2]uint32{sec.VA + 0x10, 0x8}
	}
	b := buildExe(c, oldRes, st)
	p, err := ref.ParsePE(b)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if swap {
		for i := range p.Secs {
			n := [8]byte{'.', 'r', 's', 'r', 'c'}
			if p.Secs[i].Name == ".rsrc" {
				n = [8]byte{'.', 'o', 't', 'h', 'e', 'r'}
			}
			copy(b[p.SecOff+40*i:], n[:])
		}
		p, _ = ref.ParsePE(b)
	}
	if c.CheckSum == 1 {
		ref.PutU32(b, p.CheckSumOff(), ref.CheckSum(b, p.CheckSumOff()))
		p, _ = ref.ParsePE(b)
	}
	p.Ragged = c.Ragged != 0
	if err := p.Validate(); err != nil && len(p.Secs) > 0 && p.DataOffset != 0xFFFFFFFF {
		panic("harness built an invalid executable: " + desc + ": " + err.Error())
	}
	return &layout{c: c, desc: desc, bytes: b, p: p}
}

// addDirs makes data directories point inside every section but .rsrc, not at their start.
func addDirs(c *ref.PEConf) {
	p, err := ref.ParsePE(ref.BuildPE(c))
	if err != nil {
		panic("harness: " + err.Error())
	}
	slots := []int{0, 1, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14}
	for i := 15; i < c.NumDirs; i++ {
		slots = append([]int{i}, slots...)
	}
	c.ExtraDirs = map[int][2]uint32{}
	n := 0
	for i := range p.Secs {
		s := &p.Secs[i]
		if s.Name == ".rsrc" {
			continue
		}
		c.ExtraDirs[slots[n%len(slots)]] = [2]uint32{s.VA + 8, 4}
		n++
		c.ExtraDirs[slots[n%len(slots)]] = [2]uint32{s.VA + s.MemSize() - 1, 1}
		n++
	}
	if d, ok := c.ExtraDirs[8]; ok { // the global pointer has no size
		c.ExtraDirs[8] = [2]uint32{d[0], 0}
	}
}

// setRoom adjusts the stub so that exactly n bytes remain between the section headers and the first data.
func setRoom(c *ref.PEConf, n int) {
	base := 96
	if c.Plus {
		base = 112
	}
	fa := int(c.FileAlign)
	hdr := c.StubLen + 24 + base + 8*c.NumDirs + 40*len(c.Sections)
	end := (hdr + n + fa - 1) / fa * fa
	c.StubLen += end - n - hdr
	c.Slack = n
}

// newContents are resource lists whose section sizes matter; n is the approximate payload.
func payload(n int, seed byte) []ref.Res {
	if n < 0 {
		return nil
	}
	return []ref.Res{{Key: key(id(10), id(1), 0), Data: ref.Pattern(n, seed)}}
}

// rsrcSize measures the size of the section the library writes for a list (from an object file).
func rsrcSize(r *mc.Run, res []ref.Res) int {
	rs, err := build(res)
	must(r, err, "Set")
	var b bytes.Buffer
	must(r, rs.WriteObject(&b, winres.ArchAMD64), "WriteObject")
	c, err := ref.ParseCOFF(b.Bytes())
	must(r, err, "ParseCOFF")
	return len(c.Section)
}
