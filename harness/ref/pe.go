// Package ref holds independent reference implementations of the file formats winres reads and writes.
// They are written from the format specifications, share no code with winres, and are deliberately plain.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

var le = binary.LittleEndian

// U16, U32 read little endian values.
func U16(b []byte, o int) uint16 { return le.Uint16(b[o:]) }
func U32(b []byte, o int) uint32 { return le.Uint32(b[o:]) }

// PutU16, PutU32 write little endian values.
func PutU16(b []byte, o int, v uint16) { le.PutUint16(b[o:], v) }
func PutU32(b []byte, o int, v uint32) { le.PutUint32(b[o:], v) }

// RoundUp rounds up to a multiple of a.
func RoundUp(v, a uint32) uint32 {
	if a == 0 {
		return v
	}
	return uint32((uint64(v) + uint64(a) - 1) / uint64(a) * uint64(a))
}

// Section characteristics.
const (
	ScnCode   = 0x20
	ScnInit   = 0x40
	ScnUninit = 0x80
)

// Data directory indexes.
const (
	DirExport   = 0
	DirImport   = 1
	DirResource = 2
	DirSecurity = 4
	DirReloc    = 5
	DirDebug    = 6
)

// SecSpec describes one section to build.
type SecSpec struct {
	Name             string
	Raw              []byte // initialised content (before padding)
	VSize            uint32 // 0: len(Raw)
	Chars            uint32
	NoRaw            bool   // no bytes in the file (pointer 0, size 0)
	RawMin           uint32 // at least that many raw bytes
	Gap              uint32 // virtual gap (in section alignment units) before this section
	RawGap           uint32 // file gap (in file alignment units) before the raw data of this section
	ZeroVS           bool   // VirtualSize field = 0
	FakeRaw, FakePtr uint32 // meaningless raw size and pointer of uninitialised data
}

// PEConf describes an executable to build.
type PEConf struct {
	Plus       bool // PE32+
	StubLen    int  // e_lfanew, at least 0x40
	NumDirs    int
	FileAlign  uint32
	SectAlign  uint32
	Slack      int  // additional room (bytes) between section headers and the first raw data, before alignment
	Exact      bool // no room at all: the first raw data starts right after headers (unaligned if needed)
	Sections   []SecSpec
	RawOrder   []int // order of sections in the file (default: same as virtual)
	HdrOrder   []int // order of section headers (default: same as virtual)
	Overlay    []byte
	Cert       []byte // certificate table appended at the end (after overlay)
	CertTail   []byte // bytes after the certificate table
	CheckSum   uint32 // written as is
	Seed       byte
	SymTab     bool // PointerToSymbolTable points at the overlay
	ExtraDirs  map[int][2]uint32
	ImportInRS int  // the import directory is inside .rsrc: 1 in the middle, 2 up to its end, 3 its last byte
	GlobalInRS bool // the global pointer (whose size is 0) is inside .rsrc
	HdrTable   int  // 1, 2: a table right after the section headers, or right before the first data (bound imports)
	Ragged     int  // 1, 2: raw sizes of the last section, or of all of them, are not multiples of the alignment
	HdrGap     bool // the headers end before the first data: SizeOfHeaders is as small as possible
}

// SecHdr is a section header.
type SecHdr struct {
	Name                    string
	VSize, VA, RawSize, Ptr uint32
	PtrReloc, PtrLine       uint32
	NReloc, NLine           uint16
	Chars                   uint32
}

// PE is a parsed executable.
type PE struct {
	Ragged     bool // raw sizes may be unaligned (loaders round them up)
	Raw        []byte
	Stub       []byte // everything before the PE signature
	FileHdr    []byte // 20 bytes
	Opt        []byte // optional header without directories
	Plus       bool
	OptOff     int
	DirsOff    int
	SecOff     int
	HdrEnd     int
	Dirs       [][2]uint32
	Secs       []SecHdr
	FileAlign  uint32
	SectAlign  uint32
	SizeImage  uint32
	SizeHdrs   uint32
	SizeInit   uint32
	CheckSum   uint32
	SymTab     uint32
	NumSyms    uint32
	DataEnd    uint32 // end of the last raw data
	DataOffset uint32 // first raw data
}

// CheckSumOff is the file offset of the checksum field.
func (p *PE) CheckSumOff() int { return p.OptOff + 64 }

// ParsePE parses an executable strictly.
func ParsePE(b []byte) (*PE, error) {
	p := &PE{Raw: b}
	if len(b) < 0x40 || b[0] != 'M' || b[1] != 'Z' {
		return nil, errors.New("no MZ header")
	}
	lfa := int64(U32(b, 0x3C))
	if lfa+24 > int64(len(b)) {
		return nil, errors.New("PE header out of bounds")
	}
	o := int(lfa)
	if string(b[o:o+4]) != "PE\x00\x00" {
		return nil, errors.New("no PE signature")
	}
	p.Stub = b[:o]
	p.FileHdr = b[o+4 : o+24]
	nsec := int(U16(p.FileHdr, 2))
	p.SymTab = U32(p.FileHdr, 8)
	p.NumSyms = U32(p.FileHdr, 12)
	optSize := int(U16(p.FileHdr, 16))
	p.OptOff = o + 24
	if p.OptOff+optSize > len(b) || optSize < 2 {
		return nil, errors.New("optional header out of bounds")
	}
	opt := b[p.OptOff : p.OptOff+optSize]
	base := 0
	switch U16(opt, 0) {
	case 0x10b:
		base = 96
	case 0x20b:
		base = 112
		p.Plus = true
	default:
		return nil, errors.New("bad optional header magic")
	}
	if optSize < base {
		return nil, errors.New("optional header too short")
	}
	p.Opt = opt[:base]
	ndirs := int64(U32(opt, base-4))
	if int64(optSize) != int64(base)+8*ndirs {
		return nil, errors.New("optional header size does not match the number of directories")
	}
	p.DirsOff = p.OptOff + base
	for i := 0; i < int(ndirs); i++ {
		p.Dirs = append(p.Dirs, [2]uint32{U32(opt, base+8*i), U32(opt, base+8*i+4)})
	}
	p.SizeInit = U32(opt, 8)
	p.SectAlign = U32(opt, 32)
	p.FileAlign = U32(opt, 36)
	p.SizeImage = U32(opt, 56)
	p.SizeHdrs = U32(opt, 60)
	p.CheckSum = U32(opt, 64)
	p.SecOff = p.OptOff + optSize
	p.HdrEnd = p.SecOff + 40*nsec
	if p.HdrEnd > len(b) {
		return nil, errors.New("section headers out of bounds")
	}
	p.DataOffset = 0xFFFFFFFF
	for i := 0; i < nsec; i++ {
		h := b[p.SecOff+40*i : p.SecOff+40*i+40]
		n := 0
		for n < 8 && h[n] != 0 {
			n++
		}
		s := SecHdr{
			Name: string(h[:n]), VSize: U32(h, 8), VA: U32(h, 12), RawSize: U32(h, 16), Ptr: U32(h, 20),
			PtrReloc: U32(h, 24), PtrLine: U32(h, 28), NReloc: U16(h, 32), NLine: U16(h, 34), Chars: U32(h, 36),
		}
		p.Secs = append(p.Secs, s)
		if !s.HasRaw() {
			continue
		}
		if s.Ptr < p.DataOffset {
			p.DataOffset = s.Ptr
		}
		if s.Ptr+s.RawSize > p.DataEnd {
			p.DataEnd = s.Ptr + s.RawSize
		}
	}
	return p, nil
}

// HasRaw tells if the section occupies bytes of the file. Some packers set all the content flags on sections that have
// data: the loader does not look at them. When uninitialised data is the only content, raw sizes and pointers are
// taken as meaningless.
func (s *SecHdr) HasRaw() bool {
	return s.RawSize != 0 && (s.Chars&ScnUninit == 0 || s.Ptr != 0 && s.Chars&(ScnInit|ScnCode) != 0)
}

// Flat tells if the image has small alignments, which make the loader map the file as a whole, and is right for that.
func (p *PE) Flat() bool {
	if p.SectAlign >= 0x1000 {
		return false
	}
	for i := range p.Secs {
		if s := &p.Secs[i]; !s.HasRaw() || s.Ptr != s.VA || RoundUp(s.MemSize(), p.SectAlign) != RoundUp(s.RawSize, p.SectAlign) {
			return false
		}
	}
	return true
}

// Data returns the raw bytes of the section (nil if out of bounds).
func (p *PE) Data(s *SecHdr) []byte {
	if !s.HasRaw() {
		return []byte{}
	}
	if uint64(s.Ptr)+uint64(s.RawSize) > uint64(len(p.Raw)) {
		return nil
	}
	return p.Raw[s.Ptr : s.Ptr+s.RawSize]
}

// MemSize is the virtual size the loader gives to the section.
func (s *SecHdr) MemSize() uint32 {
	if s.VSize == 0 {
		return s.RawSize
	}
	return s.VSize
}

// Find returns the index of the section that starts at va, or -1.
func (p *PE) Find(va uint32) int {
	for i := range p.Secs {
		if p.Secs[i].VA == va {
			return i
		}
	}
	return -1
}

// Containing returns the index of the section whose memory contains va, or -1.
func (p *PE) Containing(va uint32) int {
	for i := range p.Secs {
		s := &p.Secs[i]
		if va >= s.VA && uint64(va) < uint64(s.VA)+uint64(RoundUp(s.MemSize(), p.SectAlign)) {
			return i
		}
	}
	return -1
}

// Map loads the image in memory like the Windows loader does (headers excluded): VA -> bytes.
// It returns an error when sections overlap, are misaligned or are out of bounds.
func (p *PE) Validate() error {
	if p.FileAlign == 0 || p.SectAlign == 0 {
		return errors.New("zero alignment")
	}
	if uint64(p.HdrEnd) > uint64(p.DataOffset) {
		return fmt.Errorf("headers (end %#x) overlap the first section data (%#x)", p.HdrEnd, p.DataOffset)
	}
	if uint32(p.HdrEnd) > p.SizeHdrs {
		return fmt.Errorf("headers (end %#x) are larger than SizeOfHeaders %#x", p.HdrEnd, p.SizeHdrs)
	}
	if uint64(p.SizeHdrs) > uint64(p.DataOffset) {
		return fmt.Errorf("SizeOfHeaders (%#x) goes beyond the first section data (%#x)", p.SizeHdrs, p.DataOffset)
	}
	end := uint64(0)
	for i := range p.Secs {
		s := &p.Secs[i]
		if s.VA < p.SizeHdrs {
			return fmt.Errorf("section %d %q: virtual address %#x in the headers", i, s.Name, s.VA)
		}
		if s.VA%p.SectAlign != 0 {
			return fmt.Errorf("section %d %q: virtual address %#x is not aligned", i, s.Name, s.VA)
		}
		if s.HasRaw() {
			if s.Ptr%p.FileAlign != 0 {
				return fmt.Errorf("section %d %q: file pointer %#x is not aligned", i, s.Name, s.Ptr)
			}
			if s.RawSize%p.FileAlign != 0 && !p.Ragged {
				return fmt.Errorf("section %d %q: raw size %#x is not aligned", i, s.Name, s.RawSize)
			}
			if uint64(s.Ptr)+uint64(s.RawSize) > uint64(len(p.Raw)) {
				return fmt.Errorf("section %d %q: raw data out of bounds", i, s.Name)
			}
		}
		e := uint64(s.VA) + uint64(RoundUp(s.MemSize(), p.SectAlign))
		if e > end {
			end = e
		}
		for j := 0; j < i; j++ {
			t := &p.Secs[j]
			te := uint64(t.VA) + uint64(RoundUp(t.MemSize(), p.SectAlign))
			if uint64(s.VA) < te && uint64(t.VA) < e {
				return fmt.Errorf("sections %d %q and %d %q overlap in memory", j, t.Name, i, s.Name)
			}
			if s.HasRaw() && t.HasRaw() && s.Ptr < t.Ptr+t.RawSize && t.Ptr < s.Ptr+s.RawSize {
				return fmt.Errorf("sections %d %q and %d %q overlap in the file", j, t.Name, i, s.Name)
			}
		}
	}
	if uint64(p.SizeImage) != end {
		return fmt.Errorf("SizeOfImage is %#x, sections end at %#x", p.SizeImage, end)
	}
	return nil
}

// CheckSum computes the PE checksum of a whole file (imagehlp algorithm, straightforward 64 bit version).
func CheckSum(b []byte, field int) uint32 {
	var sum uint64
	for i := 0; i < len(b); i += 2 {
		var w uint64
		lo, hi := uint64(b[i]), uint64(0)
		if i+1 < len(b) {
			hi = uint64(b[i+1])
		}
		if i >= field && i < field+4 {
			lo = 0
		}
		if i+1 >= field && i+1 < field+4 {
			hi = 0
		}
		w = lo | hi<<8
		sum += w
	}
	for sum>>16 != 0 {
		sum = sum&0xFFFF + sum>>16
	}
	return uint32(sum) + uint32(len(b))
}

func pattern(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) | 1
	}
	return b
}

// Pattern returns n non-zero bytes depending on seed.
func Pattern(n int, seed byte) []byte { return pattern(n, seed) }

// BuildPE builds an executable. The section named ".rsrc" becomes the resource directory and ".reloc" the
// relocation directory.
func BuildPE(c *PEConf) []byte {
	if c.StubLen < 0x40 {
		c.StubLen = 0x80
	}
	switch c.NumDirs {
	case 0:
		c.NumDirs = 16
	case -1: // none
		c.NumDirs = 0
	}
	if c.FileAlign == 0 {
		c.FileAlign = 0x200
	}
	if c.SectAlign == 0 {
		c.SectAlign = 0x1000
	}
	base := 96
	if c.Plus {
		base = 112
	}
	optSize := base + 8*c.NumDirs
	n := len(c.Sections)
	hdrEnd := c.StubLen + 24 + optSize + 40*n
	sizeHdrs := RoundUp(uint32(hdrEnd+c.Slack), c.FileAlign)
	if c.Exact {
		sizeHdrs = uint32(hdrEnd)
	}
	dataStart := sizeHdrs
	if c.HdrGap && !c.Exact {
		sizeHdrs = RoundUp(uint32(hdrEnd), c.FileAlign)
		dataStart = RoundUp(uint32(hdrEnd+c.Slack), c.FileAlign) + c.FileAlign
	}
	hdrs := make([]SecHdr, n)
	va := RoundUp(sizeHdrs, c.SectAlign)
	totalInit, totalCode, totalUninit := uint32(0), uint32(0), uint32(0)
	for i, s := range c.Sections {
		va += s.Gap * c.SectAlign
		h := &hdrs[i]
		h.Name = s.Name
		h.VA = va
		h.VSize = s.VSize
		if h.VSize == 0 {
			h.VSize = uint32(len(s.Raw))
		}
		h.Chars = s.Chars
		if !s.NoRaw {
			h.RawSize = RoundUp(uint32(len(s.Raw)), c.FileAlign)
			if h.RawSize < RoundUp(s.RawMin, c.FileAlign) {
				h.RawSize = RoundUp(s.RawMin, c.FileAlign)
			}
		}
		if s.NoRaw && h.Chars&ScnUninit != 0 {
			h.RawSize, h.Ptr = s.FakeRaw, s.FakePtr
		}
		ms := h.VSize
		if s.ZeroVS {
			h.VSize = 0
			ms = h.RawSize
		}
		va += RoundUp(ms, c.SectAlign)
		if h.Chars&ScnCode != 0 {
			totalCode += h.RawSize
		} else if h.Chars&ScnUninit != 0 {
			totalUninit += h.VSize
		} else if h.Chars&ScnInit != 0 {
			totalInit += h.RawSize
		}
	}
	order := c.RawOrder
	if order == nil {
		for i := range hdrs {
			order = append(order, i)
		}
	}
	ptr, last := dataStart, -1
	for _, i := range order {
		if !c.Sections[i].NoRaw {
			last = i
		}
	}
	for _, i := range order {
		if c.Sections[i].NoRaw {
			continue
		}
		ptr += c.Sections[i].RawGap * c.FileAlign
		hdrs[i].Ptr = ptr
		if n := uint32(len(c.Sections[i].Raw)); n != 0 && (c.Ragged == 2 || c.Ragged == 1 && i == last) {
			hdrs[i].RawSize = n
			if i != last {
				n = RoundUp(n, c.FileAlign)
			}
			ptr += n
			continue
		}
		ptr += hdrs[i].RawSize
	}
	for i := range hdrs {
		if s := &c.Sections[i]; s.NoRaw && s.Chars&ScnUninit == 0 && s.FakePtr != 0 {
			hdrs[i].Ptr = ptr // an empty section at the end of the data
		}
	}
	size := int(ptr)
	b := make([]byte, size)
	copy(b, pattern(c.StubLen, c.Seed+17))
	b[0], b[1] = 'M', 'Z'
	PutU32(b, 0x3C, uint32(c.StubLen))
	o := c.StubLen
	copy(b[o:], "PE\x00\x00")
	fh := b[o+4:]
	mach := uint16(0x14c)
	if c.Plus {
		mach = 0x8664
	}
	PutU16(fh, 0, mach)
	PutU16(fh, 2, uint16(n))
	PutU32(fh, 4, 0x5F5E1234)
	PutU16(fh, 16, uint16(optSize))
	PutU16(fh, 18, 0x0222)
	opt := b[o+24 : o+24+base]
	copy(opt, pattern(base, c.Seed+31))
	if c.Plus {
		PutU16(opt, 0, 0x20b)
	} else {
		PutU16(opt, 0, 0x10b)
	}
	PutU32(opt, 4, totalCode)
	PutU32(opt, 8, totalInit)
	PutU32(opt, 12, totalUninit)
	PutU32(opt, 32, c.SectAlign)
	PutU32(opt, 36, c.FileAlign)
	PutU32(opt, 56, va)
	PutU32(opt, 60, sizeHdrs)
	PutU32(opt, 64, c.CheckSum)
	PutU32(opt, base-4, uint32(c.NumDirs))
	dirs := b[o+24+base:]
	setDir := func(i int, va, sz uint32) {
		if i < c.NumDirs {
			PutU32(dirs, 8*i, va)
			PutU32(dirs, 8*i+4, sz)
		}
	}
	for i := range hdrs {
		switch c.Sections[i].Name {
		case ".rsrc":
			setDir(DirResource, hdrs[i].VA, hdrs[i].MemSize())
			switch m := hdrs[i].MemSize(); c.ImportInRS {
			case 1:
				setDir(DirImport, hdrs[i].VA+m/2, 8)
			case 2:
				setDir(DirImport, hdrs[i].VA+m-8, 8)
			case 3:
				setDir(DirImport, hdrs[i].VA+m-1, 1)
			}
			if c.GlobalInRS {
				setDir(8, hdrs[i].VA+hdrs[i].MemSize()/2, 0)
			}
		case ".reloc":
			setDir(DirReloc, hdrs[i].VA, hdrs[i].MemSize())
		case ".data":
			setDir(DirImport, hdrs[i].VA+4, 8)
		case ".text":
			setDir(DirDebug, hdrs[i].VA+2, 4)
			setDir(9, hdrs[i].VA, 6)
		case ".tls":
			setDir(9, hdrs[i].VA+1, 6)
		}
	}
	if room := int(sizeHdrs) - hdrEnd; c.HdrTable > 0 && room > 0 {
		n, at := 8, hdrEnd
		if n > room {
			n = room
		}
		if c.HdrTable == 2 {
			at = int(sizeHdrs) - n
		}
		copy(b[at:], pattern(n, c.Seed+77))
		dir := 11
		if c.NumDirs <= dir {
			dir = DirImport
		}
		setDir(dir, uint32(at), uint32(n))
	}
	for i, d := range c.ExtraDirs {
		setDir(i, d[0], d[1])
	}
	sh := b[o+24+optSize:]
	ho := c.HdrOrder
	if ho == nil {
		for i := range hdrs {
			ho = append(ho, i)
		}
	}
	for k, i := range ho {
		h := hdrs[i]
		e := sh[40*k:]
		copy(e[:8], h.Name)
		PutU32(e, 8, h.VSize)
		PutU32(e, 12, h.VA)
		PutU32(e, 16, h.RawSize)
		PutU32(e, 20, h.Ptr)
		PutU32(e, 36, h.Chars)
		if !c.Sections[i].NoRaw {
			d := b[h.Ptr : h.Ptr+h.RawSize]
			copy(d, pattern(len(d), c.Seed+byte(i)*7+3))
			copy(d, c.Sections[i].Raw)
			if c.Sections[i].Name == ".rsrc" {
				for j := len(c.Sections[i].Raw); j < len(d); j++ {
					d[j] = 0
				}
			}
		}
	}
	if c.SymTab {
		PutU32(fh, 8, uint32(len(b)))
		PutU32(fh, 12, 12345)
	}
	b = append(b, c.Overlay...)
	if len(c.Cert) > 0 {
		for len(b)%8 != 0 {
			b = append(b, 0)
		}
		PutU32(b[o+24+base:], 8*DirSecurity, uint32(len(b)))
		PutU32(b[o+24+base:], 8*DirSecurity+4, uint32(len(c.Cert)))
		b = append(b, c.Cert...)
	}
	b = append(b, c.CertTail...)
	return b
}
