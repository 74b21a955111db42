package ref

import (
	"errors"
	"fmt"
)

// COFF is a parsed object file with one section.
type COFF struct {
	Machine   uint16
	Section   []byte // raw data of the section
	RelocOff  []uint32
	RelocType []uint16
	Chars     uint32
}

// ParseCOFF parses an object file strictly: one .rsrc section, relocations against the section symbol,
// one section symbol, an empty string table, and nothing else.
func ParseCOFF(b []byte) (*COFF, error) {
	if len(b) < 60 {
		return nil, errors.New("too short")
	}
	c := &COFF{Machine: U16(b, 0)}
	if U16(b, 2) != 1 {
		return nil, fmt.Errorf("%d sections", U16(b, 2))
	}
	sym, nsym := U32(b, 8), U32(b, 12)
	if nsym != 1 {
		return nil, fmt.Errorf("%d symbols", nsym)
	}
	if U16(b, 16) != 0 {
		return nil, errors.New("an object file has no optional header")
	}
	if string(b[20:28]) != ".rsrc\x00\x00\x00" {
		return nil, fmt.Errorf("section name is %q", b[20:28])
	}
	raw, ptr := U32(b, 36), U32(b, 40)
	relPtr := U32(b, 44)
	nrel := uint32(U16(b, 52))
	c.Chars = U32(b, 56)
	if U32(b, 48) != 0 || U16(b, 54) != 0 {
		return nil, errors.New("there are no line numbers")
	}
	if ptr != 60 {
		return nil, fmt.Errorf("raw data at %d, want 60", ptr)
	}
	if uint64(ptr)+uint64(raw) > uint64(len(b)) {
		return nil, fmt.Errorf("raw data (%d bytes) exceeds the file (%d bytes)", raw, len(b))
	}
	c.Section = b[ptr : ptr+raw]
	if relPtr != ptr+raw {
		return nil, fmt.Errorf("relocations at %#x, but raw data ends at %#x", relPtr, ptr+raw)
	}
	if uint64(relPtr)+10*uint64(nrel) != uint64(sym) {
		return nil, fmt.Errorf("symbol table at %#x, but relocations end at %#x", sym, uint64(relPtr)+10*uint64(nrel))
	}
	if uint64(sym)+18+4 != uint64(len(b)) {
		return nil, fmt.Errorf("file has %d bytes, want %d", len(b), uint64(sym)+22)
	}
	for i := uint32(0); i < nrel; i++ {
		o := int(relPtr + 10*i)
		if U32(b, o+4) != 0 {
			return nil, fmt.Errorf("relocation %d is against symbol %d", i, U32(b, o+4))
		}
		c.RelocOff = append(c.RelocOff, U32(b, o))
		c.RelocType = append(c.RelocType, U16(b, o+8))
	}
	s := int(sym)
	if string(b[s:s+8]) != ".rsrc\x00\x00\x00" || U32(b, s+8) != 0 || U16(b, s+12) != 1 || U16(b, s+14) != 0 || b[s+16] != 3 || b[s+17] != 0 {
		return nil, fmt.Errorf("bad section symbol %x", b[s:s+18])
	}
	if U32(b, s+18) != 4 {
		return nil, fmt.Errorf("bad string table length %d", U32(b, s+18))
	}
	return c, nil
}

// Link relocates the section at a virtual address, as a linker does with image-relative relocations.
func (c *COFF) Link(va uint32) ([]byte, error) {
	sec := append([]byte(nil), c.Section...)
	for _, o := range c.RelocOff {
		if uint64(o)+4 > uint64(len(sec)) {
			return nil, fmt.Errorf("relocation at %#x is out of the section", o)
		}
		PutU32(sec, int(o), U32(sec, int(o))+va)
	}
	return sec, nil
}
