package ref

import (
	"errors"
	"unicode/utf16"
)

// BuildRES builds a compiled resource script (.res), the input of linkers.
func BuildRES(res []Res) []byte {
	ident := func(i Ident) []byte {
		if !i.Named {
			return []byte{0xFF, 0xFF, byte(i.ID), byte(i.ID >> 8)}
		}
		return append(UTF16LE(i.Name), 0, 0)
	}
	entry := func(b []byte, t, n []byte, lang uint32, data []byte) []byte {
		h := append(append([]byte(nil), t...), n...)
		for len(h)%4 != 0 {
			h = append(h, 0)
		}
		var x [8]byte
		PutU32(x[:], 0, uint32(len(data)))
		PutU32(x[:], 4, uint32(8+len(h)+16))
		b = append(b, x[:]...)
		b = append(b, h...)
		var y [16]byte // DataVersion, MemoryFlags, LanguageId, Version, Characteristics
		PutU16(y[:], 6, uint16(lang))
		b = append(b, y[:]...)
		b = append(b, data...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		return b
	}
	zero := []byte{0xFF, 0xFF, 0, 0}
	b := entry(nil, zero, zero, 0, nil)
	for _, x := range res {
		b = entry(b, ident(x.Type), ident(x.Res), x.Lang, x.Data)
	}
	return b
}

// BuildObject builds an ordinary object file: code, data with an absolute address, uninitialised data.
// start is the entry point.
func BuildObject(machine uint16, dataLen, bssLen int) []byte {
	type sec struct {
		name  string
		raw   []byte
		size  int
		reloc bool
		chars uint32
	}
	code := pattern(40, 5)
	secs := []sec{{".text", code, len(code), false, 0x60500020}, {".data", append(make([]byte, 8), pattern(dataLen, 7)...), 0, true, 0xC0500040}}
	if bssLen > 0 {
		secs = append(secs, sec{".bss", nil, bssLen, false, 0xC0500080})
	}
	b := make([]byte, 20+40*len(secs))
	PutU16(b, 0, machine)
	PutU16(b, 2, uint16(len(secs)))
	for i, s := range secs {
		h := 20 + 40*i
		copy(b[h:], s.name)
		PutU32(b, h+36, s.chars)
		if s.raw == nil {
			PutU32(b, h+16, uint32(s.size))
			continue
		}
		PutU32(b, h+16, uint32(len(s.raw)))
		PutU32(b, h+20, uint32(len(b)))
		b = append(b, s.raw...)
		if s.reloc {
			PutU32(b, h+24, uint32(len(b)))
			PutU16(b, h+32, 1)
			var x [10]byte
			t := map[uint16]uint16{0x14c: 6, 0x8664: 1, 0x1c4: 1, 0xaa64: 0xE}[machine]
			PutU16(x[:], 8, t)
			b = append(b, x[:]...)
		}
	}
	PutU32(b, 8, uint32(len(b)))
	var y [18]byte
	n := "start"
	if machine == 0x14c {
		n = "_start"
	}
	copy(y[:], n)
	PutU16(y[:], 12, 1)
	PutU16(y[:], 14, 0x20)
	y[16] = 2
	nsym := uint32(1)
	b = append(b, y[:]...)
	if machine == 0x14c { // compatible with safe exception handlers
		var z [18]byte
		copy(z[:], "@feat.00")
		PutU32(z[:], 8, 1)
		PutU16(z[:], 12, 0xFFFF)
		z[16] = 3
		b = append(b, z[:]...)
		nsym++
	}
	PutU32(b, 12, nsym)
	return append(b, 4, 0, 0, 0)
}

// UTF16LE encodes a string.
func UTF16LE(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}

// ParseRES reads a compiled resource script.
func ParseRES(b []byte) ([]Res, error) {
	var out []Res
	ident := func(p int) (Ident, int, bool) {
		if p+4 <= len(b) && U16(b, p) == 0xFFFF {
			return Ident{ID: uint32(U16(b, p+2))}, p + 4, true
		}
		var u []uint16
		for p+2 <= len(b) {
			c := U16(b, p)
			p += 2
			if c == 0 {
				return Ident{Named: true, Name: string(utf16.Decode(u))}, p, true
			}
			u = append(u, c)
		}
		return Ident{}, p, false
	}
	for p := 0; p < len(b); {
		if p+8 > len(b) {
			return nil, errors.New("truncated header")
		}
		n, h := int(U32(b, p)), int(U32(b, p+4))
		if p+h+n > len(b) {
			return nil, errors.New("truncated resource")
		}
		t, q, ok1 := ident(p + 8)
		r, q, ok2 := ident(q)
		if !ok1 || !ok2 {
			return nil, errors.New("bad identifier")
		}
		q = (q + 3) &^ 3
		x := Res{Key{t, r, uint32(U16(b, q+6))}, b[p+h : p+h+n]}
		if x.Type != (Ident{}) {
			out = append(out, x)
		}
		p = (p + h + n + 3) &^ 3
	}
	return out, nil
}
