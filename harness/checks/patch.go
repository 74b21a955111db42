package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

type patchOpts struct {
	force bool
	auth  int // 0 default, 1 remove, 2 ignore
}

func (po patchOpts) String() string {
	return fmt.Sprintf("force=%v auth=%s", po.force, []string{"default", "remove", "ignore"}[po.auth])
}

// doPatch runs the real WriteToEXE.
func doPatch(rs *winres.ResourceSet, dst io.Writer, src io.ReadSeeker, po patchOpts) error {
	switch {
	case po.force && po.auth == 1:
		return rs.WriteToEXE(dst, src, winres.ForceCheckSum(), winres.WithAuthenticode(winres.RemoveSignature))
	case po.force && po.auth == 2:
		return rs.WriteToEXE(dst, src, winres.WithAuthenticode(winres.IgnoreSignature), winres.ForceCheckSum())
	case po.force:
		return rs.WriteToEXE(dst, src, winres.ForceCheckSum())
	case po.auth == 1:
		return rs.WriteToEXE(dst, src, winres.WithAuthenticode(winres.RemoveSignature))
	case po.auth == 2:
		return rs.WriteToEXE(dst, src, winres.WithAuthenticode(winres.IgnoreSignature))
	}
	return rs.WriteToEXE(dst, src)
}

// patched is the outcome of one WriteToEXE.
type patched struct {
	src, dst *ref.PE
	isNew    bool // a section was added
	oldIdx   int  // index of the resource section of the source (-1: none)
	newIdx   int  // index of the resource section of the result
	po       patchOpts
	cut      int // bytes of signature removed at the end
}

// analyse parses both files and identifies sections. The result must be parseable.
func analyse(r *mc.Run, src, dst []byte, po patchOpts) *patched {
	s, err := ref.ParsePE(src)
	if err != nil {
		panic("harness: " + err.Error())
	}
	d, err := ref.ParsePE(dst)
	if err != nil {
		r.Failf("the patched executable cannot be parsed: %v", err)
	}
	p := &patched{src: s, dst: d, po: po, oldIdx: -1, newIdx: -1}
	if s.Dirs[ref.DirResource][0] != 0 {
		p.oldIdx = s.Find(s.Dirs[ref.DirResource][0])
	}
	switch len(d.Secs) - len(s.Secs) {
	case 0:
	case 1:
		p.isNew = true
	default:
		r.Failf("the patched executable has %d sections, the original had %d", len(d.Secs), len(s.Secs))
	}
	if len(d.Dirs) != len(s.Dirs) {
		r.Failf("number of data directories changed from %d to %d", len(s.Dirs), len(d.Dirs))
	}
	p.newIdx = d.Find(d.Dirs[ref.DirResource][0])
	if p.newIdx < 0 {
		r.Failf("the resource directory entry (%#x) does not point at a section", d.Dirs[ref.DirResource][0])
	}
	if p.isNew && p.newIdx != len(s.Secs) {
		r.Failf("a section was added but the resource directory is in section %d", p.newIdx)
	}
	if !p.isNew && p.newIdx != p.oldIdx {
		r.Failf("resources moved from section %d to section %d", p.oldIdx, p.newIdx)
	}
	if po.auth == 1 && len(s.Dirs) > ref.DirSecurity {
		sec := s.Dirs[ref.DirSecurity]
		if sec[0] != 0 && uint64(sec[0])+uint64(sec[1]) == uint64(len(src)) {
			p.cut = len(src) - int(sec[0])
		}
	}
	return p
}

func diffAt(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return n
	}
	return -1
}

// preserved verifies that everything but the resources is as before.
func (p *patched) preserved(r *mc.Run) {
	s, d := p.src, p.dst
	if !bytes.Equal(s.Stub, d.Stub) {
		r.Failf("the MS-DOS stub changed at %#x", diffAt(s.Stub, d.Stub))
	}
	for i := range s.FileHdr {
		if i >= 2 && i < 4 || i >= 8 && i < 12 {
			continue
		}
		if s.FileHdr[i] != d.FileHdr[i] {
			r.Failf("the COFF file header changed at offset %d: %x -> %x", i, s.FileHdr, d.FileHdr)
		}
	}
	if len(s.Opt) != len(d.Opt) {
		r.Failf("the optional header changed size")
	}
	for i := range s.Opt {
		if i >= 8 && i < 12 || i >= 56 && i < 60 || i >= 64 && i < 68 {
			continue
		}
		if i >= 60 && i < 64 && uint32(d.HdrEnd) > s.SizeHdrs {
			continue // more headers than before
		}
		if s.Opt[i] != d.Opt[i] {
			r.Failf("the optional header changed at offset %d", i)
		}
	}
	for i := range s.Secs {
		a, b := s.Secs[i], d.Secs[i]
		if a.Chars != b.Chars || a.PtrReloc != b.PtrReloc || a.PtrLine != b.PtrLine || a.NReloc != b.NReloc || a.NLine != b.NLine {
			r.Failf("header of section %d %q changed: %+v -> %+v", i, a.Name, a, b)
		}
		if i == p.oldIdx && !p.isNew {
			if a.VA != b.VA || a.Name != b.Name {
				r.Failf("the resource section moved or was renamed: %+v -> %+v", a, b)
			}
			continue
		}
		if a.Name != b.Name && !(i == p.oldIdx && p.isNew) {
			r.Failf("section %d %q was renamed to %q", i, a.Name, b.Name)
		}
		if a.VSize != b.VSize || a.RawSize != b.RawSize {
			r.Failf("section %d %q changed size: %+v -> %+v", i, a.Name, a, b)
		}
		if a.VA != b.VA {
			if p.isNew || p.oldIdx < 0 || a.VA < s.Secs[p.oldIdx].VA {
				r.Failf("section %d %q moved in memory from %#x to %#x", i, a.Name, a.VA, b.VA)
			}
			if len(s.Dirs) <= ref.DirReloc || s.Dirs[ref.DirReloc][0] != a.VA {
				r.Failf("section %d %q, which is not the relocation section, moved in memory from %#x to %#x", i, a.Name, a.VA, b.VA)
			}
		}
		if !a.HasRaw() {
			if a.Ptr != b.Ptr && a.Ptr == 0 {
				r.Failf("section %d %q has no data but got a file pointer", i, a.Name)
			}
			continue
		}
		x, y := s.Data(&a), d.Data(&b)
		if y == nil {
			r.Failf("data of section %d %q is out of the patched file", i, a.Name)
		}
		if !bytes.Equal(x, y) {
			r.Failf("data of section %d %q changed at offset %#x", i, a.Name, diffAt(x, y))
		}
	}
	for i := range s.Dirs {
		a, b := s.Dirs[i], d.Dirs[i]
		switch i {
		case ref.DirResource, ref.DirSecurity:
			continue
		}
		if a[1] != b[1] {
			r.Failf("size of data directory %d changed: %#x -> %#x", i, a[1], b[1])
		}
		want := a[0]
		if a[0] != 0 {
			if j := s.Containing(a[0]); j >= 0 {
				want = d.Secs[j].VA + a[0] - s.Secs[j].VA
				if j == p.oldIdx && !p.isNew {
					r.Failf("data directory %d points into the resource section, which was overwritten", i)
				}
			}
		}
		if end := uint64(a[0]) + uint64(a[1]); a[0] != 0 && end <= uint64(s.SizeHdrs) && end <= uint64(s.DataOffset) {
			if a != b {
				r.Failf("data directory %d, in the headers, was %#x and is now %#x", i, a, b)
			}
			if end < uint64(d.HdrEnd) && a[0] >= uint32(s.HdrEnd) || end > uint64(len(d.Raw)) || !bytes.Equal(s.Raw[a[0]:end], d.Raw[a[0]:end]) {
				r.Failf("data directory %d, in the headers at %#x, was overwritten", i, a[0])
			}
			continue
		}
		if b[0] != want {
			r.Failf("data directory %d was %#x and is now %#x, but what it points at is now at %#x", i, a[0], b[0], want)
		}
	}
	// Whatever follows the sections.
	so := s.Raw[min(int(s.DataEnd), len(s.Raw)):]
	so = so[:len(so)-min(p.cut, len(so))]
	var do []byte
	if int(d.DataEnd) <= len(d.Raw) {
		do = d.Raw[d.DataEnd:]
	} else {
		r.Failf("the patched file is truncated: %d bytes, sections end at %d", len(d.Raw), d.DataEnd)
	}
	if !bytes.Equal(so, do) {
		r.Failf("%d bytes follow the sections of the original (signature excluded if removed), %d in the patched file; first difference at %#x", len(so), len(do), diffAt(so, do))
	}
	delta := d.DataEnd - s.DataEnd
	if s.SymTab != 0 && s.SymTab >= s.DataEnd {
		if d.SymTab != s.SymTab+delta {
			r.Failf("the COFF symbol table moved by %#x but its pointer went from %#x to %#x", delta, s.SymTab, d.SymTab)
		}
	} else if d.SymTab != s.SymTab {
		r.Failf("the symbol table pointer changed")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// signature verifies the certificate directory entry.
func (p *patched) signature(r *mc.Run) {
	s, d := p.src, p.dst
	if len(s.Dirs) <= ref.DirSecurity {
		return
	}
	a, b := s.Dirs[ref.DirSecurity], d.Dirs[ref.DirSecurity]
	if a[0] == 0 {
		if a != b {
			r.Failf("the certificate directory of an unsigned executable changed: %#x -> %#x", a, b)
		}
		return
	}
	switch p.po.auth {
	case 0:
		r.Failf("a signed executable was patched without permission")
	case 1:
		if b != [2]uint32{} {
			r.Failf("the certificate directory is still %#x after RemoveSignature", b)
		}
	case 2:
		want := [2]uint32{a[0], a[1]}
		if a[0] >= s.DataEnd {
			want[0] += d.DataEnd - s.DataEnd
		}
		if b != want {
			r.Failf("the certificate directory is %#x, want %#x (original %#x)", b, want, a)
		}
		if uint64(a[0])+uint64(a[1]) <= uint64(len(s.Raw)) {
			if uint64(b[0])+uint64(b[1]) > uint64(len(d.Raw)) || !bytes.Equal(s.Raw[a[0]:a[0]+a[1]], d.Raw[b[0]:b[0]+b[1]]) {
				r.Failf("the certificate table is no longer where its directory entry says")
			}
		}
	}
}

// structure verifies that the result is a valid image.
func (p *patched) structure(r *mc.Run, payloadLen int) {
	s, d := p.src, p.dst
	for i := range s.Secs {
		if s.Secs[i].HasRaw() && s.Secs[i].RawSize%s.FileAlign != 0 {
			d.Ragged = true
		}
	}
	if d.Ragged && d.Secs[p.newIdx].RawSize%d.FileAlign != 0 {
		r.Failf("raw size %#x of the resource section is not aligned", d.Secs[p.newIdx].RawSize)
	}
	if err := d.Validate(); err != nil {
		r.Failf("invalid image: %v", err)
	}
	if d.SizeHdrs != s.SizeHdrs && d.SizeHdrs%d.FileAlign != 0 {
		r.Failf("SizeOfHeaders was changed from %#x to %#x, which is not aligned to %#x", s.SizeHdrs, d.SizeHdrs, d.FileAlign)
	}
	sec := &d.Secs[p.newIdx]
	dir := d.Dirs[ref.DirResource]
	if dir[0] != sec.VA {
		r.Failf("resource directory at %#x, section at %#x", dir[0], sec.VA)
	}
	if dir[1] != sec.VSize {
		r.Failf("resource directory size %#x differs from the virtual size of its section %#x", dir[1], sec.VSize)
	}
	if dir[1] < uint32(payloadLen) {
		r.Failf("resource directory size %#x is smaller than the resources (%#x)", dir[1], payloadLen)
	}
	if sec.RawSize < uint32(payloadLen) {
		r.Failf("raw size %#x of the resource section is smaller than the resources (%#x)", sec.RawSize, payloadLen)
	}
	if !sec.HasRaw() {
		r.Failf("the resource section has no data")
	}
	if sec.VSize > RoundUp64(sec.RawSize, d.SectAlign) {
		r.Failf("virtual size %#x of the resource section does not fit its raw size %#x", sec.VSize, sec.RawSize)
	}
	if s.Flat() && !d.Flat() {
		r.Failf("sections are aligned to %#x, so the file is mapped as it is, but a section is not at the same place in memory and in the file", d.SectAlign)
	}
	data := d.Data(sec)
	for i := payloadLen; i < len(data); i++ {
		if data[i] != 0 {
			r.Failf("the padding of the resource section is not zero at %#x", i)
		}
	}
	if p.isNew {
		if sec.Chars != 0x40000040 {
			r.Failf("the new section has characteristics %#x", sec.Chars)
		}
		if sec.Name != ".rsrc" {
			r.Failf("the new section is named %q", sec.Name)
		}
	}
	// header slack
	for i := d.HdrEnd; i < int(d.DataOffset) && i < len(d.Raw); i++ {
		if d.Raw[i] != 0 && (i >= len(s.Raw) || d.Raw[i] != s.Raw[i]) {
			r.Failf("garbage after the section headers at %#x", i)
		}
	}
}

// sizeInit verifies the total size of initialised data.
func (p *patched) sizeInit(r *mc.Run) {
	s, d := p.src, p.dst
	sec := &d.Secs[p.newIdx]
	dir := d.Dirs[ref.DirResource]
	old := uint32(0)
	if p.oldIdx >= 0 && !p.isNew {
		old = s.Secs[p.oldIdx].RawSize
	}
	want := s.SizeInit - old + sec.RawSize
	if d.SizeInit != want {
		if p.isNew && d.SizeInit == want+dir[1] {
			r.Known("new-section-counted-twice", "SizeOfInitializedData grew by %#x, but the new .rsrc section has %#x bytes of raw data", d.SizeInit-s.SizeInit, sec.RawSize)
		} else {
			r.Failf("SizeOfInitializedData is %#x, want %#x (original %#x)", d.SizeInit, want, s.SizeInit)
		}
	}
}

// RoundUp64 rounds up.
func RoundUp64(v, a uint32) uint32 { return ref.RoundUp(v, a) }

// checksum verifies the checksum field.
func (p *patched) checksum(r *mc.Run) {
	want := uint32(0)
	if p.po.force || p.src.CheckSum != 0 {
		want = ref.CheckSum(p.dst.Raw, p.dst.CheckSumOff())
	}
	if p.dst.CheckSum != want {
		r.Failf("checksum is %#x, want %#x (original %#x, %v)", p.dst.CheckSum, want, p.src.CheckSum, p.po)
	}
}

// resources verifies that the result has exactly these resources.
func (p *patched) resources(r *mc.Run, want []ref.Res) {
	res, err := exeResources(p.dst.Raw)
	if err != nil {
		r.Failf("the resources of the patched executable are unreadable: %v", err)
	}
	if err := ref.SameRes(res, want); err != nil {
		r.Failf("resources of the patched executable: %v", err)
	}
}

// mayRefuse tells if the source may legitimately be refused: there is no room for one more section header
// and no resource section to reuse in place.
func mayRefuse(p *ref.PE) (bool, string) {
	room := int64(p.DataOffset) - int64(p.HdrEnd)
	if p.DataOffset == 0xFFFFFFFF {
		return true, "the executable has no section with data"
	}
	if room < 40 || len(p.Secs) == 0xFFFF {
		return true, "no room for a section header"
	}
	for i, d := range p.Dirs {
		if i != ref.DirSecurity && d[0] != 0 && d[0] < uint32(p.HdrEnd+40) && uint64(d[0])+uint64(d[1]) > uint64(p.HdrEnd) {
			return true, "no room for a section header"
		}
	}
	for i := range p.Secs {
		if p.Secs[i].VA < ref.RoundUp(uint32(p.HdrEnd+40), p.FileAlign) {
			return true, "no room for a section header in memory"
		}
		if len(p.Dirs) > ref.DirResource && p.Secs[i].VA == p.Dirs[ref.DirResource][0] && p.Secs[i].RawSize == 0 {
			return true, "the resource section has no data"
		}
	}
	return false, ""
}
