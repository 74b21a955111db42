PH = '''package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/zz_verif_demo/ref"
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

var _ = bytes.Equal
var _ = errors.New
var _ io.Reader

const (
	text  = 0x60000020
	data  = 0xC0000040
	ronly = 0x40000040
)

func sec(name string, n int, ch uint32) ref.SecSpec {
	return ref.SecSpec{Name: name, Raw: ref.Pattern(n, name[1]), Chars: ch}
}

var old = []ref.Res{{Key: ref.Key{Type: ref.Ident{ID: 10}, Res: ref.Ident{ID: 1}, Lang: 0x409}, Data: []byte("old resource")}}

func rsrc(n int) ref.SecSpec {
	return ref.SecSpec{Name: ".rsrc", Raw: append(ref.BuildRsrc(old, 0, ref.RsrcStyle{}), make([]byte, n)...), Chars: ronly}
}

func set(n int) *winres.ResourceSet {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, ref.Pattern(n, 9))
	return rs
}

func parse(b []byte) *ref.PE {
	p, err := ref.ParsePE(b)
	if err != nil {
		fail("result: %v", err)
	}
	return p
}

func patch(rs *winres.ResourceSet, exe []byte) []byte {
	var b bytes.Buffer
	if err := rs.WriteToEXE(&b, bytes.NewReader(exe)); err != nil {
		fail("%v", err)
	}
	return b.Bytes()
}

// content returns the data of a section.
func content(p *ref.PE, name string) []byte {
	for i := range p.Secs {
		if p.Secs[i].Name == name {
			return p.Data(&p.Secs[i])
		}
	}
	return nil
}
'''
def B(id, prop, edits, needs, breaks, demo, ref=("pe","rsrc"), head=None):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, ref=list(ref), demo=(head or PH)+demo))

B("reloc-24bit","C04",[("exe.go","		pew.rsrcData[o+3] = uint8(addr >> 24)\n","")],
 "an executable whose resource section is mapped at 16 MB or above","resources are not found any more",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), {Name: ".bss", NoRaw: true, VSize: 0x2000000, Chars: 0xC0000080}}})
	rs, err := winres.LoadFromEXE(bytes.NewReader(patch(set(100), exe)))
	if err != nil || !bytes.Equal(rs.Get(winres.RT_RCDATA, winres.ID(1), 0), ref.Pattern(100, 9)) {
		fail("%v", err)
	}
}
''')
B("raw-with-virtual","C06",[("exe.go","""				if pew.h.sections[i].VirtualAddress > lastSection.VirtualAddress {
					lastSection = &pew.h.sections[i]
				}
			}
			if pew.h.sections[i].PointerToRawData > pew.rsrcHdr.PointerToRawData {
				pew.h.sections[i].PointerToRawData += rawDelta
			}
""","""				if pew.h.sections[i].VirtualAddress > lastSection.VirtualAddress {
					lastSection = &pew.h.sections[i]
				}
				if pew.h.sections[i].PointerToRawData > pew.rsrcHdr.PointerToRawData {
					pew.h.sections[i].PointerToRawData += rawDelta
				}
			}
""")],
 "a section that precedes .rsrc in memory but follows it in the file, and resources that change size","the header of that section points to other bytes",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), sec(".data", 300, data), rsrc(0)}, RawOrder: []int{0, 2, 1}})
	p := parse(patch(set(5000), exe))
	if !bytes.HasPrefix(content(p, ".data"), ref.Pattern(300, 'd')) {
		fail("the content of .data changed")
	}
}
''')
B("reloc-not-last","C06",[("exe.go","pew.relocHdr.VirtualAddress == endOfRSRC &&","pew.relocHdr.VirtualAddress >= endOfRSRC &&")],
 "a section between .rsrc and .reloc","a section moves in memory",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0), sec(".data", 300, data), sec(".reloc", 40, ronly)}})
	va := parse(exe).Secs[2].VA
	p := parse(patch(set(50000), exe))
	for _, s := range p.Secs {
		if s.Name == ".data" && s.VA != va {
			fail(".data moved from %x to %x", va, s.VA)
		}
	}
}
''')
B("dirs-16","C06",[("exe.go","		if i != pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[i].VirtualAddress > pew.rsrcHdr.VirtualAddress {\n","		if i == pe.IMAGE_DIRECTORY_ENTRY_BASERELOC && pew.h.dirs[i].VirtualAddress > pew.rsrcHdr.VirtualAddress {\n")],
 "another directory inside of the relocation section, and a size change of the resources","that directory designates something else",'''
func main() {
	c := &ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0), sec(".reloc", 400, ronly)}}
	va := parse(ref.BuildPE(c)).Secs[2].VA
	c.ExtraDirs = map[int][2]uint32{ref.DirDebug: {va + 100, 28}}
	p := parse(patch(set(50000), ref.BuildPE(c)))
	if d := p.Dirs[ref.DirDebug][0] - p.Secs[2].VA; d != 100 {
		fail("the debug directory is at %x", p.Dirs[ref.DirDebug][0])
	}
}
''')
B("image-size-raw","C07",[("exe.go","				if pew.h.sections[i].VirtualAddress > lastSection.VirtualAddress {\n","				if pew.h.sections[i].VirtualAddress > lastSection.VirtualAddress && pew.h.sections[i].SizeOfRawData > 0 {\n")],
 "an uninitialized section after .rsrc, which does not need to move","SizeOfImage is too small",'''
func main() {
	bss := ref.SecSpec{Name: ".bss", NoRaw: true, VSize: 0x2345, Chars: 0xC0000080}
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0), bss}})
	p := parse(patch(set(10), exe))
	if err := p.Validate(); err != nil {
		fail("%v", err)
	}
}
''')
B("image-size-file-align","C07",[("exe.go","			VirtualAddress:   pew.roundVirt(pew.src.virtEnd),\n","			VirtualAddress:   (pew.src.virtEnd + 0xFFF) &^ 0xFFF,\n"),("exe.go","	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)\n","	pew.src.virtEnd = (pew.src.virtEnd + 0xFFF) &^ 0xFFF\n")],
 "a section alignment other than 4096","the new section is misaligned",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, SectAlign: 0x2000, Sections: []ref.SecSpec{sec(".text", 0x3000, text), sec(".data", 300, data)}})
	p := parse(patch(set(100), exe))
	if err := p.Validate(); err != nil {
		fail("%v", err)
	}
	for _, s := range p.Secs {
		if s.VA%0x2000 != 0 {
			fail("%s at %x", s.Name, s.VA)
		}
	}
}
''')
B("sum-late-fold","C08",[("pesum.go","	for i := o; i < m; i += 2 {\n		c.sum = add16c(c.sum, uint32(p[i+1])<<8|uint32(p[i]))\n	}\n","	var sum uint32\n	for i := o; i < m; i += 2 {\n		sum += uint32(p[i+1])<<8 | uint32(p[i])\n	}\n	c.sum = add16c(c.sum, add16c(sum&0xFFFF, sum>>16))\n")],
 "more than 128 KB of resources with high bytes, since they are written at once","the checksum is wrong",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, CheckSum: 1, Sections: []ref.SecSpec{sec(".text", 600, text)}})
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, bytes.Repeat([]byte{0xFF}, 300000))
	out := patch(rs, exe)
	p := parse(out)
	if want := ref.CheckSum(out, p.CheckSumOff()); p.CheckSum != want {
		fail("%x, want %x", p.CheckSum, want)
	}
}
''')
B("sig-align","C09",[("exe.go","			if int64(entry.VirtualAddress)+int64(entry.Size) == pew.src.fileSize {\n","			if (int64(entry.VirtualAddress)+int64(entry.Size)+7)&^7 == (pew.src.fileSize+7)&^7 {\n")],
 "a certificate table whose size is not a multiple of 8, followed by a few bytes","bytes that follow the certificate are lost",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}, Cert: ref.Pattern(20, 1), CertTail: []byte("end")})
	var b bytes.Buffer
	if err := set(10).WriteToEXE(&b, bytes.NewReader(exe), winres.WithAuthenticode(winres.RemoveSignature)); err != nil {
		fail("%v", err)
	}
	if !bytes.HasSuffix(b.Bytes(), []byte("end")) {
		fail("the end of the file is lost")
	}
}
''')
B("sig-size-zero","C09",[("winres.go","h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil","h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 && h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].Size > 0, nil")],
 "a certificate entry with an address and no size","IsSignedEXE disagrees with WriteToEXE",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}, ExtraDirs: map[int][2]uint32{4: {0x600, 0}}})
	var b bytes.Buffer
	err := set(10).WriteToEXE(&b, bytes.NewReader(exe))
	ok, err2 := winres.IsSignedEXE(bytes.NewReader(exe))
	if err2 != nil || (err == winres.ErrSignedPE) != ok {
		fail("%v %v %v", err, ok, err2)
	}
}
''')
B("swallow-eof","C10",[("exe.go","	_, err = io.CopyN(w, pew.src.r, pew.src.fileSize-pew.src.sigSize-pew.src.rsrcEnd)\n	if err != nil {\n","	_, err = io.CopyN(w, pew.src.r, pew.src.fileSize-pew.src.sigSize-pew.src.rsrcEnd)\n	if err != nil && err != io.EOF {\n")],
 "a source that ends early while what follows the sections is copied","a truncated file is written without error",'''
type short struct {
	*bytes.Reader
	max int64
	n   int
}

func (s *short) Read(p []byte) (int, error) {
	pos, _ := s.Seek(0, io.SeekCurrent)
	if pos >= s.max {
		return 0, io.EOF
	}
	if int64(len(p)) > s.max-pos {
		p = p[:s.max-pos]
	}
	return s.Reader.Read(p)
}

func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}, Overlay: ref.Pattern(1000, 7)})
	var b bytes.Buffer
	err := set(10).WriteToEXE(&b, &short{Reader: bytes.NewReader(exe), max: int64(len(exe) - 100)})
	if err == nil {
		fail("%d bytes written without error", b.Len())
	}
}
''')
B("save-short-image","C10",[("icon.go","		_, err = ico.Write(icon.images[i].image)\n		if err != nil {\n			return err\n		}\n","		_, err = ico.Write(icon.images[i].image)\n		if err != nil && i < len(icon.images)-1 {\n			return err\n		}\n")],
 "a write error on the last image","a truncated file without error",'''
type limited int

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > int(*l) {
		return 0, errors.New("full")
	}
	*l -= limited(len(p))
	return len(p), nil
}

func main() {
	es := []ref.IcoEntry{{W: 16, H: 16, Planes: 1, BitCount: 32, Data: make([]byte, 50)}, {W: 8, H: 8, Planes: 1, BitCount: 32, Data: make([]byte, 50)}}
	i, err := winres.LoadICO(bytes.NewReader(ref.BuildIco(1, es, ref.IcoStyle{})))
	if err != nil {
		fail("%v", err)
	}
	l := limited(100)
	if i.SaveICO(&l) == nil {
		fail("no error")
	}
}
''',ref=("pe","rsrc","ico"))
B("stub-one-read","C11",[("exe.go","	err := readFull(r, stubHead)\n	if err != nil {\n		return 0, err\n	}\n","	n, err := r.Read(stubHead)\n	if err != nil {\n		return 0, err\n	}\n	if n < len(stubHead) {\n		return 0, io.ErrUnexpectedEOF\n	}\n")],
 "a reader that delivers the first bytes in two parts","a valid executable is refused",'''
type slow struct{ *bytes.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return s.Reader.Read(p)
}

func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text)}})
	if _, err := winres.IsSignedEXE(slow{bytes.NewReader(exe)}); err != nil {
		fail("%v", err)
	}
}
''')
B("cur-read","C11",[("cursor.go","		if err := readFull(cur, img); err != nil {\n","		if n, err := cur.Read(img); err != nil && n < len(img) {\n")],
 "a reader that delivers an image in several parts","the image is truncated without error",'''
type slow struct{ *bytes.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 50 {
		p = p[:50]
	}
	return s.Reader.Read(p)
}

func main() {
	es := []ref.IcoEntry{{W: 16, H: 16, Data: ref.DIB(40, 16, 16, 1, 32, 1000, 1)}}
	in := ref.BuildIco(2, es, ref.IcoStyle{})
	c, err := winres.LoadCUR(slow{bytes.NewReader(in)})
	if err != nil {
		fail("%v", err)
	}
	var b bytes.Buffer
	c.SaveCUR(&b)
	if !bytes.Equal(b.Bytes(), in) {
		fail("not the same file")
	}
}
''',ref=("pe","rsrc","ico"))
B("data-before","C12",[("rsrc.go","	if offset < 0 || offset+int64(entry.Size) > section.Size() {\n","	if offset+int64(entry.Size) > section.Size() {\n")],
 "a data entry that designates something before the resource section","zeros are returned as resource data",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0)}})
	p := parse(exe)
	for i := int(p.Secs[1].Ptr); i < len(exe)-4; i += 4 {
		if ref.U32(exe, i+4) == 12 && ref.U32(exe, i) == 0x58 {
			ref.PutU32(exe, i, 0)
		}
	}
	if rs, err := winres.LoadFromEXE(bytes.NewReader(exe)); err == nil {
		fail("%d resources", rs.Count())
	}
}
''')
B("dirs-5","C12",[("exe.go","	if numDirs < 6 {\n","	if numDirs < 5 {\n")],
 "an executable with exactly five data directories","crash",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, NumDirs: 5, Sections: []ref.SecSpec{sec(".text", 600, text)}})
	var b bytes.Buffer
	set(1).WriteToEXE(&b, bytes.NewReader(exe))
}
''')
B("ico-limit","C13",[("icon.go","		if e.BytesInRes > 0xA00000 {\n","		if e.BytesInRes > 0xA00000 && e.ImageOffset+e.BytesInRes > 0xA00000 {\n")],
 "an image size near 4 GB and an offset that makes the sum overflow","gigabytes are allocated",'''
func main() {
	es := []ref.IcoEntry{{W: 16, H: 16, Data: make([]byte, 100)}}
	in := ref.BuildIco(1, es, ref.IcoStyle{})
	ref.PutU32(in, 14, 0xFFFFFFF0)
	ref.PutU32(in, 18, 0x20)
	_, err := winres.LoadICO(bytes.NewReader(in))
	if err == nil || err == io.ErrUnexpectedEOF {
		fail("it tried to allocate 4 GB: %v", err)
	}
}
''',ref=("pe","rsrc","ico"))
B("group-missing","C13",[("icon.go","		if img == nil {\n			return nil, errors.New(errIconMissing)\n		}\n","		if img == nil {\n			if len(icon.images) == 0 || i < int(hdr.Count)-1 {\n				return nil, errors.New(errIconMissing)\n			}\n			break\n		}\n")],
 "a group of several images whose last image is missing","a truncated icon without error",'''
func main() {
	es := []ref.IcoEntry{{W: 16, H: 16, Data: make([]byte, 100)}, {W: 8, H: 8, Data: make([]byte, 100)}}
	ic, err := winres.LoadICO(bytes.NewReader(ref.BuildIco(1, es, ref.IcoStyle{})))
	if err != nil {
		fail("%v", err)
	}
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.ID(1), ic)
	rs.Set(winres.RT_ICON, winres.ID(2), 0, nil)
	if _, err := rs.GetIcon(winres.ID(1)); err == nil {
		fail("no error")
	}
}
''',ref=("pe","rsrc","ico"))
B("stub-global","C31",[("exe.go","	stubHead := make([]byte, 0x40)\n","	stubHead := stubBuf[:]\n"),("exe.go","func readPEOffset(","var stubBuf [0x40]byte\n\nfunc readPEOffset(")],
 "two executables with different stub lengths read at the same time","one of them is misread",'''
// gate lets another reader run in the middle of a read.
type gate struct {
	*bytes.Reader
	f func()
}

func (g *gate) Read(p []byte) (int, error) {
	n, err := g.Reader.Read(p)
	if f := g.f; f != nil {
		g.f = nil
		f()
	}
	return n, err
}

func main() {
	mk := func(n int) []byte {
		return ref.BuildPE(&ref.PEConf{Slack: 80, StubLen: n, Sections: []ref.SecSpec{sec(".text", 600, text)}})
	}
	a, b := mk(0x80), mk(0x100)
	// The same as two goroutines: the second one runs entirely during the first read of the first one.
	_, err := winres.IsSignedEXE(&gate{bytes.NewReader(a), func() {
		done := make(chan bool)
		go func() { winres.IsSignedEXE(bytes.NewReader(b)); close(done) }()
		<-done
	}})
	if err != nil {
		fail("%v", err)
	}
}
''')
B("drift-init-size","C30",[("exe.go","	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)\n","	if pew.rsrcHdr.SizeOfRawData >= oldSize {\n		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)\n	}\n")],
 "a patch with smaller resources after one with bigger resources","the initialized data size grows at each patch",'''
func main() {
	exe := ref.BuildPE(&ref.PEConf{Slack: 80, Sections: []ref.SecSpec{sec(".text", 600, text), rsrc(0)}})
	a := patch(set(5000), exe)
	b := patch(set(5000), patch(set(100), a))
	if !bytes.Equal(a, b) {
		fail("%x %x", parse(a).SizeInit, parse(b).SizeInit)
	}
}
''')
