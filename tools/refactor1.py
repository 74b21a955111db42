# A refactoring that preserves behaviour, used once on a copy in /tmp/rf/repo: every check stays quiet on it.
import re
def ed(f, *pairs):
    p='/tmp/rf/repo/'+f; s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def fn(f, start, body):
    """replace a whole function starting with line start"""
    p='/tmp/rf/repo/'+f; s=open(p).read()
    i=s.index(start); j=s.index('\n}\n',i)+3
    s=s[:i]+body.strip('\n')+'\n'+s[j:]
    open(p,'w').write(s)
fn('exe.go','func writeBlank(','''
type zeroes struct{}

func (zeroes) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

func writeBlank(w io.Writer, length int64) error {
	if length <= 0 {
		return nil
	}
	_, err := io.CopyN(w, zeroes{}, length)
	return err
}
''')
fn('exe.go','func (pew *peWriter) applyReloc(','''
func (pew *peWriter) applyReloc(reloc []int) {
	for n := len(reloc) - 1; n >= 0; n-- {
		p := pew.rsrcData[reloc[n] : reloc[n]+4]
		binary.LittleEndian.PutUint32(p, binary.LittleEndian.Uint32(p)+pew.rsrcHdr.VirtualAddress)
	}
}
''')
fn('exe.go','func (pew *peWriter) roundRaw(','''
func (pew *peWriter) roundRaw(p uint32) uint32 {
	return roundTo(p, pew.h.opt.getFileAlignment())
}

func roundTo(p, a uint32) uint32 {
	x := p + a - 1
	return x / a * a
}
''')
fn('exe.go','func (pew *peWriter) roundVirt(','''
func (pew *peWriter) roundVirt(p uint32) uint32 {
	return roundTo(p, pew.h.opt.getSectionAlignment())
}
''')
fn('exe.go','func (pew *peWriter) writeEXE(','''
func (pew *peWriter) writeEXE(w io.Writer) error {
	src := pew.src.r
	copyRange := func(from, to int64) error {
		if _, err := src.Seek(from, io.SeekStart); err != nil {
			return err
		}
		buf := make([]byte, 0x800)
		for n := to - from; n > 0; {
			b := buf
			if n < int64(len(b)) {
				b = b[:n]
			}
			if err := readFull(src, b); err != nil {
				return err
			}
			if _, err := w.Write(b); err != nil {
				return err
			}
			n -= int64(len(b))
		}
		return nil
	}
	headers := func() error {
		b := &bytes.Buffer{}
		for _, v := range []interface{}{&pew.h.file, pew.h.opt, pew.h.dirs, pew.h.sections} {
			if err := binary.Write(b, binary.LittleEndian, v); err != nil {
				return err
			}
		}
		_, err := b.WriteTo(w)
		return err
	}
	first, end := int64(pew.src.dataOffset), int64(pew.src.dataEnd)
	rsrc := int64(pew.rsrcHdr.PointerToRawData)
	if rsrc < end {
		end = rsrc
	}
	for _, f := range []func() error{
		func() error { return copyRange(0, pew.h.stubLength+4) },
		headers,
		func() error { return writeBlank(w, first-pew.h.length) },
		func() error { return copyRange(first, end) },
		func() error { return writeBlank(w, rsrc-end) },
		func() error {
			_, err := w.Write(append(append([]byte{}, pew.rsrcData...), make([]byte, int64(pew.rsrcHdr.SizeOfRawData)-int64(len(pew.rsrcData)))...))
			return err
		},
		func() error { return copyRange(pew.src.rsrcEnd, pew.src.fileSize-pew.src.sigSize) },
	} {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}
''')
fn('exe.go','func readPEOffset(','''
func readPEOffset(r io.Reader) (int64, error) {
	var head struct {
		Magic  [2]byte
		_      [0x3A]byte
		Offset uint32
	}
	if err := binaryRead(r, &head); err != nil {
		return 0, err
	}
	if head.Magic != [2]byte{'M', 'Z'} {
		return 0, errors.New(errNotPEImage)
	}
	return int64(head.Offset), nil
}
''')
fn('pesum.go','func (c *peCheckSum) Write(','''
func (c *peCheckSum) Write(p []byte) (int, error) {
	for _, b := range p {
		if c.size%2 == 0 {
			c.rem = uint32(b)
		} else {
			c.sum = add16c(c.sum, c.rem+256*uint32(b))
		}
		c.size++
	}
	return len(p), nil
}
''')
fn('reader.go','func readFull(','''
func readFull(r io.Reader, data []byte) error {
	for done := 0; done < len(data); {
		n, err := r.Read(data[done:])
		done += n
		if err != nil && done < len(data) {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return err
		}
	}
	return nil
}
''')
ed('icon.go',('''	entries := make([]iconFileDirEntry, hdr.Count)
	if err := binaryRead(ico, entries); err != nil {
		return nil, err
	}
''','''	var entries []iconFileDirEntry
	for i := 0; i < int(hdr.Count); i++ {
		var e iconFileDirEntry
		if err := binaryRead(ico, &e); err != nil {
			return nil, err
		}
		entries = append(entries, e)
	}
'''))
fn('icon.go','func (icon *Icon) order(','''
func (icon *Icon) order() {
	side := func(w uint8) int {
		if w == 0 {
			return 256
		}
		return int(w)
	}
	before := func(a, b *iconInfo) bool {
		if a.BitCount != b.BitCount {
			return a.BitCount > b.BitCount
		}
		return side(a.Width) > side(b.Width)
	}
	l := make([]iconImage, 0, len(icon.images))
	for _, img := range icon.images {
		i := len(l)
		for i > 0 && before(&img.info, &l[i-1].info) {
			i--
		}
		l = append(l, iconImage{})
		copy(l[i+1:], l[i:])
		l[i] = img
	}
	icon.images = l
}
''')
fn('icon.go','func (icon *Icon) SaveICO(','''
func (icon *Icon) SaveICO(ico io.Writer) error {
	icon.order()
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, &iconDirHeader{Type: 1, Count: uint16(len(icon.images))})
	offset := sizeOfIconDirHeader + sizeOfIconFileDirEntry*len(icon.images)
	for _, img := range icon.images {
		img.info.BytesInRes = uint32(len(img.image))
		binary.Write(b, binary.LittleEndian, &iconFileDirEntry{img.info, uint32(offset)})
		offset += len(img.image)
	}
	for _, img := range icon.images {
		b.Write(img.image)
	}
	_, err := b.WriteTo(ico)
	return err
}
''')
fn('cursor.go','func (cursor *Cursor) SaveCUR(','''
func (cursor *Cursor) SaveCUR(ico io.Writer) error {
	cursor.order()
	dir, data := &bytes.Buffer{}, &bytes.Buffer{}
	dir.Write([]byte{0, 0, 2, 0, byte(len(cursor.images)), byte(len(cursor.images) >> 8)})
	start := sizeOfCursorDirHeader + len(cursor.images)*sizeOfCursorFileDirEntry
	for _, img := range cursor.images {
		binary.Write(dir, binary.LittleEndian, cursorFileDirEntry{
			Width:       uint8(img.info.Width),
			Height:      uint8(img.info.Height),
			XHotSpot:    img.hotSpot.X,
			YHotSpot:    img.hotSpot.Y,
			BytesInRes:  uint32(len(img.image)),
			ImageOffset: uint32(start + data.Len()),
		})
		data.Write(img.image)
	}
	if _, err := ico.Write(dir.Bytes()); err != nil {
		return err
	}
	_, err := io.Copy(ico, data)
	return err
}
''')
# rsrc
ed('rsrc.go',('''	// LCIDs in ascending order
	sort.Slice(re.orderedKeys, func(i, j int) bool {
		return re.orderedKeys[i].lessThan(re.orderedKeys[j])
	})
''','''	sortIDs(re.orderedKeys)
'''),('''func (de *dataEntry) writeData(''','''func sortIDs(l []ID) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func (de *dataEntry) writeData(''') if False else ('''func (de *dataEntry) writeData(''','''func sortIDs(l []ID) {
	sort.SliceStable(l, func(i, j int) bool { return l[j] > l[i] })
}

func (de *dataEntry) writeData('''))
fn('rsrc.go','func (rs *ResourceSet) fullSize(','''
func (rs *ResourceSet) fullSize() int {
	sz := rs.dirSize() + 2*len(rs.prepare().namesData)
	rs.eachData(func(de *dataEntry) error {
		sz += de.paddedDataSize()
		return nil
	})
	return sz
}

// eachData visits all data in any order
func (rs *ResourceSet) eachData(f func(de *dataEntry) error) error {
	for _, te := range rs.types {
		for _, re := range te.resources {
			for _, de := range re.data {
				if err := f(de); err != nil {
					return err
				}
			}
		}
	}
	return nil
}
''')
fn('rsrc.go','func (rs *ResourceSet) numDataEntries(','''
func (rs *ResourceSet) numDataEntries() (n int) {
	rs.eachData(func(*dataEntry) error { n++; return nil })
	return
}
''')
fn('rsrc.go','func (de *dataEntry) writeData(','''
func (de *dataEntry) writeData(w io.Writer) error {
	b := make([]byte, de.paddedDataSize())
	copy(b, de.data)
	_, err := w.Write(b)
	return err
}
''')
fn('winres.go','func (rs *ResourceSet) Get(','''
func (rs *ResourceSet) Get(typeID, resID Identifier, langID uint16) []byte {
	if te, ok := rs.types[typeID]; ok {
		if re, ok := te.resources[resID]; ok {
			if de, ok := re.data[ID(langID)]; ok {
				return de.data
			}
		}
	}
	return nil
}
''')
fn('winres.go','func (rs *ResourceSet) firstLang(','''
func (rs *ResourceSet) firstLang(typeID, resID Identifier) uint16 {
	te := rs.types[typeID]
	if te == nil || te.resources[resID] == nil {
		return 0
	}
	first := -1
	for lang := range te.resources[resID].data {
		if first < 0 || int(lang) < first {
			first = int(lang)
		}
	}
	if first < 0 {
		return 0
	}
	return uint16(first)
}
''')
fn('version/version.go','func (vi *Info) splitLangs(','''
func (vi *Info) splitLangs() map[uint16]*Info {
	m := make(map[uint16]*Info, len(vi.lt))
	order := append([]uint16{LangNeutral, LangDefault}, vi.lt.sortedKeys()...)
	for langID := range vi.lt {
		trans := *vi
		trans.lt = nil
		for i := len(order) - 1; i >= 0; i-- {
			if st := vi.lt[order[i]]; st != nil {
				for k, v := range *st {
					trans.Set(langID, k, v)
				}
			}
		}
		for k, v := range *vi.lt[langID] {
			trans.Set(langID, k, v)
		}
		m[langID] = &trans
	}
	return m
}
''')
fn('version/version.go','func versionStringToArray(','''
func versionStringToArray(v string) [4]uint16 {
	var ver [4]uint16
	start := strings.IndexAny(v, "0123456789")
	if start < 0 {
		return ver
	}
	part := 0
	for _, c := range []byte(v[start:]) {
		switch {
		case c >= '0' && c <= '9':
			ver[part] *= 10
			ver[part] += uint16(c) - '0'
		case c == '.' && part < len(ver)-1:
			part++
		default:
			return ver
		}
	}
	return ver
}
''')
