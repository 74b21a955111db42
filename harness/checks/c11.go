package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID:          "C11",
		Rule:        "one execution per (workload, reader behaviour, writer behaviour); distinct_nontrivial counts distinct (workload, delivery pattern)",
		Assumptions: []string{"readers and writers honour the contracts of io.Reader, io.Seeker and io.Writer", "the position of an ICO or CUR stream before the call is its beginning"},
		Scenarios: []mc.Scenario{
			{Name: "short reads", Bound: 2, ThoroughBound: 3, Run: c11Short},
			{Name: "fixed chunks", Run: c11Chunks},
			{Name: "start positions", Run: c11Positions},
			{Name: "destinations", Run: c11Destinations},
			{Name: "files", Run: c11Files},
		},
	})
}

// slowReader delivers what its next function says.
type slowReader struct {
	b    *bytes.Reader
	next func(max int) (n int, eof bool) // how many bytes at most; eof: deliver io.EOF with the last bytes
}

func (s *slowReader) Read(p []byte) (int, error) {
	n, eof := s.next(len(p))
	if n > len(p) {
		n = len(p)
	}
	if n == 0 && len(p) > 0 && s.b.Len() > 0 {
		return 0, nil
	}
	k, err := s.b.Read(p[:n])
	if eof && err == nil && s.b.Len() == 0 {
		err = io.EOF
	}
	return k, err
}

func (s *slowReader) Seek(o int64, w int) (int64, error) { return s.b.Seek(o, w) }

type slowSized struct{ *slowReader }

func (s slowSized) Size() int64 { return s.b.Size() }

func pickWorkload(r *mc.Run, src bool) (*workload, []byte) {
	w := &workloads[r.Pick(len(workloads))]
	if src && w.src == nil || !src && w.src != nil && !strings.HasPrefix(w.name, "patch") {
		r.Prune()
	}
	return w, w.source()
}

func (w *workload) compare(r *mc.Run, b []byte, src io.ReadSeeker, desc interface{}) {
	ws, wb, werr := w.reference(b)
	var dst bytes.Buffer
	r.Step()
	s, err := w.run(src, &dst)
	how := fmt.Sprint(desc)
	if p, ok := desc.(*string); ok {
		how = *p
	}
	r.Logf("%s, %s: error %v", w.name, how, err)
	r.StateStr(w.name + how)
	if w.name == "is signed (no)" || w.name == "is signed (yes)" {
		// the position depends on where it was
		s, ws = strings.Fields(s + " ")[0], strings.Fields(ws + " ")[0]
	}
	if (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() {
		r.Failf("%s, %s: error %v, want %v", w.name, how, err, werr)
	}
	if s != ws {
		r.Failf("%s, %s: the result differs from reading the same bytes from memory", w.name, how)
	}
	if dst.String() != wb {
		r.Failf("%s, %s: the output differs from reading the same bytes from memory: %d bytes instead of %d, first difference at %#x", w.name, how, dst.Len(), len(wb), diffAt(dst.Bytes(), []byte(wb)))
	}
}

func c11Short(r *mc.Run) {
	w, b := pickWorkload(r, true)
	how := ""
	ops := 0
	sr := &slowReader{b: bytes.NewReader(b)}
	sr.next = func(max int) (int, bool) {
		if ops++; ops > 400 {
			return max, false
		}
		k := r.Dev(6)
		if k != 0 {
			how += fmt.Sprintf("read#%d:%d ", ops, k)
		}
		switch k {
		case 1:
			return 1, false
		case 2:
			return max / 2, false
		case 3:
			return max - 1, false
		case 4:
			return 0, false
		case 5:
			return max, true
		}
		return max, false
	}
	var src io.ReadSeeker = sr
	if r.Bool() {
		src = slowSized{sr}
	}
	w.compare(r, b, src, &how)
}

func c11Chunks(r *mc.Run) {
	w, b := pickWorkload(r, true)
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 39, 40, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768}
	n := sizes[r.Pick(len(sizes))]
	eof := r.Bool()
	zeros := r.Bool()
	z := false
	sr := &slowReader{b: bytes.NewReader(b)}
	sr.next = func(int) (int, bool) {
		z = !z
		if zeros && z {
			return 0, false
		}
		return n, eof
	}
	var src io.ReadSeeker = sr
	if r.Bool() {
		src = slowSized{sr}
	}
	w.compare(r, b, src, fmt.Sprintf("reads of at most %d bytes, eof with data %v, empty reads %v", n, eof, zeros))
}

func c11Positions(r *mc.Run) {
	w, b := pickWorkload(r, true)
	if strings.Contains(w.name, "load icon") || strings.Contains(w.name, "load cursor") {
		r.Prune()
	}
	pos := []int64{0, 1, 2, 0x3c, 0x40, 0x80, 0x200, int64(len(b)) - 1, int64(len(b)), int64(len(b)) + 1000}[r.Pick(10)]
	kind := r.Pick(7)
	br := bytes.NewReader(b)
	br.Seek(pos, io.SeekStart)
	var src io.ReadSeeker = br
	switch kind {
	case 1:
		src = &slowReader{b: br, next: func(max int) (int, bool) { return max, false }}
	case 2, 3, 4:
		dir, f := tempFile(b)
		defer os.RemoveAll(dir)
		defer func() { f.Close() }()
		p := filepath.Join(dir, "f")
		var err error
		if kind == 3 { // through a link, read only
			f.Close()
			if err = os.Symlink("f", filepath.Join(dir, "link")); err == nil {
				f, err = os.Open(filepath.Join(dir, "link"))
			}
		}
		if kind == 4 { // the name now is that of another file
			if err = os.Remove(p); err == nil {
				err = os.WriteFile(p, []byte("MZ"), 0o600)
			}
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		f.Seek(pos, io.SeekStart)
		src = f
	case 5: // a part of a larger file
		whole := append(append(ref.Pattern(0x333, 1), b...), ref.Pattern(0x777, 2)...)
		src = io.NewSectionReader(bytes.NewReader(whole), 0x333, int64(len(b)))
		src.Seek(pos, io.SeekStart)
	case 6:
		src = strings.NewReader(string(b))
		src.Seek(pos, io.SeekStart)
	}
	w.compare(r, b, src, fmt.Sprintf("position %d, reader kind %d", pos, kind))
	if strings.HasPrefix(w.name, "is signed") {
		if p, _ := src.Seek(0, io.SeekCurrent); p != pos {
			r.Failf("IsSignedEXE left the reader at %d instead of %d", p, pos)
		}
	}
}

func tempFile(b []byte) (string, *os.File) {
	dir, err := os.MkdirTemp("", "verif-c11.")
	if err != nil {
		panic("harness: " + err.Error())
	}
	p := filepath.Join(dir, "f")
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic("harness: " + err.Error())
	}
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return dir, f
}

// bareWriter only has Write.
type bareWriter struct{ b *bytes.Buffer }

func (w bareWriter) Write(p []byte) (int, error) { return w.b.Write(p) }

// seekBuf is a file in memory.
type seekBuf struct {
	b   []byte
	pos int64
	// failSeek: the type can seek but this stream cannot. noSeek: seeking has no effect (character devices).
	failSeek, noSeek bool
}

func (s *seekBuf) Write(p []byte) (int, error) {
	if n := s.pos + int64(len(p)); n > int64(len(s.b)) {
		s.b = append(s.b, make([]byte, n-int64(len(s.b)))...)
	}
	copy(s.b[s.pos:], p)
	s.pos += int64(len(p))
	return len(p), nil
}

func (s *seekBuf) Seek(o int64, w int) (int64, error) {
	if s.failSeek {
		return 0, errors.New("illegal seek")
	}
	if s.noSeek {
		return 0, nil
	}
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.b))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = o
	return o, nil
}

func (w *workload) write(r *mc.Run, b []byte, dst io.Writer, how string) []byte {
	_, wb, werr := w.reference(b)
	var src io.ReadSeeker
	if b != nil {
		src = bytes.NewReader(b)
	}
	r.Step()
	_, err := w.run(src, dst)
	r.Logf("%s, %s: error %v", w.name, how, err)
	r.StateStr(w.name + how)
	if (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() {
		r.Failf("%s, %s: error %v, want %v", w.name, how, err, werr)
	}
	return []byte(wb)
}

func c11Destinations(r *mc.Run) {
	w, b := pickWorkload(r, false)
	if b != nil && r.Bool() {
		// larger blanks
		c := &ref.PEConf{Slack: 5000, StubLen: 0x80, Sections: []ref.SecSpec{secText(0x700), secData(0x10)}, Overlay: ref.Pattern(3, 1), FileAlign: 0x1000, SectAlign: 0x1000}
		b = buildExe(c, nil, ref.RsrcStyle{})
	}
	switch k := r.Pick(8); k {
	case 0:
		var buf bytes.Buffer
		want := w.write(r, b, bareWriter{&buf}, "bare writer")
		if !bytes.Equal(buf.Bytes(), want) {
			r.Failf("%s: %d bytes in a bare writer, want %d", w.name, buf.Len(), len(want))
		}
	case 1, 2, 3, 4, 5, 6, 7:
		sb := &seekBuf{b: bytes.Repeat([]byte{0xEE}, []int{0, 0, 10, 300, 100000, 100000, 100, 1000}[k])}
		switch k {
		case 5:
			sb.pos = 100
		case 6:
			sb.failSeek, sb.pos = true, 100
		case 7:
			sb.noSeek = true
		}
		old := append([]byte(nil), sb.b...)
		from := int(sb.pos)
		want := w.write(r, b, sb, fmt.Sprintf("seekable writer kind %d", k))
		exp := append([]byte(nil), old[:from]...)
		exp = append(exp, want...)
		if len(exp) < len(old) {
			exp = append(exp, old[len(exp):]...)
		}
		if !bytes.Equal(sb.b, exp) {
			r.Failf("%s: wrong content in a seekable writer of %d bytes at position %d (seek fails: %v): got %d bytes, want %d, first difference at %#x", w.name, len(old), from, sb.failSeek, len(sb.b), len(exp), diffAt(sb.b, exp))
		}
	}
}

func c11Files(r *mc.Run) {
	w, b := pickWorkload(r, false)
	kind := r.Pick(6)
	if kind == 5 {
		pr, pw, err := os.Pipe()
		if err != nil {
			panic("harness: " + err.Error())
		}
		done := make(chan []byte)
		go func() {
			d, _ := io.ReadAll(pr)
			done <- d
		}()
		func() {
			defer func() { pw.Close() }()
			w.write(r, b, pw, "pipe")
		}()
		got := <-done
		pr.Close()
		if _, want, _ := w.reference(b); string(got) != want {
			r.Failf("%s: wrong content in a pipe: %d bytes, want %d, first difference at %#x", w.name, len(got), len(want), diffAt(got, []byte(want)))
		}
		return
	}
	old := bytes.Repeat([]byte{0xEE}, []int{0, 300, 200000, 200000, 200}[kind])
	dir, f := tempFile(old)
	defer os.RemoveAll(dir)
	defer func() { f.Close() }()
	from := 0
	switch kind {
	case 3:
		from = 77
		f.Seek(77, io.SeekStart)
	case 4:
		from = len(old)
		f.Close()
		var err error
		if f, err = os.OpenFile(filepath.Join(dir, "f"), os.O_WRONLY|os.O_APPEND, 0); err != nil {
			panic("harness: " + err.Error())
		}
	}
	want := w.write(r, b, f, fmt.Sprintf("file kind %d", kind))
	exp := append(append([]byte(nil), old[:from]...), want...)
	if len(exp) < len(old) {
		exp = append(exp, old[len(exp):]...)
	}
	got, err := os.ReadFile(filepath.Join(dir, "f"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	if !bytes.Equal(got, exp) {
		r.Failf("%s: wrong content in a file of %d bytes at position %d (kind %d): got %d bytes, want %d, first difference at %#x", w.name, len(old), from, kind, len(got), len(exp), diffAt(got, exp))
	}
}
