package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	for _, a := range arrangements {
		for _, po := range []patchOpts{{}, {force: true}} {
			workloads = append(workloads, workload{"patch " + a + " " + po.String(), arrLoad(a), patchLoad(1234, po)})
		}
	}
	for _, a := range []winres.Arch{winres.ArchI386, winres.ArchARM, winres.ArchARM64} {
		workloads = append(workloads, workload{"object " + string(a), nil, func(src io.ReadSeeker, dst io.Writer) (string, error) {
			rs, err := build(append(payload(3, 1), ref.Res{Key: key(name("A"), id(7), 1), Data: []byte{}}))
			if err != nil {
				return "", err
			}
			return "", rs.WriteObject(dst, a)
		}})
	}
	workloads = append(workloads, workload{"patch a big file", func() []byte {
		c := &ref.PEConf{Slack: 160, StubLen: 0x80, CheckSum: 1, Sections: []ref.SecSpec{secText(70000), secData(40000)}, Overlay: ref.Pattern(50001, 1)}
		return buildExe(c, nil, ref.RsrcStyle{})
	}, patchLoad(100, patchOpts{})})
	register(&Property{
		ID: "C10", Level: "fault_enumeration",
		Rule:        "one execution per (workload, reader kind, operation index, fault kind, one-shot or persistent); distinct_nontrivial counts distinct (workload, fault position, kind, outcome)",
		Assumptions: []string{"writers honour the io.Writer contract (a short write returns an error)", "a failing Size method or Stat call is out of scope"},
		Scenarios: []mc.Scenario{
			{Name: "faults", Bound: 2, ThoroughBound: 3, Run: c10Faults},
			{Name: "truncated sources", Run: c10Truncated},
		},
	})
}

var errInjected = errors.New("injected fault")

// injector decides the outcome of each I/O operation.
type injector struct {
	r      *mc.Run
	sticky bool
	failed bool
	off    bool
	ops    int
	desc   string
}

// fault asks whether this operation fails, and how.
func (in *injector) fault(what string, kinds int) int {
	if in.off {
		return 0
	}
	in.ops++
	if in.failed && in.sticky {
		return 1
	}
	k := in.r.Dev(kinds)
	if k != 0 {
		in.failed = true
		in.desc += fmt.Sprintf(" %s#%d:%d", what, in.ops, k)
		in.r.Logf("%s fails at operation %d (kind %d, persistent %v)", what, in.ops, k, in.sticky)
	}
	return k
}

// faultReader is a source that may fail. It never has a Size method; sizedReader adds one.
type faultReader struct {
	in *injector
	b  *bytes.Reader
}

func (f *faultReader) Read(p []byte) (int, error) {
	switch f.in.fault("read", 5) {
	case 1:
		return 0, errInjected
	case 2: // half of it, and an error
		n, _ := f.b.Read(p[:len(p)/2])
		return n, errInjected
	case 3:
		return 0, io.EOF
	case 4:
		return 0, io.ErrUnexpectedEOF
	}
	return f.b.Read(p)
}

func (f *faultReader) Seek(o int64, w int) (int64, error) {
	switch f.in.fault("seek", 5) {
	case 1:
		return 0, errInjected
	case 2: // fails with a plausible position
		n, _ := f.b.Seek(0, io.SeekCurrent)
		return n, errInjected
	case 3: // fails after moving
		f.b.Seek(o, w)
		return 0, errInjected
	case 4:
		return 0, io.EOF
	}
	return f.b.Seek(o, w)
}

type sizedReader struct{ *faultReader }

func (s sizedReader) Size() int64 { return s.b.Size() }

// faultWriter is a destination that may fail.
type faultWriter struct {
	in  *injector
	buf bytes.Buffer
}

func (f *faultWriter) Write(p []byte) (int, error) {
	switch f.in.fault("write", 7) {
	case 1:
		return 0, errInjected
	case 2:
		n, _ := f.buf.Write(p[:len(p)/2])
		return n, errInjected
	case 3: // everything was written, and yet an error
		n, _ := f.buf.Write(p)
		return n, errInjected
	case 4: // the usual error for a short write
		n, _ := f.buf.Write(p[:len(p)/2])
		return n, io.ErrShortWrite
	case 5: // errors that mean something else to code which copies
		return 0, io.EOF
	case 6:
		n, _ := f.buf.Write(p[:len(p)/2])
		return n, io.ErrUnexpectedEOF
	}
	return f.buf.Write(p)
}

// faultWriteSeeker can also seek.
type faultWriteSeeker struct {
	faultWriter
}

func (f *faultWriteSeeker) Seek(o int64, w int) (int64, error) {
	switch f.in.fault("seek of destination", 2) {
	case 1:
		return 0, errInjected
	}
	// grows with zeros, like a file
	pos := int64(f.buf.Len())
	switch w {
	case io.SeekStart:
		o -= pos
	case io.SeekCurrent, io.SeekEnd:
	}
	if o < 0 {
		return 0, errors.New("cannot seek backwards")
	}
	f.buf.Write(make([]byte, o))
	return pos + o, nil
}

type outcome struct {
	dump string
	err  error
}

type workload struct {
	name string
	src  func() []byte
	run  func(src io.ReadSeeker, dst io.Writer) (string, error)
}

func exeLoad(n int, cert bool) func() []byte {
	return func() []byte {
		c := simpleLayout(n)
		c.Overlay = ref.Pattern(100, 4)
		if cert {
			c.Cert = ref.Pattern(0x40, 5)
		}
		return buildExe(c, oldRes, ref.RsrcStyle{})
	}
}

func arrLoad(a string) func() []byte {
	return func() []byte {
		c := &ref.PEConf{Slack: 160, StubLen: 0x80, Sections: arrange(a, 0, ref.RsrcStyle{}), Overlay: ref.Pattern(9, 1)}
		return buildExe(c, oldRes, ref.RsrcStyle{})
	}
}

func patchLoad(n int, po patchOpts) func(src io.ReadSeeker, dst io.Writer) (string, error) {
	return func(src io.ReadSeeker, dst io.Writer) (string, error) {
		rs, err := build(payload(n, 3))
		if err != nil {
			return "", err
		}
		return "", doPatch(rs, dst, src, po)
	}
}

var testIcons = []ref.IcoEntry{
	{W: 16, H: 16, Planes: 1, BitCount: 32, Data: ref.Pattern(300, 1)},
	{W: 0, H: 0, Planes: 1, BitCount: 32, Data: ref.Pattern(5000, 2)},
	{W: 32, H: 32, Colors: 16, Planes: 1, BitCount: 4, Data: ref.Pattern(77, 3)},
}

var testCursors = []ref.IcoEntry{
	{W: 16, H: 16, Planes: 3, BitCount: 4, Data: ref.DIB(40, 16, 16, 1, 8, 300, 1)},
	{W: 0, H: 0, Planes: 1, BitCount: 2, Data: ref.PNG(256, 256, 2)},
	{W: 32, H: 32, Planes: 0, BitCount: 31, Data: ref.DIB(124, 32, 32, 1, 1, 77, 3)},
}

func iconDump(ic *winres.Icon) string {
	if ic == nil {
		return "nil"
	}
	var b bytes.Buffer
	if err := ic.SaveICO(&b); err != nil {
		return err.Error()
	}
	return b.String()
}

func cursorDump(c *winres.Cursor) string {
	if c == nil {
		return "nil"
	}
	var b bytes.Buffer
	if err := c.SaveCUR(&b); err != nil {
		return err.Error()
	}
	return b.String()
}

var workloads = []workload{
	{"patch, new section", exeLoad(0, false), patchLoad(700, patchOpts{})},
	{"patch PE32+, same section, checksum", exeLoad(3, false), patchLoad(700, patchOpts{force: true})},
	{"patch, abandoned section", arrLoad("TRD"), patchLoad(7000, patchOpts{})},
	{"patch, in place", arrLoad("TRDB"), patchLoad(10, patchOpts{force: true})},
	{"patch signed, remove", exeLoad(2, true), patchLoad(300, patchOpts{auth: 1})},
	{"patch signed, ignore", exeLoad(1, true), patchLoad(300, patchOpts{auth: 2})},
	{"patch signed", exeLoad(1, true), patchLoad(300, patchOpts{})},
	{"object", nil, func(src io.ReadSeeker, dst io.Writer) (string, error) {
		rs, err := build(append(payload(300, 1), ref.Res{Key: key(name("A"), name("B"), 1), Data: []byte{1, 2, 3}}))
		if err != nil {
			return "", err
		}
		return "", rs.WriteObject(dst, winres.ArchAMD64)
	}},
	{"load", exeLoad(2, false), func(src io.ReadSeeker, dst io.Writer) (string, error) {
		rs, err := winres.LoadFromEXE(src)
		if err != nil {
			return "", err
		}
		return ref.Dump(collect(rs)), nil
	}},
	{"load without resources", exeLoad(0, false), func(src io.ReadSeeker, dst io.Writer) (string, error) {
		rs, err := winres.LoadFromEXE(src)
		if err != nil {
			return "", err
		}
		return ref.Dump(collect(rs)), nil
	}},
	{"load one type", exeLoad(3, false), func(src io.ReadSeeker, dst io.Writer) (string, error) {
		rs, err := winres.LoadFromEXESingleType(src, winres.Name("OLD"))
		if err != nil {
			return "", err
		}
		return ref.Dump(collect(rs)), nil
	}},
	{"is signed (no)", exeLoad(2, false), c10IsSigned},
	{"is signed (yes)", exeLoad(1, true), c10IsSigned},
	{"load icon", func() []byte { return ref.BuildIco(1, testIcons, ref.IcoStyle{Gap: 3}) }, func(src io.ReadSeeker, dst io.Writer) (string, error) {
		ic, err := winres.LoadICO(src)
		if err != nil {
			return "", err
		}
		return iconDump(ic), nil
	}},
	{"load cursor", func() []byte { return ref.BuildIco(2, testCursors, ref.IcoStyle{Gap: 3}) }, func(src io.ReadSeeker, dst io.Writer) (string, error) {
		c, err := winres.LoadCUR(src)
		if err != nil {
			return "", err
		}
		return cursorDump(c), nil
	}},
	{"save icon", nil, func(src io.ReadSeeker, dst io.Writer) (string, error) {
		ic, err := winres.LoadICO(bytes.NewReader(ref.BuildIco(1, testIcons, ref.IcoStyle{})))
		if err != nil {
			return "", err
		}
		return "", ic.SaveICO(dst)
	}},
	{"save cursor", nil, func(src io.ReadSeeker, dst io.Writer) (string, error) {
		c, err := winres.LoadCUR(bytes.NewReader(ref.BuildIco(2, testCursors, ref.IcoStyle{})))
		if err != nil {
			return "", err
		}
		return "", c.SaveCUR(dst)
	}},
}

// c10IsSigned reports the answer and where the reader was left.
func c10IsSigned(src io.ReadSeeker, dst io.Writer) (string, error) {
	signed, err := winres.IsSignedEXE(src)
	if err != nil {
		return "", err
	}
	var fr *faultReader
	switch s := src.(type) {
	case *faultReader:
		fr = s
	case sizedReader:
		fr = s.faultReader
	default:
		pos, _ := src.Seek(0, io.SeekCurrent)
		return fmt.Sprint(signed, pos), nil
	}
	pos, _ := fr.b.Seek(0, io.SeekCurrent)
	return fmt.Sprint(signed, pos), nil
}

func (w *workload) source() []byte {
	if w.src == nil {
		return nil
	}
	return w.src()
}

// reference runs the workload without faults.
func (w *workload) reference(b []byte) (string, string, error) {
	var dst bytes.Buffer
	s, err := w.run(bytes.NewReader(b), &dst)
	return s, dst.String(), err
}

func c10Faults(r *mc.Run) {
	w := &workloads[r.Pick(len(workloads))]
	b := w.source()
	ws, wb, werr := w.reference(b)
	in := &injector{r: r, sticky: r.Bool()}
	var src io.ReadSeeker
	if b == nil {
		src = nil
	} else {
		fr := &faultReader{in: in, b: bytes.NewReader(b)}
		src = fr
		if r.Bool() {
			src = sizedReader{fr}
		}
	}
	fw := &faultWriter{in: in}
	var dst io.Writer = fw
	if r.Bool() {
		fws := &faultWriteSeeker{faultWriter{in: in}}
		fw, dst = &fws.faultWriter, fws
	}
	r.Step()
	s, err := w.run(src, dst)
	in.off = true
	r.StateStr(fmt.Sprint(w.name, in.desc, in.sticky, err))
	r.Logf("%s:%s (persistent %v): error %v", w.name, in.desc, in.sticky, err)
	if err != nil {
		if !in.failed && werr == nil {
			r.Failf("%s: error %v without any fault", w.name, err)
		}
		return
	}
	if werr != nil {
		r.Failf("%s:%s: no error, but %v is expected without the fault", w.name, in.desc, werr)
	}
	if s != ws {
		r.Failf("%s:%s (persistent %v): no error, but the result differs", w.name, in.desc, in.sticky)
	}
	if fw.buf.String() != wb {
		r.Failf("%s:%s (persistent %v): no error, but %d bytes were written instead of %d, first difference at %#x", w.name, in.desc, in.sticky, fw.buf.Len(), len(wb), diffAt(fw.buf.Bytes(), []byte(wb)))
	}
}

// c10Truncated: the source ends earlier than the headers say (every length): an error, or the same result.
func c10Truncated(r *mc.Run) {
	w := &workloads[r.Pick(len(workloads))]
	b := w.source()
	if b == nil {
		r.Prune()
	}
	ws, _, werr := w.reference(b)
	var n int
	if len(b) < 2500 {
		n = r.Pick(len(b))
	} else {
		// every length of the headers and near the end, every 16 bytes elsewhere
		h := 1000
		k := r.Pick(h + (len(b)-h)/16)
		n = k
		if k > h {
			n = h + (k-h)*16 + k%16
		}
	}
	var dst bytes.Buffer
	r.Step()
	s, err := w.run(bytes.NewReader(b[:n]), &dst)
	r.StateStr(fmt.Sprint(w.name, n, err))
	r.Logf("%s: %d bytes of %d: error %v", w.name, n, len(b), err)
	if err != nil {
		return
	}
	if werr != nil {
		r.Failf("%s: no error with %d bytes out of %d, %v expected", w.name, n, len(b), werr)
	}
	if w.name[0] == 'p' {
		// Only what follows the sections may be missing.
		p, e := ref.ParsePE(b)
		if e != nil {
			panic("harness: " + e.Error())
		}
		if n < int(p.DataEnd) {
			r.Failf("%s: no error although the source is truncated to %d bytes, inside its sections", w.name, n)
		}
		return
	}
	if s != ws {
		r.Failf("%s: no error but a different result with %d bytes out of %d", w.name, n, len(b))
	}
}
