package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID: "C08", Assumptions: exeAssumptions,
		Scenarios: append(exeScenarios(func(r *mc.Run, p *patched, n int, want []ref.Res) {
			p.checksum(r)
		}), mc.Scenario{Name: "carries", Weight: 2, Run: c08Carries}, mc.Scenario{Name: "exact sums", Run: c08Exact}),
	})
	register(&Property{
		ID: "C09", Assumptions: exeAssumptions,
		Scenarios: []mc.Scenario{
			{Name: "refused", Bound: 2, ThoroughBound: 3, Weight: 2, Run: c09Refused},
			{Name: "patched", Bound: 2, ThoroughBound: 3, Weight: 3, Run: c09Patched},
			{Name: "detection", Bound: 2, ThoroughBound: 3, Weight: 2, Run: c09Detection},
			{Name: "damaged headers", Run: c09Damaged},
		},
	})
}

// oddReader returns at most n bytes at a time.
type oddReader struct {
	*bytes.Reader
	n int
}

func (o *oddReader) Read(p []byte) (int, error) {
	if len(p) > o.n {
		p = p[:o.n]
	}
	return o.Reader.Read(p)
}

// WriteTo is hidden so that io.Copy really reads.
func (o *oddReader) WriteTo() {}

// c08Carries: contents and lengths that exercise carries and odd tails, with sources that return few bytes at a time.
func c08Carries(r *mc.Run) {
	fill := []byte{0xFF, 0x00, 0x80, 0x01, 0xFE}[r.Pick(5)]
	ovl := r.Pick(10)
	if x := r.Pick(3); x > 0 {
		ovl += []int{0, 0x8000, 0x10000}[x]
	}
	chunk := []int{1 << 30, 1, 2, 3, 7, 511, 0x7FFF}[r.Pick(7)]
	if ovl > 10 && chunk < 7 {
		chunk += 13
	}
	orig := []uint32{0, 1, 0xFFFFFFFF, 0x10000, 0x80000000}[r.Pick(5)]
	force := r.Bool()
	c := simpleLayout(r.Pick(4))
	c.CheckSum = orig
	if r.Bool() {
		c.StubLen = 0x84
	}
	c.Overlay = bytes.Repeat([]byte{fill}, ovl)
	exe := buildExe(c, oldRes, ref.RsrcStyle{})
	for i := 0x40; i < c.StubLen; i++ {
		exe[i] = fill
	}
	resLen := []int{17, 300001}[r.Pick(2)]
	rs, err := build([]ref.Res{{Key: key(id(10), id(1), 0), Data: bytes.Repeat([]byte{fill}, resLen)}})
	must(r, err, "Set")
	var dst bytes.Buffer
	po := patchOpts{force: force}
	r.Logf("fill %#x, %d bytes of resource data, overlay %d chunk %d original checksum %#x force %v", fill, resLen, ovl, chunk, orig, force)
	r.Step()
	if err := doPatch(rs, &dst, &oddReader{bytes.NewReader(exe), chunk}, po); err != nil {
		r.Failf("WriteToEXE: %v", err)
	}
	r.StateStr(fmt.Sprint(fill, resLen, ovl, orig, force, len(exe)))
	p := analyse(r, exe, dst.Bytes(), po)
	p.checksum(r)
}

// c08Exact: the running sum takes an exact value before the last words are added.
func c08Exact(r *mc.Run) {
	target := []uint32{0xFFFF, 0, 1, 0xFFFE, 0x8000, 0x7FFF}[r.Pick(6)]
	words := []uint16{0xFFFF, 0, 1, 0xFFFE, 0x8000, 0x7FFF}
	n := r.Pick(4)
	lay := r.Pick(4)
	tail := r.Pick(4)
	chunk := []int{1 << 30, 1, 3}[r.Pick(3)]
	c := simpleLayout(lay)
	c.CheckSum = 1
	rs, err := build([]ref.Res{{Key: key(id(10), id(1), 0), Data: ref.Pattern(40, 1)}})
	must(r, err, "Set")
	// the sum of what precedes the overlay
	c.Overlay = make([]byte, 2)
	var dst bytes.Buffer
	must(r, doPatch(rs, &dst, bytes.NewReader(buildExe(c, oldRes, ref.RsrcStyle{})), patchOpts{}), "WriteToEXE")
	p, err := ref.ParsePE(dst.Bytes())
	if err != nil {
		r.Failf("the patched executable cannot be parsed: %v", err)
	}
	sum := ref.CheckSum(dst.Bytes(), p.CheckSumOff()) - uint32(dst.Len())
	w := (target + 0xFFFF - sum) % 0xFFFF
	if target == 0xFFFF && w == 0 {
		w = 0xFFFF
	}
	c.Overlay = []byte{byte(w), byte(w >> 8)}
	for i := 0; i < n; i++ {
		x := words[r.Pick(len(words))]
		c.Overlay = append(c.Overlay, byte(x), byte(x>>8))
	}
	if tail > 0 {
		c.Overlay = append(c.Overlay, []byte{0, 1, 0xFF}[tail-1])
	}
	dst.Reset()
	exe := buildExe(c, oldRes, ref.RsrcStyle{})
	r.Step()
	r.Logf("overlay %x after a sum of %#x, chunk %d", c.Overlay, sum, chunk)
	must(r, doPatch(rs, &dst, &oddReader{bytes.NewReader(exe), chunk}, patchOpts{}), "WriteToEXE")
	r.StateStr(fmt.Sprint(lay, target, chunk, c.Overlay))
	analyse(r, exe, dst.Bytes(), patchOpts{}).checksum(r)
}

// certLayout picks a signed executable.
func certLayout(r *mc.Run, arr []string) *layout {
	l := pickLayout(r, layoutOpts{arr: arr, pads: []int{0, 0x300}, noCert: true, noLarge: true})
	c := l.c
	switch r.Pick(9) {
	case 5:
		c.Cert = ref.Pattern(20, 11)
		c.CertTail = ref.Pattern(3, 13)
	case 6:
		c.Cert = ref.Pattern(0x101, 11)
		c.CertTail = ref.Pattern(7, 13)
	case 7:
		c.Cert = ref.Pattern(0x20, 11)
		c.CertTail = ref.Pattern(1, 13)
	case 8:
		c.Cert = ref.Pattern(0x20, 11)
		c.CertTail = ref.Pattern(8, 13)
	case 0:
		c.Cert = ref.Pattern(0x108, 11)
	case 1:
		c.Cert = ref.Pattern(8, 11)
	case 2: // something follows the signature
		c.Cert = ref.Pattern(0x40, 11)
		c.CertTail = ref.Pattern(24, 13)
	case 3:
		c.Cert = ref.Pattern(0x3008, 11)
	case 4: // size is not a multiple of 8
		c.Cert = ref.Pattern(0x105, 11)
	}
	st := ref.RsrcStyle{}
	b := buildExe(c, oldRes, st)
	p, err := ref.ParsePE(b)
	if err != nil {
		panic(err)
	}
	return &layout{c: c, desc: fmt.Sprintf("%s cert=%#x+%d", l.desc, len(c.Cert), len(c.CertTail)), bytes: b, p: p}
}

// writeCounter counts what reaches the destination.
type writeCounter struct {
	calls, bytes int
}

func (w *writeCounter) Write(p []byte) (int, error) {
	w.calls++
	w.bytes += len(p)
	return len(p), nil
}

// c09Refused: a signed executable is not touched without permission.
func c09Refused(r *mc.Run) {
	l := certLayout(r, []string{"TD", "TDR", "TDRL", "TRD", "TDB", "R", "LR"})
	rs, _ := build(payload(100, 1))
	var w writeCounter
	var err error
	r.Step()
	src := readerAt(l.bytes, 3)
	opt := r.Pick(6)
	switch opt {
	case 0:
		err = rs.WriteToEXE(&w, src)
	case 1:
		err = rs.WriteToEXE(&w, src, winres.ForceCheckSum())
	case 2:
		err = rs.WriteToEXE(&w, src, winres.WithAuthenticode(winres.ErrorIfSigned))
	case 3:
		err = rs.WriteToEXE(&w, src, winres.ForceCheckSum(), winres.WithAuthenticode(winres.ErrorIfSigned))
	case 4: // the last option wins
		err = rs.WriteToEXE(&w, src, winres.WithAuthenticode(winres.RemoveSignature), winres.WithAuthenticode(winres.ErrorIfSigned))
	case 5: // an empty set
		err = (&winres.ResourceSet{}).WriteToEXE(&w, src)
	}
	r.Logf("%s option %d: %v", l.desc, opt, err)
	r.StateStr(fmt.Sprint(l.desc, opt))
	if err != winres.ErrSignedPE {
		r.Failf("WriteToEXE returned %v for a signed executable", err)
	}
	if w.bytes != 0 {
		r.Failf("%d bytes were written although the executable is signed", w.bytes)
	}
}

// c09Patched: removing or ignoring the signature.
func c09Patched(r *mc.Run) {
	l := certLayout(r, nil)
	po := patchOpts{auth: 1 + r.Pick(2), force: r.Dev(2) == 1}
	n := []int{100, -1, 0x400, 0x1000, 0x2100}[r.Dev(5)]
	patchAndCheck(r, l, payload(n, 3), po, func(r *mc.Run, p *patched, n int, want []ref.Res) {
		p.signature(r)
		p.resources(r, want)
		d := p.dst
		end := uint64(d.DataEnd)
		so := l.bytes[l.p.DataEnd : len(l.bytes)-p.cut]
		if uint64(len(d.Raw)) != end+uint64(len(so)) || !bytes.Equal(d.Raw[end:], so) {
			r.Failf("%d bytes follow the sections, want %d (signature excluded)", uint64(len(d.Raw))-end, len(so))
		}
		signed, err := winres.IsSignedEXE(bytes.NewReader(d.Raw))
		must(r, err, "IsSignedEXE of the result")
		if signed != (po.auth == 2) {
			r.Failf("IsSignedEXE of the result is %v with %v", signed, po)
		}
		rs2, _ := build(want)
		err = rs2.WriteToEXE(io.Discard, bytes.NewReader(d.Raw))
		if po.auth == 1 && err == winres.ErrSignedPE || po.auth == 2 && err != winres.ErrSignedPE {
			r.Failf("patching the result again returns %v with %v", err, po)
		}
	})
}

// c09Detection: IsSignedEXE is right and leaves the reader where it was; unsigned files are never refused as signed.
func c09Detection(r *mc.Run) {
	var l *layout
	signed := r.Bool()
	arr := []string{"TD", "TDR", "TDRL", "B", "R"}
	if signed {
		l = certLayout(r, arr)
	} else {
		l = pickLayout(r, layoutOpts{arr: arr, noCert: true, noLarge: true})
	}
	exe := l.bytes
	switch r.Dev(3) {
	case 1: // only the size is set: not signed
		p := l.p
		off := p.OptOff + len(p.Opt) + 8*ref.DirSecurity
		exe = append([]byte(nil), exe...)
		ref.PutU32(exe, off, 0)
		ref.PutU32(exe, off+4, 0x100)
		signed = false
	case 2: // the entry is set, its size is null
		p := l.p
		off := p.OptOff + len(p.Opt) + 8*ref.DirSecurity
		exe = append([]byte(nil), exe...)
		ref.PutU32(exe, off, uint32(len(exe)-8))
		ref.PutU32(exe, off+4, 0)
		signed = true
	}
	pos := []int{0, 1, 0x3C, 0x200, len(exe) - 1, len(exe), len(exe) + 100}[r.Pick(7)]
	rd := readerAt(exe, pos)
	r.Step()
	got, err := winres.IsSignedEXE(rd)
	must(r, err, "IsSignedEXE")
	r.Logf("%s pos %d: %v", l.desc, pos, got)
	r.StateStr(fmt.Sprint(l.desc, pos, signed))
	if got != signed {
		r.Failf("IsSignedEXE = %v, want %v", got, signed)
	}
	if now, _ := rd.Seek(0, io.SeekCurrent); now != int64(pos) {
		r.Failf("IsSignedEXE left the reader at %d, it was at %d", now, pos)
	}
	if !signed {
		rs, _ := build(payload(3, 1))
		if err := rs.WriteToEXE(io.Discard, rd); err == winres.ErrSignedPE {
			r.Failf("WriteToEXE refused an unsigned executable as signed")
		}
	} else {
		rs, _ := build(payload(3, 1))
		if err := rs.WriteToEXE(io.Discard, rd); err != winres.ErrSignedPE {
			r.Failf("WriteToEXE of an executable whose certificate entry is set returned %v", err)
		}
	}
}

// c09Damaged: headers that are cut at every byte, or damaged: the reader is left where it was, and a file too short to
// tell if it is signed is an error.
func c09Damaged(r *mc.Run) {
	c := simpleLayout(r.Pick(4))
	signed := r.Bool()
	if signed {
		c.Cert = ref.Pattern(0x20, 3)
	}
	exe := buildExe(c, oldRes, ref.RsrcStyle{})
	p, err := ref.ParsePE(exe)
	if err != nil {
		panic("harness: " + err.Error())
	}
	entry := p.OptOff + len(p.Opt) - 8*len(p.Dirs) + 8*ref.DirSecurity + 8
	cut := r.Pick(p.HdrEnd + 2)
	what := r.Pick(3)
	switch {
	case what == 0:
		exe = exe[:cut]
	case cut == len(exe):
		r.Prune()
	default:
		exe[cut] ^= []byte{0, 0xFF, 0x80}[what]
	}
	pos := []int{0, 1, 0x3C, len(exe), len(exe) + 100}[r.Pick(5)]
	rd := readerAt(exe, pos)
	r.Step()
	got, err := winres.IsSignedEXE(rd)
	r.Logf("layout signed=%v, offset %d, damage %d, reader at %d: %v, %v", signed, cut, what, pos, got, err)
	r.StateStr(fmt.Sprint(signed, cut, what, got, err))
	if now, _ := rd.Seek(0, io.SeekCurrent); now != int64(pos) {
		r.Failf("IsSignedEXE (%v, %v) left the reader at %d, it was at %d", got, err, now, pos)
	}
	if err != nil && got {
		r.Failf("IsSignedEXE returned true and %v", err)
	}
	if what == 0 && cut < entry && err == nil {
		r.Failf("IsSignedEXE returned %v for headers of %d bytes, whose certificate entry ends at %d", got, cut, entry)
	}
	if what == 0 && err == nil && got != signed {
		r.Failf("IsSignedEXE returned %v for headers of %d bytes", got, cut)
	}
}
