package checks

import (
	"bytes"
	"errors"
	"fmt"
	"runtime/debug"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID:          "C12",
		Rule:        "one execution per corrupted executable, each loaded, queried for a type and for its signature, and patched; distinct_nontrivial counts distinct (base, corruption, outcome)",
		Assumptions: []string{"executables that are still valid images after the corruption must also satisfy C04, C06 and C07; of those that are not, patching must only terminate, without crash or runaway output, and must refuse truncated section data, headers that overlap section data and null alignments"},
		Scenarios: []mc.Scenario{
			{Name: "header bytes", Weight: 3, Run: func(r *mc.Run) { c12Bytes(r, false) }},
			{Name: "resource table bytes", Weight: 2, Run: func(r *mc.Run) { c12Bytes(r, true) }},
			{Name: "header fields", Bound: 1, ThoroughBound: 2, Weight: 3, Run: c12Fields},
			{Name: "resource table fields", Bound: 2, ThoroughBound: 3, Weight: 3, Run: c12TableFields},
			{Name: "truncations", Run: c12Truncated},
			{Name: "directories", Run: c12Directories},
			{Name: "shared tables", Serial: true, Run: c12Shared},
		},
	})
}

type c12Base struct {
	name   string
	b      []byte
	p      *ref.PE
	rsrc   int // file offset of the resource section, -1 if none
	tables int // length of its tables
}

var c12Res = []ref.Res{
	{Key: key(name("TYP"), name("RES"), 0), Data: []byte("abc")},
	{Key: key(name("TYP"), id(5), 0x409), Data: []byte("resource data")},
	{Key: key(id(10), id(1), 0x409), Data: []byte("english")},
	{Key: key(id(10), id(1), 0x40C), Data: []byte("french")},
}

var c12Bases = func() []c12Base {
	var bs []c12Base
	add := func(n string, c *ref.PEConf, res []ref.Res, st ref.RsrcStyle) {
		b := buildExe(c, res, st)
		p, err := ref.ParsePE(b)
		if err != nil {
			panic(err)
		}
		base := c12Base{name: n, b: b, p: p, rsrc: -1}
		if va := p.Dirs[ref.DirResource][0]; va != 0 {
			s := p.Secs[p.Find(va)]
			base.rsrc = int(s.Ptr)
			base.tables = int(p.Dirs[ref.DirResource][1])
			if base.tables == 0 {
				base.tables = len(ref.BuildRsrc(res, 0, st))
			}
		}
		bs = append(bs, base)
	}
	rsrc := func(st ref.RsrcStyle) ref.SecSpec {
		return ref.SecSpec{Name: ".rsrc", Raw: ref.BuildRsrc(c12Res, 0, st), Chars: chRsrc}
	}
	add("PE32 .text .rsrc .reloc, overlay", &ref.PEConf{StubLen: 0x40, Slack: 40, Overlay: ref.Pattern(21, 1), Sections: []ref.SecSpec{secText(0x20), rsrc(ref.RsrcStyle{}), secReloc(0x10)}}, c12Res, ref.RsrcStyle{})
	add("PE32+ .text .data", &ref.PEConf{Plus: true, StubLen: 0x40, Slack: 40, NumDirs: 6, Sections: []ref.SecSpec{secText(0x20), secData(0x10)}}, nil, ref.RsrcStyle{})
	add("PE32+ .rsrc .data, signed", &ref.PEConf{Plus: true, StubLen: 0x80, CheckSum: 5, Slack: 0, Cert: ref.Pattern(16, 3), Sections: []ref.SecSpec{rsrc(ref.RsrcStyle{NamesEarly: true, DataFirst: true}), secData(0x10)}}, c12Res, ref.RsrcStyle{NamesEarly: true, DataFirst: true})
	return bs
}()

// boundedWriter refuses runaway output.
type boundedWriter struct {
	buf  bytes.Buffer
	max  int
	over bool
}

func (w *boundedWriter) Write(p []byte) (int, error) {
	if w.buf.Len()+len(p) > w.max {
		w.over = true
		return 0, errors.New("output limit")
	}
	return w.buf.Write(p)
}

var c12New = payload(300, 9)

// examine runs every operation on the bytes and judges the outcome.
func examine(r *mc.Run, b []byte, what string) {
	outc := ""
	p, perr := ref.ParsePE(b)
	// Loading
	r.Step()
	rs, err := winres.LoadFromEXE(bytes.NewReader(b))
	switch {
	case err == winres.ErrNoResources:
		outc += "none"
		if perr != nil || len(p.Dirs) > ref.DirResource && p.Dirs[ref.DirResource] != [2]uint32{} {
			r.Failf("%s: LoadFromEXE says there are no resources, but the resource directory entry is not null", what)
		}
	case err != nil:
		outc += "err"
	case perr != nil:
		r.Failf("%s: LoadFromEXE accepts an executable that cannot be parsed (%v)", what, perr)
	default:
		outc += "ok"
		i := -1
		if len(p.Dirs) > ref.DirResource {
			i = p.Find(p.Dirs[ref.DirResource][0])
		}
		if i < 0 {
			r.Failf("%s: LoadFromEXE found resources, but the resource directory entry designates no section", what)
		}
		s := p.Secs[i]
		if uint64(s.Ptr)+uint64(s.RawSize) > uint64(len(b)) {
			r.Failf("%s: LoadFromEXE found resources in a section that is out of the file", what)
		}
		want, werr := ref.LenientRsrc(b[s.Ptr:s.Ptr+s.RawSize], s.VA)
		if werr != nil {
			r.Failf("%s: LoadFromEXE accepts a resource section which is invalid: %v", what, werr)
		}
		got := collect(rs)
		if serr := ref.SameRes(got, want); serr != nil {
			r.Failf("%s: LoadFromEXE: %v", what, serr)
		}
	}
	// Signature
	r.Step()
	signed, serr := winres.IsSignedEXE(bytes.NewReader(b))
	if serr == nil {
		if perr != nil {
			r.Failf("%s: IsSignedEXE accepts an executable that cannot be parsed (%v)", what, perr)
		}
		if want := len(p.Dirs) > ref.DirSecurity && p.Dirs[ref.DirSecurity][0] != 0; signed != want {
			r.Failf("%s: IsSignedEXE says %v", what, signed)
		}
	} else if err == nil {
		r.Failf("%s: IsSignedEXE fails (%v) but LoadFromEXE succeeds", what, serr)
	}
	if r.Tracing() {
		r.Logf("%s: load: %v, signed: %v %v", what, err, signed, serr)
	}
	outc += patchBad(r, b, p, perr, what)
	r.StateStr(what + outc)
}

func patchBad(r *mc.Run, b []byte, p *ref.PE, perr error, what string) string {
	out := ""
	for auth := 0; auth < 3; auth++ {
		if auth > 0 && (perr != nil || len(p.Dirs) <= ref.DirSecurity || p.Dirs[ref.DirSecurity][0] == 0) {
			break
		}
		po := patchOpts{auth: auth}
		w := &boundedWriter{max: len(b) + 1<<22}
		r.Step()
		set, err := build(c12New)
		must(r, err, "Set")
		err = doPatch(set, w, bytes.NewReader(b), po)
		if r.Tracing() {
			r.Logf("%s: patch (%v): %v, %d bytes", what, po, err, w.buf.Len())
		}
		if w.over {
			r.Failf("%s: WriteToEXE writes more than %d bytes for an executable of %d bytes", what, w.max, len(b))
		}
		if err != nil {
			out += " err"
			continue
		}
		out += " ok"
		if perr != nil {
			r.Failf("%s: WriteToEXE accepts an executable that cannot be parsed (%v)", what, perr)
		}
		if len(p.Dirs) <= ref.DirResource {
			r.Failf("%s: WriteToEXE accepts an executable that cannot have resources", what)
		}
		if p.FileAlign == 0 || p.SectAlign == 0 {
			r.Failf("%s: WriteToEXE accepts a null alignment", what)
		}
		for i := range p.Secs {
			if p.Data(&p.Secs[i]) == nil {
				r.Failf("%s: WriteToEXE accepts section %d, which is out of the file (%#x+%#x, file size %#x)", what, i, p.Secs[i].Ptr, p.Secs[i].RawSize, len(b))
			}
		}
		if uint64(p.HdrEnd) > uint64(p.DataOffset) {
			r.Failf("%s: WriteToEXE accepts headers (end %#x) that overlap section data (%#x)", what, p.HdrEnd, p.DataOffset)
		}
		if why := c12Invalid(p, b); why != "" {
			continue
		}
		pt := analyse(r, b, w.buf.Bytes(), po)
		pt.preserved(r)
		pt.resources(r, c12New)
		pt.checksum(r)
		pt.signature(r)
	}
	return out
}

// c12Invalid tells why an executable is not in the domain of C06 (empty if it is).
func c12Invalid(p *ref.PE, b []byte) string {
	if err := p.Validate(); err != nil {
		return err.Error()
	}
	if p.SectAlign&(p.SectAlign-1) != 0 || p.FileAlign&(p.FileAlign-1) != 0 || p.FileAlign > 0x10000 || p.SectAlign > 1<<24 || p.FileAlign > p.SectAlign {
		return "alignment"
	}
	for i := range p.Secs {
		s := &p.Secs[i]
		if s.VSize == 0 || s.VA == 0 || uint64(s.VA)+uint64(s.VSize) > 1<<31 {
			return "virtual size"
		}
		if s.RawSize != 0 && !s.HasRaw() {
			return "uninitialised data with raw data"
		}
	}
	d := p.Dirs[ref.DirResource]
	ri := -1
	if d[0] != 0 {
		if ri = p.Find(d[0]); ri < 0 {
			return "resource directory"
		}
		s := &p.Secs[ri]
		if !s.HasRaw() || ref.RoundUp(s.VSize, p.SectAlign) < ref.RoundUp(s.RawSize, p.SectAlign) && false {
			return "resource section"
		}
	} else if d[1] != 0 {
		return "resource directory"
	}
	for i := range p.Dirs {
		if i == ref.DirSecurity {
			c := p.Dirs[i]
			if c[0] != 0 && (c[0] < p.DataEnd || uint64(c[0])+uint64(c[1]) > uint64(len(b))) {
				return "certificate"
			}
			continue
		}
		if i == ref.DirResource || p.Dirs[i][0] == 0 {
			continue
		}
		if j := p.Containing(p.Dirs[i][0]); j >= 0 && j == ri {
			return "directory inside the resource section"
		} else if j < 0 {
			return "dangling directory"
		}
	}
	if p.SymTab != 0 && (p.SymTab < p.DataEnd || int(p.SymTab) > len(b)) {
		return "symbol table"
	}
	return ""
}

func c12Bytes(r *mc.Run, tables bool) {
	base := &c12Bases[r.Pick(len(c12Bases))]
	from, n := 0, base.p.HdrEnd
	if tables {
		if base.rsrc < 0 {
			r.Prune()
		}
		from, n = base.rsrc, base.tables
	}
	off := from + r.Pick(n)
	if !tables && off >= 2 && off < 0x3C || !tables && off >= 0x40 && off < len(base.p.Stub) {
		r.Prune() // the contents of the stub do not matter
	}
	v := byte(r.Pick(256))
	b := append([]byte(nil), base.b...)
	b[off] = v
	examine(r, b, fmt.Sprintf("%s, byte %#x set to %#x", base.name, off, v))
}

// values of interest for a 32 bit field.
func c12Values(base *c12Base, old uint32) []uint32 {
	l := uint32(len(base.b))
	v := []uint32{0, 1, 2, 3, 7, 0x10, 0x28, 0x7F, 0xFF, 0x100, 0x1FF, 0x200, 0x400, 0xFFF, 0x1000, 0x2000, 0x3000, 0x4000, 0x7FFF, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0x80000010, 0xFFFFF000, 0xFFFFFE00, 0xFFFFFFF0, 0xFFFFFFFE, 0xFFFFFFFF,
		old + 1, old - 1, old * 2, old / 2, old + 0x200, old + 0x1000, old - 0x200, old - 0x1000, old ^ 0x80000000, l, l - 1, l + 1, l - 0x200, -l}
	for i := range base.p.Secs {
		s := &base.p.Secs[i]
		v = append(v, s.VA, s.Ptr, s.RawSize, s.VSize, s.VA+s.VSize, s.Ptr+s.RawSize, -s.Ptr, 0-s.RawSize)
	}
	return v
}

func c12Fields(r *mc.Run) {
	base := &c12Bases[r.Pick(len(c12Bases))]
	b := append([]byte(nil), base.b...)
	what := base.name
	// every aligned 16 and 32 bit word of the PE headers
	first := len(base.p.Stub)
	words := (base.p.HdrEnd-first)/2 + 1
	n := 1
	if r.Thorough {
		n = 2
	}
	corrupt := func(k int, val int, wide bool) {
		off := first + 2*(k-1)
		if k == words {
			off = 0x3C
		}
		if wide {
			if off+4 > base.p.HdrEnd {
				r.Prune()
			}
			vals := c12Values(base, ref.U32(base.b, off))
			ref.PutU32(b, off, vals[val%len(vals)])
			what += fmt.Sprintf(", field %#x set to %#x", off, vals[val%len(vals)])
		} else {
			vals := c12Values(base, uint32(ref.U16(base.b, off)))
			ref.PutU16(b, off, uint16(vals[val%len(vals)]))
			what += fmt.Sprintf(", word %#x set to %#x", off, uint16(vals[val%len(vals)]))
		}
	}
	for i := 0; i < n; i++ {
		if i == 1 {
			// a second corruption: only 32 bit fields that matter most
			fs := c12Important(base)
			k := r.Dev(len(fs) + 1)
			if k != 0 {
				vals := []uint32{0, 1, 0x200, 0x1000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, uint32(len(b)), ref.U32(base.b, fs[k-1]) + 0x200, ref.U32(base.b, fs[k-1]) - 0x200}
				v := vals[r.Pick(len(vals))]
				ref.PutU32(b, fs[k-1], v)
				what += fmt.Sprintf(", field %#x set to %#x", fs[k-1], v)
			}
			continue
		}
		if k := r.Dev(words + 1); k != 0 {
			wide := r.Bool()
			corrupt(k, r.Pick(len(c12Values(base, 0))), wide)
		}
	}
	examine(r, b, what)
}

// c12Important lists offsets of the fields that drive the layout.
func c12Important(base *c12Base) []int {
	p := base.p
	fs := []int{p.OptOff + 8, p.OptOff + 32, p.OptOff + 36, p.OptOff + 56, p.OptOff + 60, len(p.Stub) + 6, len(p.Stub) + 12}
	for _, d := range []int{ref.DirResource, ref.DirReloc, ref.DirSecurity} {
		if d < len(p.Dirs) {
			fs = append(fs, p.DirsOff+8*d, p.DirsOff+8*d+4)
		}
	}
	for i := range p.Secs {
		o := p.SecOff + 40*i
		fs = append(fs, o+8, o+12, o+16, o+20, o+36)
	}
	return fs
}

func c12TableFields(r *mc.Run) {
	base := &c12Bases[[]int{0, 2}[r.Pick(2)]]
	b := append([]byte(nil), base.b...)
	what := base.name
	words := base.tables / 4
	s := base.p.Secs[base.p.Find(base.p.Dirs[ref.DirResource][0])]
	slots := 2
	if r.Thorough {
		slots = 3
	}
	last := 0
	for i := 0; i < slots; i++ {
		k := r.Dev(words + 1)
		if k == 0 {
			continue
		}
		if k <= last {
			r.Prune()
		}
		last = k
		off := base.rsrc + 4*(k-1)
		old := ref.U32(b, off)
		vals := []uint32{0, 1, old + 1, old ^ 0x80000000, 0x10001, 0xFFFF0001, 0x80000000, 0x80000010, 0x7FFFFFFF, 0xFFFFFFFF, s.RawSize, s.RawSize | 0x80000000, s.VA, s.VA + s.RawSize, s.VA + s.RawSize - 1, s.VA - 1, uint32(base.tables) - 1 | 0x80000000, 0x18, 0x80000028, old &^ 0xFFFF, old >> 16}
		switch {
		case r.Thorough && i > 0:
			vals = vals[:6]
		case i > 0:
			vals = vals[:12]
		}
		v := vals[r.Pick(len(vals))]
		ref.PutU32(b, off, v)
		what += fmt.Sprintf(", table word %#x set to %#x", off-base.rsrc, v)
	}
	// only what concerns resources
	c12Load(r, b, what)
}

// c12Load judges LoadFromEXE and LoadFromEXESingleType.
func c12Load(r *mc.Run, b []byte, what string) {
	p, perr := ref.ParsePE(b)
	if perr != nil {
		panic("harness: " + perr.Error())
	}
	s := p.Secs[p.Find(p.Dirs[ref.DirResource][0])]
	want, werr := ref.LenientRsrc(b[s.Ptr:s.Ptr+s.RawSize], s.VA)
	r.Step()
	rs, err := winres.LoadFromEXE(bytes.NewReader(b))
	if r.Tracing() {
		r.Logf("%s: %v (reference: %v)", what, err, werr)
	}
	r.StateStr(fmt.Sprint(what, err))
	if err == nil {
		if werr != nil {
			r.Failf("%s: LoadFromEXE accepts a resource section which is invalid: %v", what, werr)
		}
		if serr := ref.SameRes(collect(rs), want); serr != nil {
			r.Failf("%s: LoadFromEXE: %v", what, serr)
		}
	}
	r.Step()
	rs, err = winres.LoadFromEXESingleType(bytes.NewReader(b), winres.ID(10))
	if err == nil {
		for _, x := range collect(rs) {
			if x.Type != id(10) {
				r.Failf("%s: LoadFromEXESingleType(10) returns %v", what, x.Key)
			}
			if werr != nil {
				continue
			}
			found := false
			for _, y := range want {
				found = found || x.Key == y.Key && bytes.Equal(x.Data, y.Data)
			}
			if !found {
				r.Failf("%s: LoadFromEXESingleType(10) returns %v with data %s, which is not in the section", what, x.Key, ref.Hex(x.Data))
			}
		}
	}
}

func c12Truncated(r *mc.Run) {
	base := &c12Bases[r.Pick(len(c12Bases))]
	n := r.Pick(len(base.b))
	examine(r, base.b[:n:n], fmt.Sprintf("%s, truncated to %d bytes", base.name, n))
}

// c12Directories: every number of data directories, whether or not the size of the optional header agrees.
func c12Directories(r *mc.Run) {
	n := r.Pick(20)
	if n >= 18 {
		n = []int{31, 200}[n-18]
	}
	c := &ref.PEConf{Plus: r.Bool(), NumDirs: n, Slack: 40}
	if n == 0 {
		c.NumDirs = -1
	}
	c.Sections = [][]ref.SecSpec{
		{secText(0x20), {Name: ".rsrc", Raw: ref.BuildRsrc(c12Res, 0, ref.RsrcStyle{}), Chars: chRsrc}, secReloc(0x10)},
		{secText(0x20), secData(0x10)},
	}[r.Pick(2)]
	if n > ref.DirSecurity && r.Bool() {
		c.Cert = ref.Pattern(16, 3)
	}
	b := buildExe(c, c12Res, ref.RsrcStyle{})
	p, err := ref.ParsePE(b)
	if err != nil {
		panic(err)
	}
	what := fmt.Sprintf("%d directories plus=%v %d sections signed=%v", n, c.Plus, len(p.Secs), c.Cert != nil)
	switch r.Pick(4) {
	case 1:
		ref.PutU32(b, p.DirsOff-4, uint32(n)+1)
		what += ", one more is declared"
	case 2:
		ref.PutU32(b, p.DirsOff-4, uint32(n)-1)
		what += ", one less is declared"
	case 3:
		ref.PutU32(b, p.DirsOff-4, uint32(n)|0x20000000)
		what += ", 2^29 more are declared"
	}
	examine(r, b, what)
}

// sharedRsrc is a resource section whose entries all designate the same tables: n types, m resources, k languages.
// Data has d bytes; when l is not zero, all types have the same name of l characters.
func sharedRsrc(n, m, k, d, l int) []byte {
	var b []byte
	u16 := func(v int) { b = append(b, byte(v), byte(v>>8)) }
	u32 := func(v uint32) { b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
	table := func(n int, named bool, target, name uint32) {
		b = append(b, make([]byte, 12)...)
		if named {
			u16(n)
			u16(0)
		} else {
			u16(0)
			u16(n)
		}
		for i := 0; i < n; i++ {
			if named {
				u32(name)
			} else {
				u32(uint32(i + 1))
			}
			u32(target)
		}
	}
	t2 := 16 + 8*n
	t3 := t2 + 16 + 8*m
	ent := t3 + 16 + 8*k
	nm := ent + 16
	dat := (nm + 2 + 2*l + 7) &^ 7
	table(n, l > 0, uint32(t2)|1<<31, uint32(nm)|1<<31)
	table(m, false, uint32(t3)|1<<31, 0)
	table(k, false, uint32(ent), 0)
	u32(uint32(dat)) // relocated below
	u32(uint32(d))
	u32(0)
	u32(0)
	u16(l)
	for i := 0; i < l; i++ {
		u16('A')
	}
	b = append(b, make([]byte, dat-len(b)+d)...)
	return b
}

// c12Shared: tables, names and data may be shared, but this must not multiply resources endlessly.
func c12Shared(r *mc.Run) {
	type shape struct{ n, m, k, d, l int }
	shapes := []shape{
		{1, 1, 1, 8, 0}, {2, 1, 1, 8, 0}, {1, 2, 1, 8, 0}, {2, 2, 2, 8, 0}, {2, 2, 2, 0, 3}, {3, 40, 2, 100, 0}, {16, 16, 16, 4, 0}, {16, 16, 16, 4000, 0}, {60, 60, 2, 100000, 0},
		{120, 120, 120, 8, 0}, {2000, 2000, 2000, 1, 0}, {2000, 2000, 1, 1, 0xFFFF}, {0xFFFF, 0xFFFF, 0, 0, 0}, {0xFFFF, 0xFFFF, 1, 1, 0}, {1, 0xFFFF, 0xFFFF, 1, 0}, {0xFFFF, 1, 0xFFFF, 1, 0},
		{1, 1, 0xFFFF, 1 << 20, 0}, {0xFFFF, 1, 1, 1 << 20, 0},
	}
	if r.Thorough {
		shapes = append(shapes, shape{0xFFFF, 1, 1, 1, 0xFFFF})
	}
	s := shapes[r.Pick(len(shapes))]
	sec := sharedRsrc(s.n, s.m, s.k, s.d, s.l)
	c := &ref.PEConf{Plus: true, StubLen: 0x40, Slack: 40, Sections: []ref.SecSpec{secText(0x20), {Name: ".rsrc", Raw: sec, Chars: chRsrc}}}
	b := ref.BuildPE(c)
	p, err := ref.ParsePE(b)
	must(r, err, "ParsePE")
	x := p.Secs[1]
	at := int(x.Ptr) + 16 + 8*s.n + 16 + 8*s.m + 16 + 8*s.k
	ref.PutU32(b, at, ref.U32(b, at)+x.VA)
	what := fmt.Sprintf("executable of %d bytes with %d entries designating the same table of %d entries, that designate the same table of %d entries, that designate the same data of %d bytes (names of %d characters)", len(b), s.n, s.m, s.k, s.d, s.l)
	if total := int64(s.n) * int64(s.m) * (int64(s.k)*int64(s.d) + 1); total < 1<<30 && s.n*s.m*s.k < 1<<20 && s.n*s.l < 1<<24 {
		examine(r, b, what)
		return
	}
	// These can only be refused
	defer debug.FreeOSMemory()
	r.Step()
	if _, err := winres.LoadFromEXE(bytes.NewReader(b)); err == nil {
		r.Failf("%s: LoadFromEXE accepts it", what)
	}
	r.StateStr(what)
}
