package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C04: what is in an executable is what LoadFromEXE returns. C05: same for one type.

func init() {
	register(&Property{
		ID: "C04", Assumptions: exeAssumptions,
		Scenarios: []mc.Scenario{
			{Name: "written", Bound: 2, ThoroughBound: 3, Weight: 3, Run: func(r *mc.Run) { c04Written(r, loadAll) }},
			{Name: "foreign", Bound: 2, ThoroughBound: 3, Weight: 3, Run: func(r *mc.Run) { c04Foreign(r, loadAll) }},
			{Name: "subsets", Weight: 3, Run: func(r *mc.Run) { c04Subsets(r, loadAll) }},
			{Name: "linked", Bound: 1, ThoroughBound: 2, Run: func(r *mc.Run) { c04LLD(r, loadAll) }},
			{Name: "Go programs", Run: func(r *mc.Run) { c04Go(r, loadAll) }},
			{Name: "reload", Bound: 2, ThoroughBound: 3, Weight: 3, Run: c04Reload},
			{Name: "large", Weight: 2, Run: c04Large},
			{Name: "limits", Weight: 2, Run: c04Limits},
			{Name: "huge", Run: c04Huge},
		},
	})
	register(&Property{
		ID: "C05", Assumptions: exeAssumptions,
		Scenarios: []mc.Scenario{
			{Name: "written", Bound: 2, ThoroughBound: 2, Weight: 3, Run: func(r *mc.Run) { c04Written(r, loadTypes) }},
			{Name: "foreign", Bound: 2, ThoroughBound: 3, Weight: 3, Run: func(r *mc.Run) { c04Foreign(r, loadTypes) }},
			{Name: "subsets", Weight: 3, Run: func(r *mc.Run) { c04Subsets(r, loadTypes) }},
			{Name: "linked", Bound: 1, ThoroughBound: 2, Run: func(r *mc.Run) { c04LLD(r, loadTypes) }},
			{Name: "Go programs", Run: func(r *mc.Run) { c04Go(r, loadTypes) }},
			{Name: "constants", Run: c05Constants},
		},
	})
}

// typeMix has resources of every type that is treated specially, and look-alikes.
var typeMix = []ref.Key{
	key(id(3), id(1), 0),
	key(id(14), name("ICON"), 0x409),
	key(id(1), id(1), 0x40c),
	key(id(12), name("CUR"), 0),
	key(id(24), id(1), 0x409),
	key(name("3"), id(14), 0),
	key(name("ICON"), name("ICON"), 7),
	key(id(0xFFFF), id(0xFFFF), 0xFFFF),
	key(id(16), id(1), 0x409),
}

func subset(r *mc.Run, keys []ref.Key, max int) []ref.Res {
	m := model{}
	for i, k := range keys {
		if len(m) < max && r.Bool() {
			m[k] = ref.Pattern(1+i*5, byte(i+1))
		}
	}
	return m.sorted()
}

// devContent: up to three resources with edge keys and sizes.
func devContent(r *mc.Run) []ref.Res {
	m := model{}
	base := []ref.Key{key(id(3), id(1), 0x409), key(id(14), id(2), 0x409), key(id(24), name("N"), 0)}
	n := 1 + r.Dev(3)
	for i := 0; i < n; i++ {
		k := base[i]
		if x := r.Dev(len(edgeTypes) + 1); x > 0 {
			k.Type = edgeTypes[x-1]
		}
		if x := r.Dev(len(edgeIdentList) + 1); x > 0 {
			k.Res = edgeIdentList[x-1]
		}
		if x := r.Dev(len(edgeLangs) + 1); x > 0 {
			k.Lang = uint32(edgeLangs[x-1])
		}
		m[k] = ref.Pattern(dataSizes[r.Dev(17)], byte(i+1))
	}
	return m.sorted()
}

// seekable is a reader at a chosen starting position.
func readerAt(b []byte, pos int) io.ReadSeeker {
	rd := bytes.NewReader(b)
	rd.Seek(int64(pos), io.SeekStart)
	return rd
}

// loadAll is the oracle of C04.
func loadAll(r *mc.Run, exe []byte, want []ref.Res) *winres.ResourceSet {
	r.Step()
	rs, err := winres.LoadFromEXE(readerAt(exe, len(exe)/3))
	must(r, err, "LoadFromEXE")
	if err := ref.SameRes(collect(rs), want); err != nil {
		r.Failf("LoadFromEXE: %v", err)
	}
	if rs.Count() != len(want) {
		r.Failf("Count() = %d, want %d", rs.Count(), len(want))
	}
	m := model{}
	for _, x := range want {
		m[x.Key] = x.Data
	}
	for k := range m {
		if d := rs.Get(wid(k.Type), wid(k.Res), uint16(k.Lang)); d == nil || !bytes.Equal(d, m[k]) {
			r.Failf("after LoadFromEXE, Get(%v) = %s, want %s", k, ref.Hex(d), ref.Hex(m[k]))
		}
	}
	return rs
}

// loadTypes is the oracle of C05: every type that is there, and types that are not.
func loadTypes(r *mc.Run, exe []byte, want []ref.Res) *winres.ResourceSet {
	types := []ref.Ident{id(1), id(3), id(12), id(14), id(24), name("ICON"), name("3"), name("nope"), id(2), id(0x7777)}
	for _, x := range want {
		types = append(types, x.Type)
	}
	done := map[ref.Ident]bool{}
	for _, t := range types {
		if done[t] {
			continue
		}
		done[t] = true
		var w []ref.Res
		for _, x := range want {
			if x.Type == t || t == id(14) && x.Type == id(3) || t == id(12) && x.Type == id(1) {
				w = append(w, x)
			}
		}
		r.Step()
		rs, err := winres.LoadFromEXESingleType(readerAt(exe, 5), wid(t))
		if err != nil {
			r.Failf("LoadFromEXESingleType(%v) failed: %v", t, err)
		}
		if err := ref.SameRes(collect(rs), w); err != nil {
			r.Failf("LoadFromEXESingleType(%v): %v", t, err)
		}
	}
	if rs, err := winres.LoadFromEXESingleType(readerAt(exe, 0), winres.ID(0)); err == nil || rs != nil {
		r.Failf("LoadFromEXESingleType(0) did not fail")
	}
	return nil
}

// The numbers of the standard types, from winuser.h
var standardTypes = []struct {
	id winres.ID
	n  uint16
}{
	{winres.RT_CURSOR, 1}, {winres.RT_BITMAP, 2}, {winres.RT_ICON, 3}, {winres.RT_MENU, 4}, {winres.RT_DIALOG, 5}, {winres.RT_STRING, 6},
	{winres.RT_FONTDIR, 7}, {winres.RT_FONT, 8}, {winres.RT_ACCELERATOR, 9}, {winres.RT_RCDATA, 10}, {winres.RT_MESSAGETABLE, 11},
	{winres.RT_GROUP_CURSOR, 12}, {winres.RT_GROUP_ICON, 14}, {winres.RT_VERSION, 16}, {winres.RT_PLUGPLAY, 19}, {winres.RT_VXD, 20},
	{winres.RT_ANICURSOR, 21}, {winres.RT_ANIICON, 22}, {winres.RT_HTML, 23}, {winres.RT_MANIFEST, 24},
}

// c05Constants: one type, asked for by its standard name, out of a subset of all of them.
func c05Constants(r *mc.Run) {
	t := standardTypes[r.Pick(len(standardTypes))]
	missing := uint16(r.Pick(26))
	var all, want []ref.Res
	for n := uint16(1); n <= 25; n++ {
		if n == missing {
			continue
		}
		x := ref.Res{Key: key(id(n), id(n+100), n), Data: ref.Pattern(int(n), byte(n))}
		all = append(all, x)
		if n == t.n || t.n == 14 && n == 3 || t.n == 12 && n == 1 {
			want = append(want, x)
		}
	}
	r.StateStr(fmt.Sprint(t.n, missing))
	c := &ref.PEConf{StubLen: 0x80, Sections: []ref.SecSpec{secText(0x300), secRsrc(all, 0, ref.RsrcStyle{})}}
	r.Step()
	rs, err := winres.LoadFromEXESingleType(bytes.NewReader(buildExe(c, all, ref.RsrcStyle{})), t.id)
	must(r, err, "LoadFromEXESingleType")
	if err := ref.SameRes(collect(rs), want); err != nil {
		r.Failf("type %d: %v", t.n, err)
	}
}

type loader func(r *mc.Run, exe []byte, want []ref.Res) *winres.ResourceSet

// c04Written: resources written into an executable by WriteToEXE.
func c04Written(r *mc.Run, load loader) {
	l := pickLayout(r, layoutOpts{arr: []string{"TD", "TDR", "TDRL", "TRD", "TDLR", "TDB", "R"}, pads: []int{0, 0x3000}, noLarge: true})
	want := devContent(r)
	rs, err := build(want)
	must(r, err, "Set")
	po := patchOpts{auth: 2}
	r.Logf("%s: %s", l.desc, ref.Dump(want))
	var dst bytes.Buffer
	r.Step()
	if err := doPatch(rs, &dst, bytes.NewReader(l.bytes), po); err != nil {
		if ok, _ := mayRefuse(l.p); !ok {
			r.Failf("WriteToEXE: %v", err)
		}
		return
	}
	r.StateStr(l.desc + ref.Dump(want))
	load(r, dst.Bytes(), want)
	// The set that was written is not changed.
	if err := ref.SameRes(collect(rs), want); err != nil {
		r.Failf("WriteToEXE changed the set: %v", err)
	}
}

// c04Foreign: resources laid out by someone else.
func c04Foreign(r *mc.Run, load loader) {
	arr := []string{"TDR", "TRDL", "TDRB", "LR", "RTDL"}[r.Pick(5)]
	var st ref.RsrcStyle
	st.DataFirst = r.Bool()
	st.NamesEarly = r.Bool()
	st.BreadthLast = r.Bool()
	st.DupNames = r.Bool()
	st.Junk = r.Bool()
	st.Align = []int{4, 1, 2, 8, 16}[r.Dev(5)]
	st.Unsorted = r.Dev(2) == 1
	st.Empty = r.Dev(2) == 1
	want := devContent(r)
	if st.Share = r.Dev(3); st.Share > 0 {
		for i := range want {
			want[i].Data = want[0].Data
		}
	}
	c := &ref.PEConf{Plus: r.Dev(2) == 1, StubLen: 0x80}
	al := [][2]uint32{{0x200, 0x1000}, {0x20, 0x20}, {0x1000, 0x1000}}[r.Dev(3)]
	c.FileAlign, c.SectAlign = al[0], al[1]
	c.Overlay = ref.Pattern([]int{0, 3}[r.Dev(2)], 1)
	dirSize := r.Dev(5)
	if r.Dev(2) == 1 { // empty data, right at the end of the section
		want[len(want)-1].Data = []byte{}
		st.EmptyAt = 1
	}
	for _, s := range arrange(arr, 0, ref.RsrcStyle{}) {
		if s.Name == ".rsrc" {
			s = secRsrc(want, 0, st)
			switch r.Dev(3) {
			case 1: // raw data larger than the virtual size
				s.VSize = uint32(len(s.Raw))
				s.RawMin = uint32(len(s.Raw)) + 0x1000
			case 2: // virtual size larger than the raw data
				s.VSize = uint32(len(s.Raw)) + 0x3000
			}
			if st.EmptyAt > 0 {
				n := uint32(len(s.Raw))
				if s.RawMin > n {
					n = s.RawMin
				}
				st.EmptyAt = int(n+c.FileAlign-1) &^ int(c.FileAlign-1)
			}
		}
		c.Sections = append(c.Sections, s)
	}
	exe := buildExe(c, want, st)
	decoy := r.Dev(3)
	if decoy > 0 { // loaders do not use the names of the sections
		exe = decoySection(exe, decoy == 2)
	}
	if dirSize > 0 { // loaders do not use the size of the directory
		p, err := ref.ParsePE(exe)
		if err != nil {
			panic(err)
		}
		ref.PutU32(exe, p.DirsOff+8*ref.DirResource+4, []uint32{0, 16, 1, p.Dirs[ref.DirResource][1] + 0x100000, 0}[dirSize])
	}
	r.Logf("%s style %+v plus=%v size=%d decoy=%d: %s", arr, st, c.Plus, dirSize, decoy, ref.Dump(want))
	if _, err := exeResources(exe); err != nil && !st.Unsorted && !st.Empty && st.Share == 0 && dirSize == 0 && st.EmptyAt == 0 && (st.Align == 0 || st.Align >= 4) {
		// the reference parser accepts what the reference builder makes, when VirtualSize fits
		if p, e := ref.ParsePE(exe); e != nil || p.Dirs[ref.DirResource][1] <= p.Secs[p.Find(p.Dirs[ref.DirResource][0])].RawSize {
			panic("harness: foreign section is invalid: " + err.Error())
		}
	}
	r.StateStr(fmt.Sprintf("%s%+v%+v%d%d%s", arr, st, c.Plus, dirSize, decoy, ref.Dump(want)))
	load(r, exe, want)
}

// decoySection names the resource section of an executable otherwise, and calls all the others ".rsrc".
// With content, the others hold resources, too, which are not those of the executable.
func decoySection(exe []byte, content bool) []byte {
	p, err := ref.ParsePE(exe)
	if err != nil {
		panic(err)
	}
	rs := p.Find(p.Dirs[ref.DirResource][0])
	for i, s := range p.Secs {
		n := ".rsrc"
		if i == rs {
			n = ".data1"
		}
		copy(exe[p.SecOff+40*i:p.SecOff+40*i+8], (n + "\x00\x00\x00\x00\x00\x00\x00\x00")[:8])
		if content && i != rs {
			b := ref.BuildRsrc(oldRes, s.VA, ref.RsrcStyle{})
			if len(b) <= int(s.RawSize) {
				copy(exe[s.Ptr:], b)
			}
		}
	}
	return exe
}

// foreignStyles are ways of laying resources out that other tools have.
var foreignStyles = []ref.RsrcStyle{
	{NamesEarly: true},
	{Unsorted: true},
	{Unsorted: true, DataFirst: true, DupNames: true},
	{DataFirst: true},
	{BreadthLast: true, Align: 1},
	{BreadthLast: true, Unsorted: true, NamesEarly: true, Junk: true},
	{DupNames: true, Junk: true, Align: 16},
	{Empty: true},
	{Empty: true, Unsorted: true, BreadthLast: true},
}

// c04Subsets: every subset of a mix of types, written by either side.
func c04Subsets(r *mc.Run, load loader) {
	want := subset(r, typeMix, 9)
	foreign := r.Pick(1 + len(foreignStyles))
	var exe []byte
	if foreign > 0 {
		if len(want) == 0 {
			r.Prune()
		}
		st := foreignStyles[foreign-1]
		c := &ref.PEConf{Sections: []ref.SecSpec{secText(0x100), secRsrc(want, 0, st)}}
		exe = buildExe(c, want, st)
	} else {
		rs, err := build(want)
		must(r, err, "Set")
		var dst bytes.Buffer
		c := simpleLayout(r.Pick(4))
		if err := rs.WriteToEXE(&dst, bytes.NewReader(buildExe(c, oldRes, ref.RsrcStyle{}))); err != nil {
			r.Failf("WriteToEXE: %v", err)
		}
		exe = dst.Bytes()
	}
	r.Logf("foreign style %v %s", foreign, ref.Dump(want))
	r.StateStr(fmt.Sprint(foreign) + ref.Dump(want))
	load(r, exe, want)
}

// c04Reload: load, modify, write, load again.
func c04Reload(r *mc.Run) {
	l := pickLayout(r, layoutOpts{arr: []string{"TDRL", "TRD"}, pads: []int{0, 0x300}, noCert: true, noLarge: true, needRsrc: true})
	m := model{}
	for _, x := range oldRes {
		m[x.Key] = x.Data
	}
	exe := l.bytes
	keys := []ref.Key{oldRes[0].Key, oldRes[1].Key, key(id(10), id(1), 0), key(name("Z"), id(5), 0x409)}
	for step := 0; step < 2; step++ {
		rs := loadAll(r, exe, m.sorted())
		k := keys[r.Pick(len(keys))]
		var d []byte
		if x := r.Pick(3); x > 0 {
			d = ref.Pattern([]int{0, 3, 0x900}[x], byte(step*3+x))
		}
		r.Logf("Set(%v, %s)", k, ref.Hex(d))
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
		m.set(k, d)
		var dst bytes.Buffer
		r.Step()
		if err := rs.WriteToEXE(&dst, bytes.NewReader(exe)); err != nil {
			if ok, _ := mayRefuse(l.p); !ok {
				r.Failf("WriteToEXE: %v", err)
			}
			return
		}
		exe = dst.Bytes()
		r.StateStr(l.desc + m.dump())
	}
	loadAll(r, exe, m.sorted())
}

// c04Large: many resources and large data.
func c04Large(r *mc.Run) {
	m := model{}
	switch r.Pick(7) {
	case 0:
		for i := 1; i <= 3000; i++ {
			m[key(id(uint16(i)), id(uint16(i*7)), uint16(i))] = ref.Pattern(i%50, byte(i))
		}
	case 1:
		for i := 1; i <= 3000; i++ {
			m[key(name(fmt.Sprint("T", i%7)), name(fmt.Sprint("R", i)), 0)] = ref.Pattern(i%50, byte(i))
		}
	case 2:
		for i := 1; i <= 0xFFFF; i++ {
			m[key(id(6), id(1), uint16(i))] = []byte{byte(i)}
		}
	case 3:
		for i := 1; i <= 0xFFFF; i++ {
			m[key(id(6), id(uint16(i)), 0)] = []byte{byte(i)}
		}
	case 4:
		m[key(id(10), id(1), 0)] = ref.Pattern(5000001, 1)
		m[key(id(10), id(2), 0)] = ref.Pattern(70000, 1)
	case 5:
		for i := 0; i < 200; i++ {
			m[key(name(longName+fmt.Sprint(i)), name(longName+fmt.Sprint(-i)), 1)] = ref.Pattern(3, byte(i))
		}
	case 6: // offsets of more than 24 bits
		m[key(id(10), id(1), 0)] = ref.Pattern(0x1000000, 1)
		m[key(id(10), id(2), 0)] = ref.Pattern(0x1234, 2)
		m[key(id(10), id(3), 0)] = ref.Pattern(0xFFFFFF, 3)
	}
	want := m.sorted()
	rs, err := build(want)
	must(r, err, "Set")
	var dst bytes.Buffer
	must(r, rs.WriteToEXE(&dst, bytes.NewReader(buildExe(simpleLayout(r.Pick(2)*2), oldRes, ref.RsrcStyle{}))), "WriteToEXE")
	r.StateStr(fmt.Sprint(len(want)))
	loadAll(r, dst.Bytes(), want)
}
