package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID: "C03",
		Assumptions: []string{
			"total data below 2 GB (the COFF format has 32 bit offsets)",
			"names are valid UTF-8",
		},
		Scenarios: []mc.Scenario{
			{Name: "contents", Bound: 2, ThoroughBound: 4, Weight: 4, Run: c03Contents},
			{Name: "sizes", Weight: 2, Run: c03Sizes},
			{Name: "names", Weight: 2, Run: c03Names},
			{Name: "counts", Weight: 3, Run: c03Counts},
			{Name: "arch", Run: c03Arch},
			{Name: "limits", Weight: 2, Run: c03Limits},
			{Name: "huge", Run: c03Huge},
			{Name: "linked", Bound: 1, ThoroughBound: 2, Run: c03Linked},
			{Name: "Go programs", Bound: 1, ThoroughBound: 2, Run: c03GoLinked},
		},
	})
}

var arches = []struct {
	a       winres.Arch
	machine uint16
	reloc   uint16
}{
	{winres.ArchI386, 0x14c, 7},
	{winres.ArchAMD64, 0x8664, 3},
	{winres.ArchARM, 0x1c4, 2},
	{winres.ArchARM64, 0xaa64, 2},
}

// checkObject verifies the object against the model, for one architecture.
func checkObject(r *mc.Run, rs *winres.ResourceSet, want []ref.Res, ai int) {
	var buf bytes.Buffer
	r.Step()
	must(r, rs.WriteObject(&buf, arches[ai].a), "WriteObject")
	b := buf.Bytes()
	for _, va := range []uint32{0, 0x3000, 0x7F001000} {
		res := parseObject(r, b, va)
		if err := ref.SameRes(res, want); err != nil {
			r.Failf("after linking at %#x: %v", va, err)
		}
	}
	c, _ := ref.ParseCOFF(b)
	if c.Machine != arches[ai].machine {
		r.Failf("machine is %#x for %s, want %#x", c.Machine, arches[ai].a, arches[ai].machine)
	}
	if c.Chars != 0x40000040 {
		r.Failf("section characteristics are %#x", c.Chars)
	}
	for i, t := range c.RelocType {
		if t != arches[ai].reloc {
			r.Failf("relocation %d has type %d for %s, want %d", i, t, arches[ai].a, arches[ai].reloc)
		}
	}
}

var dataSizes = []int{1, 0, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 255, 256, 257, 4095, 4096, 65535, 65536, 65537}

// c03Contents: up to three resources whose keys and sizes deviate from plain ones.
func c03Contents(r *mc.Run) {
	n := 1 + r.Pick(3)
	ai := r.Pick(len(arches))
	m := model{}
	base := []ref.Key{key(id(10), id(1), 0x409), key(id(10), id(2), 0x409), key(id(24), name("N"), 0)}
	for i := 0; i < n; i++ {
		k := base[i]
		if x := r.Dev(len(edgeTypes) + 1); x > 0 {
			k.Type = edgeTypes[x-1]
		}
		if x := r.Dev(len(edgeIdentList) + 1); x > 0 {
			k.Res = edgeIdentList[x-1]
		}
		if x := r.Dev(len(edgeLangs) + 1); x > 0 {
			k.Lang = uint32(edgeLangs[x-1])
		}
		m[k] = ref.Pattern(dataSizes[r.Dev(17)], byte(i+1))
	}
	want := m.sorted()
	r.Logf("arch %s: %s", arches[ai].a, m.dump())
	rs, err := build(want)
	must(r, err, "Set")
	r.StateStr(fmt.Sprint(ai) + m.dump())
	checkObject(r, rs, want, ai)
}

// c03Sizes: all combinations of data sizes of three resources.
func c03Sizes(r *mc.Run) {
	m := model{}
	for i := 0; i < 3; i++ {
		m[key(id(10), id(uint16(i+1)), 0)] = ref.Pattern(dataSizes[r.Pick(len(dataSizes))], byte(i+1))
	}
	want := m.sorted()
	rs, err := build(want)
	must(r, err, "Set")
	r.Logf("%s", m.dump())
	r.StateStr(m.dump())
	checkObject(r, rs, want, 1)
}

var nameLens = []int{1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 300, 1000, 32767, 32768, 65535}

// c03Names: names of all kinds of lengths, shared or not between types and resources.
func c03Names(r *mc.Run) {
	l1 := nameLens[r.Pick(len(nameLens))]
	l2 := nameLens[r.Pick(14)]
	uni := r.Pick(4)
	shared := r.Pick(3)
	mk := func(n int, c byte) string {
		var b []rune
		for len(b) < n {
			switch uni {
			case 0:
				b = append(b, rune('A'+(len(b)+int(c))%26))
			case 1:
				b = append(b, rune(0x4E00+(len(b)*7+int(c))%0x2000))
			case 2:
				b = append(b, rune(0xE0+(len(b)+int(c))%0x1F))
			case 3:
				if len(b)+2 <= n && len(b)%3 == 0 {
					// one supplementary character counts for two code units
					b = append(b, 0x1F600+rune(c))
					n--
				} else {
					b = append(b, rune('a'+len(b)%26))
				}
			}
		}
		return string(b)
	}
	n1, n2 := mk(l1, 1), mk(l2, 2)
	m := model{}
	switch shared {
	case 0:
		m[key(name(n1), name(n2), 0)] = []byte{1}
		m[key(name(n2), name(n1), 0)] = []byte{2}
	case 1:
		m[key(name(n1), name(n1), 0)] = []byte{1}
		m[key(id(10), name(n1), 0)] = []byte{2}
		m[key(id(10), name(n2), 0)] = []byte{3}
	case 2:
		m[key(id(10), name(n1), 5)] = []byte{1, 2, 3}
		m[key(id(11), name(n2), 5)] = []byte{3, 4}
		m[key(id(12), id(3), 5)] = []byte{5}
	}
	want := m.sorted()
	r.Logf("names of %d and %d units, kind %d, sharing %d", l1, l2, uni, shared)
	rs, err := build(want)
	must(r, err, "Set")
	r.StateStr(m.dump())
	checkObject(r, rs, want, r.Pick(2))
}

// c03Counts: numbers of types, resources, languages.
func c03Counts(r *mc.Run) {
	cs := []int{1, 2, 3, 7, 8, 9, 255, 256, 257, 300}
	if r.Thorough {
		cs = append(cs, 128, 1000, 4096)
	}
	n := cs[r.Pick(len(cs))]
	axis := r.Pick(5)
	m := model{}
	for i := 0; i < n; i++ {
		d := []byte{byte(i), byte(i >> 8), 1}
		switch axis {
		case 0:
			m[key(id(uint16(1+i*3)), id(1), 0)] = d
		case 1:
			m[key(id(10), id(uint16(1+i*3)), 0)] = d
		case 2:
			m[key(id(10), id(1), uint16(i*5))] = d
		case 3:
			m[key(id(10), name(fmt.Sprintf("N%d", i)), 0)] = d
		case 4:
			m[key(name(fmt.Sprintf("N%d", i)), name(fmt.Sprintf("N%d", i/2)), uint16(i))] = d
		}
	}
	ai := r.Pick(len(arches))
	want := m.sorted()
	r.Logf("%d entries on axis %d", n, axis)
	rs, err := build(want)
	must(r, err, "Set")
	r.StateStr(fmt.Sprint(n, axis, ai))
	checkObject(r, rs, want, ai)
}

// c03Arch: unknown architectures are refused; the empty set is valid.
func c03Arch(r *mc.Run) {
	bad := []winres.Arch{"", "x86", "AMD64", "amd64 ", " amd64", "386\x00", "arm65", "i386", "x64", "unknown", "ARM", "arm6", "amd6", "armv7"}
	m := model{}
	if r.Bool() {
		m[key(id(10), id(1), 0)] = []byte("x")
	}
	rs, err := build(m.sorted())
	must(r, err, "Set")
	i := r.Pick(len(bad) + len(arches))
	r.Step()
	if i < len(bad) {
		var b bytes.Buffer
		err := rs.WriteObject(&b, bad[i])
		r.Logf("WriteObject(%q) = %v", bad[i], err)
		r.StateStr(string(bad[i]))
		if err == nil {
			r.Failf("WriteObject accepted architecture %q", bad[i])
		}
		return
	}
	r.StateStr(fmt.Sprint(i, len(m)))
	checkObject(r, rs, m.sorted(), i-len(bad))
}

// c03Limits: at the limits of the format the object is either right, or refused with an error.
func c03Limits(r *mc.Run) {
	rs, m, n, axis := limitSet(r)
	var b bytes.Buffer
	if err := rs.WriteObject(&b, winres.ArchAMD64); err != nil {
		if n <= 65535 {
			r.Failf("WriteObject refused %d resources on axis %d, within the limits of the format: %v", n, axis, err)
		}
		return
	}
	res := parseObject(r, b.Bytes(), 0)
	if err := ref.SameRes(res, m.sorted()); err != nil {
		r.Failf("%v", err)
	}
	// with other characteristics, 65535 relocations would be something else
	if c, err := ref.ParseCOFF(b.Bytes()); err != nil || c.Chars != 0x40000040 {
		r.Failf("section characteristics are %#x, %v", c.Chars, err)
	}
}

// c04Limits: the same in an executable.
func c04Limits(r *mc.Run) {
	rs, m, n, axis := limitSet(r)
	var dst bytes.Buffer
	if err := rs.WriteToEXE(&dst, bytes.NewReader(buildExe(simpleLayout(0), oldRes, ref.RsrcStyle{}))); err != nil {
		if n <= 65535 {
			r.Failf("WriteToEXE refused %d resources on axis %d, within the limits of the format: %v", n, axis, err)
		}
		return
	}
	loadAll(r, dst.Bytes(), m.sorted())
}

// limitSet returns a set with n resources that share one table, or a name of n characters.
func limitSet(r *mc.Run) (*winres.ResourceSet, model, int, int) {
	cs := []int{65534, 65535, 65536, 65537}
	n := cs[r.Pick(len(cs))]
	axis := r.Pick(7)
	second := (axis == 4 || axis == 6) && r.Bool()
	rs := &winres.ResourceSet{}
	m := model{}
	add := func(k ref.Key) {
		d := []byte{1}
		if err := rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d); err != nil {
			r.Logf("refused by Set: %v", err)
			return
		}
		m[k] = d
	}
	r.Logf("limit %d on axis %d", n, axis)
	for i := 0; i < n; i++ {
		switch axis {
		case 0: // languages
			add(key(id(10), id(uint16(1+i/65536)), uint16(i)))
		case 1: // numbers
			add(key(id(uint16(10+i/65535)), id(uint16(1+i%65535)), 0))
		case 2: // names
			add(key(id(10), name(fmt.Sprintf("%x", i)), 0))
		case 3: // names and numbers of one type
			if i%2 == 0 {
				add(key(id(10), name(fmt.Sprintf("%x", i)), 0))
			} else {
				add(key(id(10), id(uint16(i)), 0))
			}
		case 4: // length of a name
			if i == 0 {
				b := bytes.Repeat([]byte{'n'}, n)
				add(key(id(10), name(string(b)), 0))
				if second {
					add(key(id(24), id(1), 0))
				}
			}
		case 5: // named types
			add(key(name(fmt.Sprintf("%x", i)), id(1), 0))
		case 6: // length of the name of a type, in characters outside of the BMP
			if i == 0 {
				add(key(name(strings.Repeat("\U0001F600", n/2)+strings.Repeat("n", n%2)), id(1), 0))
				if second {
					add(key(id(24), id(1), 0))
				}
			}
		}
	}
	r.Step()
	r.StateStr(fmt.Sprint(n, axis))
	return rs, m, n, axis
}
