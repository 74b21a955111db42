package checks

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func id(n uint16) ref.Ident         { return ref.Ident{ID: uint32(n)} }
func name(s string) ref.Ident       { return ref.Ident{Named: true, Name: s} }
func fresh(n int, seed byte) []byte { return ref.Pattern(n, seed) }

// wid converts a reference identifier to the library's.
func wid(i ref.Ident) winres.Identifier {
	if i.Named {
		return winres.Name(i.Name)
	}
	return winres.ID(i.ID)
}

// rid converts back.
func rid(i winres.Identifier) ref.Ident {
	switch v := i.(type) {
	case winres.ID:
		return ref.Ident{ID: uint32(v)}
	case winres.Name:
		return ref.Ident{Named: true, Name: string(v)}
	}
	return ref.Ident{Named: true, Name: fmt.Sprintf("?%T", i)}
}

func key(t, r ref.Ident, lang uint16) ref.Key {
	return ref.Key{Type: t, Res: r, Lang: uint32(lang)}
}

// model is the reference resource set: a map.
type model map[ref.Key][]byte

func (m model) sorted() []ref.Res {
	out := make([]ref.Res, 0, len(m))
	for k, d := range m {
		out = append(out, ref.Res{Key: k, Data: d})
	}
	ref.SortRes(out)
	return out
}

func (m model) set(k ref.Key, d []byte) {
	if d == nil {
		delete(m, k)
	} else {
		m[k] = d
	}
}

func (m model) clone() model {
	n := model{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// digest identifies the whole content.
func (m model) digest() string {
	h := fnv.New128a()
	for _, x := range m.sorted() {
		fmt.Fprintf(h, "%v=%d:%s;", x.Key, len(x.Data), x.Data)
	}
	return string(h.Sum(nil))
}

func (m model) dump() string { return ref.Dump(m.sorted()) }

// collect walks the whole set.
func collect(rs *winres.ResourceSet) []ref.Res {
	var out []ref.Res
	rs.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool {
		out = append(out, ref.Res{Key: ref.Key{Type: rid(t), Res: rid(r), Lang: uint32(l)}, Data: d})
		return true
	})
	return out
}

// build makes a real set from a list.
func build(res []ref.Res) (*winres.ResourceSet, error) {
	rs := &winres.ResourceSet{}
	for _, x := range res {
		if err := rs.Set(wid(x.Type), wid(x.Res), uint16(x.Lang), x.Data); err != nil {
			return nil, err
		}
	}
	return rs, nil
}

// utf16able turns a Go string into what survives UTF-16 storage.
func utf16able(s string) string { return string(utf16.Decode(utf16.Encode([]rune(s)))) }

// isErr reports a violation when err is not nil.
func must(r *mc.Run, err error, what string) {
	if err != nil {
		r.Failf("%s failed: %v", what, err)
	}
}

// checkWalks verifies Walk, WalkType, Count, Get against the model.
func checkSet(r *mc.Run, rs *winres.ResourceSet, m model, universe []ref.Key) {
	want := m.sorted()
	got := collect(rs)
	if err := ref.SameRes(got, want); err != nil {
		r.Failf("Walk: %v", err)
	}
	checkLookups(r, rs, m, universe)
	checkTypes(r, rs, m, universe)
	if n := rs.Count(); n != len(m) {
		r.Failf("Count() = %d, want %d", n, len(m))
	}
}

func checkLookups(r *mc.Run, rs *winres.ResourceSet, m model, universe []ref.Key) {
	for _, k := range universe {
		d := rs.Get(wid(k.Type), wid(k.Res), uint16(k.Lang))
		w, ok := m[k]
		if (d != nil) != ok || !bytes.Equal(d, w) {
			r.Failf("Get(%v) = %s (nil=%v), want %s (present=%v)", k, ref.Hex(d), d == nil, ref.Hex(w), ok)
		}
	}
}

func checkTypes(r *mc.Run, rs *winres.ResourceSet, m model, universe []ref.Key) {
	types := map[ref.Ident]bool{}
	for _, k := range universe {
		types[k.Type] = true
	}
	for k := range m {
		types[k.Type] = true
	}
	var tl []ref.Ident
	for t := range types {
		tl = append(tl, t)
	}
	sort.Slice(tl, func(i, j int) bool { return tl[i].Less(tl[j]) })
	want := m.sorted()
	for _, t := range tl {
		var w, g []ref.Res
		for _, x := range want {
			if x.Type == t {
				w = append(w, x)
			}
		}
		rs.WalkType(wid(t), func(res winres.Identifier, l uint16, d []byte) bool {
			g = append(g, ref.Res{Key: ref.Key{Type: t, Res: rid(res), Lang: uint32(l)}, Data: d})
			return true
		})
		if err := ref.SameRes(g, w); err != nil {
			r.Failf("WalkType(%v): %v", t, err)
		}
	}
}

// object writes and strictly parses the COFF object; it returns the resources in directory order.
func object(r *mc.Run, rs *winres.ResourceSet, arch winres.Arch) ([]byte, []ref.Res) {
	var buf bytes.Buffer
	must(r, rs.WriteObject(&buf, arch), "WriteObject")
	res := parseObject(r, buf.Bytes(), 0x4000)
	return buf.Bytes(), res
}

func parseObject(r *mc.Run, b []byte, va uint32) []ref.Res {
	c, err := ref.ParseCOFF(b)
	if err != nil {
		r.Failf("WriteObject wrote an invalid object: %v", err)
	}
	sec, err := c.Link(va)
	if err != nil {
		r.Failf("WriteObject: %v", err)
	}
	res, info, err := ref.ParseRsrc(sec, va)
	if err != nil {
		r.Failf("WriteObject wrote an invalid resource section: %v", err)
	}
	if len(info.Entries) != len(c.RelocOff) {
		r.Failf("WriteObject: %d relocations for %d data entries", len(c.RelocOff), len(info.Entries))
	}
	seen := map[uint32]bool{}
	for _, o := range c.RelocOff {
		if seen[o] {
			r.Failf("WriteObject: two relocations at %#x", o)
		}
		seen[o] = true
	}
	for _, o := range info.Entries {
		if !seen[o] {
			r.Failf("WriteObject: data entry at %#x has no relocation", o)
		}
	}
	return res
}

// exeResources extracts the resources of an executable with the reference parsers.
func exeResources(b []byte) ([]ref.Res, error) {
	p, err := ref.ParsePE(b)
	if err != nil {
		return nil, err
	}
	if len(p.Dirs) <= ref.DirResource {
		return nil, fmt.Errorf("no resource directory entry")
	}
	d := p.Dirs[ref.DirResource]
	i := p.Find(d[0])
	if i < 0 {
		return nil, fmt.Errorf("the resource directory %#x is not a section", d[0])
	}
	s := &p.Secs[i]
	data := p.Data(s)
	if data == nil {
		return nil, fmt.Errorf("the resource section is out of bounds")
	}
	if uint64(d[1]) > uint64(s.MemSize()) {
		return nil, fmt.Errorf("the resource directory (%#x bytes) is larger than its section (%#x bytes)", d[1], s.MemSize())
	}
	if uint64(d[1]) < uint64(len(data)) {
		data = data[:d[1]]
	} else if uint64(d[1]) > uint64(len(data)) {
		return nil, fmt.Errorf("the resource directory (%#x bytes) is larger than its raw data (%#x bytes)", d[1], len(data))
	}
	res, _, err := ref.ParseRsrc(data, s.VA)
	return res, err
}

// guard runs f and reports whether it panicked.
func guard(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%.50q...(%d bytes)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

var longName = strings.Repeat("Name0123", 40) // 320 characters

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
