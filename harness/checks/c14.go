package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C14: malformed version information.

func init() {
	register(&Property{
		ID: "C14",
		Assumptions: []string{"the binary structure is at most 64 KB",
			"strings are truthful if the input has, at aligned offsets, a node with that key and value, inside a table of that language, inside a StringFileInfo, inside the root"},
		Scenarios: []mc.Scenario{
			{Name: "header fields", Weight: 3, Run: c14Fields},
			{Name: "bytes", Weight: 2, Run: c14Bytes},
			{Name: "pairs", Weight: 4, Run: c14Pairs},
			{Name: "truncations", Weight: 2, Run: c14Cut},
			{Name: "tiny", Weight: 2, Run: c14Tiny},
			{Name: "splices", Weight: 2, Run: c14Splice},
			{Name: "json", Bound: 3, ThoroughBound: 5, Weight: 3, Run: c14JSON},
			{Name: "json text", Weight: 1, Run: c14JSONText},
			{Name: "main translation", Weight: 1, Run: c14Main},
		},
	})
}

type c14base struct {
	b     []byte
	heads []int // offsets of node headers
}

var c14bases []c14base

func init() {
	v := ref.Version{File: [4]uint16{1, 2, 3, 4}, Product: [4]uint16{5, 6, 7, 8}, Type: vftDLL, Flags: ffDebug, Ticks: 132000000000000000, Langs: map[uint16]map[string]string{}}
	w := v.Clone()
	v.Langs[0x409] = map[string]string{"Ab": "12", "Abc": "", "Z": "123"}
	v.Langs[0x40C] = map[string]string{"é": "日本"}
	w.Langs[0] = map[string]string{"FileVersion": "1.2"}
	add := func(b []byte) {
		x := c14base{b: b}
		for _, n := range ref.VersionNodes(b) {
			if len(n.Key) > 0 && n.Key[0] >= '0' {
				x.heads = append(x.heads, n.From)
			}
		}
		c14bases = append(c14bases, x)
	}
	add(ref.BuildVersion(v, ref.VersionStyle{}))
	add(ref.BuildVersion(w, ref.VersionStyle{VarFirst: true, Unknown: true}))
	add(ref.BuildVersion(v, ref.VersionStyle{EmptyZero: true, Reverse: true, NoVar: true, Split: true, PadValue: 4}))
	add(ref.BuildVersion(v, ref.VersionStyle{NoFixed: true, TailPad: true}))
	v.Langs = map[uint16]map[string]string{}
	add(ref.BuildVersion(v, ref.VersionStyle{}))
}

func c14judge(r *mc.Run, b []byte, what string) {
	keep := append([]byte(nil), b...)
	if r.Tracing() {
		r.Logf("%s", what)
		r.Logf("%x", b)
	}
	r.Step()
	vi, err := version.FromBytes(b)
	if !bytes.Equal(keep, b) {
		r.Failf("%s: FromBytes changed its input", what)
	}
	if err != nil {
		if vi != nil {
			r.Failf("%s: FromBytes gives both an Info and an error", what)
		}
		r.StateStr(err.Error())
		return
	}
	if vi == nil {
		r.Failf("%s: FromBytes gives neither an Info nor an error", what)
	}
	m := meaning(vi)
	var nodes []ref.VersionNode
	for l, t := range m.Langs {
		for k, s := range t {
			if nodes == nil {
				nodes = ref.VersionNodes(b)
			}
			if !ref.Supports(nodes, l, k, s) {
				r.Failf("%s: language %#x has %q = %q, which is not in the input", what, l, k, s)
			}
		}
	}
	for i, x := range []*[4]uint16{&m.File, &m.Product} {
		if *x != ([4]uint16{}) {
			if len(b) < 92 {
				r.Failf("%s: version %v is not in the input", what, *x)
			}
			ms, ls := ref.U32(b, 48+8*i), ref.U32(b, 52+8*i)
			if *x != [4]uint16{uint16(ms >> 16), uint16(ms), uint16(ls >> 16), uint16(ls)} {
				r.Failf("%s: version %v is not in the input", what, *x)
			}
		}
	}
	c14use(r, vi, m, what)
}

// c14use exercises an Info that came from a malformed input.
func c14use(r *mc.Run, vi *version.Info, m ref.Version, what string) {
	r.Step()
	enc := encodeInfo(r, vi, m, what)
	back, err := version.FromBytes(enc)
	must(r, err, what+": FromBytes(Bytes())")
	full := m.Clone() // without empty languages
	for l, t := range full.Langs {
		if len(t) == 0 {
			delete(full.Langs, l)
		}
	}
	sameVersion(r, what+": FromBytes(Bytes())", meaning(back), full)
	j, err := json.Marshal(vi)
	if err != nil {
		if vi.Timestamp.UTC().Year() <= 9998 && vi.Timestamp.UTC().Year() >= 1 {
			r.Failf("%s: Marshal: %v", what, err)
		}
	} else {
		vj := &version.Info{}
		must(r, json.Unmarshal(j, vj), what+": Unmarshal")
		sameVersion(r, what+": JSON", meaning(vj), m)
	}
	split := vi.SplitTranslations()
	if len(split) != len(m.Langs) {
		r.Failf("%s: split into %d of %d languages", what, len(split), len(m.Langs))
	}
	merged := version.MergeTranslations(split)
	for l, t := range m.Langs {
		tab := merged.Table()
		if len(t) > 0 {
			if tab[l] == nil {
				r.Failf("%s: language %#x lost by splitting and merging", what, l)
			}
			for k, s := range t {
				if (*tab[l])[k] != s {
					r.Failf("%s: %#x %q lost by splitting and merging", what, l, k)
				}
			}
		}
	}
	main := vi.Table().GetMainTranslation()
	if len(m.Langs) > 0 && main == nil {
		r.Failf("%s: no main translation", what)
	}
	vi.SetFileVersion("1.2.3.4")
	vi.SetProductVersion("5.6")
	n := m.Clone()
	n.File, n.Product = [4]uint16{1, 2, 3, 4}, [4]uint16{5, 6}
	if len(n.Langs) == 0 {
		n.Langs[0] = map[string]string{}
	}
	for _, t := range n.Langs {
		t["FileVersion"], t["ProductVersion"] = "1.2.3.4", "5.6"
	}
	sameVersion(r, what+": after setting versions", meaning(vi), n)
	r.State(enc)
}

// c14values are interesting values for a 16 bit field.
func c14values(old int) []int {
	vs := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 16, 24, 31, 32, 36, 38, 40, 44, 51, 52, 53, 56, 60, 64, 90, 92, 96, 100, 128, 200, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}
	for _, d := range []int{-8, -4, -3, -2, -1, 1, 2, 3, 4, 8} {
		vs = append(vs, (old+d)&0xFFFF)
	}
	return vs
}

// c14Fields: every 16 bit word of every base set to every interesting value.
func c14Fields(r *mc.Run) {
	x := c14bases[r.Pick(len(c14bases))]
	o := 2 * r.Pick(len(x.b)/2)
	vs := c14values(int(ref.U16(x.b, o)))
	b := append([]byte(nil), x.b...)
	v := vs[r.Pick(len(vs))]
	ref.PutU16(b, o, uint16(v))
	c14judge(r, b, fmt.Sprintf("word at %#x set to %#x in a structure of %d bytes", o, v, len(b)))
}

// c14Bytes: every byte set to every value.
func c14Bytes(r *mc.Run) {
	x := c14bases[r.Pick(len(c14bases))]
	o := r.Pick(len(x.b))
	n := 40
	if r.Thorough {
		n = 256
	}
	v := r.Pick(n)
	if !r.Thorough {
		v = v * 13 & 0xFF
	}
	b := append([]byte(nil), x.b...)
	b[o] = byte(v)
	c14judge(r, b, fmt.Sprintf("byte at %#x set to %#x in a structure of %d bytes", o, v, len(b)))
}

// c14Pairs: lengths and value lengths of two nodes.
func c14Pairs(r *mc.Run) {
	x := c14bases[r.Pick(len(c14bases))]
	if len(x.heads) < 2 {
		r.Prune()
		return
	}
	i := r.Pick(len(x.heads))
	j := r.Pick(len(x.heads))
	fi, fj := r.Pick(2), r.Pick(2)
	oi, oj := x.heads[i]+2*fi, x.heads[j]+2*fj
	if oi >= oj {
		r.Prune()
		return
	}
	pick := func(o int) int {
		vs := []int{0, 1, 6, 8, 28, 32, 52, 64, 0xFFFF}
		old := int(ref.U16(x.b, o))
		for _, d := range []int{-4, -2, -1, 1, 2, 4} {
			vs = append(vs, (old+d)&0xFFFF)
		}
		if r.Thorough {
			vs = c14values(old)
		}
		return vs[r.Pick(len(vs))]
	}
	vi, vj := pick(oi), pick(oj)
	b := append([]byte(nil), x.b...)
	ref.PutU16(b, oi, uint16(vi))
	ref.PutU16(b, oj, uint16(vj))
	c14judge(r, b, fmt.Sprintf("words at %#x and %#x set to %#x and %#x in a structure of %d bytes", oi, oj, vi, vj, len(b)))
}

// c14Cut: every truncation, with and without the lengths of the first levels adjusted.
func c14Cut(r *mc.Run) {
	x := c14bases[r.Pick(len(c14bases))]
	n := r.Pick(len(x.b) + 1)
	k := r.Pick(8)
	b := append([]byte(nil), x.b[:n]...)
	for i, h := range x.heads {
		// lengths of all nodes but up to k innermost ones are clamped
		if h+2 <= n && h+int(ref.U16(x.b, h)) > n && i < k {
			ref.PutU16(b, h, uint16(n-h))
		}
	}
	if r.Bool() {
		b = append(b, make([]byte, len(x.b)-n)...)
	}
	c14judge(r, b, fmt.Sprintf("cut at %#x (%d levels adjusted)", n, k))
}

// c14Tiny: nodes built around every small length, every nesting level.
func c14Tiny(r *mc.Run) {
	level := r.Pick(4)
	length := r.Pick(48)
	vlen := []int{0, 1, 2, 3, 4, 16, 52, 0xFFFF}[r.Pick(8)]
	klen := r.Pick(5)
	fill := r.Pick(3)
	node := make([]byte, length)
	if length >= 4 {
		ref.PutU16(node, 0, uint16(length))
		ref.PutU16(node, 2, uint16(vlen))
	}
	for i := 6; i < length; i++ {
		if (i-6)/2 < klen {
			if i&1 == 0 {
				node[i] = 'a'
			}
		} else if i/2-3 > klen {
			node[i] = []byte{0, 1, 0xD8}[fill]
		}
	}
	w := node
	keys := []string{"VS_VERSION_INFO", "StringFileInfo", "040904b0"}[:level]
	for i := len(keys) - 1; i >= 0; i-- {
		var h []byte
		h = append(h, 0, 0, 0, 0, 1, 0)
		for _, c := range keys[i] {
			h = append(h, byte(c), 0)
		}
		h = append(h, 0, 0)
		for len(h)%4 != 0 {
			h = append(h, 0)
		}
		h = append(h, w...)
		ref.PutU16(h, 0, uint16(len(h)))
		w = h
	}
	c14judge(r, w, fmt.Sprintf("node of %d bytes, value length %d, key of %d at level %d", length, vlen, klen, level))
}

// c14Splice: a node of one structure replaced by another one's.
func c14Splice(r *mc.Run) {
	x := c14bases[r.Pick(len(c14bases))]
	y := c14bases[r.Pick(len(c14bases))]
	if len(x.heads) == 0 || len(y.heads) == 0 {
		r.Prune()
		return
	}
	i, j := x.heads[r.Pick(len(x.heads))], y.heads[r.Pick(len(y.heads))]
	n := int(ref.U16(x.b, i))
	src := y.b[j : j+int(ref.U16(y.b, j))]
	b := append([]byte(nil), x.b...)
	mode := r.Pick(3)
	switch mode {
	case 0: // overwrite
		copy(b[i:], src)
	case 1: // replace, lengths unchanged
		b = append(append(append([]byte(nil), x.b[:i]...), src...), x.b[min(len(x.b), i+n):]...)
	case 2: // insert, lengths of ancestors adjusted
		b = append(append(append([]byte(nil), x.b[:i]...), src...), make([]byte, -len(src)&3)...)
		b = append(b, x.b[i:]...)
		for _, h := range x.heads {
			if h < i && h+int(ref.U16(x.b, h)) > i {
				ref.PutU16(b, h, ref.U16(b, h)+uint16(len(src)+(-len(src)&3)))
			}
		}
	}
	c14judge(r, b, fmt.Sprintf("node at %#x of a structure put at %#x of another (mode %d)", j, i, mode))
}

// c14doc judges a JSON document; strs tells whether a key or a value is in the document.
func c14doc(r *mc.Run, doc string, allowed map[string]bool) {
	r.Logf("%s", doc)
	vi := &version.Info{}
	vi.Set(0x409, "old", "old")
	r.Step()
	err := json.Unmarshal([]byte(doc), vi)
	if err != nil {
		r.StateStr(err.Error())
		return
	}
	m := meaning(vi)
	if !json.Valid([]byte(doc)) {
		r.Failf("%s: accepted", doc)
	}
	for l, t := range m.Langs {
		for k, s := range t {
			if doc == "null" && k == "old" && s == "old" {
				continue
			}
			if allowed != nil && (!allowed[k] || !allowed[s] && s != "") {
				r.Failf("%s: language %#x has %q = %q, which is not in the document", doc, l, k, s)
			}
			if k == "" || strings.ContainsRune(k, 0) || strings.ContainsRune(s, 0) {
				r.Failf("%s: accepted %q = %q", doc, k, s)
			}
		}
	}
	c14complete(r, doc, m)
	// the same document always means the same thing
	for i := 0; i < 3; i++ {
		again := &version.Info{}
		if doc == "null" {
			again.Set(0x409, "old", "old")
		}
		must(r, json.Unmarshal([]byte(doc), again), doc+": unmarshalling again")
		sameVersion(r, doc+": unmarshalled again", meaning(again), m)
	}
	c14use(r, vi, m, doc)
}

// c14complete: strings of the languages that are named as they should be have been read,
// whatever the rest of the accepted document looks like.
func c14complete(r *mc.Run, doc string, m ref.Version) {
	var d struct {
		Info map[string]map[string]*string `json:"info"`
	}
	if json.Unmarshal([]byte(doc), &d) != nil {
		return
	}
	names := map[uint16]int{} // spellings of each language
	for l := range d.Info {
		var id uint16
		if n, _ := fmt.Sscanf(l, "%X", &id); n == 1 {
			names[id]++
		}
	}
	for l, t := range d.Info {
		id, err := strconv.ParseUint(l, 16, 16)
		if len(l) != 4 || err != nil || names[uint16(id)] != 1 {
			continue
		}
		for k, s := range t {
			if s != nil && m.Langs[uint16(id)][k] != *s {
				r.Failf("%s: language %s has %q = %q, read as %q", doc, l, k, *s, m.Langs[uint16(id)][k])
			}
		}
	}
}

// c14JSON: documents of a grammar.
func c14JSON(r *mc.Run) {
	allowed := map[string]bool{}
	for _, s := range []string{"v", "w", "k", "K", "other", "FileVersion", "é"} {
		allowed[s] = true
	}
	table := func() string {
		return []string{`{"k":"v"}`, `null`, `{}`, `{"k":null}`, `{"":"v"}`, `{"k\u0000":"v"}`, `{"\u0000":"v"}`, `{"k":"v\u0000"}`, `{"k":"\u0000"}`, `{"k":1}`, `[]`, `"x"`, `1`, `{"k":{"k":"v"}}`, `{"k":"v","k":"w"}`,
			`{"K":"v","k":"w"}`, `{"k":""}`, `{"é":"é"}`, `{"FileVersion":"v","other":"w"}`, `{"k":"v","":"w"}`, `{"k":"v","other":"w\u0000w"}`}[r.Dev(21)]
	}
	langs := []string{"0409", "409", "0000", "", "FFFF", "10000", "x", "-1", "040c", "040C", "0x409", " 0409", "0409 ", "04090", "00409", "null", "é", "0409x"}
	langsDoc := func() string {
		switch r.Dev(6) {
		case 1:
			return "null"
		case 2:
			return "[]"
		case 3:
			return "{}"
		case 4:
			return `"x"`
		case 5:
			return "0"
		}
		n := r.Dev(4)
		if n == 0 {
			n = 1
		} else {
			n--
			if n > 0 {
				n++
			}
		}
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf("%q:%s", langs[(r.Dev(len(langs))+i)%len(langs)], table()))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	odd := []string{"", `"1.2.3.4"`, `""`, `null`, `1`, `"x"`, `"1"`, `"65535.65536"`, `"-1.2"`, `"1..2"`, `"1.2.3.4.5.6"`, `"999999999999999999999"`, `" 1.2"`, `"é"`, `[]`, `"\u0000"`, `"1,2"`}
	fixed := ""
	switch r.Dev(5) {
	case 1:
		fixed = "null"
	case 2:
		fixed = "[]"
	case 3:
		fixed = `"x"`
	case 4:
		fixed = "{}"
	default:
		var parts []string
		for _, f := range []string{"file_version", "product_version"} {
			if v := odd[r.Dev(len(odd))]; v != "" {
				parts = append(parts, fmt.Sprintf("%q:%s", f, v))
			}
		}
		flags := []string{"", `"Debug"`, `"debug, PATCHED"`, `"x"`, `null`, `[]`, `""`, `1`}
		if v := flags[r.Dev(len(flags))]; v != "" {
			parts = append(parts, `"flags":`+v)
		}
		types := []string{"", `"DLL"`, `"app"`, `"x"`, `null`, `[]`, `""`, `1`}
		if v := types[r.Dev(len(types))]; v != "" {
			parts = append(parts, `"type":`+v)
		}
		ts := []string{"", `"2020-01-01T00:00:00Z"`, `null`, `""`, `"x"`, `0`, `"1601-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.9999999Z"`, `"2020-13-01T00:00:00Z"`, `"0001-01-01T00:00:00Z"`}
		if v := ts[r.Dev(len(ts))]; v != "" {
			parts = append(parts, `"timestamp":`+v)
		}
		fixed = "{" + strings.Join(parts, ",") + "}"
	}
	doc := ""
	switch r.Dev(5) {
	case 1:
		doc = "null"
	case 2:
		doc = "{}"
	case 3:
		doc = `{"info":` + langsDoc() + "}"
	case 4:
		doc = `{"info":` + langsDoc() + `,"unknown":{"x":[1,2,null]},"fixed":` + fixed + `}`
	default:
		doc = `{"fixed":` + fixed + `,"info":` + langsDoc() + "}"
	}
	c14doc(r, doc, allowed)
}

// c14JSONText: every truncation and every replaced character of a document.
func c14JSONText(r *mc.Run) {
	doc := `{"fixed":{"file_version":"1.2.3.4","flags":"Debug,Patched","type":"DLL","timestamp":"2020-01-02T03:04:05Z"},"info":{"0409":{"a":"b","c":null},"040C":{}}}`
	i := r.Pick(len(doc) + 1)
	k := r.Pick(10)
	if k == 0 {
		c14doc(r, doc[:i], nil)
		return
	}
	if i == len(doc) {
		r.Prune()
		return
	}
	c14doc(r, doc[:i]+[]string{"", "x", "0", "9", "\"", "{", "null", ":", ",", "\x00"}[k]+doc[i+1:], nil)
}

// c14Main: tables made by the caller, with missing parts.
func c14Main(r *mc.Run) {
	langs := []uint16{0, 0x409, 0x1, 0x40C, 0xFFFE, 0xFFFF}
	lt := version.LangTable{}
	var want version.StringTable
	found := uint16(0)
	for i, l := range langs {
		switch r.Pick(4) {
		case 1:
			lt[l] = nil
		case 2:
			st := version.StringTable{"k": fmt.Sprint(i)}
			lt[l] = &st
			if want == nil {
				want, found = st, l
			}
		case 3:
			st := version.StringTable{}
			lt[l] = &st
			if want == nil {
				want, found = st, l
			}
		}
	}
	if len(lt) == 0 && r.Bool() {
		lt = nil
	}
	r.Step()
	got := lt.GetMainTranslation()
	if fmt.Sprint(got) != fmt.Sprint(want) || (got == nil) != (want == nil) {
		r.Failf("main translation of %v is %v, want %v (language %#x)", keysOf(lt), got, want, found)
	}
	r.StateStr(fmt.Sprint(keysOf(lt)))
}

func keysOf(lt version.LangTable) string {
	s := ""
	for _, l := range []uint16{0, 1, 0x409, 0x40C, 0xFFFE, 0xFFFF} {
		if st, ok := lt[l]; ok {
			if st == nil {
				s += fmt.Sprintf(" %#x:nil", l)
			} else {
				s += fmt.Sprintf(" %#x:%v", l, *st)
			}
		}
	}
	return s
}
