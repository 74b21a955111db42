package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
)

// Version is what a VERSIONINFO structure means.
type Version struct {
	File, Product [4]uint16
	Flags         uint32 // VS_FF_*
	Type          uint32 // VFT_*
	Ticks         uint64 // 100 ns since 1601, 0 if unset
	Langs         map[uint16]map[string]string
}

// Clone makes a deep copy.
func (v Version) Clone() Version {
	w := v
	w.Langs = map[uint16]map[string]string{}
	for l, t := range v.Langs {
		w.Langs[l] = map[string]string{}
		for k, s := range t {
			w.Langs[l][k] = s
		}
	}
	return w
}

// SortedLangs lists languages in ascending order.
func (v Version) SortedLangs() []uint16 {
	var ls []uint16
	for l := range v.Langs {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] })
	return ls
}

func sortedStrings(t map[string]string) []string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// String describes it entirely.
func (v Version) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "file %v product %v flags %#x type %d ticks %d", v.File, v.Product, v.Flags, v.Type, v.Ticks)
	for _, l := range v.SortedLangs() {
		fmt.Fprintf(&b, " [%#x", l)
		for _, k := range sortedStrings(v.Langs[l]) {
			fmt.Fprintf(&b, " %q=%q", k, v.Langs[l][k])
		}
		b.WriteString("]")
	}
	return b.String()
}

// TicksOf converts a time, rounding down or up to 100 ns.
func TicksOf(t time.Time) (lo, hi uint64) {
	if t.IsZero() {
		return 0, 0
	}
	n := uint64(t.Unix()+11644473600)*10000000 + uint64(t.Nanosecond()/100)
	if t.Nanosecond()%100 != 0 {
		return n, n + 1
	}
	return n, n
}

// TimeOf converts back.
func TimeOf(n uint64) time.Time {
	if n == 0 {
		return time.Time{}
	}
	return time.Unix(int64(n/10000000)-11644473600, int64(n%10000000)*100)
}

type vnode struct {
	key       string
	typ       uint16
	vlen      uint16
	value     []byte // what follows the key, aligned
	pos       int    // position of the value in the whole
	from, end int
}

// readVNode reads a node strictly.
func readVNode(b []byte, pos, limit int) (n vnode, err error) {
	if pos%4 != 0 {
		return n, fmt.Errorf("node at %#x is not aligned", pos)
	}
	if pos+6 > limit {
		return n, fmt.Errorf("node at %#x is truncated", pos)
	}
	l := int(U16(b, pos))
	n.from, n.end = pos, pos+l
	n.vlen, n.typ = U16(b, pos+2), U16(b, pos+4)
	if l < 6 || n.end > limit {
		return n, fmt.Errorf("node at %#x has length %#x, limit %#x", pos, l, limit)
	}
	if n.typ > 1 {
		return n, fmt.Errorf("node at %#x has type %d", pos, n.typ)
	}
	var u []uint16
	p := pos + 6
	for {
		if p+2 > n.end {
			return n, fmt.Errorf("key of the node at %#x is not terminated", pos)
		}
		c := U16(b, p)
		p += 2
		if c == 0 {
			break
		}
		u = append(u, c)
	}
	n.key = string(utf16.Decode(u))
	if p%4 != 0 {
		if p+2 <= n.end {
			if U16(b, p) != 0 {
				return n, fmt.Errorf("padding at %#x is not zero", p)
			}
		} else if n.vlen != 0 {
			return n, fmt.Errorf("node at %#x has no room for its value", pos)
		}
		p += 2
	}
	n.pos = p
	if p < n.end {
		n.value = b[p:n.end]
	}
	return n, nil
}

// children reads the child nodes from a position.
func (n vnode) children(b []byte, pos int) ([]vnode, error) {
	var out []vnode
	for pos < n.end {
		c, err := readVNode(b, pos, n.end)
		if err != nil {
			return nil, err
		}
		out = append(out, c)
		pos = c.end
		for pos%4 != 0 && pos < n.end {
			if b[pos] != 0 {
				return nil, fmt.Errorf("padding at %#x is not zero", pos)
			}
			pos++
		}
	}
	return out, nil
}

// ParseVersion strictly parses what this library writes: every length exact, everything aligned and sorted.
func ParseVersion(b []byte) (v Version, err error) {
	v.Langs = map[uint16]map[string]string{}
	root, err := readVNode(b, 0, len(b))
	if err != nil {
		return v, err
	}
	if root.end != len(b) {
		return v, fmt.Errorf("length is %#x, there are %#x bytes", root.end, len(b))
	}
	if root.key != "VS_VERSION_INFO" || root.vlen != 52 || root.typ != 0 || len(root.value) < 52 {
		return v, fmt.Errorf("root node %q, value length %d, type %d", root.key, root.vlen, root.typ)
	}
	f := root.value
	if U32(f, 0) != 0xFEEF04BD || U32(f, 4) != 0x10000 {
		return v, fmt.Errorf("fixed part has signature %#x version %#x", U32(f, 0), U32(f, 4))
	}
	for i := 0; i < 2; i++ {
		ms := U32(f, 8+8*i)
		ls := U32(f, 12+8*i)
		x := [4]uint16{uint16(ms >> 16), uint16(ms), uint16(ls >> 16), uint16(ls)}
		if i == 0 {
			v.File = x
		} else {
			v.Product = x
		}
	}
	if m := U32(f, 24); m != 0x3F {
		return v, fmt.Errorf("flags mask %#x", m)
	}
	v.Flags = U32(f, 28)
	if os := U32(f, 32); os != 0x40004 {
		return v, fmt.Errorf("file OS %#x", os)
	}
	v.Type = U32(f, 36)
	if s := U32(f, 40); s != 0 {
		return v, fmt.Errorf("file subtype %#x", s)
	}
	v.Ticks = uint64(U32(f, 44))<<32 | uint64(U32(f, 48))
	kids, err := root.children(b, root.pos+52)
	if err != nil {
		return v, err
	}
	if len(kids) != 2 || kids[0].key != "StringFileInfo" || kids[1].key != "VarFileInfo" {
		return v, fmt.Errorf("root has %d children", len(kids))
	}
	if kids[0].vlen != 0 || kids[1].vlen != 0 || kids[0].typ != 1 || kids[1].typ != 1 {
		return v, fmt.Errorf("children have a value or a wrong type")
	}
	tables, err := kids[0].children(b, kids[0].pos)
	if err != nil {
		return v, err
	}
	last := -1
	for _, t := range tables {
		if t.vlen != 0 || t.typ != 1 || len(t.key) != 8 {
			return v, fmt.Errorf("string table %q, value length %d, type %d", t.key, t.vlen, t.typ)
		}
		x, err := strconv.ParseUint(t.key, 16, 32)
		if err != nil || x&0xFFFF != 1200 {
			return v, fmt.Errorf("string table %q", t.key)
		}
		lang := int(x >> 16)
		if lang <= last {
			return v, fmt.Errorf("string tables are not sorted: %#x after %#x", lang, last)
		}
		last = lang
		m := map[string]string{}
		v.Langs[uint16(lang)] = m
		strs, err := t.children(b, t.pos)
		if err != nil {
			return v, err
		}
		prev := ""
		for _, s := range strs {
			if s.typ != 1 {
				return v, fmt.Errorf("string %q has type %d", s.key, s.typ)
			}
			if s.key <= prev {
				return v, fmt.Errorf("keys are not sorted: %q after %q", s.key, prev)
			}
			prev = s.key
			n := int(s.vlen)
			if n < 1 || len(s.value) != 2*n {
				return v, fmt.Errorf("string %q has %d bytes, value length %d", s.key, len(s.value), n)
			}
			u := make([]uint16, n)
			for i := range u {
				u[i] = U16(s.value, 2*i)
				if (u[i] == 0) != (i == n-1) {
					return v, fmt.Errorf("string %q is not properly terminated", s.key)
				}
			}
			m[s.key] = string(utf16.Decode(u[:n-1]))
		}
	}
	vars, err := kids[1].children(b, kids[1].pos)
	if err != nil {
		return v, err
	}
	if len(vars) != 1 || vars[0].key != "Translation" || vars[0].typ != 0 || int(vars[0].vlen) != len(vars[0].value) || len(vars[0].value)%4 != 0 {
		return v, fmt.Errorf("invalid VarFileInfo")
	}
	var langs []uint16
	for i := 0; i+4 <= len(vars[0].value); i += 4 {
		if cp := U16(vars[0].value, i+2); cp != 1200 {
			return v, fmt.Errorf("code page %d in Translation", cp)
		}
		langs = append(langs, U16(vars[0].value, i))
	}
	if fmt.Sprint(langs) != fmt.Sprint(v.SortedLangs()) {
		return v, fmt.Errorf("Translation lists %v, string tables are %v", langs, v.SortedLangs())
	}
	return v, nil
}

// VersionStyle is a way to lay out a VERSIONINFO.
type VersionStyle struct {
	VarFirst   bool // VarFileInfo before StringFileInfo
	NoVar      bool
	Upper      bool // upper case table keys
	Reverse    bool // unsorted tables and strings
	EmptyZero  bool // empty values have a null value length and no terminator
	Unknown    bool // unknown nodes here and there
	TailPad    bool // lengths of strings include the padding that follows
	NoFixed    bool // no fixed part
	Split      bool // one StringFileInfo per language
	OtherOS    bool
	PadValue   int  // extra zero bytes at the end of the whole
	BinaryType bool // tables and blocks have type 0
	TwoTables  bool // the strings of each language are in two tables
	FixedMore  int  // extra bytes at the end of the fixed part
}

type vbuf struct {
	b  []byte
	st VersionStyle
}

func (v *vbuf) align() {
	for len(v.b)%4 != 0 {
		v.b = append(v.b, 0)
	}
}

func (v *vbuf) u16(x uint16) { v.b = append(v.b, byte(x), byte(x>>8)) }

func (v *vbuf) node(key string, typ uint16, vlen int, f func()) {
	v.align()
	start := len(v.b)
	v.u16(0)
	v.u16(uint16(vlen))
	v.u16(typ)
	for _, c := range utf16.Encode([]rune(key)) {
		v.u16(c)
	}
	v.u16(0)
	f()
	PutU16(v.b, start, uint16(len(v.b)-start))
}

// BuildVersion builds a VERSIONINFO the way other tools may do.
func BuildVersion(x Version, st VersionStyle) []byte {
	v := &vbuf{st: st}
	block := uint16(1)
	if st.BinaryType {
		block = 0
	}
	vlen := 52 + st.FixedMore
	if st.NoFixed {
		vlen = 0
	}
	langs := x.SortedLangs()
	if st.Reverse {
		sort.Slice(langs, func(i, j int) bool { return langs[i] > langs[j] })
	}
	varInfo := func() {
		if st.NoVar {
			return
		}
		v.node("VarFileInfo", block, 0, func() {
			v.node("Translation", 0, 4*len(langs), func() {
				v.align()
				for _, l := range langs {
					v.u16(l)
					v.u16(1200)
				}
			})
		})
	}
	unknown := func() {
		if st.Unknown {
			v.node("Unknown", 0, 5, func() { v.align(); v.b = append(v.b, 1, 2, 3, 4, 5) })
		}
	}
	table1 := func(l uint16, part int) {
		k := fmt.Sprintf("%04x04b0", l)
		if st.Upper {
			k = strings.ToUpper(k)
		}
		v.node(k, block, 0, func() {
			keys := sortedStrings(x.Langs[l])
			if st.Reverse {
				sort.Sort(sort.Reverse(sort.StringSlice(keys)))
			}
			for i, key := range keys {
				if part >= 0 && i%2 != part {
					continue
				}
				u := utf16.Encode([]rune(x.Langs[l][key]))
				n := len(u) + 1
				if len(u) == 0 && st.EmptyZero {
					n = 0
				}
				v.align()
				v.node(key, 1, n, func() {
					if n == 0 {
						return
					}
					v.align()
					for _, c := range u {
						v.u16(c)
					}
					v.u16(0)
					if st.TailPad {
						v.align()
					}
				})
			}
		})
	}
	table := func(l uint16) {
		if st.TwoTables && len(x.Langs[l]) > 1 {
			table1(l, 0)
			v.align()
			table1(l, 1)
			return
		}
		table1(l, -1)
	}
	v.node("VS_VERSION_INFO", 0, vlen, func() {
		v.align()
		if !st.NoFixed {
			f := make([]byte, 52)
			os := uint32(0x40004)
			sub := uint32(0)
			mask := uint32(0x3F)
			if st.OtherOS {
				os, sub, mask = 4, 7, 0x17
			}
			for i, w := range []uint32{0xFEEF04BD, 0x10000, uint32(x.File[0])<<16 | uint32(x.File[1]), uint32(x.File[2])<<16 | uint32(x.File[3]),
				uint32(x.Product[0])<<16 | uint32(x.Product[1]), uint32(x.Product[2])<<16 | uint32(x.Product[3]), mask, x.Flags, os, x.Type, sub, uint32(x.Ticks >> 32), uint32(x.Ticks)} {
				PutU32(f, 4*i, w)
			}
			v.b = append(v.b, f...)
			for i := 0; i < st.FixedMore; i++ {
				v.b = append(v.b, 0xA5)
			}
		}
		unknown()
		if st.VarFirst {
			varInfo()
		}
		if st.Split {
			for _, l := range langs {
				v.node("StringFileInfo", block, 0, func() { table(l) })
			}
		} else {
			v.node("StringFileInfo", block, 0, func() {
				for _, l := range langs {
					table(l)
				}
			})
		}
		unknown()
		if !st.VarFirst {
			varInfo()
		}
	})
	v.b = append(v.b, make([]byte, st.PadValue)...)
	return v.b
}

// VersionNode is anything that may be read as a node of a VERSIONINFO.
type VersionNode struct {
	From, End int
	Key       string
	Value     []uint16 // ValueLength minus one units
	ok        bool
}

// VersionNodes lists everything that may be read as a node at an aligned offset.
func VersionNodes(b []byte) []VersionNode {
	var out []VersionNode
	for o := 0; o+8 <= len(b); o += 4 {
		n := VersionNode{From: o, End: o + int(U16(b, o))}
		if n.End > len(b) || n.End < o+8 {
			continue
		}
		var u []uint16
		p := o + 6
		for p+2 <= n.End && U16(b, p) != 0 {
			u = append(u, U16(b, p))
			p += 2
		}
		if len(u) == 0 || p+2 > n.End {
			continue
		}
		n.Key = string(utf16.Decode(u))
		p = (p + 2 + 3) &^ 3
		vl := int(U16(b, o+2))
		n.ok = vl == 0 || p+2*vl <= n.End
		for i := 0; i < vl-1 && n.ok; i++ {
			n.Value = append(n.Value, U16(b, p+2*i))
		}
		out = append(out, n)
	}
	return out
}

// Supports tells whether some string node, inside a table of that language, inside a StringFileInfo, inside the whole, says key=value.
func Supports(nodes []VersionNode, lang uint16, key, value string) bool {
	for _, s := range nodes {
		if !s.ok || s.Key != key || string(utf16.Decode(s.Value)) != value {
			continue
		}
		for _, t := range nodes {
			if t.From >= s.From || t.End < s.End || !keyLang(t.Key, lang) {
				continue
			}
			for _, f := range nodes {
				if f.Key == "StringFileInfo" && f.From > 0 && f.From < t.From && f.End >= t.End && nodes[0].From == 0 && nodes[0].End >= f.End {
					return true
				}
			}
		}
	}
	return false
}

// keyLang tells whether a table's key may designate a language.
func keyLang(k string, lang uint16) bool {
	k = strings.TrimSpace(k)
	for n := 1; n <= 4 && n <= len(k); n++ {
		if x, err := strconv.ParseUint(k[:n], 16, 16); err == nil && uint16(x) == lang {
			return true
		}
	}
	return false
}
