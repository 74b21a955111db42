package ref

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"unicode/utf16"
)

// Ident identifies a resource or a type: a name or a number.
type Ident struct {
	Named bool
	Name  string
	ID    uint32
}

func (i Ident) String() string {
	if i.Named {
		if len(i.Name) > 40 {
			return fmt.Sprintf("%q...(%d)", i.Name[:40], len(i.Name))
		}
		return fmt.Sprintf("%q", i.Name)
	}
	return fmt.Sprintf("#%d", i.ID)
}

// Less is the canonical order: names in case-sensitive order, then numbers.
func (i Ident) Less(j Ident) bool {
	if i.Named != j.Named {
		return i.Named
	}
	if i.Named {
		return LessUTF16(i.Name, j.Name)
	}
	return i.ID < j.ID
}

// LessUTF16 compares UTF-16 code units: loaders search names so.
func LessUTF16(a, b string) bool {
	ra, rb := []rune(a), []rune(b)
	for k := 0; k < len(ra) && k < len(rb); k++ {
		if x, y := ra[k], rb[k]; x != y {
			// surrogates come before U+E000
			if (x > 0xFFFF) != (y > 0xFFFF) && (x >= 0xE000 && y >= 0xE000) {
				return x > 0xFFFF
			}
			return x < y
		}
	}
	return len(ra) < len(rb)
}

// Key of a resource.
type Key struct {
	Type, Res Ident
	Lang      uint32
}

func (k Key) String() string { return fmt.Sprintf("%v/%v/%#x", k.Type, k.Res, k.Lang) }

// Less is the canonical order of resources.
func (k Key) Less(l Key) bool {
	if k.Type != l.Type {
		return k.Type.Less(l.Type)
	}
	if k.Res != l.Res {
		return k.Res.Less(l.Res)
	}
	return k.Lang < l.Lang
}

// Res is one resource.
type Res struct {
	Key
	Data []byte
}

// SortRes sorts resources canonically.
func SortRes(r []Res) {
	sort.SliceStable(r, func(i, j int) bool { return r[i].Key.Less(r[j].Key) })
}

// Dump writes resources as text with data hashes (bounded), for comparisons and messages.
func Dump(r []Res) string {
	var b bytes.Buffer
	for i := range r {
		d := r[i].Data
		if len(d) > 24 {
			fmt.Fprintf(&b, "%v=%x..(%d);", r[i].Key, d[:24], len(d))
		} else {
			fmt.Fprintf(&b, "%v=%x;", r[i].Key, d)
		}
		if b.Len() > 3000 {
			fmt.Fprintf(&b, "...(%d resources)", len(r))
			break
		}
	}
	return b.String()
}

// SameRes compares two resource lists (keys, data, order).
func SameRes(a, b []Res) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d resources, want %d: got %s want %s", len(a), len(b), Dump(a), Dump(b))
	}
	for i := range a {
		if a[i].Key != b[i].Key {
			return fmt.Errorf("resource %d is %v, want %v", i, a[i].Key, b[i].Key)
		}
		if !bytes.Equal(a[i].Data, b[i].Data) {
			return fmt.Errorf("data of %v is %s, want %s", a[i].Key, Hex(a[i].Data), Hex(b[i].Data))
		}
	}
	return nil
}

// Hex abbreviates bytes.
func Hex(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x..%x(%d bytes)", b[:32], b[len(b)-8:], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

// SpanKind of a parsed region.
type span struct {
	from, to int64
	what     string
}

// RsrcInfo is what the strict parser found beside the resources.
type RsrcInfo struct {
	Entries []uint32 // file offsets (in section) of the data entries, in directory order
	Used    int64    // end of the last used byte
	spans   []span
}

// ParseRsrc parses a resource section strictly, like FindResource would see it: it checks that all parts
// are in bounds, do not overlap (names may be shared), that tables are sorted so that a binary search
// finds every entry, and returns the resources in directory order. va is the virtual address that data
// entries are relative to; end is the number of meaningful bytes.
func ParseRsrc(sec []byte, va uint32) ([]Res, *RsrcInfo, error) {
	info := &RsrcInfo{}
	names := map[uint32]string{}
	add := func(from, n int64, what string) error {
		if from < 0 || from+n > int64(len(sec)) {
			return fmt.Errorf("%s at %#x+%#x is out of the section (%#x bytes)", what, from, n, len(sec))
		}
		info.spans = append(info.spans, span{from, from + n, what})
		if from+n > info.Used {
			info.Used = from + n
		}
		return nil
	}
	type ent struct {
		id   Ident
		off  uint32
		sub  bool
		name uint32
	}
	table := func(off uint32, level int) ([]ent, error) {
		if err := add(int64(off), 16, fmt.Sprintf("level %d directory table", level)); err != nil {
			return nil, err
		}
		nn, ni := int(U16(sec, int(off)+12)), int(U16(sec, int(off)+14))
		if err := add(int64(off)+16, int64(8*(nn+ni)), fmt.Sprintf("level %d directory entries", level)); err != nil {
			return nil, err
		}
		var es []ent
		for i := 0; i < nn+ni; i++ {
			id, o := U32(sec, int(off)+16+8*i), U32(sec, int(off)+20+8*i)
			e := ent{off: o &^ (1 << 31), sub: o>>31 != 0}
			if id>>31 != 0 {
				if i >= nn {
					return nil, fmt.Errorf("level %d: named entry %d after the %d declared named entries", level, i, nn)
				}
				no := id &^ (1 << 31)
				s, ok := names[no]
				if !ok {
					if int64(no)+2 > int64(len(sec)) {
						return nil, errors.New("name out of bounds")
					}
					l := int(U16(sec, int(no)))
					if err := add(int64(no), int64(2+2*l), "name"); err != nil {
						return nil, err
					}
					u := make([]uint16, l)
					for j := range u {
						u[j] = U16(sec, int(no)+2+2*j)
					}
					s = string(utf16.Decode(u))
					names[no] = s
				}
				e.id = Ident{Named: true, Name: s}
				e.name = no
			} else {
				if i < nn {
					return nil, fmt.Errorf("level %d: number %d among the %d declared named entries", level, id, nn)
				}
				if id > 0xFFFF {
					return nil, fmt.Errorf("level %d: identifier %#x is out of range", level, id)
				}
				e.id = Ident{ID: id}
			}
			if len(es) > 0 && !es[len(es)-1].id.Less(e.id) {
				return nil, fmt.Errorf("level %d: entries %v and %v are not in ascending order", level, es[len(es)-1].id, e.id)
			}
			es = append(es, e)
		}
		return es, nil
	}
	var out []Res
	types, err := table(0, 1)
	if err != nil {
		return nil, nil, err
	}
	for _, t := range types {
		if !t.sub {
			return nil, nil, fmt.Errorf("type %v does not lead to a directory", t.id)
		}
		ress, err := table(t.off, 2)
		if err != nil {
			return nil, nil, err
		}
		if len(ress) == 0 {
			return nil, nil, fmt.Errorf("type %v is empty", t.id)
		}
		for _, r := range ress {
			if !r.sub {
				return nil, nil, fmt.Errorf("resource %v does not lead to a directory", r.id)
			}
			langs, err := table(r.off, 3)
			if err != nil {
				return nil, nil, err
			}
			if len(langs) == 0 {
				return nil, nil, fmt.Errorf("resource %v/%v is empty", t.id, r.id)
			}
			for _, l := range langs {
				if l.sub || l.id.Named {
					return nil, nil, fmt.Errorf("language entry %v of %v/%v is not a leaf", l.id, t.id, r.id)
				}
				if l.off&3 != 0 {
					return nil, nil, fmt.Errorf("data entry of %v/%v/%v is not aligned", t.id, r.id, l.id)
				}
				if err := add(int64(l.off), 16, "data entry"); err != nil {
					return nil, nil, err
				}
				rva, sz := U32(sec, int(l.off)), U32(sec, int(l.off)+4)
				if rva < va {
					return nil, nil, fmt.Errorf("data of %v/%v/%v starts before the section", t.id, r.id, l.id)
				}
				if (rva-va)&3 != 0 {
					return nil, nil, fmt.Errorf("data of %v/%v/%v is not aligned to 4 bytes", t.id, r.id, l.id)
				}
				if sz > 0 {
					if err := add(int64(rva-va), int64(sz), "data"); err != nil {
						return nil, nil, err
					}
				} else if int64(rva-va) > int64(len(sec)) {
					return nil, nil, fmt.Errorf("empty data of %v/%v/%v is out of the section", t.id, r.id, l.id)
				}
				info.Entries = append(info.Entries, l.off)
				out = append(out, Res{Key{t.id, r.id, l.id.ID}, sec[rva-va : rva-va+sz]})
			}
		}
	}
	sort.Slice(info.spans, func(i, j int) bool { return info.spans[i].from < info.spans[j].from })
	for i := 1; i < len(info.spans); i++ {
		if info.spans[i-1].to > info.spans[i].from {
			return nil, nil, fmt.Errorf("%s at %#x-%#x overlaps %s at %#x-%#x", info.spans[i-1].what, info.spans[i-1].from, info.spans[i-1].to,
				info.spans[i].what, info.spans[i].from, info.spans[i].to)
		}
	}
	return out, info, nil
}

// RsrcStyle selects a foreign, valid way of laying a resource section out.
type RsrcStyle struct {
	DataFirst   bool // raw data before names, in reverse order
	NamesEarly  bool // names right after the type table
	Align       int  // data alignment (4 default)
	Junk        bool // characteristics, time stamps, versions, code pages, gaps
	BreadthLast bool // language tables written right after each resource table (depth first)
	DupNames    bool // every use of a name has its own copy
	Unsorted    bool // directory entries in reverse order (legal for a loader that scans)
	Share       int  // 1: equal data are stored once, 2: and have one data entry
	Empty       bool // there are also types and resources that contain nothing
	EmptyAt     int  // where empty data are said to be, if not 0
}

// BuildRsrc builds a resource section for resources at the given virtual address. rs need not be sorted.
func BuildRsrc(rs []Res, va uint32, st RsrcStyle) []byte {
	rs = append([]Res(nil), rs...)
	SortRes(rs)
	if st.Align == 0 {
		st.Align = 4
	}
	type lnode struct {
		lang uint32
		data []byte
		off  int
		doff int
		same *lnode // has the same data
	}
	type rnode struct {
		id    Ident
		langs []*lnode
		off   int
	}
	type tnode struct {
		id  Ident
		res []*rnode
		off int
	}
	var ts []*tnode
	for _, r := range rs {
		if len(ts) == 0 || ts[len(ts)-1].id != r.Type {
			ts = append(ts, &tnode{id: r.Type})
		}
		t := ts[len(ts)-1]
		if len(t.res) == 0 || t.res[len(t.res)-1].id != r.Res {
			t.res = append(t.res, &rnode{id: r.Res})
		}
		n := t.res[len(t.res)-1]
		n.langs = append(n.langs, &lnode{lang: r.Lang, data: r.Data})
	}
	if st.Empty {
		add := func(id Ident) {
			i := 0
			for i < len(ts) && ts[i].id.Less(id) {
				i++
			}
			if i < len(ts) && ts[i].id == id {
				return
			}
			ts = append(ts[:i:i], append([]*tnode{{id: id}}, ts[i:]...)...)
		}
		add(Ident{ID: 77})
		add(Ident{Named: true, Name: "EMPTY"})
		for _, t := range ts {
			if len(t.res) > 0 && (t.res[0].id.Named || t.res[0].id.ID > 1) {
				if t.res[0].id.Named {
					if t.res[0].id.Name > "!" {
						t.res = append([]*rnode{{id: Ident{Named: true, Name: "!"}}}, t.res...)
					}
				} else {
					t.res = append([]*rnode{{id: Ident{ID: 1}}}, t.res...)
				}
			}
		}
	}
	if st.Unsorted {
		// reverse names among names and numbers among numbers
		rev := func(n int, named func(int) bool, swap func(i, j int)) {
			k := 0
			for k < n && named(k) {
				k++
			}
			for i, j := 0, k-1; i < j; i, j = i+1, j-1 {
				swap(i, j)
			}
			for i, j := k, n-1; i < j; i, j = i+1, j-1 {
				swap(i, j)
			}
		}
		rev(len(ts), func(i int) bool { return ts[i].id.Named }, func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		for _, t := range ts {
			t := t
			rev(len(t.res), func(i int) bool { return t.res[i].id.Named }, func(i, j int) { t.res[i], t.res[j] = t.res[j], t.res[i] })
			for _, r := range t.res {
				r := r
				rev(len(r.langs), func(i int) bool { return false }, func(i, j int) { r.langs[i], r.langs[j] = r.langs[j], r.langs[i] })
			}
		}
	}
	pos := 16 + 8*len(ts)
	type nameUse struct {
		s   string
		off int
	}
	nameOff := map[string]int{}
	var nameUses []nameUse
	place := func(s string) int {
		if !st.DupNames {
			if o, ok := nameOff[s]; ok {
				return o
			}
		}
		o := pos
		nameOff[s] = o
		nameUses = append(nameUses, nameUse{s, o})
		pos += 2 + 2*len(utf16.Encode([]rune(s)))
		return o
	}
	tName, rName := map[*tnode]int{}, map[*rnode]int{}
	placeNames := func() {
		for _, t := range ts {
			if t.id.Named {
				tName[t] = place(t.id.Name)
			}
			for _, r := range t.res {
				if r.id.Named {
					rName[r] = place(r.id.Name)
				}
			}
		}
		pos = (pos + 3) &^ 3
	}
	if st.NamesEarly {
		placeNames()
	}
	if st.BreadthLast {
		for _, t := range ts {
			t.off = pos
			pos += 16 + 8*len(t.res)
			for _, r := range t.res {
				r.off = pos
				pos += 16 + 8*len(r.langs)
			}
		}
	} else {
		for _, t := range ts {
			t.off = pos
			pos += 16 + 8*len(t.res)
		}
		for _, t := range ts {
			for _, r := range t.res {
				r.off = pos
				pos += 16 + 8*len(r.langs)
			}
		}
	}
	var leaves []*lnode
	for _, t := range ts {
		for _, r := range t.res {
			for _, l := range r.langs {
				if st.Share > 0 {
					for _, o := range leaves {
						if bytes.Equal(o.data, l.data) {
							l.same = o
						}
					}
					if l.same != nil && l.same.same != nil {
						l.same = l.same.same
					}
				}
				if st.Share == 2 && l.same != nil {
					l.off = l.same.off
					continue
				}
				l.off = pos
				pos += 16
				leaves = append(leaves, l)
			}
		}
	}
	placeData := func() {
		order := append([]*lnode(nil), leaves...)
		if st.DataFirst {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		for _, l := range order {
			if l.same != nil {
				continue
			}
			pos = (pos + st.Align - 1) / st.Align * st.Align
			if st.Junk {
				pos += st.Align
			}
			l.doff = pos
			pos += len(l.data)
		}
		pos = (pos + 3) &^ 3
	}
	if st.DataFirst {
		placeData()
		if !st.NamesEarly {
			placeNames()
		}
	} else {
		if !st.NamesEarly {
			placeNames()
		}
		placeData()
	}
	b := make([]byte, pos)
	tbl := func(off, nn, ni int) {
		if st.Junk {
			PutU32(b, off, 0xDEAD)
			PutU32(b, off+4, 0x5F000000)
			PutU16(b, off+8, 4)
			PutU16(b, off+10, 1)
		}
		PutU16(b, off+12, uint16(nn))
		PutU16(b, off+14, uint16(ni))
	}
	count := func(n int, named func(int) bool) (int, int) {
		k := 0
		for i := 0; i < n; i++ {
			if named(i) {
				k++
			}
		}
		return k, n - k
	}
	leaf := len(rs)
	nn, ni := count(len(ts), func(i int) bool { return ts[i].id.Named })
	tbl(0, nn, ni)
	for i, t := range ts {
		id := t.id.ID
		if t.id.Named {
			id = 1<<31 | uint32(tName[t])
		}
		PutU32(b, 16+8*i, id)
		PutU32(b, 20+8*i, 1<<31|uint32(t.off))
		nn, ni := count(len(t.res), func(i int) bool { return t.res[i].id.Named })
		tbl(t.off, nn, ni)
		for j, r := range t.res {
			id := r.id.ID
			if r.id.Named {
				id = 1<<31 | uint32(rName[r])
			}
			PutU32(b, t.off+16+8*j, id)
			PutU32(b, t.off+20+8*j, 1<<31|uint32(r.off))
			tbl(r.off, 0, len(r.langs))
			for k, l := range r.langs {
				PutU32(b, r.off+16+8*k, l.lang)
				PutU32(b, r.off+20+8*k, uint32(l.off))
				if l.same != nil {
					l.doff = l.same.doff
				}
				if st.EmptyAt > 0 && len(l.data) == 0 {
					l.doff = st.EmptyAt
				}
				PutU32(b, l.off, va+uint32(l.doff))
				PutU32(b, l.off+4, uint32(len(l.data)))
				if st.Junk {
					PutU32(b, l.off+8, []uint32{1252, 65001, 0x12345678, 0xFFFFFFFF}[leaf%4])
					PutU32(b, l.off+12, uint32(leaf)*0x01020304)
					leaf++
				}
				if len(l.data) > 0 {
					copy(b[l.doff:], l.data)
				}
			}
		}
	}
	for _, n := range nameUses {
		u := utf16.Encode([]rune(n.s))
		PutU16(b, n.off, uint16(len(u)))
		for i, c := range u {
			PutU16(b, n.off+2+2*i, c)
		}
	}
	return b
}

// LenientRsrc reads a resource section like a tolerant tool would: tables may be in any order, overlap or repeat
// entries (the last one wins), but every table, name and datum must be inside the section, and every level must lead
// to the next one. The result is in canonical order.
func LenientRsrc(sec []byte, va uint32) ([]Res, error) {
	m := map[Key][]byte{}
	n := 0
	var walk func(off int64, level int, k Key) error
	walk = func(off int64, level int, k Key) error {
		if off+16 > int64(len(sec)) {
			return errors.New("table out of bounds")
		}
		cnt := int64(U16(sec, int(off)+12)) + int64(U16(sec, int(off)+14))
		if off+16+8*cnt > int64(len(sec)) {
			return errors.New("entries out of bounds")
		}
		for i := int64(0); i < cnt; i++ {
			if n++; n > 200000 {
				return errors.New("too many entries")
			}
			id, o := U32(sec, int(off+16+8*i)), U32(sec, int(off+20+8*i))
			var ident Ident
			if id>>31 != 0 {
				no := int64(id &^ (1 << 31))
				if no+2 > int64(len(sec)) {
					return errors.New("name out of bounds")
				}
				l := int64(U16(sec, int(no)))
				if no+2+2*l > int64(len(sec)) {
					return errors.New("name out of bounds")
				}
				u := make([]uint16, l)
				for j := range u {
					u[j] = U16(sec, int(no)+2+2*j)
				}
				ident = Ident{Named: true, Name: string(utf16.Decode(u))}
			} else {
				ident = Ident{ID: id}
			}
			sub := o>>31 != 0
			next := int64(o &^ (1 << 31))
			if sub != (level < 3) {
				return errors.New("wrong level")
			}
			switch level {
			case 1:
				k.Type = ident
			case 2:
				k.Res = ident
			case 3:
				if ident.Named {
					return errors.New("named language")
				}
				k.Lang = ident.ID
			}
			if level < 3 {
				if err := walk(next, level+1, k); err != nil {
					return err
				}
				continue
			}
			if next+16 > int64(len(sec)) {
				return errors.New("data entry out of bounds")
			}
			rva, sz := int64(U32(sec, int(next))), int64(U32(sec, int(next)+4))
			from := rva - int64(va)
			if from < 0 || from+sz > int64(len(sec)) {
				return errors.New("data out of bounds")
			}
			m[k] = sec[from : from+sz]
		}
		return nil
	}
	if err := walk(0, 1, Key{}); err != nil {
		return nil, err
	}
	var out []Res
	for k, d := range m {
		out = append(out, Res{k, d})
	}
	SortRes(out)
	return out, nil
}
