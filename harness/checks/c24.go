package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C24: splitting, C25: merging, C26: tables, C33: embedding version information.

func init() {
	assume := []string{"structures fit in the 64 KB of the format", "languages have at least one string unless they come from JSON"}
	register(&Property{
		ID: "C24", Assumptions: assume,
		Scenarios: []mc.Scenario{
			{Name: "presence", Weight: 3, Run: func(r *mc.Run) { c24Presence(r, c24judge) }},
			{Name: "fixed part", Weight: 1, Run: func(r *mc.Run) { c22Fixed(r, c24judge) }},
			{Name: "infos", Bound: 3, ThoroughBound: 4, Weight: 2, Run: func(r *mc.Run) { c22Infos(r, c24judge) }},
			{Name: "many languages", Weight: 1, Run: func(r *mc.Run) { c24Many(r, c24judge) }},
		},
	})
	register(&Property{
		ID: "C25", Assumptions: append([]string{"mapped structures are not nil"}, assume...),
		Scenarios: []mc.Scenario{
			{Name: "selection", Weight: 4, Run: c25Selection},
			{Name: "one structure", Weight: 1, Run: c25One},
			{Name: "fixed part", Weight: 1, Run: c25Fixed},
			{Name: "split and merge", Weight: 2, Run: func(r *mc.Run) { c24Presence(r, c25Split) }},
		},
	})
	register(&Property{
		ID: "C26", Assumptions: append([]string{"version numbers fit in 16 bits"}, assume...),
		Scenarios: []mc.Scenario{
			{Name: "histories", Weight: 4, Run: c26Histories},
			{Name: "version strings", Weight: 3, Run: c26Strings},
			{Name: "version parts", Weight: 1, Run: c26Parts},
			{Name: "tables", Weight: 1, Run: c26Tables},
			{Name: "main translation", Weight: 1, Run: c14Main},
			{Name: "empty languages", Weight: 1, Run: c26Empty},
			{Name: "values", Weight: 1, Run: c26Values},
		},
	})
	register(&Property{
		ID: "C33", Assumptions: assume,
		Scenarios: []mc.Scenario{
			{Name: "presence", Weight: 3, Run: func(r *mc.Run) { c24Presence(r, c33judge) }},
			{Name: "infos", Bound: 2, ThoroughBound: 3, Weight: 2, Run: func(r *mc.Run) { c22Infos(r, c33judge) }},
			{Name: "fixed part", Weight: 1, Run: func(r *mc.Run) { c22Fixed(r, c33fixed) }},
			{Name: "histories", Weight: 2, Run: c33Histories},
		},
	})
}

// expectSplit is the reference for SplitTranslations.
func expectSplit(v ref.Version) map[uint16]ref.Version {
	order := []uint16{}
	for _, l := range []uint16{0, 0x409} {
		if _, ok := v.Langs[l]; ok {
			order = append(order, l)
		}
	}
	order = append(order, v.SortedLangs()...)
	out := map[uint16]ref.Version{}
	for _, l := range v.SortedLangs() {
		w := v.Clone()
		t := map[string]string{}
		for _, o := range append([]uint16{l}, order...) {
			for k, s := range v.Langs[o] {
				if _, ok := t[k]; !ok {
					t[k] = s
				}
			}
		}
		w.Langs = map[uint16]map[string]string{l: t}
		out[l] = w
	}
	return out
}

// rebuilt gives the same Info made another way.
func rebuilt(r *mc.Run, vi *version.Info, how int) *version.Info {
	switch how {
	case 1:
		x, err := version.FromBytes(vi.Bytes())
		must(r, err, "FromBytes")
		return x
	case 2:
		j, err := json.Marshal(vi)
		must(r, err, "Marshal")
		x := &version.Info{}
		must(r, json.Unmarshal(j, x), "Unmarshal")
		return x
	}
	return vi
}

// c24Presence: all assignments of presence of up to three keys in up to five languages.
func c24Presence(r *mc.Run, judge infoJudge) {
	langs := []uint16{0, 0x409, 1, 0x40C, 0xFFFF}
	keys := []string{"a", "B", "c"}
	nl, nk := 4, 3
	if r.Thorough {
		nl = 5
	} else if r.Bool() {
		nl, nk = 5, 2
		langs = []uint16{0x40C, 0x409, 0, 0xFFFF, 3}
		if r.Bool() { // the same language in several regions, or none
			langs = []uint16{0x40C, 0x0C, 0x80C, 0x09, 0x809}
		}
	}
	v := baseVersion()
	for _, l := range langs[:nl] {
		t := map[string]string{}
		for j, k := range keys[:nk] {
			if r.Bool() {
				t[k] = fmt.Sprintf("%x%d", l, j)
			}
		}
		if len(t) > 0 {
			v.Langs[l] = t
		}
	}
	vi := makeInfo(r, &v)
	judge(r, vi, v, v.String())
}

func c24judge(r *mc.Run, vi *version.Info, v ref.Version, what string) {
	vi = rebuilt(r, vi, r.Pick(3))
	ts := vi.Timestamp
	want := expectSplit(v)
	r.Logf("%s", what)
	for round := 0; round < 3; round++ {
		r.Step()
		got := vi.SplitTranslations()
		if len(got) != len(want) {
			r.Failf("%s: split into %d structures, want %d", what, len(got), len(want))
		}
		for l, w := range want {
			g := got[l]
			if g == nil {
				r.Failf("%s: no structure for language %#x", what, l)
			}
			sameVersion(r, fmt.Sprintf("%s: split %#x", what, l), meaning(g), w)
			if !g.Timestamp.Equal(ts) {
				r.Failf("%s: split %#x has time stamp %v", what, l, g.Timestamp)
			}
			if round == 0 {
				r.StateStr(w.String())
			}
		}
		sameVersion(r, what+": original after split", meaning(vi), v)
		// changing a result changes neither the original nor the others
		for _, l := range v.SortedLangs() {
			got[l].Set(l, "a", "changed")
			got[l].Set(l^1, "new", "changed")
			got[l].SetFileVersion("9.9")
			got[l].Flags.Debug = !got[l].Flags.Debug
			delete(want, l)
			for o, w := range want {
				sameVersion(r, fmt.Sprintf("%s: split %#x after changing %#x", what, o, l), meaning(got[o]), w)
			}
			sameVersion(r, what+": original after changing what was split", meaning(vi), v)
		}
		want = expectSplit(v)
	}
}

// c24Many: more languages than a small map.
func c24Many(r *mc.Run, judge infoJudge) {
	v := baseVersion()
	n := 1 + r.Pick(40)
	step := []int{1, 0x29, 0x401}[r.Pick(3)]
	start := []int{0, 1, 0x400, 0xFF00}[r.Pick(4)]
	for i := 0; i < n; i++ {
		t := map[string]string{fmt.Sprintf("k%d", i/3): fmt.Sprint(i)}
		if i%2 == 0 {
			t["all"] = fmt.Sprint(i)
		}
		v.Langs[uint16(start+i*step)] = t
	}
	judge(r, makeInfo(r, &v), v, v.String())
}

// expectMerge is the reference for MergeTranslations.
func expectMerge(m map[uint16]ref.Version) ref.Version {
	out := ref.Version{Type: vftApp, Langs: map[uint16]map[string]string{}}
	main := -1
	for l := range m {
		if main < 0 || int(l) < main {
			main = int(l)
		}
	}
	if _, ok := m[0x409]; ok && main != 0 {
		main = 0x409
	}
	if main < 0 {
		return out
	}
	f := m[uint16(main)]
	out.File, out.Product, out.Flags, out.Type, out.Ticks = f.File, f.Product, f.Flags, f.Type, f.Ticks
	for l, v := range m {
		t := v.Langs[l]
		if len(t) == 0 {
			t = v.Langs[0]
		}
		if len(t) == 0 {
			n := 0
			for _, x := range v.Langs {
				if len(x) > 0 {
					n++
					t = x
				}
			}
			if n != 1 {
				t = nil
			}
		}
		if len(t) > 0 {
			out.Langs[l] = map[string]string{}
			for k, s := range t {
				out.Langs[l][k] = s
			}
		}
	}
	return out
}

func c25judge(r *mc.Run, m map[uint16]ref.Version, infos map[uint16]*version.Info, what string) {
	want := expectMerge(m)
	var merged *version.Info
	for round := 0; round < 2; round++ {
		r.Step()
		merged = version.MergeTranslations(infos)
		if merged == nil {
			r.Failf("%s: MergeTranslations gives nil", what)
		}
		sameVersion(r, what+": merged", meaning(merged), want)
		for l, v := range m {
			sameVersion(r, fmt.Sprintf("%s: input %#x after merging", what, l), meaning(infos[l]), v)
		}
	}
	r.StateStr(want.String())
	// the result shares nothing with the inputs
	for l := range want.Langs {
		merged.Set(l, "a", "changed")
	}
	merged.SetFileVersion("9.9")
	for l, v := range m {
		sameVersion(r, fmt.Sprintf("%s: input %#x after changing the result", what, l), meaning(infos[l]), v)
	}
}

// emptyLang adds a language without strings.
func emptyLang(r *mc.Run, vi *version.Info, l uint16) {
	j, err := json.Marshal(vi)
	must(r, err, "Marshal")
	s := string(j)
	if i := strings.LastIndex(s, `"info":{`); i >= 0 {
		s = s[:i+8] + fmt.Sprintf(`"%04X":{},`, l) + s[i+8:]
	} else if s == "{}" {
		s = fmt.Sprintf(`{"info":{"%04X":{}}}`, l)
	} else {
		s = s[:len(s)-1] + fmt.Sprintf(`,"info":{"%04X":{}}}`, l)
	}
	must(r, json.Unmarshal([]byte(s), vi), "Unmarshal "+s)
}

// c25Selection: every assignment of tables to mapped structures.
func c25Selection(r *mc.Run) {
	all := []uint16{0, 0x409, 0x40C, 1}
	inner := []uint16{0, 0x409, 0x40C}
	n := 1 + r.Pick(3)
	m := map[uint16]ref.Version{}
	infos := map[uint16]*version.Info{}
	at := 0
	states := 3
	if n == 3 && !r.Thorough {
		states = 2
	}
	if n < 3 {
		states = 4
	}
	for i := 0; i < n; i++ {
		at += r.Pick(len(all) - n + i + 1 - at)
		l := all[at]
		at++
		v := ref.Version{File: [4]uint16{uint16(l), 1, 0, uint16(i)}, Product: [4]uint16{5, 6, uint16(l), 7}, Flags: uint32(1 << uint(i)), Type: uint32(i % 3), Ticks: uint64(1000 + i), Langs: map[uint16]map[string]string{}}
		var empty []uint16
		for _, x := range inner {
			switch r.Pick(states) {
			case 1:
				v.Langs[x] = map[string]string{"a": fmt.Sprintf("%x-%x", l, x)}
			case 2:
				v.Langs[x] = map[string]string{"a": fmt.Sprintf("%x-%x", l, x), "b": "", fmt.Sprintf("%x", x): "x"}
			case 3:
				empty = append(empty, x)
			}
		}
		infos[l] = makeInfo(r, &v)
		for _, x := range empty {
			emptyLang(r, infos[l], x)
			v.Langs[x] = map[string]string{}
		}
		m[l] = v
	}
	what := ""
	for l, v := range m {
		what += fmt.Sprintf(" %#x: %s;", l, v)
	}
	if r.Tracing() {
		r.Logf("%s", what)
	}
	c25judge(r, m, infos, what)
}

// c25One: one structure in all kinds of languages.
func c25One(r *mc.Run) {
	ls := []uint16{0, 1, 0x408, 0x409, 0x40A, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}
	m := map[uint16]ref.Version{}
	infos := map[uint16]*version.Info{}
	l := ls[r.Pick(len(ls))]
	v := baseVersion()
	for i := 0; i < 3; i++ {
		if k := r.Pick(len(ls) + 1); k > 0 {
			v.Langs[ls[k-1]] = map[string]string{"k": fmt.Sprint(i)}
		}
	}
	m[l] = v
	infos[l] = makeInfo(r, &v)
	c25judge(r, m, infos, v.String())
}

// c25Fixed: which structure gives the fixed part.
func c25Fixed(r *mc.Run) {
	ls := []uint16{0, 1, 0x408, 0x409, 0x40A, 0x7FFF, 0xFFFE, 0xFFFF}
	m := map[uint16]ref.Version{}
	infos := map[uint16]*version.Info{}
	for i, l := range ls {
		if !r.Bool() {
			continue
		}
		n := uint16(i + 1)
		v := ref.Version{File: [4]uint16{n, 1, 2, 3}, Product: [4]uint16{4, n, 5, 6}, Flags: []uint32{1, 2, 4, 8, 0x20, 3, 0x2F, 0}[i], Type: uint32(i % 3), Ticks: uint64(132000000000000000 + i), Langs: map[uint16]map[string]string{}}
		if r.Bool() {
			v.Langs[l] = map[string]string{"k": fmt.Sprint(i)}
		}
		m[l] = v
		infos[l] = makeInfo(r, &v)
	}
	c25judge(r, m, infos, fmt.Sprint(len(m), " structures"))
	want := expectMerge(m)
	if got := version.MergeTranslations(infos); len(m) > 0 && !got.Timestamp.Equal(ref.TimeOf(want.Ticks)) {
		r.Failf("time stamp %v, want %v", got.Timestamp, ref.TimeOf(want.Ticks))
	}
}

// c25Split: merging what was split gives the translations back.
func c25Split(r *mc.Run, vi *version.Info, v ref.Version, what string) {
	vi = rebuilt(r, vi, r.Pick(3))
	split := vi.SplitTranslations()
	if r.Bool() {
		for l, x := range split {
			b, err := version.FromBytes(x.Bytes())
			must(r, err, "FromBytes")
			split[l] = b
		}
	}
	want := v.Clone()
	if len(v.Langs) == 0 {
		want = ref.Version{Type: vftApp, Langs: map[uint16]map[string]string{}}
	}
	for l, x := range expectSplit(v) {
		want.Langs[l] = x.Langs[l]
	}
	r.Step()
	got := version.MergeTranslations(split)
	sameVersion(r, what+": split then merged", meaning(got), want)
	r.Step()
	again := version.MergeTranslations(got.SplitTranslations())
	sameVersion(r, what+": split then merged again", meaning(again), want)
	r.StateStr(want.String())
}

// versionNumbers is the reference for version strings.
func versionNumbers(s string) (v [4]uint16) {
	i := strings.IndexAny(s, "0123456789")
	if i < 0 {
		return
	}
	s = s[i:]
	j := strings.IndexFunc(s, func(c rune) bool { return c != '.' && (c < '0' || c > '9') })
	if j >= 0 {
		s = s[:j]
	}
	for k, p := range strings.Split(s, ".") {
		if k >= 4 {
			break
		}
		n := 0
		for _, c := range p {
			n = n*10 + int(c-'0')
		}
		v[k] = uint16(n)
	}
	return
}

// c26Histories: every sequence of operations.
func c26Histories(r *mc.Run) {
	depth := 4
	if r.Thorough {
		depth = 6
	}
	vi := &version.Info{}
	v := ref.Version{Type: vftApp, Langs: map[uint16]map[string]string{}}
	langs := []uint16{0, 0x409, 0x40C}
	set := func(l uint16, k, s string) {
		if v.Langs[l] == nil {
			v.Langs[l] = map[string]string{}
		}
		v.Langs[l][k] = s
	}
	setAll := func(k, s string) {
		if len(v.Langs) == 0 {
			set(0, k, s)
			return
		}
		for l := range v.Langs {
			set(l, k, s)
		}
	}
	what := ""
	var copies []version.LangTable
	var was []string
	for i := 0; i < depth; i++ {
		op := r.Pick(14)
		val := fmt.Sprint("v", i)
		r.Step()
		switch {
		case op < 3:
			what += fmt.Sprintf(" Set(%#x,a,%s)", langs[op], val)
			must(r, vi.Set(langs[op], "a", val), what)
			set(langs[op], "a", val)
		case op == 3:
			what += " Set(0x40c,FileVersion)"
			must(r, vi.Set(0x40C, "FileVersion", "own"+val), what)
			set(0x40C, "FileVersion", "own"+val)
		case op == 4:
			s := fmt.Sprintf("v%d.2.x", i+1)
			what += " SetFileVersion(" + s + ")"
			vi.SetFileVersion(s)
			v.File = [4]uint16{uint16(i + 1), 2}
			setAll("FileVersion", s)
		case op == 5:
			s := fmt.Sprintf("%d.3.4.5.6", i+1)
			what += " SetProductVersion(" + s + ")"
			vi.SetProductVersion(s)
			v.Product = [4]uint16{uint16(i + 1), 3, 4, 5}
			setAll("ProductVersion", s)
		case op == 6:
			what += " Set(empty key)"
			if vi.Set(0x401, "", "x") == nil {
				r.Failf("%s: accepted", what)
			}
		case op == 7:
			what += " Set(NUL key)"
			for _, k := range []string{"\x00", "a\x00", "a\x00b", "\x00a"} {
				if vi.Set(0x409, k, "x") == nil {
					r.Failf("%s: %q accepted", what, k)
				}
			}
		case op == 8:
			what += " Set(NUL value)"
			for _, k := range []string{"\x00", "a\x00", "a\x00b", "\x00a"} {
				if vi.Set(0x40C, "a", k) == nil || vi.Set(0x402, "a", k) == nil {
					r.Failf("%s: %q accepted", what, k)
				}
			}
		case op == 9:
			what += " Set(empty value)"
			must(r, vi.Set(0x409, "a", ""), what)
			set(0x409, "a", "")
			must(r, vi.Set(0x40C, "ProductVersion", ""), what)
			set(0x40C, "ProductVersion", "")
		case op == 10:
			what += " Table and change"
			lt := vi.Table()
			copies = append(copies, vi.Table())
			was = append(was, c26Dump(v.Langs))
			for _, st := range lt {
				(*st)["a"] = "changed"
				(*st)["new"] = "changed"
				delete(*st, "FileVersion")
			}
			st := version.StringTable{"a": "changed"}
			if lt != nil {
				lt[0x40C] = &st
				delete(lt, 0)
			}
		case op == 11:
			what += " Bytes"
			x, err := version.FromBytes(vi.Bytes())
			must(r, err, what)
			sameVersion(r, what, meaning(x), v)
		case op == 12:
			what += " JSON"
			j, err := json.Marshal(vi)
			must(r, err, what)
			vi = &version.Info{}
			must(r, json.Unmarshal(j, vi), what)
		case op == 13:
			what += " SplitTranslations"
			vi.SplitTranslations()
		}
		if got := meaning(vi); got.String() != v.String() {
			r.Failf("%s: %s, want %s", what, got, v)
		}
	}
	r.Logf("%s", what)
	encodeInfo(r, vi, v, what)
	for i, c := range copies {
		if got := c26Dump(tableOf(c)); got != was[i] {
			r.Failf("%s: an older copy of the table became %s, was %s", what, got, was[i])
		}
	}
	r.StateStr(v.String())
}

// c26Empty: the same with languages that have no string, which only JSON can make.
func c26Empty(r *mc.Run) {
	langs := []uint16{0, 0x409, 0x40C}
	v := ref.Version{Type: vftApp, Langs: map[uint16]map[string]string{}}
	doc := ""
	for _, l := range langs {
		switch r.Pick(3) {
		case 1:
			v.Langs[l] = map[string]string{}
			doc += fmt.Sprintf(`,"%04X":{}`, l)
		case 2:
			v.Langs[l] = map[string]string{"a": "was"}
			doc += fmt.Sprintf(`,"%04X":{"a":"was"}`, l)
		}
	}
	vi := &version.Info{}
	if doc != "" {
		doc = doc[1:]
	}
	must(r, json.Unmarshal([]byte(`{"info":{`+doc+`}}`), vi), doc)
	what := doc + ":"
	depth := 3
	if r.Thorough {
		depth = 5
	}
	for i := 0; i < depth; i++ {
		op := r.Pick(9)
		val := fmt.Sprint("v", i)
		r.Step()
		switch {
		case op < 3:
			what += fmt.Sprintf(" Set(%#x)", langs[op])
			must(r, vi.Set(langs[op], "a", val), what)
			if v.Langs[langs[op]] == nil {
				v.Langs[langs[op]] = map[string]string{}
			}
			v.Langs[langs[op]]["a"] = val
		case op == 3:
			what += " Table and change"
			for _, st := range vi.Table() {
				(*st)["new"] = val
				delete(*st, "a")
			}
		case op == 4:
			what += " GetMainTranslation and change"
			if m := vi.Table().GetMainTranslation(); m != nil {
				m["new"] = val
			}
		case op == 5:
			what += " SetFileVersion"
			vi.SetFileVersion(fmt.Sprint(i + 1))
			v.File = [4]uint16{uint16(i + 1)}
			if len(v.Langs) == 0 {
				v.Langs[0] = map[string]string{}
			}
			for l := range v.Langs {
				v.Langs[l]["FileVersion"] = fmt.Sprint(i + 1)
			}
		case op == 6:
			what += " JSON"
			j, err := json.Marshal(vi)
			must(r, err, what)
			vi = &version.Info{}
			must(r, json.Unmarshal(j, vi), what)
		case op == 7:
			what += " SplitTranslations"
			for _, x := range vi.SplitTranslations() {
				x.Set(0, "a", "changed")
				x.SetProductVersion("7")
			}
		case op == 8:
			what += " MergeTranslations"
			m := map[uint16]*version.Info{}
			for _, l := range langs {
				m[l] = vi
			}
			version.MergeTranslations(m).SetProductVersion("7")
		}
		if got := meaning(vi); got.String() != v.String() {
			r.Failf("%s: %s, want %s", what, got, v)
		}
	}
	r.StateStr(v.String())
}

func tableOf(lt version.LangTable) map[uint16]map[string]string {
	m := map[uint16]map[string]string{}
	for l, st := range lt {
		m[l] = map[string]string{}
		if st != nil {
			for k, s := range *st {
				m[l][k] = s
			}
		}
	}
	return m
}

func c26Dump(m map[uint16]map[string]string) string {
	return ref.Version{Langs: m}.String()
}

// c26Strings: every version string over an alphabet.
func c26Strings(r *mc.Run) {
	alphabet := []string{"", "0", "1", "9", ".", "v", " ", "é", "-", "\U0001F600"}
	n := 5
	if r.Thorough {
		n = 6
	}
	s := ""
	for i := 0; i < n; i++ {
		c := alphabet[r.Pick(len(alphabet))]
		if c == "" {
			break
		}
		s += c
	}
	c26one(r, s, 1)
}

func c26one(r *mc.Run, s string, nl int) {
	want := versionNumbers(s)
	vi := &version.Info{}
	vi.FileVersion, vi.ProductVersion = [4]uint16{7, 7, 7, 7}, [4]uint16{8, 8, 8, 8}
	for i := 1; i < nl; i++ {
		vi.Set(uint16(i*0x400), "k", "v")
		vi.Set(uint16(i*0x400), "FileVersion", "old")
	}
	r.Step()
	vi.SetFileVersion(s)
	if vi.FileVersion != want || vi.ProductVersion != [4]uint16{8, 8, 8, 8} {
		r.Failf("SetFileVersion(%q): file %v product %v, want file %v", s, vi.FileVersion, vi.ProductVersion, want)
	}
	vi.SetProductVersion(s)
	if vi.ProductVersion != want || vi.FileVersion != want {
		r.Failf("SetProductVersion(%q): file %v product %v, want %v", s, vi.FileVersion, vi.ProductVersion, want)
	}
	tab := vi.Table()
	if len(tab) != max(1, nl-1) {
		r.Failf("version %q: %d languages", s, len(tab))
	}
	for l, st := range tab {
		if (*st)["FileVersion"] != s || (*st)["ProductVersion"] != s {
			r.Failf("version %q: language %#x has %v", s, l, *st)
		}
	}
	r.StateStr(fmt.Sprint(want))
}

// c26Parts: numbers of every size in every part.
func c26Parts(r *mc.Run) {
	nums := []string{"0", "1", "9", "10", "99", "255", "256", "1000", "4095", "9999", "10000", "32767", "32768", "65534", "65535", "00000000065535", "007"}
	n := 1 + r.Pick(6)
	prefix := []string{"", "v", "V ", "version ", "é", "."}[r.Pick(6)]
	suffix := []string{"", ".", "-beta", " 7.8", "é", "..9", ".x", "+12", ",5,6", ", 7"}[r.Pick(10)]
	base, other := nums[r.Pick(len(nums))], nums[r.Pick(len(nums))]
	at := r.Pick(n)
	s := prefix
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "."
		}
		if i == at {
			s += other
		} else {
			s += base
		}
	}
	c26one(r, s+suffix, 1+r.Pick(4))
}

// c26Tables: copies of tables, and structures that do not exist.
func c26Tables(r *mc.Run) {
	var none *version.Info
	if none.Table() != nil || none.Bytes() != nil || none.SplitTranslations() != nil {
		r.Failf("a nil Info has content")
	}
	zero := &version.Info{}
	if t := zero.Table(); len(t) != 0 {
		r.Failf("an empty Info has a table: %v", t)
	}
	v := baseVersion()
	for i, l := range []uint16{0, 0x409, 0x40C} {
		if r.Bool() {
			v.Langs[l] = map[string]string{"k": fmt.Sprint(i), "z": ""}
		}
	}
	a := makeInfo(r, &v)
	a.Timestamp = time.Unix(1000, 0)
	b := *a // a copy shares its table, as documented by Go, but has its own fixed part
	b.FileVersion[0] = 99
	if a.FileVersion != v.File {
		r.Failf("copies share their fixed part")
	}
	t1, t2 := a.Table(), a.Table()
	for l := range t1 {
		(*t1[l])["k"] = "changed"
		if (*t2[l])["k"] == "changed" {
			r.Failf("two copies of the table share their content")
		}
		delete(t1, l)
	}
	if len(t2) != len(v.Langs) {
		r.Failf("two copies of the table share their languages")
	}
	w := meaning(a)
	w.Ticks = 0
	sameVersion(r, "after changing copies", w, v)
	r.StateStr(v.String())
}

// c33judge embeds an Info in a set with other resources.
func c33judge(r *mc.Run, vi *version.Info, v ref.Version, what string) {
	c33with(r, rebuilt(r, vi, r.Pick(3)), v, what, r.Pick(3))
}

func c33fixed(r *mc.Run, vi *version.Info, v ref.Version, what string) {
	c33with(r, vi, v, what, 2)
}

func c33with(r *mc.Run, vi *version.Info, v ref.Version, what string, other int) {
	rs := &winres.ResourceSet{}
	m := model{}
	put := func(k ref.Key, d []byte) {
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
		m[k] = d
	}
	if other > 0 {
		put(key(id(16), id(2), 0x409), []byte("another id"))
		put(key(id(16), name("N"), 0x409), []byte("a name"))
		put(key(id(16), id(1), 0x777), []byte("another language"))
		put(key(id(10), id(1), 0x409), []byte("another type"))
		put(key(name("16"), id(1), 0x409), []byte("a named type"))
	}
	if other == 2 {
		for l := range v.Langs {
			put(key(id(16), id(1), l), []byte("replaced"))
		}
	}
	c33apply(r, rs, m, vi, v, what)
	r.Step()
	rs.SetVersionInfo(*vi)
	c33check(r, rs, m, v, what+" (set again)")
	r.StateStr(v.String())
}

func c33apply(r *mc.Run, rs *winres.ResourceSet, m model, vi *version.Info, v ref.Version, what string) {
	r.Logf("%s", what)
	r.Step()
	rs.SetVersionInfo(*vi)
	sameVersion(r, what+": Info after SetVersionInfo", meaning(vi), v)
	for l := range v.Langs {
		m[key(id(16), id(1), l)] = rs.Get(winres.RT_VERSION, winres.ID(1), l)
	}
	c33check(r, rs, m, v, what)
}

func c33check(r *mc.Run, rs *winres.ResourceSet, m model, v ref.Version, what string) {
	got := collect(rs)
	if rs.Count() != len(m) || len(got) != len(m) {
		r.Failf("%s: %d resources, want %d", what, rs.Count(), len(m))
	}
	for _, x := range got {
		if d, ok := m[x.Key]; !ok || !bytes.Equal(d, x.Data) {
			r.Failf("%s: resource %v changed or appeared", what, x.Key)
		}
	}
	back := map[uint16]*version.Info{}
	want := expectSplit(v)
	for l, w := range want {
		b := rs.Get(winres.RT_VERSION, winres.ID(1), l)
		if b == nil {
			r.Failf("%s: no version resource in language %#x", what, l)
		}
		p, err := ref.ParseVersion(b)
		must(r, err, fmt.Sprintf("%s: version resource %#x", what, l))
		sameVersion(r, fmt.Sprintf("%s: version resource %#x", what, l), p, w)
		back[l], err = version.FromBytes(b)
		must(r, err, what+": FromBytes")
	}
	if len(want) > 0 {
		w := v.Clone()
		for l, x := range want {
			w.Langs[l] = x.Langs[l]
		}
		sameVersion(r, what+": merged back", meaning(version.MergeTranslations(back)), w)
	}
}

// c33Histories: several structures set one after the other.
func c33Histories(r *mc.Run) {
	rs := &winres.ResourceSet{}
	m := model{}
	var infos []*version.Info
	var vs []ref.Version
	for i := 0; i < 3; i++ {
		v := baseVersion()
		v.File[0] = uint16(i)
		for j, l := range []uint16{0, 0x409, 0x40C} {
			if i == 0 || i == 1 && j > 0 || i == 2 && j == 2 {
				v.Langs[l] = map[string]string{"a": fmt.Sprintf("%d-%x", i, l), fmt.Sprintf("k%d", j): "x"}
			}
		}
		vs = append(vs, v)
		infos = append(infos, makeInfo(r, &v))
	}
	what := ""
	n := 4
	if r.Thorough {
		n = 6
	}
	for i := 0; i < n; i++ {
		k := r.Pick(7)
		r.Step()
		switch {
		case k < 3:
			what += fmt.Sprint(" SetVersionInfo ", k)
			c33apply(r, rs, m, infos[k], vs[k], what)
		case k == 3:
			what += " delete 0x409"
			must(r, rs.Set(winres.RT_VERSION, winres.ID(1), 0x409, nil), what)
			delete(m, key(id(16), id(1), 0x409))
		case k == 4:
			what += " manifest"
			rs.SetManifest(winres.AppManifest{})
			m[key(id(24), id(1), 0x409)] = rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
		case k == 5:
			what += " change 1"
			infos[1].Set(0x409, "a", fmt.Sprint("changed", i))
			vs[1].Langs[0x409]["a"] = fmt.Sprint("changed", i)
		case k == 6:
			what += " another version resource"
			d := []byte(what)
			must(r, rs.Set(winres.RT_VERSION, winres.ID(2), 0x409, d), what)
			m[key(id(16), id(2), 0x409)] = d
		}
		if got, want := ref.Dump(collect(rs)), m.dump(); got != want {
			r.Failf("%s: resources are %s, want %s", what, got, want)
		}
	}
	r.StateStr(m.dump())
}

// c26Values: every key and value is kept as it is, in every language.
func c26Values(r *mc.Run) {
	l := verLangs[r.Pick(len(verLangs))]
	k, s := verKeys[r.Pick(len(verKeys))], verValues[r.Pick(len(verValues))]
	v := ref.Version{Type: vftApp, Langs: map[uint16]map[string]string{l: {k: s}}}
	vi := &version.Info{}
	r.Step()
	if r.Bool() {
		must(r, vi.Set(l, k, "before"), "Set")
	}
	must(r, vi.Set(l, k, s), "Set")
	what := fmt.Sprintf("Set(%#x, %q, %q)", l, k, s)
	sameVersion(r, what, meaning(vi), v)
	r.StateStr(v.String())
	other := []string{k + "x", "x", strings.ToUpper(k), strings.ToLower(k)}[r.Pick(4)]
	if other == k {
		r.Prune()
	}
	must(r, vi.Set(l, other, s), "Set")
	v.Langs[l][other] = s
	sameVersion(r, what+" and "+other, meaning(vi), v)
}
