package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C22: binary version information. C23: JSON version information.

func init() {
	assume := []string{"the structure fits in the 64 KB of the format", "strings are valid UTF-8", "time stamps are from 1601 to 9999 and every language has at least one string"}
	register(&Property{
		ID: "C22", Assumptions: assume,
		Scenarios: []mc.Scenario{
			{Name: "infos", Bound: 3, ThoroughBound: 4, Weight: 4, Run: func(r *mc.Run) { c22Infos(r, c22Binary) }},
			{Name: "strings", Weight: 2, Run: func(r *mc.Run) { c22Strings(r, c22Binary) }},
			{Name: "lengths", Weight: 2, Run: func(r *mc.Run) { c22Lengths(r, c22Binary) }},
			{Name: "large", Run: func(r *mc.Run) { c22Large(r, true, c22Binary) }},
			{Name: "fixed part", Weight: 2, Run: func(r *mc.Run) { c22Fixed(r, c22Binary) }},
			{Name: "time stamps", Run: func(r *mc.Run) { c22Times(r, c22Binary) }},
			{Name: "foreign layouts", Bound: 3, ThoroughBound: 4, Weight: 3, Run: c22Foreign},
			{Name: "compiled", Bound: 1, ThoroughBound: 2, Run: c22Compiled},
			{Name: "documents", Bound: 3, ThoroughBound: 4, Weight: 1, Run: func(r *mc.Run) {
				c23Docs(r, func(r *mc.Run, vi *version.Info, want ref.Version, what string) {
					r.State(encodeInfo(r, vi, want, what))
				})
			}},
		},
	})
	register(&Property{
		ID: "C23", Assumptions: []string{"strings are valid UTF-8", "time stamps are from 1601 to 9999"},
		Scenarios: []mc.Scenario{
			{Name: "infos", Bound: 3, ThoroughBound: 4, Weight: 4, Run: func(r *mc.Run) { c22Infos(r, c23JSON) }},
			{Name: "strings", Weight: 2, Run: func(r *mc.Run) { c22Strings(r, c23JSON) }},
			{Name: "lengths", Weight: 1, Run: func(r *mc.Run) { c22Lengths(r, c23JSON) }},
			{Name: "large", Run: func(r *mc.Run) { c22Large(r, false, c23JSON) }},
			{Name: "fixed part", Weight: 2, Run: func(r *mc.Run) { c22Fixed(r, c23JSON) }},
			{Name: "time stamps", Run: func(r *mc.Run) { c22Times(r, c23JSON) }},
			{Name: "languages", Weight: 2, Run: c23Langs},
			{Name: "documents", Bound: 3, ThoroughBound: 5, Weight: 1, Run: func(r *mc.Run) { c23Docs(r, c23JSON) }},
		},
	})
}

// c22Binary judges the binary round trip.
func c22Binary(r *mc.Run, vi *version.Info, want ref.Version, what string) {
	b := encodeInfo(r, vi, want, what)
	r.Step()
	back, err := version.FromBytes(b)
	must(r, err, what+": FromBytes")
	sameVersion(r, what+": FromBytes(Bytes())", meaning(back), want)
	if wt := ref.TimeOf(want.Ticks); !back.Timestamp.Equal(wt) {
		r.Failf("%s: time stamp is %v, want %v", what, back.Timestamp, wt)
	}
	r.Step()
	if b2 := back.Bytes(); !bytes.Equal(b, b2) {
		r.Failf("%s: encoding again gives other bytes", what)
	}
	if b2 := vi.Bytes(); !bytes.Equal(b, b2) {
		r.Failf("%s: encoding twice gives other bytes", what)
	}
	sameVersion(r, what+": after Bytes()", meaning(vi), want)
	r.State(b)
}

// c23JSON judges the JSON round trip.
func c23JSON(r *mc.Run, vi *version.Info, want ref.Version, what string) {
	r.Step()
	j, err := json.Marshal(vi)
	must(r, err, what+": Marshal")
	prev := &version.Info{}
	if r.Pick(2) == 1 {
		// some previous content
		prev.Set(0x409, "OLD", "old")
		prev.Set(0x777, "FileVersion", "old")
		prev.FileVersion, prev.ProductVersion = [4]uint16{9, 8, 7, 6}, [4]uint16{9, 8, 7, 6}
		prev.Flags.Debug, prev.Flags.Patched, prev.Flags.SpecialBuild, prev.Flags.PrivateBuild, prev.Flags.Prerelease = true, true, true, true, true
		prev.Type = version.DLL
		prev.Timestamp = time.Unix(1234567, 0)
	}
	r.Step()
	must(r, json.Unmarshal(j, prev), what+": Unmarshal")
	sameVersion(r, what+": JSON", meaning(prev), want)
	if !prev.Timestamp.Equal(vi.Timestamp) {
		r.Failf("%s: time stamp is %v, want %v", what, prev.Timestamp, vi.Timestamp)
	}
	if a, b := prev.Bytes(), vi.Bytes(); !bytes.Equal(a, b) {
		r.Failf("%s: the binary form is different after JSON", what)
	}
	// by value too
	for i, x := range []interface{}{*vi, []version.Info{*vi}, map[string]version.Info{"a": *vi}} {
		j2, err := json.Marshal(x)
		must(r, err, what+": Marshal by value")
		if w := []string{"%s", "[%s]", "{\"a\":%s}"}[i]; string(j2) != fmt.Sprintf(w, j) {
			r.Failf("%s: marshalling %T gives %s, the pointer gives %s", what, x, j2, j)
		}
	}
	j2, err := json.Marshal(prev)
	must(r, err, what+": Marshal again")
	if !bytes.Equal(j, j2) && vi.Timestamp.IsZero() {
		r.Failf("%s: marshalling again gives %s, not %s", what, j2, j)
	}
	sameVersion(r, what+": after Marshal", meaning(vi), want)
	r.State(j)
}

var verKeys = []string{"FileVersion", "ProductVersion", "a", "b", "K", "k", "Key", "é", "€uro", "日本", "\U0001F600", strings.Repeat("k", 300), " ", "VS_VERSION_INFO", "StringFileInfo", "VarFileInfo", "Translation", "040904b0", "k\r\n", "\x01", "\ufffd", "\uffff", "\"<&>", "FileDescription"}
var verValues = []string{"value", "", "a", "ab", "abc", "abcd", "1.2.3.4", "é", "日本", "\U0001F600", "a\U0001F600", "tab\tand\r\nnewline", "\x01\x1f\x7f", "\ufffd", "\uffff\ufffe", "\u2028\u2029", "\"'<>&\\/", strings.Repeat("long", 200), "trailing ", " ", "null", "{}", "line\r\n", "\n", " leading", "\ttab"}
var verLangs = []uint16{0x409, 0, 1, 0x40C, 0x7FFF, 0x8000, 0xFFFF, 0x4B0, 0x00AB}

type infoJudge func(r *mc.Run, vi *version.Info, want ref.Version, what string)

func baseVersion() ref.Version {
	return ref.Version{File: [4]uint16{1, 2, 3, 4}, Product: [4]uint16{5, 6, 7, 8}, Type: vftApp, Langs: map[uint16]map[string]string{}}
}

// c22Infos: up to three languages and three keys, within a deviation bound.
func c22Infos(r *mc.Run, judge infoJudge) {
	v := baseVersion()
	nl := r.Dev(4)
	if nl == 0 {
		nl = 1
	} else {
		nl = []int{0, 2, 3, 0}[nl]
	}
	for i := 0; i < nl; i++ {
		l := verLangs[(r.Dev(len(verLangs))+i)%len(verLangs)]
		nk := []int{1, 2, 3, 5, 6}[r.Dev(5)]
		t := map[string]string{}
		for j := 0; j < nk; j++ {
			k := verKeys[(r.Dev(len(verKeys))+j)%len(verKeys)]
			t[k] = verValues[r.Dev(len(verValues))]
		}
		v.Langs[l] = t
	}
	if k := r.Dev(4); k != 0 {
		v.File = [][4]uint16{{}, {}, {0xFFFF, 0xFFFE, 0xFFFD, 0xFFFC}, {0, 0, 0, 1}}[k]
	}
	if k := r.Dev(4); k != 0 {
		v.Product = [][4]uint16{{}, {}, {0xFFFF, 0x8000, 0x7FFF, 0x100}, {0, 1, 0, 0}}[k]
	}
	if k := r.Dev(6); k != 0 {
		v.Flags = []uint32{0, ffDebug, ffPre, ffPatched, ffPrivate, ffSpecial}[k]
	}
	if k := r.Dev(3); k != 0 {
		v.Type = []uint32{vftApp, vftDLL, vftUnknown}[k]
	}
	if k := r.Dev(5); k != 0 {
		v.Ticks = []uint64{0, 1, 132000000000000000, 0x01FFFFFFFFFFFFFF, 0x0100000000000000}[k]
	}
	vi := makeInfo(r, &v)
	if r.Tracing() {
		r.Logf("%v", v)
	}
	judge(r, vi, v, v.String())
}

// c22Strings: every pair of (key, value), in tables with one or two more strings.
func c22Strings(r *mc.Run, judge infoJudge) {
	v := baseVersion()
	k, s := verKeys[r.Pick(len(verKeys))], verValues[r.Pick(len(verValues))]
	t := map[string]string{k: s}
	if r.Bool() {
		t["A"+k] = verValues[r.Pick(5)]
	}
	if r.Bool() {
		t[k+"z"] = verValues[1+r.Pick(4)]
	}
	v.Langs[0x409] = t
	if r.Bool() {
		v.Langs[0x40C] = map[string]string{k: "autre"}
	}
	vi := makeInfo(r, &v)
	judge(r, vi, v, v.String())
}

// c22Lengths: every length of key and value.
func c22Lengths(r *mc.Run, judge infoJudge) {
	n, m := 70, 70
	if r.Thorough {
		n, m = 140, 270
	}
	kl, vl := 1+r.Pick(n), r.Pick(m)
	v := baseVersion()
	v.Langs[0] = map[string]string{strings.Repeat("k", kl): strings.Repeat("v", vl)}
	if r.Bool() {
		v.Langs[0]["z"] = "z"
		v.Langs[1] = map[string]string{"x": strings.Repeat("é", kl)}
	}
	vi := makeInfo(r, &v)
	judge(r, vi, v, fmt.Sprintf("key of %d, value of %d", kl, vl))
}

// c22Large: structures around 256, 32767 and 65535 bytes or characters, by a long value, a long key, many strings or many
// languages.
func c22Large(r *mc.Run, limit bool, judge infoJudge) {
	v := baseVersion()
	tab := map[string]string{}
	v.Langs[0x409] = tab
	what := r.Pick(6)
	around := []int{250, 16300, 32560}[r.Pick(3)]
	if what < 3 {
		n := around + r.Pick(120)
		switch what {
		case 0:
			tab["key"] = strings.Repeat("v", n)
		case 1:
			tab[strings.Repeat("k", n)] = "value"
		case 2:
			tab["a"], tab["z"] = strings.Repeat("é", n/2), strings.Repeat("€", n-n/2)
		}
		if r.Bool() {
			v.Langs[0x40C] = map[string]string{"y": "z"}
		}
	} else {
		// many nodes
		step := []int{30, 200, 1500}[r.Pick(3)]
		n := around * 2 / (6 + 2*step) * (94 + r.Pick(10)) / 100
		for i := 0; i <= n; i++ {
			k, x := fmt.Sprintf("k%d", i), strings.Repeat("x", step-5+i%3)
			if what == 4 {
				k, x = x+k, k
			}
			if what == 5 {
				v.Langs[uint16(0x400+i)] = map[string]string{k: x}
			} else {
				tab[k] = x
			}
		}
		if what == 5 {
			tab["k"] = ""
		}
	}
	if size := len(ref.BuildVersion(v, ref.VersionStyle{})); limit && size > 65535 {
		r.Prune()
	} else {
		r.Logf("about %d bytes", size)
	}
	judge(r, makeInfo(r, &v), v, fmt.Sprintf("large version information (%d, %d)", what, around))
}

// c22Fixed: every combination of flags and types, every version part.
func c22Fixed(r *mc.Run, judge infoJudge) {
	v := ref.Version{Langs: map[uint16]map[string]string{}}
	v.Flags = uint32(r.Pick(32))
	if v.Flags&0x10 != 0 {
		v.Flags ^= 0x30
	}
	v.Type = uint32(r.Pick(3))
	parts := []uint16{0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF}
	if k := r.Pick(9); k > 0 {
		x := parts[1+r.Pick(len(parts)-1)]
		if k <= 4 {
			v.File[k-1] = x
		} else {
			v.Product[k-5] = x
		}
		if r.Bool() {
			y := parts[r.Pick(len(parts))]
			v.File[(k+1)&3], v.Product[(k+2)&3] = y, y+1
		}
	}
	if r.Bool() {
		v.Langs[0] = map[string]string{"FileVersion": "0"}
	}
	vi := makeInfo(r, &v)
	judge(r, vi, v, v.String())
}

// c22Times: time stamps of every magnitude, zone and precision.
func c22Times(r *mc.Run, judge infoJudge) {
	years := []int{1601, 1602, 1677, 1678, 1700, 1899, 1969, 1970, 1971, 2001, 2024, 2038, 2106, 2261, 2262, 2263, 2500, 4000, 9999}
	y := years[r.Pick(len(years))]
	mo := time.Month([]int{1, 2, 4, 9, 12}[r.Pick(5)])
	d := []int{1, 2, 11, 12, 21, 28}[r.Pick(6)]
	hms := [][3]int{{23, 59, 59}, {0, 0, 0}, {12, 30, 15}}[r.Pick(3)]
	ns := []int{0, 100, 900, 123456700, 999999900, 1, 99, 150, 999999999}[r.Pick(9)]
	zone := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -12*3600), time.FixedZone("", 5*3600+30*60)}[r.Pick(4)]
	if ns == 0 && r.Bool() {
		ns = 500
	}
	t := time.Date(y, mo, d, hms[0], hms[1], hms[2], ns, zone)
	if !t.After(time.Date(1601, 1, 1, 0, 0, 1, 0, time.UTC)) {
		r.Prune() // no time stamp, or before the first one
	}
	v := baseVersion()
	v.Langs[0] = map[string]string{"FileVersion": "1"}
	lo, hi := ref.TicksOf(t)
	v.Ticks = lo
	vi := makeInfo(r, &v)
	vi.Timestamp = t
	// rounding up is as good as rounding down
	if hi != lo {
		if got, err := ref.ParseVersion(vi.Bytes()); err == nil && got.Ticks == hi {
			b := vi.Bytes()
			back, err := version.FromBytes(b)
			must(r, err, "FromBytes")
			if d := back.Timestamp.Sub(t); d < 0 || d >= 100 {
				r.Failf("time stamp %v became %v", t, back.Timestamp)
			}
			if !bytes.Equal(back.Bytes(), b) {
				r.Failf("time stamp %v: encoding again gives other bytes", t)
			}
			return
		}
	}
	judge(r, vi, v, fmt.Sprintf("time stamp %v", t))
}

// c22Foreign: structures from other tools.
func c22Foreign(r *mc.Run) {
	v := baseVersion()
	nl := 1 + r.Dev(3)
	for i := 0; i < nl; i++ {
		l := verLangs[(r.Dev(len(verLangs))+i)%len(verLangs)]
		nk := []int{1, 2, 3, 5, 6}[r.Dev(5)]
		t := map[string]string{}
		for j := 0; j < nk; j++ {
			t[verKeys[(r.Dev(13)+j)%len(verKeys)]] = verValues[r.Dev(13)]
		}
		v.Langs[l] = t
	}
	if k := r.Dev(3); k != 0 {
		v.Type = []uint32{0, vftDLL, vftUnknown}[k]
	}
	if k := r.Dev(4); k != 0 {
		v.Flags = []uint32{0, ffDebug | ffSpecial, ffPrivate, ffPre | ffPatched}[k]
	}
	if k := r.Dev(4); k != 0 {
		v.Ticks = []uint64{0, 1, 132000000000000000, 0x0200000000000001}[k]
	}
	st := ref.VersionStyle{VarFirst: r.Dev(2) == 1, NoVar: r.Dev(2) == 1, Upper: r.Dev(2) == 1, Reverse: r.Dev(2) == 1, EmptyZero: r.Dev(2) == 1,
		Unknown: r.Dev(2) == 1, TailPad: r.Dev(2) == 1, NoFixed: r.Dev(2) == 1, Split: r.Dev(2) == 1, OtherOS: r.Dev(2) == 1, BinaryType: r.Dev(2) == 1, TwoTables: r.Dev(2) == 1}
	if k := r.Dev(3); k != 0 {
		st.PadValue = []int{0, 4, 64}[k]
	}
	if k := r.Dev(7); k != 0 && !st.NoFixed {
		st.FixedMore = []int{0, 4, 2, 1, 3, 6, 16}[k]
	}
	b := ref.BuildVersion(v, st)
	what := fmt.Sprintf("%+v in style %+v", v, st)
	want := v.Clone()
	if st.NoFixed {
		want.File, want.Product, want.Flags, want.Ticks = [4]uint16{}, [4]uint16{}, 0, 0
		want.Type = vftApp // the zero value
	}
	r.Logf("%s", what)
	keep := append([]byte(nil), b...)
	r.Step()
	vi, err := version.FromBytes(b)
	must(r, err, what+": FromBytes")
	if !bytes.Equal(keep, b) {
		r.Failf("%s: FromBytes changed its input", what)
	}
	sameVersion(r, what, meaning(vi), want)
	encodeInfo(r, vi, want, what+": encoded again")
	r.State(b)
}

// c23Langs: every language identifier.
func c23Langs(r *mc.Run) {
	n := 0x400
	if r.Thorough {
		n = 0x10000
	}
	l := r.Pick(n)
	if !r.Thorough {
		l = l * 0x41 & 0xFFFF
	}
	v := baseVersion()
	v.Langs[uint16(l)] = map[string]string{"k": "v"}
	v.Langs[uint16(l)^0x10] = map[string]string{"k": "other"}
	vi := makeInfo(r, &v)
	c23JSON(r, vi, v, fmt.Sprintf("language %#x", l))
}

// c23Docs: Infos that come from hand written documents, some of whose languages are empty.
func c23Docs(r *mc.Run, judge infoJudge) {
	var fixed, info []string
	for _, f := range [][]string{
		{``, `"file_version":"1.2.3.4"`, `"file_version":"1.2"`, `"file_version":"65535.0.0.1"`, `"file_version":""`, `"file_version":"0.0.0.0"`},
		{``, `"product_version":"4.3.2.1"`, `"product_version":"7"`, `"product_version":"x"`},
		{``, `"flags":"Debug"`, `"flags":"prerelease,PATCHED"`, `"flags":"SpecialBuild,PrivateBuild"`, `"flags":"none"`},
		{``, `"type":"DLL"`, `"type":"dll"`, `"type":"App"`, `"type":"Unknown"`, `"type":"driver"`},
		{``, `"timestamp":"2024-01-02T03:04:05.1234567+02:00"`, `"timestamp":"1601-01-01T00:00:00Z"`, `"timestamp":null`},
	} {
		if s := f[r.Dev(len(f))]; s != "" {
			fixed = append(fixed, s)
		}
	}
	want := map[uint16]map[string][]string{}
	for i, l := range []string{"0409", "040c", "40C", "0000", "FFFF", "1", "zz"} {
		n := r.Dev(8)
		t := []string{``, `{}`, `null`, `{"a":"b"}`, `{"a":""}`, `{"FileVersion":"1.0","b":"c\u0000d"}`, `{"\u0000":"a"}`, `{"z":"b","FileVersion":"1.0"}`}[n]
		if t != "" {
			info = append(info, fmt.Sprintf("%q:%s", l, t))
		}
		if i < 6 && (n == 1 || n == 3 || n == 4 || n == 7) {
			id := []uint16{0x409, 0x40C, 0x40C, 0, 0xFFFF, 1}[i]
			if want[id] == nil {
				want[id] = map[string][]string{}
			}
			for k, s := range []map[string]string{nil, nil, nil, {"a": "b"}, {"a": ""}, nil, nil, {"z": "b", "FileVersion": "1.0"}}[n] {
				want[id][k] = append(want[id][k], s)
			}
		}
	}
	doc := `{"fixed":{` + strings.Join(fixed, ",") + `},"info":{` + strings.Join(info, ",") + `}}`
	vi := &version.Info{}
	r.Step()
	if err := json.Unmarshal([]byte(doc), vi); err != nil {
		r.Logf("%s: %v", doc, err)
		r.StateStr("refused " + doc)
		return
	}
	m := meaning(vi)
	if len(m.Langs) != len(want) {
		r.Failf("%s: %d languages, want %d", doc, len(m.Langs), len(want))
	}
	for l, t := range want {
		if len(m.Langs[l]) != len(t) {
			r.Failf("%s: language %#x has strings %v, want %v", doc, l, m.Langs[l], t)
		}
		for k, ss := range t {
			found := false
			for _, s := range ss {
				got, ok := m.Langs[l][k]
				found = found || ok && got == s
			}
			if !found {
				r.Failf("%s: language %#x has strings %v, want %v", doc, l, m.Langs[l], t)
			}
		}
	}
	judge(r, vi, m, doc)
}
