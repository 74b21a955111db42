package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C27: writing manifests. C28: reading foreign ones. C29: JSON.

func init() {
	assume := []string{"enumerations have one of their declared values", "texts are valid UTF-8; characters that do not exist in XML are replaced by U+FFFD"}
	register(&Property{
		ID: "C27", Assumptions: assume,
		Scenarios: []mc.Scenario{
			{Name: "settings", Weight: 4, Run: func(r *mc.Run) { c27Settings(r, c27judge) }},
			{Name: "texts", Weight: 2, Run: func(r *mc.Run) { c27Texts(r, c27judge) }},
			{Name: "characters", Weight: 1, Run: func(r *mc.Run) { c27Chars(r, c27judge) }},
			{Name: "histories", Weight: 1, Run: c27Histories},
			{Name: "tool", Bound: 2, ThoroughBound: 3, Run: c27Tool},
		},
	})
	register(&Property{
		ID: "C28", Assumptions: []string{"documents are UTF-8", "simple elements occur at most once"},
		Scenarios: []mc.Scenario{
			{Name: "documents", Bound: 3, ThoroughBound: 4, Weight: 5, Run: c28Documents},
			{Name: "operating systems", Weight: 2, Run: c28OS},
			{Name: "dpi", Weight: 2, Run: c28DPI},
			{Name: "syntax", Weight: 2, Run: c28Syntax},
			{Name: "malformed", Run: c28Malformed},
			{Name: "merged", Bound: 2, ThoroughBound: 3, Run: c28Merged},
			{Name: "versions", Weight: 2, Run: c28Versions},
		},
	})
	register(&Property{
		ID: "C29", Assumptions: assume,
		Scenarios: []mc.Scenario{
			{Name: "settings", Weight: 4, Run: func(r *mc.Run) { c27Settings(r, c29judge) }},
			{Name: "texts", Weight: 2, Run: func(r *mc.Run) { c27Texts(r, c29judge) }},
			{Name: "characters", Weight: 1, Run: func(r *mc.Run) { c27Chars(r, c29judge) }},
			{Name: "spellings", Weight: 1, Run: c29Spellings},
			{Name: "versions", Weight: 2, Run: c29Versions},
			{Name: "invalid values", Run: c29Invalid},
			{Name: "misspellings", Weight: 1, Run: c29Misspellings},
		},
	})
}

type manifestJudge func(r *mc.Run, m winres.AppManifest)

const (
	nsAsm1   = "urn:schemas-microsoft-com:asm.v1"
	nsAsm3   = "urn:schemas-microsoft-com:asm.v3"
	nsCompat = "urn:schemas-microsoft-com:compatibility.v1"
	nsWS     = "http://schemas.microsoft.com/SMI/%d/WindowsSettings"
)

// the operating systems, from the oldest.
var osIDs = []string{"{e2011457-1546-43c5-a5fe-008deee3d3f0}", "{35138b9a-5d96-4fbd-8e2d-a2440225f93a}", "{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}", "{1f676c76-80e1-4239-95bb-83d0f6d0da78}", "{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}"}
var osEnums = []winres.SupportedOS{winres.WinVistaAndAbove, winres.Win7AndAbove, winres.Win8AndAbove, winres.Win81AndAbove, winres.Win10AndAbove}
var levels = []winres.ExecutionLevel{winres.AsInvoker, winres.HighestAvailable, winres.RequireAdministrator}
var levelNames = []string{"asInvoker", "highestAvailable", "requireAdministrator"}
var dpis = []winres.DPIAwareness{winres.DPIAware, winres.DPIUnaware, winres.DPIPerMonitor, winres.DPIPerMonitorV2}

// expectManifest is the meaning of a description, as a canonical document.
func expectManifest(m winres.AppManifest) string {
	el := func(space, name string, attr map[string]string, text string, kids ...*ref.XMLNode) *ref.XMLNode {
		if attr == nil {
			attr = map[string]string{}
		}
		return &ref.XMLNode{Space: space, Name: name, Attr: attr, Text: text, Kids: kids}
	}
	var kids []*ref.XMLNode
	if m.Identity.Name != "" {
		v := m.Identity.Version
		kids = append(kids, el(nsAsm1, "assemblyIdentity", map[string]string{"type": "win32", "name": m.Identity.Name, "version": fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3]), "processorArchitecture": "*"}, ""))
	}
	if m.Description != "" {
		kids = append(kids, el(nsAsm1, "description", nil, m.Description))
	}
	var oses []*ref.XMLNode
	for i, e := range osEnums {
		if e >= m.Compatibility {
			oses = append(oses, el(nsCompat, "supportedOS", map[string]string{"Id": osIDs[i]}, ""))
		}
	}
	kids = append(kids, el(nsCompat, "compatibility", nil, "", el(nsCompat, "application", nil, "", oses...)))
	var ws []*ref.XMLNode
	set := func(on bool, year int, name, value string) {
		if on {
			ws = append(ws, el(fmt.Sprintf(nsWS, year), name, nil, value))
		}
	}
	aware := map[winres.DPIAwareness][2]string{winres.DPIAware: {"true", "system"}, winres.DPIUnaware: {"false", "unaware"}, winres.DPIPerMonitor: {"true/pm", "permonitor"}, winres.DPIPerMonitorV2: {"true", "permonitorv2,system"}}[m.DPIAwareness]
	set(true, 2005, "dpiAware", aware[0])
	set(true, 2016, "dpiAwareness", aware[1])
	set(m.AutoElevate, 2005, "autoElevate", "true")
	set(m.DisableTheming, 2005, "disableTheming", "true")
	set(m.DisableWindowFiltering, 2011, "disableWindowFiltering", "true")
	set(m.HighResolutionScrollingAware, 2013, "highResolutionScrollingAware", "true")
	set(m.PrinterDriverIsolation, 2011, "printerDriverIsolation", "true")
	set(m.UltraHighResolutionScrollingAware, 2013, "ultraHighResolutionScrollingAware", "true")
	set(m.LongPathAware, 2016, "longPathAware", "true")
	set(m.GDIScaling, 2017, "gdiScaling", "true")
	set(m.SegmentHeap, 2020, "heapType", "SegmentHeap")
	kids = append(kids, el(nsAsm3, "application", nil, "", el(nsAsm3, "windowsSettings", nil, "", ws...)))
	kids = append(kids, el(nsAsm3, "trustInfo", nil, "", el(nsAsm3, "security", nil, "", el(nsAsm3, "requestedPrivileges", nil, "",
		el(nsAsm3, "requestedExecutionLevel", map[string]string{"level": levelNames[m.ExecutionLevel], "uiAccess": fmt.Sprint(m.UIAccess)}, "")))))
	if m.UseCommonControlsV6 {
		kids = append(kids, el(nsAsm1, "dependency", nil, "", el(nsAsm1, "dependentAssembly", nil, "",
			el(nsAsm1, "assemblyIdentity", map[string]string{"type": "win32", "name": "Microsoft.Windows.Common-Controls", "version": "6.0.0.0", "processorArchitecture": "*", "publicKeyToken": "6595b64144ccf1df", "language": "*"}, ""))))
	}
	return el(nsAsm1, "assembly", map[string]string{"manifestVersion": "1.0"}, "", kids...).Canon()
}

// xmlText replaces characters that do not exist in XML.
func xmlText(s string) string {
	return strings.Map(func(c rune) rune {
		if c < 0x20 && c != 9 && c != 10 && c != 13 || c == 0xFFFE || c == 0xFFFF {
			return 0xFFFD
		}
		return c
	}, s)
}

func c27judge(r *mc.Run, m winres.AppManifest) {
	what := fmt.Sprintf("%+v", m)
	if r.Tracing() {
		r.Logf("%s", what)
	}
	rs := &winres.ResourceSet{}
	r.Step()
	rs.SetManifest(m)
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	if b == nil || rs.Count() != 1 {
		r.Failf("%s: no manifest resource (%d resources)", what, rs.Count())
	}
	x, err := ref.ParseXML(b)
	if err != nil {
		r.Failf("%s: the manifest is not well formed: %v", what, err)
	}
	m.Identity.Name, m.Description = xmlText(m.Identity.Name), xmlText(m.Description)
	if got, want := x.Canon(), expectManifest(m); got != want {
		r.Failf("%s: the manifest means %s, want %s", what, got, want)
	}
	r.Step()
	back, err := winres.AppManifestFromXML(b)
	must(r, err, what+": AppManifestFromXML")
	want := m
	if m.Identity.Name == "" {
		want.Identity.Version = [4]uint16{}
	}
	if back != want {
		r.Failf("%s: reads back as %+v", what, back)
	}
	r.State(b)
}

// c27Settings: every combination of settings.
func c27Settings(r *mc.Run, judge manifestJudge) {
	m := winres.AppManifest{Compatibility: osEnums[r.Pick(5)], ExecutionLevel: levels[r.Pick(3)], DPIAwareness: dpis[r.Pick(4)]}
	n := 1 << 11
	bits := r.Pick(n)
	set := []*bool{&m.UIAccess, &m.AutoElevate, &m.DisableTheming, &m.DisableWindowFiltering, &m.HighResolutionScrollingAware, &m.UltraHighResolutionScrollingAware,
		&m.LongPathAware, &m.PrinterDriverIsolation, &m.GDIScaling, &m.SegmentHeap, &m.UseCommonControlsV6}
	for i, p := range set {
		*p = bits>>uint(i)&1 != 0
	}
	judge(r, m)
}

var manTexts = []string{"", "a", "My App", "é", "日本語", "\U0001F600", "a & b", "<b>", "]]>", "&amp;", "&#65;", "\"quoted\"", "'it''s'", "two\nlines", "cr\r\nlf", "lone\rcr", "tab\there", " leading", "trailing ", "  ", "\n", "\u00a0", "\u2028", "\ufffd", "\u0085", "\u200b", "{{.Name}}", "%s%d", "-->", "<!--", "<![CDATA[x]]>", "</description>", "a+b=c", "`", "\\", "\x7f", strings.Repeat("long & ", 100)}
var manVersions = [][4]uint16{{}, {1, 2, 3, 4}, {65535, 65534, 65533, 65532}, {0, 0, 0, 1}, {10, 0, 100, 0}}

func c27Texts(r *mc.Run, judge manifestJudge) {
	var m winres.AppManifest
	m.Identity.Name = manTexts[r.Pick(len(manTexts))]
	m.Description = manTexts[r.Pick(len(manTexts))]
	m.Identity.Version = manVersions[r.Pick(len(manVersions))]
	m.UseCommonControlsV6 = r.Bool()
	judge(r, m)
}

// c27Chars: every character of the first pages, alone and between others.
func c27Chars(r *mc.Run, judge manifestJudge) {
	n := 0x300
	if r.Thorough {
		n = 0x10000
	}
	c := rune(r.Pick(n))
	s := []string{string(c), "x" + string(c) + "y", string(c) + "\n" + string(c)}[r.Pick(3)]
	var m winres.AppManifest
	if r.Bool() {
		m.Description = s
	} else {
		m.Identity.Name = s
	}
	judge(r, m)
}

// c27Histories: setting manifests one after the other, among other resources.
func c27Histories(r *mc.Run) {
	rs := &winres.ResourceSet{}
	m := model{}
	what := ""
	n := 4
	if r.Thorough {
		n = 6
	}
	for i := 0; i < n; i++ {
		k := r.Pick(7) - 1
		r.Step()
		switch {
		case k < 3:
			a := []winres.AppManifest{{Identity: winres.AssemblyIdentity{Name: "y", Version: [4]uint16{1, 2, 3, 4}}, Description: "d", UIAccess: true, SegmentHeap: true}, {}, {Identity: winres.AssemblyIdentity{Name: "x", Version: [4]uint16{1, 2, 3, 4}}, Description: "d", UIAccess: true, SegmentHeap: true}, {DPIAwareness: winres.DPIPerMonitorV2, UseCommonControlsV6: true, Compatibility: winres.Win10AndAbove}}[k+1]
			what += fmt.Sprint(" SetManifest ", k)
			rs.SetManifest(a)
			b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
			x, err := ref.ParseXML(b)
			must(r, err, what)
			if x.Canon() != expectManifest(a) {
				r.Failf("%s: the manifest means %s, want %s", what, x.Canon(), expectManifest(a))
			}
			m[key(id(24), id(1), 0x409)] = b
		case k == 3:
			what += " delete"
			must(r, rs.Set(winres.RT_MANIFEST, winres.ID(1), 0x409, nil), what)
			delete(m, key(id(24), id(1), 0x409))
		case k == 4:
			what += " other language"
			d := []byte(what)
			must(r, rs.Set(winres.RT_MANIFEST, winres.ID(1), 0x40C, d), what)
			m[key(id(24), id(1), 0x40C)] = d
		case k == 5:
			what += " other id"
			d := []byte(what)
			must(r, rs.Set(winres.RT_MANIFEST, winres.ID(2), 0x409, d), what)
			m[key(id(24), id(2), 0x409)] = d
		}
		if got, want := ref.Dump(collect(rs)), m.dump(); got != want {
			r.Failf("%s: resources are %s, want %s", what, got, want)
		}
	}
	r.StateStr(m.dump())
}

// mdoc builds manifests in all kinds of presentations.
type mdoc struct {
	prefix  bool // namespace prefixes instead of default namespaces
	nons    bool // no namespace
	single  bool // single quotes
	comment bool
	blank   string
	swap    bool // reverse the order of attributes
	expand  bool // <a></a> instead of <a/>
	cdata   bool
	refs    bool // character references in attributes
	noise   bool // unknown attributes
}

func (d mdoc) attr(name, value string) string {
	q := "\""
	if d.single {
		q = "'"
	}
	v := strings.Replace(strings.Replace(strings.Replace(value, "&", "&amp;", -1), "<", "&lt;", -1), q, fmt.Sprintf("&#%d;", q[0]), -1)
	if d.refs && len(v) > 0 && v[0] != '&' {
		c := []rune(v)
		v = fmt.Sprintf("&#x%x;", c[0]) + string(c[1:])
	}
	return " " + name + "=" + q + v + q
}

// el writes an element; attrs alternate names and values.
func (d mdoc) el(space, name string, attrs []string, body string) string {
	at := ""
	for i := 0; i < len(attrs); i += 2 {
		a := d.attr(attrs[i], attrs[i+1])
		if d.swap {
			at = a + at
		} else {
			at += a
		}
	}
	if d.noise {
		at += d.attr("unknown", "true")
	}
	tag := name
	if space != "" && !d.nons {
		if d.prefix {
			tag = "p:" + name
			at += d.attr("xmlns:p", space)
		} else {
			at = d.attr("xmlns", space) + at
		}
	}
	c := ""
	if d.comment {
		c = "<!-- x=\"true\" <y> -->"
	}
	if body == "" && !d.expand {
		return c + "<" + tag + at + d.blank + "/>" + d.blank
	}
	return c + "<" + tag + at + ">" + body + "</" + tag + d.blank + ">" + d.blank
}

func (d mdoc) text(s string) string {
	if d.cdata {
		return "<![CDATA[" + s + "]]>"
	}
	s = strings.Replace(strings.Replace(strings.Replace(s, "&", "&amp;", -1), "<", "&lt;", -1), "]]>", "]]&gt;", -1)
	if d.comment && len(s) > 2 && s[0] != '&' && s[0] < 0x80 && s[:2] != "\r\n" {
		return s[:1] + "<!-- c -->" + s[1:]
	}
	return s
}

func spell(s string, k int) string {
	switch k {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		return " " + s + " "
	case 4:
		return "\n\t" + strings.Title(s) + "\r\n"
	}
	return s
}

// c28Documents: documents with any elements, in any presentation.
func c28Documents(r *mc.Run) {
	want := winres.AppManifest{DPIAwareness: winres.DPIUnaware}
	d := mdoc{}
	switch r.Dev(12) {
	case 1:
		d.prefix = true
	case 2:
		d.nons = true
	case 3:
		d.single = true
	case 4:
		d.comment = true
	case 5:
		d.blank = "\n  \t"
	case 6:
		d.swap = true
	case 7:
		d.expand = true
	case 8:
		d.cdata = true
	case 9:
		d.refs = true
	case 10:
		d.noise = true
	case 11:
		d = mdoc{prefix: true, single: true, comment: true, blank: "\r\n", swap: true, expand: true, cdata: true, noise: true}
	}
	var parts []string
	if k := r.Dev(len(manTexts)); k > 0 {
		t := manTexts[k]
		if d.cdata && strings.Contains(t, "]]>") {
			t = "desc"
		}
		want.Description = strings.Replace(strings.Replace(t, "\r\n", "\n", -1), "\r", "\n", -1)
		esc := d.text(t)
		parts = append(parts, d.el(nsAsm1, "description", nil, esc))
	}
	if k := r.Dev(11); k > 0 {
		name := []string{"", "app", "App Name", "a&b<c>\"d'", "é", "app", "app", "app", "app", "app", "app"}[k]
		ver := []string{"", "1.2.3.4", "", "65535.0.0.1", "1", "1.2", "1.2.3.4.5", "x.2.y.4", "1..3", "65536.1.100000.65537", "-1.+2.18446744073709551616.00004"}[k]
		wv := [][4]uint16{{}, {1, 2, 3, 4}, {}, {65535, 0, 0, 1}, {1}, {1, 2}, {1, 2, 3, 4}, {0, 2, 0, 4}, {1, 0, 3}, {0, 1, 0, 0}, {0, 0, 0, 4}}[k]
		want.Identity.Name, want.Identity.Version = name, wv
		at := []string{"name", name, "type", "win32", "processorArchitecture", "*"}
		if ver != "" {
			at = append(at, "version", ver)
		}
		parts = append(parts, d.el(nsAsm1, "assemblyIdentity", at, ""))
	}
	// supported systems
	if k := r.Dev(10); k > 0 {
		lists := [][]int{nil, {}, {4}, {4, 3}, {2, 4, 3}, {1, 2}, {4, 3, 2, 1, 0}, {0}, {9, 3}, {3, 9, 9}}[k]
		body := ""
		low := 1
		if len(lists) > 0 {
			low = 4
		}
		up := r.Dev(3)
		for _, i := range lists {
			g := "{00000000-0000-0000-0000-000000000000}"
			if i < len(osIDs) {
				g = osIDs[i]
				if i < low {
					low = i
				}
			}
			body += d.el(nsCompat, "supportedOS", []string{"Id", spell(g, up)}, "")
		}
		want.Compatibility = osEnums[low]
		parts = append(parts, d.el(nsCompat, "compatibility", nil, d.el(nsCompat, "application", nil, body)))
	}
	// settings
	ws := ""
	sp := r.Dev(5)
	bools := []struct {
		name string
		year int
		p    *bool
	}{
		{"autoElevate", 2005, &want.AutoElevate}, {"disableTheming", 2005, &want.DisableTheming}, {"disableWindowFiltering", 2011, &want.DisableWindowFiltering},
		{"highResolutionScrollingAware", 2013, &want.HighResolutionScrollingAware}, {"printerDriverIsolation", 2011, &want.PrinterDriverIsolation},
		{"ultraHighResolutionScrollingAware", 2013, &want.UltraHighResolutionScrollingAware}, {"longPathAware", 2016, &want.LongPathAware}, {"gdiScaling", 2017, &want.GDIScaling},
	}
	for _, b := range bools {
		if k := r.Dev(7); k > 0 {
			v := []string{"", "true", "false", "", "maybe", "true/pm", "untrue"}[k]
			*b.p = k == 1
			ws += d.el(fmt.Sprintf(nsWS, b.year), b.name, nil, d.text(spell(v, sp)))
		}
	}
	if k := r.Dev(6); k > 0 {
		want.SegmentHeap = k == 1
		ws += d.el(fmt.Sprintf(nsWS, 2020), "heapType", nil, d.text(spell([]string{"", "SegmentHeap", "", "other", "NoSegmentHeap", "SegmentHeap2"}[k], sp)))
	}
	if k := r.Dev(9); k > 0 {
		v := []string{"", "system", "PerMonitor", "PerMonitorV2, PerMonitor", "unknown,system", "unaware", "a,PerMonitorV3,b,,system", "unaware,PerMonitorV2", ""}[k]
		want.DPIAwareness = []winres.DPIAwareness{0, winres.DPIAware, winres.DPIPerMonitor, winres.DPIPerMonitorV2, winres.DPIAware, winres.DPIUnaware, winres.DPIAware, winres.DPIUnaware, winres.DPIUnaware}[k]
		ws += d.el(fmt.Sprintf(nsWS, 2016), "dpiAwareness", nil, d.text(spell(v, sp)))
		if k < 8 {
			if r.Dev(2) == 1 {
				ws = d.el(fmt.Sprintf(nsWS, 2005), "dpiAware", nil, d.text("true/pm")) + ws
			}
		}
	} else if k := r.Dev(8); k > 0 {
		v := []string{"", "true", "True/PM", "false", "x", "permonitor", "1", "yes"}[k]
		want.DPIAwareness = []winres.DPIAwareness{0, winres.DPIAware, winres.DPIPerMonitor, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware}[k]
		ws += d.el(fmt.Sprintf(nsWS, 2005), "dpiAware", nil, d.text(spell(v, sp)))
	}
	if r.Dev(2) == 1 {
		ws = d.el("urn:other", "unknownSetting", nil, d.el("urn:other", "autoElevated", nil, "true")) + ws
	}
	if ws != "" && r.Dev(2) == 1 { // another block of settings
		parts = append(parts, d.el(nsAsm3, "application", nil, d.el(nsAsm3, "windowsSettings", nil, d.el("urn:other", "unknownSetting", nil, "x"))), d.el(nsAsm3, "application", nil, ""))
	}
	if ws != "" {
		parts = append(parts, d.el(nsAsm3, "application", nil, d.el(nsAsm3, "windowsSettings", nil, ws)))
	}
	// execution level
	if k := r.Dev(10); k > 0 {
		lv := []string{"", "asInvoker", "highestAvailable", "requireAdministrator", "x", "", "requireAdministrator", "highestAvailable", "administrator", "highest"}[k]
		ui := []string{"", "false", "true", "true", "true", "false", "", "yes", "true", ""}[k]
		want.ExecutionLevel = []winres.ExecutionLevel{0, 0, 1, 2, 0, 0, 2, 1, 0, 0}[k]
		want.UIAccess = ui == "true"
		at := []string{"level", spell(lv, sp)}
		if ui != "" {
			at = append(at, "uiAccess", spell(ui, sp))
		}
		parts = append(parts, d.el(nsAsm3, "trustInfo", nil, d.el(nsAsm3, "security", nil, d.el(nsAsm3, "requestedPrivileges", nil, d.el(nsAsm3, "requestedExecutionLevel", at, "")))))
	}
	// dependencies
	dep := func(name, ver, tok string) string {
		return d.el(nsAsm1, "dependentAssembly", nil, d.el(nsAsm1, "assemblyIdentity", []string{"type", "win32", "name", name, "version", ver, "publicKeyToken", tok, "processorArchitecture", "*", "language", "*"}, ""))
	}
	const cc, tok = "Microsoft.Windows.Common-Controls", "6595b64144ccf1df"
	if k := r.Dev(13); k > 0 {
		other := dep("Other.Assembly", "6.0.0.0", tok)
		body := []string{"", dep(cc, "6.0.0.0", tok), other + dep(cc, "6.0.1.2", strings.ToUpper(tok)), dep(cc, "6.0.0.0", tok) + other, other, dep(cc, "5.82.0.0", tok), dep(cc, "6.0.0.0", "0123456789abcdef"), dep(cc, "60.0.0.0", tok), "", "", other + other + other + dep(cc, "6.0.0.0", tok), dep(cc, "5.82.0.0", tok) + dep(cc, "6.0.0.0", "0123456789abcdef") + dep(cc, "6.0.0.0", tok) + other, dep(cc, "5.82.0.0", tok) + dep("Other.Assembly", "6.0.0.0", tok)}[k]
		want.UseCommonControlsV6 = k <= 3 || k >= 8 && k <= 11
		switch k {
		case 8: // one element per dependency
			parts = append(parts, d.el(nsAsm1, "dependency", nil, other), d.el(nsAsm1, "dependency", nil, dep(cc, "6.0.0.0", tok)))
		case 9:
			parts = append(parts, d.el(nsAsm1, "dependency", nil, dep(strings.ToLower(cc), "6.0.0.0", tok)), d.el(nsAsm1, "dependency", nil, other))
		default:
			parts = append(parts, d.el(nsAsm1, "dependency", nil, body))
		}
	}
	if r.Dev(2) == 1 {
		parts = append(parts, d.el(nsAsm1, "file", []string{"name", "x.dll"}, ""), d.el("urn:other", "unknown", []string{"name", "other", "version", "9.9.9.9"}, d.el("urn:other", "description2", nil, "x")))
	}
	if k := r.Dev(3); k == 1 {
		sort.Sort(sort.Reverse(sort.StringSlice(parts)))
	} else if k == 2 {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	decl := []string{`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n", "", "\ufeff" + `<?xml version="1.0" encoding="utf-8"?>`, "<?xml version='1.0'?>\r\n<!-- comment -->\n<?pi x?>"}[r.Dev(4)]
	doc := decl + d.el(nsAsm1, "assembly", []string{"manifestVersion", "1.0"}, strings.Join(parts, "")+" ")
	if _, err := ref.ParseXML([]byte(doc)); err != nil {
		r.Failf("internal: %s: %v", doc, err)
	}
	c28judge(r, doc, want)
}

func c28judge(r *mc.Run, doc string, want winres.AppManifest) {
	if r.Tracing() {
		r.Logf("%s", doc)
	}
	b := []byte(doc)
	r.Step()
	got, err := winres.AppManifestFromXML(b)
	must(r, err, doc)
	if got != want {
		r.Failf("%s: %+v, want %+v", doc, got, want)
	}
	if string(b) != doc {
		r.Failf("%s: the input was modified", doc)
	}
	r.StateStr(doc)
}

// c28OS: every list of up to four systems, in any spelling.
func c28OS(r *mc.Run) {
	n := r.Pick(5)
	sp := r.Pick(4)
	low := 9
	body := ""
	for i := 0; i < n; i++ {
		k := r.Pick(7)
		g := "{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9b}"
		if k < 5 {
			g = osIDs[k]
			if k < low {
				low = k
			}
		} else if k == 6 {
			g = ""
		}
		body += fmt.Sprintf(`<supportedOS Id="%s"/>`, spell(g, sp))
	}
	want := winres.AppManifest{DPIAwareness: winres.DPIUnaware}
	if low < 5 {
		want.Compatibility = osEnums[low]
	}
	c28judge(r, `<assembly xmlns="`+nsAsm1+`"><compatibility xmlns="`+nsCompat+`"><application>`+body+`</application></compatibility></assembly>`, want)
}

// c28DPI: every list of up to three values, with every old value.
func c28DPI(r *mc.Run) {
	vals := []string{"system", "unaware", "PerMonitor", "permonitorV2", "true", "per monitor", "x", "", "SYSTEM ", "\nUnaware", "unawareGdiScaled", "none"}
	is := []winres.DPIAwareness{winres.DPIAware, winres.DPIUnaware, winres.DPIPerMonitor, winres.DPIPerMonitorV2, -1, -1, -1, -1, winres.DPIAware, winres.DPIUnaware, -1, -1}
	n := r.Pick(4)
	want := winres.DPIAwareness(-1)
	var list []string
	for i := 0; i < n; i++ {
		k := r.Pick(len(vals))
		list = append(list, vals[k])
		if want < 0 {
			want = is[k]
		}
	}
	olds := []string{"", "true", "True/pm", "false", " TRUE ", "per monitor", "x", "permonitor", "1", "yes", "system", "unaware"}
	k := r.Pick(len(olds))
	if want < 0 {
		want = []winres.DPIAwareness{winres.DPIUnaware, winres.DPIAware, winres.DPIPerMonitor, winres.DPIUnaware, winres.DPIAware, winres.DPIPerMonitor, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware, winres.DPIUnaware}[k]
	}
	parts := []string{fmt.Sprintf(`<dpiAwareness xmlns="`+nsWS+`">%s</dpiAwareness>`, 2016, strings.Join(list, ",")), fmt.Sprintf(`<dpiAware xmlns="`+nsWS+`">%s</dpiAware>`, 2005, olds[k])}
	if n == 0 {
		parts[0] = ""
	}
	if k == 0 {
		parts[1] = ""
	}
	if r.Bool() {
		parts[0], parts[1] = parts[1], parts[0]
	}
	c28judge(r, `<assembly xmlns="`+nsAsm1+`"><asmv3:application xmlns:asmv3="`+nsAsm3+`"><asmv3:windowsSettings>`+parts[0]+parts[1]+`</asmv3:windowsSettings></asmv3:application></assembly>`, winres.AppManifest{DPIAwareness: want})
}

// c28Syntax: every truncation and replaced character of a document: no panic, and an error if the root element is not well formed.
func c28Syntax(r *mc.Run) {
	rs := &winres.ResourceSet{}
	rs.SetManifest(winres.AppManifest{Identity: winres.AssemblyIdentity{Name: "n&", Version: [4]uint16{1, 2, 3, 4}}, Description: "d", SegmentHeap: true, AutoElevate: true, UseCommonControlsV6: true})
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	full := bytes.LastIndexByte(b, '>') + 1
	i := r.Pick(len(b) + 1)
	k := r.Pick(9)
	if k == 0 {
		doc := append([]byte(nil), b[:i]...)
		r.Step()
		got, err := winres.AppManifestFromXML(doc)
		if i < full && err == nil {
			r.Failf("truncated at %d: no error, %+v", i, got)
		}
		if i >= full {
			must(r, err, "complete document")
		}
		return
	}
	if i == len(b) {
		r.Prune()
		return
	}
	doc := string(b[:i]) + []string{"", "x", "<", ">", "\"", "/", "&", "\x00", " "}[k] + string(b[i+1:])
	r.Step()
	got, err := winres.AppManifestFromXML([]byte(doc))
	r.StateStr(fmt.Sprint(got, err))
	if err != nil && got != (winres.AppManifest{}) {
		r.Failf("error with a result: %+v, %v", got, err)
	}
	if _, perr := ref.ParseXML([]byte(doc)); perr == nil && err != nil && i > bytes.Index(b, []byte("<assembly")) {
		r.Failf("%s: refused: %v", doc, err)
	}
}

func c29judge(r *mc.Run, m winres.AppManifest) {
	what := fmt.Sprintf("%+v", m)
	r.Logf("%s", what)
	want := m
	if m.Identity.Name == "" {
		want.Identity.Version = [4]uint16{}
	}
	r.Step()
	j, err := json.Marshal(m)
	must(r, err, what)
	j2, err := json.Marshal(&m)
	must(r, err, what)
	if !bytes.Equal(j, j2) {
		r.Failf("%s: %s by value, %s by pointer", what, j, j2)
	}
	var back winres.AppManifest
	if r.Bool() {
		back = winres.AppManifest{Identity: winres.AssemblyIdentity{Name: "old", Version: [4]uint16{9, 9, 9, 9}}, Description: "old", Compatibility: winres.Win81AndAbove, ExecutionLevel: winres.HighestAvailable, UIAccess: true, AutoElevate: true, DPIAwareness: winres.DPIPerMonitor,
			DisableTheming: true, DisableWindowFiltering: true, HighResolutionScrollingAware: true, UltraHighResolutionScrollingAware: true, LongPathAware: true, PrinterDriverIsolation: true, GDIScaling: true, SegmentHeap: true, UseCommonControlsV6: true}
	}
	r.Step()
	must(r, json.Unmarshal(j, &back), what+": "+string(j))
	if back.Identity.Name == "" {
		back.Identity.Version = [4]uint16{}
	}
	if back != want {
		r.Failf("%s: %s gives %+v", what, j, back)
	}
	r.State(j)
}

// c29Spellings: every documented spelling in any case.
func c29Spellings(r *mc.Run) {
	oses := []string{"vista", "win7", "win8", "win8.1", "win10"}
	lvls := [][]string{{"", "as invoker", "asInvoker"}, {"highest", "highest available", "highestAvailable"}, {"administrator", "require administrator", "requireAdministrator"}}
	dps := [][]string{{"system", "true", ""}, {"unaware", "false"}, {"per monitor", "permonitor", "true/pm"}, {"per monitor v2", "permonitorv2"}}
	var want winres.AppManifest
	i := r.Pick(5)
	want.Compatibility = osEnums[i]
	l := r.Pick(3)
	want.ExecutionLevel = levels[l]
	ls := lvls[l][r.Pick(3)]
	d := r.Pick(4)
	want.DPIAwareness = dpis[d]
	ds := dps[d][r.Pick(len(dps[d]))]
	sp := r.Pick(5)
	doc, _ := json.Marshal(map[string]string{"minimum-os": spell(oses[i], sp), "execution-level": spell(ls, sp), "dpi-awareness": spell(ds, sp)})
	r.Logf("%s", doc)
	var got winres.AppManifest
	if r.Bool() {
		got.Compatibility, got.ExecutionLevel, got.DPIAwareness = winres.WinVistaAndAbove, winres.HighestAvailable, winres.DPIPerMonitorV2
	}
	r.Step()
	must(r, json.Unmarshal(doc, &got), string(doc))
	if got != want {
		r.Failf("%s: %+v, want %+v", doc, got, want)
	}
	r.State(doc)
}

// c29Misspellings: every documented spelling with one character removed, replaced or inserted, and every pair of them.
func c29Misspellings(r *mc.Run) {
	fields := []string{"minimum-os", "execution-level", "dpi-awareness"}
	valid := [][]string{
		{"vista", "win7", "win8", "win8.1", "win10"},
		{"", "as invoker", "asinvoker", "highest", "highest available", "highestavailable", "administrator", "require administrator", "requireadministrator"},
		{"system", "true", "", "unaware", "false", "per monitor", "permonitor", "true/pm", "per monitor v2", "permonitorv2"},
	}
	f := r.Pick(3)
	known := map[string]bool{}
	var all []string
	for _, vs := range valid {
		all = append(all, vs...)
	}
	for _, s := range valid[f] {
		known[s] = true
	}
	s := all[r.Pick(len(all))]
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789 ./-_,+;"
	edit := func(s string) string {
		k := r.Pick(3 * (len(s) + 1))
		at := k / 3
		switch k % 3 {
		case 0: // removed
			if at < len(s) {
				return s[:at] + s[at+1:]
			}
			return s
		case 1: // inserted
			return s[:at] + letters[r.Pick(len(letters)):][:1] + s[at:]
		}
		if at == len(s) { // two spellings
			return s + []string{"", " ", ",", "/"}[r.Pick(4)] + all[r.Pick(len(all))]
		}
		return s[:at] + letters[r.Pick(len(letters)):][:1] + s[at+1:]
	}
	t := edit(s)
	if r.Thorough && r.Bool() {
		t = edit(t)
	}
	doc := fmt.Sprintf(`{%q:%q}`, fields[f], t)
	var m winres.AppManifest
	r.Step()
	err := json.Unmarshal([]byte(doc), &m)
	if known[strings.Trim(t, " ")] != (err == nil) {
		r.Failf("%s: error %v, %+v", doc, err, m)
	}
	r.StateStr(doc)
}

// c28Versions: every version string over an alphabet; parts that are not decimal numbers up to 65535 are ignored.
func c28Versions(r *mc.Run) {
	alphabet := []string{"", ".", "0", "1", "x", "_", "9", "65535", "65536", "-", "+", " ", "e", "b"}
	n := 5
	if r.Thorough {
		n = 6
	}
	s := ""
	for i := 0; i < n; i++ {
		c := alphabet[r.Pick(len(alphabet))]
		if c == "" {
			break
		}
		s += c
	}
	tail := []string{"", ".010.0x10.1_0.0b1", ".0o7.1.2"}[r.Pick(3)]
	s += tail
	var want winres.AppManifest
	want.DPIAwareness = winres.DPIUnaware
	want.Identity.Name = "n"
	for k, p := range strings.Split(s, ".") {
		if k >= 4 {
			break
		}
		x := 0
		for _, c := range p {
			if c < '0' || c > '9' {
				x = 0
				break
			}
			if x = x*10 + int(c-'0'); x > 0xFFFF {
				x = 0
				break
			}
		}
		want.Identity.Version[k] = uint16(x)
	}
	c28judge(r, `<assembly xmlns="`+nsAsm1+`" manifestVersion="1.0"><assemblyIdentity type="win32" name="n" version="`+s+`" processorArchitecture="*"/></assembly>`, want)
}

// c29Versions: every version string over an alphabet.
func c29Versions(r *mc.Run) {
	alphabet := []string{"", "0", "1", "9", ".", "65535", "65536", "-", " ", "x"}
	n := 6
	if r.Thorough {
		n = 7
	}
	s := ""
	for i := 0; i < n; i++ {
		if i == 4 && !r.Thorough {
			alphabet = alphabet[:6]
		}
		c := alphabet[r.Pick(len(alphabet))]
		if c == "" {
			break
		}
		s += c
	}
	var want [4]uint16
	t := strings.Trim(s, " ")
	valid := true
	if t != "" {
		parts := strings.Split(t, ".")
		if len(parts) > 4 {
			valid = false
		} else {
			for k, p := range parts {
				x := 0
				if p == "" {
					valid = false
				}
				for _, c := range p {
					if c < '0' || c > '9' {
						valid = false
						break
					}
					if x = x*10 + int(c-'0'); x > 0xFFFF {
						valid = false
						break
					}
				}
				want[k] = uint16(x)
			}
		}
	}
	ai := winres.AssemblyIdentity{Name: "old"}
	if r.Bool() && t != "" {
		ai.Version = [4]uint16{9, 9, 9, 9}
	}
	r.Step()
	err := json.Unmarshal([]byte(fmt.Sprintf(`{"name":"n","version":%q}`, s)), &ai)
	if valid != (err == nil) {
		r.Failf("version %q: error %v", s, err)
	}
	if valid && (ai.Version != want || ai.Name != "n") {
		r.Failf("version %q: %+v, want %v", s, ai, want)
	}
	r.StateStr(fmt.Sprint(want, valid))
}

// c29Invalid: values that must be refused.
func c29Invalid(r *mc.Run) {
	docs := []string{}
	for _, f := range []string{"minimum-os", "execution-level", "dpi-awareness"} {
		for _, v := range []string{`"x"`, `"win"`, `"win9"`, `"win11"`, `"8"`, `"administrators"`, `"per monitor v3"`, `"permonitor v2"`, `1`, `true`, `[]`, `{}`, `"\u0000"`, `"system,unaware"`, `"as-invoker"`, `"high"`, `"admin"`, `"require"`, `"highest-available"`, `"win 7"`, `"vist"`, `"permonitorv"`, `"tru"`, `"none"`} {
			docs = append(docs, fmt.Sprintf(`{%q:%s}`, f, v))
		}
	}
	docs = append(docs, `{"minimum-os":""}`)
	for _, v := range []string{`"x"`, `1`, `[]`, `{"name":1}`, `{"version":1}`, `{"name":"x","version":"1.2.3.4.5"}`, `{"name":"x","version":"-1.2.3.4"}`, `{"name":"x","version":"1.2.3.x"}`} {
		docs = append(docs, `{"identity":`+v+`}`)
	}
	for _, f := range []string{"ui-access", "auto-elevate", "disable-theming", "disable-window-filtering", "high-resolution-scrolling-aware", "ultra-high-resolution-scrolling-aware", "long-path-aware", "printer-driver-isolation", "gdi-scaling", "segment-heap", "use-common-controls-v6"} {
		for _, v := range []string{`"true"`, `1`, `[]`, `{}`} {
			docs = append(docs, fmt.Sprintf(`{%q:%s}`, f, v))
		}
	}
	doc := docs[r.Pick(len(docs))]
	var m winres.AppManifest
	r.Step()
	if err := json.Unmarshal([]byte(doc), &m); err == nil {
		r.Failf("%s: accepted: %+v", doc, m)
	}
	r.StateStr(doc)
	// values out of the enumerations cannot be marshalled
	for i, m := range []winres.AppManifest{{Compatibility: 4}, {Compatibility: -2}, {ExecutionLevel: 3}, {ExecutionLevel: -1}, {DPIAwareness: 4}, {DPIAwareness: -1}} {
		if j, err := json.Marshal(m); err == nil {
			r.Failf("invalid value %d marshalled: %s", i, j)
		}
	}
}

// c28Malformed: one malformation in each tag or each content of a document is an error.
func c28Malformed(r *mc.Run) {
	docs := []string{
		`<assembly><description>d</description><trustInfo><security><requestedPrivileges><requestedExecutionLevel level="asInvoker" uiAccess="false"/></requestedPrivileges></security></trustInfo></assembly>`,
		`<?xml version="1.0"?><a:assembly xmlns:a="urn:schemas-microsoft-com:asm.v1"><x y="z"><!-- c -->t</x><assemblyIdentity name="n" version="1.2.3.4"></assemblyIdentity><application><windowsSettings><dpiAware>true</dpiAware></windowsSettings></application></a:assembly>`,
	}
	tag := []string{" b", " b=c", " b=1", " b=\"", " b='x\"", " b=\"<\"", " b=\"&\"", " b=\"&;\"", " b=\"&nbsp;\"", " b=\"&#0;\"", " b=\"&amp\"", " =\"x\"", " \"x\"", " &amp;", " <", " / b", "\x00", " b=\"\x01\"", " b=\"\xff\"", " 1=\"x\"", " b==\"x\"", " b=\"x\" c"}
	content := []string{"<b>", "</b>", "<b></c>", "<b><c></b></c>", "&nbsp;", "&", "& ", "&;", "&#0;", "&#xFFFE;", "&#;", "&amp", "<", "< b/>", "</>", "<>", "<1/>", "<b/ >", "<b c>", "<b c=d/>", "<b c=\"d/>", "<!-- -- -->", "<!--", "]]>", "<![CDATA[", "<![cdata[]]>", "<?p", "\x01", "\xff", "\ufffe", "<b c=\"<\"/>", "<br>", "<img src=x>", "<p>"}
	doc := docs[r.Pick(len(docs))]
	var holes [][2]int // offset, kind
	for i := strings.Index(doc, "assembly"); i < len(doc); i++ {
		if doc[i] != '>' {
			continue
		}
		o := strings.LastIndexByte(doc[:i], '<')
		switch {
		case strings.HasPrefix(doc[o:], "<!--"):
		case doc[o+1] == '/':
			if i < len(doc)-1 {
				holes = append(holes, [2]int{i + 1, 1})
			}
		case doc[i-1] == '/':
			holes = append(holes, [2]int{i - 1, 0}, [2]int{i + 1, 1})
		default:
			holes = append(holes, [2]int{i, 0}, [2]int{i + 1, 1})
		}
	}
	h := holes[r.Pick(len(holes))]
	bad := [][]string{tag, content}[h[1]]
	s := bad[r.Pick(len(bad))]
	full := doc[:h[0]] + s + doc[h[0]:]
	if _, err := ref.ParseXML([]byte(full)); err == nil {
		panic("harness: " + full + " is well formed")
	}
	r.Step()
	got, err := winres.AppManifestFromXML([]byte(full))
	r.Logf("%q: %v", full, err)
	r.StateStr(full)
	if err == nil {
		r.Failf("%q is not well formed, but was read as %+v", full, got)
	}
	if got != (winres.AppManifest{}) {
		r.Failf("%q: %+v with %v", full, got, err)
	}
}
