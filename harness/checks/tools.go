package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

// Real tools (LLVM's linker and resource compiler) take part in some scenarios: they read what the library writes and
// make what it reads. Scenarios are empty where a tool is not installed.

var toolPaths sync.Map

// tool finds a program, and prunes the execution if there is none.
func tool(r *mc.Run, name string) string {
	p, ok := toolPaths.Load(name)
	if !ok {
		p = ""
		for _, n := range []string{name, name + "-18", "/usr/lib/llvm-18/bin/" + name} {
			if q, err := exec.LookPath(n); err == nil {
				p = q
				break
			}
		}
		toolPaths.Store(name, p)
	}
	if p == "" {
		r.Prune()
	}
	return p.(string)
}

// errTool is what a tool says when it refuses its input.
type errTool struct{ msg string }

func (e errTool) Error() string { return e.msg }

// runTool runs a program in a scratch directory with some files, and returns a file that it made.
func runTool(r *mc.Run, path string, files map[string][]byte, out string, args ...string) ([]byte, error) {
	return runToolEnv(r, nil, path, files, out, args...)
}

func runToolEnv(r *mc.Run, env []string, path string, files map[string][]byte, out string, args ...string) ([]byte, error) {
	dir, err := os.MkdirTemp("", "verif-tool-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	for n, b := range files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o600); err != nil {
			panic("harness: " + err.Error())
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path, args...)
	cmd.Dir = dir
	cmd.Env = env
	msg, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	if err != nil && (!errors.As(err, &ee) || !ee.Exited()) {
		r.Logf("%s could not run: %v", path, err)
		r.Prune() // not the library's fault
	}
	if err != nil {
		return nil, errTool{fmt.Sprintf("%s: %.400s", filepath.Base(path), msg)}
	}
	b, err := os.ReadFile(filepath.Join(dir, out))
	if err != nil {
		return nil, errTool{fmt.Sprintf("%s made no output: %.400s", filepath.Base(path), msg)}
	}
	return b, nil
}

var lldMachine = []string{"x86", "x64", "arm", "arm64"}

// lldLink links files with LLVM's linker.
func lldLink(r *mc.Run, ai int, files map[string][]byte, opts ...string) ([]byte, error) {
	args := []string{"/nologo", "/out:out.bin", "/machine:" + lldMachine[ai], "/nodefaultlib", "/entry:start", "/subsystem:console"}
	args = append(args, opts...)
	for _, n := range []string{"main.obj", "rsrc.obj", "rsrc.res"} {
		if files[n] != nil {
			args = append(args, n)
		}
	}
	return runTool(r, tool(r, "lld-link"), files, "out.bin", args...)
}

// toolContent: resources with at most one unusual feature.
func toolContent(r *mc.Run) []ref.Res { return devContent(r) }

// c03Linked: objects linked with others by a real linker.
func c03Linked(r *mc.Run) {
	ai := r.Pick(len(arches))
	other := r.Pick(3)
	want := devContent(r)
	r.Logf("%s, other object %d: %s", arches[ai].a, other, ref.Dump(want))
	rs, err := build(want)
	must(r, err, "Set")
	var buf bytes.Buffer
	r.Step()
	must(r, rs.WriteObject(&buf, arches[ai].a), "WriteObject")
	files := map[string][]byte{"rsrc.obj": buf.Bytes(), "main.obj": ref.BuildObject(arches[ai].machine, 100, []int{0, 0x3000, 0x1234567}[other])}
	if ai == 0 {
		// the object has no table of safe exception handlers
		exe, err := lldLink(r, ai, files, "/safeseh:no")
		checkLinked(r, exe, err, want)
	} else {
		exe, err := lldLink(r, ai, files)
		checkLinked(r, exe, err, want)
	}
	r.StateStr(fmt.Sprint(ai, other) + ref.Dump(want))
}

func checkLinked(r *mc.Run, exe []byte, err error, want []ref.Res) {
	must(r, err, "linking the object")
	got, err := exeResources(exe)
	must(r, err, "reading the resources of the linked executable")
	if err := ref.SameRes(got, want); err != nil {
		r.Failf("in the linked executable: %v", err)
	}
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	must(r, err, "LoadFromEXE of the linked executable")
	if err := ref.SameRes(collect(rs), want); err != nil {
		r.Failf("LoadFromEXE of the linked executable: %v", err)
	}
}

// lldExe makes an executable with LLVM's linker: code, data, base relocations, and resources from a .res file.
func lldExe(r *mc.Run, ai int, res []ref.Res, opts ...string) []byte {
	files := map[string][]byte{"main.obj": ref.BuildObject(arches[ai].machine, 100, 0x3000)}
	if len(res) > 0 {
		files["rsrc.res"] = ref.BuildRES(res)
	}
	exe, err := lldLink(r, ai, files, opts...)
	if err != nil {
		if len(opts) > 0 {
			r.Logf("%v", err)
			r.Prune() // options that do not go together
		}
		panic("harness: " + err.Error())
	}
	return exe
}

// c04LLD: executables made by a real linker from compiled resources.
func c04LLD(r *mc.Run, load loader) {
	ai := r.Pick(len(arches))
	var want []ref.Res
	if r.Bool() {
		want = devContent(r)
	} else {
		want = subset(r, typeMix, 9)
	}
	if len(want) == 0 {
		r.Prune()
	}
	r.Logf("lld-link %s: %s", arches[ai].a, ref.Dump(want))
	exe := lldExe(r, ai, want)
	if got, err := exeResources(exe); err != nil {
		panic("harness: cannot read the resources of the linked executable: " + err.Error())
	} else {
		ref.SortRes(got)
		if err := ref.SameRes(got, want); err != nil {
			panic("harness: resources of the linked executable: " + err.Error())
		}
	}
	r.StateStr(fmt.Sprint(ai) + ref.Dump(want))
	load(r, exe, want)
}

// lldLayout is a layout made by a real linker.
func lldLayout(r *mc.Run) *layout {
	ai := r.Pick(len(arches))
	var opts []string
	dev := func(o ...string) {
		if k := r.Dev(len(o)); o[k] != "" {
			opts = append(opts, o[k])
		}
	}
	dev("", "/dll", "/driver")
	dev("", "/filealign:4096", "/filealign:32")
	dev("", "/align:8192", "/align:65536", "/align:512")
	dev("", "/dynamicbase:no", "/fixed")
	dev("", "/release")
	dev("", "/merge:.data=.text", "/section:.data,RWS")
	dev("", "/debug:dwarf", "/debug:symtab")
	if ai == 0 {
		opts = append(opts, "/safeseh:no")
	}
	var old []ref.Res
	switch r.Pick(3) {
	case 1:
		old = oldRes
	case 2:
		old = append(append([]ref.Res(nil), oldRes...), payload(0x2345, 1)...)
	}
	desc := fmt.Sprintf("lld-link %s %v with %d resources", arches[ai].a, opts, len(old))
	r.Logf("%s", desc)
	exe := lldExe(r, ai, old, opts...)
	p, err := ref.ParsePE(exe)
	if err == nil {
		err = p.Validate()
	}
	if err != nil {
		panic("harness: " + desc + ": " + err.Error())
	}
	return &layout{c: &ref.PEConf{}, desc: desc, bytes: exe, p: p}
}

// rcString is a string of a resource script.
func rcString(s string) string {
	b := "L\""
	for _, u := range utf16.Encode([]rune(s)) {
		if u >= '0' && u <= 'z' && u != '\\' {
			b += string(rune(u))
		} else {
			b += fmt.Sprintf("\\x%04x", u)
		}
	}
	return b + "\""
}

// compileRC compiles a resource script.
func compileRC(r *mc.Run, script string, files map[string][]byte) []byte {
	all := map[string][]byte{"in.rc": []byte(script)}
	for n, b := range files {
		all[n] = b
	}
	res, err := runTool(r, tool(r, "llvm-rc"), all, "out.res", "/no-preprocess", "/FO", "out.res", "in.rc")
	if err != nil {
		panic("harness: " + err.Error() + "\n" + script)
	}
	return res
}

// c22Compiled: version information made by a real resource compiler.
func c22Compiled(r *mc.Run) {
	v := baseVersion()
	nl := 1 + r.Pick(3)
	for i := 0; i < nl; i++ {
		l := verLangs[(r.Dev(len(verLangs))+i)%len(verLangs)]
		nk := 1 + r.Dev(3)
		t := map[string]string{}
		for j := 0; j < nk; j++ {
			t[verKeys[(r.Dev(len(verKeys))+j)%len(verKeys)]] = verValues[r.Dev(len(verValues))]
		}
		v.Langs[l] = t
	}
	if k := r.Dev(4); k != 0 {
		v.File = [][4]uint16{{}, {0xFFFF, 0, 0xFFFF, 0}, {0, 0x8000, 0, 0x7FFF}, {}}[k]
	}
	if k := r.Dev(4); k != 0 {
		v.Product = [][4]uint16{{}, {0xFFFF, 0, 0xFFFF, 0}, {0, 0x8000, 0, 0x7FFF}, {}}[k]
	}
	if k := r.Dev(3); k != 0 {
		v.Type = []uint32{0, vftDLL, vftUnknown}[k]
	}
	if k := r.Dev(7); k != 0 {
		v.Flags = []uint32{0, ffDebug, ffPre, ffPatched, ffPrivate, ffSpecial, ffDebug | ffSpecial}[k]
	}
	s := fmt.Sprintf("1 VERSIONINFO FILEVERSION %d,%d,%d,%d PRODUCTVERSION %d,%d,%d,%d FILEFLAGSMASK 0x3f FILEFLAGS %d FILEOS 0x40004 FILETYPE %d FILESUBTYPE 0\nBEGIN BLOCK \"StringFileInfo\" BEGIN\n",
		v.File[0], v.File[1], v.File[2], v.File[3], v.Product[0], v.Product[1], v.Product[2], v.Product[3], v.Flags, v.Type)
	tr := ""
	for _, l := range v.SortedLangs() {
		s += fmt.Sprintf("BLOCK \"%04X04B0\" BEGIN\n", l)
		keys := make([]string, 0)
		for k := range v.Langs[l] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s += fmt.Sprintf("VALUE %s, %s\n", rcString(k), rcString(v.Langs[l][k]))
		}
		s += "END\n"
		tr += fmt.Sprintf(", %#x, 1200", l)
	}
	s += "END BLOCK \"VarFileInfo\" BEGIN VALUE \"Translation\"" + tr + "\nEND END\n"
	what := "compiled " + v.String()
	r.Logf("%s", what)
	res, err := ref.ParseRES(compileRC(r, s, nil))
	if err != nil || len(res) != 1 || res[0].Type != id(16) {
		panic(fmt.Sprintf("harness: compiled resources: %v %v\n%s", ref.Dump(res), err, s))
	}
	r.Step()
	vi, err := version.FromBytes(res[0].Data)
	must(r, err, what+": FromBytes")
	sameVersion(r, what, meaning(vi), v)
	encodeInfo(r, vi, v, what+": encoded again")
	r.StateStr(v.String())
}

// c17Compiled: icons or cursors put into an executable by a real resource compiler and linker.
func c17Compiled(r *mc.Run, cur bool) {
	ng := 1 + r.Pick(2)
	var groups [][]pic
	var langs []uint16
	files := map[string][]byte{}
	script, stmt, typ := "", "ICON", uint16(1)
	if cur {
		stmt, typ = "CURSOR", 2
	}
	for g := 0; g < ng; g++ {
		n := 1 + r.Pick(3)
		var ps []pic
		for i := 0; i < n; i++ {
			p := c17Base(cur, i+3*g)
			if k := r.Dev(5); k != 0 {
				p.w = []int{0, 1, 16, 255, 256}[k]
				if cur && k == 4 {
					p.w = 128 // compilers do not agree on the width 256 in cursor groups
				}
			}
			if k := r.Dev(5); k != 0 {
				p.h = []int{0, 1, 16, 127, 128}[k]
			}
			if k := r.Dev(5); k != 0 {
				p.bits = []int{0, 1, 4, 8, 24}[k]
			}
			if cur {
				if k := r.Dev(4); k != 0 {
					p.x, p.y = []int{0, 0, 255, 0xFFFF}[k], []int{0, 256, 0, 0xFFFE}[k]
				}
				p.data = ref.DIB(40, p.w, p.h, 1, uint16(p.bits), []int{4, 1, 2, 300}[r.Dev(4)], byte(i))
			} else {
				if k := r.Dev(3); k != 0 {
					p.colors = []int{0, 2, 255}[k]
				}
				p.data = ref.DIB(40, p.w, p.h, 1, uint16(p.bits), []int{4, 1, 2, 300}[r.Dev(4)], byte(i))
				if r.Dev(2) == 1 {
					p.data = append(append([]byte(nil), c17PNG[i]...), fresh(20, 7)...)
				}
			}
			ps = append(ps, p)
		}
		lang := []uint16{0x409, 0, 0x40C}[r.Dev(3)]
		f := fmt.Sprintf("f%d.dat", g)
		files[f] = ref.BuildIco(typ, entries(cur, ps), ref.IcoStyle{})
		for i := range ps {
			if cur {
				ps[i].h *= 2 // resource compilers double the height in cursor groups
			}
		}
		script += fmt.Sprintf("LANGUAGE %d, %d\n%s %s %q\n", lang&0x3FF, lang>>10, []string{"1", "MAIN"}[g], stmt, f)
		groups = append(groups, ps)
		langs = append(langs, lang)
	}
	what := fmt.Sprintf("compiled %v in languages %#x", groups, langs)
	r.Logf("%s", what)
	obj := map[string][]byte{"main.obj": ref.BuildObject(0x8664, 100, 0), "rsrc.res": compileRC(r, script, files)}
	exe, err := lldLink(r, 1, obj)
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.Step()
	rs, err := winres.LoadFromEXESingleType(bytes.NewReader(exe), []winres.Identifier{winres.RT_GROUP_ICON, winres.RT_GROUP_CURSOR}[typ-1])
	must(r, err, what+": LoadFromEXESingleType")
	for g, ps := range groups {
		res := []ref.Ident{id(1), name("MAIN")}[g]
		got, err := getGrp(cur, rs, res, langs[g])
		must(r, err, what+": get")
		got.checkSaved(r, icoOrder(ps), what)
	}
	r.StateStr(what)
}

// toolManifest is a manifest description, with few unusual features.
func toolManifest(r *mc.Run) winres.AppManifest {
	m := winres.AppManifest{Compatibility: osEnums[r.Dev(5)], ExecutionLevel: levels[r.Dev(3)], DPIAwareness: dpis[r.Dev(4)]}
	m.Identity.Name = manTexts[r.Dev(len(manTexts))]
	m.Description = manTexts[r.Dev(len(manTexts))]
	if m.Identity.Name != "" {
		m.Identity.Version = manVersions[r.Dev(len(manVersions))]
	}
	m.UIAccess = r.Dev(2) != 0
	return m
}

// manifestBools are the settings that two manifests can have in common.
func manifestBools(m *winres.AppManifest) []*bool {
	return []*bool{&m.AutoElevate, &m.DisableTheming, &m.DisableWindowFiltering, &m.HighResolutionScrollingAware, &m.UltraHighResolutionScrollingAware,
		&m.LongPathAware, &m.PrinterDriverIsolation, &m.GDIScaling, &m.SegmentHeap, &m.UseCommonControlsV6}
}

// blankText tells whether a text is only made of blanks, which LLVM's manifest tool drops.
func blankText(s string) bool { return s != "" && strings.Trim(s, " \t\r\n") == "" }

func manifestOf(m winres.AppManifest) []byte {
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	return rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
}

// c27Tool: manifests that LLVM's manifest tool reads and writes again.
func c27Tool(r *mc.Run) {
	m := toolManifest(r)
	for _, p := range manifestBools(&m) {
		*p = r.Dev(2) != 0
	}
	if blankText(m.Description) {
		r.Prune()
	}
	r.Logf("%+v", m)
	r.Step()
	b := manifestOf(m)
	out, err := runTool(r, tool(r, "llvm-mt"), map[string][]byte{"a.xml": b}, "o.xml", "/nologo", "/manifest", "a.xml", "/out:o.xml")
	must(r, err, fmt.Sprintf("%+v: manifest tool", m))
	x, err := ref.ParseXML(out)
	if err != nil {
		panic("harness: " + err.Error())
	}
	want := m
	want.Identity.Name, want.Description = xmlText(m.Identity.Name), xmlText(m.Description)
	if got, exp := x.Canon(), expectManifest(want); got != exp {
		r.Failf("%+v: after the manifest tool it means %s, want %s", m, got, exp)
	}
	back, err := winres.AppManifestFromXML(out)
	must(r, err, "AppManifestFromXML")
	if back != want {
		r.Failf("%+v: after the manifest tool it reads as %+v", want, back)
	}
	r.State(out)
}

// c28Merged: two manifests, merged by LLVM's manifest tool.
func c28Merged(r *mc.Run) {
	m := toolManifest(r)
	if blankText(m.Description) {
		r.Prune()
	}
	a, b := m, m
	b.Identity, b.Description = winres.AssemblyIdentity{}, ""
	pa, pb, pm := manifestBools(&a), manifestBools(&b), manifestBools(&m)
	for i := range pm {
		switch r.Dev(4) {
		case 1:
			*pa[i] = true
		case 2:
			*pb[i] = true
		case 3:
			*pa[i], *pb[i] = true, true
		}
		*pm[i] = *pa[i] || *pb[i]
	}
	names := []string{"a.xml", "b.xml"}
	if r.Bool() {
		names[0], names[1] = names[1], names[0]
	}
	r.Logf("%+v and %+v", a, b)
	r.Step()
	out, err := runTool(r, tool(r, "llvm-mt"), map[string][]byte{"a.xml": manifestOf(a), "b.xml": manifestOf(b)}, "o.xml", "/nologo", "/manifest", names[0], "/manifest", names[1], "/out:o.xml")
	must(r, err, fmt.Sprintf("%+v and %+v: manifest tool", a, b))
	m.Identity.Name, m.Description = xmlText(m.Identity.Name), xmlText(m.Description)
	r.Logf("%s", out)
	back, err := winres.AppManifestFromXML(out)
	must(r, err, "AppManifestFromXML")
	if back != m {
		r.Failf("%+v and %+v: merged, they read as %+v", a, b, back)
	}
	r.State(out)
}
