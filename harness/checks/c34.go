package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C34: icons, cursors, manifests, version information and other resources in the same set.

func init() {
	ops := []string{
		"icon A 1", "icon B G", "icon B 1@40C", "icon C 1", "cursor A 1", "cursor B G", "cursor B 1@40C", "cursor C 1",
		"manifest 0", "manifest 1", "manifest 2", "version 0", "version 1", "version 2", "data 10 1", "data 10 G", "data ICON 1", "data 16 2", "data 24 2", "data 24 1@40C", "data 16 1@407",
		"-icon 1", "-icon G", "-cursor 1", "-cursor G", "-manifest", "-version 409", "-data", "-icons", "-cursors", "reload",
	}
	few := []string{"icon A 1", "icon B G", "cursor A 1", "cursor B G", "manifest 1", "version 1", "data 10 1", "-icon 1", "-cursor 1", "-version 409", "-icons", "-cursors", "reload"}
	register(&Property{
		ID:   "C34",
		Rule: "one execution per history; after each operation the whole set is compared with what it was, and every object of every kind is read back; distinct_nontrivial counts distinct final sets",
		Scenarios: []mc.Scenario{
			{Name: "histories", Weight: 3, Run: func(r *mc.Run) { c34Run(r, ops, 3, 4, false) }},
			{Name: "long histories", Weight: 3, Run: func(r *mc.Run) { c34Run(r, few, 5, 6, false) }},
			{Name: "populated", Weight: 2, Run: func(r *mc.Run) { c34Run(r, ops, 3, 3, true) }},
		},
	})
}

var c34Manifests = []winres.AppManifest{{}, {Identity: winres.AssemblyIdentity{Name: "x", Version: [4]uint16{1, 2, 3, 4}}, Description: "d", UIAccess: true, DPIAwareness: winres.DPIPerMonitorV2, UseCommonControlsV6: true, Compatibility: winres.Win10AndAbove},
	{Identity: winres.AssemblyIdentity{Name: "x", Version: [4]uint16{1, 3, 3, 4}}, Description: "e", UIAccess: true, DPIAwareness: winres.DPIPerMonitorV2, UseCommonControlsV6: true, Compatibility: winres.Win10AndAbove}}

func c34Version(k int) ref.Version {
	v := baseVersion()
	v.File[0] = uint16(k)
	for j, l := range [][]uint16{{0x409}, {0x409, 0x40C}, {0, 0x40C, 0x411}}[k] {
		v.Langs[l] = map[string]string{"a": fmt.Sprintf("%d-%x", k, l), fmt.Sprintf("k%d", j): "x"}
	}
	return v
}

// c34Run applies every sequence of operations.
//
// populated: the set already holds many resources, of every type that an operation writes.
func c34Run(r *mc.Run, ops []string, depth, deeper int, populated bool) {
	if r.Thorough {
		depth = deeper
	}
	c := [2]*c15Run{newC15(r, false), newC15(r, true)}
	rs := &winres.ResourceSet{}
	m := model{}
	if populated {
		for _, k := range c34Populate() {
			d := []byte("raw " + k.String())
			must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
			m.set(k, d)
		}
	}
	versions := map[uint16]ref.Version{}
	var manifest *winres.AppManifest
	trail := ""
	for i := 0; i < depth; i++ {
		k := r.Pick(len(ops) + 1)
		if k == 0 {
			break
		}
		op := ops[k-1]
		trail += " " + op + ";"
		r.Logf("%s", op)
		c[0].trail, c[1].trail = trail, trail
		f := strings.Fields(op)
		res, lang := ref.Ident{}, uint16(0)
		if len(f) > 1 {
			s := f[len(f)-1]
			if j := strings.IndexByte(s, '@'); j >= 0 {
				fmt.Sscanf(s[j+1:], "%x", &lang)
				s = s[:j]
			}
			var n uint16
			if _, err := fmt.Sscanf(s, "%d", &n); err == nil {
				res = id(n)
			} else {
				res = name(s)
			}
		}
		set := func(k ref.Key, d []byte) {
			must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), op)
			m.set(k, d)
		}
		may := func(ref.Key) bool { return false } // which resources the operation may change
		r.Step()
		switch f[0] {
		case "icon", "cursor":
			x := c[0]
			if f[0] == "cursor" {
				x = c[1]
			}
			g, ps := x.load(f[1][0])
			must(r, g.set(rs, res, lang, true), trail)
			x.want[key(x.gt, res, lang)] = ps
			may = func(k ref.Key) bool {
				_, old := m[k]
				return k == key(x.gt, res, lang) || k.Type == x.it && !old
			}
		case "-icon", "-cursor":
			x := c[0]
			if f[0] == "-cursor" {
				x = c[1]
			}
			set(key(x.gt, res, 0), nil)
			delete(x.want, key(x.gt, res, 0))
		case "manifest":
			a := c34Manifests[f[1][0]-'0']
			rs.SetManifest(a)
			manifest = &a
			may = func(k ref.Key) bool { return k == key(id(24), id(1), 0x409) }
		case "-manifest":
			set(key(id(24), id(1), 0x409), nil)
			manifest = nil
		case "version":
			v := c34Version(int(f[1][0] - '0'))
			rs.SetVersionInfo(*makeInfo(r, &v))
			for l, w := range expectSplit(v) {
				versions[l] = w
			}
			may = func(k ref.Key) bool {
				_, ok := v.Langs[uint16(k.Lang)]
				return k.Type == id(16) && k.Res == id(1) && ok
			}
		case "-version":
			set(key(id(16), id(1), 0x409), nil)
			delete(versions, 0x409)
		case "data":
			t := name(f[1])
			if n := uint16(0); f[1] != "ICON" {
				fmt.Sscanf(f[1], "%d", &n)
				t = id(n)
			}
			set(key(t, res, lang), []byte(fmt.Sprint(op, i)))
		case "-icons", "-cursors":
			x := c[0]
			if f[0] == "-cursors" {
				x = c[1]
			}
			for _, y := range m.sorted() {
				if y.Type == x.gt || y.Type == x.it {
					set(y.Key, nil)
				}
			}
			x.want = map[ref.Key][]pic{}
		case "-data":
			set(key(id(10), id(1), 0), nil)
			set(key(id(10), name("G"), 0), nil)
		case "reload":
			var out bytes.Buffer
			must(r, doPatch(rs, &out, bytes.NewReader(c15Exe), patchOpts{}), "WriteToEXE")
			var err error
			rs, err = winres.LoadFromEXE(bytes.NewReader(out.Bytes()))
			if len(m) > 0 {
				must(r, err, "LoadFromEXE")
			}
		}
		after := model{}
		for _, x := range collect(rs) {
			after[x.Key] = x.Data
			if old, ok := m[x.Key]; !may(x.Key) && (!ok || !bytes.Equal(old, x.Data)) {
				r.Failf("%s: resource %v changed or appeared: %s -> %s (present before: %v)", trail, x.Key, ref.Hex(old), ref.Hex(x.Data), ok)
			}
		}
		if len(after) != rs.Count() {
			r.Failf("%s: %d resources, but Count() = %d", trail, len(after), rs.Count())
		}
		for k := range m {
			if _, ok := after[k]; !ok {
				r.Failf("%s: resource %v disappeared", trail, k)
			}
		}
		m = after
		// everything reads back
		for _, x := range c {
			x.rs, x.m = rs, m
			for k, ps := range x.want {
				g, err := getGrp(x.cur, rs, k.Res, uint16(k.Lang))
				must(r, err, fmt.Sprintf("%s: reading %v", trail, k))
				g.checkSaved(r, ps, fmt.Sprintf("%s: %v", trail, k))
			}
		}
		b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
		if (b != nil) != (manifest != nil) {
			r.Failf("%s: manifest present: %v", trail, b != nil)
		}
		if manifest != nil {
			x, err := ref.ParseXML(b)
			must(r, err, trail)
			if x.Canon() != expectManifest(*manifest) {
				r.Failf("%s: the manifest means %s, want %s", trail, x.Canon(), expectManifest(*manifest))
			}
		}
		for _, l := range []uint16{0, 0x409, 0x40C, 0x411} {
			b := rs.Get(winres.RT_VERSION, winres.ID(1), l)
			w, ok := versions[l]
			if (b != nil) != ok {
				r.Failf("%s: version information of language %#x present: %v", trail, l, b != nil)
			}
			if ok {
				p, err := ref.ParseVersion(b)
				must(r, err, trail)
				sameVersion(r, fmt.Sprintf("%s: version information of language %#x", trail, l), p, w)
			}
		}
	}
	r.StateStr(m.digest())
}

// c34Populate lists resources that no operation is allowed to touch.
func c34Populate() []ref.Key {
	var out []ref.Key
	for _, t := range []uint16{1, 3, 10, 12, 14, 16, 24} {
		for _, n := range []ref.Ident{id(1), id(2), id(7), id(256), name("1"), name("G"), name("g")} {
			for _, l := range []uint16{0, 0x400, 0x407, 0x409, 0x40C, 0x411, 0x809, 0x800, 1, 9, 0xFFFF} {
				n1, ng := n == id(1), n == name("G")
				switch t {
				case 24:
					if n1 && l == 0x409 {
						continue
					}
				case 16:
					if n1 && (l == 0 || l == 0x409 || l == 0x40C || l == 0x411) {
						continue
					}
				case 12, 14:
					if n1 || ng {
						continue
					}
				}
				out = append(out, key(id(t), n, l))
			}
		}
	}
	return append(out, key(id(1), id(0x1000), 0), key(id(3), id(0x1000), 0x409), key(name("MANIFEST"), id(1), 0x409), key(name("24"), id(1), 0x409), key(name("16"), id(1), 0x409))
}
