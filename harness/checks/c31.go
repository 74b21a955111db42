//go:build verifsched

package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"image"
	"sort"
	"sync"
	"time"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sched"
)

// C31: independent objects used concurrently. This file is only built with an instrumented library.

func init() {
	register(&Property{
		ID: "C31", Assumptions: []string{"a statement of the library is atomic", "code outside of the library is not preempted"},
		Scenarios: []mc.Scenario{
			{Name: "one preemption, same operation", Weight: 2, Serial: true, Run: func(r *mc.Run) {
				i := r.Pick(len(concOps))
				c31Pair(r, i, i, 1)
			}},
			{Name: "one preemption, other operations", Weight: 4, Serial: true, Run: func(r *mc.Run) {
				n := len(concOps)
				i := r.Pick(n)
				k := 3
				if r.Thorough {
					k = n
				}
				j := (i + 1 + r.Pick(k-1)*(1+n/5)) % n
				if r.Thorough {
					j = r.Pick(n)
				}
				if i == j {
					r.Prune()
					return
				}
				c31Pair(r, i, j, 1)
			}},
			{Name: "two preemptions", Weight: 6, Serial: true, Run: c31Two},
			{Name: "three goroutines", Weight: 3, Serial: true, Run: c31Three},
		},
	})
}

type concOp struct {
	name  string
	f     func(variant int) string
	small bool // few scheduling points
}

var concOps []concOp

// solo results and every moment where the operation can be preempted.
type soloRun struct {
	result string
	at     []sched.Where
}

var never sched.Where

var (
	soloMu sync.Mutex
	solos  = map[[2]int]soloRun{}
)

func solo(r *mc.Run, op, variant int) soloRun {
	soloMu.Lock()
	defer soloMu.Unlock()
	k := [2]int{op, variant}
	if s, ok := solos[k]; ok {
		return s
	}
	var s soloRun
	var counts []int
	for i := 0; i < 3; i++ {
		t := sched.Start(func() string { return concRun(op, variant) }, never)
		if !t.Wait() && !t.Finish() {
			r.Failf("%s never ends", concOps[op].name)
		}
		if i > 0 && t.Result != s.result {
			r.Failf("%s alone gives %s, then %s", concOps[op].name, s.result, t.Result)
		}
		s.result = t.Result
		for p, n := range t.Counts {
			for p >= len(counts) {
				counts = append(counts, 0)
			}
			if n > counts[p] {
				counts[p] = n
			}
		}
	}
	for p, n := range counts {
		for k := 1; k <= n; k++ {
			s.at = append(s.at, sched.Where{Point: p, Nth: k})
		}
	}
	// The number of passages may depend on the iteration order of maps: keep the number of choices stable.
	for len(s.at)%16 != 0 {
		s.at = append(s.at, never)
	}
	solos[k] = s
	return s
}

func concRun(op, variant int) (out string) {
	defer func() {
		if x := recover(); x != nil {
			out = fmt.Sprint("panic: ", x)
		}
	}()
	return concOps[op].f(variant)
}

type segment struct {
	task  int
	until sched.Where
}

// schedule runs tasks as segments say: each is a task and the point where it stops; all then run to their ends.
func schedule(r *mc.Run, ops []int, segs []segment) {
	tasks := make([]*sched.Task, len(ops))
	what := ""
	free := false
	defer func() {
		for _, t := range tasks {
			if t != nil {
				t.Free()
			}
		}
	}()
	step := func(k int, stop sched.Where) {
		r.Step()
		if tasks[k] == nil {
			op := ops[k]
			v := k
			tasks[k] = sched.Start(func() string { return concRun(op, v) }, stop)
		} else {
			tasks[k].Continue(stop)
		}
		if !free && !tasks[k].Wait() {
			// blocked by another one (a lock): let everything run
			free = true
			for _, t := range tasks {
				if t != nil {
					t.Free()
				}
			}
		}
	}
	for _, s := range segs {
		what += fmt.Sprintf(" %s[%d] to %v;", concOps[ops[s.task]].name, s.task, s.until)
		step(s.task, s.until)
		if free {
			break
		}
	}
	for k := range tasks {
		if !free || tasks[k] == nil {
			step(k, never)
		}
	}
	r.Logf("%s", what)
	for k, t := range tasks {
		if free && !t.Finish() {
			r.Failf("%s: %s is blocked for ever", what, concOps[ops[k]].name)
		}
		if want := solo(r, ops[k], k); t.Result != want.result {
			r.Failf("%s: %s gives %s, but alone it gives %s", what, concOps[ops[k]].name, t.Result, want.result)
		}
	}
	r.StateStr(what)
}

// c31Pair: the first one runs until every possible point, then the other one entirely.
func c31Pair(r *mc.Run, i, j, preemptions int) {
	at := solo(r, i, 0).at
	solo(r, j, 1)
	schedule(r, []int{i, j}, []segment{{0, at[r.Pick(len(at))]}, {1, never}})
}

// c31Two: the first one is preempted once, then the other one.
func c31Two(r *mc.Run) {
	var small []int
	for i, o := range concOps {
		if o.small || r.Thorough {
			small = append(small, i)
		}
	}
	i := small[r.Pick(len(small))]
	j := i
	if r.Thorough && r.Bool() {
		j = small[(r.Pick(len(small)))]
	}
	n, m := solo(r, i, 0).at, solo(r, j, 1).at
	limit := 60
	if r.Thorough {
		limit = 150
	}
	// all points of short operations; evenly spread ones of longer operations
	pick := func(at []sched.Where) sched.Where {
		if len(at) <= limit {
			return at[r.Pick(len(at))]
		}
		return at[r.Pick(limit)*len(at)/limit]
	}
	a := pick(n)
	b := pick(m)
	schedule(r, []int{i, j}, []segment{{0, a}, {1, b}, {0, never}})
}

// c31Three: three goroutines, two preemptions of nested depth.
func c31Three(r *mc.Run) {
	i := r.Pick(len(concOps))
	x, y := solo(r, i, 0).at, solo(r, i, 1).at
	limit := 12
	if r.Thorough {
		limit = 60
	}
	a, b := x[r.Pick(limit)*len(x)/limit], y[r.Pick(limit)*len(y)/limit]
	solo(r, i, 2)
	schedule(r, []int{i, i, i}, []segment{{0, a}, {1, b}, {2, never}})
}

func fnv64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func digest(parts ...interface{}) string {
	s := fmt.Sprint(parts...)
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d characters, hash %x)", s[:100], len(s), fnv64(s))
	}
	return fmt.Sprintf("%q", s)
}

func init() {
	add := func(name string, small bool, f func(v int) string) {
		concOps = append(concOps, concOp{name, f, small})
	}
	resources := func(v int) *winres.ResourceSet {
		rs := &winres.ResourceSet{}
		for i := 0; i < 2+v; i++ {
			rs.Set(winres.Name(fmt.Sprintf("T%d", (i+v)%3)), winres.ID(uint16(1+i*(v+1))), uint16(0x400+v), bytes.Repeat([]byte{byte(1 + v)}, 3+i+v))
			rs.Set(winres.RT_RCDATA, winres.Name(fmt.Sprintf("N%d%d", v, i)), 0, bytes.Repeat([]byte{byte(7 + v)}, 5+7*v))
		}
		return rs
	}
	list := func(rs *winres.ResourceSet) string {
		s := fmt.Sprint(rs.Count())
		rs.Walk(func(t, i winres.Identifier, l uint16, d []byte) bool {
			s += fmt.Sprintf(" %v/%v/%x=%x", t, i, l, d)
			return true
		})
		return s
	}
	var exes [3][]byte
	for v := range exes {
		arr := []string{"TDR", "TRD", "TDRL"}[v%3]
		c := &ref.PEConf{Plus: v&1 == 0, StubLen: []int{0x80, 0x48, 0x200}[v], NumDirs: 16 - 3*v, FileAlign: 0x200 >> uint(v), SectAlign: 0x1000 << uint(v), Slack: 160, Overlay: ref.Pattern(33+v, 9), CheckSum: uint32(v), Seed: byte(v)}
		if v == 2 {
			c.Cert = ref.Pattern(24, 3)
		}
		c.Sections = arrange(arr, 0, ref.RsrcStyle{})
		exes[v] = buildExe(c, oldRes, ref.RsrcStyle{})
	}
	exe := func(v int) []byte { return exes[v] }
	img := func(v int) image.Image {
		m := image.NewNRGBA(image.Rect(0, 0, 2+v, 3))
		for i := range m.Pix {
			m.Pix[i] = byte(i*37 + v*11)
		}
		return m
	}
	ico := func(v int) []byte {
		return ref.BuildIco(1, []ref.IcoEntry{{W: 16, H: 16, BitCount: 32, Planes: 1, Data: ref.Pattern(40+v, byte(v))}, {W: byte(32 + v), H: 32, BitCount: 8, Planes: 1, Data: ref.Pattern(50+v, byte(3+v))}}, ref.IcoStyle{})
	}
	cur := func(v int) []byte {
		a, b := ref.DIB(40, 16, 16, 1, 32, 64+v, byte(v)), ref.DIB(40, 8, 8, 1, 32, 32, byte(v+1))
		return ref.BuildIco(2, []ref.IcoEntry{{W: 16, H: 16, Planes: uint16(v), BitCount: 3, Data: a}, {W: 8, H: 8, Planes: 1, BitCount: uint16(v), Data: b}}, ref.IcoStyle{})
	}
	info := func(v int) *version.Info {
		vi := &version.Info{}
		vi.FileVersion = [4]uint16{uint16(v), 2, 3, 4}
		vi.Timestamp = time.Unix(int64(1000000*(v+1)), 0)
		vi.Set(0x409, "ProductName", fmt.Sprint("product ", v))
		vi.Set(0x40C, "CompanyName", fmt.Sprint("société ", v*1000))
		vi.Set(0, "Comments", fmt.Sprint("neutral", v))
		return vi
	}
	manifest := func(v int) winres.AppManifest {
		return winres.AppManifest{Identity: winres.AssemblyIdentity{Name: fmt.Sprint("app<", v), Version: [4]uint16{uint16(v), 1}}, Description: fmt.Sprint("d&", v*10), DPIAwareness: winres.DPIAwareness(v % 4), Compatibility: winres.SupportedOS(v), UIAccess: v == 1, SegmentHeap: v == 0}
	}
	infoDump := func(vi *version.Info) string { return meaning(vi).String() }

	add("Set, Get, Count, Walk", true, func(v int) string {
		rs := resources(v)
		return digest(list(rs), rs.Get(winres.Name("T1"), winres.ID(1), 0x400))
	})
	add("Set and delete", true, func(v int) string {
		rs := resources(v)
		list(rs)
		rs.Set(winres.RT_RCDATA, winres.Name(fmt.Sprintf("N%d0", v)), 0, nil)
		rs.Set(winres.RT_RCDATA, winres.Name("X"), uint16(v), []byte{byte(v)})
		return digest(list(rs))
	})
	add("WriteObject", false, func(v int) string {
		var b bytes.Buffer
		err := resources(v).WriteObject(&b, []winres.Arch{winres.ArchI386, winres.ArchAMD64, winres.ArchARM64}[v])
		return digest(b.String(), err)
	})
	add("WriteToEXE", false, func(v int) string {
		var b bytes.Buffer
		err := resources(v).WriteToEXE(&b, bytes.NewReader(exe(v)), winres.WithAuthenticode(winres.IgnoreSignature))
		return digest(b.String(), err)
	})
	add("WriteToEXE with checksum", false, func(v int) string {
		var b bytes.Buffer
		err := resources(v).WriteToEXE(&b, bytes.NewReader(exe(v)), winres.ForceCheckSum(), winres.WithAuthenticode(winres.RemoveSignature))
		return digest(b.String(), err)
	})
	add("WriteToEXE of odd options", false, func(v int) string {
		var b bytes.Buffer
		var err error
		switch v {
		case 0:
			err = resources(v).WriteToEXE(&b, bytes.NewReader(exe(v)), winres.ForceCheckSum())
		default:
			err = resources(v).WriteToEXE(&b, bytes.NewReader(exe(v)))
		}
		return digest(b.String(), err)
	})
	add("LoadFromEXE", false, func(v int) string {
		rs, err := winres.LoadFromEXE(bytes.NewReader(exe(v)))
		return digest(list(rs), err)
	})
	add("LoadFromEXESingleType", false, func(v int) string {
		rs, err := winres.LoadFromEXESingleType(bytes.NewReader(exe(v)), winres.ID(10+v))
		return digest(list(rs), err)
	})
	add("LoadFromEXE, change, WriteObject", false, func(v int) string {
		rs, err := winres.LoadFromEXE(bytes.NewReader(exe(v)))
		if err != nil {
			return err.Error()
		}
		rs.Set(winres.RT_RCDATA, winres.ID(9), uint16(v), []byte{byte(v), 2})
		var b bytes.Buffer
		err = rs.WriteObject(&b, winres.ArchAMD64)
		return digest(b.String(), err)
	})
	add("IsSignedEXE", true, func(v int) string {
		ok, err := winres.IsSignedEXE(bytes.NewReader(exe(v)))
		return digest(ok, err)
	})
	add("LoadICO and SaveICO", false, func(v int) string {
		i, err := winres.LoadICO(bytes.NewReader(ico(v)))
		if err != nil {
			return err.Error()
		}
		var b bytes.Buffer
		err = i.SaveICO(&b)
		return digest(b.String(), err)
	})
	add("SetIcon and GetIcon", false, func(v int) string {
		i, err := winres.LoadICO(bytes.NewReader(ico(v)))
		if err != nil {
			return err.Error()
		}
		rs := &winres.ResourceSet{}
		e1 := rs.SetIcon(winres.ID(1+v), i)
		e2 := rs.SetIconTranslation(winres.Name("I"), 0x409, i)
		g, e3 := rs.GetIcon(winres.ID(1 + v))
		var b bytes.Buffer
		if g != nil {
			g.SaveICO(&b)
		}
		return digest(list(rs), e1, e2, e3, b.String())
	})
	add("NewIconFromImages", false, func(v int) string {
		i, err := winres.NewIconFromImages([]image.Image{img(v), img(v + 1)})
		if err != nil {
			return err.Error()
		}
		var b bytes.Buffer
		err = i.SaveICO(&b)
		return digest(b.String(), err)
	})
	add("NewIconFromResizedImage", false, func(v int) string {
		i, err := winres.NewIconFromResizedImage(img(v), []int{3 + v, 8})
		if err != nil {
			return err.Error()
		}
		var b bytes.Buffer
		err = i.SaveICO(&b)
		return digest(b.String(), err)
	})
	add("LoadCUR and SaveCUR", false, func(v int) string {
		c, err := winres.LoadCUR(bytes.NewReader(cur(v)))
		if err != nil {
			return err.Error()
		}
		var b bytes.Buffer
		err = c.SaveCUR(&b)
		return digest(b.String(), err)
	})
	add("SetCursor and GetCursor", false, func(v int) string {
		c, err := winres.LoadCUR(bytes.NewReader(cur(v)))
		if err != nil {
			return err.Error()
		}
		rs := &winres.ResourceSet{}
		e1 := rs.SetCursor(winres.ID(1+v), c)
		e2 := rs.SetCursorTranslation(winres.Name("C"), 0x409, c)
		g, e3 := rs.GetCursor(winres.ID(1 + v))
		var b bytes.Buffer
		if g != nil {
			g.SaveCUR(&b)
		}
		return digest(list(rs), e1, e2, e3, b.String())
	})
	add("NewCursorFromImages", false, func(v int) string {
		c, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img(v), HotSpot: winres.HotSpot{X: uint16(v), Y: 1}}, {Image: img(v + 1), HotSpot: winres.HotSpot{X: 1, Y: uint16(v)}}})
		if err != nil {
			return err.Error()
		}
		var b bytes.Buffer
		err = c.SaveCUR(&b)
		return digest(b.String(), err)
	})
	add("SetManifest", true, func(v int) string {
		rs := &winres.ResourceSet{}
		rs.SetManifest(manifest(v))
		return digest(string(rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)))
	})
	add("AppManifestFromXML", true, func(v int) string {
		var b bytes.Buffer
		fmt.Fprintf(&b, `<assembly><assemblyIdentity name="n%d" version="%d.2"/><application><windowsSettings><dpiAwareness>x,%s</dpiAwareness><longPathAware>true</longPathAware></windowsSettings></application></assembly>`, v, v, []string{"system", "permonitor", "unaware"}[v])
		m, err := winres.AppManifestFromXML(b.Bytes())
		return digest(m, err)
	})
	add("AppManifest JSON", true, func(v int) string {
		j, err := json.Marshal(manifest(v))
		var m winres.AppManifest
		err2 := json.Unmarshal(j, &m)
		return digest(string(j), err, m, err2)
	})
	add("Info.Bytes", false, func(v int) string { return digest(string(info(v).Bytes())) })
	add("version.FromBytes", false, func(v int) string {
		var b []byte
		w := ref.Version{File: [4]uint16{uint16(v), 1, 2, 3}, Type: vftDLL, Langs: map[uint16]map[string]string{uint16(v): {"a": fmt.Sprint("x", v)}, 0x409: {"b": "c", "d": fmt.Sprint(v * 7)}}}
		b = ref.BuildVersion(w, ref.VersionStyle{})
		vi, err := version.FromBytes(b)
		if err != nil {
			return err.Error()
		}
		return digest(infoDump(vi))
	})
	add("Info JSON", false, func(v int) string {
		j, err := json.Marshal(info(v))
		vi := &version.Info{}
		err2 := json.Unmarshal(j, vi)
		return digest(string(j), err, infoDump(vi), err2)
	})
	add("SplitTranslations and MergeTranslations", false, func(v int) string {
		m := info(v).SplitTranslations()
		var ls []int
		for l := range m {
			ls = append(ls, int(l))
		}
		sort.Ints(ls)
		s := ""
		for _, l := range ls {
			s += infoDump(m[uint16(l)])
		}
		return digest(s, infoDump(version.MergeTranslations(m)))
	})
	add("SetFileVersion and Table", true, func(v int) string {
		vi := info(v)
		vi.SetFileVersion(fmt.Sprintf("%d.2.3", v))
		vi.SetProductVersion(fmt.Sprintf("v%d", v+5))
		return digest(infoDump(vi), vi.Table().GetMainTranslation())
	})
	add("SetVersionInfo", false, func(v int) string {
		rs := &winres.ResourceSet{}
		rs.SetVersionInfo(*info(v))
		return digest(list(rs))
	})
}
