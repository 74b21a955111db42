package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID: "C02",
		Assumptions: []string{
			"names that are not valid UTF-8, and become the same UTF-16 name, are only required to be written in an order that depends on nothing but the contents",
		},
		Scenarios: []mc.Scenario{
			{Name: "orders", Weight: 3, Run: c02Orders},
			{Name: "same UTF-16 names", Run: c02Same16},
			{Name: "detours", Bound: 2, ThoroughBound: 3, Weight: 3, Run: c02Detours},
			{Name: "pairs", Weight: 2, Run: c02Pairs},
			{Name: "large", Weight: 2, Run: c02Large},
			{Name: "exe", Weight: 2, Run: c02Exe},
			{Name: "processes", Run: c02Processes},
		},
	})
}

// contents whose canonical order is delicate
var c02Contents = [][]ref.Key{
	{key(id(10), id(2), 0), key(id(10), id(10), 0), key(id(9), id(1), 0), key(id(256), id(1), 0)},
	{key(id(10), name("b"), 0), key(id(10), name("B"), 0), key(id(10), name("AA"), 0), key(id(10), id(1), 0)},
	{key(name("t"), id(1), 0), key(name("T"), id(1), 0), key(id(1), id(1), 0), key(name("TT"), name("x"), 0)},
	{key(id(10), id(1), 0x409), key(id(10), id(1), 0), key(id(10), id(1), 0x8000), key(id(10), id(1), 0x407)},
	{key(id(10), id(1), 0), key(id(10), id(0xFFFF), 0), key(id(0xFFFF), id(1), 0xFFFF), key(id(0x8000), id(0x8000), 0x7FFF)},
	{key(name("A"), name("A"), 0), key(name("A"), name("B"), 0), key(id(10), name("A"), 0), key(name("B"), name("A"), 1)},
	{key(id(10), name("\u00e9"), 0), key(id(10), name("z"), 0), key(id(10), name("\u65e5"), 0), key(id(10), name("_"), 0)},
	{key(id(10), name(sixteen+"B"), 0), key(id(10), name(sixteen+"AB"), 0), key(id(10), name(longName), 0), key(id(10), name(longName[:318]+"9"), 0)},
	{key(name(longName+"B"), id(1), 0), key(name(longName+"AB"), id(1), 0), key(name(sixteen), id(1), 0), key(name(sixteen+sixteen), id(1), 0)},
	{key(name("X"), id(1), 0), key(name("X"), id(1), 1), key(name("X"), name("1"), 1), key(id(24), id(1), 0x409)},
}

func c02Data(k ref.Key) []byte {
	s := k.String()
	h := 0
	for _, c := range s {
		h = h*31 + int(c)
	}
	return ref.Pattern(1+(h&0x1f), byte(h>>3))
}

func canonical(r *mc.Run, keys []ref.Key) ([]byte, []ref.Res) {
	m := model{}
	for _, k := range keys {
		m[k] = c02Data(k)
	}
	want := m.sorted()
	rs, err := build(want)
	must(r, err, "Set")
	var b bytes.Buffer
	must(r, rs.WriteObject(&b, winres.ArchAMD64), "WriteObject")
	return b.Bytes(), want
}

func perm(r *mc.Run, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		j := r.Pick(len(rest))
		out = append(out, rest[j])
		rest = append(rest[:j:j], rest[j+1:]...)
	}
	return out
}

func c02Check(r *mc.Run, rs *winres.ResourceSet, canon []byte, want []ref.Res, walkFirst bool) {
	w := func() {
		if err := ref.SameRes(collect(rs), want); err != nil {
			r.Failf("Walk is not in canonical order: %v", err)
		}
	}
	if walkFirst {
		w()
	}
	b, res := object(r, rs, winres.ArchAMD64)
	if err := ref.SameRes(res, want); err != nil {
		r.Failf("the written directory is not in canonical order: %v", err)
	}
	if !bytes.Equal(b, canon) {
		r.Failf("the same content is written differently depending on the history: %s instead of %s", ref.Hex(b), ref.Hex(canon))
	}
	w()
	b2, _ := object(r, rs, winres.ArchAMD64)
	if !bytes.Equal(b2, canon) {
		r.Failf("writing twice gives different bytes")
	}
}

func c02Orders(r *mc.Run) {
	keys := c02Contents[r.Pick(len(c02Contents))]
	canon, want := canonical(r, keys)
	rs := &winres.ResourceSet{}
	for _, i := range perm(r, len(keys)) {
		k := keys[i]
		r.Step()
		r.Logf("Set %v", k)
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), c02Data(k)), "Set")
		if o := r.Pick(3); o > 0 {
			observe(rs, o-1)
			r.Logf("observe %d", o-1)
		}
	}
	r.StateStr(fmt.Sprint(collectKeys(rs)))
	c02Check(r, rs, canon, want, r.Bool())
}

// c02Same16: names that differ, but not once they are converted to UTF-16.
func c02Same16(r *mc.Run) {
	names := []string{"\xff", "\xfe", "\ufffd", "a\xff", "a\xfe"}
	write := func(order []int, typ, watch bool) []byte {
		rs := &winres.ResourceSet{}
		for _, i := range order {
			t, n := winres.Identifier(winres.ID(10)), winres.Identifier(winres.Name(names[i]))
			if typ {
				t, n = n, winres.ID(1)
			}
			must(r, rs.Set(t, n, 0x409, []byte(fmt.Sprint("data ", i))), "Set")
			if watch {
				observe(rs, 0)
			}
		}
		r.Step()
		var b bytes.Buffer
		must(r, rs.WriteObject(&b, winres.ArchAMD64), "WriteObject")
		return b.Bytes()
	}
	typ, watch := r.Bool(), r.Bool()
	order := perm(r, len(names))
	want := write([]int{0, 1, 2, 3, 4}, typ, false)
	for i := 0; i < 3; i++ {
		if got := write(order, typ, watch); !bytes.Equal(got, want) {
			r.Failf("names %q set in the order %v are written differently than in order", names, order)
		}
	}
	r.StateStr(fmt.Sprint(order, typ, watch))
}

func collectKeys(rs *winres.ResourceSet) []string {
	var s []string
	for _, x := range collect(rs) {
		s = append(s, x.Key.String())
	}
	return s
}

// c02Detours: arbitrary detours (overwrites, junk set and deleted, delete and set again) reach the same bytes.
func c02Detours(r *mc.Run) {
	ci := r.Pick(len(c02Contents))
	keys := c02Contents[ci]
	canon, want := canonical(r, keys)
	rs := &winres.ResourceSet{}
	junk := []ref.Key{key(id(10), id(5), 0), key(id(10), id(1), 0x40c), key(name("JUNK"), name("JUNK"), 1), key(id(3), id(77), 0), key(id(1), id(0xFFFF), 0), key(id(10), name("A0"), 0)}
	do := func(k ref.Key, d []byte) {
		r.Step()
		r.Logf("Set(%v,%s)", k, ref.Hex(d))
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
	}
	isWanted := func(k ref.Key) bool {
		for _, w := range keys {
			if w == k {
				return true
			}
		}
		return false
	}
	order := perm(r, len(keys))
	for n, i := range order {
		k := keys[i]
		switch r.Dev(5) {
		case 1:
			do(k, []byte("old value that is longer than the new one"))
			observe(rs, 0)
		case 2:
			do(k, []byte{})
			do(k, nil)
		case 3:
			do(k, []byte("x"))
			observe(rs, 2)
			do(k, nil)
			observe(rs, 0)
		case 4:
			observe(rs, 1)
		}
		do(k, c02Data(k))
		j := r.Dev(len(junk)*2 + 1)
		if j > 0 {
			j--
			q := junk[j%len(junk)]
			if isWanted(q) {
				r.Prune()
			}
			do(q, []byte("junk"))
			if j >= len(junk) {
				observe(rs, n%3)
			}
			do(q, nil)
		}
	}
	// re-set an early one
	if x := r.Dev(len(keys) + 1); x > 0 {
		do(keys[x-1], nil)
		observe(rs, 0)
		do(keys[x-1], c02Data(keys[x-1]))
	}
	r.StateStr(fmt.Sprint(ci, order, r.Tracing()))
	c02Check(r, rs, canon, want, false)
}

// c02Pairs: the relative order of every pair of tricky identifiers, at every level.
func c02Pairs(r *mc.Run) {
	ids := edgeIdentList
	a, b := ids[r.Pick(len(ids))], ids[r.Pick(len(ids))]
	level := r.Pick(2)
	swap := r.Bool()
	var k1, k2 ref.Key
	if level == 0 {
		k1, k2 = key(a, id(1), 0), key(b, id(1), 0)
	} else {
		k1, k2 = key(id(10), a, 0), key(id(10), b, 0)
	}
	canon, want := canonical(r, []ref.Key{k1, k2})
	rs := &winres.ResourceSet{}
	if swap {
		k1, k2 = k2, k1
	}
	for _, k := range []ref.Key{k1, k2} {
		r.Step()
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), c02Data(k)), "Set")
	}
	r.Logf("%v then %v", k1, k2)
	r.StateStr(k1.String() + k2.String())
	c02Check(r, rs, canon, want, false)
}

func c02Large(r *mc.Run) {
	sizes := []int{6, 13, 40, 257, 1000}
	if r.Thorough {
		sizes = append(sizes, 100, 512, 3000, 9000)
	}
	n := sizes[r.Pick(len(sizes))]
	axis := r.Pick(4)
	stride := []int{1, -1, 7919, 104729, 31}[r.Pick(5)]
	mk := func(i int) ref.Key {
		switch axis {
		case 0:
			return key(id(uint16(1+i*7)), id(1), 0)
		case 1:
			if i%2 == 0 {
				return key(id(10), id(uint16(1+i)), 0)
			}
			return key(id(10), name(fmt.Sprintf("%c%d", 'A'+i%50, i)), 0)
		case 2:
			return key(id(10), id(1), uint16(i*7))
		default:
			return key(name(fmt.Sprintf("T%d", i%5)), name(fmt.Sprintf("N%d", i%17)), uint16(i))
		}
	}
	var keys []ref.Key
	for i := 0; i < n; i++ {
		keys = append(keys, mk(i))
	}
	canon, want := canonical(r, keys)
	rs := &winres.ResourceSet{}
	done := make([]bool, n)
	cnt := 0
	pos := 0
	if stride < 0 {
		pos = n - 1
	}
	for cnt < n {
		for done[pos] {
			pos = (pos + 1) % n
		}
		done[pos] = true
		k := keys[pos]
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), c02Data(k)), "Set")
		r.Step()
		cnt++
		pos = ((pos+stride)%n + n) % n
	}
	r.Logf("%d resources on axis %d inserted with stride %d", n, axis, stride)
	r.StateStr(fmt.Sprint(n, axis, stride))
	c02Check(r, rs, canon, want, false)
}

// c02Exe: executables too are a function of the content alone.
func c02Exe(r *mc.Run) {
	ci := r.Pick(len(c02Contents))
	keys := c02Contents[ci]
	lay := r.Pick(4)
	c := simpleLayout(lay)
	src := ref.BuildPE(c)
	_, want := canonical(r, keys)
	rs0, _ := build(want)
	var canon bytes.Buffer
	must(r, rs0.WriteToEXE(&canon, bytes.NewReader(src)), "WriteToEXE")
	rs := &winres.ResourceSet{}
	order := perm(r, len(keys))
	for _, i := range order {
		k := keys[i]
		r.Step()
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), c02Data(k)), "Set")
	}
	if o := r.Pick(4); o > 0 {
		observe(rs, o-1)
	}
	for n := 0; n < 2; n++ {
		var b bytes.Buffer
		must(r, rs.WriteToEXE(&b, bytes.NewReader(src)), "WriteToEXE")
		if !bytes.Equal(b.Bytes(), canon.Bytes()) {
			r.Failf("WriteToEXE (call %d) writes different bytes for the same content inserted in order %v", n+1, order)
		}
	}
	res, err := exeResources(canon.Bytes())
	if err != nil {
		r.Failf("WriteToEXE wrote an unreadable resource section: %v", err)
	}
	if err := ref.SameRes(res, want); err != nil {
		r.Failf("the executable's directory is not in canonical order: %v", err)
	}
	r.Logf("layout %d content %d order %v", lay, ci, order)
	r.StateStr(fmt.Sprint(lay, ci, order))
}

// c02Outputs writes every content in every way and returns the digests of the files.
func c02Outputs(ci int) string {
	var out []string
	put := func(what string, b []byte, err error) {
		out = append(out, fmt.Sprintf("%s %x %v", what, sha256.Sum256(b), err))
	}
	m := model{}
	for _, k := range c02Contents[ci] {
		m[k] = c02Data(k)
	}
	rs, err := build(m.sorted())
	put("Set", nil, err)
	rich := func() {
		icon, err := winres.LoadICO(bytes.NewReader(ref.BuildIco(1, entries(false, []pic{c17Base(false, 0), c17Base(false, 1)}), ref.IcoStyle{})))
		put("LoadICO", nil, err)
		if err == nil {
			put("SetIcon", nil, rs.SetIcon(winres.Name("APP"), icon))
		}
		rs.SetManifest(winres.AppManifest{Description: "d", DPIAwareness: winres.DPIPerMonitorV2, UseCommonControlsV6: true})
		v := baseVersion()
		v.Langs[0x409] = map[string]string{"a": "1", "b": "2", "c": "3", "d": "4"}
		v.Langs[0x40c] = map[string]string{"a": "1", "b": "2", "c": "3"}
		vi := &version.Info{}
		setFixed(vi, &v, ref.TimeOf(v.Ticks))
		for l, t := range v.Langs {
			for k, s := range t {
				put("Set", nil, vi.Set(l, k, s))
			}
		}
		rs.SetVersionInfo(*vi)
		j, err := json.Marshal(vi)
		put("JSON", j, err)
	}
	for n := 0; n < 2; n++ {
		if n == 1 {
			rich()
		}
		for _, a := range arches {
			var b bytes.Buffer
			err := rs.WriteObject(&b, a.a)
			put(string(a.a), b.Bytes(), err)
		}
		for lay := 0; lay < 4; lay++ {
			var b bytes.Buffer
			err := rs.WriteToEXE(&b, bytes.NewReader(ref.BuildPE(simpleLayout(lay))), winres.ForceCheckSum())
			put(fmt.Sprint("layout ", lay), b.Bytes(), err)
		}
	}
	return strings.Join(out, "\n")
}

// Digest prints what another process compares with.
func Digest(args []string) string {
	if len(args) > 1 {
		if d, err := time.ParseDuration(args[1]); err == nil {
			time.Sleep(d)
		}
	}
	var ci int
	if len(args) == 0 {
		return ""
	}
	if _, err := fmt.Sscan(args[0], &ci); err != nil || ci < 0 || ci >= len(c02Contents) {
		return ""
	}
	return c02Outputs(ci)
}

// c02Processes: another process, at another time, elsewhere and with another environment, writes the same files.
func c02Processes(r *mc.Run) {
	ci := r.Pick(len(c02Contents))
	mode := r.Pick(4)
	self, err := os.Executable()
	if err != nil {
		r.Failf("internal: %v", err)
	}
	args := []string{"digest", fmt.Sprint(ci)}
	if mode == 1 {
		args = append(args, "1100ms")
	}
	cmd := exec.Command(self, args...)
	cmd.Env = os.Environ()
	switch mode {
	case 1:
		cmd.Env = append(cmd.Env, "SOURCE_DATE_EPOCH=1000000000")
	case 2:
		cmd.Env = append(cmd.Env, "TZ=Pacific/Kiritimati", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "GOARCH=386", "GOOS=windows", "GOMAXPROCS=1")
		cmd.Dir = os.TempDir()
	case 3:
		cmd.Env = []string{"TZ=America/Los_Angeles", "HOME=/", "GOMAXPROCS=3", "GOGC=off", "USER=x", "HOSTNAME=y"}
		cmd.Dir = "/"
	}
	r.Logf("content %d, mode %d", ci, mode)
	r.Step()
	want := c02Outputs(ci)
	out, err := cmd.Output()
	if err != nil {
		r.Failf("internal: %v", err)
	}
	r.Step()
	if got := strings.TrimSpace(string(out)); got != want {
		a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				r.Failf("content %d: another process (mode %d) writes another file: %q instead of %q", ci, mode, b[i%len(b)], a[i])
			}
		}
		r.Failf("content %d: another process (mode %d) writes other files", ci, mode)
	}
	if strings.Count(want, "<nil>") != strings.Count(want, "\n")+1 {
		r.Failf("content %d: %s", ci, want)
	}
	r.StateStr(fmt.Sprint(ci, mode))
}
