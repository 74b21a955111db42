package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// Go's own linker takes part in some scenarios: it is the one that objects are meant for, in files named *.syso.
// Scenarios are empty where it cannot make executables for Windows.

type goTarget struct {
	once    sync.Once
	err     error
	link    string // the linker
	cfg     []byte // where the packages are
	archive []byte // the compiled main package
	exes    sync.Map
}

var goTargets [3]goTarget

// goArches are the targets that the linker knows, as indices of arches.
var goArches = []int{0, 1, 3}

func goEnv(ai int) []string {
	return append(os.Environ(), "GOOS=windows", "GOARCH="+string(arches[ai].a), "CGO_ENABLED=0", "GOFLAGS=", "GOEXPERIMENT=", "GODEBUG=", "GO111MODULE=on", "GOWORK=off")
}

func (t *goTarget) prepare(ai int) {
	t.once.Do(func() {
		dir, err := os.MkdirTemp("", "verif-go-")
		if err != nil {
			t.err = err
			return
		}
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module empty\n\ngo 1.18\n"), 0o600)
		os.WriteFile(filepath.Join(dir, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0o600)
		cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}", ".")
		cmd.Dir = dir
		cmd.Env = goEnv(ai)
		if t.cfg, t.err = cmd.Output(); t.err != nil {
			return
		}
		for _, l := range strings.Split(string(t.cfg), "\n") {
			if s := strings.TrimPrefix(l, "packagefile empty="); s != l {
				t.archive, t.err = os.ReadFile(s)
			}
		}
		if t.err == nil && t.archive == nil {
			t.err = fmt.Errorf("no compiled package")
		}
		cmd = exec.Command("go", "env", "GOTOOLDIR")
		out, err := cmd.Output()
		if err != nil {
			t.err = err
		}
		t.link = filepath.Join(strings.TrimSpace(string(out)), "link")
	})
}

// goLink links an empty program, with an object file if it is not nil.
func goLink(r *mc.Run, gi int, object []byte, opts ...string) ([]byte, error) {
	t := &goTargets[gi]
	t.prepare(goArches[gi])
	if t.err != nil {
		r.Logf("no Go linker: %v", t.err)
		r.Prune()
	}
	a := append([]byte(nil), t.archive...)
	if len(a)%2 != 0 {
		a = append(a, 0)
	}
	if object != nil {
		a = append(a, fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n", "rsrc.syso", 0, 0, 0, 0o644, len(object))...)
		a = append(a, object...)
		if len(a)%2 != 0 {
			a = append(a, 0)
		}
	}
	args := append([]string{"-importcfg", "cfg", "-o", "out.exe"}, opts...)
	return runToolEnv(r, goEnv(goArches[gi]), t.link, map[string][]byte{"cfg": t.cfg, "main.a": a}, "out.exe", append(args, "main.a")...)
}

// c03GoLinked: objects linked into Go programs, as the documentation suggests.
func c03GoLinked(r *mc.Run) {
	gi := r.Pick(len(goArches))
	var want []ref.Res
	if r.Bool() {
		want = devContent(r)
	} else {
		n := []int{1, 100, 1000, 5000}[r.Pick(4)]
		m := model{}
		for i := 0; i < n; i++ {
			k := key(id(10), id(uint16(1+i)), 0)
			if i%3 == 0 {
				k = key(name(fmt.Sprint("T", i%9)), name(fmt.Sprint("N", i)), uint16(i))
			}
			m[k] = ref.Pattern(1+i%70, byte(i))
		}
		want = m.sorted()
	}
	mode := []string{"exe", "pie"}[r.Pick(2)]
	r.Logf("Go program for %s, %s: %s", arches[goArches[gi]].a, mode, ref.Dump(want))
	rs, err := build(want)
	must(r, err, "Set")
	var buf bytes.Buffer
	r.Step()
	must(r, rs.WriteObject(&buf, arches[goArches[gi]].a), "WriteObject")
	exe, err := goLink(r, gi, buf.Bytes(), "-s", "-w", "-buildmode="+mode)
	r.StateStr(fmt.Sprint(gi, mode) + ref.Dump(want))
	checkLinked(r, exe, err, want)
}

// goExe makes a Go program, with resources from a resource compiler or not.
func goExe(r *mc.Run, gi int, res bool, opts ...string) []byte {
	t := &goTargets[gi]
	k := fmt.Sprint(res, opts)
	if b, ok := t.exes.Load(k); ok {
		return b.([]byte)
	}
	var obj []byte
	if res {
		var err error
		obj, err = runTool(r, tool(r, "llvm-cvtres"), map[string][]byte{"in.res": ref.BuildRES(oldRes)}, "out.obj",
			"/machine:"+strings.ToUpper(lldMachine[goArches[gi]]), "/out:out.obj", "in.res")
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	exe, err := goLink(r, gi, obj, opts...)
	if err != nil {
		panic("harness: " + err.Error())
	}
	t.exes.Store(k, exe)
	return exe
}

// goLayout is a layout made by Go's linker, with or without symbols.
func goLayout(r *mc.Run) *layout {
	gi := r.Pick(len(goArches))
	res := r.Bool()
	opts := []string{"-buildmode=" + []string{"exe", "pie"}[r.Pick(2)]}
	switch r.Pick(4) {
	case 1:
		opts = append(opts, "-s", "-w")
	case 2:
		opts = append(opts, "-w", "-H=windowsgui")
	case 3:
		opts = append(opts, "-compressdwarf=false")
	}
	desc := fmt.Sprintf("Go program for %s %v with resources %v", arches[goArches[gi]].a, opts, res)
	r.Logf("%s", desc)
	exe := goExe(r, gi, res, opts...)
	p, err := ref.ParsePE(exe)
	if err == nil {
		err = p.Validate()
	}
	if err != nil {
		panic("harness: " + desc + ": " + err.Error())
	}
	return &layout{c: &ref.PEConf{}, desc: desc, bytes: exe, p: p}
}

// c04Go: executables made by Go's linker from compiled resources.
func c04Go(r *mc.Run, load loader) {
	l := goLayout(r)
	if !strings.HasSuffix(l.desc, "true") {
		r.Step()
		if rs, err := winres.LoadFromEXE(bytes.NewReader(l.bytes)); err == nil || rs == nil || rs.Count() != 0 {
			r.Failf("LoadFromEXE of an executable without resources: %v", err)
		}
		r.StateStr(l.desc)
		return
	}
	r.StateStr(l.desc)
	want := append([]ref.Res(nil), oldRes...)
	ref.SortRes(want)
	load(r, l.bytes, want)
}
