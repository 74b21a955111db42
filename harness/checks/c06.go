package checks

import (
	"bytes"
	"fmt"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

var exeAssumptions = []string{
	"source executables are valid images: aligned, non overlapping sections, one resource section starting at the resource directory",
	"bytes between the section headers and the first section data are not part of any structure",
	"a certificate table follows all section data",
}

func init() {
	register(&Property{ID: "C06", Assumptions: exeAssumptions, Scenarios: exeScenarios(func(r *mc.Run, p *patched, n int, want []ref.Res) {
		p.preserved(r)
		p.signature(r)
	})})
	register(&Property{ID: "C07", Assumptions: exeAssumptions, Scenarios: exeScenarios(func(r *mc.Run, p *patched, n int, want []ref.Res) {
		p.structure(r, n)
		p.sizeInit(r)
		p.resources(r, want)
	})})
}

// exeScenarios: every source layout within the deviation bound, patched with contents of many sizes.
func exeScenarios(oracle func(r *mc.Run, p *patched, n int, want []ref.Res)) []mc.Scenario {
	run := func(r *mc.Run, arr []string, sizes []int, free bool) {
		l := pickLayout(r, layoutOpts{arr: arr, pads: []int{0, 0x100, 0x1F0, 0x300, 0x2000}, midDir: true})
		po := patchOpts{}
		if l.c.Cert != nil {
			po.auth = 1 + r.Pick(2)
			po.force = r.Bool()
		} else {
			po.force = r.Dev(2) == 1
		}
		var si int
		if free {
			si = r.Pick(len(sizes))
		} else {
			si = r.Dev(len(sizes))
		}
		res := payload(sizes[si], 5)
		patchAndCheck(r, l, res, po, oracle)
	}
	return []mc.Scenario{
		{Name: "layouts", Bound: 2, ThoroughBound: 3, Weight: 4, Run: func(r *mc.Run) {
			run(r, nil, []int{100, -1, 0, 0x100, 0x200, 0x400, 0xF80, 0x1000, 0x2100, 0x20000}, false)
		}},
		{Name: "sizes", Bound: 1, ThoroughBound: 2, Weight: 3, Run: func(r *mc.Run) {
			// every content size around alignment boundaries, on the main arrangements
			var sizes []int
			for n := 0; n < 0x2400; n += 8 {
				if n%0x200 < 0x10 || n%0x200 > 0x1A0 || r.Thorough {
					sizes = append(sizes, n)
				}
			}
			run(r, []string{"TDR", "TDRL", "TRD", "TD", "TDLR"}, sizes, true)
		}},
		{Name: "linked", Bound: 1, ThoroughBound: 2, Run: func(r *mc.Run) {
			// executables made by a real linker
			l := lldLayout(r)
			po := patchOpts{force: r.Bool()}
			n := []int{100, -1, 0, 0x1000, 0x20000, 0x2350}[r.Pick(6)]
			patchAndCheck(r, l, payload(n, 5), po, oracle)
		}},
		{Name: "far headers", Run: func(r *mc.Run) {
			// the headers are after a large stub
			c := &ref.PEConf{Plus: r.Bool(), StubLen: []int{0xFFF8, 0x10000, 0xFFFFF8, 0x1000040}[r.Pick(4)], Slack: 80, FileAlign: 0x200, SectAlign: 0x1000, NumDirs: 16}
			c.Sections = arrange([]string{"TD", "TDRL"}[r.Pick(2)], 0, ref.RsrcStyle{})
			b := buildExe(c, oldRes, ref.RsrcStyle{})
			p, err := ref.ParsePE(b)
			if err != nil {
				panic("harness: " + err.Error())
			}
			patchAndCheck(r, &layout{c: c, desc: fmt.Sprintf("stub of %#x bytes", c.StubLen), bytes: b, p: p}, payload(0x1000, 5), patchOpts{}, oracle)
		}},
		{Name: "below 4 GB", Run: func(r *mc.Run) {
			l, n := highExe(r)
			patchAndCheck(r, l, payload(n, 5), patchOpts{force: r.Bool()}, oracle)
		}},
		{Name: "Go programs", Run: func(r *mc.Run) {
			l := goLayout(r)
			po := patchOpts{force: r.Bool()}
			n := []int{100, -1, 0, 0x1000, 0x20000, 0x2350}[r.Pick(6)]
			patchAndCheck(r, l, payload(n, 5), po, oracle)
		}},
	}
}

// patchAndCheck patches a layout with resources and applies the oracle to the result.
func patchAndCheck(r *mc.Run, l *layout, res []ref.Res, po patchOpts, oracle func(r *mc.Run, p *patched, n int, want []ref.Res)) {
	rs, err := build(res)
	must(r, err, "Set")
	want := append([]ref.Res(nil), res...)
	ref.SortRes(want)
	n := rsrcSize(r, res)
	r.Step()
	r.Logf("%s; new section %d bytes; %v", l.desc, n, po)
	var dst bytes.Buffer
	err = doPatch(rs, &dst, bytes.NewReader(l.bytes), po)
	if err != nil {
		ok, why := mayRefuse(l.p)
		if uint64(l.p.SizeImage)+uint64(n)+uint64(l.p.SectAlign) > 0xFFFFFFFF {
			ok, why = true, "the addresses of the image would not fit in 32 bits"
		}
		r.StateStr(l.desc + err.Error())
		if !ok {
			r.Failf("WriteToEXE refused a valid executable: %v", err)
		}
		r.Logf("refused: %v (%s)", err, why)
		if dst.Len() != 0 && !bytes.HasPrefix(l.bytes, dst.Bytes()) {
			// an error after partial output is fine, the caller is told
			r.Logf("%d bytes written", dst.Len())
		}
		return
	}
	p := analyse(r, l.bytes, dst.Bytes(), po)
	r.StateStr(fmt.Sprint(l.desc, n, p.isNew, len(dst.Bytes()), po))
	oracle(r, p, n, want)
}

var _ = winres.ArchAMD64
