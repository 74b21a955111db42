package checks

import (
	"bytes"
	"fmt"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C30: patching again and again.

func init() {
	register(&Property{
		ID: "C30", Assumptions: exeAssumptions,
		Scenarios: []mc.Scenario{
			{Name: "histories", Bound: 1, ThoroughBound: 2, Weight: 4, Run: func(r *mc.Run) { c30Run(r, nil, 3, 4, []int{100, -1, 0x1F0, 0x2100, 0xF80}) }},
			{Name: "long histories", Weight: 3, Run: func(r *mc.Run) {
				c30Run(r, []string{"TDR", "TD", "TRD", "TDRL", "TDRS"}, 5, 7, []int{100, 0x3000, 0x1D0, -1})
			}},
			{Name: "sizes", Weight: 2, Run: c30Sizes},
			{Name: "Go programs", Run: func(r *mc.Run) {
				h := &history{l: goLayout(r), po: patchOpts{force: r.Bool()}}
				h.cur = h.l.bytes
				depth, sizes := 3, []int{100, 0x1F0, 0x12345}
				if r.Thorough {
					depth, sizes = 4, append(sizes, -1)
				}
				for i := 0; i < depth; i++ {
					h.patch(r, sizes[r.Pick(len(sizes))])
				}
				r.StateStr(fmt.Sprint(h.l.desc, h.po, h.sizes))
			}},
		},
	})
}

// c30Run applies every sequence of contents.
func c30Run(r *mc.Run, arr []string, depth, deeper int, sizes []int) {
	if r.Thorough {
		depth = deeper
	}
	l := pickLayout(r, layoutOpts{arr: arr, pads: []int{0, 0x300, 0x2000}, midDir: true, noFakePtr: true, stable: true})
	po := patchOpts{force: r.Dev(2) == 1}
	if l.c.Cert != nil {
		po.auth = 1 + r.Pick(2)
	}
	h := &history{l: l, cur: l.bytes, po: po}
	for i := 0; i < depth; i++ {
		h.patch(r, sizes[r.Pick(len(sizes))])
	}
	r.StateStr(fmt.Sprint(l.desc, h.sizes, len(h.cur)))
}

// history is a sequence of patches of an executable.
type history struct {
	l     *layout
	cur   []byte
	po    patchOpts
	sizes []int
	outs  map[int][]byte // last outcome for a size since the last section was added
	added int
}

// patch applies one more patch and judges it.
func (h *history) patch(r *mc.Run, size int) {
	res := payload(size, 5)
	rs, err := build(res)
	must(r, err, "Set")
	want := append([]ref.Res(nil), res...)
	n := rsrcSize(r, res)
	h.sizes = append(h.sizes, size)
	what := fmt.Sprintf("%s; contents of %d bytes; %v", h.l.desc, h.sizes, h.po)
	r.Logf("%s", what)
	var dst bytes.Buffer
	r.Step()
	err = doPatch(rs, &dst, bytes.NewReader(h.cur), h.po)
	if err != nil {
		p, perr := ref.ParsePE(h.cur)
		must(r, perr, what)
		if ok, _ := mayRefuse(p); !ok || h.added > 0 {
			r.Failf("%s: refused: %v", what, err)
		}
		h.sizes = h.sizes[:len(h.sizes)-1]
		return
	}
	out := dst.Bytes()
	p := analyse(r, h.cur, out, h.po)
	p.preserved(r)
	p.structure(r, n)
	p.checksum(r)
	p.signature(r)
	p.resources(r, want)
	if p.isNew {
		h.added++
		if h.added > 1 {
			r.Failf("%s: %d sections added", what, h.added)
		}
		h.outs = nil
	}
	// the whole history against the original
	if k := len(p.dst.Secs) - len(h.l.p.Secs); k != h.added {
		r.Failf("%s: %d more sections than the original", what, k)
	}
	for i, s := range h.l.p.Secs {
		d := p.dst.Secs[i]
		if i == p.newIdx || s.VA == h.l.p.Dirs[ref.DirResource][0] {
			continue // resources
		}
		if !bytes.Equal(h.l.p.Data(&s), p.dst.Data(&d)) {
			r.Failf("%s: data of section %d %q is not the original any more", what, i, s.Name)
		}
	}
	if h.outs == nil {
		h.outs = map[int][]byte{}
	}
	sec := p.dst.Secs[p.newIdx]
	last := true
	for _, s := range p.dst.Secs {
		if s.VA > sec.VA {
			last = false
		}
	}
	if n := len(h.sizes); n > 1 && h.sizes[n-1] == h.sizes[n-2] && !bytes.Equal(out, h.cur) {
		r.Failf("%s: patching again with the same resources changed the executable (%d then %d bytes, first difference at %#x)", what, len(h.cur), len(out), diffAt(h.cur, out))
	}
	// when resources come last, the outcome depends on the last contents only
	if prev, ok := h.outs[size]; ok && last && !bytes.Equal(out, prev) {
		r.Failf("%s: the same resources gave another executable before (%d then %d bytes, first difference at %#x)", what, len(prev), len(out), diffAt(prev, out))
	}
	h.outs[size] = append([]byte(nil), out...)
	h.cur = out
}

// c30Sizes: pairs of sizes around alignment boundaries: growing, shrinking and coming back.
func c30Sizes(r *mc.Run) {
	arr := []string{"TDR", "TRD", "TDRL", "TD"}
	l := &layout{}
	a := arr[r.Pick(len(arr))]
	c := &ref.PEConf{Plus: r.Bool(), StubLen: 0x80, NumDirs: 16, Slack: 160, FileAlign: 0x200, SectAlign: 0x1000, Overlay: ref.Pattern(33, 9)}
	c.Sections = arrange(a, 0, ref.RsrcStyle{})
	l.c, l.desc = c, fmt.Sprintf("sections %s plus=%v", a, c.Plus)
	l.bytes = buildExe(c, oldRes, ref.RsrcStyle{})
	p, err := ref.ParsePE(l.bytes)
	must(r, err, "ParsePE")
	l.p = p
	sizes := []int{0, 0x150, 0x158, 0x1A0, 0x1A8, 0x1B0, 0x1B8, 0x3A0, 0x3A8, 0x3B0, 0xF98, 0xFA0, 0xFA8, 0xFB0, 0xFB8, 0x1FA0, 0x1FA8, 0x1FB0}
	x, y := sizes[r.Pick(len(sizes))], sizes[r.Pick(len(sizes))]
	h := &history{l: l, cur: l.bytes}
	for _, s := range []int{x, x, y, x, y, y} {
		h.patch(r, s)
	}
	r.StateStr(fmt.Sprint(l.desc, x, y))
}
