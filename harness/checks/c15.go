package checks

import (
	"bytes"
	"fmt"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

// C15 (icons) and C16 (cursors): histories of groups in one set.

func init() {
	for _, cur := range []bool{false, true} {
		cur := cur
		pid := "C15"
		if cur {
			pid = "C16"
		}
		run := func(ops []string, depth, thorough int) func(r *mc.Run) {
			return func(r *mc.Run) { c15History(r, cur, ops, depth, thorough) }
		}
		register(&Property{
			ID:   pid,
			Rule: "one execution per history; after each storing operation the difference made to the set is judged, and at the end every group and every resource; distinct_nontrivial counts distinct final contents",
			Scenarios: []mc.Scenario{
				{Name: "histories", Weight: 4, Run: run([]string{"A>1", "A>G", "B>1", "B>G", "B>G@409", "-1", "-G", "img1", "img2", "img5", "img1@409", "-img1", "-img2", "imgX", "other", "copy"}, 4, 6)},
				{Name: "histories with reloading", Weight: 3, Run: run([]string{"A>G", "B>1", "B>G", "C>2", "-img1", "img3", "img2@409", "-G", "reload", "reload single", "rewrite"}, 5, 6)},
				{Name: "exhaustion", Weight: 3, Run: run([]string{"A>1", "B>G", "C>G", "E>2", "imgFFFC", "imgFFFE", "imgFFFF", "-imgFFFF", "-imgFFFE", "img8000", "imgX", "other", "reload", "A>bad", "-G"}, 4, 6)},
				{Name: "translations", Run: func(r *mc.Run) { c15Translations(r, cur) }},
				{Name: "many images", Run: func(r *mc.Run) { c15Many(r, cur) }},
			},
		})
	}
}

// c15Icons are the groups that get stored.
var c15Icons = func() (out [2]map[byte][]pic) {
	dib := func(n int, s byte) []byte { return ref.DIB(40, 16, 16, 1, 32, n, s) }
	out[0] = map[byte][]pic{
		'A': {{w: 16, h: 16, planes: 1, bits: 32, data: fresh(3, 1)}},
		'B': {{w: 16, h: 16, colors: 16, planes: 1, bits: 4, data: fresh(4, 2)}, {w: 256, h: 255, planes: 1, bits: 32, data: fresh(5, 3)}},
		'C': {{w: 32, h: 32, planes: 1, bits: 8, data: fresh(6, 4)}, {w: 32, h: 16, planes: 1, bits: 8, data: fresh(7, 5)}, {w: 48, h: 48, planes: 1, bits: 8, data: fresh(7, 5)}},
		'E': {},
	}
	out[1] = map[byte][]pic{
		'A': {{w: 16, h: 16, x: 1, y: 2, planes: 1, bits: 32, data: dib(3, 1)}},
		'B': {{w: 16, h: 16, x: 3, y: 4, planes: 1, bits: 4, data: ref.DIB(40, 16, 16, 1, 4, 3, 2)}, {w: 256, h: 255, x: 0xFFFF, y: 5, planes: 1, bits: 32, data: dib(5, 3)}},
		'C': {{w: 32, h: 32, planes: 1, bits: 32, data: dib(6, 4)}, {w: 32, h: 16, x: 9, planes: 1, bits: 32, data: dib(7, 5)}, {w: 48, h: 48, planes: 1, bits: 32, data: dib(7, 5)}},
		'E': {},
	}
	return
}()

type c15Run struct {
	r        *mc.Run
	cur      bool
	gt, it   ref.Ident
	rs       *winres.ResourceSet
	m        model
	highEver int               // highest image id that the set has ever seen
	reloaded bool              // the set does not know which images it had
	want     map[ref.Key][]pic // groups that must read back as this
	trail    string
}

func newC15(r *mc.Run, cur bool) *c15Run {
	c := &c15Run{r: r, cur: cur, gt: id(14), it: id(3), rs: &winres.ResourceSet{}, m: model{}, want: map[ref.Key][]pic{}}
	if cur {
		c.gt, c.it = id(12), id(1)
	}
	return c
}

func (c *c15Run) load(k byte) (grp, []pic) {
	i := 0
	if c.cur {
		i = 1
	}
	ps := c15Icons[i][k]
	g, err := loadGrp(c.cur, ref.BuildIco(uint16(i+1), entries(c.cur, ps), ref.IcoStyle{}))
	must(c.r, err, "load")
	return g, icoOrder(ps)
}

// store sets a group and judges what it did to the set.
func (c *c15Run) store(g grp, ps []pic, res ref.Ident, lang uint16) {
	r := c.r
	k := key(c.gt, res, lang)
	valid := res.Named && res.Name != "" || !res.Named && res.ID != 0
	err := g.set(c.rs, res, lang, true)
	r.Step()
	after := model{}
	for _, x := range collect(c.rs) {
		after[x.Key] = x.Data
	}
	for ok, od := range c.m {
		if nd, there := after[ok]; ok != k && (!there || !bytes.Equal(od, nd)) {
			r.Failf("%s: storing group %v changed resource %v from %s to %s (present: %v)", c.trail, k, ok, ref.Hex(od), ref.Hex(nd), there)
		}
	}
	added := 0
	for nk := range after {
		if _, there := c.m[nk]; there || nk == k {
			continue
		}
		if nk.Type != c.it || nk.Res.Named || nk.Lang != 0 {
			r.Failf("%s: storing group %v added resource %v", c.trail, k, nk)
		}
		for ok := range c.m {
			if ok.Type == c.it && ok.Res == nk.Res {
				r.Failf("%s: storing group %v reused the identifier of the existing image %v", c.trail, k, ok)
			}
			if ok.Type == c.gt && ok != k && !c.reloaded {
				if _, uses := groupUses(c.m[ok], uint16(nk.Res.ID)); uses {
					r.Failf("%s: storing group %v gave its image %v to group %v, whose image had been deleted", c.trail, k, nk, ok)
				}
			}
		}
		added++
	}
	if err != nil {
		if valid && c.high0()+len(ps) <= 0xFFFF {
			r.Failf("%s: storing group %v of %d images failed (%v) but identifiers above %d are free", c.trail, k, len(ps), err, c.high0())
		}
		if !bytes.Equal(after[k], c.m[k]) || (after[k] == nil) != (c.m[k] == nil) {
			r.Failf("%s: storing group %v failed (%v) but changed the group", c.trail, k, err)
		}
		if added != 0 {
			r.Failf("%s: storing group %v failed (%v) but added %d images", c.trail, k, err, added)
		}
		c.m = after
		return
	}
	if !valid {
		r.Failf("%s: storing group %v succeeded", c.trail, k)
	}
	if added != len(ps) {
		r.Failf("%s: storing group %v of %d images added %d images", c.trail, k, len(ps), added)
	}
	c.m = after
	got, gerr := readGroup(c.cur, c.m, res, lang)
	if gerr != nil {
		r.Failf("%s: stored group %v is invalid: %v", c.trail, k, gerr)
	}
	samePics(r, fmt.Sprintf("%s: stored group %v", c.trail, k), got, ps)
	sizesMatch(r, c.cur, c.m, res, lang, fmt.Sprintf("%s: stored group %v", c.trail, k))
	c.want[k] = ps
}

// high0 is the highest image id before the current operation, at most (failed operations may have used some).
func (c *c15Run) high0() int {
	h := 0
	for k := range c.m {
		if k.Type == c.it && !k.Res.Named && int(k.Res.ID) > h {
			h = int(k.Res.ID)
		}
	}
	if c.highEver > h {
		h = c.highEver
	}
	return h
}

// raw sets or deletes a resource directly.
func (c *c15Run) raw(k ref.Key, d []byte) {
	must(c.r, c.rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
	c.r.Step()
	if k.Type == c.it && !k.Res.Named {
		if d != nil && int(k.Res.ID) > c.highEver {
			c.highEver = int(k.Res.ID)
		}
		for g, ps := range c.want {
			if _, uses := groupUses(c.m[g], uint16(k.Res.ID)); uses {
				// the group keeps its meaning only if the first translation is not affected
				before, _ := firstTranslation(c.m, c.it, k.Res)
				m2 := c.m.clone()
				m2.set(k, d)
				after, ok := firstTranslation(m2, c.it, k.Res)
				if !ok || !bytes.Equal(before, after) {
					delete(c.want, g)
				}
				_ = ps
			}
		}
	}
	if k.Type == c.gt {
		delete(c.want, k)
	}
	c.m.set(k, d)
}

func groupUses(b []byte, n uint16) (int, bool) {
	for i := 6; i+14 <= len(b); i += 14 {
		if ref.U16(b, i+12) == n {
			return i, true
		}
	}
	return 0, false
}

// finish checks every group and resource.
func (c *c15Run) finish() {
	r := c.r
	if err := ref.SameRes(collect(c.rs), c.m.sorted()); err != nil {
		r.Failf("%s: %v", c.trail, err)
	}
	first := map[ref.Ident]uint16{}
	for _, x := range c.m.sorted() {
		if x.Type != c.gt {
			continue
		}
		what := fmt.Sprintf("%s: group %v", c.trail, x.Key)
		want, werr := readGroup(c.cur, c.m, x.Res, uint16(x.Lang))
		g, err := getGrp(c.cur, c.rs, x.Res, uint16(x.Lang))
		if _, seen := first[x.Res]; !seen {
			first[x.Res] = uint16(x.Lang)
			g1, err1 := getGrpFirst(c.cur, c.rs, x.Res)
			if (err1 == nil) != (werr == nil) {
				r.Failf("%s: reading the first translation: %v, want %v", what, err1, werr)
			}
			if err1 == nil {
				g1.checkSaved(r, icoOrder(want), what+" (first translation)")
			}
		}
		if ps, kept := c.want[x.Key]; kept {
			must(r, err, what)
			g.checkSaved(r, ps, what)
		}
		if (err == nil) != (werr == nil) {
			r.Failf("%s: %v, want %v", what, err, werr)
		}
		if err == nil {
			g.checkSaved(r, icoOrder(want), what)
		}
	}
	for k := range c.want {
		if _, ok := c.m[k]; !ok {
			r.Failf("%s: group %v disappeared", c.trail, k)
		}
	}
	r.StateStr(c.m.dump())
}

func (c *c15Run) op(s string) {
	c.trail += " " + s
	img := func(s string) ref.Key {
		var n, l uint32
		if s == "X" {
			return key(c.it, name("X"), 0)
		}
		if i := bytes.IndexByte([]byte(s), '@'); i >= 0 {
			fmt.Sscanf(s[i+1:], "%x", &l)
			s = s[:i]
		}
		fmt.Sscanf(s, "%x", &n)
		return key(c.it, id(uint16(n)), uint16(l))
	}
	res := func(s string) (ref.Ident, uint16) {
		switch s {
		case "1":
			return id(1), 0
		case "2":
			return id(2), 0
		case "G":
			return name("G"), 0
		case "G@409":
			return name("G"), 0x409
		}
		return ref.Ident{}, 0
	}
	switch {
	case s == "other":
		// images of the other kind must not matter
		other := id(1)
		if c.cur {
			other = id(3)
		}
		c.raw(key(other, id(0xFFFF), 0), fresh(9, 9))
	case s == "copy":
		// read a group and store it under another name
		g, err := getGrp(c.cur, c.rs, name("G"), 0)
		ps, werr := readGroup(c.cur, c.m, name("G"), 0)
		if (err == nil) != (werr == nil) {
			c.r.Failf("%s: reading group G: %v, want %v", c.trail, err, werr)
		}
		if err == nil {
			c.store(g, icoOrder(ps), name("COPY"), 0)
		}
	case s == "reload" || s == "reload single":
		var out bytes.Buffer
		must(c.r, doPatch(c.rs, &out, bytes.NewReader(c15Exe), patchOpts{}), "WriteToEXE")
		var err error
		m2 := model{}
		if s == "reload" {
			c.rs, err = winres.LoadFromEXE(bytes.NewReader(out.Bytes()))
			m2 = c.m
		} else {
			c.rs, err = winres.LoadFromEXESingleType(bytes.NewReader(out.Bytes()), wid(c.gt))
			for k, d := range c.m {
				if k.Type == c.gt || k.Type == c.it {
					m2[k] = d
				}
			}
		}
		c.m = m2
		c.highEver, c.reloaded = 0, true
		c.highEver = c.high0()
		if len(m2) == 0 && err == winres.ErrNoResources {
			break
		}
		must(c.r, err, "LoadFromEXE")
	case s == "rewrite":
		// copy the set through Walk and Set
		rs := &winres.ResourceSet{}
		for _, x := range collect(c.rs) {
			must(c.r, rs.Set(wid(x.Type), wid(x.Res), uint16(x.Lang), x.Data), "Set")
		}
		c.rs = rs
		c.highEver, c.reloaded = 0, true
		c.highEver = c.high0()
	case len(s) > 3 && s[:3] == "img":
		c.raw(img(s[3:]), fresh(6+len(c.m), 0x55))
	case len(s) > 4 && s[:4] == "-img":
		c.raw(img(s[4:]), nil)
	case s[0] == '-':
		i, l := res(s[1:])
		c.raw(key(c.gt, i, l), nil)
	default:
		g, ps := c.load(s[0])
		i, l := res(s[2:])
		c.store(g, ps, i, l)
	}
}

var c15Exe = func() []byte {
	return ref.BuildPE(&ref.PEConf{Plus: true, StubLen: 0x40, Slack: 40, Sections: []ref.SecSpec{secText(0x20)}})
}()

func c15History(r *mc.Run, cur bool, ops []string, depth, thorough int) {
	c := newC15(r, cur)
	if r.Thorough {
		depth = thorough
	}
	for i := 0; i < depth; i++ {
		k := r.Pick(len(ops) + 1)
		if k == 0 {
			break
		}
		c.op(ops[k-1])
		if h := c.high0(); h > c.highEver {
			c.highEver = h
		}
	}
	r.Logf("%s", c.trail)
	c.finish()
}

// c15Many stores a group of very many images.
func c15Many(r *mc.Run, cur bool) {
	c := newC15(r, cur)
	n := []int{0xFFFF, 0xFFFE, 300}[r.Pick(3)]
	before := []int{0, 1, 0xFF00}[r.Pick(3)]
	typ, i := uint16(1), 0
	if cur {
		typ, i = 2, 1
	}
	if before != 0 {
		c.raw(key(c.it, id(uint16(before)), 0), fresh(8, 1))
	}
	p := c15Icons[i]['A'][0]
	ps := make([]pic, n)
	for j := range ps {
		ps[j] = p
	}
	b := ref.BuildIco(typ, entries(cur, ps), ref.IcoStyle{})
	g, err := loadGrp(cur, b)
	must(r, err, "load")
	c.trail = fmt.Sprintf("%d images, highest id %d:", n, before)
	err = g.set(c.rs, name("BIG"), 0, true)
	r.Step()
	if (err == nil) != (before+n <= 0xFFFF) {
		r.Failf("%s storing: %v", c.trail, err)
	}
	if before != 0 {
		if !bytes.Equal(c.rs.Get(wid(c.it), winres.ID(before), 0), fresh(8, 1)) {
			r.Failf("%s the existing image was overwritten", c.trail)
		}
	}
	if err == nil {
		g2, err := getGrp(cur, c.rs, name("BIG"), 0)
		must(r, err, c.trail+" reading back")
		g2.checkSaved(r, ps, c.trail)
	} else if c.rs.Get(wid(c.gt), winres.Name("BIG"), 0) != nil {
		r.Failf("%s storing failed but there is a group", c.trail)
	}
	if err != nil && c.rs.Count() != len(c.m) {
		r.Failf("%s storing failed (%v) but there are %d resources instead of %d", c.trail, err, c.rs.Count(), len(c.m))
	}
	r.StateStr(c.trail)
}

// c15Translations: groups and images in every subset of some languages, whose numeric order is not that of their primary
// language nor that of signed integers.
func c15Translations(r *mc.Run, cur bool) {
	langs := []uint16{0, 0x409, 0x40C, 0x809, 0x1004, 0x8000, 0xFFFF}
	c := newC15(r, cur)
	gs, is := 1+r.Pick(1<<uint(len(langs))-1), r.Pick(1<<uint(len(langs)))
	down := r.Bool()
	each := func(set int, f func(i int, l uint16)) {
		for j := range langs {
			i := j
			if down {
				i = len(langs) - 1 - j
			}
			if set>>uint(i)&1 != 0 {
				f(i, langs[i])
			}
		}
	}
	each(gs, func(i int, l uint16) {
		c.trail += fmt.Sprintf(" %c>G@%x", 'A'+i%2, l)
		g, ps := c.load(byte('A' + i%2))
		c.store(g, ps, name("G"), l)
	})
	each(is, func(i int, l uint16) {
		c.trail += fmt.Sprintf(" img1@%x", l)
		c.raw(key(c.it, id(1), l), fresh(6+i, 0x55))
	})
	c.finish()
}
