package checks

import (
	"bytes"
	"fmt"

	"github.com/tc-hib/winres"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	register(&Property{
		ID: "C01",
		Assumptions: []string{
			"identifiers are IDs or Names (the interface is sealed); names are valid UTF-8",
			"the set is not modified during Walk (documented as undefined)",
		},
		Scenarios: []mc.Scenario{
			{Name: "histories", Weight: 4, Run: func(r *mc.Run) { c01Histories(r, c01Small, 4, 5, false) }},
			{Name: "deep", Weight: 4, Run: func(r *mc.Run) { c01Histories(r, c01Tiny, 5, 6, true) }},
			{Name: "edge-keys", Bound: 4, ThoroughBound: 6, Weight: 3, Run: c01Edge},
			{Name: "invalid", Run: c01Invalid},
			{Name: "volume", Weight: 2, Run: c01Volume},
			{Name: "more than a directory", Run: c01Many},
		},
	})
}

var c01Small = []ref.Key{
	key(id(10), id(1), 0), key(id(10), id(1), 0x409), key(id(10), id(2), 0), key(id(10), name("A"), 0x409),
	key(name("T"), id(1), 0), key(name("T"), name("A"), 0x409), key(id(3), id(1), 0), key(id(1), id(1), 0x409),
}

var c01Tiny = []ref.Key{
	key(id(10), id(1), 0), key(id(10), id(1), 0x409), key(id(10), name("A"), 0), key(name("T"), id(1), 0),
}

// observe runs one observation that may have side effects on caches.
func observe(rs *winres.ResourceSet, what int) {
	switch what {
	case 0:
		rs.Walk(func(t, n winres.Identifier, l uint16, d []byte) bool { return true })
	case 1:
		rs.WalkType(winres.ID(10), func(n winres.Identifier, l uint16, d []byte) bool { return true })
	case 2:
		var b bytes.Buffer
		rs.WriteObject(&b, winres.ArchAMD64)
	case 3:
		rs.Count()
		rs.Get(winres.ID(10), winres.ID(1), 0)
		rs.GetIcon(winres.ID(1))
		rs.GetCursor(winres.Name("A"))
	}
}

func c01Histories(r *mc.Run, keys []ref.Key, depth, thorough int, tiny bool) {
	if r.Thorough {
		depth = thorough
	}
	rs := &winres.ResourceSet{}
	m := model{}
	nk := len(keys)
	nobs := 3
	for i := 0; i < depth; i++ {
		c := r.Pick(1 + 2*nk + nobs)
		if c == 0 {
			break
		}
		c--
		r.Step()
		if c < 2*nk {
			k := keys[c%nk]
			var d []byte
			if c < nk {
				d = []byte{byte(i + 1), byte(c), 7}
				if !tiny && i == 1 {
					d = []byte{}
				}
			}
			r.Logf("Set(%v, %s)", k, ref.Hex(d))
			must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
			m.set(k, d)
		} else {
			r.Logf("observe %d", c-2*nk)
			observe(rs, c-2*nk)
		}
	}
	r.StateStr(m.dump())
	final(r, rs, m, keys, r.Pick(3))
}

// final observes the set completely, in one of several orders.
func final(r *mc.Run, rs *winres.ResourceSet, m model, universe []ref.Key, order int) {
	r.Logf("final observation in order %d; want %s", order, m.dump())
	walk := func() {
		if err := ref.SameRes(collect(rs), m.sorted()); err != nil {
			r.Failf("Walk: %v", err)
		}
	}
	obj := func() {
		_, res := object(r, rs, winres.ArchI386)
		if err := ref.SameRes(res, m.sorted()); err != nil {
			r.Failf("WriteObject: %v", err)
		}
	}
	look := func() {
		if n := rs.Count(); n != len(m) {
			r.Failf("Count() = %d, want %d", n, len(m))
		}
		checkLookups(r, rs, m, universe)
	}
	types := func() { checkTypes(r, rs, m, universe) }
	switch order {
	case 0:
		walk()
		look()
		types()
		obj()
	case 1:
		obj()
		walk()
		types()
		look()
	case 2:
		look()
		types()
		walk()
		obj()
	}
	// Walk stops exactly when told to.
	want := m.sorted()
	for stop := 1; stop <= len(want) && stop < 4; stop++ {
		n := 0
		rs.Walk(func(t, x winres.Identifier, l uint16, d []byte) bool {
			n++
			return n < stop
		})
		if n != stop {
			r.Failf("Walk called back %d times although the callback returned false at call %d", n, stop)
		}
	}
	perType := map[ref.Ident]int{}
	for _, x := range want {
		perType[x.Type]++
	}
	for t, c := range perType {
		for stop := 1; stop <= c && stop < 4; stop++ {
			n := 0
			rs.WalkType(wid(t), func(x winres.Identifier, l uint16, d []byte) bool {
				n++
				return n < stop
			})
			if n != stop {
				r.Failf("WalkType(%v) called back %d times although the callback returned false at call %d", t, n, stop)
			}
		}
	}
}

var edgeIDs = []uint16{1, 2, 9, 10, 11, 255, 256, 257, 0x3FFF, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}
var edgeNames = []string{"A", "a", "AA", "B", "Z", "_", "1", "#1", "0", " ", "\u00e9", "\u65e5\u672c", "\U0001F600", "\ufffd", longName, "a\u0301", "A\u0001B", sixteen + "AB", sixteen + "B", longName[:256], longName + "!", longName[:255] + "Z"}

const sixteen = "SIXTEEN_BYTES_OR"

var edgeLangs = []uint16{0, 1, 0x400, 0x409, 0x40c, 0x7FFF, 0x8000, 0xFFFF}

func edgeIdents() []ref.Ident {
	var out []ref.Ident
	for _, n := range edgeIDs {
		out = append(out, id(n))
	}
	for _, s := range edgeNames {
		out = append(out, name(s))
	}
	return out
}

var edgeTypes = append([]ref.Ident{id(10), id(3), id(14), id(1), id(12), id(16), id(24), id(6), id(256), id(0xFFFF)}, name("A"), name("a"), name("RT"), name("10"), name(longName), name("\U0001D11E"))

func devKey(r *mc.Run, ids []ref.Ident) ref.Key {
	t := edgeTypes[r.Dev(len(edgeTypes))]
	n := ids[r.Dev(len(ids))]
	l := edgeLangs[r.Dev(len(edgeLangs))]
	return key(t, n, l)
}

var edgeIdentList = edgeIdents()

func c01Edge(r *mc.Run) {
	k1, k2 := devKey(r, edgeIdentList), devKey(r, edgeIdentList)
	rs := &winres.ResourceSet{}
	m := model{}
	d1, d2, d3 := []byte("first"), []byte("second!"), []byte("3")
	set := func(k ref.Key, d []byte) {
		r.Step()
		r.Logf("Set(%v, %q)", k, d)
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
		m.set(k, d)
	}
	obs := r.Dev(4)
	set(k1, d1)
	if obs > 0 {
		observe(rs, obs-1)
	}
	set(k2, d2)
	universe := []ref.Key{k1, k2, key(id(10), id(1), 0), key(k1.Type, k2.Res, uint16(k1.Lang)), key(k2.Type, k1.Res, uint16(k2.Lang)), key(k1.Type, k1.Res, uint16(k2.Lang))}
	switch r.Dev(4) {
	case 0:
	case 1:
		set(k1, nil)
	case 2:
		set(k1, d3)
	case 3:
		set(k1, nil)
		set(k1, d3)
	}
	r.StateStr(m.dump())
	final(r, rs, m, universe, 0)
}

func c01Invalid(r *mc.Run) {
	bad := []winres.Identifier{winres.ID(7), winres.ID(0), winres.Name(""), winres.Name("\x00"), winres.Name("a\x00"), winres.Name("\x00a"), winres.Name("a\x00b"), winres.Name(longName + "\x00"), winres.Name("ok")}
	t := bad[r.Pick(len(bad))]
	n := bad[r.Pick(len(bad))]
	lang := edgeLangs[r.Pick(len(edgeLangs))]
	kind := r.Pick(3)
	datas := [][]byte{{1, 2}, {}, nil}
	rs := &winres.ResourceSet{}
	m := model{}
	if r.Bool() {
		k := key(id(10), id(1), 0)
		rs.Set(winres.ID(10), winres.ID(1), 0, []byte{9})
		m[k] = []byte{9}
		k = key(id(7), id(7), lang)
		rs.Set(winres.ID(7), winres.ID(7), lang, []byte{8})
		m[k] = []byte{8}
	}
	isBad := func(i winres.Identifier) bool {
		switch v := i.(type) {
		case winres.ID:
			return v == 0
		case winres.Name:
			return v == "" || bytes.IndexByte([]byte(v), 0) >= 0
		}
		return true
	}
	r.Step()
	r.Logf("Set(%v, %v, %d, %v)", t, n, lang, datas[kind])
	err := rs.Set(t, n, lang, datas[kind])
	if isBad(t) || isBad(n) {
		if err == nil {
			r.Failf("Set(%v, %v) accepted an invalid identifier", t, n)
		}
	} else {
		if err != nil {
			r.Failf("Set(%v, %v) failed: %v", t, n, err)
		}
		m.set(ref.Key{Type: rid(t), Res: rid(n), Lang: uint32(lang)}, datas[kind])
	}
	r.StateStr(m.dump() + fmt.Sprint(err))
	final(r, rs, m, []ref.Key{{Type: rid(t), Res: rid(n), Lang: uint32(lang)}}, 0)
}

// c01Volume: many resources, in several insertion orders, with holes punched.
func c01Volume(r *mc.Run) {
	sizes := []int{0, 1, 2, 3, 5, 8, 9, 12, 13, 16, 17, 20, 33, 64, 65, 128, 255, 256, 257, 300}
	if r.Thorough {
		sizes = append(sizes, 511, 512, 513, 1000, 1025, 2048, 5000)
	}
	n := sizes[r.Pick(len(sizes))]
	axis := r.Pick(4) // which component varies
	order := r.Pick(3)
	hole := r.Pick(4)
	obs := r.Pick(2)
	mk := func(i int) ref.Key {
		switch axis {
		case 0:
			return key(id(uint16(1+i*37)), id(1), 0)
		case 1:
			return key(id(10), id(uint16(1+i*13)), 0x409)
		case 2:
			return key(id(10), id(1), uint16(i*29))
		default:
			return key(name(fmt.Sprintf("T%d", i%7)), name(fmt.Sprintf("N%d", i)), uint16(i%3))
		}
	}
	rs := &winres.ResourceSet{}
	m := model{}
	var universe []ref.Key
	r.Logf("%d resources, axis %d, order %d, hole %d, observe %d", n, axis, order, hole, obs)
	for j := 0; j < n; j++ {
		i := j
		switch order {
		case 1:
			i = n - 1 - j
		case 2:
			i = (j * 7919) % n
			if n%7919 == 0 {
				i = j
			}
		}
		k := mk(i)
		d := []byte{byte(i), byte(i >> 8), byte(axis)}
		must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), d), "Set")
		m.set(k, d)
		universe = append(universe, k)
		r.Step()
	}
	if obs == 1 {
		observe(rs, 0)
	}
	for i := 0; i < n; i++ {
		del := false
		switch hole {
		case 1:
			del = i%2 == 0
		case 2:
			del = i < n-1
		case 3:
			del = true
		}
		if del {
			k := mk(i)
			must(r, rs.Set(wid(k.Type), wid(k.Res), uint16(k.Lang), nil), "Set(nil)")
			m.set(k, nil)
			r.Step()
		}
	}
	r.StateStr(m.digest())
	final(r, rs, m, universe, r.Pick(3))
}

// c01Many: more resources than 16 bits can count.
func c01Many(r *mc.Run) {
	axis := r.Pick(3)
	dims := [][3]int{{2, 32768, 2}, {1, 2, 65536}, {65535, 1, 2}}[axis]
	types, res, langs := dims[0], dims[1], dims[2]
	rs := &winres.ResourceSet{}
	n := 0
	d := []byte{1}
	for t := 1; t <= types; t++ {
		for i := 1; i <= res; i++ {
			for l := 0; l < langs; l++ {
				must(r, rs.Set(winres.ID(t), winres.ID(i), uint16(l), d), "Set")
				n++
			}
		}
	}
	r.Step()
	if c := rs.Count(); c != n {
		r.Failf("%d resources set, Count is %d", n, c)
	}
	k := 0
	rs.Walk(func(t, i winres.Identifier, l uint16, x []byte) bool {
		wt, wi, wl := k/(res*langs)+1, k/langs%res+1, k%langs
		if t != winres.ID(wt) || i != winres.ID(wi) || int(l) != wl || !bytes.Equal(x, d) {
			r.Failf("resource %d is %v %v %d, want %d %d %d", k, t, i, l, wt, wi, wl)
		}
		k++
		return true
	})
	if k != n {
		r.Failf("%d resources set, Walk finds %d", n, k)
	}
	for t := 1; t <= types; t += types/2 + 1 {
		for i := 1; i <= res; i++ {
			must(r, rs.Set(winres.ID(t), winres.ID(i), 0, nil), "Set")
			n--
		}
	}
	if c := rs.Count(); c != n {
		r.Failf("Count is %d after deletions, want %d", c, n)
	}
	r.StateStr(fmt.Sprint(axis))
}
