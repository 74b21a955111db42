package checks

import (
	"fmt"
	"time"

	"github.com/tc-hib/winres/version"

	"verif/harness/mc"
	"verif/harness/ref"
)

// Version structures: conversions between the library's and the reference's.

const (
	ffDebug, ffPre, ffPatched, ffPrivate, ffSpecial = 1, 2, 4, 8, 0x20
	vftUnknown, vftApp, vftDLL                      = 0, 1, 2
)

// fixed copies the fixed part.
func setFixed(vi *version.Info, v *ref.Version, t time.Time) {
	vi.FileVersion, vi.ProductVersion = v.File, v.Product
	vi.Flags.Debug = v.Flags&ffDebug != 0
	vi.Flags.Prerelease = v.Flags&ffPre != 0
	vi.Flags.Patched = v.Flags&ffPatched != 0
	vi.Flags.PrivateBuild = v.Flags&ffPrivate != 0
	vi.Flags.SpecialBuild = v.Flags&ffSpecial != 0
	switch v.Type {
	case vftApp:
		vi.Type = version.App
	case vftDLL:
		vi.Type = version.DLL
	default:
		vi.Type = version.Unknown
	}
	vi.Timestamp = t
}

// makeInfo builds an Info with the same meaning.
func makeInfo(r *mc.Run, v *ref.Version) *version.Info {
	vi := &version.Info{}
	setFixed(vi, v, ref.TimeOf(v.Ticks))
	for _, l := range v.SortedLangs() {
		for k, s := range v.Langs[l] {
			must(r, vi.Set(l, k, s), fmt.Sprintf("Set(%#x, %q, %q)", l, k, s))
		}
	}
	return vi
}

// meaning reads an Info through its public interface.
func meaning(vi *version.Info) ref.Version {
	v := ref.Version{File: vi.FileVersion, Product: vi.ProductVersion, Langs: map[uint16]map[string]string{}}
	flag := func(b bool, f uint32) {
		if b {
			v.Flags |= f
		}
	}
	flag(vi.Flags.Debug, ffDebug)
	flag(vi.Flags.Prerelease, ffPre)
	flag(vi.Flags.Patched, ffPatched)
	flag(vi.Flags.PrivateBuild, ffPrivate)
	flag(vi.Flags.SpecialBuild, ffSpecial)
	switch vi.Type {
	case version.App:
		v.Type = vftApp
	case version.DLL:
		v.Type = vftDLL
	}
	v.Ticks, _ = ref.TicksOf(vi.Timestamp)
	for l, st := range vi.Table() {
		m := map[string]string{}
		if st != nil {
			for k, s := range *st {
				m[k] = s
			}
		}
		v.Langs[l] = m
	}
	return v
}

// sameVersion compares two meanings; a time stamp may be rounded either way by less than 100 ns.
func sameVersion(r *mc.Run, what string, got, want ref.Version) {
	if a, b := got.String(), want.String(); a != b {
		r.Failf("%s: %s, want %s", what, a, b)
	}
}

// encode checks Bytes and returns its result.
func encodeInfo(r *mc.Run, vi *version.Info, want ref.Version, what string) []byte {
	r.Step()
	b := vi.Bytes()
	got, err := ref.ParseVersion(b)
	if err != nil {
		r.Failf("%s: Bytes() is invalid: %v (%d bytes)", what, err, len(b))
	}
	sameVersion(r, what+": Bytes()", got, want)
	return b
}
