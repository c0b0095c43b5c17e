package truetype

import (
	"fmt"
	"sort"
	"testing"

	"golang.org/x/image/math/fixed"
)

func TestVerifC04(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(4000) && h.more(); i++ {
		n := h.between(1, 8)
		f := h.newFont(n)
		if h.rng.Intn(3) > 0 {
			f.tables["vmtx"] = h.bytes(h.pick(4*n, 4*n, 4*n-1, 4, 3, 7, 0))
		}
		if h.rng.Intn(3) > 0 {
			f.tables["OS/2"] = h.bytes(h.pick(68, 70, 71, 72, 73, 96))
		}
		type pair struct{ g, v int }
		var pairs []pair
		seen := map[int]bool{}
		for k := h.rng.Intn(10); k > 0; k-- {
			g := h.pick(h.rng.Intn(8), h.word())<<16 | h.pick(h.rng.Intn(8), h.word())
			if !seen[g] {
				seen[g] = true
				pairs = append(pairs, pair{g, int(int16(h.word()))})
			}
		}
		sort.Slice(pairs, func(a, b int) bool { return pairs[a].g < pairs[b].g })
		kern := ws(0, 1, 0, 14+6*len(pairs), 1, len(pairs), 0, 0, 0)
		for _, p := range pairs {
			kern = append(kern, ws(p.g>>16, p.g&0xffff, p.v)...)
		}
		f.tables["kern"] = kern
		b := f.build()
		ft, err := Parse(b)
		if err != nil {
			h.Case(func() string { return "Parse of " + vhex(b) }, func() (uint64, error) { return 0, err })
		}
		for k := 0; k < 5; k++ {
			sc := h.pick(0, 1, -1, 63, 64, 640, -640, 768, f.upem, f.upem/2, 2*f.upem, 32767, 65536, h.rng.Intn(1<<16), h.rng.Intn(1<<20))
			h.Case(func() string { return fmt.Sprintf("metrics at scale %d of the font %s", sc, vhex(b)) }, func() (uint64, error) {
				check := func(what string, got fixed.Int26_6, v int) error {
					want, ok := nearest(v, sc, f.upem)
					if ok && int(got) != want {
						return fmt.Errorf("%s is %d, want %d: %d * %d / %d", what, got, want, v, sc, f.upem)
					}
					return nil
				}
				r := func(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }
				s := func(b []byte, i int) int { return int(int16(r(b, i))) }
				bb := ft.Bounds(fixed.Int26_6(sc))
				for j, g := range []fixed.Int26_6{bb.Min.X, bb.Min.Y, bb.Max.X, bb.Max.Y} {
					if err := check(fmt.Sprintf("bound %d", j), g, f.bounds[j]); err != nil {
						return 0, err
					}
				}
				for g := 0; g < n; g++ {
					hm, vm := ft.HMetric(fixed.Int26_6(sc), Index(g)), ft.VMetric(fixed.Int26_6(sc), Index(g))
					ht := f.tables["hmtx"]
					a, l := 0, 0
					if g < f.nHMetric {
						a, l = r(ht, 4*g), s(ht, 4*g+2)
					} else {
						a, l = r(ht, 4*f.nHMetric-4), s(ht, 4*f.nHMetric+2*(g-f.nHMetric))
					}
					va, vt := f.upem, 0
					if vx := f.tables["vmtx"]; 4*g+4 <= len(vx) {
						va, vt = r(vx, 4*g), s(vx, 4*g+2)
					} else if o := f.tables["OS/2"]; len(o) >= 72 {
						va, vt = s(o, 68)-s(o, 70), s(o, 68)
					}
					for _, c := range []struct {
						what string
						got  fixed.Int26_6
						v    int
					}{{"advance width", hm.AdvanceWidth, a}, {"left side bearing", hm.LeftSideBearing, l}, {"advance height", vm.AdvanceHeight, va}, {"top side bearing", vm.TopSideBearing, vt}} {
						if err := check(fmt.Sprintf("%s of glyph %d", c.what, g), c.got, c.v); err != nil {
							return 0, err
						}
					}
				}
				for _, p := range pairs {
					for d := -1; d <= 1; d++ {
						g, v := (p.g+d)&0xffffffff, 0
						for _, q := range pairs {
							if q.g == g {
								v = q.v
							}
						}
						if err := check(fmt.Sprintf("kern of pair %#x", g), ft.Kern(fixed.Int26_6(sc), Index(g>>16), Index(g&0xffff)), v); err != nil {
							return 0, err
						}
					}
				}
				if sc == 0 {
					return 0, nil
				}
				return hashOf(sc, b), nil
			})
		}
	}
}
