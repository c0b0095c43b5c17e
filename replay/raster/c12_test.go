package raster

import (
	"fmt"
	"testing"
)

func TestVerifC12(t *testing.T) {
	h := newVH(t)
	defer h.done()
	const full = 64 * 64 * 2
	for _, nonzero := range []bool{false, true} {
		r := NewRasterizer(1, 1)
		r.UseNonZeroWinding = nonzero
		f := func(a int) int { return int(r.areaToAlpha(a)) }
		check := func(a int) {
			h.Case(func() string { return fmt.Sprintf("areaToAlpha(%d) with nonzero winding %v", a, nonzero) }, func() (uint64, error) {
				v := f(a)
				if v < 0 || v > 0xffff {
					return 0, fmt.Errorf("alpha %#x out of range", v)
				}
				if d := v - f(-a); d < -0x11 || d > 0x11 {
					return 0, fmt.Errorf("alpha %#x, but %#x for the opposite orientation", v, f(-a))
				}
				b := a
				if b < 0 {
					b = -b
				}
				frac := b // the covered part of full
				if nonzero {
					if frac > full {
						frac = full
					}
				} else {
					frac %= 2 * full
					if frac > full {
						frac = 2*full - frac
					}
				}
				switch {
				case a%(2*full) == 0 && !nonzero || a == 0:
					if v != 0 {
						return 0, fmt.Errorf("alpha %#x for no coverage", v)
					}
				case frac == full:
					if v != 0xffff {
						return 0, fmt.Errorf("alpha %#x for full coverage", v)
					}
				}
				// proportional, to the 12 bits of precision
				if d := v - frac*0xffff/full; d < -33 || d > 33 {
					return 0, fmt.Errorf("alpha %#x for %d/%d coverage", v, frac, full)
				}
				if nonzero {
					if a >= 0 && f(a+1) < v || a <= 0 && f(a-1) < v {
						return 0, fmt.Errorf("not monotone: alpha %#x", v)
					}
				} else if a >= 0 && f(a+2*full) != v {
					return 0, fmt.Errorf("alpha %#x, but %#x for twice full coverage more", v, f(a+2*full))
				}
				if a == 0 {
					return 0, nil
				}
				return hashOf(a, nonzero), nil
			})
		}
		for a := -5 * full; a <= 5*full; a++ {
			check(a)
		}
		for i := 0; i < h.n(20000); i++ {
			check(h.rng.Intn(1<<30) - 1<<29)
			check(h.rng.Intn(2000)*full + h.between(-3, 3))
			check(-h.rng.Intn(2000)*full + h.between(-3, 3))
		}
	}
}
