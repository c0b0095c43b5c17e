package freetype

import (
	"fmt"
	"testing"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/math/fixed"
)

type vspans []raster.Span

func (s *vspans) Paint(ss []raster.Span, done bool) { *s = append(*s, ss...) }

func TestVerifC21(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(20000) && h.more(); i++ {
		n := h.between(0, 9)
		all := h.rng.Intn(4)
		var ps []truetype.Point
		for k := 0; k < n; k++ {
			p := truetype.Point{X: fixed.Int26_6(h.between(-20, 6400)), Y: fixed.Int26_6(h.between(-6400, 20)), Flags: uint32(h.rng.Intn(256))}
			if h.rng.Intn(30) == 0 {
				p.X, p.Y = fixed.Int26_6(h.between(-1<<15, 1<<15)), fixed.Int26_6(h.between(-1<<15, 1<<15))
			}
			switch all {
			case 0:
				p.Flags &^= 1
			case 1:
				p.Flags |= 1
			}
			ps = append(ps, p)
		}
		dx, dy := fixed.Int26_6(h.between(-70, 130)), fixed.Int26_6(h.between(-70, 130))
		twice := h.rng.Intn(4) == 0
		h.Case(func() string { return fmt.Sprintf("drawContour of %v at (%d, %d), twice %v", ps, dx, dy, twice) }, func() (uint64, error) {
			x := NewContext()
			x.r.SetBounds(100, 100)
			want := raster.NewRasterizer(100, 100)
			for k := 0; k < 2; k++ {
				x.drawContour(ps, dx, dy)
				refContour(want, ps, dx, dy)
				if !twice {
					break
				}
			}
			var a, b vspans
			x.r.Rasterize(&a)
			want.Rasterize(&b)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				return 0, fmt.Errorf("spans %v\nthe closed curve gives %v", a, b)
			}
			if len(a) < 4 {
				return 0, nil
			}
			return hashOf(ps, dx, dy), nil
		})
	}
}
