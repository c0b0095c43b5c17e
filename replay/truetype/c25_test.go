package truetype

import (
	"fmt"
	"image"
	"testing"

	"golang.org/x/image/math/fixed"
)

func TestVerifC25(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(1500) && h.more(); i++ {
		_, fb := h.drawnFont(3)
		f, err := Parse(fb)
		if err != nil {
			t.Fatal(err)
		}
		v := h.options()
		dots := make([]fixed.Point26_6, 6)
		for k := range dots {
			dots[k] = fixed.Point26_6{X: fixed.Int26_6(h.between(-300, 300)), Y: fixed.Int26_6(h.between(-300, 300))}
		}
		desc := func() string {
			return fmt.Sprintf("NewFace with options %+v, glyphs at %v, font %s", v.o, dots, vhex(fb))
		}
		h.Case(desc, func() (uint64, error) {
			a := NewFace(f, v.o)
			if got := a.Metrics().Height; got != v.scale() {
				return 0, fmt.Errorf("the scale is %d, not %d", got, v.scale())
			}
			for _, x := range []struct {
				name string
				got  fixed.Int26_6
				v    int32
			}{{"ascent", a.Metrics().Ascent, int32(int16(u16(f.hhea, 4)))}, {"descent", a.Metrics().Descent, -int32(int16(u16(f.hhea, 6)))}} {
				upm, p := int64(u16(f.head, 18)), int64(v.scale())*int64(x.v)
				want := p / upm
				if p > 0 && p%upm != 0 {
					want++
				}
				if want == int64(int32(want)) && int64(x.got) != want {
					return 0, fmt.Errorf("the %s of %d is %d at scale %d, not %d", x.name, x.v, x.got, v.scale(), want)
				}
			}
			bb := f.Bounds(v.scale())
			hPix := (-int(bb.Min.Y-63) >> 6) - (-int(bb.Max.Y) >> 6) + 1
			// the number of distinct slots is that of the cache entries
			for k, dot := range dots {
				r := rune('a' + k%3)
				dr, mask, maskp, adv, ok := a.Glyph(dot, r)
				if !ok {
					return 0, fmt.Errorf("no glyph for %q", r)
				}
				m := mask.(*image.Alpha)
				if m.Rect.Dy() != hPix*v.entries {
					return 0, fmt.Errorf("the mask image is %v for %d entries of %d pixels", m.Rect, v.entries, hPix)
				}
				var g GlyphBuf
				if err := g.Load(f, v.scale(), f.Index(r), v.hint); err != nil {
					return 0, err
				}
				if adv != g.AdvanceWidth {
					return 0, fmt.Errorf("advance %d of %q, not %d", adv, r, g.AdvanceWidth)
				}
				qx, qy := quantize(dot.X, v.sx), quantize(dot.Y, v.sy)
				wx, wy := (qx+int(g.Bounds.Min.X))>>6, (qy-int(g.Bounds.Max.Y))>>6
				if dr.Min.X != wx || dr.Min.Y != wy {
					return 0, fmt.Errorf("%q at %v is drawn at %v, not (%d, %d)", r, dot, dr.Min, wx, wy)
				}
				if err := sameMask(m, dr, maskp, &g, qx, qy, m.Rect.Dx(), hPix); err != nil {
					return 0, fmt.Errorf("%q at %v: %v", r, dot, err)
				}
			}
			return hashOf(v.o, dots), nil
		})
	}
}
