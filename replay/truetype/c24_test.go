package truetype

import (
	"fmt"
	"image"
	"strings"
	"testing"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func TestVerifC24(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(3000) && h.more(); i++ {
		var f *Font
		var fb []byte
		n := h.between(1, 8)
		if h.rng.Intn(10) == 0 {
			fb = h.luxi()
			n = 20
		} else {
			vf, b := h.drawnFont(n)
			fb = b
			if h.rng.Intn(3) == 0 {
				vf.bounds = [4]int{h.between(-100, 0), h.between(-100, 0), h.between(0, 600), h.between(0, 600)}
				fb = vf.build()
			}
			if h.rng.Intn(3) == 0 { // a glyph that cannot be loaded
				if g := vf.glyphs[h.rng.Intn(n)]; len(g) > 10 {
					copy(g[10:], []byte{0xff, 0xff}) // the first contour's end
				}
				fb = vf.build()
			}
			if h.rng.Intn(3) == 0 {
				vf.tables["kern"] = append(ws(0, 1, 0, 14+6, 1, 1, 0, 0, 0), ws(h.rng.Intn(n), h.rng.Intn(n), h.between(-300, 300))...)
				fb = vf.build()
			}
		}
		f, err := Parse(fb)
		if err != nil {
			t.Fatal(err)
		}
		v := h.options()
		if h.rng.Intn(2) == 0 && v.o != nil {
			v.o.GlyphCacheEntries = h.pick(1, 2, 4, 8)
			v.entries = v.o.GlyphCacheEntries
		}
		a := NewFace(f, v.o)
		bb := f.Bounds(v.scale())
		hPix := (-int(bb.Min.Y-63) >> 6) - (-int(bb.Max.Y) >> 6) + 1
		if hPix < 0 {
			hPix = 0
		}
		var hist []string
		type slot struct {
			m  *image.Alpha
			at image.Rectangle
			px []byte
		}
		slots := map[int]slot{}
		pix := func(m *image.Alpha, at image.Rectangle) []byte {
			var b []byte
			for y := at.Min.Y; y < at.Max.Y; y++ {
				for x := at.Min.X; x < at.Max.X; x++ {
					b = append(b, m.AlphaAt(x, y).A)
				}
			}
			return b
		}
		desc := func() string {
			return fmt.Sprintf("face with options %+v, requests %s, font %s", v.o, strings.Join(hist, "; "), vhex(fb))
		}
		for k := 0; k < 20; k++ {
			r := rune('a' + h.rng.Intn(n+1))
			switch h.rng.Intn(12) {
			case 0:
				r += rune(256 * h.between(1, 3))
			case 2, 3:
				r += rune(1) << uint(h.between(8, 20))
			case 1:
				r = rune(h.rng.Intn(0x10ffff))
			}
			var g GlyphBuf
			lerr := g.Load(f, v.scale(), f.Index(r), v.hint)
			switch h.rng.Intn(6) {
			case 0:
				r1 := rune('a' + h.rng.Intn(n))
				hist = append(hist, fmt.Sprintf("Kern %q %q", r, r1))
				h.Case(desc, func() (uint64, error) {
					w := f.Kern(v.scale(), f.Index(r), f.Index(r1))
					if v.hint != font.HintingNone {
						w = (w + 32) &^ 63
					}
					if got := a.Kern(r, r1); got != w {
						return 0, fmt.Errorf("kern %d, not %d", got, w)
					}
					return 0, nil
				})
			case 1:
				hist = append(hist, fmt.Sprintf("GlyphBounds %q", r))
				h.Case(desc, func() (uint64, error) {
					b, adv, ok := a.GlyphBounds(r)
					if ok && lerr != nil {
						return 0, fmt.Errorf("ok for a glyph that gives %v", lerr)
					}
					if ok && (adv != g.AdvanceWidth || b.Min.X != g.Bounds.Min.X || b.Max.X != g.Bounds.Max.X || b.Min.Y != -g.Bounds.Max.Y || b.Max.Y != -g.Bounds.Min.Y) {
						return 0, fmt.Errorf("bounds %v, advance %d, not %v (Y down), %d", b, adv, g.Bounds, g.AdvanceWidth)
					}
					return 0, nil
				})
			case 2:
				hist = append(hist, fmt.Sprintf("GlyphAdvance %q", r))
				h.Case(desc, func() (uint64, error) {
					adv, ok := a.GlyphAdvance(r)
					if ok != (lerr == nil) || ok && adv != g.AdvanceWidth {
						return 0, fmt.Errorf("advance %d, %v, not %d, %v", adv, ok, g.AdvanceWidth, lerr)
					}
					return 0, nil
				})
			default:
				dot := fixed.Point26_6{X: fixed.Int26_6(h.between(-100, 200)), Y: fixed.Int26_6(h.between(-100, 200))}
				hist = append(hist, fmt.Sprintf("Glyph %q at %v", r, dot))
				h.Case(desc, func() (uint64, error) {
					dr, mask, mp, adv, ok := a.Glyph(dot, r)
					if ok && lerr != nil {
						return 0, fmt.Errorf("ok for a glyph that gives %v", lerr)
					}
					if !ok {
						return 0, nil
					}
					m := mask.(*image.Alpha)
					if adv != g.AdvanceWidth {
						return 0, fmt.Errorf("advance %d, not %d", adv, g.AdvanceWidth)
					}
					if err := sameMask(m, dr, mp, &g, quantize(dot.X, v.sx), quantize(dot.Y, v.sy), m.Rect.Dx(), hPix); err != nil {
						return 0, err
					}
					at := image.Rectangle{mp, mp.Add(dr.Size())}
					if !at.Empty() && !at.In(m.Rect) {
						return 0, fmt.Errorf("the mask is at %v of the image %v", at, m.Rect)
					}
					for y, s := range slots {
						if y != mp.Y && s.at.Overlaps(at) {
							return 0, fmt.Errorf("the mask is at %v, another at %v", at, s.at)
						}
						if y != mp.Y && string(pix(s.m, s.at)) != string(s.px) {
							return 0, fmt.Errorf("the mask at %v, of an earlier request, has changed", s.at)
						}
					}
					slots[mp.Y] = slot{m, at, pix(m, at)}
					if len(g.Points) == 0 || k < 2 {
						return 0, nil
					}
					return hashOf(hist, g.Points), nil
				})
			}
		}
	}
}
