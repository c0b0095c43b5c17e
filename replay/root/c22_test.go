package freetype

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"strings"
	"testing"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(3000) && h.more(); i++ {
		n := h.between(1, 8)
		vf, fb := h.drawnFont(n)
		if h.rng.Intn(2) == 0 {
			var b []byte
			m := 0
			for l := 0; l < n; l++ {
				for r := 0; r < n; r++ {
					if h.rng.Intn(3) == 0 {
						b = append(b, ws(l, r, h.between(-300, 300))...)
						m++
					}
				}
			}
			vf.tables["kern"] = append(ws(0, 1, 0, 14+6*m, 1, m, 0, 0, 0), b...)
			fb = vf.build()
		}
		f, err := truetype.Parse(fb)
		if err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 4; k++ {
			v := h.settings(f)
			// distinct characters, so that no glyph comes from the cache
			var s []rune
			for _, g := range h.rng.Perm(n)[:h.between(0, n)] {
				if g == 0 && h.rng.Intn(2) == 0 {
					g = n // which maps to glyph 0 too
				}
				s = append(s, rune('a'+g))
			}
			if len(s) > 5 {
				s = s[:5]
			}
			str := string(s)
			if h.rng.Intn(10) == 0 && f.Index('a') == 0 && !strings.ContainsAny(str, "a"+string(rune('a'+n))) {
				str += "\xff"
				s = append(s, 0xfffd)
			}
			p := fixed.Point26_6{X: fixed.Int26_6(h.between(-20*64, 40*64)), Y: fixed.Int26_6(h.between(-10*64, 60*64))}
			if h.rng.Intn(3) == 0 {
				p.X, p.Y = fixed.Int26_6(h.between(0, 20*64)), fixed.Int26_6(h.between(15*64, 30*64))
			}
			bounds := image.Rect(h.between(-10, 10), h.between(-10, 10), 50, 40)
			clip := image.Rect(h.between(-20, 60), h.between(-20, 50), h.between(-20, 60), h.between(-20, 50))
			switch h.rng.Intn(6) {
			case 0:
				clip = bounds
			case 1:
				clip.Min.X, clip.Max.X = clip.Max.X, clip.Min.X
			case 2:
				clip = image.Rect(-1<<40, -1<<40, 1<<40, 1<<40)
			}
			src := image.NewUniform(color.RGBA{uint8(h.rng.Intn(100)), 99, 0, uint8(h.between(100, 255))})
			seed := h.bytes(4 * bounds.Dx() * bounds.Dy())
			desc := func() string {
				return fmt.Sprintf("DrawString %q at %v, clip %v, image %v, size %v, resolution %v, hinting %v, font %s", str, p, clip, bounds, v.size, v.dpi, v.hint, vhex(fb))
			}
			h.Case(desc, func() (uint64, error) {
				dst, want := image.NewRGBA(bounds), image.NewRGBA(bounds)
				copy(dst.Pix, seed)
				copy(want.Pix, seed)
				for j := range want.Pix {
					if j%4 != 3 && want.Pix[j] > want.Pix[j|3] {
						want.Pix[j] = want.Pix[j|3]
					}
				}
				copy(dst.Pix, want.Pix)
				c := NewContext()
				c.SetFont(v.f)
				c.SetFontSize(v.size)
				c.SetDPI(v.dpi)
				c.SetHinting(v.hint)
				c.SetDst(dst)
				c.SetSrc(src)
				c.SetClip(clip)
				q, err := c.DrawString(str, p)
				// each glyph on its own
				r := rasterFor(f, v.scale())
				at, prev := p, truetype.Index(0)
				touched := false
				for j, x := range s {
					g := &truetype.GlyphBuf{}
					index := f.Index(x)
					if e := g.Load(f, v.scale(), index, v.hint); e != nil {
						if err == nil {
							return 0, fmt.Errorf("no error, but the glyph %d gives %v", index, e)
						}
						return 0, nil
					}
					if j > 0 {
						kern := f.Kern(v.scale(), prev, index)
						if v.hint != font.HintingNone {
							kern = (kern + 32) &^ 63
						}
						at.X += kern
					}
					prev = index
					fx, fy := int(at.X&63), int(at.Y&63)
					m := refMask(r, g, fx, fy)
					o := boxOf(g, fx, fy).Min.Add(image.Point{int(at.X >> 6), int(at.Y >> 6)})
					for y := 0; y < m.Rect.Max.Y; y++ {
						for x := 0; x < m.Rect.Max.X; x++ {
							d := o.Add(image.Point{x, y})
							if d.In(clip) && d.In(bounds) {
								draw.DrawMask(want, image.Rectangle{d, d.Add(image.Point{1, 1})}, src, image.Point{}, m, image.Point{x, y}, draw.Over)
								touched = touched || m.AlphaAt(x, y).A != 0
							}
						}
					}
					at.X += g.AdvanceWidth
				}
				if err != nil {
					return 0, fmt.Errorf("error %v", err)
				}
				if q != at {
					return 0, fmt.Errorf("the point after the text is %v, not %v", q, at)
				}
				for y := bounds.Min.Y; y < bounds.Max.Y; y++ {
					for x := bounds.Min.X; x < bounds.Max.X; x++ {
						if a, b := dst.RGBAAt(x, y), want.RGBAAt(x, y); a != b {
							return 0, fmt.Errorf("pixel (%d, %d) is %v, not %v", x, y, a, b)
						}
					}
				}
				if !touched {
					return 0, nil
				}
				return hashOf(str, p, clip, bounds), nil
			})
		}
	}
}
