package freetype

import (
	"fmt"
	"image"
	"image/draw"
	"strings"
	"testing"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/math/fixed"
)

func TestVerifC23(t *testing.T) {
	h := newVH(t)
	defer h.done()
	const size = 64
	for i := 0; i < h.n(400) && h.more(); i++ {
		var fs []*truetype.Font
		var fb [][]byte
		n := h.between(1, 8)
		many := h.rng.Intn(4) == 0
		if many {
			n = 520
		}
		if i%150 == 20 { // indexes of all sizes
			many, n = true, 33200
		}
		for k := 0; k < 2; k++ {
			_, b := h.drawnFont(n)
			f, err := truetype.Parse(b)
			if err != nil {
				t.Fatal(err)
			}
			fs, fb = append(fs, f), append(fb, b)
		}
		c := NewContext()
		dst := image.NewRGBA(image.Rect(0, 0, size, size))
		drawn := func(c *Context, r rune, p fixed.Point26_6) (string, fixed.Point26_6, error) {
			for k := range dst.Pix {
				dst.Pix[k] = 0
			}
			c.SetDst(dst)
			c.SetClip(dst.Rect)
			c.SetSrc(image.Opaque)
			q, err := c.DrawString(string(r), p)
			return string(dst.Pix), q, err
		}
		var hist []string
		fresh := func(v vSettings) *Context {
			c := NewContext()
			c.SetFont(v.f)
			c.SetFontSize(v.size)
			c.SetDPI(v.dpi)
			c.SetHinting(v.hint)
			return c
		}
		desc := func() string {
			if many {
				return fmt.Sprintf("%s, fonts A and B of %d glyphs", strings.Join(hist, "; "), n)
			}
			return fmt.Sprintf("%s, fonts A %s and B %s", strings.Join(hist, "; "), vhex(fb[0]), vhex(fb[1]))
		}
		v := vSettings{nil, 12, 72, 0}
		var seen []fixed.Point26_6
		keep := func(same bool) {
			if !same {
				seen = nil
			}
		}
		for k := 0; k < 30; k++ {
			w := h.settings(fs...)
			if v.f == nil {
				v.f = w.f
				c.SetFont(w.f)
				hist = append(hist, fmt.Sprintf("SetFont B %v", w.f == fs[1]))
				continue
			}
			switch h.rng.Intn(14) {
			case 0:
				keep(v.f == w.f)
				v.f = w.f
				c.SetFont(w.f)
				hist = append(hist, fmt.Sprintf("SetFont B %v", w.f == fs[1]))
				continue
			case 1:
				keep(v.size == w.size)
				v.size = w.size
				c.SetFontSize(w.size)
				hist = append(hist, fmt.Sprintf("SetFontSize %v", w.size))
				continue
			case 2:
				keep(v.dpi == w.dpi)
				v.dpi = w.dpi
				c.SetDPI(w.dpi)
				hist = append(hist, fmt.Sprintf("SetDPI %v", w.dpi))
				continue
			case 3:
				keep(v.hint == w.hint)
				v.hint = w.hint
				c.SetHinting(w.hint)
				hist = append(hist, fmt.Sprintf("SetHinting %v", w.hint))
				continue
			}
			r := rune('a' + h.rng.Intn(n+1))
			if many {
				r = rune('a' + h.rng.Intn(4) + h.pick(0, 256))
				if n > 32768 {
					r = rune('a' + h.rng.Intn(2) + h.pick(0, 256, 4096, 8192, 16384, 32768))
				}
			}
			p := fixed.Point26_6{X: fixed.Int26_6(h.between(-64, 40*64)), Y: fixed.Int26_6(h.between(10*64, 60*64))}
			seen = append(seen, p)
			hist = append(hist, fmt.Sprintf("DrawString %q at %v", r, p))
			h.Case(desc, func() (uint64, error) {
				pix, q, err := drawn(c, r, p)
				for j := len(seen) - 1; j >= 0; j-- {
					s := seen[j]
					if s.X&63/16 != p.X&63/16 {
						continue
					}
					s = fixed.Point26_6{X: p.X&^63 + s.X&63, Y: p.Y&^63 + s.Y&63}
					pix1, q1, err1 := drawn(fresh(v), r, s)
					if (err == nil) != (err1 == nil) {
						return 0, fmt.Errorf("error %v, in a new context %v", err, err1)
					}
					if err != nil {
						return 0, nil
					}
					if q.X-p.X != q1.X-s.X || q.Y != p.Y {
						return 0, fmt.Errorf("drawn to %v, in a new context from %v to %v", q, s, q1)
					}
					if pix == pix1 {
						g, fx, fy := &truetype.GlyphBuf{}, int(s.X&63), int(s.Y&63)
						if err := g.Load(v.f, v.scale(), v.f.Index(r), v.hint); err != nil {
							return 0, err
						}
						m, ref := refMask(rasterFor(v.f, v.scale()), g, fx, fy), image.NewRGBA(dst.Rect)
						o := boxOf(g, fx, fy).Min.Add(image.Point{int(s.X >> 6), int(s.Y >> 6)})
						draw.DrawMask(ref, m.Rect.Add(o), image.Opaque, image.Point{}, m, image.Point{}, draw.Over)
						if string(ref.Pix) != pix {
							return 0, fmt.Errorf("the pixels are not those of the glyph rasterized at %v", s)
						}
						if k < 2 || strings.Count(pix, "\x00") == len(pix) {
							return 0, nil
						}
						return hashOf(hist, pix), nil
					}
				}
				return 0, fmt.Errorf("the pixels are not those of the glyph drawn in a new context with the same settings, at any position used so far of this quarter of a pixel")
			})
		}
	}
}
