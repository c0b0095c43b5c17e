package raster

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"testing"
)

func TestVerifC16(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(30000) && h.more(); i++ {
		m := image.NewRGBA(h.rect())
		h.rng.Read(m.Pix)
		for k := range m.Pix {
			if h.rng.Intn(3) == 0 {
				m.Pix[k] = byte(h.pick(0, 255, 255, 1, 254, 128))
			}
		}
		old := append([]byte(nil), m.Pix...)
		sub := m.SubImage(h.within(m.Rect)).(*image.RGBA)
		op := draw.Over
		if h.rng.Intn(2) == 0 {
			op = draw.Src
		}
		a := h.pick(0, 0xffff, 0xffff, 0xfffe, 1, 0x8000, h.rng.Intn(0x10000))
		c := color.RGBA64{R: uint16(h.pick(0, a, h.rng.Intn(a+1))), G: uint16(h.pick(0, a, h.rng.Intn(a+1))), B: uint16(h.rng.Intn(a + 1)), A: uint16(a)}
		b := sub.Rect
		if b.Empty() {
			b = image.Rect(0, 0, 8, 8)
		}
		ss := h.spans(b, h.rng.Intn(3) == 0)
		h.Case(func() string {
			return fmt.Sprintf("operator %v, color %v: RGBA image %v, part %v, spans %v", op, c, m.Rect, sub.Rect, ss)
		}, func() (uint64, error) {
			want := append([]byte(nil), old...)
			src := [4]uint64{uint64(c.R), uint64(c.G), uint64(c.B), uint64(c.A)}
			n := 0
			for _, s := range ss {
				if s.Y < sub.Rect.Min.Y || s.Y >= sub.Rect.Max.Y {
					continue
				}
				for x := vmax(s.X0, sub.Rect.Min.X); x < vmin(s.X1, sub.Rect.Max.X); x++ {
					o := m.PixOffset(x, s.Y)
					ma := uint64(s.Alpha)
					for k := 0; k < 4; k++ {
						v := src[k] * ma
						if op == draw.Over {
							v += uint64(want[o+k]) * 0x101 * (0xffff - src[3]*ma/0xffff)
						}
						want[o+k] = byte(v / 0xffff >> 8)
					}
					n++
				}
			}
			p := NewRGBAPainter(sub)
			p.SetColor(c)
			p.Op = op
			p.Paint(append([]Span(nil), ss...), true)
			for o := range want {
				if m.Pix[o] != want[o] {
					x, y := m.Rect.Min.X+o%m.Stride/4, m.Rect.Min.Y+o/m.Stride
					return 0, fmt.Errorf("component %d of pixel (%d, %d) was %d, is %d, should be %d", o%4, x, y, old[o], m.Pix[o], want[o])
				}
			}
			if n == 0 {
				return 0, nil
			}
			return hashOf(op, c, m.Rect, sub.Rect, ss), nil
		})
	}
}
