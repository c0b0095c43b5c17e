package raster

import (
	"fmt"
	"image"

	"testing"
)

func TestVerifC15(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(40000) && h.more(); i++ {
		m := image.NewAlpha(h.rect())
		h.rng.Read(m.Pix)
		for k := range m.Pix {
			if h.rng.Intn(4) == 0 {
				m.Pix[k] = byte(h.pick(0, 255, 1, 254, 128))
			}
		}
		old := append([]byte(nil), m.Pix...)
		sub := m.SubImage(h.within(m.Rect)).(*image.Alpha)
		over := h.rng.Intn(2) == 0
		b := sub.Rect
		if b.Empty() {
			b = image.Rect(0, 0, 8, 8)
		}
		ss := h.spans(b, h.rng.Intn(3) == 0)
		h.Case(func() string {
			return fmt.Sprintf("over %v: alpha image %v, part %v, spans %v", over, m.Rect, sub.Rect, ss)
		}, func() (uint64, error) {
			want := append([]byte(nil), old...)
			n := 0
			for _, s := range ss {
				if s.Y < sub.Rect.Min.Y || s.Y >= sub.Rect.Max.Y {
					continue
				}
				for x := vmax(s.X0, sub.Rect.Min.X); x < vmin(s.X1, sub.Rect.Max.X); x++ {
					o := m.PixOffset(x, s.Y)
					a, v := int(s.Alpha>>8), int(want[o])
					if over {
						// Porter-Duff over, rounded down
						want[o] = byte((255*v + (255-v)*a) / 255)
					} else {
						want[o] = byte(a)
					}
					n++
				}
			}
			in := append([]Span(nil), ss...)
			if over {
				NewAlphaOverPainter(sub).Paint(in, true)
			} else {
				NewAlphaSrcPainter(sub).Paint(in, true)
			}
			for o := range want {
				if m.Pix[o] != want[o] {
					x, y := m.Rect.Min.X+o%m.Stride, m.Rect.Min.Y+o/m.Stride
					return 0, fmt.Errorf("pixel (%d, %d) was %d, is %d, should be %d", x, y, old[o], m.Pix[o], want[o])
				}
			}
			if n == 0 {
				return 0, nil
			}
			return hashOf(over, m.Rect, sub.Rect, ss), nil
		})
	}
}
