package raster

import (
	"fmt"
	"image"
	"math"
	"testing"
)

func TestVerifC18(t *testing.T) {
	h := newVH(t)
	defer h.done()
	g := NewGammaCorrectionPainter(nil, 1)
	gammas := []float64{1, 0.5, 2, 2.2, 1 / 2.2, 0.1, 10, 0, 1.0001, 0.9999, 1e-9}
	for i := 0; i < h.n(20000) && h.more(); i++ {
		gamma := gammas[h.rng.Intn(len(gammas))]
		if h.rng.Intn(3) == 0 {
			gamma = h.rng.Float64() * 4
		}
		if h.rng.Intn(2) == 0 {
			g = NewGammaCorrectionPainter(nil, gamma)
		} else {
			g.SetGamma(gamma)
		}
		ss := h.spans(image.Rect(-5, -5, 20, 5), true)
		for k := range ss {
			ss[k].Alpha = uint32(h.pick(0, 1, 0x100, 0x101, 0x102, 0x7fff, 0x8000, 0xfefe, 0xfeff, 0xfffe, 0xffff, h.rng.Intn(0x10000), h.rng.Intn(256)*0x101))
		}
		if i < 300 {
			ss = ss[:0]
			for a := 0; a < 256; a++ {
				ss = append(ss, Span{a, a, a + 1, uint32(i%256*256 + a)})
			}
		}
		done := h.rng.Intn(2) == 0
		h.Case(func() string { return fmt.Sprintf("gamma %v, done %v, spans %v", gamma, done, ss) }, func() (uint64, error) {
			table := func(i uint32) uint32 {
				return uint32(uint16(0xffff * math.Pow(float64(i)/0xff, gamma)))
			}
			calls := 0
			var err error
			in := append([]Span(nil), ss...)
			g.Painter = PainterFunc(func(out []Span, d bool) {
				calls++
				if d != done || len(out) != len(ss) {
					err = fmt.Errorf("got %d spans and done %v", len(out), d)
					return
				}
				for i, o := range out {
					s := ss[i]
					want := s.Alpha
					if want != 0 && want != 0xffff && gamma != 1 {
						p, q := want/0x101, want%0x101
						want = (table(p)*(0x101-q) + table(p+1)*q + 0x80) / 0x101
					}
					if o.X0 != s.X0 || o.X1 != s.X1 || o.Y != s.Y || o.Alpha != want || o.Alpha > 0xffff {
						err = fmt.Errorf("span %d: %v became %v, its alpha should be %#x", i, s, o, want)
						return
					}
				}
			})
			g.Paint(in, done)
			if err == nil && calls != 1 {
				err = fmt.Errorf("painted %d times", calls)
			}
			if err != nil {
				return 0, err
			}
			if len(ss) == 0 {
				return 0, nil
			}
			return hashOf(gamma, ss), nil
		})
	}
}
