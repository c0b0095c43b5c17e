package raster

import (
	"fmt"
	"image"
	"testing"
)

func TestVerifC17(t *testing.T) {
	h := newVH(t)
	defer h.done()
	m := NewMonochromePainter(nil)
	for i := 0; i < h.n(40000) && h.more(); i++ {
		if h.rng.Intn(4) == 0 {
			m = NewMonochromePainter(nil)
		}
		b := image.Rect(0, 0, h.pick(1, 4, 10), h.pick(1, 2, 5))
		all := h.spans(b, false)
		var spans []Span
		for _, s := range all {
			s.X0, s.X1 = vmax(s.X0, -20), vmin(s.X1, 40)
			if s.X0 < s.X1 {
				spans = append(spans, s)
			}
		}
		// split into batches
		var batches [][]Span
		rest := spans
		for len(rest) > 0 && h.rng.Intn(3) > 0 {
			n := h.rng.Intn(len(rest) + 1)
			batches = append(batches, append(make([]Span, 0, n+h.rng.Intn(2)), rest[:n]...))
			rest = rest[n:]
		}
		batches = append(batches, append(make([]Span, 0, len(rest)+h.rng.Intn(2)), rest...))
		if len(rest) == 0 && h.rng.Intn(2) == 0 {
			batches[len(batches)-1] = nil
		}
		h.Case(func() string { return fmt.Sprintf("batches, the last one with done: %v", batches) }, func() (uint64, error) {
			want := map[[2]int]bool{}
			for _, s := range spans {
				if s.Alpha >= 0x8000 {
					for x := s.X0; x < s.X1; x++ {
						want[[2]int{x, s.Y}] = true
					}
				}
			}
			n, done, got := 0, 0, map[[2]int]bool{}
			var last *Span
			var err error
			m.Painter = PainterFunc(func(ss []Span, d bool) {
				if done > 0 {
					err = fmt.Errorf("painted after done")
				}
				if d {
					done++
				}
				for i := range ss {
					s := ss[i]
					n++
					if s.X0 > s.X1 {
						err = fmt.Errorf("negative width: %v", s)
					}
					if s.X0 == s.X1 {
						continue
					}
					if s.Alpha != 0xffff {
						err = fmt.Errorf("not opaque: %v", s)
					}
					if last != nil && !(last.Y < s.Y || last.Y == s.Y && last.X1 <= s.X0) {
						err = fmt.Errorf("out of order: %v %v", *last, s)
					}
					last = &s
					for x := s.X0; x < s.X1; x++ {
						k := [2]int{x, s.Y}
						if got[k] {
							err = fmt.Errorf("pixel %v is painted twice", k)
						}
						got[k] = true
						if !want[k] {
							err = fmt.Errorf("pixel %v should not be painted", k)
						}
					}
				}
				for i := range ss {
					ss[i] = Span{7, 7, 9, 3}
				}
			})
			for i, b := range batches {
				in := append(make([]Span, 0, cap(b)), b...)
				m.Paint(in, i == len(batches)-1)
				if i < len(batches)-1 && done > 0 {
					err = fmt.Errorf("done too early")
				}
			}
			if err != nil {
				return 0, err
			}
			if done != 1 {
				return 0, fmt.Errorf("done %d times", done)
			}
			for k := range want {
				if !got[k] {
					return 0, fmt.Errorf("pixel %v is not painted", k)
				}
			}
			if len(want) == 0 {
				return 0, nil
			}
			return hashOf(batches), nil
		})
	}
}
