package raster

import (
	"fmt"
	"testing"
)

func TestVerifC10(t *testing.T) {
	h := newVH(t)
	defer h.done()
	r := NewRasterizer(0, 0)
	for i := 0; i < h.n(30000) && h.more(); i++ {
		w, hh := h.size()
		if h.rng.Intn(3) > 0 {
			r = NewRasterizer(w, hh)
		} else {
			r.SetBounds(w, hh)
		}
		r.Dx, r.Dy = h.between(-50, 50), h.between(-50, 50)
		r.UseNonZeroWinding = h.rng.Intn(2) == 0
		max := h.pick(2, 4, 8, 40)
		ops := h.drawing(w, hh, max)
		if i%50 == 0 { // many spans in a row
			ops = nil
			for x := 0; x < w; x++ {
				ops = append(ops, h.box(x*64+h.rng.Intn(40), h.rng.Intn(64), x*64+h.rng.Intn(64), h.rng.Intn(64*hh+1))...)
			}
		}
		h.Case(func() string {
			return fmt.Sprintf("rasterizer %d x %d, Dx %d, Dy %d, nonzero %v: %s", w, hh, r.Dx, r.Dy, r.UseNonZeroWinding, vopsString(ops))
		}, func() (uint64, error) {
			vapply(r, ops)
			spans, err := vcollect(r)
			if err != nil {
				return 0, err
			}
			for i, s := range spans {
				x0, x1, y := s.X0-r.Dx, s.X1-r.Dx, s.Y-r.Dy
				if !(0 <= y && y < hh && 0 <= x0 && x0 < x1 && x1 <= w) {
					return 0, fmt.Errorf("span %d out of bounds or empty: %v", i, s)
				}
				if s.Alpha < 1 || s.Alpha > 0xffff {
					return 0, fmt.Errorf("span %d has a bad alpha: %v", i, s)
				}
				if i > 0 && !(spans[i-1].Y < s.Y || spans[i-1].Y == s.Y && spans[i-1].X1 <= s.X0) {
					return 0, fmt.Errorf("spans out of order: %v %v", spans[i-1], s)
				}
			}
			if len(spans) == 0 {
				return 0, nil
			}
			return hashOf(spans), nil
		})
	}
}

func (h *vh) box(x0, y0, x1, y1 int) []vop {
	return []vop{{kind: 0, p: [3]vpt{vp(x0, y0)}}, {kind: 1, p: [3]vpt{vp(x1, y0)}}, {kind: 1, p: [3]vpt{vp(x1, y1)}}, {kind: 1, p: [3]vpt{vp(x0, y1)}}, {kind: 1, p: [3]vpt{vp(x0, y0)}}}
}
