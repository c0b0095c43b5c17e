package raster

import (
	"fmt"
	"testing"
)

func TestVerifC13(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(12000) && h.more(); i++ {
		w, hh := h.size()
		if w == 0 || hh == 0 {
			continue
		}
		r := NewRasterizer(w, hh)
		r.UseNonZeroWinding = true
		n := 3 + h.rng.Intn(2)
		ps := make([]vpt, n)
		mode := h.rng.Intn(7)
		if mode == 6 && h.rng.Intn(6) > 0 {
			mode = 0
		}
		for j := range ps {
			switch mode {
			case 0, 1: // inside
				ps[j] = vp(h.rng.Intn(64*w+1), h.rng.Intn(64*hh+1))
			case 2: // a small curve
				ps[j] = vp(32*w+h.rng.Intn(200)-100, 32*hh+h.rng.Intn(200)-100)
			case 3: // huge
				ps[j] = vp(h.rng.Intn(1<<26)-1<<25, h.rng.Intn(1<<14)-1<<13)
			case 4: // few distinct points
				ps[j] = vp(h.pick(0, 64*w, 1, 63, 64), h.pick(0, 64*hh, 1, 63, 64))
			case 6: // as wide as can be
				ps[j] = vp(h.pick(1<<29-1, -1<<29+1, h.rng.Intn(1<<30)-1<<29+1), 64*hh/2)
			default:
				ps[j] = h.point(w, hh)
			}
		}
		if mode == 6 && h.rng.Intn(2) == 0 {
			sh := uint(h.rng.Intn(9))
			for j := range ps {
				ps[j].X >>= sh
			}
		}
		if mode == 6 && n == 4 { // three second differences are combined
			for j := range ps {
				ps[j].X >>= 1
			}
		}
		if mode == 3 && h.rng.Intn(2) == 0 {
			for j := range ps {
				ps[j].X = ps[j].X >> uint(h.rng.Intn(12))
			}
		}
		bx0, bx1, by0, by1 := int(ps[0].X), int(ps[0].X), int(ps[0].Y), int(ps[0].Y)
		for _, p := range ps {
			bx0, bx1 = vmin(bx0, int(p.X)), vmax(bx1, int(p.X))
			by0, by1 = vmin(by0, int(p.Y)), vmax(by1, int(p.Y))
		}
		h.Case(func() string { return fmt.Sprintf("rasterizer %d x %d, curve %v, closed by a line", w, hh, vpts(ps)) }, func() (uint64, error) {
			r.Start(ps[0])
			if n == 3 {
				r.Add2(ps[1], ps[2])
			} else {
				r.Add3(ps[1], ps[2], ps[3])
			}
			r.Add1(ps[0])
			spans, err := vcollect(r)
			if err != nil {
				return 0, err
			}
			// everything drawn lies in the box, and the pen was at the end
			// point: otherwise some row has coverage that is not closed.
			at := map[[2]int]int{}
			for _, s := range spans {
				if s.Y < vfloor(by0) || s.Y > vfloor(by1) || s.X0 < vfloor(bx0) || s.X1 > vfloor(bx1)+1 {
					return 0, fmt.Errorf("span %v is outside the bounding box (%d,%d)-(%d,%d)", s, bx0, by0, bx1, by1)
				}
				for x := s.X0; x < s.X1; x++ {
					at[[2]int{x, s.Y}] = int(s.Alpha)
				}
			}
			// the pen: a triangle from the end point is the same as one drawn alone
			a, b := NewRasterizer(w, hh), NewRasterizer(w, hh)
			a.Start(ps[0])
			if n == 3 {
				a.Add2(ps[1], ps[2])
			} else {
				a.Add3(ps[1], ps[2], ps[3])
			}
			pen := a.a
			if pen != ps[n-1] {
				return 0, fmt.Errorf("the pen is at %v, not at the end point %v", pen, ps[n-1])
			}
			_ = b
			if mode == 2 || mode == 1 || mode == 0 {
				if err := vfill(ps, at, w, hh); err != nil {
					return 0, err
				}
			}
			if len(spans) == 0 {
				return 0, nil
			}
			return hashOf(spans), nil
		})
		// a straight line's control points
		if n == 3 {
			a, c := ps[0], ps[2]
			b := a
			if h.rng.Intn(2) == 0 {
				b = c
			}
			h.Case(func() string { return fmt.Sprintf("rasterizer %d x %d, degenerate curve %v %v %v", w, hh, a, b, c) }, func() (uint64, error) {
				r := NewRasterizer(w, hh)
				r.Start(a)
				r.Add2(b, c)
				if r.a != c {
					return 0, fmt.Errorf("the pen is at %v", r.a)
				}
				x0, x1 := vmin(int(a.X), int(c.X)), vmax(int(a.X), int(c.X))
				y0, y1 := vmin(int(a.Y), int(c.Y)), vmax(int(a.Y), int(c.Y))
				r.Add1(a)
				spans, err := vcollect(r)
				for _, s := range spans {
					if s.Y < vfloor(y0) || s.Y > vfloor(y1) || s.X0 < vfloor(x0) || s.X1 > vfloor(x1)+1 {
						return 0, fmt.Errorf("span %v leaves the segment", s)
					}
				}
				return 0, err
			})
		}
	}
}

// vfill compares pixels with a fine sampling of the closed curve: a pixel that
// no part of the outline comes near is either inside or outside.
func vfill(ps []vpt, at map[[2]int]int, w, hh int) error {
	const n = 400
	var q [n + 1][2]float64
	for i := range q {
		t := float64(i) / n
		var b []float64
		if len(ps) == 3 {
			b = []float64{(1 - t) * (1 - t), 2 * t * (1 - t), t * t}
		} else {
			b = []float64{(1 - t) * (1 - t) * (1 - t), 3 * t * (1 - t) * (1 - t), 3 * t * t * (1 - t), t * t * t}
		}
		for j, p := range ps {
			q[i][0] += b[j] * float64(p.X)
			q[i][1] += b[j] * float64(p.Y)
		}
	}
	// the flattening is accurate to a fraction of a pixel for 3 pixels margin
	const margin = 3 * 64
	for k := 0; k < 40; k++ {
		x, y := (k*7919)%w, (k*104729/7)%hh
		cx, cy := float64(64*x+32), float64(64*y+32)
		near, wind := false, 0
		for i := 0; i <= n; i++ {
			a, b := q[i], q[0]
			if i < n {
				b = q[i+1]
			}
			// distance to the segment
			dx, dy := b[0]-a[0], b[1]-a[1]
			t := 0.0
			if l := dx*dx + dy*dy; l > 0 {
				t = ((cx-a[0])*dx + (cy-a[1])*dy) / l
				if t < 0 {
					t = 0
				} else if t > 1 {
					t = 1
				}
			}
			ex, ey := a[0]+t*dx-cx, a[1]+t*dy-cy
			if ex*ex+ey*ey < margin*margin {
				near = true
				break
			}
			if (a[1] <= cy) != (b[1] <= cy) {
				if xx := a[0] + (cy-a[1])*dx/dy; xx < cx {
					if dy > 0 {
						wind++
					} else {
						wind--
					}
				}
			}
		}
		if near {
			continue
		}
		want := 0
		if wind != 0 {
			want = 0xffff
		}
		if at[[2]int{x, y}] != want {
			return fmt.Errorf("pixel (%d, %d) has alpha %#x: the flattened curve is far from the real one", x, y, at[[2]int{x, y}])
		}
	}
	return nil
}
