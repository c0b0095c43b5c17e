package raster

import (
	"fmt"
	"testing"
)

func fdiv64(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// vcov accumulates the cover and area of each pixel. Columns left of the
// image are kept in column -1, and those right of it in column w.
type vcov struct {
	w, h        int
	cover, area map[[2]int]int64
}

func (c *vcov) add(x, y int64, cover, area int64) {
	if y < 0 || y >= int64(c.h) {
		return
	}
	if x < 0 {
		x = -1
	} else if x > int64(c.w) {
		x = int64(c.w)
	}
	k := [2]int{int(x), int(y)}
	c.cover[k] += cover
	c.area[k] += area
}

// row adds a line within row yi, from (x0, y0) to (x1, y1), where the y are
// fractions of the row.
func (c *vcov) row(yi, x0, y0, x1, y1 int64) {
	if y0 == y1 {
		return
	}
	i0, i1 := fdiv64(x0, 64), fdiv64(x1, 64)
	// yAt is where the line crosses column edge e, rounded down
	yAt := func(e int64) int64 {
		if x1 > x0 {
			return y0 + fdiv64((e-x0)*(y1-y0), x1-x0)
		}
		return y0 + fdiv64((x0-e)*(y1-y0), x0-x1)
	}
	x, y := x0, y0
	for i := i0; ; {
		if i == i1 {
			c.add(i, yi, y1-y, (x-64*i+x1-64*i)*(y1-y))
			return
		}
		e := 64 * i
		if i1 > i {
			e += 64
		}
		ye := yAt(e)
		c.add(i, yi, ye-y, (x-64*i+e-64*i)*(ye-y))
		x, y = e, ye
		if i1 > i {
			i++
		} else {
			i--
		}
	}
}

func (c *vcov) line(x0, y0, x1, y1 int64) {
	i0, i1 := fdiv64(y0, 64), fdiv64(y1, 64)
	xAt := func(e int64) int64 { // where the line crosses row edge e, rounded down
		if y1 > y0 {
			return x0 + fdiv64((e-y0)*(x1-x0), y1-y0)
		}
		return x0 + fdiv64((y0-e)*(x1-x0), y0-y1)
	}
	x, y := x0, y0
	for i := i0; ; {
		if i == i1 {
			c.row(i, x, y-64*i, x1, y1-64*i)
			return
		}
		e := 64 * i
		if i1 > i {
			e += 64
		}
		xe := xAt(e)
		c.row(i, x, y-64*i, xe, e-64*i)
		x, y = xe, e
		if i1 > i {
			i++
		} else {
			i--
		}
	}
}

func valpha(nonzero bool, area int64) uint32 {
	a := (area + 1) >> 1
	if a < 0 {
		a = -a
	}
	if nonzero {
		if a > 0xfff {
			a = 0xfff
		}
	} else {
		a %= 0x2000
		if a > 0x1000 {
			a = 0x2000 - a
		}
		if a == 0x1000 {
			a = 0xfff
		}
	}
	return uint32(a<<4 | a>>8)
}

func TestVerifC11(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(30000) && h.more(); i++ {
		w, hh := h.size()
		if h.rng.Intn(3) > 0 {
			w, hh = 1+h.rng.Intn(12), 1+h.rng.Intn(12)
		}
		if w > 130 {
			w = 130
		}
		if hh > 130 {
			hh = 130
		}
		ops := h.lines(w, hh, h.pick(1, 2, 4, 8))
		// Close every curve: what an open curve covers right of its last pixel is not drawn.
		var closed []vop
		var start vpt
		for i, o := range ops {
			if o.kind == 0 {
				if i > 0 {
					closed = append(closed, vop{kind: 1, p: [3]vpt{start}})
				}
				start = o.p[0]
			}
			closed = append(closed, o)
		}
		ops = append(closed, vop{kind: 1, p: [3]vpt{start}})
		nonzero := h.rng.Intn(2) == 0
		r := NewRasterizer(w, hh)
		r.UseNonZeroWinding = nonzero
		h.Case(func() string {
			return fmt.Sprintf("rasterizer %d x %d, nonzero %v: %s", w, hh, nonzero, vopsString(ops))
		}, func() (uint64, error) {
			c := &vcov{w, hh, map[[2]int]int64{}, map[[2]int]int64{}}
			var px, py int64
			for _, o := range ops {
				x, y := int64(o.p[0].X), int64(o.p[0].Y)
				if o.kind == 1 {
					c.line(px, py, x, y)
				}
				px, py = x, y
			}
			vapply(r, ops)
			spans, err := vcollect(r)
			if err != nil {
				return 0, err
			}
			got := map[[2]int]uint32{}
			for _, s := range spans {
				for x := s.X0; x < s.X1; x++ {
					got[[2]int{x, s.Y}] = s.Alpha
				}
			}
			for y := 0; y < hh; y++ {
				cover := c.cover[[2]int{-1, y}]
				for x := 0; x < w; x++ {
					k := [2]int{x, y}
					cover += c.cover[k]
					area := cover*128 - c.area[k]
					g, e := got[k], valpha(nonzero, area)
					// the accumulated area is exact: no tolerance
					if g != e {
						return 0, fmt.Errorf("pixel (%d, %d) has alpha %#x, its coverage is %d/8192 so that it should be %#x", x, y, g, area, e)
					}
				}
			}
			if len(spans) == 0 {
				return 0, nil
			}
			return hashOf(spans), nil
		})
	}
}
