package raster

import (
	"fmt"
	"testing"

	"golang.org/x/image/math/fixed"
)

func TestVerifC20(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(40000) && h.more(); i++ {
		w := h.pick(1, 3, 10, 100)
		var p Path
		switch h.rng.Intn(4) {
		case 0:
			p = h.path(w, w, 4)
		case 1: // huge
			p = h.path(100000, 100000, 4)
		case 2: // small points
			k := h.pick(2, 5, 20, 100)
			pt := func() vpt { return vp(h.rng.Intn(k), h.rng.Intn(k)) }
			p.Start(pt())
			for n := h.rng.Intn(5); n > 0; n-- {
				if h.rng.Intn(2) == 0 {
					p.Add1(pt())
				} else {
					p.Add2(pt(), pt())
				}
				if h.rng.Intn(6) == 0 {
					p.Start(pt())
				}
			}
		case 3: // sharp turns
			k := h.pick(100, 1000, 100000)
			a, b := vp(h.rng.Intn(k), h.rng.Intn(k)), vp(h.rng.Intn(k), h.rng.Intn(k))
			c := vpt{X: a.X + fixed.Int26_6(h.rng.Intn(9)-4), Y: a.Y + fixed.Int26_6(h.rng.Intn(9)-4)}
			p.Start(a)
			p.Add2(b, c)
			p.Add2(a, b)
			p.Add1(a)
			p.Add1(b)
			p.Add1(a)
		}
		width := fixed.Int26_6(h.pick(0, 1, 2, 10, 64, 200, 1000, -64, h.rng.Intn(3000)))
		cj := h.rng.Intn(12)
		h.Case(func() string {
			return fmt.Sprintf("Stroke(%d, width %d, capper %d, joiner %d)", []fixed.Int26_6(p), int(width), cj%4, cj/4)
		}, func() (uint64, error) {
			var curves []int // the number of segments of each
			for i := 0; i < len(p); {
				switch p[i] {
				case 0:
					curves = append(curves, 0)
					i += 4
				case 1:
					curves[len(curves)-1]++
					i += 4
				case 2:
					curves[len(curves)-1]++
					i += 6
				}
			}
			var r vrec
			Stroke(&r, p, width, vcaps[cj%4], vjoins[cj/4])
			// one outline for each curve that has a segment
			ops := r.ops
			for ci, n := range curves {
				if n == 0 {
					continue
				}
				if len(ops) == 0 || ops[0].kind != 0 {
					return 0, fmt.Errorf("no outline starts for curve %d: %s", ci, vopsString(r.ops))
				}
				j := 1
				for j < len(ops) && ops[j].kind != 0 {
					j++
				}
				o := ops[j-1]
				if o.kind == 0 {
					return 0, fmt.Errorf("the outline of curve %d has no segments", ci)
				}
				if e := o.p[o.kind-1]; e != ops[0].p[0] {
					return 0, fmt.Errorf("the outline of curve %d starts at %v but ends at %v: %s", ci, ops[0].p[0], e, vopsString(ops[:j]))
				}
				if j-1 < 2*n {
					return 0, fmt.Errorf("the outline of curve %d with %d segments has only %d", ci, n, j-1)
				}
				ops = ops[j:]
			}
			if len(ops) > 0 {
				return 0, fmt.Errorf("too many outlines: %s", vopsString(ops))
			}
			if len(r.ops) == 0 {
				return 0, nil
			}
			return hashOf(r.ops), nil
		})
	}
}
