package raster

import (
	"fmt"
	"reflect"
	"testing"

	"golang.org/x/image/math/fixed"
)

func TestVerifC14(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(12000) && h.more(); i++ {
		w, hh := h.size()
		var hist []vop
		cw, ch := w, hh
		for n := h.rng.Intn(5); n > 0; n-- {
			switch h.rng.Intn(5) {
			case 0:
				hist = append(hist, vop{kind: 4})
			case 1:
				cw, ch = h.size()
				if h.rng.Intn(4) == 0 {
					cw = -h.rng.Intn(5)
				}
				if h.rng.Intn(4) == 0 {
					ch = -h.rng.Intn(5)
				}
				hist = append(hist, vop{kind: 5, p: [3]vpt{{X: fixed.Int26_6(cw), Y: fixed.Int26_6(ch)}}})
			default:
				hist = append(hist, h.drawing(vmax(cw, 1), vmax(ch, 1), h.pick(2, 5, 20))...)
			}
		}
		rast := h.rng.Intn(2) == 0
		if h.rng.Intn(2) == 0 {
			hist = append(hist, vop{kind: 4})
		} else {
			cw, ch = h.size()
			if h.rng.Intn(8) == 0 {
				cw = -cw
			}
			if h.rng.Intn(8) == 0 {
				ch = -ch
			}
			hist = append(hist, vop{kind: 5, p: [3]vpt{{X: fixed.Int26_6(cw), Y: fixed.Int26_6(ch)}}})
		}
		next := h.drawing(vmax(cw, 1), vmax(ch, 1), h.pick(2, 5, 20))
		if h.rng.Intn(3) == 0 && len(next) > 0 && next[0].kind == 0 {
			next = next[1:] // go on from the pen's position
		}
		dirty := h.rng.Intn(2) == 0
		h.Case(func() string {
			return fmt.Sprintf("NewRasterizer(%d, %d): %s; (rasterized before the last call: %v); then %s", w, hh, vopsString(hist), rast, vopsString(next))
		}, func() (uint64, error) {
			r := NewRasterizer(w, hh)
			vapply(r, hist[:len(hist)-1])
			if rast {
				vcollect(r)
			}
			vapply(r, hist[len(hist)-1:])
			if !dirty {
				spans, err := vcollect(r)
				if err != nil {
					return 0, err
				}
				if len(spans) != 0 {
					return 0, fmt.Errorf("the cleared rasterizer emits %v", spans)
				}
			}
			vapply(r, next)
			got, err := vcollect(r)
			if err != nil {
				return 0, err
			}
			nr := NewRasterizer(vmax(cw, 0), vmax(ch, 0))
			vapply(nr, next)
			want, _ := vcollect(nr)
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				return 0, fmt.Errorf("got %v\nwant, as on a new rasterizer, %v", got, want)
			}
			for _, s := range got {
				if s.X1 > cw || s.Y >= ch {
					return 0, fmt.Errorf("span %v is outside %d x %d", s, cw, ch)
				}
			}
			if len(got) == 0 || len(hist) == 1 {
				return 0, nil
			}
			return hashOf(got, len(hist)), nil
		})
	}
}
