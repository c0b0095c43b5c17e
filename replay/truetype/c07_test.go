package truetype

import (
	"fmt"
	"testing"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// c07check compares a loaded glyph with the outline g that was encoded, moved by what its left side bearing asks for.
func c07check(b *GlyphBuf, g vglyph, lsb, adv int, s fixed.Int26_6, upem int) error {
	if len(b.Points) != len(g.pts) || len(b.Ends) != len(g.ends) {
		return fmt.Errorf("%d points in %d contours, but %d in %d are encoded", len(b.Points), len(b.Ends), len(g.pts), len(g.ends))
	}
	for i := range g.ends {
		if b.Ends[i] != g.ends[i] {
			return fmt.Errorf("the contour ends are %v, not %v", b.Ends, g.ends)
		}
	}
	shift, shiftOK := nearest(g.xmin-lsb, int(s), upem)
	for i, p := range g.pts {
		q := b.Points[i]
		if q.Flags&1 != p.Flags&1 {
			return fmt.Errorf("the flags of point %d are %#x, but %d is encoded", i, q.Flags, p.Flags&1)
		}
		if x, ok := nearest(int(p.X), int(s), upem); ok && shiftOK && int32(q.X) != int32(x-shift) {
			return fmt.Errorf("point %d (%d, %d) is scaled to x = %d, not %d - %d", i, p.X, p.Y, q.X, x, shift)
		}
		if y, ok := nearest(int(p.Y), int(s), upem); ok && int(q.Y) != y {
			return fmt.Errorf("point %d (%d, %d) is scaled to y = %d, not %d", i, p.X, p.Y, q.Y, y)
		}
	}
	if a, ok := nearest(g.xmin-lsb+adv, int(s), upem); ok && shiftOK && int32(b.AdvanceWidth) != int32(a-shift) {
		return fmt.Errorf("the advance width is %d, not %d - %d", b.AdvanceWidth, a, shift)
	}
	if len(b.Points) > 0 {
		r := fixed.Rectangle26_6{Min: fixed.Point26_6{X: b.Points[0].X, Y: b.Points[0].Y}, Max: fixed.Point26_6{X: b.Points[0].X, Y: b.Points[0].Y}}
		for _, q := range b.Points {
			if q.X < r.Min.X {
				r.Min.X = q.X
			}
			if q.Y < r.Min.Y {
				r.Min.Y = q.Y
			}
			if q.X > r.Max.X {
				r.Max.X = q.X
			}
			if q.Y > r.Max.Y {
				r.Max.Y = q.Y
			}
		}
		if b.Bounds != r {
			return fmt.Errorf("the bounds are %v, not %v", b.Bounds, r)
		}
	} else if b.Bounds != (fixed.Rectangle26_6{}) {
		return fmt.Errorf("the bounds of no points are %v", b.Bounds)
	}
	return nil
}

func TestVerifC07(t *testing.T) {
	h := newVH(t)
	defer h.done()
	reused := &GlyphBuf{}
	for i := 0; i < h.n(6000) && h.more(); i++ {
		n := h.between(1, 5)
		f := h.newFont(n)
		gs := make([]vglyph, n)
		for j := range gs {
			switch h.rng.Intn(10) {
			case 0: // no contours at all
				gs[j] = vglyph{xmin: int(int16(h.word())), ymax: int(int16(h.word()))}
			case 1: // flags that repeat for long
				g := h.outline(2, 800)
				for k := range g.pts {
					if k > 0 && h.rng.Intn(300) > 0 {
						g.pts[k] = g.pts[k-1]
					}
				}
				gs[j] = g
			default:
				gs[j] = h.outline(4, 12)
			}
			gs[j].program = h.bytes(h.pick(0, 0, 1, 7, 300))
			f.glyphs[j] = h.encode(gs[j])
			for h.rng.Intn(3) == 0 { // what follows the coordinates is no part of them
				f.glyphs[j] = append(f.glyphs[j], byte(h.rng.Intn(256)))
			}
		}
		hm := f.tables["hmtx"]
		if h.rng.Intn(3) > 0 {
			for j := range gs {
				if j < f.nHMetric && h.rng.Intn(2) == 0 {
					copy(hm[4*j:], ws(h.between(0, 2000), gs[j].xmin-h.pick(0, 0, 0, 1, -1, 100, -100)))
				}
			}
		}
		if f.upem > 16384 || h.rng.Intn(2) == 0 {
			f.upem = h.pick(1000, 2048, 1, 3, 7, 64)
		}
		fb := f.build()
		ft, err := Parse(fb)
		if err != nil {
			continue
		}
		for k := 0; k < 4; k++ {
			j := h.rng.Intn(n)
			b, hist := &GlyphBuf{}, ""
			if h.rng.Intn(2) == 0 {
				b, hist = reused, " into a buffer used before"
			}
			s := h.loadScale(f.upem)
			h.Case(func() string { return descLoad(fb, s, j, font.HintingNone, hist) }, func() (uint64, error) {
				if err := b.Load(ft, s, Index(j), font.HintingNone); err != nil {
					return 0, fmt.Errorf("the well-formed glyph is not loaded: %v", err)
				}
				var adv, lsb int
				if j < f.nHMetric {
					adv, lsb = int(hm[4*j])<<8|int(hm[4*j+1]), int(int16(int(hm[4*j+2])<<8|int(hm[4*j+3])))
				} else {
					p, q := 4*(f.nHMetric-1), 4*f.nHMetric+2*(j-f.nHMetric)
					adv, lsb = int(hm[p])<<8|int(hm[p+1]), int(int16(int(hm[q])<<8|int(hm[q+1])))
				}
				return hashOf(gs[j].pts, gs[j].ends, s), c07check(b, gs[j], lsb, adv, s, f.upem)
			})
		}
	}
}
