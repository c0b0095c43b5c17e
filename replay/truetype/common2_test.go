package truetype

import (
	"fmt"
	"image"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

// refMask is the mask of a loaded glyph at (qx, qy), in the rectangle dr, by a rasterizer of size w, h.
func refMask(g *GlyphBuf, qx, qy int, dr image.Rectangle, w, h int) *image.Alpha {
	r := raster.NewRasterizer(w, h)
	dx, dy := fixed.Int26_6(qx-dr.Min.X<<6), fixed.Int26_6(qy-dr.Min.Y<<6)
	e0 := 0
	for _, e1 := range g.Ends {
		refContour(r, g.Points[e0:e1], dx, dy)
		e0 = e1
	}
	m := image.NewAlpha(image.Rect(0, 0, dr.Dx(), dr.Dy()))
	r.Rasterize(raster.NewAlphaSrcPainter(m))
	return m
}

// sameMask compares what a face returned with the glyph rasterized on its own.
func sameMask(m *image.Alpha, dr image.Rectangle, mp image.Point, g *GlyphBuf, qx, qy, rw, rh int) error {
	want := image.Rect((qx+int(g.Bounds.Min.X))>>6, (qy-int(g.Bounds.Max.Y))>>6, (qx+int(g.Bounds.Max.X)+63)>>6, (qy-int(g.Bounds.Min.Y)+63)>>6)
	// a glyph that is larger than the font's bounding box is cut off
	if want.Dx() > rw {
		want.Max.X = want.Min.X + rw
	}
	if want.Dy() > rh {
		want.Max.Y = want.Min.Y + rh
	}
	if dr != want {
		return fmt.Errorf("rectangle %v, not %v", dr, want)
	}
	w := refMask(g, qx, qy, dr, rw, rh)
	for y := 0; y < dr.Dy(); y++ {
		for x := 0; x < dr.Dx(); x++ {
			if a, b := m.AlphaAt(mp.X+x, mp.Y+y).A, w.AlphaAt(x, y).A; a != b {
				return fmt.Errorf("mask pixel (%d, %d) is %d, not %d", x, y, a, b)
			}
		}
	}
	return nil
}

// refContour draws the closed curve of a contour.
func refContour(r *raster.Rasterizer, ps []Point, dx, dy fixed.Int26_6) {
	type pt struct {
		fixed.Point26_6
		on bool
	}
	var q []pt
	for i, p := range ps {
		q = append(q, pt{fixed.Point26_6{X: dx + p.X, Y: dy - p.Y}, p.Flags&1 != 0})
		n := ps[(i+1)%len(ps)]
		if p.Flags&1 == 0 && n.Flags&1 == 0 {
			q = append(q, pt{fixed.Point26_6{X: (dx + p.X + dx + n.X) / 2, Y: (dy - p.Y + dy - n.Y) / 2}, true})
		}
	}
	for i := range q {
		if !q[i].on {
			continue
		}
		r.Start(q[i].Point26_6)
		for k := 1; k <= len(q); k++ {
			a := q[(i+k)%len(q)]
			if a.on {
				r.Add1(a.Point26_6)
			} else {
				k++
				r.Add2(a.Point26_6, q[(i+k)%len(q)].Point26_6)
			}
		}
		return
	}
}
