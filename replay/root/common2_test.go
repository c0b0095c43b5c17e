package freetype

import (
	"image"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// refContour draws the closed curve of a contour.
func refContour(r *raster.Rasterizer, ps []truetype.Point, dx, dy fixed.Int26_6) {
	type pt struct {
		fixed.Point26_6
		on bool
	}
	var q []pt
	for i, p := range ps {
		q = append(q, pt{fixed.Point26_6{X: dx + p.X, Y: dy - p.Y}, p.Flags&1 != 0})
		n := ps[(i+1)%len(ps)]
		if p.Flags&1 == 0 && n.Flags&1 == 0 {
			q = append(q, pt{fixed.Point26_6{X: (dx + p.X + dx + n.X) / 2, Y: (dy - p.Y + dy - n.Y) / 2}, true})
		}
	}
	for i := range q {
		if !q[i].on {
			continue
		}
		r.Start(q[i].Point26_6)
		for k := 1; k <= len(q); k++ {
			a := q[(i+k)%len(q)]
			if a.on {
				r.Add1(a.Point26_6)
			} else {
				k++
				r.Add2(a.Point26_6, q[(i+k)%len(q)].Point26_6)
			}
		}
		return
	}
}

// boxOf is the pixel box of a loaded glyph at the fraction (fx, fy).
func boxOf(g *truetype.GlyphBuf, fx, fy int) image.Rectangle {
	return image.Rect((fx+int(g.Bounds.Min.X))>>6, (fy-int(g.Bounds.Max.Y))>>6, (fx+int(g.Bounds.Max.X)+63)>>6, (fy-int(g.Bounds.Min.Y)+63)>>6)
}

// rasterFor is a rasterizer of the size that a context has for a font.
func rasterFor(f *truetype.Font, scale fixed.Int26_6) *raster.Rasterizer {
	b := f.Bounds(scale)
	return raster.NewRasterizer(int(b.Max.X+63)>>6-int(b.Min.X)>>6+1, -int(b.Min.Y-63)>>6+int(b.Max.Y)>>6+2)
}

// refMask is the mask of a loaded glyph at the fraction (fx, fy).
func refMask(r *raster.Rasterizer, g *truetype.GlyphBuf, fx, fy int) *image.Alpha {
	box := boxOf(g, fx, fy)
	r.Clear()
	e0 := 0
	for _, e1 := range g.Ends {
		refContour(r, g.Points[e0:e1], fixed.Int26_6(fx-box.Min.X<<6), fixed.Int26_6(fy-box.Min.Y<<6))
		e0 = e1
	}
	m := image.NewAlpha(image.Rect(0, 0, box.Dx(), box.Dy()))
	r.Rasterize(raster.NewAlphaSrcPainter(m))
	return m
}

// vSettings are the settings of a context.
type vSettings struct {
	f         *truetype.Font
	size, dpi float64
	hint      font.Hinting
}

func (v vSettings) scale() fixed.Int26_6 { return fixed.Int26_6(v.size * v.dpi * 64 / 72) }

func (h *vh) settings(fs ...*truetype.Font) vSettings {
	return vSettings{fs[h.rng.Intn(len(fs))], []float64{12, 6, 10.5, 20, 12.01}[h.rng.Intn(5)], []float64{72, 72, 96, 36}[h.rng.Intn(4)], font.Hinting(h.rng.Intn(3))}
}
