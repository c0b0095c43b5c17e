package truetype

import (
	"fmt"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

func typedErr(err error) bool {
	switch err.(type) {
	case FormatError, UnsupportedError:
		return true
	}
	return false
}

func (f *Font) allTables() map[string][]byte {
	return map[string][]byte{"cmap": f.cmap, "cvt ": f.cvt, "fpgm": f.fpgm, "glyf": f.glyf, "hdmx": f.hdmx, "head": f.head, "hhea": f.hhea, "hmtx": f.hmtx,
		"kern": f.kern, "loca": f.loca, "maxp": f.maxp, "name": f.name, "OS/2": f.os2, "prep": f.prep, "vmtx": f.vmtx}
}

// wellformed is what holds of any buffer after a successful load.
func wellformed(g *GlyphBuf, hint font.Hinting) error {
	last := 0
	for i, e := range g.Ends {
		if e < 1 || e < last || e > len(g.Points) {
			return fmt.Errorf("contour end %d is %d: the ends are %v for %d points", i, e, g.Ends, len(g.Points))
		}
		last = e
	}
	if len(g.Points) == 0 && g.Bounds != (fixed.Rectangle26_6{}) {
		return fmt.Errorf("the bounds of no points are %v", g.Bounds)
	}
	for i, p := range g.Points {
		if hint != font.HintingNone && (p.X > 0x7fffff00 || p.Y > 0x7fffff00) {
			continue
		}
		if p.X < g.Bounds.Min.X && (hint == font.HintingNone || g.Bounds.Min.X < 0x7fffff00) || p.Y < g.Bounds.Min.Y {
			return fmt.Errorf("point %d (%d, %d) is outside the bounds %v", i, p.X, p.Y, g.Bounds)
		}
		over := false
		for _, q := range g.Points {
			over = over || hint != font.HintingNone && (q.X > 0x7fffff00 || q.Y > 0x7fffff00)
		}
		if !over && (p.X > g.Bounds.Max.X || p.Y > g.Bounds.Max.Y) {
			return fmt.Errorf("point %d (%d, %d) is outside the bounds %v", i, p.X, p.Y, g.Bounds)
		}
	}
	return nil
}

func descLoad(fb []byte, s fixed.Int26_6, i int, hint font.Hinting, hist string) string {
	return fmt.Sprintf("Load of glyph %d at scale %d, hinting %d%s, font %s", i, s, hint, hist, vhex(fb))
}

func samePoints(a, b []Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
