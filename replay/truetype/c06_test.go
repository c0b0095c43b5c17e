package truetype

import (
	"fmt"
	"strings"
	"testing"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// nested is a font whose glyph 0 uses glyph 1 k times, and so on; the last is g.
func (h *vh) nested(depth, k, flags int, g []byte) []byte {
	f := h.newFont(depth + 1)
	f.upem = 1000
	for i := 0; i < depth; i++ {
		b := ws(0xffff, 0, 0, 0, 0)
		for j := 0; j < k; j++ {
			fl := 2 | flags
			if j+1 < k {
				fl |= 0x20
			}
			b = append(append(b, ws(fl, i+1)...), 0, 0)
		}
		f.glyphs[i] = b
	}
	f.glyphs[depth] = g
	return f.build()
}

func TestVerifC06(t *testing.T) {
	h := newVH(t)
	defer h.done()
	load := func(g *GlyphBuf, fb []byte, ft *Font, s fixed.Int26_6, i int, hint font.Hinting, hist string) {
		h.Case(func() string { return descLoad(fb, s, i, hint, hist) }, func() (uint64, error) {
			err := g.Load(ft, s, Index(i), hint)
			if err != nil {
				return 0, nil
			}
			if e := wellformed(g, hint); e != nil {
				return 0, e
			}
			if len(g.Points) == 0 {
				return 0, nil
			}
			return hashOf(g.Points, g.Ends), nil
		})
	}
	// nesting: deep, and with many components on each level
	sq := h.encode(vglyph{ends: []int{3}, pts: []Point{{X: 0, Y: 0, Flags: 1}, {X: 100, Y: 0, Flags: 1}, {X: 0, Y: 100, Flags: 1}}})
	for _, c := range [][2]int{{1, 1}, {1, 2}, {30, 1}, {31, 1}, {32, 1}, {33, 1}, {40, 1}, {5, 3}, {12, 2}, {31, 2}, {31, 40}, {3, 300}} {
		for _, hint := range []font.Hinting{font.HintingNone, font.HintingFull} {
			fb := h.nested(c[0], c[1], h.pick(0, 0x200), sq)
			ft, err := Parse(fb)
			if err != nil {
				t.Fatal(err)
			}
			load(&GlyphBuf{}, fb, ft, 1000, 0, hint, fmt.Sprintf(" (%d levels of %d components)", c[0], c[1]))
		}
	}
	reused := &GlyphBuf{}
	var hist []string
	for i := 0; i < h.n(5000) && h.more(); i++ {
		fb := h.anyFont(h.rng.Intn(3) > 0)
		ft, err := Parse(fb)
		if err != nil {
			continue
		}
		for k := 0; k < 6; k++ {
			g, hs := &GlyphBuf{}, ""
			s, ix, hint := h.loadScale(int(ft.FUnitsPerEm())), h.rng.Intn(ft.nGlyph+2), h.hinting()
			if ft.nGlyph > 20 && h.rng.Intn(3) > 0 {
				ix = h.between(30, 200)
			}
			if h.rng.Intn(30) == 0 {
				ix = h.word()
			}
			if h.rng.Intn(3) > 0 {
				g = reused
				hs = " into a buffer reused after: " + strings.Join(hist, "; ")
				if len(hist) > 3 {
					hist = hist[1:]
				}
				hist = append(hist, fmt.Sprintf("glyph %d scale %d hinting %d font %s", ix, s, hint, vhex(fb)))
			}
			load(g, fb, ft, s, ix, hint, hs)
		}
	}
}
