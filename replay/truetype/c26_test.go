package truetype

import (
	"fmt"
	"strings"
	"testing"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// leakyFont is a font whose programs read and write all of the hinter's state.
func (h *vh) leakyFont() []byte {
	n := h.between(2, 5)
	f := h.newFont(n)
	f.upem = h.pick(64, 1000, 2048)
	f.maxp = [4]int{h.pick(0, 4, 20), h.pick(0, 16, 20), h.pick(0, 2, 8), h.pick(0, 20, 300)}
	f.tables["cvt "] = ws(h.word(), h.word(), h.word(), h.word(), h.word())[:2*h.rng.Intn(6)]
	set := func() []byte {
		var b []byte
		for k := h.rng.Intn(4); k > 0; k-- {
			v := int32(h.between(-300, 300))
			switch h.rng.Intn(9) {
			case 0: // WS
				b = append(pushVal(append(b, 0xb0, byte(h.rng.Intn(4))), v), 0x42)
			case 1, 2: // WCVTP, WCVTF
				b = append(pushVal(append(b, 0xb0, byte(h.rng.Intn(5))), v), byte(h.pick(0x44, 0x70)))
			case 3: // FDEF
				b = append(b, 0xb0, byte(h.rng.Intn(3)), 0x2c)
				b = append(append(append(pushVal(b, v), 0xb0, 0, 0x23), 0x38), 0x2d) // SHPIX of point 0
			case 4: // SCVTCI, SMD, SSW, SSWCI, SDB, SDS
				b = append(append(b, 0xb0, byte(h.rng.Intn(7))), byte(h.pick(0x1d, 0x1a, 0x1f, 0x1e, 0x5e, 0x5f)))
			case 5: // rounding
				b = append(b, byte(h.pick(0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d)))
			case 6: // SROUND, S45ROUND
				b = append(append(b, 0xb0, byte(h.rng.Intn(256))), byte(h.pick(0x76, 0x77)))
			case 7: // FLIPOFF, vectors, zones
				b = append(b, byte(h.pick(0x4e, 0, 1, 2, 3, 4, 5)))
			case 8: // move a point of the twilight zone
				b = append(b, 0xb0, 0, 0x16, 0xb0, byte(h.rng.Intn(20)), 0xb0, byte(h.rng.Intn(5)), 0x3f, 0xb0, 1, 0x16)
			}
		}
		return b
	}
	get := func() []byte {
		var b []byte
		for k := h.rng.Intn(5); k > 0; k-- {
			p := byte(h.rng.Intn(6))
			switch h.rng.Intn(9) {
			case 0: // storage
				b = append(b, 0xb0, p, 0xb0, byte(h.rng.Intn(4)), 0x43, 0x38)
			case 1: // control value
				b = append(b, 0xb0, p, 0xb0, byte(h.rng.Intn(5)), 0x45, 0x38)
			case 2: // a function
				b = append(b, 0xb0, byte(h.rng.Intn(3)), 0x2b)
			case 3: // MDAP, MIAP
				b = append(b, 0xb0, p, 0x2f, 0xb0, p, 0xb0, byte(h.rng.Intn(5)), 0x3f)
			case 4: // MIRP, MDRP
				b = append(b, 0xb0, p, 0xb0, byte(h.rng.Intn(5)), byte(h.between(0xe0, 0xff)))
			case 5:
				b = append(b, 0xb0, p, byte(h.between(0xc0, 0xdf)))
			case 6: // ROUND of a number
				b = append(pushVal(append(b, 0xb0, p), int32(h.between(-300, 300))), 0x68, 0x38)
			case 7: // DELTAP
				b = append(b, 0xb0, byte(h.rng.Intn(256)), 0xb0, p, 0xb0, 1, byte(h.pick(0x5d, 0x71, 0x72)))
			case 8: // a point of the twilight zone
				b = append(b, 0xb0, p, 0xb0, 0, 0x15, 0xb0, byte(h.rng.Intn(20)), 0x46, 0xb0, 1, 0x15, 0x38)
			}
		}
		if h.rng.Intn(2) == 0 {
			b = append(b, 0x30, 0x31)
		}
		return b
	}
	// A program that depends on the size.
	sized := func() []byte {
		b := set()
		if h.rng.Intn(2) == 0 {
			b = append(append(append([]byte{byte(h.pick(0x4b, 0x4c)), 0xb0, byte(h.between(9, 16)), byte(h.pick(0x50, 0x52, 0x54, 0x55)), 0x58}, set()...), append(set(), set()...)...), 0x59)
			b = append(b, set()...)
		}
		return b
	}
	f.tables["fpgm"], f.tables["prep"] = sized(), sized()
	for i := range f.glyphs {
		g := h.outline(2, 6)
		if h.rng.Intn(5) > 0 {
			for j := range g.pts {
				g.pts[j].X, g.pts[j].Y = fixed.Int26_6(h.rng.Intn(1000)), fixed.Int26_6(h.rng.Intn(1000))
			}
		}
		g.program = append(get(), set()...)
		f.glyphs[i] = h.encode(g)
		if i > 0 && h.rng.Intn(4) == 0 {
			f.glyphs[i] = h.compound(h.between(1, 3), i)
		}
	}
	return f.build()
}

func TestVerifC26(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(2500) && h.more(); i++ {
		var fbs [][]byte
		var fts []*Font
		for len(fts) < 3 {
			var fb []byte
			if h.rng.Intn(4) == 0 {
				fb = h.anyFont(true)
			} else {
				fb = h.leakyFont()
			}
			if ft, err := Parse(fb); err == nil {
				fbs, fts = append(fbs, fb), append(fts, ft)
			}
		}
		desc := fmt.Sprintf("fonts A %s, B %s, C %s; loads", vhex(fbs[0]), vhex(fbs[1]), vhex(fbs[2]))
		var hist []string
		reused := &GlyphBuf{}
		// the font and scale of the last load with hinting
		lastF, lastS := -1, fixed.Int26_6(0)
		for k := 0; k < 14; k++ {
			j := h.rng.Intn(3)
			ft := fts[j]
			s := fixed.Int26_6(h.pick(640, 1000, 777))
			if h.rng.Intn(8) == 0 {
				s = h.loadScale(int(ft.FUnitsPerEm()))
			}
			ix := h.rng.Intn(ft.nGlyph)
			if ft.nGlyph > 20 {
				ix = h.between(30, 200)
			}
			if h.rng.Intn(20) == 0 {
				ix = ft.nGlyph + 1
			}
			hint := h.hinting()
			hist = append(hist, fmt.Sprintf("%c glyph %d scale %d hinting %d", 'A'+j, ix, s, hint))
			compare := hint == font.HintingNone || j != lastF || s != lastS
			h.Case(func() string { return desc + ": " + strings.Join(hist, "; ") }, func() (uint64, error) {
				e0 := reused.Load(ft, s, Index(ix), hint)
				fresh := &GlyphBuf{}
				e1 := fresh.Load(ft, s, Index(ix), hint)
				if !compare {
					return 0, nil
				}
				if fmt.Sprint(e0) != fmt.Sprint(e1) {
					return 0, fmt.Errorf("the last load gives error %v, into a new buffer %v", e0, e1)
				}
				if e0 != nil {
					return 0, nil
				}
				if !samePoints(reused.Points, fresh.Points) || fmt.Sprint(reused.Ends) != fmt.Sprint(fresh.Ends) || reused.Bounds != fresh.Bounds || reused.AdvanceWidth != fresh.AdvanceWidth {
					return 0, fmt.Errorf("the last load gives points %v ends %v bounds %v advance %v\n, into a new buffer points %v ends %v bounds %v advance %v", reused.Points, reused.Ends, reused.Bounds, reused.AdvanceWidth,
						fresh.Points, fresh.Ends, fresh.Bounds, fresh.AdvanceWidth)
				}
				if len(fresh.Points) == 0 || k == 0 {
					return 0, nil
				}
				return hashOf(hist, fresh.Points), nil
			})
			if hint != font.HintingNone {
				lastF, lastS = j, s
			}
		}
	}
}
