package truetype

import (
	"fmt"
	"testing"

	"golang.org/x/image/math/fixed"
)

func TestVerifC02(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(4000) && h.more(); i++ {
		f := h.newFont(h.rng.Intn(8))
		// tables with random contents, wherever the parser does not look
		for _, k := range []string{"OS/2", "vmtx", "name", "hdmx"} {
			if h.rng.Intn(3) > 0 {
				f.tables[k] = h.bytes(h.pick(0, 3, 4, 5, 6, 10, 18, 30, 67, 68, 70, 71, 72, 73, 96, h.rng.Intn(100)))
			}
		}
		if b := f.tables["name"]; len(b) >= 6 && h.rng.Intn(4) > 0 {
			n := h.rng.Intn(3)
			copy(b, ws(0, n, h.rng.Intn(len(b)+3)))
			for j := 0; j < n && 6+12*j+12 <= len(b); j++ {
				copy(b[6+12*j:], ws(h.pick(0, 3), h.pick(0, 1, 3, 4), 0, h.rng.Intn(3), h.rng.Intn(len(b)+2), h.rng.Intn(len(b)+2)))
			}
		}
		if h.rng.Intn(2) == 0 {
			f.tables["kern"] = h.kernTable2(h.rng.Intn(6))
		}
		segs := make([]seg, h.rng.Intn(5))
		for j := range segs {
			segs[j] = seg{h.word(), h.word(), h.word(), h.pick(0, 0, 2, 4, 8, h.word())}
		}
		switch h.rng.Intn(3) {
		case 0:
			f.tables["cmap"] = cmapTable([]cmapSub{{3, cmap12(segs)}})
		default:
			f.tables["cmap"] = cmapTable([]cmapSub{{3, cmap4(segs, h.bytes(h.rng.Intn(30)))}})
		}
		b := f.build()
		ft, err := Parse(b[:len(b):len(b)])
		if err != nil {
			continue
		}
		runes := []rune{0, 1, 32, 65, 0xffff, 0x10000, 0x10ffff, -1, 0x7fffffff, -0x80000000}
		for _, s := range segs {
			runes = append(runes, rune(s.start), rune(s.end), rune(s.start+1), rune((s.start+s.end)/2))
		}
		h.Case(func() string { return "queries of the font " + vhex(b) }, func() (uint64, error) {
			for _, r := range runes {
				ft.Index(r)
			}
			for j := 0; j < f.nGlyph+3; j++ {
				x := Index(j)
				if j >= f.nGlyph+1 {
					x = Index(h.pick(0xffff, 0x7fff, 0x8000, f.nGlyph))
				}
				sc := fixed.Int26_6(h.pick(0, 1, -1, 64, 640, -640, 0x7fffffff, -0x80000000, f.upem))
				hm, vm := ft.HMetric(sc, x), ft.VMetric(sc, x)
				if int(x) >= f.nGlyph && (hm != HMetric{} || vm != VMetric{}) {
					return 0, fmt.Errorf("glyph %d of %d has metrics %v and %v", x, f.nGlyph, hm, vm)
				}
				ft.Kern(sc, x, Index(h.word()))
				ft.Bounds(sc)
			}
			for _, id := range []int{0, 1, 2, 3, 4, 0xffff} {
				ft.Name(NameID(id))
			}
			ft.FUnitsPerEm()
			return hashOf(b), nil
		})
	}
}

func (h *vh) kernTable2(n int) []byte {
	b := ws(0, 1, 0, 14+6*n, 1, n, 0, 0, 0)
	for i := 0; i < n; i++ {
		b = append(b, ws(h.rng.Intn(8), h.rng.Intn(8), h.word())...)
	}
	return b
}
