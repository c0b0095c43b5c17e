package truetype

import (
	"math"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// quantize rounds v to the nearest of q positions per pixel, halves up.
func quantize(v fixed.Int26_6, q int) int {
	step := 64 / q
	return int(math.Floor(float64(v)/float64(step)+0.5)) * step
}

// vOptions is a random options value, and the configuration that it stands for.
type vOptions struct {
	o               *Options
	size, dpi       float64
	hint            font.Hinting
	entries, sx, sy int
}

func (h *vh) options() vOptions {
	v := vOptions{size: 12, dpi: 72, entries: 512, sx: 4, sy: 1}
	if h.rng.Intn(12) == 0 {
		return v
	}
	v.o = &Options{}
	v.o.Size = []float64{0, 0, -3, 6, 10.5, 12, 20, math.Copysign(0, -1), 0.75}[h.rng.Intn(9)]
	v.o.DPI = []float64{0, -72, 72, 96, 100.3, 36, 1, 0.5}[h.rng.Intn(8)]
	v.o.Hinting = font.Hinting(h.pick(0, 1, 2, 2, 3, -1))
	v.o.GlyphCacheEntries = h.pick(0, 1, 2, 4, 8, 16, 64, 256, 512, 3, 12, -4, 511)
	v.o.SubPixelsX = h.pick(0, 1, 2, 4, 8, 16, 32, 64, 3, 128, -1)
	v.o.SubPixelsY = h.pick(0, 1, 2, 4, 8, 16, 32, 64, 5, 128, -8)
	if v.o.Size > 0 {
		v.size = v.o.Size
	}
	if v.o.DPI > 0 {
		v.dpi = v.o.DPI
	}
	if v.o.Hinting == font.HintingFull || v.o.Hinting == font.HintingVertical {
		v.hint = font.HintingFull
	}
	if e := v.o.GlyphCacheEntries; e > 0 {
		for p := 1; p <= 4096; p *= 2 {
			if p == e {
				v.entries = e
			}
		}
	}
	for p := 1; p <= 64; p *= 2 {
		if v.o.SubPixelsX == p {
			v.sx = p
		}
		if v.o.SubPixelsY == p {
			v.sy = p
		}
	}
	return v
}

func (v vOptions) scale() fixed.Int26_6 { return fixed.Int26_6(0.5 + v.size*v.dpi*64/72) }
