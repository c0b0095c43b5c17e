package truetype

import (
	"fmt"
	"testing"

	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// hintFont is a font of one glyph with the given programs.
func (h *vh) hintFont(fpgm, prep, glyph []byte, maxp [4]int, g vglyph) []byte {
	f := h.newFont(1)
	f.upem, f.maxp = 1000, maxp
	f.tables["fpgm"], f.tables["prep"], f.tables["cvt "] = fpgm, prep, ws(100, 200, 65436, 0)
	g.program = glyph
	f.glyphs[0] = h.encode(g)
	return f.build()
}

func TestVerifC08(t *testing.T) {
	h := newVH(t)
	defer h.done()
	run := func(fpgm, prep, prog []byte, maxp [4]int, g vglyph) {
		fb := h.hintFont(fpgm, prep, prog, maxp, g)
		s := fixed.Int26_6(h.pick(1000, 640, 768, 64, 1, -1000, 1<<20))
		ft, err := Parse(fb)
		if err != nil {
			return
		}
		h.Case(func() string {
			return fmt.Sprintf("font program %x, control value program %x, glyph program %x, maxp %v: %s", fpgm, prep, prog, maxp, descLoad(fb, s, 0, font.HintingFull, ""))
		}, func() (uint64, error) {
			var b GlyphBuf
			if err := b.Load(ft, s, 0, font.HintingFull); err != nil {
				return 0, nil
			}
			return hashOf(fpgm, prep, prog, b.Points), wellformed(&b, font.HintingFull)
		})
	}
	tri := vglyph{ends: []int{3, 7}, pts: []Point{{X: 0, Y: 0, Flags: 1}, {X: 100, Y: 0, Flags: 1}, {X: 0, Y: 100, Flags: 1}, {X: 10, Y: 10}, {X: 20, Y: 10, Flags: 1}, {X: 20, Y: 20}, {X: 15, Y: 33, Flags: 1}}}
	norm := [4]int{4, 16, 4, 20}
	// every instruction with every stack depth up to six, and with a full stack
	for op := 0; op < 256; op++ {
		for d := 0; d <= 6; d++ {
			for k := 0; k < 8; k++ {
				var p []byte
				if k >= 3 { // a graphics state at the edges: zones, reference points, loop, vectors
					for _, o := range []byte{0x13, 0x14, 0x15} {
						if h.rng.Intn(2) == 0 {
							p = append(pushVal(p, int32(h.pick(0, 0, 1, 2))), o)
						}
					}
					for _, o := range []byte{0x10, 0x11, 0x12} {
						if h.rng.Intn(2) == 0 {
							p = append(pushVal(p, int32(h.pick(0, 3, 6, 7, 8, 10, 11, -1, 15, 16, 1<<30))), o)
						}
					}
					if h.rng.Intn(3) == 0 {
						p = append(pushVal(p, int32(h.pick(0, 2, 5, 7))), 0x17)
					}
					if h.rng.Intn(3) == 0 {
						p = append(p, byte(h.pick(0, 1, 4)))
					}
				}
				if k == 1 {
					p = append(p, 0xb0, 0, 0x16) // all zones to the twilight zone
				}
				for j := 0; j < d; j++ {
					p = pushVal(p, h.operand())
				}
				p = append(p, byte(op))
				if h.rng.Intn(3) == 0 {
					p = append(p, byte(h.rng.Intn(256)), 0x59)
				}
				run(nil, nil, p, norm, tri)
			}
		}
		for _, full := range []int{254, 255, 256} {
			var p []byte
			for j := 0; j < full; j++ {
				p = append(p, 0xb0, byte(h.rng.Intn(8)))
			}
			p = append(p, byte(op), 3, 1, 2, 3, 4)
			run(nil, nil, p, norm, tri)
			run(nil, p, nil, norm, tri)
		}
	}
	// loops that never end by themselves, in each kind of program
	var loops [][]byte
	loops = append(loops, []byte{0xb8, 0xff, 0xfd, 0x1c}) // jump to itself: the stack stays as it is
	loops = append(loops, []byte{0xb0, 0, 0x2c, 0xb0, 0, 0x2b, 0x2d, 0xb0, 0, 0x2b})
	loops = append(loops, append([]byte{0xb0, 0, 0x2c, 0xb0, 1, 0x61, 0x2d}, append(pushVal(nil, 1<<31-1), 0xb0, 0, 0x2a)...))
	loops = append(loops, append(append([]byte{0xb0, 0, 0x2c, 0x2d}, pushVal(nil, 1<<31-1)...), 0xb0, 0, 0x2a))
	loops = append(loops, append(append([]byte{0xb0, 0, 0x2c}, append(pushVal(nil, 1<<30), 0xb0, 0, 0x2a)...), 0x2d, 0xb0, 0, 0x2b))
	for _, op := range []byte{0x80, 0x32, 0x33, 0x38, 0x39, 0x3c, 0x10, 0x5d, 0x71, 0x72, 0x73, 0x74, 0x75} {
		loops = append(loops, append(append(append(pushVal(nil, 1<<31-1), 0x17), 0xb2, 1, 2, 3), op))
	}
	for d := -6; d < 4; d++ {
		loops = append(loops, append(pushVal([]byte{0x4f, 0x4f, 0x4f}, int32(d)), 0x1c))
		loops = append(loops, append(pushVal([]byte{0xb0, 1, 0xb0, 1, 0x20}, int32(d)), 0xb0, 1, 0x78))
	}
	for _, l := range loops {
		run(l, nil, nil, norm, tri)
		run(nil, l, nil, norm, tri)
		run(nil, nil, l, norm, tri)
	}
	// unfinished pushes, definitions and conditions, and nested ones
	for _, p := range [][]byte{{0x40}, {0x41}, {0x40, 255}, {0x41, 255, 0}, {0xb7, 1}, {0xbf, 0, 1}, {0xb0, 0, 0x2c}, {0xb0, 0, 0x2c, 0x40}, {0xb0, 0, 0x58}, {0xb0, 0, 0x58, 0x58},
		{0xb0, 0, 0x58, 0x40}, {0xb0, 0, 0x58, 0x41, 200}, {0xb0, 1, 0x58, 0x1b}, {0x1b}, {0x59}, {0x2d}, {0xb0, 0, 0x2c, 0xb0, 1, 0x2c, 0x2d, 0x2d}} {
		run(p, nil, nil, norm, tri)
		run(nil, nil, p, norm, tri)
	}
	for i := 0; i < h.n(60000) && h.more(); i++ {
		g := tri
		if h.rng.Intn(2) == 0 {
			g = h.outline(3, 8)
		}
		maxp := norm
		if h.rng.Intn(2) == 0 {
			maxp = [4]int{h.pick(0, 1, 4, 100), h.pick(0, 1, 255, 256, 257), h.pick(0, 1, 15, 16, 17), h.pick(0, 1, 20)}
		}
		run(h.program(), h.program(), h.bytecode(h.between(1, 25)), maxp, g)
	}
}
