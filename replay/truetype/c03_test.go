package truetype

import (
	"fmt"
	"testing"
)

func TestVerifC03(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(4000) && h.more(); i++ {
		f := h.newFont(1)
		nsub := h.between(1, 4)
		var subs []cmapSub
		type model struct {
			segs []seg
			arr  []byte
			f12  bool
		}
		var models []model
		for j := 0; j < nsub; j++ {
			m := model{f12: h.rng.Intn(3) == 0}
			max := 0xffff
			if m.f12 && h.rng.Intn(2) == 0 {
				max = 0xffffffff
			}
			// sorted, disjoint segments
			at := 0
			n, spread := h.rng.Intn(7), max/4
			if i%100 == 0 {
				n, spread = h.between(200, 1500), 40
			}
			for ; n > 0 && at <= max; n-- {
				s := at + h.pick(0, 0, 1, h.rng.Intn(20), h.rng.Intn(spread))
				e := s + h.pick(0, 1, h.rng.Intn(10), h.rng.Intn(spread))
				if e > max || spread > 40 && h.rng.Intn(12) == 0 {
					e = max
				}
				if s > e {
					break
				}
				sg := seg{start: s, end: e, delta: h.word()}
				if m.f12 {
					sg.delta = h.pick(0, 1, 65535, 65536, 0xffffffff, h.rng.Intn(1<<17))
				}
				m.segs = append(m.segs, sg)
				at = e + 1
			}
			if m.f12 {
				subs = append(subs, cmapSub{data: cmap12(m.segs)})
			} else {
				m.arr = h.bytes(h.rng.Intn(60))
				for j := range m.arr {
					if h.rng.Intn(3) == 0 {
						m.arr[j] = 0
					}
				}
				for j := range m.segs {
					if h.rng.Intn(2) == 0 {
						m.segs[j].offset = 2*(len(m.segs)-j) + h.rng.Intn(30)
					}
					if h.rng.Intn(10) == 0 {
						m.segs[j].offset = h.word()
					}
				}
				subs = append(subs, cmapSub{data: cmap4(m.segs, m.arr)})
			}
			subs[j].pidPsid = h.pick(3, 4, 0x30000, 0x30001, 0x3000a, 0, 0x10000, 0x30002)
			models = append(models, m)
		}
		// the subtable that counts
		best := -1
		for j := len(subs) - 1; j >= 0; j-- {
			if p := subs[j].pidPsid; p == 0x30000 || p == 0x30001 || p == 0x3000a {
				best = j
				break
			}
		}
		for j := range subs {
			if subs[j].pidPsid == 3 || subs[j].pidPsid == 4 {
				best = j
				break
			}
		}
		cm := cmapTable(subs)
		f.tables["cmap"] = cm
		b := f.build()
		var runes []uint32
		for _, m := range models {
			for _, s := range m.segs {
				runes = append(runes, uint32(s.start), uint32(s.end), uint32(s.start-1), uint32(s.end+1), uint32(s.start+(s.end-s.start)/2))
				for k := 0; k < 4; k++ {
					runes = append(runes, uint32(s.start+k))
				}
			}
		}
		runes = append(runes, 0, 0xffff, 0x10000, 0xffffffff, h.rng.Uint32(), uint32(h.word()))
		h.Case(func() string { return fmt.Sprintf("runes of the cmap table %x", cm) }, func() (uint64, error) {
			ft, err := Parse(b)
			if best < 0 {
				if err == nil {
					return 0, fmt.Errorf("accepted without a usable subtable")
				}
				return 0, nil
			}
			if err != nil {
				return 0, err
			}
			m := models[best]
			// the glyph array follows to the end of the cmap table
			o := 4 + 8*len(subs)
			for j := 0; j < best; j++ {
				o += len(subs[j].data)
			}
			arr := cm[o+16+8*len(m.segs)*0:]
			if !m.f12 {
				arr = cm[o+16+8*len(m.segs):]
			}
			hit := 0
			for _, c := range runes {
				want := 0
				for k, s := range m.segs {
					if uint32(s.start) <= c && c <= uint32(s.end) {
						hit++
						d := int(c) - s.start
						if m.f12 {
							want = (s.delta + d) & 0xffff
						} else if s.offset == 0 {
							want = (int(c) + s.delta) & 0xffff
						} else {
							p := s.offset + 2*d - 2*(len(m.segs)-k)
							if p >= 0 && p+2 <= len(arr) {
								want = int(arr[p])<<8 | int(arr[p+1])
								if want != 0 {
									want = (want + s.delta) & 0xffff
								}
							}
						}
					}
				}
				if got := ft.Index(rune(c)); int(got) != want {
					return 0, fmt.Errorf("rune %#x has index %d, want %d", c, got, want)
				}
			}
			if hit == 0 {
				return 0, nil
			}
			return hashOf(cm), nil
		})
	}
}
