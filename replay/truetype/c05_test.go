package truetype

import (
	"fmt"
	"testing"
)

func TestVerifC05(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(6000) && h.more(); i++ {
		f := h.newFont(1)
		n := h.rng.Intn(6)
		store := h.bytes(h.rng.Intn(60))
		for j := range store {
			if h.rng.Intn(2) == 0 {
				store[j] = byte(h.pick(0, 0x1f, 0x20, 0x41, 0x7e, 0x7f))
			}
		}
		b := ws(0, n, 6+12*n)
		if h.rng.Intn(8) == 0 {
			copy(b[4:], ws(h.rng.Intn(6+12*n+len(store)+2)))
		}
		type rec struct{ pp, id, l, o int }
		var recs []rec
		for j := 0; j < n; j++ {
			l := h.rng.Intn(len(store) + 1)
			if h.rng.Intn(3) > 0 {
				l &^= 1
			}
			r := rec{h.pick(3, 4, 0x30000, 0x30001, 0x3000a, 0x10000, 0), h.rng.Intn(4), l, h.rng.Intn(len(store) - l + 1)}
			if h.rng.Intn(10) == 0 {
				r.o = h.pick(len(store)-l+1, 0xffff, len(store))
			}
			recs = append(recs, r)
			b = append(b, ws(r.pp>>16, r.pp&0xffff, 0, r.id, r.l, r.o)...)
		}
		b = append(b, store...)
		if h.rng.Intn(10) == 0 {
			b = b[:h.rng.Intn(len(b))]
		}
		f.tables["name"] = b
		fb := f.build()
		ft, err := Parse(fb)
		if err != nil {
			continue
		}
		for id := 0; id < 4; id++ {
			h.Case(func() string { return fmt.Sprintf("Name(%d) of the name table %x", id, b) }, func() (uint64, error) {
				want := ""
				if len(b) >= 6+12*n && len(b) >= 6 {
					best := -1
					for j := len(recs) - 1; j >= 0; j-- {
						if p := recs[j].pp; recs[j].id == id && (p == 0x30000 || p == 0x30001 || p == 0x3000a) {
							best = j
							break
						}
					}
					for j := range recs {
						if recs[j].id == id && (recs[j].pp == 3 || recs[j].pp == 4) {
							best = j
							break
						}
					}
					if best >= 0 {
						r := recs[best]
						o := int(b[4])<<8 | int(b[5]) + r.o
						o = (int(b[4])<<8 | int(b[5])) + r.o
						if o+r.l <= len(b) && r.l%2 == 0 {
							for k := 0; k < r.l; k += 2 {
								c := int(b[o+k])<<8 | int(b[o+k+1])
								if c < 0x20 || c > 0x7e {
									c = '?'
								}
								want += string(rune(c))
							}
						}
					}
				}
				if got := ft.Name(NameID(id)); got != want {
					return 0, fmt.Errorf("got %q, want %q", got, want)
				}
				if want == "" {
					return 0, nil
				}
				return hashOf(id, b), nil
			})
		}
	}
}
