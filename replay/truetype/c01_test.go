package truetype

import (
	"fmt"
	"testing"
)

func (h *vh) kernTable(n int) []byte {
	b := ws(0, 1, 0, 14+6*n, 1, n, 0, 0, 0)
	for i := 0; i < n; i++ {
		b = append(b, h.bytes(6)...)
	}
	return b
}

func TestVerifC01(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(6000) && h.more(); i++ {
		var b []byte
		switch h.rng.Intn(10) {
		case 0:
			b = h.bytes(h.rng.Intn(200))
			if len(b) > 4 {
				copy(b, [][]byte{{0, 1, 0, 0}, []byte("ttcf")}[h.rng.Intn(2)])
			}
		case 1:
			if i%8 == 0 {
				b = h.luxi()
				break
			}
			fallthrough
		default:
			f := h.newFont(h.rng.Intn(6))
			for _, k := range vtags {
				switch h.rng.Intn(4) {
				case 0:
					if _, ok := f.tables[k]; !ok && k != "head" && k != "maxp" && k != "hhea" && k != "kern" {
						f.tables[k] = h.bytes(h.pick(0, 1, 4, 8, h.rng.Intn(40)))
					}
				}
			}
			if h.rng.Intn(3) == 0 {
				f.tables["kern"] = h.kernTable(h.rng.Intn(4))
			}
			if h.rng.Intn(3) == 0 {
				f.tables["cmap"] = cmapTable([]cmapSub{{h.pick(3, 4, 0x30001, 0x3000a, 7), cmap12([]seg{{32, 126, 3, 0}, {1000, 2000, 5, 0}})}})
			}
			b = f.build()
			n := len(b)
			// a directory of one sort of trouble or another
			nt := int(b[4])<<8 | int(b[5])
			if h.rng.Intn(4) == 0 && nt > 1 {
				x, y := h.rng.Intn(nt), h.rng.Intn(nt)
				copy(b[12+16*x:][:4], b[12+16*y:][:4]) // a repeated tag
			}
			if h.rng.Intn(6) == 0 {
				p := 12 + 16*h.rng.Intn(nt) + h.pick(8, 12)
				copy(b[p:], w32(nil, h.pick(0, 1, n, n-1, n+1, 0x7fffffff, 0x80000000, 0xffffffff, h.rng.Intn(n))))
			}
			if h.rng.Intn(5) == 0 { // a collection
				o := h.pick(12, 16, 20, 20, 20, 24)
				c := append([]byte("ttcf"), w32(nil, h.pick(0x10000, 0x20000, 0x10000, 0x30000))...)
				c = w32(c, h.pick(1, 1, 1, 2, 0, 0x40000000, 0x7fffffff))
				c = w32(c, o+h.pick(0, 0, 0, 1, -12, 1<<20))
				for len(c) < o {
					c = append(c, 0)
				}
				c = append(c, b...)
				d := c[o:]
				for j := 0; j < nt && 12+16*j+12 < len(d); j++ {
					p := 12 + 16*j + 8
					v := int(d[p])<<24 | int(d[p+1])<<16 | int(d[p+2])<<8 | int(d[p+3])
					copy(d[p:], w32(nil, v+o))
				}
				b = c
			}
		}
		switch h.rng.Intn(4) {
		case 0:
			for n := h.between(1, 4); n > 0 && len(b) > 0; n-- {
				j := h.rng.Intn(len(b))
				if h.rng.Intn(2) == 0 && len(b) > 300 {
					j = h.rng.Intn(300)
				}
				b[j] = byte(h.pick(0, 1, 0x7f, 0x80, 0xff, h.rng.Intn(256)))
			}
		case 1:
			if h.rng.Intn(3) == 0 {
				b = b[:h.rng.Intn(len(b)+1)]
			}
		}
		b = b[:len(b):len(b)]
		keep := append([]byte(nil), b...)
		h.Case(func() string { return "Parse of " + vhex(keep) }, func() (uint64, error) {
			f, err := Parse(b)
			if (f == nil) == (err == nil) {
				return 0, fmt.Errorf("font %v and error %v", f != nil, err)
			}
			if string(b) != string(keep) {
				return 0, fmt.Errorf("the data was changed")
			}
			if err != nil {
				if !typedErr(err) {
					return 0, fmt.Errorf("error of type %T: %v", err, err)
				}
				return 0, nil
			}
			want := dirTables(b)
			for k, got := range f.allTables() {
				w := want[k]
				if len(got) != len(w) || len(w) > 0 && &got[0] != &w[0] {
					return 0, fmt.Errorf("table %q is not the slice that the directory designates: %d bytes, want %d", k, len(got), len(w))
				}
			}
			return hashOf(keep), nil
		})
	}
}
