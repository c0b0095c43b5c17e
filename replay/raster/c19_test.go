package raster

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"golang.org/x/image/math/fixed"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(12000) && h.more(); i++ {
		var ops []vop
		w, hh := 1+h.rng.Intn(30), 1+h.rng.Intn(30)
		cubic := h.rng.Intn(3) > 0
		for n := h.pick(0, 1, 2, 3, 10, 30); n > 0; n-- {
			k := h.rng.Intn(4)
			if len(ops) == 0 {
				k = 0
			}
			if k == 3 && !cubic {
				k = 2
			}
			o := vop{kind: k}
			for j := 0; j < k || j == 0; j++ {
				o.p[j] = h.point(w, hh)
				if h.rng.Intn(5) == 0 {
					o.p[j] = vp(h.rng.Intn(4), h.rng.Intn(4)) // looks like a tag
				}
			}
			ops = append(ops, o)
		}
		split := h.rng.Intn(len(ops) + 1)
		h.Case(func() string {
			return fmt.Sprintf("recorded (the calls from %d on by way of AddPath): %s", split, vopsString(ops))
		}, func() (uint64, error) {
			junk := make(Path, 0, h.rng.Intn(40))
			p := junk
			rec := func(p *Path, ops []vop) {
				for _, o := range ops {
					switch o.kind {
					case 0:
						p.Start(o.p[0])
					case 1:
						p.Add1(o.p[0])
					case 2:
						p.Add2(o.p[0], o.p[1])
					case 3:
						p.Add3(o.p[0], o.p[1], o.p[2])
					}
				}
			}
			if h.rng.Intn(2) == 0 {
				rec(&p, ops)
				p.Clear()
				if len(p) != 0 {
					return 0, fmt.Errorf("not cleared: %v", p)
				}
			}
			rec(&p, ops[:split])
			q := make(Path, 0, h.pick(0, 0, 40))
			rec(&q, ops[split:])
			p.AddPath(q)
			// what is recorded in either later does not show in the other
			was, end := append(Path(nil), p...), len(q)
			q.Add2(vp(1, 2), vp(3, 4))
			p.Add1(vp(5, 6))
			if !reflect.DeepEqual(q[end:], Path{2, 1, 2, 3, 4, 2}) {
				return 0, fmt.Errorf("recording in a path changes the one that was added to it: %v", q[end:])
			}
			q.Clear()
			q.Start(vp(7, 7))
			if len(was) > 0 && !reflect.DeepEqual(p[:len(was)], was) || !reflect.DeepEqual(p[len(was):], Path{1, 5, 6, 1}) {
				return 0, fmt.Errorf("recording in a path changes another that it was added to: %v was %v", p, was)
			}
			p = p[:len(was)]
			// replaying it
			a, b := NewRasterizer(w, hh), NewRasterizer(w, hh)
			a.AddPath(p)
			vapply(b, ops)
			ga, _ := vcollect(a)
			gb, _ := vcollect(b)
			if a.a != b.a || !reflect.DeepEqual(ga, gb) {
				return 0, fmt.Errorf("adding the path to a rasterizer is not the same as the calls: %v", p)
			}
			// the text form
			want := ""
			for i, o := range ops {
				if i > 0 {
					want += " "
				}
				n := vmax(o.kind, 1)
				var xs []fixed.Int26_6
				for j := 0; j < n; j++ {
					xs = append(xs, o.p[j].X, o.p[j].Y)
				}
				want += "SAAA"[o.kind:o.kind+1] + fmt.Sprint(o.kind) + fmt.Sprint(xs)
			}
			if s := p.String(); s != want {
				return 0, fmt.Errorf("String is %q, want %q", s, want)
			}
			if !strings.Contains(vopsString(ops), "Add3") {
				var d Path
				d.AddStroke(p, 64, nil, nil)
			}
			// reversed, one curve at a time
			for i := 0; i < len(ops); {
				j := i + 1
				for j < len(ops) && ops[j].kind != 0 {
					j++
				}
				var c Path
				rec(&c, ops[i:j])
				var r vrec
				addPathReversed(&r, c)
				if err := vreversed(ops[i:j], r.ops); err != nil {
					return 0, err
				}
				i = j
			}
			if len(ops) < 2 {
				return 0, nil
			}
			return hashOf(p), nil
		})
	}
}

func vreversed(curve, got []vop) error {
	end := func(o vop) vpt {
		if o.kind == 0 {
			return o.p[0]
		}
		return o.p[o.kind-1]
	}
	if len(got) != len(curve)-1 {
		return fmt.Errorf("%d segments became %d when reversed: %s", len(curve)-1, len(got), vopsString(got))
	}
	for k, g := range got {
		o, prev := curve[len(curve)-1-k], end(curve[len(curve)-2-k])
		want := vop{kind: o.kind}
		switch o.kind {
		case 1:
			want.p[0] = prev
		case 2:
			want.p[0], want.p[1] = o.p[0], prev
		case 3:
			want.p[0], want.p[1], want.p[2] = o.p[1], o.p[0], prev
		}
		if g.kind != want.kind || g.p != want.p {
			return fmt.Errorf("reversed segment %d is %v, want %v", k, g, want)
		}
	}
	return nil
}
