package raster

import (
	"fmt"
	"image"
	"math"
	"sort"
	"strings"

	"golang.org/x/image/math/fixed"
)

type vpt = fixed.Point26_6

func vp(x, y int) vpt { return vpt{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)} }

// vop is a drawing call: kind 0 Start, 1 Add1, 2 Add2, 3 Add3, 4 Clear,
// 5 SetBounds(a[0],a[1]), 6 AddPath(path), 7 AddStroke(path, width)
type vop struct {
	kind  int
	p     [3]vpt
	path  Path
	width fixed.Int26_6
	cj    int
}

func (o vop) String() string {
	switch o.kind {
	case 0, 1, 2, 3:
		n := o.kind
		if n == 0 {
			n = 1
		}
		s := []string{"Start", "Add1", "Add2", "Add3"}[o.kind] + "("
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("{%d,%d}", int(o.p[i].X), int(o.p[i].Y))
		}
		return s + ")"
	case 4:
		return "Clear()"
	case 5:
		return fmt.Sprintf("SetBounds(%d,%d)", int(o.p[0].X), int(o.p[0].Y))
	case 6:
		return fmt.Sprintf("AddPath(%d)", []fixed.Int26_6(o.path))
	case 7:
		return fmt.Sprintf("AddStroke(%d,width=%d,capjoin=%d)", []fixed.Int26_6(o.path), int(o.width), o.cj)
	}
	return "?"
}

func vopsString(ops []vop) string {
	var b strings.Builder
	for i, o := range ops {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(o.String())
	}
	return b.String()
}

var vcaps = []Capper{nil, RoundCapper, ButtCapper, SquareCapper}
var vjoins = []Joiner{nil, RoundJoiner, BevelJoiner}

func vapply(r *Rasterizer, ops []vop) {
	for _, o := range ops {
		switch o.kind {
		case 0:
			r.Start(o.p[0])
		case 1:
			r.Add1(o.p[0])
		case 2:
			r.Add2(o.p[0], o.p[1])
		case 3:
			r.Add3(o.p[0], o.p[1], o.p[2])
		case 4:
			r.Clear()
		case 5:
			r.SetBounds(int(o.p[0].X), int(o.p[0].Y))
		case 6:
			r.AddPath(o.path)
		case 7:
			r.AddStroke(o.path, o.width, vcaps[o.cj%4], vjoins[o.cj/4%3])
		}
	}
}

// coordinate makes a coordinate for an image that is n pixels wide: aligned to
// pixels, near pixel edges, anywhere, inside, or far outside.
func (h *vh) coordinate(n int) int {
	r := h.rng
	switch r.Intn(8) {
	case 0, 1:
		return 64 * (r.Intn(n+5) - 2)
	case 2:
		return 64*(r.Intn(n+3)-1) + h.pick(-1, 1, 32, 31, 33, 63)
	case 3:
		return r.Intn(64*(n+40)) - 64*20
	case 4:
		if r.Intn(4) == 0 {
			return r.Intn(1<<17) - 1<<16
		}
		return r.Intn(64*n + 1)
	default:
		return r.Intn(64*n + 1)
	}
}

func (h *vh) point(w, hh int) vpt { return vp(h.coordinate(w), h.coordinate(hh)) }

// lines makes a polyline drawing: some curves, closed or not.
func (h *vh) lines(w, hh, max int) []vop {
	var ops []vop
	r := h.rng
	for c := 1 + r.Intn(3); c > 0; c-- {
		s := h.point(w, hh)
		ops = append(ops, vop{kind: 0, p: [3]vpt{s}})
		last := s
		for n := r.Intn(max + 1); n > 0; n-- {
			q := h.point(w, hh)
			switch r.Intn(6) {
			case 0:
				q.X = last.X
			case 1:
				q.Y = last.Y
			case 2:
				q = vpt{X: last.X + fixed.Int26_6(r.Intn(200)-100), Y: last.Y + fixed.Int26_6(r.Intn(200)-100)}
			}
			ops = append(ops, vop{kind: 1, p: [3]vpt{q}})
			last = q
		}
		if r.Intn(3) > 0 {
			ops = append(ops, vop{kind: 1, p: [3]vpt{s}})
		}
	}
	return ops
}

// path makes a well-formed path without cubic segments.
func (h *vh) path(w, hh, max int) Path {
	var p Path
	for c := 1 + h.rng.Intn(2); c > 0; c-- {
		last := h.point(w, hh)
		p.Start(last)
		pt := func() vpt {
			switch h.rng.Intn(6) {
			case 0:
				return last
			case 1:
				return vpt{X: last.X + fixed.Int26_6(h.rng.Intn(9)-4), Y: last.Y + fixed.Int26_6(h.rng.Intn(9)-4)}
			}
			return h.point(w, hh)
		}
		for n := h.rng.Intn(max + 1); n > 0; n-- {
			if h.rng.Intn(2) == 0 {
				last = pt()
				p.Add1(last)
			} else {
				b := pt()
				last = pt()
				p.Add2(b, last)
			}
		}
	}
	return p
}

// drawing makes any sequence of drawing calls.
func (h *vh) drawing(w, hh, max int) []vop {
	r := h.rng
	switch r.Intn(6) {
	case 0, 1:
		return h.lines(w, hh, max)
	case 2:
		return []vop{{kind: 7, path: h.path(w, hh, 3), width: fixed.Int26_6(r.Intn(64*6) - 20), cj: r.Intn(12)}}
	case 3:
		return []vop{{kind: 6, path: h.path(w, hh, max)}}
	}
	var ops []vop
	for n := r.Intn(max + 1); n > 0; n-- {
		ops = append(ops, vop{kind: r.Intn(4), p: [3]vpt{h.point(w, hh), h.point(w, hh), h.point(w, hh)}})
	}
	return ops
}

// size makes image sizes, below, between and above the thresholds of the
// curve flattening.
func (h *vh) size() (int, int) {
	f := func() int { return h.pick(0, 1, 2, 3, 5, 8, 13, 20, 24, 25, 30, 64, 100, 121, 300) }
	return f(), f()
}

// vcollect rasterizes and returns a copy of all the spans, and checks the
// protocol of the done argument.
func vcollect(r *Rasterizer) (spans []Span, err error) {
	done := 0
	r.Rasterize(PainterFunc(func(ss []Span, d bool) {
		if done != 0 {
			err = fmt.Errorf("the painter is called after done")
		}
		if d {
			done++
		}
		spans = append(spans, ss...)
		for i := range ss { // the painter may use the spans as scratch space
			ss[i] = Span{-9999, -9999, -9999, 12345}
		}
	}))
	if err == nil && done != 1 {
		err = fmt.Errorf("the painter is called %d times with done", done)
	}
	return
}

func vpts(ps []vpt) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprintf("{%d,%d}", int(p.X), int(p.Y))
	}
	return s
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func vmax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func vfloor(x int) int { return x >> 6 }

// rect makes an image's rectangle, possibly empty or at negative coordinates.
func (h *vh) rect() image.Rectangle {
	x, y := h.between(-30, 30), h.between(-30, 30)
	return image.Rect(x, y, x+h.pick(0, 1, 2, 5, 9, 17, 40), y+h.pick(0, 1, 2, 5, 9, 17))
}

// spans makes spans in painting order, some of them outside the rectangle b.
func (h *vh) spans(b image.Rectangle, overlap bool) []Span {
	n := h.pick(0, 1, 2, 5, 20)
	var ss []Span
	for i := 0; i < n; i++ {
		s := Span{Y: h.between(b.Min.Y-3, b.Max.Y+2), X0: h.between(b.Min.X-5, b.Max.X+5)}
		s.X1 = s.X0 + h.pick(1, 1, 2, 3, 8, 60)
		switch h.rng.Intn(12) {
		case 0:
			s.X0 = h.pick(math.MinInt32, -1000, b.Min.X)
		case 1:
			s.X1 = h.pick(math.MaxInt32, 1000, b.Max.X)
		case 2:
			s.X1 = s.X0
		}
		if s.X1 < s.X0 {
			s.X1 = s.X0
		}
		s.Alpha = uint32(h.pick(1, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, h.rng.Intn(0xffff)+1, h.rng.Intn(0xffff)+1))
		ss = append(ss, s)
	}
	sort.SliceStable(ss, func(i, j int) bool {
		return ss[i].Y < ss[j].Y || ss[i].Y == ss[j].Y && ss[i].X0 < ss[j].X0
	})
	if !overlap {
		for i := 1; i < len(ss); i++ {
			if ss[i].Y == ss[i-1].Y && ss[i].X0 < ss[i-1].X1 {
				ss[i].X0 = ss[i-1].X1
				if ss[i].X1 < ss[i].X0 {
					ss[i].X1 = ss[i].X0
				}
			}
		}
	}
	return ss
}

// within picks a sub-rectangle.
func (h *vh) within(b image.Rectangle) image.Rectangle {
	if h.rng.Intn(3) == 0 {
		return b
	}
	x, y := b.Min.X+h.rng.Intn(b.Dx()+1), b.Min.Y+h.rng.Intn(b.Dy()+1)
	return image.Rect(x, y, x+h.rng.Intn(b.Max.X-x+1), y+h.rng.Intn(b.Max.Y-y+1))
}

// vrec is an Adder that records its calls.
type vrec struct{ ops []vop }

func (r *vrec) Start(a vpt)      { r.ops = append(r.ops, vop{kind: 0, p: [3]vpt{a}}) }
func (r *vrec) Add1(b vpt)       { r.ops = append(r.ops, vop{kind: 1, p: [3]vpt{b}}) }
func (r *vrec) Add2(b, c vpt)    { r.ops = append(r.ops, vop{kind: 2, p: [3]vpt{b, c}}) }
func (r *vrec) Add3(b, c, d vpt) { r.ops = append(r.ops, vop{kind: 3, p: [3]vpt{b, c, d}}) }
