package truetype

import (
	"fmt"
	"math/big"
	"testing"

	"golang.org/x/image/math/fixed"
)

// c09ref is an interpreter of the instructions of C09 that follows the
// instruction set's description and shares nothing with the package.
type c09ref struct {
	stack, store             []int32
	room                     int
	period, phase, threshold int64
	super45                  bool
	gs                       graphicsState // but for the rounding state
	cvt                      []int32
	scale, upem              int
	failed                   bool
	excluded                 bool // a result that C09 says nothing of
	over                     bool // a jump left the program
}

func (r *c09ref) pop() int32 {
	if len(r.stack) == 0 {
		r.failed = true
		return 0
	}
	v := r.stack[len(r.stack)-1]
	r.stack = r.stack[:len(r.stack)-1]
	return v
}

func (r *c09ref) push(v int64) {
	if r.failed {
		return
	}
	if len(r.stack) == r.room {
		r.failed = true
		return
	}
	r.stack = append(r.stack, int32(v))
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (r *c09ref) round(v int64) int64 {
	if r.period == 0 {
		return v
	}
	if v == 0 || v > 2147483000 || v < -2147483000 {
		r.excluded = true
		return 0
	}
	s := int64(1)
	if v < 0 {
		s, v = -1, -v
	}
	q := floorDiv(v-r.phase+r.threshold, r.period) * r.period
	if q < 0 {
		q = 0
	}
	return s * (q + r.phase)
}

// safeRun is run, except that a program that executes other instructions is excluded.
func (r *c09ref) safeRun(p []byte) (ok bool) {
	defer func() {
		if x := recover(); x == errOther {
			r.excluded = true
		} else if x != nil {
			panic(x)
		}
	}()
	return r.run(p)
}

const errOther = "an instruction that is not of C09"

// run runs the program and reports whether it ends without an error.
func (r *c09ref) run(p []byte) bool {
	steps, pc := 0, 0
	type frame struct {
		p         []byte
		pc, times int
	}
	var calls []frame
	functions := map[int32][]byte{}
	defer func() { r.over = pc != len(p) || len(calls) > 0 }()
	for ; pc >= 0 && pc < len(p); pc++ {
		if steps++; steps >= 100000 {
			return false
		}
		op := p[pc]
		b2i := func(b bool) int64 {
			if b {
				return 1
			}
			return 0
		}
		bin := func(f func(a, b int64) int64) {
			b, a := int64(r.pop()), int64(r.pop())
			if !r.failed {
				r.push(f(a, b))
			}
		}
		un := func(f func(a int64) int64) {
			a := int64(r.pop())
			if !r.failed {
				r.push(f(a))
			}
		}
		state := func(p, ph, th int64) { r.period, r.phase, r.threshold, r.super45 = p, ph, th, false }
		switch {
		case op == 0x40 || op == 0x41 || op >= 0xb0 && op <= 0xbf:
			n, words := 0, op == 0x41 || op >= 0xb8
			if op < 0xb0 {
				pc++
				if pc >= len(p) {
					return false
				}
				n = int(p[pc])
			} else {
				n = int(op&7) + 1
			}
			w := 1
			if words {
				w = 2
			}
			if len(r.stack)+n > r.room || pc+1+w*n > len(p) {
				return false
			}
			for k := 0; k < n; k++ {
				if words {
					r.push(int64(int16(uint16(p[pc+1])<<8 | uint16(p[pc+2]))))
				} else {
					r.push(int64(p[pc+1]))
				}
				pc += w
			}
		case op == 0x50:
			bin(func(a, b int64) int64 { return b2i(a < b) })
		case op == 0x51:
			bin(func(a, b int64) int64 { return b2i(a <= b) })
		case op == 0x52:
			bin(func(a, b int64) int64 { return b2i(a > b) })
		case op == 0x53:
			bin(func(a, b int64) int64 { return b2i(a >= b) })
		case op == 0x54:
			bin(func(a, b int64) int64 { return b2i(a == b) })
		case op == 0x55:
			bin(func(a, b int64) int64 { return b2i(a != b) })
		case op == 0x56:
			un(func(a int64) int64 { return floorDiv(r.round(a), 64) & 1 })
		case op == 0x57:
			un(func(a int64) int64 { return 1 - floorDiv(r.round(a), 64)&1 })
		case op == 0x5a:
			bin(func(a, b int64) int64 { return b2i(a != 0 && b != 0) })
		case op == 0x5b:
			bin(func(a, b int64) int64 { return b2i(a != 0 || b != 0) })
		case op == 0x5c:
			un(func(a int64) int64 { return b2i(a == 0) })
		case op == 0x60:
			bin(func(a, b int64) int64 { return a + b })
		case op == 0x61:
			bin(func(a, b int64) int64 { return a - b })
		case op == 0x62:
			b, a := int64(r.pop()), int64(r.pop())
			if r.failed || b == 0 {
				return false
			}
			r.push(64 * a / b)
		case op == 0x63:
			bin(func(a, b int64) int64 { return floorDiv(a*b+32, 64) })
		case op == 0x64:
			un(func(a int64) int64 {
				if a < 0 {
					return -a
				}
				return a
			})
		case op == 0x65:
			un(func(a int64) int64 { return -a })
		case op == 0x66:
			un(func(a int64) int64 { return floorDiv(a, 64) * 64 })
		case op == 0x67:
			un(func(a int64) int64 { return -floorDiv(-a, 64) * 64 })
		case op == 0x8b:
			bin(func(a, b int64) int64 { return max(a, b) })
		case op == 0x8c:
			bin(func(a, b int64) int64 { return min(a, b) })
		case op >= 0x68 && op <= 0x6b:
			un(r.round)
		case op >= 0x6c && op <= 0x6f:
			un(func(a int64) int64 { return a })
		case op == 0x20:
			a := int64(r.pop())
			if !r.failed {
				r.push(a)
				r.push(a)
			}
		case op == 0x21:
			r.pop()
		case op == 0x22:
			r.stack = r.stack[:0]
		case op == 0x23:
			b, a := int64(r.pop()), int64(r.pop())
			r.push(b)
			r.push(a)
		case op == 0x24:
			r.push(int64(len(r.stack)))
		case op == 0x25 || op == 0x26:
			k := int(r.pop())
			if r.failed || k <= 0 || k > len(r.stack) {
				return false
			}
			i := len(r.stack) - k
			v := r.stack[i]
			if op == 0x26 {
				r.stack = append(append([]int32{}, r.stack[:i]...), r.stack[i+1:]...)
			}
			r.push(int64(v))
		case op == 0x8a:
			c, b, a := int64(r.pop()), int64(r.pop()), int64(r.pop())
			r.push(b)
			r.push(c)
			r.push(a)
		case op == 0x42:
			v, i := r.pop(), int(r.pop())
			if r.failed || i < 0 || i >= len(r.store) {
				return false
			}
			r.store[i] = v
		case op == 0x43:
			i := int(r.pop())
			if r.failed || i < 0 || i >= len(r.store) {
				return false
			}
			r.push(int64(r.store[i]))
		case op == 0x18:
			state(64, 0, 32)
		case op == 0x19:
			state(64, 32, 32)
		case op == 0x3d:
			state(32, 0, 16)
		case op == 0x7a:
			state(0, 0, 0)
		case op == 0x7c:
			state(64, 0, 63)
		case op == 0x7d:
			state(64, 0, 0)
		case op == 0x76 || op == 0x77:
			v := r.pop()
			if r.failed {
				return false
			}
			r.super45 = op == 0x77
			periods := []int64{32, 64, 128}
			if r.super45 {
				periods = []int64{22, 45, 90}
			}
			if k := v >> 6 & 3; k < 3 {
				r.period = periods[k]
			} else {
				r.excluded = true
				return true
			}
			r.phase = r.period * int64(v>>4&3) / 4
			if v&15 == 0 {
				r.threshold = r.period - 1
			} else {
				// in eighths of the period, rounded towards zero
				r.threshold = (int64(v&15) - 4) * r.period / 8
			}
		case op == 0x1c || op == 0x78 || op == 0x79:
			take := true
			if op != 0x1c {
				c := r.pop()
				take = (c != 0) == (op == 0x78)
			}
			d := int(r.pop())
			if r.failed {
				return false
			}
			if take {
				pc += d - 1
			}
		case op == 0x58:
			c := r.pop()
			if r.failed {
				return false
			}
			if c == 0 {
				if pc = skipBranch(p, pc, true); pc < 0 {
					return false
				}
			}
		case op == 0x1b:
			if pc = skipBranch(p, pc, false); pc < 0 {
				return false
			}
		case op == 0x59:
		case op == 0x2a || op == 0x2b:
			f, ok := functions[r.pop()]
			n := int32(1)
			if op == 0x2a {
				n = r.pop()
			}
			if r.failed || !ok || len(calls) == 32 {
				return false
			}
			if n < 0 {
				r.excluded = true
			}
			if n > 0 {
				calls = append(calls, frame{p, pc, int(n)})
				p, pc = f, -1
			}
		case op == 0x2c:
			end := skipFunction(p, pc)
			k := r.pop()
			if r.failed || end < 0 {
				return false
			}
			functions[k] = p[pc+1 : end+1]
			pc = end
		case op == 0x2d:
			if len(calls) == 0 {
				return false
			}
			c := &calls[len(calls)-1]
			if c.times--; c.times > 0 {
				pc = -1
			} else {
				p, pc = c.p, c.pc
				calls = calls[:len(calls)-1]
			}
		case op <= 5: // 0: the y axis, 1: the x axis
			v := [2]f2dot14{f2dot14(op&1) << 14, f2dot14(1-op&1) << 14}
			if op < 4 {
				r.gs.pv, r.gs.dv = v, v
			}
			if op < 2 || op >= 4 {
				r.gs.fv = v
			}
		case op == 0x0c:
			r.push(int64(r.gs.pv[0]))
			r.push(int64(r.gs.pv[1]))
		case op == 0x0d:
			r.push(int64(r.gs.fv[0]))
			r.push(int64(r.gs.fv[1]))
		case op == 0x0e:
			r.gs.fv = r.gs.pv
		case op == 0x4b || op == 0x4c:
			r.push(floorDiv(int64(r.scale), 64))
		case op == 0x1f:
			v := r.pop()
			if !r.failed {
				r.gs.singleWidth = fixed.Int26_6(r.scaled(v))
			}
		case op == 0x44 || op == 0x70:
			v, i := r.pop(), r.pop()
			if r.failed {
				return false
			}
			if i >= 0 && int(i) < len(r.cvt) {
				if op == 0x70 {
					v = r.scaled(v)
				}
				r.cvt[i] = v
			}
		case op == 0x45:
			un(func(i int64) int64 {
				if i < 0 || i >= int64(len(r.cvt)) {
					return 0
				}
				return int64(r.cvt[i])
			})
		case op == 0x4d || op == 0x4e:
			r.gs.autoFlip = op == 0x4d
		case op >= 0x10 && op <= 0x17 || op == 0x1a || op == 0x1d || op == 0x1e || op == 0x5e || op == 0x5f:
			v := r.pop()
			if r.failed {
				return false
			}
			switch op {
			case 0x10, 0x11, 0x12:
				r.gs.rp[op-0x10] = v
			case 0x13, 0x14, 0x15, 0x16:
				if v != 0 && v != 1 {
					return false
				}
				if op == 0x16 {
					r.gs.zp = [3]int32{v, v, v}
				} else {
					r.gs.zp[op-0x13] = v
				}
			case 0x17:
				if v < 0 {
					return false
				}
				r.gs.loop = v
			case 0x1a:
				r.gs.minDist = fixed.Int26_6(v)
			case 0x1d:
				r.gs.controlValueCutIn = fixed.Int26_6(v)
			case 0x1e:
				r.gs.singleWidthCutIn = fixed.Int26_6(v)
			case 0x5e:
				r.gs.deltaBase = v
			case 0x5f:
				if v < 0 || v > 6 {
					return false
				}
				r.gs.deltaShift = v
			}
		default:
			panic(errOther)
		}
		if r.failed {
			return false
		}
		if r.excluded {
			return true
		}
	}
	return true
}

// scaled is v in font units scaled to pixels.
func (r *c09ref) scaled(v int32) int32 {
	x, ok := nearest(int(v), r.scale, r.upem)
	if !ok {
		r.excluded = true
	}
	return int32(x)
}

// skipBranch is where the branch that starts after pc ends: at its ELSE, if
// that counts, or at its EIF; -1 if there is none.
func skipBranch(p []byte, pc int, orElse bool) int {
	open := 1
	for pc++; pc < len(p); pc++ {
		switch op := p[pc]; {
		case op == 0x58:
			open++
		case op == 0x1b && open == 1 && orElse:
			return pc
		case op == 0x59:
			if open--; open == 0 {
				return pc
			}
		case op == 0x40 || op == 0x41:
			if pc+1 >= len(p) {
				return -1
			}
			pc += 1 + int(p[pc+1])*int(op-0x3f)
		case op >= 0xb8 && op <= 0xbf:
			pc += 2 * int(op-0xb7)
		case op >= 0xb0 && op <= 0xb7:
			pc += int(op - 0xaf)
		}
	}
	return -1
}

// skipFunction is where the function that starts after pc ends: at its ENDF; -1
// if there is none.
func skipFunction(p []byte, pc int) int {
	for pc++; pc < len(p); pc++ {
		switch op := p[pc]; {
		case op == 0x2c:
			return -1
		case op == 0x2d:
			return pc
		case op == 0x40 || op == 0x41:
			if pc+1 >= len(p) {
				return -1
			}
			pc += 1 + int(p[pc+1])*int(op-0x3f)
		case op >= 0xb8 && op <= 0xbf:
			pc += 2 * int(op-0xb7)
		case op >= 0xb0 && op <= 0xb7:
			pc += int(op - 0xaf)
		}
	}
	return -1
}

func (h *vh) c09val() int32 {
	switch h.rng.Intn(8) {
	case 0:
		return int32(h.pick(0, 1, -1, 2, 3, 31, 32, 33, 63, 64, 65, 96, 127, 128, -32, -64, -63))
	case 1:
		return int32(h.pick(-1<<31, 1<<31-1, -1<<31+1, 1<<30, -1<<30, 0x7fffffc0, 0x7fffffc1, 2147482999))
	case 2:
		return int32(h.between(-8, 8))
	case 3:
		return int32(h.rng.Uint32())
	case 4:
		return int32(h.rng.Uint32()) >> uint(h.rng.Intn(32))
	}
	return int32(h.between(-300, 300))
}

// c09push appends instructions that push v, of any size.
func (h *vh) c09push(b []byte, v int32) []byte {
	word := func(b []byte, v int16) []byte { return append(b, byte(v>>8), byte(v)) }
	switch {
	case v >= 0 && v < 256 && h.rng.Intn(2) == 0:
		if h.rng.Intn(3) == 0 {
			return append(b, 0x40, 1, byte(v))
		}
		return append(b, 0xb0, byte(v))
	case v == int32(int16(v)):
		if h.rng.Intn(3) == 0 {
			return word(append(b, 0x41, 1), int16(v))
		}
		return word(append(b, 0xb8), int16(v))
	}
	// hi*2^16 + lo, for hi by multiplications by 256*64/64
	lo := int16(v)
	hi := int16((int64(v) - int64(lo)) >> 16)
	b = word(append(b, 0xb8), hi)
	for k := 0; k < 2; k++ {
		b = append(word(append(b, 0xb8), 256*64), 0x63)
	}
	b = append(word(append(b, 0xb8), lo), 0x60)
	return b
}

var c09ops = []byte{0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x5a, 0x5b, 0x5c, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f,
	0x8a, 0x8b, 0x8c, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x42, 0x43, 0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d, 0x76, 0x77, 0x1c, 0x78, 0x79, 0x40, 0x41,
	0, 1, 2, 3, 4, 5, 0x0c, 0x0d, 0x0e, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1d, 0x1e, 0x4d, 0x4e, 0x5e, 0x5f, 0x1f, 0x4b, 0x4c, 0x44, 0x45, 0x70, 0x44, 0x45}

func (h *vh) c09program() []byte {
	b := h.c09code(h.between(1, 12), 0)
	if h.rng.Intn(30) == 0 {
		b = b[:h.rng.Intn(len(b)+1)]
	}
	return b
}

func (h *vh) c09code(k, depth int) []byte {
	var b []byte
	for ; k > 0; k-- {
		if depth < 4 && h.rng.Intn(8) == 0 { // a condition, most often a complete one
			if h.rng.Intn(8) > 0 {
				b = append(h.c09push(b, int32(h.pick(0, 0, 1, 2, -1, 256, 1<<16))), 0x58)
			}
			b = append(b, h.c09code(h.rng.Intn(4), depth+1)...)
			if h.rng.Intn(2) == 0 {
				b = append(append(b, 0x1b), h.c09code(h.rng.Intn(4), depth+1)...)
			}
			if h.rng.Intn(12) > 0 {
				b = append(b, 0x59)
			}
			continue
		}
		if depth == 0 && h.rng.Intn(60) == 0 { // a function that calls itself so many times
			b = append(b, 0xb0, 5, 0x2c, 0x20, 0x58, 0xb0, 1, 0x61, 0xb0, 5, 0x2b, 0x59, 0x2d)
			b = append(b, 0xb0, byte(h.pick(3, 29, 30, 31, 31, 32, 33)), 0xb0, 5, 0x2b)
		}
		if depth < 4 && h.rng.Intn(14) == 0 { // a function and calls of functions
			n := int32(h.pick(0, 1, 2, 3, 0, 1, 2, 3, -1, 70000))
			b = append(append(h.c09push(b, n), 0x2c), h.c09code(h.rng.Intn(5), depth+1)...)
			if h.rng.Intn(12) > 0 {
				b = append(b, 0x2d)
			}
			for h.rng.Intn(4) > 0 {
				if h.rng.Intn(4) == 0 {
					b = append(b, h.c09code(h.rng.Intn(3), depth+1)...)
				}
				if h.rng.Intn(3) == 0 {
					b = append(h.c09push(h.c09push(b, int32(h.pick(0, 1, 2, 3, 4, 5, 40, -1))), n), 0x2a)
				} else {
					b = append(h.c09push(b, n), 0x2b)
				}
				if h.rng.Intn(3) == 0 {
					n = int32(h.rng.Intn(4))
				}
			}
			if h.rng.Intn(60) == 0 {
				b = append(b, byte(h.pick(0x2d, 0x2a, 0x2b)))
			}
			continue
		}
		op := c09ops[h.rng.Intn(len(c09ops))]
		switch h.rng.Intn(6) {
		case 0: // a push of several
			n := h.between(1, 8)
			w := h.rng.Intn(2)
			switch h.rng.Intn(3) {
			case 0:
				b = append(b, byte(0xb0+8*w+n-1))
			case 1:
				n = h.pick(0, 1, 2, 9, 60, 128, 200, 255)
				b = append(b, byte(0x40+w), byte(n))
			case 2:
				b = append(b, byte(0x40+w), byte(n))
			}
			for ; n > 0; n-- {
				for i := 0; i <= w; i++ {
					b = append(b, byte(h.pick(h.rng.Intn(256), h.rng.Intn(256), 0x58, 0x1b, 0x59, 0x40, 0x2c, 0x2d)))
				}
			}
			continue
		}
		switch op {
		case 0x25, 0x26:
			for n := h.rng.Intn(6); n > 0; n-- {
				b = h.c09push(b, h.c09val())
			}
			b = h.c09push(b, int32(h.between(-1, 7)))
		case 0x42, 0x43:
			b = h.c09push(b, int32(h.pick(h.rng.Intn(16), h.rng.Intn(34), -1, 15, 16, 31, 32)))
			if op == 0x42 {
				b = h.c09push(b, h.c09val())
			}
		case 0x44, 0x45, 0x70:
			b = h.c09push(b, int32(h.pick(0, 1, 2, 3, 4, 5, 6, -1, 1<<30, int(h.c09val()))))
			if op != 0x45 {
				b = h.c09push(b, h.c09val())
			}
		case 0x13, 0x14, 0x15, 0x16:
			b = h.c09push(b, int32(h.pick(0, 0, 0, 1, 1, 1, 0, 1, 2, -1)))
		case 0x5f, 0x17:
			b = h.c09push(b, int32(h.pick(0, 1, 2, 3, 4, 5, 6, 6, 7, 8, -1, -2)))
		case 0x76, 0x77:
			b = append(b, 0xb0, byte(h.rng.Intn(192)))
		case 0x1c, 0x78, 0x79:
			b = h.c09push(b, int32(h.pick(1, 1, 2, 3, 4, h.between(-3, 9))))
			if op != 0x1c {
				b = h.c09push(b, int32(h.pick(0, 1, int(h.c09val()))))
			}
		case 0x40, 0x41:
			b = h.c09push(b, h.c09val())
			continue
		default:
			for n := h.rng.Intn(4); n > 0; n-- {
				b = h.c09push(b, h.c09val())
			}
		}
		b = append(b, op)
	}
	return b
}

func (h *vh) c09run() {
	prog := h.c09program()
	f := &Font{maxStorage: uint16(h.pick(0, 1, 16, 17, 30)), maxStackElements: uint16(h.pick(0, 1, 100, 256, 300)), maxTwilightPoints: 3, fUnitsPerEm: int32(h.pick(1000, 2048, 1, 7))}
	cvt := []int{h.between(-3000, 3000), h.pick(0, -1, 1), h.pick(-32768, 32767, 0x7f80, 0xff), h.between(-32768, 32767), h.between(-300, 300)}[:h.rng.Intn(6)]
	f.cvt = ws(cvt...)
	if h.rng.Intn(4) == 0 {
		f.cvt = append(f.cvt, 1)
	}
	scale := h.pick(768, 640, 1000, 64, 1, -500, 65)
	// the instructions that the program exists of, for a short description
	h.Case(func() string {
		return fmt.Sprintf("run of the program %x, with a stack of %d and a storage of %d elements, scale %d, %d units per em, and the control values %v", prog, f.maxStackElements, f.maxStorage, scale, f.fUnitsPerEm, cvt)
	}, func() (uint64, error) {
		hn := &hinter{}
		if err := hn.init(f, fixed.Int26_6(scale)); err != nil {
			return 0, err
		}
		for i := range hn.stack {
			hn.stack[i] = int32(0x1234567 * (i + 1))
		}
		for i := range hn.store {
			hn.store[i] = int32(i * 77)
		}
		r := &c09ref{room: len(hn.stack), store: append([]int32{}, hn.store...), period: 64, threshold: 32, gs: globalDefaultGS, scale: scale, upem: int(f.fUnitsPerEm)}
		for _, v := range cvt {
			x := r.scaled(int32(v))
			r.cvt = append(r.cvt, x)
		}
		ok := r.safeRun(prog)
		if r.excluded {
			return 0, nil
		}
		full := prog
		n := len(r.stack)
		if ok && n < r.room && !r.over {
			full = append(append([]byte{}, prog...), 0x24)
		}
		pts := []Point{{X: 1, Y: 2, Flags: 3}, {X: 40, Y: 50, Flags: 1}}
		p0, p1, p2 := append([]Point{}, pts...), append([]Point{}, pts...), append([]Point{}, pts...)
		err := hn.run(full, p0, p1, p2, []int{2})
		if ok != (err == nil) {
			return 0, fmt.Errorf("the error is %v; want an error: %v", err, !ok)
		}
		if !ok {
			return hashOf(prog), nil
		}
		for i, v := range r.stack {
			if hn.stack[i] != v {
				return 0, fmt.Errorf("element %d of the stack is %d, want %d; the stack should be %v", i, hn.stack[i], v, r.stack)
			}
		}
		if n < r.room && !r.over && hn.stack[n] != int32(n) {
			return 0, fmt.Errorf("DEPTH gives %d after the program, want %d", hn.stack[n], n)
		}
		if fmt.Sprint(hn.store) != fmt.Sprint(r.store) {
			return 0, fmt.Errorf("the storage is %v, want %v", hn.store, r.store)
		}
		for i, v := range r.cvt {
			if got := hn.getScaledCVT(int32(i)); int32(got) != v {
				return 0, fmt.Errorf("control value %d is %d, want %d", i, got, v)
			}
		}
		gs := r.gs
		gs.roundPeriod, gs.roundPhase, gs.roundThreshold, gs.roundSuper45 = fixed.Int26_6(r.period), fixed.Int26_6(r.phase), fixed.Int26_6(r.threshold), r.super45
		if hn.gs != gs {
			return 0, fmt.Errorf("the graphics state is %+v, want %+v", hn.gs, gs)
		}
		if !samePoints(p0, pts) || !samePoints(p1, pts) || !samePoints(p2, pts) {
			return 0, fmt.Errorf("the glyph's points are changed")
		}
		return hashOf(prog), nil
	})
}

func (h *vh) c09helpers() {
	x, y, z := h.c09val(), h.c09val(), h.c09val()
	if y == 0 {
		y = 1
	}
	a, b := int64(h.c09val()), int64(h.c09val())
	if h.rng.Intn(3) == 0 {
		a <<= uint(h.rng.Intn(20))
	}
	q := [2]f2dot14{f2dot14(h.pick(0x4000, -0x4000, 0, h.between(-0x4000, 0x4000))), f2dot14(h.pick(0x4000, -0x4000, 0, h.between(-0x4000, 0x4000)))}
	h.Case(func() string {
		return fmt.Sprintf("the helpers fabs, fmul, fdiv of %d and %d, mulDiv of %d, %d and %d, and dotProduct with %v", x, y, a, b, z, q)
	}, func() (uint64, error) {
		X, Y := fixed.Int26_6(x), fixed.Int26_6(y)
		if got := fabs(X); x != -1<<31 && int64(got) != max(int64(x), -int64(x)) {
			return 0, fmt.Errorf("fabs(%d) is %d", x, got)
		}
		if got, want := fmul(X, Y), int32(floorDiv(int64(x)*int64(y)+32, 64)); int32(got) != want {
			return 0, fmt.Errorf("fmul(%d, %d) is %d, want %d", x, y, got, want)
		}
		if got, want := fdiv(X, Y), int32(64*int64(x)/int64(y)); int32(got) != want {
			return 0, fmt.Errorf("fdiv(%d, %d) is %d, want %d", x, y, got, want)
		}
		// px*qx + py*qy in units of 2^-14, to the nearest, with halves away from zero
		s := int64(x)*int64(q[0]) + int64(y)*int64(q[1])
		w := s
		if w < 0 {
			w--
		}
		if got, want := dotProduct(X, Y, q), int32(floorDiv(w+8192, 16384)); int32(got) != want {
			return 0, fmt.Errorf("dotProduct(%d, %d, %v) is %d, want %d", x, y, q, got, want)
		}
		p := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
		zz := int64(z)
		if zz == 0 {
			zz = 1
		}
		if p.BitLen() < 62 {
			n := new(big.Int).Mul(p, big.NewInt(2))
			d := big.NewInt(zz)
			if zz < 0 {
				n.Neg(n)
				d.Neg(d)
			}
			neg := n.Sign() < 0
			n.Abs(n).Add(n, d).Quo(n, new(big.Int).Mul(d, big.NewInt(2)))
			if neg {
				n.Neg(n)
			}
			if got := mulDiv(a, b, zz); got != n.Int64() {
				return 0, fmt.Errorf("mulDiv(%d, %d, %d) is %d, want %v", a, b, zz, got, n)
			}
		}
		return hashOf(x, y, z, a, b, q), nil
	})
}

func TestVerifC09(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for i := 0; i < h.n(150000) && h.more(); i++ {
		h.c09run()
		if i%2 == 0 {
			h.c09helpers()
		}
	}
}
