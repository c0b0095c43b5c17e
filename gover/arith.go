package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// mkWrap reduces a mathematical integer to the machine type b.
func mkWrap(t *Term, b *types.Basic) *Term {
	lo, hi, bits, signed := intRange(b)
	if lo == nil {
		panic("mkWrap " + b.String())
	}
	l, h := bounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if t.op == OConst {
		m := new(big.Int).Mod(new(big.Int).Sub(t.val, lo), pow2(bits))
		return mkBig(m.Add(m, lo))
	}
	if t.op == OIte && t.args[1].op == OConst && t.args[2].op == OConst {
		return mkIte(t.args[0], mkWrap(t.args[1], b), mkWrap(t.args[2], b))
	}
	name := fmt.Sprintf("wrapU%d", bits)
	if signed {
		name = fmt.Sprintf("wrapS%d", bits)
	}
	if _, ok := funSigs[name]; !ok {
		ls, hs, ms := bigStr(lo), bigStr(hi), pow2(bits).String()
		body := fmt.Sprintf("(- (mod (+ t %s) %s) %s)", pow2(bits-1), ms, pow2(bits-1))
		if !signed {
			body = fmt.Sprintf("(mod t %s)", ms)
		}
		defFun(name, fmt.Sprintf("(define-fun %s ((t Int)) Int (ite (and (<= %s t) (<= t %s)) t %s))", name, ls, hs, body))
		appRange[name] = [2]*big.Int{lo, hi}
	}
	// wrap(wrap(x)+y) = wrap(x+y) for the same type
	if t.op == OAdd || t.op == OMul {
		l := newLin()
		l.add(t, big.NewInt(1))
		ch := false
		for id, a := range l.atom {
			if a.op == OApp && a.name == name {
				ch = true
				c := l.coef[id]
				delete(l.coef, id)
				delete(l.atom, id)
				l.add(a.args[0], c)
				break
			}
		}
		if ch {
			return mkWrap(l.term(), b)
		}
	}
	if t.op == OApp && t.name == name {
		return t
	}
	return mkApp(name, SInt, t)
}

func unwrapDefs() {
	defFun("tdiv", "(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))")
	defFun("trem", "(define-fun trem ((a Int) (b Int)) Int (- a (* b (tdiv a b))))")
}

// mkTDiv is Go's truncated division (divisor known non-zero).
func mkTDiv(a, b *Term) *Term {
	al, ah := bounds(a)
	bl, bh := bounds(b)
	if a.op == OConst && b.op == OConst && b.val.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.val, b.val))
	}
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
		return mkDiv(a, b)
	}
	if ah != nil && ah.Sign() <= 0 && bl != nil && bl.Sign() > 0 {
		return mkNeg(mkDiv(mkNeg(a), b))
	}
	unwrapDefs()
	t := mkApp("tdiv", SInt, a, b)
	if bl != nil && bl.Sign() > 0 || bh != nil && bh.Sign() < 0 {
		// |a/b| <= |a|
		if al != nil && ah != nil {
			m := bmax(new(big.Int).Abs(al), new(big.Int).Abs(ah))
			lo, hi := new(big.Int).Neg(m), m
			if b.op == OConst {
				lo, hi = new(big.Int).Quo(al, b.val), new(big.Int).Quo(ah, b.val)
				if lo.Cmp(hi) > 0 {
					lo, hi = hi, lo
				}
			}
			declareRange(t, lo, hi)
		}
	}
	return t
}

func mkTRem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val.Sign() != 0 {
		return mkBig(new(big.Int).Rem(a.val, b.val))
	}
	al, _ := bounds(a)
	bl, _ := bounds(b)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
		return mkMod(a, b)
	}
	// a - b*tdiv(a,b)
	unwrapDefs()
	t := mkApp("trem", SInt, a, b)
	if b.op == OConst && b.val.Sign() != 0 {
		m := new(big.Int).Sub(new(big.Int).Abs(b.val), big.NewInt(1))
		declareRange(t, new(big.Int).Neg(m), m)
	}
	return t
}

// pow2Term is 2^s for a shift count 0 <= s < 64.
func pow2Term(s *Term) *Term {
	if s.op == OConst {
		if s.val.Sign() >= 0 && s.val.Cmp(big.NewInt(200)) < 0 {
			return mkBig(pow2(uint(s.val.Int64())))
		}
		return mkInt(0)
	}
	if s.op == OIte {
		return mkIte(s.args[0], pow2Term(s.args[1]), pow2Term(s.args[2]))
	}
	if _, ok := funSigs["pow2"]; !ok {
		body := "0"
		for i := 64; i >= 0; i-- {
			body = fmt.Sprintf("(ite (= s %d) %s %s)", i, pow2(uint(i)), body)
		}
		defFun("pow2", "(define-fun pow2 ((s Int)) Int "+body+")")
		appRange["pow2"] = [2]*big.Int{big.NewInt(0), pow2(64)}
	}
	t := mkApp("pow2", SInt, s)
	if lo, hi := bounds(s); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(64)) <= 0 {
		declareRange(t, pow2(uint(lo.Int64())), pow2(uint(hi.Int64())))
	}
	return t
}

// trailing zero bits certainly present.
func tz(t *Term) uint {
	switch t.op {
	case OConst:
		if t.val.Sign() == 0 {
			return 64
		}
		return uint(t.val.TrailingZeroBits())
	case OMul:
		var n uint
		for _, a := range t.args {
			n += tz(a)
		}
		return n
	case OAdd:
		n := uint(64)
		for _, a := range t.args {
			if z := tz(a); z < n {
				n = z
			}
		}
		return n
	case OIte:
		a, b := tz(t.args[1]), tz(t.args[2])
		if a < b {
			return a
		}
		return b
	case OApp:
		if len(t.args) == 1 && (strings.HasPrefix(t.name, "wrapU") || strings.HasPrefix(t.name, "wrapS")) {
			n, _ := strconv.Atoi(t.name[5:])
			if z := tz(t.args[0]); z < uint(n) {
				return z
			}
			return uint(n)
		}
	}
	return 0
}

// andConst is x & c where x is a (possibly negative) mathematical value of
// type b in two's complement.
func andConst(x *Term, c *big.Int, b *types.Basic) *Term {
	_, _, bits, signed := intRange(b)
	m := new(big.Int).Set(c)
	if m.Sign() < 0 {
		m.Add(m, pow2(bits))
	}
	// m is now an unsigned mask of `bits` bits. For a signed type with the
	// top bit set in the mask the result keeps the sign of x.
	res := mkInt(0)
	i := uint(0)
	for i < bits {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < bits && m.Bit(int(j)) == 1 {
			j++
		}
		if j == bits && signed {
			// x - (x mod 2^i)
			res = mkAdd(res, mkSub(x, mkMod(x, mkBig(pow2(i)))))
		} else {
			part := mkMod(mkDiv(x, mkBig(pow2(i))), mkBig(pow2(j-i)))
			res = mkAdd(res, mkMul(mkBig(pow2(i)), part))
		}
		i = j
	}
	return res
}

func bitFun(op string, a, b *Term, bt *types.Basic) *Term {
	lo, hi, bits, _ := intRange(bt)
	if a.id > b.id {
		a, b = b, a
	}
	t := mkApp(fmt.Sprintf("%s%d", op, bits), SInt, a, b)
	declareRange(t, lo, hi)
	if _, ok := termFacts[t.id]; !ok && !t.hasBV {
		z := mkInt(0)
		var fs []*Term
		switch op {
		case "band":
			fs = append(fs, mkImp(mkGe(a, z), mkAnd(mkLe(z, t), mkLe(t, a))), mkImp(mkGe(b, z), mkAnd(mkLe(z, t), mkLe(t, b))),
				mkImp(mkEq(a, z), mkEq(t, z)), mkImp(mkEq(b, z), mkEq(t, z)), mkImp(mkEq(a, b), mkEq(t, a)),
				mkImp(mkAnd(mkLt(a, z), mkLt(b, z)), mkLt(t, z)))
		case "bor":
			fs = append(fs, mkImp(mkAnd(mkGe(a, z), mkGe(b, z)), mkAnd(mkLe(a, t), mkLe(b, t), mkLe(t, mkAdd(a, b)))),
				mkImp(mkEq(a, z), mkEq(t, b)), mkImp(mkEq(b, z), mkEq(t, a)), mkImp(mkEq(a, b), mkEq(t, a)),
				mkImp(mkOr(mkLt(a, z), mkLt(b, z)), mkLt(t, z)))
		case "bxor":
			fs = append(fs, mkImp(mkAnd(mkGe(a, z), mkGe(b, z)), mkAnd(mkLe(z, t), mkLe(t, mkAdd(a, b)))),
				mkImp(mkEq(a, z), mkEq(t, b)), mkImp(mkEq(b, z), mkEq(t, a)), mkImp(mkEq(a, b), mkEq(t, z)))
		}
		if op == "band" && lo.Sign() < 0 {
			// a mask of high bits clears the low ones
			for k := uint(0); k <= 16; k++ {
				m := mkBig(new(big.Int).Neg(pow2(k)))
				p := mkBig(pow2(k))
				fs = append(fs, mkImp(mkEq(b, m), mkEq(t, mkSub(a, mkMod(a, p)))), mkImp(mkEq(a, m), mkEq(t, mkSub(b, mkMod(b, p)))))
			}
		}
		bare := func(t *Term) *Term {
			if t.op == OApp && len(t.args) == 1 && (strings.HasPrefix(t.name, "wrapU") || strings.HasPrefix(t.name, "wrapS")) {
				return t.args[0]
			}
			return t
		}
		if d := mkSub(bare(a), bare(b)); op == "band" && d.op == OConst && d.val.IsInt64() && (d.val.Int64() == 1 || d.val.Int64() == -1) {
			// x & (x-1): neighbours of the same length share the top bit; the lesser may be all ones
			m, x := b, a
			if d.val.Sign() < 0 {
				m, x = a, b
			}
			for k := uint(0); k+1 < bits; k++ {
				p := mkBig(pow2(k))
				fs = append(fs, mkImp(mkAnd(mkLe(p, m), mkLe(m, x), mkLt(x, mkBig(pow2(k+1)))), mkGe(t, p)), mkImp(mkEq(m, mkSub(p, mkInt(1))), mkEq(t, mkMod(x, p))))
			}
		}
		// operands without a common bit
		for k := 0; k < 2; k++ {
			if n := tz(a); n > 0 && n < 64 {
				r := mkAdd(a, b)
				if op == "band" {
					r = z
				}
				fs = append(fs, mkImp(mkAnd(mkGe(a, z), mkGe(b, z), mkLt(b, mkBig(pow2(n)))), mkEq(t, r)))
			}
			a, b = b, a
		}
		termFacts[t.id] = fs
	}
	return t
}

// binop computes an integer operation exactly; t is the operand type.
func intBinop(op token.Token, x, y *Term, bt *types.Basic) *Term {
	_, hi, bits, signed := intRange(bt)
	switch op {
	case token.ADD:
		return mkWrap(mkAdd(x, y), bt)
	case token.SUB:
		return mkWrap(mkSub(x, y), bt)
	case token.MUL:
		return mkWrap(mkMul(x, y), bt)
	case token.QUO:
		return mkWrap(mkTDiv(x, y), bt)
	case token.REM:
		return mkTRem(x, y)
	case token.AND:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			return andConst(x, y.val, bt)
		}
		if x == y {
			return x
		}
		return bitFun("band", x, y, bt)
	case token.AND_NOT:
		if y.op == OConst {
			return andConst(x, new(big.Int).Not(y.val), bt)
		}
		ny := mkSub(mkInt(-1), y)
		if !signed {
			ny = mkSub(mkBig(hi), y)
		}
		return intBinop(token.AND, x, ny, bt)
	case token.OR:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			return mkAdd(x, mkSub(y, andConst(x, y.val, bt)))
		}
		if x == y {
			return x
		}
		// disjoint bits
		for k := 0; k < 2; k++ {
			z := tz(x)
			l, h := bounds(y)
			if z > 0 && l != nil && l.Sign() >= 0 && h != nil && h.Cmp(pow2(min(z, 64))) < 0 {
				return mkWrap(mkAdd(x, y), bt)
			}
			x, y = y, x
		}
		return bitFun("bor", x, y, bt)
	case token.XOR:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val.Sign() < 0 && y.isInt(-1) {
				return mkSub(mkInt(-1), x)
			}
			return mkWrap(mkSub(mkAdd(x, y), mkMul(mkInt(2), andConst(x, y.val, bt))), bt)
		}
		return bitFun("bxor", x, y, bt)
	case token.SHL:
		if y.op == OConst {
			if y.val.Cmp(big.NewInt(int64(bits))) >= 0 {
				return mkInt(0)
			}
			return mkWrap(mkMul(x, mkBig(pow2(uint(y.val.Int64())))), bt)
		}
		in := mkLt(y, mkInt(int64(bits)))
		return mkIte(in, mkWrap(mkMul(x, pow2Term(y)), bt), mkInt(0))
	case token.SHR:
		if y.op == OConst {
			if y.val.Cmp(big.NewInt(int64(bits))) >= 0 {
				if signed {
					return mkIte(mkLt(x, mkInt(0)), mkInt(-1), mkInt(0))
				}
				return mkInt(0)
			}
			return mkDiv(x, mkBig(pow2(uint(y.val.Int64()))))
		}
		in := mkLt(y, mkInt(int64(bits)))
		big := mkInt(0)
		if signed {
			big = mkIte(mkLt(x, mkInt(0)), mkInt(-1), mkInt(0))
		}
		d := mk(&Term{op: ODiv, args: []*Term{x, pow2Term(y)}, sort: SInt})
		lo2, hi2 := bounds(x)
		if lo2 != nil && hi2 != nil {
			declareRange(d, bmin(lo2, bigZero), bmax(hi2, bigZero))
		}
		return mkIte(in, d, big)
	}
	panic("intBinop " + op.String())
}

var bigZero = big.NewInt(0)
