package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort, printed verbatim.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SFlt  Sort = "Flt"
)

func SArr(v Sort) Sort { return Sort("(Array Int " + string(v) + ")") }
func elemSort(s Sort) Sort {
	t := string(s)
	if !strings.HasPrefix(t, "(Array Int ") {
		panic("elemSort of " + t)
	}
	return Sort(t[len("(Array Int ") : len(t)-1])
}

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar  // free constant
	OBVar // bound variable
	OAdd
	OMul
	ODiv // SMT floor division for positive divisors
	OMod
	OIte
	OEq
	OLe
	OLt
	OAnd
	OOr
	ONot
	OSelect
	OStore
	OApp
	OConstArr
	OForall
	OExists
)

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     Op
	args   []*Term
	sort   Sort
	val    *big.Int
	name   string // OVar, OBVar, OApp
	bvars  []*Term
	pats   [][]*Term
	hasBV  bool
	lo, hi *big.Int // cached interval (nil = unknown)
	bdone  bool
	size   int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	freshCnt = map[string]int{}
	tTrue    = mk(&Term{op: OTrue, sort: SBool})
	tFalse   = mk(&Term{op: OFalse, sort: SBool})
	// ranges declared for atoms (typing facts), by term id.
	declRange = map[int][2]*big.Int{}
	funSigs   = map[string]string{} // declared uninterpreted functions
	funOrder  []string
)

func key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|", t.op, t.sort, t.name)
	if t.val != nil {
		b.WriteString(t.val.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.bvars {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, p := range t.pats {
		b.WriteString("#")
		for _, a := range p {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termList)
	t.size = 1
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if t.op == OBVar {
		t.hasBV = true
	}
	if t.op == OForall || t.op == OExists {
		// hasBV only if a bound variable other than the ones bound here occurs
		t.hasBV = false
		bound := map[int]bool{}
		for _, v := range t.bvars {
			bound[v.id] = true
		}
		fv := map[int]*Term{}
		freeBV(t.args[0], fv, map[int]bool{})
		for id := range fv {
			if !bound[id] {
				t.hasBV = true
			}
		}
	}
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func freeBV(t *Term, out map[int]*Term, seen map[int]bool) {
	if !t.hasBV || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OBVar {
		out[t.id] = t
		return
	}
	if t.op == OForall || t.op == OExists {
		in := map[int]*Term{}
		freeBV(t.args[0], in, map[int]bool{})
		for _, v := range t.bvars {
			delete(in, v.id)
		}
		for k, v := range in {
			out[k] = v
		}
		return
	}
	for _, a := range t.args {
		freeBV(a, out, seen)
	}
}

func mkVar(name string, s Sort) *Term  { return mk(&Term{op: OVar, name: name, sort: s}) }
func mkBVar(name string, s Sort) *Term { return mk(&Term{op: OBVar, name: name, sort: s}) }

func fresh(base string, s Sort) *Term {
	base = sanitize(base)
	freshCnt[base]++
	return mkVar(fmt.Sprintf("%s!%d", base, freshCnt[base]), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func mkInt(v int64) *Term    { return mkBig(big.NewInt(v)) }
func mkBig(v *big.Int) *Term { return mk(&Term{op: OConst, sort: SInt, val: v}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt(v int64) bool {
	return t.op == OConst && t.val.IsInt64() && t.val.Int64() == v
}

// declareRange records the typing range of an atom (used for interval analysis;
// callers must also make the fact available to the solver).
func declareRange(t *Term, lo, hi *big.Int) {
	if t.op == OConst {
		return
	}
	if r, ok := declRange[t.id]; ok {
		if lo == nil || (r[0] != nil && r[0].Cmp(lo) > 0) {
			lo = r[0]
		}
		if hi == nil || (r[1] != nil && r[1].Cmp(hi) < 0) {
			hi = r[1]
		}
	}
	declRange[t.id] = [2]*big.Int{lo, hi}
	t.bdone = false
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// bounds computes an interval for an Int term.
func bounds(t *Term) (lo, hi *big.Int) {
	if t.sort != SInt {
		return nil, nil
	}
	if t.bdone {
		return t.lo, t.hi
	}
	switch t.op {
	case OConst:
		lo, hi = t.val, t.val
	case OAdd:
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			l, h := bounds(a)
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, l)
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, h)
			} else {
				hi = nil
			}
		}
	case OMul:
		lo, hi = bounds(t.args[0])
		for _, a := range t.args[1:] {
			l, h := bounds(a)
			lo, hi = mulBounds(lo, hi, l, h)
		}
		if len(t.args) == 2 && t.args[0] == t.args[1] && (lo == nil || lo.Sign() < 0) {
			lo = big.NewInt(0)
		}
	case ODiv:
		l, h := bounds(t.args[0])
		if c := t.args[1]; c.op == OConst && c.val.Sign() > 0 {
			if l != nil {
				lo = fdiv(l, c.val)
			}
			if h != nil {
				hi = fdiv(h, c.val)
			}
		} else if cl, _ := bounds(t.args[1]); cl != nil && cl.Sign() > 0 {
			// |result| bounded by |dividend|
			if l != nil {
				lo = bmin(l, big.NewInt(0))
			}
			if h != nil {
				hi = bmax(h, big.NewInt(0))
			}
		}
	case OMod:
		cl, ch := bounds(t.args[1])
		if cl != nil && cl.Sign() > 0 {
			lo = big.NewInt(0)
			if ch != nil {
				hi = new(big.Int).Sub(ch, big.NewInt(1))
			}
			if al, ah := bounds(t.args[0]); al != nil && al.Sign() >= 0 && ah != nil {
				if hi == nil || ah.Cmp(hi) < 0 {
					hi = ah
				}
			}
		}
	case OIte:
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = bmin(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = bmax(h1, h2)
		}
	case OApp:
		if r, ok := appRange[t.name]; ok {
			lo, hi = r[0], r[1]
		}
	}
	if r, ok := declRange[t.id]; ok {
		if r[0] != nil && (lo == nil || r[0].Cmp(lo) > 0) {
			lo = r[0]
		}
		if r[1] != nil && (hi == nil || r[1].Cmp(hi) < 0) {
			hi = r[1]
		}
	}
	t.lo, t.hi, t.bdone = lo, hi, true
	return
}

// appRange gives intervals of define-fun'd functions such as wrapping.
var appRange = map[string][2]*big.Int{}

func fdiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 so floor
	return q
}

func mulBounds(l1, h1, l2, h2 *big.Int) (lo, hi *big.Int) {
	if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
		// non-negative cases
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			return new(big.Int).Mul(l1, l2), nil
		}
		return nil, nil
	}
	ps := []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)}
	lo, hi = ps[0], ps[0]
	for _, p := range ps[1:] {
		lo, hi = bmin(lo, p), bmax(hi, p)
	}
	return
}

// ---- linear normal form

type lin struct {
	coef map[int]*big.Int
	atom map[int]*Term
	c    *big.Int
}

func newLin() *lin { return &lin{map[int]*big.Int{}, map[int]*Term{}, big.NewInt(0)} }

func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case OConst:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.val))
	case OAdd:
		for _, a := range t.args {
			l.add(a, k)
		}
	case OMul:
		if t.args[0].op == OConst {
			rest := t.args[1]
			if len(t.args) > 2 {
				rest = mk(&Term{op: OMul, args: t.args[1:], sort: SInt})
			}
			l.addAtom(rest, new(big.Int).Mul(k, t.args[0].val))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}

func (l *lin) addAtom(t *Term, k *big.Int) {
	if o, ok := l.coef[t.id]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.coef, t.id)
			delete(l.atom, t.id)
		} else {
			l.coef[t.id] = s
		}
		return
	}
	if k.Sign() != 0 {
		l.coef[t.id] = k
		l.atom[t.id] = t
	}
}

func (l *lin) term() *Term {
	ids := make([]int, 0, len(l.coef))
	for id := range l.coef {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		args = append(args, mulC(l.coef[id], l.atom[id]))
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, mkBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(&Term{op: OAdd, args: args, sort: SInt})
}

func mulC(k *big.Int, t *Term) *Term {
	if k.Sign() == 0 {
		return mkInt(0)
	}
	if t.op == OConst {
		return mkBig(new(big.Int).Mul(k, t.val))
	}
	if k.IsInt64() && k.Int64() == 1 {
		return t
	}
	if t.op == OMul {
		return mk(&Term{op: OMul, args: append([]*Term{mkBig(k)}, t.args...), sort: SInt})
	}
	return mk(&Term{op: OMul, args: []*Term{mkBig(k), t}, sort: SInt})
}

func mkAdd(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return l.term()
}
func mkSub(a, b *Term) *Term {
	l := newLin()
	l.add(a, big.NewInt(1))
	l.add(b, big.NewInt(-1))
	return l.term()
}
func mkNeg(a *Term) *Term { return mkSub(mkInt(0), a) }

func mkMul(a, b *Term) *Term {
	if a.op == OConst {
		l := newLin()
		l.add(b, a.val)
		return l.term()
	}
	if b.op == OConst {
		return mkMul(b, a)
	}
	// distribute products over sums of modest size: canonical polynomials
	if a.op == OAdd || b.op == OAdd {
		as, bs := []*Term{a}, []*Term{b}
		if a.op == OAdd {
			as = a.args
		}
		if b.op == OAdd {
			bs = b.args
		}
		if len(as)*len(bs) <= 24 {
			l := newLin()
			for _, x := range as {
				for _, y := range bs {
					l.add(mkMul(x, y), big.NewInt(1))
				}
			}
			return l.term()
		}
	}
	var fs []*Term
	k := big.NewInt(1)
	col := func(t *Term) {
		if t.op == OMul {
			for _, x := range t.args {
				if x.op == OConst {
					k = new(big.Int).Mul(k, x.val)
				} else {
					fs = append(fs, x)
				}
			}
		} else {
			fs = append(fs, t)
		}
	}
	col(a)
	col(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	m := mk(&Term{op: OMul, args: fs, sort: SInt})
	return mulC(k, m)
}

func mkDiv(a, b *Term) *Term { // floor division, b>0 intended
	if b.op == OConst && b.val.Sign() > 0 {
		if a.op == OConst {
			return mkBig(fdiv(a.val, b.val))
		}
		if b.isInt(1) {
			return a
		}
		l, h := bounds(a)
		if l != nil && h != nil {
			ql, qh := fdiv(l, b.val), fdiv(h, b.val)
			if ql.Cmp(qh) == 0 {
				return mkBig(ql)
			}
		}
		// (k*x + r) div k
		if q, r := splitMultiple(a, b.val); q != nil {
			if r.isInt(0) {
				return q
			}
			rl, rh := bounds(r)
			if rl != nil && rh != nil && rl.Sign() >= 0 && rh.Cmp(b.val) < 0 {
				return q
			}
			if !q.isInt(0) {
				return mkAdd(q, mkDiv(r, b))
			}
		}
	}
	return mk(&Term{op: ODiv, args: []*Term{a, b}, sort: SInt})
}

// splitMultiple writes a = k*q + r with r collecting the parts not divisible by k.
func splitMultiple(a *Term, k *big.Int) (q, r *Term) {
	l := newLin()
	l.add(a, big.NewInt(1))
	lq, lr := newLin(), newLin()
	for id, c := range l.coef {
		m := new(big.Int)
		d, _ := new(big.Int).DivMod(c, k, m)
		if m.Sign() == 0 {
			lq.addAtom(l.atom[id], d)
		} else {
			lr.addAtom(l.atom[id], c)
		}
	}
	m := new(big.Int)
	d, _ := new(big.Int).DivMod(l.c, k, m)
	lq.c, lr.c = d, m
	return lq.term(), lr.term()
}

func mkMod(a, b *Term) *Term {
	if b.op == OConst && b.val.Sign() > 0 {
		if a.op == OConst {
			return mkBig(new(big.Int).Mod(a.val, b.val))
		}
		if b.isInt(1) {
			return mkInt(0)
		}
		l, h := bounds(a)
		if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(b.val) < 0 {
			return a
		}
		if _, r := splitMultiple(a, b.val); r != a {
			return mkMod(r, b)
		}
		// (x mod m) mod k with k | m
		if a.op == OMod && a.args[1].op == OConst && new(big.Int).Mod(a.args[1].val, b.val).Sign() == 0 {
			return mkMod(a.args[0], b)
		}
	}
	return mk(&Term{op: OMod, args: []*Term{a, b}, sort: SInt})
}

// ---- booleans

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OLe:
		return mkLt(a.args[1], a.args[0])
	case OLt:
		return mkLe(a.args[1], a.args[0])
	}
	return mk(&Term{op: ONot, args: []*Term{a}, sort: SBool})
}

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(ts []*Term) bool
	rec = func(ts []*Term) bool {
		for _, t := range ts {
			if t == unit || seen[t.id] {
				continue
			}
			if t == zero {
				return false
			}
			if t.op == op {
				if !rec(t.args) {
					return false
				}
				continue
			}
			if seen[mkNot(t).id] {
				return false
			}
			seen[t.id] = true
			out = append(out, t)
		}
		return true
	}
	if !rec(ts) {
		return zero
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: op, args: out, sort: SBool})
}

func mkAnd(ts ...*Term) *Term { return nary(OAnd, tTrue, tFalse, ts) }
func mkOr(ts ...*Term) *Term  { return nary(OOr, tFalse, tTrue, ts) }
func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return mkOr(mkNot(a), b)
}

func mkLe(a, b *Term) *Term {
	d := mkSub(b, a)
	l, h := bounds(d)
	if l != nil && l.Sign() >= 0 {
		return tTrue
	}
	if h != nil && h.Sign() < 0 {
		return tFalse
	}
	return mk(&Term{op: OLe, args: []*Term{a, b}, sort: SBool})
}
func mkLt(a, b *Term) *Term {
	d := mkSub(b, a)
	l, h := bounds(d)
	if l != nil && l.Sign() > 0 {
		return tTrue
	}
	if h != nil && h.Sign() <= 0 {
		return tFalse
	}
	return mk(&Term{op: OLt, args: []*Term{a, b}, sort: SBool})
}
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return mkNot(b)
		case b == tFalse:
			return mkNot(a)
		}
	}
	if a.sort == SInt {
		if knownDistinct(a, b) {
			return tFalse
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && a.op == OIte {
			x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
			if x.op <= OFalse || y.op <= OFalse {
				return mkIte(a.args[0], x, y)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, args: []*Term{a, b}, sort: SBool})
}

func knownDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	d := mkSub(a, b)
	l, h := bounds(d)
	if (l != nil && l.Sign() > 0) || (h != nil && h.Sign() < 0) {
		return true
	}
	return refDistinct(a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case a == tTrue && b == tFalse:
			return c
		case a == tFalse && b == tTrue:
			return mkNot(c)
		case a == tTrue:
			return mkOr(c, b)
		case a == tFalse:
			return mkAnd(mkNot(c), b)
		case b == tTrue:
			return mkOr(mkNot(c), a)
		case b == tFalse:
			return mkAnd(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkIte sorts %s %s", a.sort, b.sort))
	}
	return mk(&Term{op: OIte, args: []*Term{c, a, b}, sort: a.sort})
}

// ---- arrays

func mkSelect(a, i *Term) *Term {
	for {
		if a.op == OStore {
			if a.args[1] == i {
				return a.args[2]
			}
			if knownDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == OConstArr {
			return a.args[0]
		}
		break
	}
	if a.op == OIte {
		x, y := mkSelect(a.args[1], i), mkSelect(a.args[2], i)
		if x == y {
			return x
		}
		if x.op == OConst && y.op == OConst || i.op == OConst && !i.hasBV {
			return mkIte(a.args[0], x, y)
		}
	}
	return mk(&Term{op: OSelect, args: []*Term{a, i}, sort: elemSort(a.sort)})
}

func mkStore(a, i, v *Term) *Term {
	if a.op == OStore && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("mkStore sorts %s %s", a.sort, v.sort))
	}
	return mk(&Term{op: OStore, args: []*Term{a, i, v}, sort: a.sort})
}

func mkConstArr(v *Term) *Term {
	return mk(&Term{op: OConstArr, args: []*Term{v}, sort: SArr(v.sort)})
}

func declFun(name string, args []Sort, ret Sort) {
	var b strings.Builder
	b.WriteString("(declare-fun " + name + " (")
	for i, a := range args {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(string(a))
	}
	b.WriteString(") " + string(ret) + ")")
	if o, ok := funSigs[name]; ok {
		if o != b.String() {
			panic("conflicting declaration of " + name + ": " + o + " vs " + b.String())
		}
		return
	}
	funSigs[name] = b.String()
	funOrder = append(funOrder, name)
}

// defFun registers a define-fun (text) usable by mkApp.
func defFun(name, text string) {
	if _, ok := funSigs[name]; ok {
		return
	}
	funSigs[name] = text
	funOrder = append(funOrder, name)
}

func mkApp(name string, ret Sort, args ...*Term) *Term {
	if _, ok := funSigs[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.sort)
		}
		declFun(name, as, ret)
	}
	return mk(&Term{op: OApp, name: name, args: args, sort: ret})
}

func mkQuant(op Op, vs []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(vs) == 0 {
		return body
	}
	return mk(&Term{op: op, bvars: vs, args: []*Term{body}, pats: pats, sort: SBool})
}

// subst replaces terms (by id) in t.
func subst(t *Term, m map[int]*Term) *Term { return substC(t, m, map[int]*Term{}) }

func substC(t *Term, m map[int]*Term, cache map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := cache[t.id]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = substC(a, m, cache)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.op {
		case OForall, OExists:
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, substC(x, m, cache))
				}
				ps = append(ps, q)
			}
			r = mkQuant(t.op, t.bvars, as[0], ps)
		default:
			r = rebuild(t, as)
		}
	}
	cache[t.id] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OAdd:
		return mkAdd(as...)
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = mkMul(r, a)
		}
		return r
	case ODiv:
		return mkDiv(as[0], as[1])
	case OMod:
		return mkMod(as[0], as[1])
	case OIte:
		return mkIte(as[0], as[1], as[2])
	case OEq:
		return mkEq(as[0], as[1])
	case OLe:
		return mkLe(as[0], as[1])
	case OLt:
		return mkLt(as[0], as[1])
	case OAnd:
		return mkAnd(as...)
	case OOr:
		return mkOr(as...)
	case ONot:
		return mkNot(as[0])
	case OSelect:
		return mkSelect(as[0], as[1])
	case OStore:
		return mkStore(as[0], as[1], as[2])
	case OApp:
		return rebuildApp(t.name, t.sort, as)
	case OConstArr:
		return mkConstArr(as[0])
	}
	panic("rebuild")
}

// rebuildApp may be overridden for functions with simplification rules.
func rebuildApp(name string, s Sort, as []*Term) *Term { return mkApp(name, s, as...) }

// ---- printing

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil)
	s := b.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

var opName = map[Op]string{OAdd: "+", OMul: "*", ODiv: "div", OMod: "mod", OIte: "ite", OEq: "=", OLe: "<=", OLt: "<", OAnd: "and", OOr: "or", ONot: "not", OSelect: "select", OStore: "store"}

func bigStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// absMode > 0 prints products, and quotients by a non-constant, as uninterpreted functions,
// > 1 unsigned wrapping too: what is unsatisfiable then is so with their meaning.
var absMode int

func (t *Term) write(b *strings.Builder, names map[int]string) {
	if names == nil && b.Len() > 3000 {
		b.WriteString("…")
		return
	}
	if names != nil {
		if n, ok := names[t.id]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case OConst:
		b.WriteString(bigStr(t.val))
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OVar, OBVar:
		b.WriteString(t.name)
	case OApp:
		if len(t.args) == 0 {
			b.WriteString(t.name)
			return
		}
		b.WriteString("(" + t.name)
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, names)
		}
		b.WriteByte(')')
	case OConstArr:
		b.WriteString("((as const " + string(t.sort) + ") ")
		t.args[0].write(b, names)
		b.WriteByte(')')
	case OForall, OExists:
		if t.op == OForall {
			b.WriteString("(forall (")
		} else {
			b.WriteString("(exists (")
		}
		for _, v := range t.bvars {
			b.WriteString("(" + v.name + " " + string(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].write(b, names)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				x.write(b, names)
			}
			b.WriteByte(')')
		}
		if len(t.pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		if absMode > 0 && t.op == OMul {
			k := 0
			for _, a := range t.args {
				if a.op != OConst {
					k++
				}
			}
			if k > 1 {
				n := 0
				for _, a := range t.args {
					if a.op == OConst {
						b.WriteString("(* ")
						a.write(b, names)
						b.WriteByte(' ')
						n++
					}
				}
				j := 0
				for _, a := range t.args {
					if a.op == OConst {
						continue
					}
					j++
					if j < k {
						b.WriteString("(nl!mul ")
						n++
					}
					a.write(b, names)
					b.WriteByte(' ')
				}
				b.WriteString(strings.Repeat(")", n))
				return
			}
		}
		if absMode > 0 && (t.op == ODiv || t.op == OMod) && t.args[1].op != OConst {
			b.WriteString("(nl!" + opName[t.op])
		} else {
			b.WriteString("(" + opName[t.op])
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, names)
		}
		b.WriteByte(')')
	}
}
