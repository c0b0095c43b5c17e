package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- value layout: every Go value is a flat list of SMT leaves

type leafKind uint8

const (
	kInt leafKind = iota
	kBool
	kFlt
	kRef
	kIdx
	kOff
	kLen
	kCap
	kStrArr
	kTag
	kArr // element leaf of an array value
)

type Leaf struct {
	suf    string
	sort   Sort
	kind   leafKind
	lo, hi *big.Int
}

var leafCache = map[string][]Leaf{}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intRange(b *types.Basic) (lo, hi *big.Int, bits uint, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		return nil, nil, 0, false
	}
	if signed {
		hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
		lo = new(big.Int).Neg(pow2(bits - 1))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(pow2(bits), big.NewInt(1))
	}
	return
}

var maxObj = pow2(47) // no slice or string is longer than this (an assumption)

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	var out []Leaf
	zero := big.NewInt(0)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []Leaf{{"", SBool, kBool, nil, nil}}
		case u.Kind() == types.UntypedInt:
			out = []Leaf{{"", SInt, kInt, nil, nil}}
		case u.Info()&types.IsInteger != 0:
			lo, hi, _, _ := intRange(u)
			out = []Leaf{{"", SInt, kInt, lo, hi}}
		case u.Info()&types.IsString != 0:
			out = []Leaf{{".str", SArr(SInt), kStrArr, nil, nil}, {".off", SInt, kOff, zero, maxObj}, {".len", SInt, kLen, zero, maxObj}}
		case u.Kind() == types.UnsafePointer:
			out = []Leaf{{".ref", SInt, kRef, nil, nil}, {".idx", SInt, kIdx, zero, maxObj}}
		case u.Kind() == types.UntypedNil:
			out = []Leaf{{".ref", SInt, kRef, nil, nil}, {".idx", SInt, kIdx, zero, maxObj}}
		default:
			out = []Leaf{{"", SFlt, kFlt, nil, nil}}
		}
	case *types.Pointer:
		out = []Leaf{{".ref", SInt, kRef, nil, nil}, {".idx", SInt, kIdx, zero, maxObj}}
	case *types.Slice:
		out = []Leaf{{".ref", SInt, kRef, nil, nil}, {".off", SInt, kOff, zero, maxObj}, {".len", SInt, kLen, zero, maxObj}, {".cap", SInt, kCap, zero, maxObj}}
	case *types.Map, *types.Chan, *types.Signature:
		out = []Leaf{{".ref", SInt, kRef, nil, nil}}
	case *types.Interface:
		out = []Leaf{{".tag", SInt, kTag, zero, nil}, {".ref", SInt, kRef, nil, nil}, {".idx", SInt, kIdx, zero, maxObj}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.suf = "." + u.Field(i).Name() + l.suf
				out = append(out, l)
			}
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			l.suf = "[]" + l.suf
			l.sort = SArr(l.sort)
			l.kind = kArr
			l.lo, l.hi = nil, nil
			out = append(out, l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			out = append(out, leaves(u.At(i).Type())...)
		}
	default:
		if strings.Contains(k, "deferStack") {
			out = []Leaf{{"", SInt, kInt, nil, nil}}
			break
		}
		panic(fmt.Sprintf("leaves of %s", t))
	}
	leafCache[k] = out
	return out
}

func nleaves(t types.Type) int { return len(leaves(t)) }

func fieldOff(s *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += nleaves(s.Field(j).Type())
	}
	return n
}

// SV is a symbolic Go value, or the address of a local cell or memory place.
type SV struct {
	t    types.Type
	l    []*Term
	cell *CellAddr // address of (part of) a local variable
	loc  *Loc      // address of a memory place, kept unresolved
	fn   *ssa.Function
	bind []SV
	tup  []SV
}

type pathElem struct {
	field int
	index *Term // non-nil for array indexing
}

type CellAddr struct {
	key  cellKey
	t    types.Type // type of the whole cell
	path []pathElem
}

// Loc is a typed place in memory.
type Loc struct {
	t        types.Type
	prefix   string
	ref, idx *Term
}

// zeroVal builds the zero value of t.
func zeroLeaf(l Leaf) *Term {
	return zeroOfSort(l.sort)
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SFlt:
		return mkVar("flt_zero", SFlt)
	}
	return mkConstArr(zeroOfSort(elemSort(s)))
}

func zeroVal(t types.Type) SV {
	ls := leaves(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = zeroLeaf(l)
	}
	return SV{t: t, l: out}
}

// getPath / setPath navigate inside a flattened value.
func getPath(t types.Type, l []*Term, path []pathElem) (types.Type, []*Term) {
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			o := fieldOff(u, p.field)
			t = u.Field(p.field).Type()
			l = l[o : o+nleaves(t)]
		case *types.Array:
			t = u.Elem()
			n := make([]*Term, len(l))
			ls := leaves(t)
			for i := range l {
				n[i] = typedLeaf(mkSelect(l[i], p.index), ls[i])
			}
			l = n
		default:
			panic("getPath")
		}
	}
	return t, l
}

func setPath(t types.Type, l []*Term, path []pathElem, v []*Term) []*Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := fieldOff(u, p.field)
		ft := u.Field(p.field).Type()
		n := nleaves(ft)
		out := append([]*Term{}, l...)
		copy(out[o:o+n], setPath(ft, l[o:o+n], path[1:], v))
		return out
	case *types.Array:
		et := u.Elem()
		cur := make([]*Term, len(l))
		for i := range l {
			cur[i] = mkSelect(l[i], p.index)
		}
		nv := setPath(et, cur, path[1:], v)
		out := make([]*Term, len(l))
		for i := range l {
			out[i] = mkStore(l[i], p.index, nv[i])
		}
		return out
	}
	panic("setPath")
}

// typedLeaf declares the typing range of a leaf term.
func typedLeaf(t *Term, l Leaf) *Term {
	if t.sort == SInt && (l.lo != nil || l.hi != nil) {
		switch t.op {
		case OVar, OSelect, OApp:
			declareRange(t, l.lo, l.hi)
		case OIte:
			typedLeaf(t.args[1], l)
			typedLeaf(t.args[2], l)
		}
	}
	return t
}

// freshVal makes an unconstrained value of type t; typing side facts are
// returned by typingFacts.
func freshVal(name string, t types.Type) SV {
	ls := leaves(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = typedLeaf(fresh(name+l.suf, l.sort), l)
	}
	return SV{t: t, l: out}
}

// ---- memory keys

// boxed fields: fields (of repo structs) whose address is used as a pointer.
// key: typeKey(struct)+"."+field.
var boxedFields = map[string]bool{}

func structKey(t types.Type) string { return typeKey(t) }

func computeBoxed(pr *Program) {
	for _, f := range pr.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				ptr := fa.X.Type().Underlying().(*types.Pointer).Elem()
				st := ptr.Underlying().(*types.Struct)
				if escapes(fa) {
					boxedFields[structKey(ptr)+"."+st.Field(fa.Field).Name()] = true
				}
			}
		}
	}
}

// escapes reports whether the address computed by v is used other than for
// direct loads, stores and sub-addressing.
func escapes(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == v {
				return true
			}
		case *ssa.FieldAddr:
			if escapesNested(r) {
				return true
			}
		case *ssa.IndexAddr:
			// array element: elements live in their own object, no boxing needed
			if _, isArr := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !isArr {
				return true
			}
		case *ssa.Slice:
			// slicing an array: arrays always are their own object
		default:
			return true
		}
	}
	return false
}

// a nested field whose own address escapes is boxed itself; the outer one
// need not be.
func escapesNested(v *ssa.FieldAddr) bool { return false }

func isBoxed(st types.Type, field string) bool { return boxedFields[structKey(st)+"."+field] }

var fidTab = map[string]int64{}

func fidOf(k string) *Term {
	if n, ok := fidTab[k]; ok {
		return mkInt(n)
	}
	n := int64(len(fidTab) + 1)
	fidTab[k] = n
	return mkInt(n)
}

func mkSub3(ref, idx, fid *Term) *Term {
	declFun("sub", []Sort{SInt, SInt, SInt}, SInt)
	declFun("sbase", []Sort{SInt}, SInt)
	declFun("sidx", []Sort{SInt}, SInt)
	declFun("sfld", []Sort{SInt}, SInt)
	declFun("root", []Sort{SInt}, SInt)
	t := mkApp("sub", SInt, ref, idx, fid)
	if !t.hasBV {
		if _, ok := termFacts[t.id]; !ok {
			termFacts[t.id] = []*Term{
				mkEq(mkApp("sbase", SInt, t), ref), mkEq(mkApp("sidx", SInt, t), idx), mkEq(mkApp("sfld", SInt, t), fid),
				mk(&Term{op: OLt, args: []*Term{t, mkInt(0)}, sort: SBool}),
				mkEq(mkApp("root", SInt, t), mkRoot(ref)),
			}
		}
	}
	return t
}

func mkRoot(r *Term) *Term {
	declFun("root", []Sort{SInt}, SInt)
	if r.op == OApp && r.name == "sub" {
		return mkRoot(r.args[0])
	}
	if lo, _ := bounds(r); lo != nil && lo.Sign() >= 0 {
		return r
	}
	t := mkApp("root", SInt, r)
	if !t.hasBV {
		if _, ok := termFacts[t.id]; !ok {
			termFacts[t.id] = []*Term{mkImp(mkGe(r, mkInt(0)), mkEq(t, r)), mkGe(t, mkInt(0))}
		}
	}
	return t
}

// termFacts are facts emitted whenever the term occurs in a query.
var termFacts = map[int][]*Term{}

// refBound: root(p) < bound for a pointer term p; allocGE: alloc term >= other.
var refBound = map[int]*Term{}
var allocGE = map[int]*Term{}

func init() { appRange["sub"] = [2]*big.Int{nil, big.NewInt(-1)} }

// refGE reports that the fresh reference r is at least bound b.
func refGE(r, b *Term) bool {
	for i := 0; i < 50; i++ {
		d := mkSub(r, b)
		if lo, _ := bounds(d); lo != nil && lo.Sign() >= 0 {
			return true
		}
		// r = base + k
		base := r
		k := mkInt(0)
		if r.op == OAdd {
			for _, a := range r.args {
				if a.op != OConst {
					base = a
				} else {
					k = a
				}
			}
			if len(r.args) != 2 || mkAdd(base, k) != r {
				return false
			}
		}
		g, ok := allocGE[base.id]
		if !ok {
			return false
		}
		r = mkAdd(g, k)
	}
	return false
}

func refDistinct(a, b *Term) bool {
	return refDist1(a, b) || refDist1(b, a)
}

func rootOf(t *Term) *Term {
	for t.op == OApp && t.name == "sub" {
		t = t.args[0]
	}
	return t
}

func refDist1(a, b *Term) bool {
	if bd, ok := refBound[rootOf(a).id]; ok {
		if refGE(rootOf(b), bd) {
			return true
		}
	}
	if a.op == OApp && a.name == "sub" && b.op == OApp && b.name == "sub" {
		if knownDistinct(a.args[2], b.args[2]) || knownDistinct(a.args[1], b.args[1]) || knownDistinct(a.args[0], b.args[0]) {
			return true
		}
	}
	return false
}

// ---- locations

func isArrayT(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }
func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// derefLoc is the place a pointer value of type *t points to.
func derefLoc(t types.Type, ref, idx *Term) Loc {
	return Loc{t: t, prefix: typeKey(t), ref: ref, idx: idx}
}

func (lc Loc) field(i int) Loc {
	st := lc.t.Underlying().(*types.Struct)
	f := st.Field(i)
	ft := f.Type()
	key := structKey(lc.t) + "." + f.Name()
	if isArrayT(ft) {
		return Loc{t: ft, prefix: typeKey(ft), ref: mkSub3(lc.ref, lc.idx, fidOf(lc.prefix+"."+f.Name())), idx: mkInt(0)}
	}
	if boxedFields[key] {
		return Loc{t: ft, prefix: typeKey(ft), ref: mkSub3(lc.ref, lc.idx, fidOf(lc.prefix+"."+f.Name())), idx: mkInt(0)}
	}
	return Loc{t: ft, prefix: lc.prefix + "." + f.Name(), ref: lc.ref, idx: lc.idx}
}

// elem is the i'th element of an array place.
func (lc Loc) elem(i *Term) Loc {
	et := lc.t.Underlying().(*types.Array).Elem()
	return elemLoc(et, lc.ref, i)
}

func elemLoc(et types.Type, ref, i *Term) Loc {
	if isArrayT(et) {
		return Loc{t: et, prefix: typeKey(et), ref: mkSub3(ref, i, fidOf("[]")), idx: mkInt(0)}
	}
	return Loc{t: et, prefix: typeKey(et), ref: ref, idx: i}
}

// isPtr reports that the place can be represented as an ordinary pointer value.
func (lc Loc) isPtr() bool { return lc.prefix == typeKey(lc.t) }
