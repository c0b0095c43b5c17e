package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type cellKey struct {
	frame int
	a     *ssa.Alloc
}

// Fact DAG: facts of a state are those of its node and all ancestors.
type FactNode struct {
	fact    *Term
	parents []*FactNode
}

type State struct {
	cells map[cellKey]SV
	regs  map[regKey]SV
	heap  map[string]*Term
	ghost map[string]SV
	alloc *Term
	pc    *Term
	facts *FactNode
	trace []string // branch trace for reporting
}

type regKey struct {
	frame int
	v     ssa.Value
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, pc: s.pc, facts: s.facts}
	n.cells = make(map[cellKey]SV, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.regs = make(map[regKey]SV, len(s.regs))
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]SV, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.trace = append([]string(nil), s.trace...)
	return n
}

func (s *State) assume(f *Term) {
	f = mkImp(s.pc, f)
	if f == tTrue {
		return
	}
	s.facts = &FactNode{fact: f, parents: []*FactNode{s.facts}}
}

func collectFacts(n *FactNode) []*Term {
	seen := map[*FactNode]bool{}
	var out []*Term
	var st []*FactNode
	st = append(st, n)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || seen[x] {
			continue
		}
		seen[x] = true
		if x.fact != nil {
			out = append(out, x.fact)
		}
		st = append(st, x.parents...)
	}
	// oldest first
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// merge joins states that have mutually exclusive path conditions.
func (v *V) merge(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	n := &State{cells: map[cellKey]SV{}, regs: map[regKey]SV{}, heap: map[string]*Term{}, ghost: map[string]SV{}}
	pcs := make([]*Term, len(ss))
	conds := make([]*Term, len(ss))
	node := &FactNode{}
	for i, s := range ss {
		pcs[i] = s.pc
		node.parents = append(node.parents, s.facts)
	}
	n.facts = node
	// factor the common conjuncts of the path conditions
	common := conjuncts(pcs[0])
	for _, p := range pcs[1:] {
		cm := map[int]bool{}
		for _, c := range conjuncts(p) {
			cm[c.id] = true
		}
		var k []*Term
		for _, c := range common {
			if cm[c.id] {
				k = append(k, c)
			}
		}
		common = k
	}
	cid := map[int]bool{}
	for _, c := range common {
		cid[c.id] = true
	}
	for i, p := range pcs {
		var r []*Term
		for _, c := range conjuncts(p) {
			if !cid[c.id] {
				r = append(r, c)
			}
		}
		conds[i] = mkAnd(r...)
	}
	disj := mkOr(conds...)
	if disj != tTrue && disj.size > 60 {
		g := fresh("g", SBool)
		n.facts = &FactNode{fact: mkImp(g, disj), parents: []*FactNode{n.facts}}
		disj = g
	}
	n.pc = mkAnd(append(append([]*Term{}, common...), disj)...)
	pick := func(ts []*Term) *Term {
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = mkIte(conds[i], ts[i], r)
		}
		return r
	}
	same := func(ts []*Term) bool {
		for _, t := range ts[1:] {
			if t != ts[0] {
				return false
			}
		}
		return true
	}
	mergeSV := func(vs []SV) (SV, bool) {
		r := vs[0]
		for _, o := range vs[1:] {
			if len(o.l) != len(r.l) || (o.cell != nil) != (r.cell != nil) || (o.loc != nil) != (r.loc != nil) || o.fn != r.fn || len(o.tup) != len(r.tup) || len(o.bind) != len(r.bind) {
				return SV{}, false
			}
			if o.cell != nil && !sameCell(o.cell, r.cell) {
				return SV{}, false
			}
			if o.loc != nil && (o.loc.prefix != r.loc.prefix) {
				return SV{}, false
			}
		}
		out := r
		if len(r.l) > 0 {
			out.l = make([]*Term, len(r.l))
			for j := range r.l {
				ts := make([]*Term, len(vs))
				for i := range vs {
					ts[i] = vs[i].l[j]
				}
				out.l[j] = pick(ts)
			}
		}
		if r.loc != nil {
			rs, is := make([]*Term, len(vs)), make([]*Term, len(vs))
			for i := range vs {
				rs[i], is[i] = vs[i].loc.ref, vs[i].loc.idx
			}
			lc := *r.loc
			lc.ref, lc.idx = pick(rs), pick(is)
			out.loc = &lc
		}
		return out, true
	}
	var mergeAny func(vs []SV) (SV, bool)
	mergeAny = func(vs []SV) (SV, bool) {
		out, ok := mergeSV(vs)
		if ok && len(vs[0].tup) > 0 {
			out.tup = nil
			for j := range vs[0].tup {
				var xs []SV
				for i := range vs {
					xs = append(xs, vs[i].tup[j])
				}
				m, ok := mergeAny(xs)
				if !ok {
					return SV{}, false
				}
				out.tup = append(out.tup, m)
			}
		}
		return out, ok
	}
	for k := range ss[0].cells {
		var vs []SV
		for _, s := range ss {
			if x, ok := s.cells[k]; ok {
				vs = append(vs, x)
			}
		}
		if len(vs) == len(ss) {
			if m, ok := mergeAny(vs); ok {
				n.cells[k] = m
			}
		}
	}
	for k := range ss[0].regs {
		var vs []SV
		for _, s := range ss {
			if x, ok := s.regs[k]; ok {
				vs = append(vs, x)
			}
		}
		if len(vs) == len(ss) {
			if m, ok := mergeAny(vs); ok {
				n.regs[k] = m
			}
		}
	}
	for k := range ss[0].ghost {
		var vs []SV
		for _, s := range ss {
			if x, ok := s.ghost[k]; ok {
				vs = append(vs, x)
			}
		}
		if len(vs) == len(ss) {
			if m, ok := mergeAny(vs); ok {
				n.ghost[k] = m
			}
		}
	}
	keys := map[string]bool{}
	for _, s := range ss {
		for k := range s.heap {
			keys[k] = true
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ts := make([]*Term, len(ss))
		for i, s := range ss {
			t, ok := s.heap[k]
			if !ok {
				t = v.h0(k, v.keySort[k])
			}
			ts[i] = t
		}
		n.heap[k] = pick(ts)
	}
	as := make([]*Term, len(ss))
	for i, s := range ss {
		as[i] = s.alloc
	}
	if same(as) {
		n.alloc = as[0]
	} else {
		// a fresh counter at least as large as each
		a := fresh("alloc", SInt)
		n.alloc = a
		for i, s := range ss {
			n.facts = &FactNode{fact: mkImp(s.pc, mkGe(a, s.alloc)), parents: []*FactNode{n.facts}}
			_ = i
		}
		// for syntactic distinctness: a is at least the smallest common base
		allocGE[a.id] = v.minAlloc(as)
		declareRange(a, v.one, nil)
		n.facts = &FactNode{fact: mkGe(a, allocGE[a.id]), parents: []*FactNode{n.facts}}
	}
	n.trace = commonPrefix(ss)
	return n
}

func commonPrefix(ss []*State) []string {
	p := ss[0].trace
	for _, s := range ss[1:] {
		i := 0
		for i < len(p) && i < len(s.trace) && p[i] == s.trace[i] {
			i++
		}
		p = p[:i]
	}
	return append([]string(nil), p...)
}

// minAlloc finds a term that every given alloc counter is known to exceed or equal.
func (v *V) minAlloc(as []*Term) *Term {
	for _, c := range as {
		ok := true
		for _, o := range as {
			if !refGE(o, c) {
				ok = false
			}
		}
		if ok {
			return c
		}
	}
	return v.alloc0
}

func conjuncts(t *Term) []*Term {
	if t == tTrue {
		return nil
	}
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func sameCell(a, b *CellAddr) bool {
	if a.key != b.key || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// ---- heap access

func (v *V) h0(key string, s Sort) *Term {
	if s == "" {
		panic("h0: unknown sort for " + key)
	}
	if t, ok := v.h0tab[key]; ok {
		return t
	}
	t := mkVar(fmt.Sprintf("H%d_%s", v.id, sanitize(key)), s)
	v.h0tab[key] = t
	return t
}

// heapSort is (Array Int (Array Int leaf)).
func heapSort(leaf Sort) Sort { return SArr(SArr(leaf)) }

func (v *V) heapOf(st *State, key string, leaf Sort) *Term {
	hs := heapSort(leaf)
	if o, ok := v.keySort[key]; ok && o != hs {
		panic(fmt.Sprintf("heap key %s used at sorts %s and %s", key, o, hs))
	}
	v.keySort[key] = hs
	if t, ok := st.heap[key]; ok {
		return t
	}
	return v.h0(key, hs)
}

func (v *V) rowOf(st *State, key string, leaf Sort, ref *Term) *Term {
	return mkSelect(v.heapOf(st, key, leaf), ref)
}

// load reads the value at a place.
func (v *V) load(st *State, lc Loc) SV {
	if s, ok := lc.t.Underlying().(*types.Struct); ok {
		var out []*Term
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, v.load(st, lc.field(i)).l...)
		}
		return SV{t: lc.t, l: out}
	}
	if a, ok := lc.t.Underlying().(*types.Array); ok {
		return SV{t: lc.t, l: v.loadRows(st, a.Elem(), lc.ref)}
	}
	ls := leaves(lc.t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = typedLeaf(mkSelect(v.rowOf(st, lc.prefix+l.suf, l.sort, lc.ref), lc.idx), l)
	}
	sv := SV{t: lc.t, l: out}
	v.typing(st, sv)
	return sv
}

// loadRows gives the leaf arrays of all elements of the array object ref.
func (v *V) loadRows(st *State, et types.Type, ref *Term) []*Term {
	var out []*Term
	if isArrayT(et) {
		panic(unsupported("value of an array of arrays"))
	}
	var rec func(t types.Type, prefix string)
	rec = func(t types.Type, prefix string) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isArrayT(f.Type()) || boxedFields[structKey(t)+"."+f.Name()] {
					panic(unsupported("array of structs with inner objects as a value"))
				}
				rec(f.Type(), prefix+"."+f.Name())
			}
			return
		}
		for _, l := range leaves(t) {
			out = append(out, v.rowOf(st, prefix+l.suf, l.sort, ref))
		}
	}
	rec(et, typeKey(et))
	return out
}

func (v *V) storeRows(st *State, et types.Type, ref *Term, vals []*Term) {
	if a, ok := et.Underlying().(*types.Array); ok {
		// array of arrays: element by element when small
		n := vals
		_ = n
		_ = a
		panic(unsupported("store of an array of arrays"))
	}
	var rec func(t types.Type, prefix string)
	rec = func(t types.Type, prefix string) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isArrayT(f.Type()) || boxedFields[structKey(t)+"."+f.Name()] {
					panic(unsupported("array of structs with inner objects as a value"))
				}
				rec(f.Type(), prefix+"."+f.Name())
			}
			return
		}
		for _, l := range leaves(t) {
			v.setRow(st, prefix+l.suf, l.sort, ref, vals[0])
			vals = vals[1:]
		}
	}
	rec(et, typeKey(et))
}

func (v *V) setRow(st *State, key string, leaf Sort, ref, row *Term) {
	v.noteWrite(st, key, ref, nil)
	st.heap[key] = mkStore(v.heapOf(st, key, leaf), ref, row)
}

// store writes a value at a place.
func (v *V) store(st *State, lc Loc, val []*Term) {
	if s, ok := lc.t.Underlying().(*types.Struct); ok {
		o := 0
		for i := 0; i < s.NumFields(); i++ {
			n := nleaves(s.Field(i).Type())
			v.store(st, lc.field(i), val[o:o+n])
			o += n
		}
		return
	}
	if a, ok := lc.t.Underlying().(*types.Array); ok {
		if isArrayT(a.Elem()) {
			// small nested arrays, element by element
			if a.Len() > 16 {
				panic(unsupported("large nested array store"))
			}
			for i := int64(0); i < a.Len(); i++ {
				ix := mkInt(i)
				sub := make([]*Term, len(val))
				for j := range val {
					sub[j] = mkSelect(val[j], ix)
				}
				v.store(st, elemLoc(a.Elem(), lc.ref, ix), sub)
			}
			return
		}
		v.storeRows(st, a.Elem(), lc.ref, val)
		return
	}
	for i, l := range leaves(lc.t) {
		k := lc.prefix + l.suf
		v.noteWrite(st, k, lc.ref, lc.idx)
		h := v.heapOf(st, k, l.sort)
		st.heap[k] = mkStore(h, lc.ref, mkStore(mkSelect(h, lc.ref), lc.idx, val[i]))
	}
}

// typing records the facts that hold of every Go value of its type.
func (v *V) typing(st *State, x SV) {
	ls := leaves(x.t)
	for i := 0; i < len(ls); i++ {
		if x.l[i].hasBV {
			return
		}
		switch ls[i].kind {
		case kRef:
			r := x.l[i]
			if r.op == OConst {
				continue
			}
			if _, isStore := refBound[r.id]; !isStore && (r.op == OVar || r.op == OSelect) {
				// Sound as a global bound: the value existed no later than now.
				refBound[r.id] = st.alloc
			}
			f := mkAnd(mkLt(mkRoot(r), st.alloc))
			if i+1 < len(ls) && ls[i+1].kind == kIdx {
				f = mkAnd(f, mkImp(mkEq(r, mkInt(0)), mkEq(x.l[i+1], mkInt(0))))
			}
			st.assume(f)
		case kCap:
			ref, off, ln, cp := x.l[i-3], x.l[i-2], x.l[i-1], x.l[i]
			st.assume(mkAnd(mkLe(ln, cp), mkLe(mkAdd(off, cp), mkBig(maxObj)), mkImp(mkEq(ref, mkInt(0)), mkEq(cp, mkInt(0)))))
		case kTag:
			st.assume(mkImp(mkEq(x.l[i], mkInt(0)), mkAnd(mkEq(x.l[i+1], mkInt(0)), mkEq(x.l[i+2], mkInt(0)))))
		}
	}
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

var _ = token.NoPos
