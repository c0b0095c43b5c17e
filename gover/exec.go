package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation.
type Oblig struct {
	name  string
	kind  string
	tags  []string
	fn    string
	pos   string
	src   string
	facts *FactNode
	pc    *Term
	goal  *Term
	// for covers: expect sat
	cover bool
	// result
	status string // proved, failed, unknown
	solver string
	ms     int64
	detail string
	extra  []*Term
	v      *V
	trace  []string
	model  string
	file   string
}

// V verifies one function against its contract.
type V struct {
	id         int
	pr         *Program
	cs         *Contracts
	fn         *ssa.Function
	ct         *FuncContract
	prop       string // property being checked ("" = all)
	obs        []*Oblig
	h0tab      map[string]*Term
	keySort    map[string]Sort
	alloc0     *Term
	one        *big.Int
	entry      *State
	params     []SV
	nframe     int
	dry        int
	writes     []writeRec
	mods       []ModEntry // evaluated modifies set
	modAll     bool
	counter    map[string]int
	loopNo     int
	topFrame   *Frame
	used       map[string]bool // callees used by contract
	inlined    map[string]bool
	assumed    map[string]bool
	unsup      []string
	lits       map[string]SV
	globals    map[*ssa.Global]*Term
	loopRecs   []*loopInfo
	allLoops   []*loopInfo // every range loop met, for iter(N) after the loop
	entryFacts []*Term
	unfolded   map[int]int
	usedLemmas map[string]bool
	loopIdx    map[string]int
	curLemma   *Lemma
	inductVal  *Term
}

type writeRec struct {
	key      string
	ref, idx *Term
	ghost    string
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	depth  int
	loops  map[*ssa.BasicBlock]*Loop
	order  map[*ssa.BasicBlock]int
	rpo    []*ssa.BasicBlock
	args   []SV
	dup    map[*ssa.BasicBlock]bool
	path   string
	active map[*ssa.BasicBlock]*loopInfo
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type loopInfo struct {
	n      int // ordinal in the verified function
	loop   *Loop
	fr     *Frame
	spec   *LoopSpec
	pre    *State // state before the loop
	head   *State // state at the (havoced) header
	dec    []*Term
	ri     *cellKey // range index cell
	dryRun bool
}

type retState struct {
	st  *State
	res []SV
	pos token.Pos
}

var vcount int

func newV(pr *Program, cs *Contracts, fn *ssa.Function, ct *FuncContract, prop string) *V {
	vcount++
	return &V{id: vcount, pr: pr, cs: cs, fn: fn, ct: ct, prop: prop, h0tab: map[string]*Term{}, keySort: map[string]Sort{}, one: big.NewInt(1),
		counter: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, lits: map[string]SV{}, globals: map[*ssa.Global]*Term{}, usedLemmas: map[string]bool{}, loopIdx: map[string]int{}}
}

// ---- obligations

func (v *V) oblige(st *State, kind string, goal *Term, pos token.Pos, tags ...string) {
	if v.dry > 0 {
		return
	}
	v.counter[kind]++
	p, src := v.pr.srcLine(pos)
	o := &Oblig{name: fmt.Sprintf("%s/%s#%d", funcName(v.fn), kind, v.counter[kind]), kind: kind, tags: tags, fn: funcName(v.fn), pos: p, src: src, facts: st.facts, pc: st.pc, goal: goal, v: v, trace: append([]string(nil), st.trace...)}
	if goal == tTrue || st.pc == tFalse {
		o.status, o.solver = "proved", "simplifier"
	}
	v.obs = append(v.obs, o)
	// the checked condition may be assumed afterwards
	if kind != "cover" && goal != tFalse {
		st.assume(goal)
	}
}

func (v *V) unsupportedAt(st *State, msg string, pos token.Pos) {
	if v.dry > 0 {
		return
	}
	v.unsup = append(v.unsup, msg)
	v.oblige(st, "unsupported: "+msg, tFalse, pos)
}

func (v *V) noteWrite(st *State, key string, ref, idx *Term) {
	v.writes = append(v.writes, writeRec{key: key, ref: ref, idx: idx})
}

// ---- control flow preparation

func newFrame(v *V, fn *ssa.Function, parent *Frame) *Frame {
	v.nframe++
	fr := &Frame{id: v.nframe, fn: fn, parent: parent, loops: map[*ssa.BasicBlock]*Loop{}, order: map[*ssa.BasicBlock]int{}, dup: map[*ssa.BasicBlock]bool{}, active: map[*ssa.BasicBlock]*loopInfo{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	// depth-first order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit successors in reverse so that the RPO lists "then" branches first
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if s.Dominates(b) { // back edge
				l := fr.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				// natural loop body
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.order[post[i]] = len(fr.rpo)
		fr.rpo = append(fr.rpo, post[i])
	}
	for h, l := range fr.loops {
		for h2, l2 := range fr.loops {
			if h2 != h && l2.blocks[h] && (l.parent == nil || len(l2.blocks) < len(l.parent.blocks)) {
				l.parent = l2
			}
		}
	}
	for _, b := range fr.rpo {
		if len(b.Preds) > 3 && len(b.Instrs) <= 14 && fr.loops[b] == nil {
			ok := len(b.Succs) == 1 && b.Succs[0].Dominates(b)
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Call, *ssa.Phi:
					ok = false
				}
			}
			if ok {
				fr.dup[b] = true
			}
		}
	}
	return fr
}

type edge struct {
	st   *State
	pred *ssa.BasicBlock
}

// runFunc executes fn from st; it returns the states at its return sites.
func (v *V) runFunc(fr *Frame, st *State, args []SV) []retState {
	fr.args = args
	for i, p := range fr.fn.FreeVars {
		a := args[i]
		a.t = p.Type()
		st.regs[regKey{fr.id, p}] = a
	}
	nfree := len(fr.fn.FreeVars)
	for i, p := range fr.fn.Params {
		a := args[nfree+i]
		a.t = p.Type()
		st.regs[regKey{fr.id, p}] = a
	}
	var rets []retState
	v.runRegion(fr, map[*ssa.BasicBlock][]edge{fr.fn.Blocks[0]: {{st, nil}}}, nil, nil, &rets)
	return rets
}

// runRegion executes the blocks reachable from the pending edges. If within is
// non-nil only its blocks are executed (edges leaving it go to exits).
func (v *V) runRegion(fr *Frame, pending map[*ssa.BasicBlock][]edge, within *Loop, exits map[*ssa.BasicBlock][]edge, rets *[]retState) {
	headerDone := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		if within != nil && !within.blocks[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		var live []edge
		for _, e := range es {
			if e.st.pc != tFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		l := fr.loops[b]
		isHead := l != nil && !(within == l)
		_ = headerDone
		var groups [][]edge
		if (v.split(fr) || fr.dup[b]) && !isHead {
			for _, e := range live {
				groups = append(groups, []edge{e})
			}
		} else {
			groups = [][]edge{live}
		}
		for _, g := range groups {
			st := v.enterBlock(fr, b, g)
			if isHead {
				v.runLoop(fr, l, st, pending, within, exits, rets)
				continue
			}
			v.execBlock(fr, b, st, pending, within, exits, rets)
		}
	}
}

func (v *V) split(fr *Frame) bool { return v.ct != nil && v.ct.split }

// enterBlock merges the incoming edges and evaluates phis.
func (v *V) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	if len(phis) > 0 && fr.loops[b] == nil {
		for _, e := range es {
			pi := -1
			for i, p := range b.Preds {
				if p == e.pred {
					pi = i
				}
			}
			vals := make([]SV, len(phis))
			for i, p := range phis {
				vals[i] = v.value(fr, e.st, p.Edges[pi])
				vals[i].t = p.Type()
			}
			for i, p := range phis {
				e.st.regs[regKey{fr.id, p}] = vals[i]
			}
		}
	} else if len(phis) > 0 {
		panic(unsupported("phi at a loop header"))
	}
	ss := make([]*State, len(es))
	for i, e := range es {
		ss[i] = e.st
	}
	return v.merge(ss)
}

func (v *V) flow(fr *Frame, from, to *ssa.BasicBlock, st *State, pending map[*ssa.BasicBlock][]edge, within *Loop, exits map[*ssa.BasicBlock][]edge) {
	if st.pc == tFalse {
		return
	}
	if to.Dominates(from) && fr.loops[to] != nil { // back edge
		v.backEdge(fr, to, st, from)
		return
	}
	if within != nil && !within.blocks[to] {
		exits[to] = append(exits[to], edge{st, from})
		return
	}
	pending[to] = append(pending[to], edge{st, from})
}

func (v *V) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, pending map[*ssa.BasicBlock][]edge, within *Loop, exits map[*ssa.BasicBlock][]edge, rets *[]retState) {
	for _, in := range b.Instrs {
		if st.pc == tFalse {
			return
		}
		switch in := in.(type) {
		case *ssa.If:
			c := v.value(fr, st, in.Cond).l[0]
			t, f := st, st.clone()
			t.pc = mkAnd(t.pc, c)
			f.pc = mkAnd(f.pc, mkNot(c))
			if v.split(fr) || true {
				p, src := v.pr.srcLine(condPos(in))
				t.trace = append(t.trace, p+" true: "+src)
				f.trace = append(f.trace, p+" false: "+src)
			}
			v.flow(fr, b, b.Succs[0], t, pending, within, exits)
			v.flow(fr, b, b.Succs[1], f, pending, within, exits)
			return
		case *ssa.Jump:
			v.flow(fr, b, b.Succs[0], st, pending, within, exits)
			return
		case *ssa.Return:
			var res []SV
			for _, r := range in.Results {
				res = append(res, v.value(fr, st, r))
			}
			*rets = append(*rets, retState{st, res, in.Pos()})
			return
		case *ssa.Panic:
			v.oblige(st, "panic-unreachable", tFalse, in.Pos())
			return
		default:
			if !v.safeInstr(fr, st, in) {
				return
			}
		}
	}
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	return in.Pos()
}

// safeInstr executes one instruction, turning unsupported constructs into
// failing obligations.
func (v *V) safeInstr(fr *Frame, st *State, in ssa.Instruction) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupportedErr); is {
				v.unsupportedAt(st, u.msg, in.Pos())
				if val, isv := in.(ssa.Value); isv {
					func() {
						defer func() {
							if recover() != nil {
								ok = false
							}
						}()
						st.regs[regKey{fr.id, val}] = v.freshTyped(st, "unsup", val.Type())
					}()
				}
				return
			}
			panic(r)
		}
	}()
	v.instr(fr, st, in)
	return true
}

func (v *V) freshTyped(st *State, name string, t types.Type) SV {
	if tp, ok := t.(*types.Tuple); ok {
		var out SV
		out.t = t
		for i := 0; i < tp.Len(); i++ {
			out.tup = append(out.tup, v.freshTyped(st, name, tp.At(i).Type()))
		}
		return out
	}
	x := freshVal(name, t)
	v.typing(st, x)
	return x
}

// ---- values

func (v *V) value(fr *Frame, st *State, x ssa.Value) SV {
	switch x := x.(type) {
	case *ssa.Const:
		return v.constVal(st, x.Value, x.Type())
	case *ssa.Global:
		return v.globalAddr(x)
	case *ssa.Function:
		return SV{t: x.Type(), fn: x, l: []*Term{mkVar("fn_"+sanitize(funcName(x)), SInt)}}
	case *ssa.Builtin:
		return SV{t: x.Type()}
	}
	if s, ok := st.regs[regKey{fr.id, x}]; ok {
		return s
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) not available here", x.Name(), x)))
}

func (v *V) constVal(st *State, c constant.Value, t types.Type) SV {
	if c == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SV{t: t, l: []*Term{mkBool(constant.BoolVal(c))}}
		case u.Info()&types.IsInteger != 0:
			b, ok := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
			if !ok {
				panic(unsupported("constant " + c.String()))
			}
			return SV{t: t, l: []*Term{mkWrap(mkBig(b), u)}}
		case u.Info()&types.IsString != 0:
			return strLit(t, constant.StringVal(c))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c)
			if f == 0 {
				return zeroVal(t)
			}
			return SV{t: t, l: []*Term{mkVar("flt_"+sanitize(c.ExactString()), SFlt)}}
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

func strLit(t types.Type, s string) SV {
	var arr *Term
	if len(s) <= 64 {
		arr = mkConstArr(mkInt(0))
		for i := 0; i < len(s); i++ {
			arr = mkStore(arr, mkInt(int64(i)), mkInt(int64(s[i])))
		}
	} else {
		arr = mkVar("strlit_"+fmt.Sprintf("%x", hash(s)), SArr(SInt))
	}
	return SV{t: t, l: []*Term{arr, mkInt(0), mkInt(int64(len(s)))}}
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Globals live at small distinct positive references (below alloc0).
var globalRefs = map[string]int64{}

func globalRef(g *ssa.Global) *Term {
	k := g.String()
	n, ok := globalRefs[k]
	if !ok {
		n = int64(len(globalRefs) + 2)
		globalRefs[k] = n
	}
	return mkInt(n)
}

func (v *V) globalAddr(g *ssa.Global) SV {
	et := g.Type().(*types.Pointer).Elem()
	lc := derefLoc(et, globalRef(g), mkInt(0))
	v.initGlobal(g, lc)
	return SV{t: g.Type(), l: []*Term{lc.ref, lc.idx}}
}

// initGlobal makes the initial value of an effectively constant global known.
func (v *V) initGlobal(g *ssa.Global, lc Loc) {
	if _, ok := v.globals[g]; ok {
		return
	}
	v.globals[g] = lc.ref
	vals := constGlobalLeaves(v.pr, g)
	if vals == nil || v.entry == nil {
		return
	}
	// The initial heap is symbolic; state what it holds at this global.
	var rec func(lc Loc, vals []*Term)
	var facts []*Term
	rec = func(lc Loc, vals []*Term) {
		if s, ok := lc.t.Underlying().(*types.Struct); ok {
			o := 0
			for i := 0; i < s.NumFields(); i++ {
				n := nleaves(s.Field(i).Type())
				rec(lc.field(i), vals[o:o+n])
				o += n
			}
			return
		}
		if a, ok := lc.t.Underlying().(*types.Array); ok {
			ls := leaves(a.Elem())
			if isStructT(a.Elem()) || isArrayT(a.Elem()) {
				return
			}
			for i, l := range ls {
				facts = append(facts, mkEq(mkSelect(v.h0x(typeKey(a.Elem())+l.suf, l.sort), lc.ref), vals[i]))
			}
			return
		}
		for i, l := range leaves(lc.t) {
			facts = append(facts, mkEq(mkSelect(mkSelect(v.h0x(lc.prefix+l.suf, l.sort), lc.ref), lc.idx), vals[i]))
		}
	}
	rec(lc, vals)
	v.entryFacts = append(v.entryFacts, facts...)
}

func (v *V) h0x(key string, leaf Sort) *Term {
	v.keySort[key] = heapSort(leaf)
	return v.h0(key, heapSort(leaf))
}

// addrOf resolves an SSA address value into a cell or a location.
func (v *V) addr(fr *Frame, st *State, x ssa.Value, pos token.Pos) SV {
	a := v.value(fr, st, x)
	if a.cell != nil || a.loc != nil {
		return a
	}
	pt := x.Type().Underlying().(*types.Pointer)
	v.nonNil(st, a.l[0], pos)
	lc := derefLoc(pt.Elem(), a.l[0], a.l[1])
	return SV{t: x.Type(), loc: &lc}
}

func (v *V) nonNil(st *State, ref *Term, pos token.Pos) {
	if lo, hi := bounds(ref); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return
	}
	v.oblige(st, "nil-deref", mkNot(mkEq(ref, mkInt(0))), pos)
}

func (v *V) loadAddr(st *State, a SV) SV {
	if a.cell != nil {
		c, ok := st.cells[a.cell.key]
		if !ok {
			panic(unsupported("local variable not initialised here: " + a.cell.key.a.Comment))
		}
		if len(a.cell.path) == 0 {
			return c
		}
		t, l := getPath(a.cell.t, c.l, a.cell.path)
		sv := SV{t: t, l: l}
		v.typing(st, sv)
		return sv
	}
	return v.load(st, *a.loc)
}

func (v *V) storeAddr(st *State, a SV, val SV, pos token.Pos) {
	if a.cell != nil {
		if len(a.cell.path) == 0 {
			st.cells[a.cell.key] = val
			return
		}
		c := st.cells[a.cell.key]
		st.cells[a.cell.key] = SV{t: a.cell.t, l: setPath(a.cell.t, c.l, a.cell.path, v.ptrLeaves(val))}
		return
	}
	v.checkFrame(st, *a.loc, pos)
	v.store(st, *a.loc, v.ptrLeaves(val))
}

// ptrLeaves gives the leaves of a value, turning addresses into pointers.
func (v *V) ptrLeaves(x SV) []*Term {
	if x.cell != nil {
		panic(unsupported("address of a local variable used as a value"))
	}
	if x.loc != nil {
		if !x.loc.isPtr() {
			panic(unsupported("address of field " + x.loc.prefix + " used as a value"))
		}
		return []*Term{x.loc.ref, x.loc.idx}
	}
	return x.l
}

func (v *V) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = mkAdd(st.alloc, mkInt(1))
	return r
}

// zeroObject initialises a freshly allocated object of type t.
func (v *V) zeroObject(st *State, lc Loc) {
	switch u := lc.t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			v.zeroObject(st, lc.field(i))
		}
	case *types.Array:
		v.zeroElems(st, u.Elem(), lc.ref, u.Len())
	default:
		v.store(st, lc, zeroVal(lc.t).l)
	}
}

// zeroElems zeroes all elements of an array object (every index).
func (v *V) zeroElems(st *State, et types.Type, ref *Term, n int64) {
	if isArrayT(et) {
		if n < 0 || n > 16 {
			panic(unsupported("allocation of a large nested array"))
		}
		for i := int64(0); i < n; i++ {
			v.zeroObject(st, elemLoc(et, ref, mkInt(i)))
		}
		return
	}
	var rec func(t types.Type, prefix string)
	rec = func(t types.Type, prefix string) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isArrayT(f.Type()) || boxedFields[structKey(t)+"."+f.Name()] {
					if n >= 0 && n <= 4 {
						for j := int64(0); j < n; j++ {
							v.zeroObject(st, Loc{t: t, prefix: prefix, ref: ref, idx: mkInt(j)}.field(i))
						}
						continue
					}
					// contents unknown (sound: nothing assumed)
					continue
				}
				rec(f.Type(), prefix+"."+f.Name())
			}
			return
		}
		for _, l := range leaves(t) {
			v.setRow(st, prefix+l.suf, l.sort, ref, mkConstArr(zeroLeaf(l)))
		}
	}
	rec(et, typeKey(et))
}

// ---- instructions

func (v *V) set(fr *Frame, st *State, x ssa.Value, s SV) {
	if s.t == nil || s.cell == nil && s.loc == nil {
		s.t = x.Type()
	}
	st.regs[regKey{fr.id, x}] = s
}

func (v *V) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Phi:
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		if strings.Contains(et.String(), "deferStack") {
			v.set(fr, st, in, SV{t: in.Type(), cell: &CellAddr{key: cellKey{fr.id, in}, t: et}})
			return
		}
		if !escapesCell(in) {
			k := cellKey{fr.id, in}
			st.cells[k] = zeroVal(et)
			v.set(fr, st, in, SV{t: in.Type(), cell: &CellAddr{key: k, t: et}})
			return
		}
		r := v.newRef(st)
		lc := derefLoc(et, r, mkInt(0))
		v.zeroObject(st, lc)
		v.set(fr, st, in, SV{t: in.Type(), l: []*Term{r, mkInt(0)}})
		if in.Comment != "" {
			st.cells[cellKey{fr.id, in}] = SV{t: in.Type(), l: []*Term{r, mkInt(0)}}
		}
	case *ssa.Store:
		if strings.Contains(in.Val.Type().String(), "deferStack") {
			return
		}
		val := v.value(fr, st, in.Val)
		a := v.addr(fr, st, in.Addr, in.Pos())
		if val.cell != nil || val.loc != nil && !(a.cell != nil && len(a.cell.path) == 0) {
			val = SV{t: val.t, l: v.ptrLeaves(val)}
		}
		if a.cell != nil && len(a.cell.path) == 0 {
			val.t = a.cell.t
		}
		v.storeAddr(st, a, val, in.Pos())
	case *ssa.UnOp:
		v.unop(fr, st, in)
	case *ssa.BinOp:
		x, y := v.value(fr, st, in.X), v.value(fr, st, in.Y)
		v.set(fr, st, in, v.binop(st, in.Op, x, y, in.X.Type(), in.Type(), in.Y.Type(), in.Pos()))
	case *ssa.FieldAddr:
		a := v.addr(fr, st, in.X, in.Pos())
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		if a.cell != nil {
			c := *a.cell
			c.path = append(append([]pathElem{}, c.path...), pathElem{field: in.Field})
			v.set(fr, st, in, SV{t: in.Type(), cell: &c})
			return
		}
		_ = pt
		lc := a.loc.field(in.Field)
		v.set(fr, st, in, SV{t: in.Type(), loc: &lc})
	case *ssa.IndexAddr:
		i := v.value(fr, st, in.Index).l[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := v.value(fr, st, in.X)
			v.boundsCheck(st, i, s.l[2], in.Pos())
			lc := elemLoc(u.Elem(), s.l[0], mkAdd(s.l[1], i))
			v.set(fr, st, in, SV{t: in.Type(), loc: &lc})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a := v.addr(fr, st, in.X, in.Pos())
			v.boundsCheck(st, i, mkInt(at.Len()), in.Pos())
			if a.cell != nil {
				c := *a.cell
				c.path = append(append([]pathElem{}, c.path...), pathElem{index: i})
				v.set(fr, st, in, SV{t: in.Type(), cell: &c})
				return
			}
			lc := a.loc.elem(i)
			v.set(fr, st, in, SV{t: in.Type(), loc: &lc})
		default:
			panic(unsupported("IndexAddr"))
		}
	case *ssa.Index:
		x := v.value(fr, st, in.X)
		i := v.value(fr, st, in.Index).l[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			v.boundsCheck(st, i, mkInt(u.Len()), in.Pos())
			t, l := getPath(in.X.Type(), x.l, []pathElem{{index: i}})
			v.set(fr, st, in, SV{t: t, l: l})
		case *types.Basic: // string
			v.boundsCheck(st, i, x.l[2], in.Pos())
			v.set(fr, st, in, SV{t: in.Type(), l: []*Term{strByte(x, i)}})
		default:
			panic(unsupported("Index"))
		}
	case *ssa.Lookup:
		x := v.value(fr, st, in.X)
		k := v.value(fr, st, in.Index)
		if b := basicOf(in.X.Type()); b != nil {
			i := k.l[0]
			v.boundsCheck(st, i, x.l[2], in.Pos())
			v.set(fr, st, in, SV{t: in.Type(), l: []*Term{strByte(x, i)}})
			return
		}
		v.mapLookup(fr, st, in, x, k)
	case *ssa.MapUpdate:
		m, k, val := v.value(fr, st, in.Map), v.value(fr, st, in.Key), v.value(fr, st, in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		v.nonNil(st, m.l[0], in.Pos())
		v.mapStore(st, mt, m.l[0], k, val, in.Pos())
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := v.newRef(st)
		v.setRow(st, mapKey(mt)+".has", SBool, r, mkConstArr(tFalse))
		for _, l := range leaves(mt.Elem()) {
			v.setRow(st, mapKey(mt)+l.suf, l.sort, r, mkConstArr(zeroLeaf(l)))
		}
		v.set(fr, st, in, SV{l: []*Term{r}})
	case *ssa.MakeSlice:
		n, c := v.value(fr, st, in.Len).l[0], v.value(fr, st, in.Cap).l[0]
		if v.ct != nil && v.ct.opts["bigalloc"] != "" {
			// running out of memory is not modelled
			v.oblige(st, "makeslice", mkAnd(mkLe(mkInt(0), n), mkLe(n, c)), in.Pos())
			st.assume(mkLe(c, mkBig(maxObj)))
			v.assumed["allocation of any size succeeds in "+funcName(v.fn)] = true
		} else {
			v.oblige(st, "makeslice", mkAnd(mkLe(mkInt(0), n), mkLe(n, c), mkLe(c, mkBig(maxObj))), in.Pos())
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		r := v.newRef(st)
		v.zeroElems(st, et, r, -1)
		v.set(fr, st, in, SV{l: []*Term{r, mkInt(0), n, c}})
	case *ssa.Slice:
		v.slice(fr, st, in)
	case *ssa.Field:
		x := v.value(fr, st, in.X)
		t, l := getPath(in.X.Type(), x.l, []pathElem{{field: in.Field}})
		v.set(fr, st, in, SV{t: t, l: l})
	case *ssa.Extract:
		x := v.value(fr, st, in.Tuple)
		v.set(fr, st, in, x.tup[in.Index])
	case *ssa.Convert:
		v.convert(fr, st, in)
	case *ssa.ChangeType:
		x := v.value(fr, st, in.X)
		if x.loc != nil || x.cell != nil {
			panic(unsupported("ChangeType of an address"))
		}
		if pt, ok := in.Type().Underlying().(*types.Pointer); ok {
			if typeKey(pt.Elem()) != typeKey(in.X.Type().Underlying().(*types.Pointer).Elem()) {
				panic(unsupported("pointer type conversion"))
			}
		}
		if s, ok := in.Type().Underlying().(*types.Slice); ok {
			if typeKey(s.Elem()) != typeKey(in.X.Type().Underlying().(*types.Slice).Elem()) {
				panic(unsupported("slice type conversion"))
			}
		}
		if len(leaves(in.Type())) != len(x.l) {
			panic(unsupported("ChangeType"))
		}
		x.t = in.Type()
		v.set(fr, st, in, x)
	case *ssa.ChangeInterface:
		x := v.value(fr, st, in.X)
		x.t = in.Type()
		v.set(fr, st, in, x)
	case *ssa.MakeInterface:
		v.makeInterface(fr, st, in)
	case *ssa.TypeAssert:
		v.typeAssert(fr, st, in)
	case *ssa.MakeClosure:
		var b []SV
		for _, x := range in.Bindings {
			b = append(b, v.value(fr, st, x))
		}
		r := v.newRef(st)
		v.set(fr, st, in, SV{fn: in.Fn.(*ssa.Function), bind: b, l: []*Term{r}})
	case *ssa.Range:
		x := v.value(fr, st, in.X)
		if b := basicOf(in.X.Type()); b == nil {
			// an iterator: a new object that knows the keys visited so far
			r := v.newRef(st)
			key := "mapiter.visited"
			v.setRow(st, key, SBool, r, mkConstArr(tFalse))
			st.regs[regKey{fr.id, in}] = SV{t: in.X.Type(), l: []*Term{x.l[0], r}}
			return
		}
		// an iterator over a string: a new object that knows the position
		r := v.newRef(st)
		v.setRow(st, "striter.pos", SInt, r, mkConstArr(mkInt(0)))
		st.regs[regKey{fr.id, in}] = SV{t: in.X.Type(), l: append(append([]*Term(nil), x.l...), r)}
	case *ssa.Next:
		s := v.value(fr, st, in.Iter)
		if !in.IsString {
			v.nextKey(fr, st, in, s)
			return
		}
		tp := in.Type().(*types.Tuple)
		ok := freshVal("next.ok", tp.At(0).Type())
		row := v.rowOf(st, "striter.pos", SInt, s.l[3])
		i := SV{t: types.Typ[types.Int], l: []*Term{mkSelect(row, mkInt(0))}}
		r, w := runeAt(s, i.l[0]), runeWidth(s, i.l[0])
		st.assume(mkEq(ok.l[0], mkLt(i.l[0], s.l[2])))
		st.assume(mkImp(ok.l[0], mkAnd(mkLe(mkInt(1), w), mkLe(w, mkInt(4)), mkLe(mkAdd(i.l[0], w), s.l[2]), mkLe(mkInt(0), r), mkLe(r, mkInt(0x10ffff)))))
		v.setRow(st, "striter.pos", SInt, s.l[3], mkStore(row, mkInt(0), mkIte(ok.l[0], mkAdd(i.l[0], w), i.l[0])))
		v.noteWrite(st, "striter.pos", s.l[3], nil)
		v.set(fr, st, in, SV{t: in.Type(), tup: []SV{ok, i, {t: types.Typ[types.Rune], l: []*Term{r}}}})
	case *ssa.Call:
		v.call(fr, st, in)
	case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send:
		panic(unsupported(fmt.Sprintf("%T", in)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

// runeAt and runeWidth are the character at a byte position of a string, and how many bytes it takes.
func runeAt(s SV, i *Term) *Term {
	t := mkApp("str.rune", SInt, s.l[0], s.l[1], i)
	declareRange(t, big.NewInt(-1<<31), big.NewInt(1<<31-1))
	return t
}

func runeWidth(s SV, i *Term) *Term { return mkApp("str.runelen", SInt, s.l[0], s.l[1], i) }

// escapesCell reports whether the address of a local is used as a value.
func escapesCell(a *ssa.Alloc) bool {
	if a.Heap {
		// go/ssa marks address-taken variables; check whether every use is direct
	}
	return addrEscapes(a)
}

var escCache = map[*ssa.Alloc]bool{}

func addrEscapes(a *ssa.Alloc) bool {
	if r, ok := escCache[a]; ok {
		return r
	}
	var esc func(x ssa.Value) bool
	esc = func(x ssa.Value) bool {
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == x {
					return true
				}
			case *ssa.FieldAddr:
				if esc(r) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(r) {
					return true
				}
			case *ssa.Defer, *ssa.RunDefers:
			default:
				return true
			}
		}
		return false
	}
	r := esc(a)
	escCache[a] = r
	return r
}

func (v *V) boundsCheck(st *State, i, n *Term, pos token.Pos) {
	v.oblige(st, "index-in-bounds", mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), pos)
}

func strByte(s SV, i *Term) *Term {
	t := mkSelect(s.l[0], mkAdd(s.l[1], i))
	if t.op == OSelect {
		declareRange(t, big.NewInt(0), big.NewInt(255))
	}
	return t
}

func (v *V) unop(fr *Frame, st *State, in *ssa.UnOp) {
	switch in.Op {
	case token.MUL: // load
		if strings.Contains(in.Type().String(), "deferStack") {
			return
		}
		a := v.addr(fr, st, in.X, in.Pos())
		s := v.loadAddr(st, a)
		s.t = in.Type()
		v.set(fr, st, in, s)
	case token.NOT:
		x := v.value(fr, st, in.X)
		v.set(fr, st, in, SV{l: []*Term{mkNot(x.l[0])}})
	case token.SUB:
		x := v.value(fr, st, in.X)
		b := basicOf(in.Type())
		if b.Info()&types.IsInteger == 0 {
			v.set(fr, st, in, SV{l: []*Term{mkApp("fneg", SFlt, x.l[0])}})
			return
		}
		v.set(fr, st, in, SV{l: []*Term{mkWrap(mkNeg(x.l[0]), b)}})
	case token.XOR:
		x := v.value(fr, st, in.X)
		b := basicOf(in.Type())
		_, hi, _, signed := intRange(b)
		if signed {
			v.set(fr, st, in, SV{l: []*Term{mkSub(mkInt(-1), x.l[0])}})
		} else {
			v.set(fr, st, in, SV{l: []*Term{mkSub(mkBig(hi), x.l[0])}})
		}
	default:
		panic(unsupported("unary " + in.Op.String()))
	}
}

func (v *V) binop(st *State, op token.Token, x, y SV, xt, rt, yt types.Type, pos token.Pos) SV {
	switch op {
	case token.EQL, token.NEQ:
		e := v.equal(x, y, xt)
		if op == token.NEQ {
			e = mkNot(e)
		}
		return SV{t: rt, l: []*Term{e}}
	}
	b := basicOf(xt)
	if b == nil {
		panic(unsupported("binop on " + xt.String()))
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		switch op {
		case token.LSS:
			return SV{t: rt, l: []*Term{mkLt(x.l[0], y.l[0])}}
		case token.LEQ:
			return SV{t: rt, l: []*Term{mkLe(x.l[0], y.l[0])}}
		case token.GTR:
			return SV{t: rt, l: []*Term{mkGt(x.l[0], y.l[0])}}
		case token.GEQ:
			return SV{t: rt, l: []*Term{mkGe(x.l[0], y.l[0])}}
		case token.QUO, token.REM:
			v.oblige(st, "nonzero-divisor", mkNot(mkEq(y.l[0], mkInt(0))), pos)
		case token.SHL, token.SHR:
			if lo, _ := bounds(y.l[0]); lo == nil || lo.Sign() < 0 {
				v.oblige(st, "nonnegative-shift", mkGe(y.l[0], mkInt(0)), pos)
			}
		}
		return SV{t: rt, l: []*Term{intBinop(op, x.l[0], y.l[0], b)}}
	case b.Info()&types.IsFloat != 0:
		switch op {
		case token.LSS:
			return SV{t: rt, l: []*Term{mkApp("flt", SBool, x.l[0], y.l[0])}}
		case token.LEQ:
			return SV{t: rt, l: []*Term{mkApp("fle", SBool, x.l[0], y.l[0])}}
		case token.GTR:
			return SV{t: rt, l: []*Term{mkApp("flt", SBool, y.l[0], x.l[0])}}
		case token.GEQ:
			return SV{t: rt, l: []*Term{mkApp("fle", SBool, y.l[0], x.l[0])}}
		case token.ADD:
			return SV{t: rt, l: []*Term{mkApp("fadd", SFlt, x.l[0], y.l[0])}}
		case token.SUB:
			return SV{t: rt, l: []*Term{mkApp("fsub", SFlt, x.l[0], y.l[0])}}
		case token.MUL:
			return SV{t: rt, l: []*Term{mkApp("fmul", SFlt, x.l[0], y.l[0])}}
		case token.QUO:
			return SV{t: rt, l: []*Term{mkApp("fdivide", SFlt, x.l[0], y.l[0])}}
		}
	case b.Info()&types.IsString != 0:
		if op == token.ADD {
			s := freshVal("strcat", rt)
			st.assume(mkEq(s.l[2], mkAdd(x.l[2], y.l[2])))
			return s
		}
	case b.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND:
			return SV{t: rt, l: []*Term{mkAnd(x.l[0], y.l[0])}}
		case token.OR:
			return SV{t: rt, l: []*Term{mkOr(x.l[0], y.l[0])}}
		}
	}
	panic(unsupported("binop " + op.String() + " on " + xt.String()))
}

func (v *V) equal(x, y SV, t types.Type) *Term {
	if b := basicOf(t); b != nil {
		if b.Info()&types.IsString != 0 {
			return strEq(x, y)
		}
		if b.Info()&types.IsFloat != 0 {
			return mkApp("feq", SBool, x.l[0], y.l[0])
		}
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature, *types.Pointer, *types.Chan:
		a, b := v.ptrLeaves(x), v.ptrLeaves(y)
		if len(a) != len(b) { // comparison with untyped nil
			return mkEq(a[0], b[0])
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			return mkEq(a[0], b[0])
		}
		var cs []*Term
		for i := range a {
			cs = append(cs, mkEq(a[i], b[i]))
		}
		return mkAnd(cs...)
	case *types.Interface:
		if len(x.l) != 3 || len(y.l) != 3 {
			return mkEq(x.l[0], y.l[0])
		}
		if y.l[0].isInt(0) || x.l[0].isInt(0) {
			return mkEq(x.l[0], y.l[0])
		}
		// pointers compare by identity; other dynamic values abstractly
		return mkAnd(mkEq(x.l[0], y.l[0]), mkOr(mkAnd(mkEq(x.l[1], y.l[1]), mkEq(x.l[2], y.l[2])), mkApp("ifaceEq", SBool, x.l[0], x.l[1], x.l[2], y.l[1], y.l[2])))
	}
	var cs []*Term
	ls := leaves(t)
	for i := range x.l {
		if ls[i].kind == kStrArr || ls[i].kind == kArr {
			panic(unsupported("comparison of " + t.String()))
		}
		cs = append(cs, mkEq(x.l[i], y.l[i]))
	}
	return mkAnd(cs...)
}

func strEq(x, y SV) *Term {
	if x.l[2].op == OConst {
		x, y = y, x
	}
	if y.l[2].op == OConst && y.l[2].val.Cmp(big.NewInt(64)) <= 0 {
		cs := []*Term{mkEq(x.l[2], y.l[2])}
		n := int(y.l[2].val.Int64())
		for i := 0; i < n; i++ {
			ix := mkInt(int64(i))
			cs = append(cs, mkEq(strByte(x, ix), strByte(y, ix)))
		}
		return mkAnd(cs...)
	}
	if x.l[0] == y.l[0] && x.l[1] == y.l[1] && x.l[2] == y.l[2] {
		return tTrue
	}
	return mkApp("streq", SBool, x.l[0], x.l[1], x.l[2], y.l[0], y.l[1], y.l[2])
}

func (v *V) slice(fr *Frame, st *State, in *ssa.Slice) {
	get := func(x ssa.Value, def *Term) *Term {
		if x == nil {
			return def
		}
		return v.value(fr, st, x).l[0]
	}
	var ref, off, ln, cp *Term
	isStr := false
	var s SV
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s = v.value(fr, st, in.X)
		ref, off, ln, cp = s.l[0], s.l[1], s.l[2], s.l[3]
	case *types.Pointer:
		a := v.addr(fr, st, in.X, in.Pos())
		if a.cell != nil {
			panic(unsupported("slice of a local array"))
		}
		n := mkInt(u.Elem().Underlying().(*types.Array).Len())
		ref, off, ln, cp = a.loc.ref, mkInt(0), n, n
	case *types.Basic:
		s = v.value(fr, st, in.X)
		isStr = true
		off, ln, cp = s.l[1], s.l[2], s.l[2]
	default:
		panic(unsupported("slice of " + in.X.Type().String()))
	}
	lo := get(in.Low, mkInt(0))
	hi := get(in.High, ln)
	mx := get(in.Max, cp)
	if in.Max != nil {
		v.oblige(st, "slice-in-bounds", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, cp)), in.Pos())
	} else {
		v.oblige(st, "slice-in-bounds", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, cp)), in.Pos())
	}
	if isStr {
		v.set(fr, st, in, SV{l: []*Term{s.l[0], mkAdd(off, lo), mkSub(hi, lo)}})
		return
	}
	v.set(fr, st, in, SV{l: []*Term{ref, mkAdd(off, lo), mkSub(hi, lo), mkSub(mx, lo)}})
}

func (v *V) convert(fr *Frame, st *State, in *ssa.Convert) {
	x := v.value(fr, st, in.X)
	ft, tt := in.X.Type().Underlying(), in.Type().Underlying()
	fb, _ := ft.(*types.Basic)
	tb, _ := tt.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		v.set(fr, st, in, SV{l: []*Term{mkWrap(x.l[0], tb)}})
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		v.set(fr, st, in, SV{l: []*Term{mkApp("i2f", SFlt, x.l[0])}})
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		lo, hi, bits, signed := intRange(tb)
		t := mkApp(fmt.Sprintf("f2i%d%v", bits, signed), SInt, x.l[0])
		declareRange(t, lo, hi)
		v.set(fr, st, in, SV{l: []*Term{t}})
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() {
			v.set(fr, st, in, x)
		} else {
			v.set(fr, st, in, SV{l: []*Term{mkApp("fconv"+tb.Name(), SFlt, x.l[0])}})
		}
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		v.set(fr, st, in, x)
	case tb != nil && tb.Info()&types.IsString != 0:
		if s, ok := ft.(*types.Slice); ok && basicOf(s.Elem()) != nil && basicOf(s.Elem()).Kind() == types.Uint8 {
			row := v.rowOf(st, typeKey(s.Elem()), SInt, x.l[0])
			v.set(fr, st, in, SV{l: []*Term{row, x.l[1], x.l[2]}})
			return
		}
		panic(unsupported("conversion to string"))
	case fb != nil && fb.Info()&types.IsString != 0:
		if s, ok := tt.(*types.Slice); ok && basicOf(s.Elem()) != nil && basicOf(s.Elem()).Kind() == types.Uint8 {
			r := v.newRef(st)
			v.setRow(st, typeKey(s.Elem()), SInt, r, x.l[0])
			v.set(fr, st, in, SV{l: []*Term{r, x.l[1], x.l[2], x.l[2]}})
			return
		}
		panic(unsupported("conversion from string"))
	default:
		panic(unsupported("conversion " + in.X.Type().String() + " -> " + in.Type().String()))
	}
}

var typeTags = map[string]int64{}

func typeTag(t types.Type) *Term {
	k := typeKey(t)
	n, ok := typeTags[k]
	if !ok {
		n = int64(len(typeTags) + 1)
		typeTags[k] = n
	}
	return mkInt(n)
}

func (v *V) makeInterface(fr *Frame, st *State, in *ssa.MakeInterface) {
	x := v.value(fr, st, in.X)
	tag := typeTag(in.X.Type())
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		l := v.ptrLeaves(x)
		v.set(fr, st, in, SV{l: []*Term{tag, l[0], l[1]}})
		return
	}
	// boxed dynamic value in a fresh object
	r := v.newRef(st)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupportedErr); !ok {
					panic(e)
				}
			}
		}()
		lc := derefLoc(in.X.Type(), r, mkInt(0))
		v.store(st, lc, v.ptrLeaves(x))
	}()
	v.set(fr, st, in, SV{l: []*Term{tag, r, mkInt(0)}})
}

func (v *V) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) {
	x := v.value(fr, st, in.X)
	if _, isIface := in.AssertedType.Underlying().(*types.Interface); isIface {
		ok := mkApp("implements_"+sanitize(typeKey(in.AssertedType)), SBool, x.l[0])
		st.assume(mkImp(ok, mkNot(mkEq(x.l[0], mkInt(0)))))
		if in.CommaOk {
			z := []*Term{mkIte(ok, x.l[0], mkInt(0)), mkIte(ok, x.l[1], mkInt(0)), mkIte(ok, x.l[2], mkInt(0))}
			v.set(fr, st, in, SV{t: in.Type(), tup: []SV{{t: in.AssertedType, l: z}, {t: types.Typ[types.Bool], l: []*Term{ok}}}})
			return
		}
		v.oblige(st, "type-assert", ok, in.Pos())
		v.set(fr, st, in, SV{l: x.l})
		return
	}
	ok := mkEq(x.l[0], typeTag(in.AssertedType))
	var val SV
	if _, isPtr := in.AssertedType.Underlying().(*types.Pointer); isPtr {
		val = SV{t: in.AssertedType, l: []*Term{x.l[1], x.l[2]}}
		st.assume(mkImp(ok, mkLt(mkRoot(x.l[1]), st.alloc)))
	} else {
		val = v.load(st, derefLoc(in.AssertedType, x.l[1], x.l[2]))
	}
	if in.CommaOk {
		z := zeroVal(in.AssertedType)
		l := make([]*Term, len(val.l))
		for i := range l {
			l[i] = mkIte(ok, val.l[i], z.l[i])
		}
		v.set(fr, st, in, SV{t: in.Type(), tup: []SV{{t: in.AssertedType, l: l}, {t: types.Typ[types.Bool], l: []*Term{ok}}}})
		return
	}
	v.oblige(st, "type-assert", ok, in.Pos())
	v.set(fr, st, in, val)
}

// ---- maps (integer-like keys)

func mapKey(mt *types.Map) string { return "map[" + typeKey(mt.Key()) + "]" + typeKey(mt.Elem()) }

func (v *V) mapKeyTerm(mt *types.Map, k SV) *Term {
	if len(k.l) != 1 || k.l[0].sort != SInt {
		panic(unsupported("map with key type " + mt.Key().String()))
	}
	return k.l[0]
}

func (v *V) mapLookup(fr *Frame, st *State, in *ssa.Lookup, m, k SV) {
	mt := in.X.Type().Underlying().(*types.Map)
	kt := v.mapKeyTerm(mt, k)
	ref := m.l[0]
	has := mkAnd(mkNot(mkEq(ref, mkInt(0))), mkSelect(v.rowOf(st, mapKey(mt)+".has", SBool, ref), kt))
	ls := leaves(mt.Elem())
	l := make([]*Term, len(ls))
	raw := make([]*Term, len(ls))
	for i, lf := range ls {
		raw[i] = typedLeaf(mkSelect(v.rowOf(st, mapKey(mt)+lf.suf, lf.sort, ref), kt), lf)
	}
	v.typing(st, SV{t: mt.Elem(), l: raw})
	for i, lf := range ls {
		l[i] = mkIte(has, raw[i], zeroLeaf(lf))
	}
	val := SV{t: mt.Elem(), l: l}
	if in.CommaOk {
		v.set(fr, st, in, SV{t: in.Type(), tup: []SV{val, {t: types.Typ[types.Bool], l: []*Term{has}}}})
		return
	}
	v.set(fr, st, in, val)
}

func (v *V) mapStore(st *State, mt *types.Map, ref *Term, k, val SV, pos token.Pos) {
	kt := v.mapKeyTerm(mt, k)
	mk1 := func(key string, leaf Sort, x *Term) {
		v.checkFrameKey(st, key, ref, kt, pos)
		v.noteWrite(st, key, ref, kt)
		h := v.heapOf(st, key, leaf)
		st.heap[key] = mkStore(h, ref, mkStore(mkSelect(h, ref), kt, x))
	}
	mk1(mapKey(mt)+".has", SBool, tTrue)
	for i, lf := range leaves(mt.Elem()) {
		mk1(mapKey(mt)+lf.suf, lf.sort, val.l[i])
	}
}

// nextKey produces any key of the map not visited yet. The iteration ends when there is none left; that is
// known only because nothing in the loop can add keys while iterating.
func (v *V) nextKey(fr *Frame, st *State, in *ssa.Next, it SV) {
	mt := it.t.Underlying().(*types.Map)
	tp := in.Type().(*types.Tuple)
	ok := freshVal("next.ok", tp.At(0).Type())
	k := freshVal("next.key", mt.Key())
	v.typing(st, k)
	kt := v.mapKeyTerm(mt, k)
	has := v.rowOf(st, mapKey(mt)+".has", SBool, it.l[0])
	vis := v.rowOf(st, "mapiter.visited", SBool, it.l[1])
	st.assume(mkImp(ok.l[0], mkAnd(mkNot(mkEq(it.l[0], mkInt(0))), mkSelect(has, kt), mkNot(mkSelect(vis, kt)))))
	for _, l := range fr.loops {
		if l.header != in.Block() {
			continue
		}
		for b := range l.blocks {
			for _, x := range b.Instrs {
				switch x := x.(type) {
				case *ssa.MapUpdate:
					panic(unsupported("map iteration with insertions"))
				case *ssa.Call:
					if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
						panic(unsupported("map iteration with calls"))
					}
				}
			}
		}
	}
	{
		freshCnt["mapq"]++
		q := mkBVar(fmt.Sprintf("mk?%d", freshCnt["mapq"]), SInt)
		st.assume(mkImp(mkAnd(mkNot(ok.l[0]), mkNot(mkEq(it.l[0], mkInt(0)))), mkQuant(OForall, []*Term{q}, mkImp(mkSelect(has, q), mkSelect(vis, q)), [][]*Term{{mkSelect(has, q)}, {mkSelect(vis, q)}})))
	}
	h := v.heapOf(st, "mapiter.visited", SBool)
	st.heap["mapiter.visited"] = mkStore(h, it.l[1], mkIte(ok.l[0], mkStore(vis, kt, tTrue), vis))
	v.noteWrite(st, "mapiter.visited", it.l[1], nil)
	ls := leaves(mt.Elem())
	l := make([]*Term, len(ls))
	for i, lf := range ls {
		l[i] = typedLeaf(mkSelect(v.rowOf(st, mapKey(mt)+lf.suf, lf.sort, it.l[0]), kt), lf)
	}
	val := SV{t: mt.Elem(), l: l}
	v.typing(st, val)
	v.set(fr, st, in, SV{t: in.Type(), tup: []SV{ok, k, val}})
}

// ---- constant globals

var constGlobals map[*ssa.Global][]*Term

// constGlobalLeaves evaluates a package-level variable that is only written by
// its package initialiser, with constants.
func constGlobalLeaves(pr *Program, g *ssa.Global) []*Term {
	if constGlobals == nil {
		constGlobals = map[*ssa.Global][]*Term{}
		bad := map[*ssa.Global]bool{}
		var rootGlobal func(x ssa.Value) *ssa.Global
		rootGlobal = func(x ssa.Value) *ssa.Global {
			switch x := x.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				return rootGlobal(x.X)
			case *ssa.IndexAddr:
				return rootGlobal(x.X)
			}
			return nil
		}
		for _, f := range pr.allFuncs() {
			isInit := f.Synthetic == "package initializer"
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// uses of the derived address are examined at their own instruction
						continue
					case *ssa.Store:
						if gg := rootGlobal(in.Addr); gg != nil && !isInit {
							bad[gg] = true
						}
						if gg := rootGlobal(in.Val); gg != nil {
							bad[gg] = true
						}
						continue
					default:
						for _, op := range in.Operands(nil) {
							if *op == nil {
								continue
							}
							if gg := rootGlobal(*op); gg != nil {
								bad[gg] = true
							}
						}
					}
				}
			}
		}
		for _, f := range pr.allFuncs() {
			if f.Synthetic != "package initializer" || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), repoPrefix) {
				continue
			}
			vals := map[*ssa.Global][]*Term{}
			for _, m := range f.Pkg.Members {
				if gg, ok := m.(*ssa.Global); ok && !bad[gg] {
					vals[gg] = zeroVal(gg.Type().(*types.Pointer).Elem()).l
				}
			}
			temps := map[*ssa.Alloc][]*Term{}
			konst := func(x ssa.Value) ([]*Term, bool) {
				c, ok := x.(*ssa.Const)
				if !ok {
					if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
						if a, ok := u.X.(*ssa.Alloc); ok && temps[a] != nil {
							return temps[a], true
						}
					}
					return nil, false
				}
				var r []*Term
				func() {
					defer func() { recover() }()
					r = (&V{}).constVal(nil, c.Value, c.Type()).l
				}()
				return r, r != nil
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok {
						temps[a] = zeroVal(a.Type().(*types.Pointer).Elem()).l
					}
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					var path []pathElem
					x := s.Addr
					good := true
					for good {
						if fa, ok := x.(*ssa.FieldAddr); ok {
							path = append([]pathElem{{field: fa.Field}}, path...)
							x = fa.X
						} else if ia, ok := x.(*ssa.IndexAddr); ok {
							c, ok := ia.Index.(*ssa.Const)
							if !ok {
								good = false
								break
							}
							path = append([]pathElem{{index: mkInt(c.Int64())}}, path...)
							x = ia.X
						} else {
							break
						}
					}
					val, isC := konst(s.Val)
					if gg, ok := x.(*ssa.Global); ok && vals[gg] != nil {
						if !good || !isC {
							delete(vals, gg)
							bad[gg] = true
						} else {
							vals[gg] = setPath(gg.Type().(*types.Pointer).Elem(), vals[gg], path, val)
						}
					} else if a, ok := x.(*ssa.Alloc); ok && temps[a] != nil {
						if !good || !isC {
							delete(temps, a)
						} else {
							temps[a] = setPath(a.Type().(*types.Pointer).Elem(), temps[a], path, val)
						}
					}
				}
			}
			for gg, l := range vals {
				if !bad[gg] {
					constGlobals[gg] = l
				}
			}
		}
	}
	return constGlobals[g]
}

func sortedLoops(fr *Frame) []*Loop {
	var ls []*Loop
	for _, l := range fr.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return fr.order[ls[i].header] < fr.order[ls[j].header] })
	return ls
}
