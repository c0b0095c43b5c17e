package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *V) fuel() int {
	if v.ct != nil {
		if s, ok := v.ct.opts["fuel"]; ok {
			n := 0
			fmt.Sscanf(s, "%d", &n)
			return n
		}
	}
	return 2
}

// ctx builds an evaluation context in the verified function.
func (v *V) ctx(st *State, fr *Frame) *Ctx {
	c := &Ctx{v: v, st: st, old: v.entry, env: map[string]EV{}, fr: fr, fuel: v.fuel(), argsCur: true}
	if v.fn != nil && v.fn.Pkg != nil {
		c.pkg = v.fn.Pkg.Pkg
	}
	if v.ct != nil {
		for i, p := range v.ct.params {
			if i < len(v.params) {
				c.env[p] = EV{t: v.params[i].t, l: v.params[i].l}
			}
		}
	}
	return c
}

func (v *V) evalBool(c *Ctx, cl Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				panic(evalErr{e.msg + "  [in: " + cl.text + "]"})
			}
			panic(r)
		}
	}()
	return c.Bool(cl.e)
}

// offPath reports whether the path plainly contradicts the premise of an implication.
func (v *V) offPath(st *State, c *Ctx, cl Clause) (off bool) {
	if cl.e.k != "bin" || cl.e.s != "==>" {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			off = false
		}
	}()
	return refutes(st.pc, c.Bool(cl.e.xs[0]))
}

// refutes reports whether it is plain from the equations in p that g is false.
func refutes(p, g *Term) bool {
	switch g.op {
	case OFalse:
		return true
	case OAnd:
		for _, x := range g.args {
			if refutes(p, x) {
				return true
			}
		}
		return false
	case OOr:
		for _, x := range g.args {
			if !refutes(p, x) {
				return false
			}
		}
		return len(g.args) > 0
	case OEq:
		return refutes1(p, g)
	}
	return false
}

func refutes1(p, g *Term) bool {
	switch p.op {
	case OAnd:
		for _, x := range p.args {
			if refutes1(x, g) {
				return true
			}
		}
	case OOr:
		for _, x := range p.args {
			if !refutes1(x, g) {
				return false
			}
		}
		return len(p.args) > 0
	case ONot:
		return p.args[0] == g
	case OEq:
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				a, b := p.args[1-i], g.args[1-j]
				if p.args[i] == g.args[j] && a.op == OConst && b.op == OConst && a != b {
					return true
				}
			}
		}
	}
	return false
}

// obligeClause makes an obligation from a contract clause; a clause that cannot
// be evaluated any more (a renamed local, a removed field) is a failed obligation.
func (v *V) obligeClause(st *State, c *Ctx, kind string, cl Clause, pos token.Pos) {
	if v.dry > 0 {
		return
	}
	var g *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case evalErr:
					v.unsup = append(v.unsup, e.msg)
					g = nil
					kind += " (contract no longer applies: " + e.msg + ")"
				case unsupportedErr:
					v.unsup = append(v.unsup, e.msg)
					g = nil
					kind += " (" + e.msg + ")"
				default:
					panic(r)
				}
			}
		}()
		g = c.Bool(cl.e)
	}()
	if g == nil {
		v.oblige(st, kind, tFalse, pos, cl.tags...)
		v.obs[len(v.obs)-1].detail = cl.text
		return
	}
	cs := conjuncts(g)
	if len(cs) <= 1 || len(cs) > 40 {
		v.oblige(st, kind, g, pos, cl.tags...)
		v.obs[len(v.obs)-1].detail = cl.text
		return
	}
	for i, c := range cs {
		k := kind
		if i > 0 {
			k = fmt.Sprintf("%s part %d", kind, i+1)
		}
		v.oblige(st, k, c, pos, cl.tags...)
		v.obs[len(v.obs)-1].detail = cl.text
	}
}

// assumeClause assumes a clause; one that cannot be evaluated is skipped
// (its obligation fails elsewhere).
func (v *V) assumeClause(st *State, c *Ctx, cl Clause) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case evalErr, unsupportedErr:
				return
			}
			panic(r)
		}
	}()
	st.assume(c.Bool(cl.e))
}

// assumeQuant assumes a clause that has just been obliged (c is the context of
// an assumption), if it has a quantifier: the obligation had only an arbitrary instance of it.
func (v *V) assumeQuant(st *State, c *Ctx, e *Expr) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case evalErr, unsupportedErr:
				return
			}
			panic(r)
		}
	}()
	if g := c.Bool(e); hasQuant(g, map[int]bool{}) {
		st.assume(g)
	}
}

func (v *V) useLemma(c *Ctx, e *Expr) {
	if e.k == "call" && v.cs.lemmas[e.xs[0].s] == nil && (v.cs.macros[e.xs[0].s] != nil || e.xs[0].s == "unfold") {
		// use P(..): P's definition, for the arguments' values here
		c.with(func(n *Ctx) { n.ofuel = 1 }).eval(e)
		return
	}
	c.st.assume(v.lemmaInst(c, e))
}

// lemmaInst is the instance (hypotheses imply conclusions) of a lemma.
func (v *V) lemmaInst(c *Ctx, e *Expr) *Term {
	if e.k != "call" {
		panic(evalErr{"use wants a lemma application"})
	}
	lm := v.cs.lemmas[e.xs[0].s]
	if lm == nil {
		panic(evalErr{"unknown lemma " + e.xs[0].s})
	}
	v.usedLemmas[lm.name] = true
	if len(e.xs)-1 != len(lm.params) {
		panic(evalErr{"lemma " + lm.name + ": wrong number of arguments"})
	}
	n := &Ctx{v: v, st: c.st, old: c.old, env: map[string]EV{}, fuel: 2, noLocals: true, pkg: c.pkg}
	for i, p := range lm.params {
		x := c.force(c.eval(e.xs[i+1]))
		n.env["\x00"+p.name] = x
	}
	var req, ens []*Term
	if v.curLemma != nil {
		if lm == v.curLemma {
			if v.inductVal == nil {
				panic(evalErr{"lemma " + lm.name + " uses itself without induct"})
			}
			m := n.Int(lm.induct)
			req = append(req, mkLe(mkInt(0), m), mkLt(m, v.inductVal))
		} else if lm.order >= v.curLemma.order {
			panic(evalErr{"lemma " + v.curLemma.name + " uses the later lemma " + lm.name})
		}
	}
	for _, r := range lm.requires {
		req = append(req, n.Bool(r.e))
	}
	for _, r := range lm.ensures {
		ens = append(ens, n.Bool(r.e))
	}
	return mkImp(mkAnd(req...), mkAnd(ens...))
}

func (v *V) tryUse(c *Ctx, u UseClause) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case evalErr:
				v.unsup = append(v.unsup, "use: "+e.msg)
				return
			case unsupportedErr:
				return
			}
			panic(r)
		}
	}()
	if u.hint {
		if v.dry == 0 && (Clause{tags: u.tags}).active(v.prop) {
			n := c.with(func(n *Ctx) { n.mode = 1 })
			n.st = c.st
			g := n.Bool(u.e)
			v.oblige(c.st, "hint", g, v.fn.Pos(), u.tags...)
			v.obs[len(v.obs)-1].detail = u.text
			m := c.with(func(n *Ctx) { n.mode = -1 })
			m.st = c.st
			if h := m.Bool(u.e); h != g {
				c.st.assume(h) // for all values, not only the one the obligation is about
			}
		}
		return
	}
	v.useLemma(c, u.e)
}

// ---- loops

func (v *V) loopOrdinal(fr *Frame, l *Loop) int {
	k := fmt.Sprintf("%s#%d", fr.path, l.header.Index)
	if v.loopIdx == nil {
		v.loopIdx = map[string]int{}
	}
	if n, ok := v.loopIdx[k]; ok {
		return n
	}
	n := len(v.loopIdx) + 1
	v.loopIdx[k] = n
	return n
}

// modifiedCells: locals of this frame stored to in the loop.
func modifiedCells(l *Loop) []*ssa.Alloc {
	var root func(x ssa.Value) *ssa.Alloc
	root = func(x ssa.Value) *ssa.Alloc {
		switch x := x.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			return root(x.X)
		case *ssa.IndexAddr:
			return root(x.X)
		}
		return nil
	}
	seen := map[*ssa.Alloc]bool{}
	var out []*ssa.Alloc
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a := root(s.Addr); a != nil && !seen[a] && !addrEscapes(a) {
					seen[a] = true
					out = append(out, a)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

type havocSet struct {
	keys  map[string]map[string]ModEntry // key -> (ref,idx) id -> entry
	all   map[string]bool
	ghost map[string]bool
	alloc bool
}

// nonlinear reports whether a product or quotient of two unknowns occurs in t.
func nonlinear(t *Term, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	memo[t.id] = false
	r := false
	switch t.op {
	case OMul:
		n := 0
		for _, a := range t.args {
			if a.op != OConst {
				n++
			}
		}
		r = n > 1
	case ODiv, OMod:
		r = t.args[1].op != OConst
	case OApp:
		r = t.name == "tdiv" || t.name == "trem"
	}
	for _, a := range t.args {
		r = r || nonlinear(a, memo)
	}
	memo[t.id] = r
	return r
}

// cutLoop forgets, at the head of a loop, how the nonlinear values in the locals were computed, and
// all that is known since the entry of the function of nonlinear values. Forgetting is sound; what the
// loop needs is in its invariants.
func (v *V) cutLoop(st *State, fr *Frame) {
	memo := map[int]bool{}
	entry := map[*Term]bool{}
	for _, f := range collectFacts(v.entry.facts) {
		entry[f] = true
	}
	n := v.entry.facts
	for _, f := range collectFacts(st.facts) {
		if !entry[f] && !nonlinear(f, memo) {
			n = &FactNode{fact: f, parents: []*FactNode{n}}
		}
	}
	st.facts = n
	if nonlinear(st.pc, memo) {
		st.pc = fresh("pc", SBool)
	}
	var keys []cellKey
	for k, x := range st.cells {
		if k.frame != fr.id || x.loc != nil || x.cell != nil {
			continue
		}
		for _, l := range x.l {
			if nonlinear(l, memo) {
				keys = append(keys, k)
				break
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].a.Pos() < keys[j].a.Pos() || keys[i].a.Pos() == keys[j].a.Pos() && keys[i].a.Name() < keys[j].a.Name()
	})
	for _, k := range keys {
		x := freshVal("c_"+k.a.Comment, st.cells[k].t)
		v.typing(st, x)
		st.cells[k] = x
	}
}

func (v *V) havocLoop(st *State, fr *Frame, cells []*ssa.Alloc, hs *havocSet) {
	pre := st.clone()
	if hs.alloc {
		v.havocAlloc(st)
	}
	for _, a := range cells {
		k := cellKey{fr.id, a}
		if old, ok := st.cells[k]; ok {
			if old.loc != nil || old.cell != nil {
				delete(st.cells, k)
				continue
			}
			x := freshVal("l_"+a.Comment, a.Type().(*types.Pointer).Elem())
			v.typing(st, x)
			st.cells[k] = x
		}
	}
	keys := make([]string, 0)
	for k := range hs.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		leaf := elemSort(elemSort(v.keySort[k]))
		if hs.all[k] {
			v.havocAllKey(st, pre, k, leaf)
			continue
		}
		ids := make([]string, 0)
		for id := range hs.keys[k] {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rowDone := map[int]bool{}
		for _, id := range ids {
			if m := hs.keys[k][id]; m.idx == nil {
				m.leaf = leaf
				v.havocEntry(st, m)
				rowDone[m.ref.id] = true
			}
		}
		for _, id := range ids {
			if m := hs.keys[k][id]; m.idx != nil && !rowDone[m.ref.id] {
				m.leaf = leaf
				v.havocEntry(st, m)
			}
		}
	}
	gs := make([]string, 0)
	for g := range hs.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		old := st.ghost[g]
		st.ghost[g] = freshVal("gh_"+g, old.t)
	}
}

// havocAllKey: unknown rows of a key may change, but only those the function
// may modify (or that are fresh).
func (v *V) havocAllKey(st, pre *State, k string, leaf Sort) {
	h := v.heapOf(pre, k, leaf)
	nh := fresh("H_"+k, heapSort(leaf))
	freshCnt["frq"]++
	q := mkBVar(fmt.Sprintf("fr?%d", freshCnt["frq"]), SInt)
	conds := []*Term{mkLt(mkRoot(q), v.alloc0)}
	for _, m := range v.mods {
		if m.key == k {
			conds = append(conds, mkNot(mkEq(q, m.ref)))
		}
	}
	st.heap[k] = nh
	st.assume(mkQuant(OForall, []*Term{q}, mkImp(mkAnd(conds...), mkEq(mkSelect(nh, q), mkSelect(h, q))), [][]*Term{{mkSelect(nh, q)}}))
	// within rows of which only single cells are modifiable, the others are kept
	rows := map[int][]ModEntry{}
	for _, m := range v.mods {
		if m.key == k {
			rows[m.ref.id] = append(rows[m.ref.id], m)
		}
	}
	for _, ms := range rows {
		ok := true
		var ne []*Term
		freshCnt["frq"]++
		q := mkBVar(fmt.Sprintf("fr?%d", freshCnt["frq"]), SInt)
		for _, m := range ms {
			if m.idx == nil {
				ok = false
				break
			}
			ne = append(ne, mkNot(mkEq(q, m.idx)))
		}
		if ok {
			r := ms[0].ref
			st.assume(mkQuant(OForall, []*Term{q}, mkImp(mkAnd(ne...), mkEq(mkSelect(mkSelect(nh, r), q), mkSelect(mkSelect(h, r), q))), nil))
		}
	}
}

func (v *V) runLoop(fr *Frame, l *Loop, st *State, pending map[*ssa.BasicBlock][]edge, within *Loop, exits map[*ssa.BasicBlock][]edge, rets *[]retState) {
	n := v.loopOrdinal(fr, l)
	var spec *LoopSpec
	if v.ct != nil {
		spec = v.ct.loops[n]
	}
	pos := loopPos(l)
	cells := modifiedCells(l)
	hs := &havocSet{keys: map[string]map[string]ModEntry{}, all: map[string]bool{}, ghost: map[string]bool{}}
	ri := rangeIndexCell(l)
	// discover what the body writes
	saved := v.writes
	for round := 0; ; round++ {
		mark := len(termList)
		h := st.clone()
		v.havocLoop(h, fr, cells, hs)
		mark2 := len(termList)
		_ = mark2
		info := &loopInfo{n: n, loop: l, fr: fr, dryRun: true, pre: st, head: h}
		if ri != nil {
			k := cellKey{fr.id, ri}
			info.ri = &k
		}
		old := fr.active[l.header]
		fr.active[l.header] = info
		v.dry++
		v.writes = nil
		nl := len(v.loopRecs)
		v.loopRecs = append(v.loopRecs, info)
		v.allLoops = append(v.allLoops, info)
		var dr []retState
		func() {
			v.runRegion(fr, map[*ssa.BasicBlock][]edge{l.header: {{h, nil}}}, l, map[*ssa.BasicBlock][]edge{}, &dr)
		}()
		v.loopRecs = v.loopRecs[:nl]
		v.dry--
		fr.active[l.header] = old
		ws := v.writes
		v.writes = nil
		ch := false
		for _, w := range ws {
			if w.ghost == "\x00alloc" {
				if !hs.alloc {
					hs.alloc, ch = true, true
				}
				continue
			}
			if w.ghost != "" {
				if !hs.ghost[w.ghost] {
					hs.ghost[w.ghost], ch = true, true
				}
				continue
			}
			if hs.all[w.key] {
				continue
			}
			if hs.keys[w.key] == nil {
				hs.keys[w.key] = map[string]ModEntry{}
				ch = true
			}
			if newerThan(w.ref, mark) {
				if v.freshInLoop(w.ref, h, st) {
					continue // object allocated inside the loop
				}
				hs.all[w.key], ch = true, true
				continue
			}
			m := ModEntry{key: w.key, ref: w.ref, idx: w.idx}
			if w.idx != nil && newerThan(w.idx, mark) {
				m.idx = nil
			}
			id := fmt.Sprint(m.ref.id)
			if m.idx != nil {
				id += fmt.Sprintf(".%d", m.idx.id)
			}
			if _, ok := hs.keys[w.key][id]; !ok {
				hs.keys[w.key][id] = m
				ch = true
			}
		}
		if !ch || round > 12 {
			break
		}
	}
	v.writes = saved
	// the effects are also effects of the enclosing loop body
	for k, ms := range hs.keys {
		if hs.all[k] {
			v.writes = append(v.writes, writeRec{key: k, ref: fresh("anyref", SInt)})
			continue
		}
		for _, m := range ms {
			v.writes = append(v.writes, writeRec{key: k, ref: m.ref, idx: m.idx})
		}
	}
	for g := range hs.ghost {
		v.writes = append(v.writes, writeRec{ghost: g})
	}
	if hs.alloc {
		v.writes = append(v.writes, writeRec{ghost: "\x00alloc"})
	}

	info := &loopInfo{n: n, loop: l, fr: fr, spec: spec, pre: st.clone(), dryRun: v.dry > 0}
	if ri != nil {
		k := cellKey{fr.id, ri}
		info.ri = &k
	}
	nl := len(v.loopRecs)
	v.loopRecs = append(v.loopRecs, info)
	v.allLoops = append(v.allLoops, info)
	mkctx := func(s *State) *Ctx {
		c := v.ctx(s, fr)
		c.loop, c.hdr, c.pre = info, l.header, info.pre
		return c
	}
	// invariants on entry
	if spec != nil && v.dry == 0 {
		for _, u := range spec.uses {
			if u.where == "init" {
				v.tryUse(mkctx(st), u)
			}
		}
		for i, cl := range spec.inv {
			if !cl.active(v.prop) {
				continue
			}
			c := mkctx(st)
			c.mode = 1
			v.obligeClause(st, c, fmt.Sprintf("loop %d invariant %d holds on entry", n, i+1), cl, pos)
		}
	}
	head := st.clone()
	v.havocLoop(head, fr, cells, hs)
	if spec != nil && spec.cut {
		v.cutLoop(head, fr)
	}
	if info.ri != nil {
		// a range index only counts up from -1; its bound is checked by the loop itself
		if x, ok := head.cells[*info.ri]; ok {
			head.assume(mkLe(mkInt(-1), x.l[0]))
			if n := rangeLen(l); n != nil {
				if nv, ok := head.regs[regKey{fr.id, n}]; ok {
					head.assume(mkAnd(mkLt(x.l[0], mkIte(mkLe(nv.l[0], mkInt(0)), mkInt(0), nv.l[0]))))
				} else if cst, ok := n.(*ssa.Const); ok {
					head.assume(mkLt(x.l[0], mkInt(cst.Int64())))
				}
			}
		}
	}
	if spec != nil {
		for _, cl := range spec.inv {
			if !cl.active(v.prop) {
				continue
			}
			c := mkctx(head)
			c.mode = -1
			v.assumeClause(head, c, cl)
		}
		for _, u := range spec.uses {
			if u.where == "head" {
				v.tryUse(mkctx(head), u)
			}
		}
	}
	info.head = head.clone()
	if spec != nil && len(spec.dec) > 0 && v.dry == 0 {
		for _, d := range spec.dec {
			t, ok := v.tryInt(mkctx(head), d)
			if !ok {
				v.oblige(head, fmt.Sprintf("loop %d decreases clause no longer applies", n), tFalse, pos)
				continue
			}
			info.dec = append(info.dec, t)
		}
	} else if v.dry == 0 {
		if t := v.autoMeasure(fr, l, head); t != nil {
			info.dec = []*Term{t}
		}
	}
	old := fr.active[l.header]
	fr.active[l.header] = info
	ex := map[*ssa.BasicBlock][]edge{}
	v.runRegion(fr, map[*ssa.BasicBlock][]edge{l.header: {{head, nil}}}, l, ex, rets)
	fr.active[l.header] = old
	v.loopRecs = v.loopRecs[:nl]
	var tos []*ssa.BasicBlock
	for to := range ex {
		tos = append(tos, to)
	}
	sort.Slice(tos, func(i, j int) bool { return fr.order[tos[i]] < fr.order[tos[j]] })
	for _, to := range tos {
		for _, e := range ex[to] {
			if spec != nil && !info.dryRun && v.dry == 0 {
				for i, cl := range spec.exit {
					if !cl.active(v.prop) {
						continue
					}
					c := v.ctx(e.st.clone(), fr)
					c.loop, c.hdr, c.pre, c.head, c.mode = info, l.header, info.pre, info.head, 1
					if !v.offPath(c.st, c, cl) {
						v.obligeClause(c.st, c, fmt.Sprintf("loop %d exit %d", info.n, i+1), cl, pos)
					}
				}
			}
			if within != nil && !within.blocks[to] {
				exits[to] = append(exits[to], e)
			} else {
				pending[to] = append(pending[to], e)
			}
		}
	}
}

func (v *V) tryInt(c *Ctx, e *Expr) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if x, is := r.(evalErr); is {
				v.unsup = append(v.unsup, x.msg)
				ok = false
				return
			}
			panic(r)
		}
	}()
	return c.Int(e), true
}

// autoMeasure guesses a decreasing measure from the loop condition.
func (v *V) autoMeasure(fr *Frame, l *Loop, st *State) *Term {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	if b := basicOf(cmp.X.Type()); b == nil || b.Info()&types.IsInteger == 0 {
		return nil
	}
	tmp := st.clone()
	var res *Term
	v.dry++
	saved := v.writes
	func() {
		defer func() { recover() }()
		for _, in := range h.Instrs[:len(h.Instrs)-1] {
			v.instr(fr, tmp, in)
		}
		x, y := v.value(fr, tmp, cmp.X).l[0], v.value(fr, tmp, cmp.Y).l[0]
		switch cmp.Op {
		case token.LSS, token.LEQ:
			res = mkSub(y, x)
		case token.GTR, token.GEQ:
			res = mkSub(x, y)
		case token.NEQ:
			res = mkIte(mkLe(x, y), mkSub(y, x), mkSub(x, y))
		}
		if res != nil && (cmp.Op == token.LEQ || cmp.Op == token.GEQ) {
			res = mkAdd(res, mkInt(1))
		}
		if !l.blocks[h.Succs[0]] { // loop continues on false
			res = nil
		}
	}()
	v.writes = saved
	v.dry--
	return res
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range l.header.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// newerThan: t mentions a term created after mark.
func newerThan(t *Term, mark int) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OVar && t.id >= mark {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (v *V) freshInLoop(ref *Term, head, pre *State) bool {
	return refGE(rootOf(ref), head.alloc)
}

func rangeIndexCell(l *Loop) *ssa.Alloc {
	for _, in := range l.header.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				return a
			}
		}
	}
	return nil
}

// rangeLen is the length value a range loop compares its index with.
func rangeLen(l *Loop) ssa.Value {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if b, ok := iff.Cond.(*ssa.BinOp); ok && b.Op == token.LSS {
		return b.Y
	}
	return nil
}

func (v *V) backEdge(fr *Frame, header *ssa.BasicBlock, st *State, from *ssa.BasicBlock) {
	info := fr.active[header]
	if info == nil {
		panic("back edge to inactive loop")
	}
	if info.dryRun || v.dry > 0 {
		return
	}
	pos := loopPos(info.loop)
	spec := info.spec
	mkctx := func(s *State) *Ctx {
		c := v.ctx(s, fr)
		c.loop, c.hdr, c.pre, c.head = info, header, info.pre, info.head
		return c
	}
	if spec != nil {
		for _, s := range spec.sets {
			v.applySets(st, info.pre, fr, []SetClause{s}, nil)
		}
		for _, u := range spec.uses {
			if u.where == "end" {
				v.tryUse(mkctx(st), u)
			}
		}
		for i, cl := range spec.step {
			if !cl.active(v.prop) {
				continue
			}
			c := mkctx(st.clone())
			c.mode = 1
			s2 := c.st
			if v.offPath(s2, c, cl) {
				continue
			}
			v.obligeClause(s2, c, fmt.Sprintf("loop %d step %d", info.n, i+1), cl, pos)
		}
		for i, cl := range spec.inv {
			if !cl.active(v.prop) {
				continue
			}
			c := mkctx(st)
			c.mode = 1
			v.obligeClause(st, c, fmt.Sprintf("loop %d invariant %d is preserved", info.n, i+1), cl, pos)
		}
	}
	if spec != nil && spec.noterm && inProps(spec.notermIn, v.prop) || v.ct != nil && v.ct.noterm && inProps(v.ct.notermIn, v.prop) {
		return
	}
	if isRangeString(info.loop) {
		return // iteration over a string or map is bounded by the language
	}
	if info.ri != nil {
		return // a range index counts up to a fixed length
	}
	var cur []*Term
	if spec != nil && len(spec.dec) > 0 {
		for _, d := range spec.dec {
			t, ok := v.tryInt(mkctx(st), d)
			if !ok {
				return
			}
			cur = append(cur, t)
		}
	} else if len(info.dec) == 1 {
		if t := v.autoMeasure(fr, info.loop, st); t != nil {
			cur = []*Term{t}
		}
	}
	if len(cur) == 0 || len(info.dec) != len(cur) {
		v.oblige(st, fmt.Sprintf("loop %d terminates (no measure)", info.n), tFalse, pos)
		return
	}
	v.oblige(st, fmt.Sprintf("loop %d terminates", info.n), lexLess(cur, info.dec), pos)
}

func isRangeString(l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok && b == l.header {
				return true
			}
		}
	}
	return false
}

var _ = strings.TrimSpace
