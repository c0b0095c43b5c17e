package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// learn turns conjuncts that bound a symbolic constant into declared ranges, so
// that the simplifier can use them. It is only called for facts about terms that
// are otherwise unconstrained outside the states in which the fact holds.
func learn(f *Term, mark int) {
	for _, c := range conjuncts(f) {
		if c.op != OLe && c.op != OLt {
			continue
		}
		// c: a <= b  i.e. b - a >= 0 (or > 0)
		l := newLin()
		l.add(c.args[1], big.NewInt(1))
		l.add(c.args[0], big.NewInt(-1))
		if len(l.coef) != 1 {
			continue
		}
		for id, k := range l.coef {
			t := l.atom[id]
			if !learnable(t, mark) {
				continue
			}
			// k*t + c0 >= s  (s = 0 or 1)
			s := big.NewInt(0)
			if c.op == OLt {
				s = big.NewInt(1)
			}
			r := new(big.Int).Sub(s, l.c) // k*t >= r
			if k.Sign() > 0 {
				q := new(big.Int).Neg(fdiv(new(big.Int).Neg(r), k)) // ceil
				declareRange(t, q, nil)
			} else {
				nk := new(big.Int).Neg(k) // t <= -r/nk
				declareRange(t, nil, fdiv(new(big.Int).Neg(r), nk))
			}
		}
	}
}

func learnable(t *Term, mark int) bool {
	switch t.op {
	case OVar:
		return t.id >= mark
	case OSelect:
		// a cell of the entry heap or of a fresh row
		b := t
		for b.op == OSelect {
			b = b.args[0]
		}
		return b.op == OVar && b.id >= mark
	}
	return false
}

var callees = map[*ssa.Function][]*ssa.Function{}

func staticCallees(f *ssa.Function) []*ssa.Function {
	if r, ok := callees[f]; ok {
		return r
	}
	var r []*ssa.Function
	callees[f] = nil
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					r = append(r, g)
				}
			}
		}
	}
	callees[f] = r
	return r
}

func (cs *Contracts) reaches(pr *Program, from, to string) bool {
	f := pr.byName(from)
	if f == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range staticCallees(f) {
			if funcName(g) == to || rec(g) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

var nameTab map[string]*ssa.Function

func (pr *Program) byName(n string) *ssa.Function {
	if nameTab == nil {
		nameTab = map[string]*ssa.Function{}
		for _, f := range pr.allFuncs() {
			nameTab[funcName(f)] = f
		}
	}
	return nameTab[n]
}

// verify generates the obligations of one function.
func (v *V) verify() {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case evalErr:
				v.fail("contract no longer applies: " + e.msg)
			case unsupportedErr:
				v.fail("unsupported: " + e.msg)
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				v.fail(fmt.Sprintf("internal error: %v", r))
			}
		}
	}()
	fn, ct := v.fn, v.ct
	if len(ct.params) != len(fn.Params) && len(ct.params) != 0 {
		v.fail(fmt.Sprintf("the contract names %d parameters, the function has %d", len(ct.params), len(fn.Params)))
		return
	}
	mark := len(termList)
	st := &State{cells: map[cellKey]SV{}, regs: map[regKey]SV{}, heap: map[string]*Term{}, ghost: map[string]SV{}, pc: tTrue}
	v.alloc0 = mkVar(fmt.Sprintf("alloc0_%d", v.id), SInt)
	declareRange(v.alloc0, big.NewInt(1<<20), nil)
	st.alloc = v.alloc0
	c0 := &Ctx{v: v, st: st, env: map[string]EV{}}
	for n, g := range v.cs.ghosts {
		t := c0.resolveType(g.typ)
		st.ghost[n] = freshVal("g0_"+n, t)
	}
	for i, p := range fn.Params {
		x := freshVal("p_"+p.Name(), p.Type())
		v.typing(st, x)
		name := ""
		if i < len(ct.params) {
			name = ct.params[i]
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && !ct.nilable[name] {
			st.assume(mkNot(mkEq(x.l[0], mkInt(0))))
		}
		v.params = append(v.params, x)
	}
	v.entry = st // contract expressions read the entry heap
	fr := newFrame(v, fn, nil)
	v.topFrame = fr
	mk := func(s *State) *Ctx {
		c := &Ctx{v: v, st: s, old: v.entry, env: map[string]EV{}, fuel: v.fuel(), noLocals: true}
		if fn.Pkg != nil {
			c.pkg = fn.Pkg.Pkg
		}
		for i, p := range ct.params {
			c.env["\x00"+p] = EV{t: v.params[i].t, l: v.params[i].l}
		}
		return c
	}
	for _, cl := range ct.requires {
		if !cl.active(v.prop) {
			continue
		}
		c := mk(st)
		c.mode = -1
		f := v.evalBool(c, cl)
		st.assume(f)
		learn(f, mark)
	}
	for _, cl := range ct.modifies {
		if cl.active(v.prop) {
			v.mods = append(v.mods, mk(st).evalMods(cl.e)...)
		}
	}
	// the precondition must be satisfiable
	v.counter["cover"]++
	v.obs = append(v.obs, &Oblig{name: funcName(fn) + "/precondition is satisfiable", kind: "cover", fn: funcName(fn), facts: st.facts, pc: tTrue, goal: tFalse, cover: true})
	for _, u := range ct.uses {
		if u.where == "entry" {
			c := mk(st)
			c.noLocals = false
			v.tryUse(c, u)
		}
	}
	v.entry = st.clone()
	rets := v.runFunc(fr, st, v.params)
	for ri, r := range rets {
		if r.st.pc == tFalse {
			continue
		}
		s := r.st
		c := mk(s)
		var res []SV
		for i := range r.res {
			x := r.res[i]
			x = SV{t: fn.Signature.Results().At(i).Type(), l: v.ptrLeaves(x)}
			res = append(res, x)
			if i < len(ct.results) {
				c.env["\x00"+ct.results[i]] = EV{t: x.t, l: x.l}
			}
		}
		if len(ct.sets) > 0 {
			env := map[string]EV{}
			for i, n := range ct.results {
				if i < len(res) {
					env[n] = EV{t: res[i].t, l: res[i].l}
				}
			}
			v.applySets(s, nil, fr, ct.sets, env)
		}
		for _, u := range ct.uses {
			if u.where == "return" {
				uc := v.ctx(s, fr)
				for i, n := range ct.results {
					if i < len(res) {
						uc.env["\x00"+n] = EV{t: res[i].t, l: res[i].l}
					}
				}
				n := len(v.unsup)
				v.tryUse(uc, u)
				v.unsup = v.unsup[:n] // a hint that does not apply on this path is no error
			}
		}
		for i, cl := range ct.ensures {
			if !cl.active(v.prop) {
				continue
			}
			e := *c
			e.mode = 1
			e.st = s.clone()
			v.obligeClause(e.st, &e, fmt.Sprintf("ensures %d", i+1), cl, r.pos)
		}
		if !ct.allocates {
			v.oblige(s, "allocates nothing", mkEq(s.alloc, v.alloc0), r.pos)
		}
		if ri == len(rets)-1 {
			v.obs = append(v.obs, &Oblig{name: funcName(fn) + "/a return is reachable", kind: "reach", fn: funcName(fn), facts: s.facts, pc: s.pc, goal: tFalse, cover: true})
		}
	}
	for n := range ct.loops {
		if n > len(v.loopIdx) {
			v.unsup = append(v.unsup, fmt.Sprintf("contract has loop %d, function has %d", n, len(v.loopIdx)))
		}
	}
}

func (v *V) fail(msg string) {
	p, src := v.pr.srcLine(v.fn.Pos())
	v.unsup = append(v.unsup, msg)
	v.obs = append(v.obs, &Oblig{name: funcName(v.fn) + "/" + msg, kind: msg, fn: funcName(v.fn), pos: p, src: src, pc: tTrue, goal: tFalse, status: "failed", detail: msg})
}

// lemmaV checks a lemma by (optional) induction on a natural number term.
func lemmaObligs(pr *Program, cs *Contracts, lm *Lemma) []*Oblig {
	v := newV(pr, cs, nil, nil, "")
	v.alloc0 = mkVar(fmt.Sprintf("alloc0_%d", v.id), SInt)
	declareRange(v.alloc0, big.NewInt(1<<20), nil)
	st := &State{cells: map[cellKey]SV{}, regs: map[regKey]SV{}, heap: map[string]*Term{}, ghost: map[string]SV{}, pc: tTrue, alloc: v.alloc0}
	v.entry = st
	v.curLemma = lm
	var obs []*Oblig
	name := "lemma " + lm.name
	defer func() {}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if e, ok := r.(evalErr); ok {
					msg = e.msg
				}
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				obs = append(obs, &Oblig{name: name + "/" + msg, kind: msg, fn: name, pc: tTrue, goal: tFalse, status: "failed", detail: msg})
			}
		}()
		mark := len(termList)
		env := map[string]EV{}
		c0 := &Ctx{v: v, st: st, env: env}
		for _, p := range lm.params {
			t := c0.resolveType(p.typ)
			x := freshVal("lm_"+p.name, t)
			v.typing(st, x)
			env["\x00"+p.name] = EV{t: t, l: x.l}
		}
		mk := func(mode int) *Ctx {
			return &Ctx{v: v, st: st, old: st, env: env, fuel: 2, noLocals: true, mode: mode}
		}
		for _, r := range lm.requires {
			f := mk(-1).Bool(r.e)
			st.assume(f)
			learn(f, mark)
		}
		obs = append(obs, &Oblig{name: name + "/hypotheses are satisfiable", kind: "cover", fn: name, facts: st.facts, pc: tTrue, goal: tFalse, cover: true})
		if lm.induct != nil {
			// induction hypothesis: the lemma for all smaller values of the measure,
			// available for the applications listed in use clauses
			v.inductVal = mk(0).Int(lm.induct)
		}
		for _, u := range lm.uses {
			v.lemmaUse(mk(0), u.e)
		}
		for i, e := range lm.ensures {
			c := mk(1)
			s2 := st.clone()
			c.st = s2
			g := c.Bool(e.e)
			o := &Oblig{name: fmt.Sprintf("%s/ensures %d", name, i+1), kind: "lemma", fn: name, facts: s2.facts, pc: tTrue, goal: g, detail: e.text}
			obs = append(obs, o)
		}
	}()
	for _, o := range obs {
		o.extra = append(o.extra, v.entryFacts...)
		o.v = v
	}
	lm.used = v.usedLemmas
	return obs
}

// lemmaUse applies a lemma inside a lemma; applying the lemma itself is an
// induction step and requires the measure to decrease.
func (v *V) lemmaUse(c *Ctx, e *Expr) {
	if e.k == "quant" && e.s == "forall" {
		// use forall x :: L(..): instantiate by a quantified fact
		v.quantUse(c, e)
		return
	}
	v.useLemma(c, e)
}

func (v *V) quantUse(c *Ctx, e *Expr) {
	n := c
	var vs []*Term
	for _, p := range e.vars {
		t := c.resolveType(p.typ)
		freshCnt["q_"+p.name]++
		b := mkBVar(fmt.Sprintf("%s?%d", p.name, freshCnt["q_"+p.name]), leaves(t)[0].sort)
		vs = append(vs, b)
		n = n.bind("\x00"+p.name, EV{t: t, l: []*Term{b}})
	}
	body := v.lemmaInst(n, e.xs[0])
	var pats [][]*Term
	for _, tr := range e.trig {
		var p []*Term
		for _, x := range tr {
			p = append(p, n.force(n.eval(x)).l[0])
		}
		pats = append(pats, p)
	}
	c.st.assume(mkQuant(OForall, vs, body, pats))
}

func lastPart(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

var _ = token.NoPos
