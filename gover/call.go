package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ModEntry is one location (or row) a function may modify.
type ModEntry struct {
	key   string
	leaf  Sort
	ref   *Term
	idx   *Term // nil: the whole row
	ghost string
}

func locKeys(lc Loc) []ModEntry {
	var out []ModEntry
	switch u := lc.t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, locKeys(lc.field(i))...)
		}
	case *types.Array:
		out = append(out, rowKeys(u.Elem(), lc.ref, u.Len())...)
	default:
		for _, l := range leaves(lc.t) {
			out = append(out, ModEntry{key: lc.prefix + l.suf, leaf: l.sort, ref: lc.ref, idx: lc.idx})
		}
	}
	return out
}

// rowKeys lists all element leaves of the object ref (n<0: unknown length).
func rowKeys(et types.Type, ref *Term, n int64) []ModEntry {
	var out []ModEntry
	if isArrayT(et) {
		if n < 0 || n > 16 {
			panic(unsupported("modifies of a large nested array"))
		}
		for i := int64(0); i < n; i++ {
			out = append(out, locKeys(elemLoc(et, ref, mkInt(i)))...)
		}
		return out
	}
	var rec func(t types.Type, prefix string)
	rec = func(t types.Type, prefix string) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isArrayT(f.Type()) || boxedFields[structKey(t)+"."+f.Name()] {
					continue // inner objects are separate
				}
				rec(f.Type(), prefix+"."+f.Name())
			}
			return
		}
		for _, l := range leaves(t) {
			out = append(out, ModEntry{key: prefix + l.suf, leaf: l.sort, ref: ref})
		}
	}
	rec(et, typeKey(et))
	return out
}

// evalMods evaluates a modifies clause.
func (c *Ctx) evalMods(e *Expr) []ModEntry {
	switch {
	case e.k == "call" && e.xs[0].s == "when": // when(cond, places): nothing otherwise
		b := c.Bool(e.xs[1])
		var r []ModEntry
		for _, x := range e.xs[2:] {
			for _, m := range c.evalMods(x) {
				if m.ghost != "" {
					c.fail("when of a ghost")
				}
				m.ref = mkIte(b, m.ref, mkInt(0))
				r = append(r, m)
			}
		}
		return r
	case e.k == "sel" && e.s == "*":
		x := c.eval(e.xs[0])
		if pt, ok := x.t.Underlying().(*types.Pointer); ok {
			p := c.force(x)
			return locKeys(derefLoc(pt.Elem(), p.l[0], p.l[1]))
		}
		if x.loc == nil {
			c.fail("modifies of a value")
		}
		return locKeys(*x.loc)
	case e.k == "call" && e.xs[0].s == "elems":
		x := c.eval(e.xs[1])
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			s := c.force(x)
			ms := rowKeys(u.Elem(), s.l[0], -1)
			if len(e.xs) > 2 { // restricted to fields
				pre := typeKey(u.Elem()) + "." + e.xs[2].s
				var r []ModEntry
				for _, m := range ms {
					if m.key == pre || strings.HasPrefix(m.key, pre+".") {
						r = append(r, m)
					}
				}
				return r
			}
			return ms
		case *types.Array:
			return locKeys(*x.loc)
		case *types.Map:
			m := c.force(x)
			out := []ModEntry{{key: mapKey(u) + ".has", leaf: SBool, ref: m.l[0]}}
			for _, l := range leaves(u.Elem()) {
				out = append(out, ModEntry{key: mapKey(u) + l.suf, leaf: l.sort, ref: m.l[0]})
			}
			return out
		}
		c.fail("elems of %s", x.t)
	case e.k == "id":
		if _, ok := c.v.cs.ghosts[e.s]; ok {
			return []ModEntry{{ghost: e.s}}
		}
		x := c.eval(e)
		if x.loc == nil {
			c.fail("modifies of a value %s", e.s)
		}
		return locKeys(*x.loc)
	default:
		x := c.eval(e)
		if x.loc == nil {
			c.fail("modifies of a value")
		}
		return locKeys(*x.loc)
	}
	return nil
}

// ---- frame checking

func (v *V) isFresh(ref *Term) bool { return refGE(rootOf(ref), v.alloc0) }

func (v *V) checkFrame(st *State, lc Loc, pos token.Pos) {
	if v.dry > 0 || v.isFresh(lc.ref) {
		return
	}
	for _, m := range locKeys(lc) {
		v.checkFrameKey(st, m.key, m.ref, m.idx, pos)
	}
}

func (v *V) checkFrameKey(st *State, key string, ref, idx *Term, pos token.Pos) {
	if v.dry > 0 || v.modAll || v.isFresh(ref) {
		return
	}
	var or []*Term
	for _, m := range v.mods {
		if m.key != key || m.ghost != "" {
			continue
		}
		c := mkEq(ref, m.ref)
		if m.idx != nil {
			if idx == nil {
				continue
			}
			c = mkAnd(c, mkEq(idx, m.idx))
		}
		if c == tTrue {
			return
		}
		or = append(or, c)
	}
	or = append(or, mkGe(mkRoot(ref), v.alloc0), mkEq(ref, mkInt(0))) // nothing lives at nil
	v.oblige(st, "frame: write to "+key+" is allowed by modifies", mkOr(or...), pos)
}

// ---- calls

func (v *V) call(fr *Frame, st *State, in *ssa.Call) {
	com := in.Common()
	var args []SV
	if b, ok := com.Value.(*ssa.Builtin); ok {
		for _, a := range com.Args {
			args = append(args, v.value(fr, st, a))
		}
		v.builtin(fr, st, in, b.Name(), args)
		return
	}
	sig := com.Signature()
	var name string
	var callee *ssa.Function
	if com.IsInvoke() {
		recv := v.value(fr, st, com.Value)
		v.oblige(st, "nil-deref", mkNot(mkEq(recv.l[0], mkInt(0))), in.Pos())
		args = append(args, recv)
		name = "iface " + typeKey(com.Value.Type()) + "." + com.Method.Name()
	} else {
		f := v.value(fr, st, com.Value)
		callee = f.fn
		if callee == nil {
			name = "iface " + typeKey(com.Value.Type()) + ".call"
			v.oblige(st, "nil-deref", mkNot(mkEq(f.l[0], mkInt(0))), in.Pos())
			args = append(args, f)
		} else {
			name = funcName(callee)
			args = append(args, f.bind...)
		}
	}
	for i, a := range com.Args {
		x := v.value(fr, st, a)
		if x.loc != nil {
			x = SV{t: a.Type(), l: v.ptrLeaves(x)}
		}
		_ = i
		args = append(args, x)
	}
	res := v.invoke(fr, st, in, name, callee, args, sig, in.Pos())
	if st.pc == tFalse {
		return
	}
	switch sig.Results().Len() {
	case 0:
		v.set(fr, st, in, SV{})
	case 1:
		v.set(fr, st, in, res[0])
	default:
		v.set(fr, st, in, SV{t: in.Type(), tup: res})
	}
}

func (v *V) oncallFor(name string) *OnCall {
	if v.ct == nil {
		return nil
	}
	for _, oc := range v.ct.oncalls {
		if oc.callee == name || "iface "+oc.callee == name {
			return oc
		}
	}
	return nil
}

func (v *V) invoke(fr *Frame, st *State, in ssa.Value, name string, callee *ssa.Function, args []SV, sig *types.Signature, pos token.Pos) []SV {
	oc := v.oncallFor(name)
	var pre *State
	var ocEnv map[string]EV
	if oc != nil {
		pre = st.clone()
		ocEnv = map[string]EV{}
		for i, n := range oc.args {
			if i < len(args) {
				ocEnv[n] = EV{t: args[i].t, l: args[i].l}
			}
		}
		for _, u := range oc.uses {
			if u.where == "after" {
				continue
			}
			c := v.ctx(st, fr)
			c.env = mergeEnv(c.env, ocEnv)
			n := len(v.unsup)
			v.tryUse(c, u)
			v.unsup = v.unsup[:n] // a hint that does not apply on this path is no error
		}
		for i, cl := range oc.requires {
			if !cl.active(v.prop) {
				continue
			}
			c := v.ctx(st, fr)
			c.env = mergeEnv(c.env, ocEnv)
			c.mode = 1
			v.obligeClause(st, c, fmt.Sprintf("before call of %s: %d", name, i+1), cl, pos)
			if st.pc != tFalse {
				c.mode = -1
				v.assumeQuant(st, c, cl.e)
			}
		}
	}
	if oc != nil {
		v.applySets(st, pre, fr, oc.presets, ocEnv)
	}
	var res []SV
	ct := v.cs.funcs[name]
	switch {
	case ct != nil && !ct.inline:
		v.used[name] = true
		if ct.extern || ct.trusted != "" {
			v.assumed[name] = true
		}
		res = v.callContract(fr, st, ct, callee, args, sig, pos)
	case callee != nil && callee.Blocks != nil && v.inlinable(callee) && !inChain(fr, callee) && fr.depth < 8:
		v.inlined[name] = true
		res = v.inlineCall(fr, st, in, callee, args)
	default:
		if oc == nil {
			v.unsupportedAt(st, "call of "+name+" (no contract)", pos)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, v.freshTyped(st, "res", sig.Results().At(i).Type()))
		}
	}
	if oc != nil && st.pc != tFalse {
		for i := range res {
			ocEnv[fmt.Sprintf("result%d", i)] = EV{t: res[i].t, l: res[i].l}
		}
		if len(res) > 0 {
			ocEnv["result"] = EV{t: res[0].t, l: res[0].l}
		}
		for _, cl := range oc.ensures {
			if !cl.active(v.prop) {
				continue
			}
			c := v.ctx(st, fr)
			c.env = mergeEnv(c.env, ocEnv)
			c.old = pre
			c.mode = -1
			st.assume(c.Bool(cl.e))
		}
		for _, u := range oc.uses {
			if u.where != "after" {
				continue
			}
			c := v.ctx(st, fr)
			c.env = mergeEnv(c.env, ocEnv)
			n := len(v.unsup)
			v.tryUse(c, u)
			v.unsup = v.unsup[:n]
		}
		v.applySets(st, pre, fr, oc.sets, ocEnv)
	}
	return res
}

func mergeEnv(a, b map[string]EV) map[string]EV {
	n := map[string]EV{}
	for k, x := range a {
		n[k] = x
	}
	for k, x := range b {
		n["\x00"+k] = x
	}
	return n
}

// applySets performs simultaneous ghost assignments evaluated in the state
// before them.
func (v *V) applySets(st, pre *State, fr *Frame, sets []SetClause, env map[string]EV) {
	if len(sets) == 0 {
		return
	}
	vals := make([]EV, len(sets))
	base := st.clone()
	for i, s := range sets {
		c := v.ctx(st, fr)
		c.st = base
		c.env = mergeEnv(c.env, env)
		c.pre = pre
		vals[i] = c.force(c.eval(s.e))
		base.facts = &FactNode{parents: []*FactNode{base.facts}}
	}
	st.facts = base.facts
	for i, s := range sets {
		g, ok := st.ghost[s.name]
		if !ok {
			panic(evalErr{"unknown ghost " + s.name})
		}
		v.writes = append(v.writes, writeRec{ghost: s.name})
		v.checkGhostFrame(st, s.name)
		st.ghost[s.name] = SV{t: g.t, l: vals[i].l}
	}
}

func (v *V) checkGhostFrame(st *State, name string) {
	if v.dry > 0 || v.modAll {
		return
	}
	for _, m := range v.mods {
		if m.ghost == name {
			return
		}
	}
	v.oblige(st, "frame: ghost "+name+" is not in modifies", tFalse, token.NoPos)
}

func inChain(fr *Frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.parent {
		if fr.fn == f {
			return true
		}
	}
	return false
}

func (v *V) inlinable(f *ssa.Function) bool {
	if f.Pkg == nil {
		// method wrappers and instantiated generics
		return f.Synthetic != ""
	}
	p := f.Pkg.Pkg.Path()
	return strings.HasPrefix(p, repoPrefix) || sourcePkgs[p]
}

func (v *V) inlineCall(fr *Frame, st *State, in ssa.Value, callee *ssa.Function, args []SV) []SV {
	nf := newFrame(v, callee, fr)
	nf.path = fr.path + fmt.Sprintf("/%s@%d", callee.Name(), instrIndex(in))
	sub := st.clone()
	rets := v.runFunc(nf, sub, args)
	if len(rets) == 0 {
		st.pc = tFalse
		return nil
	}
	n := callee.Signature.Results().Len()
	key := regKey{nf.id, nil}
	var ss []*State
	for _, r := range rets {
		tup := make([]SV, n)
		for i := range tup {
			x := r.res[i]
			if x.loc != nil {
				x = SV{t: callee.Signature.Results().At(i).Type(), l: v.ptrLeaves(x)}
			}
			x.t = callee.Signature.Results().At(i).Type()
			tup[i] = x
		}
		r.st.regs[key] = SV{tup: tup}
		ss = append(ss, r.st)
	}
	m := v.merge(ss)
	res, ok := m.regs[key]
	if !ok {
		panic(unsupported("results of " + callee.Name() + " cannot be merged"))
	}
	for k := range m.regs {
		if k.frame == nf.id {
			delete(m.regs, k)
		}
	}
	for k := range m.cells {
		if k.frame == nf.id {
			delete(m.cells, k)
		}
	}
	m.trace = st.trace
	*st = *m
	return res.tup
}

func instrIndex(x ssa.Value) int {
	in, ok := x.(ssa.Instruction)
	if !ok {
		return 0
	}
	n := in.Block().Index * 1000
	for i, y := range in.Block().Instrs {
		if y == in {
			return n + i
		}
	}
	return n
}

func (v *V) callContract(fr *Frame, st *State, ct *FuncContract, callee *ssa.Function, args []SV, sig *types.Signature, pos token.Pos) []SV {
	env := map[string]EV{}
	if len(ct.params) != len(args) {
		v.unsupportedAt(st, fmt.Sprintf("contract of %s names %d parameters, the function has %d", ct.name, len(ct.params), len(args)), pos)
	}
	for i, n := range ct.params {
		if i < len(args) {
			env["\x00"+n] = EV{t: args[i].t, l: v.ptrLeaves(args[i])}
		}
	}
	cpkg := v.contractPkg(ct, callee)
	mk := func(st, old *State) *Ctx {
		return &Ctx{v: v, st: st, old: old, env: env, pkg: cpkg, fuel: v.fuel(), noLocals: true}
	}
	// pointers must be non-nil unless declared otherwise
	if !ct.extern && callee != nil {
		for i, p := range callee.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && i < len(args) && i < len(ct.params) && !ct.nilable[ct.params[i]] {
				l := v.ptrLeaves(args[i])
				v.nonNil(st, l[0], pos)
			}
		}
	}
	for i, cl := range ct.requires {
		if !cl.active(v.prop) {
			continue
		}
		c := mk(st, nil)
		c.mode = 1
		v.obligeClause(st, c, fmt.Sprintf("requires of %s: %d", ct.name, i+1), cl, pos)
	}
	if len(ct.decreases) > 0 && v.ct != nil && len(v.ct.decreases) > 0 && v.recursive(ct.name) && v.dry == 0 {
		v.decreaseCheck(st, ct, mk(st, nil), pos)
	} else if v.dry == 0 && ct.name == funcName(v.fn) && len(ct.decreases) == 0 {
		v.oblige(st, "recursion without a decreases clause", tFalse, pos)
	}
	pre := st.clone()
	for _, cl := range ct.modifies {
		if !cl.active(v.prop) {
			continue
		}
		for _, m := range mk(pre, nil).evalMods(cl.e) {
			if m.ghost != "" {
				g := st.ghost[m.ghost]
				v.writes = append(v.writes, writeRec{ghost: m.ghost})
				v.checkGhostFrame(st, m.ghost)
				f := freshVal("gh_"+m.ghost, g.t)
				st.ghost[m.ghost] = f
				continue
			}
			v.checkFrameKey(st, m.key, m.ref, m.idx, pos)
			v.noteWrite(st, m.key, m.ref, m.idx)
			v.havocEntry(st, m)
		}
	}
	if ct.allocates {
		v.havocAlloc(st)
	}
	var res []SV
	for i := 0; i < sig.Results().Len(); i++ {
		r := v.freshTyped(st, "res_"+shortName(ct.name), sig.Results().At(i).Type())
		res = append(res, r)
		if i < len(ct.results) {
			env["\x00"+ct.results[i]] = EV{t: r.t, l: r.l}
		}
	}
	for _, cl := range ct.ensures {
		if !cl.active(v.prop) {
			continue
		}
		c := mk(st, pre)
		c.mode = -1
		st.assume(v.evalBool(c, cl))
	}
	return res
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (v *V) contractPkg(ct *FuncContract, callee *ssa.Function) *types.Package {
	if callee != nil && callee.Pkg != nil {
		return callee.Pkg.Pkg
	}
	n := strings.TrimPrefix(ct.name, "iface ")
	if i := strings.IndexByte(n, '.'); i >= 0 {
		if p := v.pkgByName(n[:i]); p != nil {
			return p
		}
	}
	if v.fn != nil && v.fn.Pkg != nil {
		return v.fn.Pkg.Pkg
	}
	return nil
}

func (v *V) havocEntry(st *State, m ModEntry) {
	h := v.heapOf(st, m.key, m.leaf)
	if m.idx == nil {
		st.heap[m.key] = mkStore(h, m.ref, fresh("row_"+m.key, SArr(m.leaf)))
	} else {
		st.heap[m.key] = mkStore(h, m.ref, mkStore(mkSelect(h, m.ref), m.idx, fresh("val_"+m.key, m.leaf)))
		// typing of the new value is declared when it is loaded: make sure of it here
		v.typeKeyed(st, m)
	}
}

// typeKeyed declares the integer range of a havoced scalar by its key.
func (v *V) typeKeyed(st *State, m ModEntry) {}

func (v *V) havocAlloc(st *State) {
	a := fresh("alloc", SInt)
	allocGE[a.id] = st.alloc
	declareRange(a, v.one, nil)
	st.assume(mkGe(a, st.alloc))
	st.alloc = a
	v.writes = append(v.writes, writeRec{ghost: "\x00alloc"})
}

// recursive: the callee can reach the verified function (same contract family
// declaring decreases).
func (v *V) recursive(name string) bool {
	return name == funcName(v.fn) || v.cs.reaches(v.pr, name, funcName(v.fn))
}

func (v *V) decreaseCheck(st *State, ct *FuncContract, c *Ctx, pos token.Pos) {
	var old, cur []*Term
	oc := v.ctx(v.entry, nil)
	oc.noLocals = true
	tmp := *v.entry
	tmp.facts = nil
	tmp.pc = tTrue
	oc.st = &tmp
	for _, d := range v.ct.decreases {
		old = append(old, oc.Int(d))
	}
	for _, f := range collectFacts(tmp.facts) {
		st.assume(f)
	}
	for _, d := range ct.decreases {
		cur = append(cur, c.Int(d))
	}
	v.oblige(st, "recursion decreases", lexLess(cur, old), pos)
}

func lexLess(cur, old []*Term) *Term {
	n := len(cur)
	if len(old) < n {
		n = len(old)
	}
	r := tFalse
	for i := n - 1; i >= 0; i-- {
		r = mkOr(mkAnd(mkLt(cur[i], old[i]), mkLe(mkInt(0), old[i])), mkAnd(mkEq(cur[i], old[i]), r))
	}
	return r
}

// ---- builtins

func (v *V) builtin(fr *Frame, st *State, in *ssa.Call, name string, args []SV) {
	com := in.Common()
	switch name {
	case "len", "cap":
		t := com.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			k := 2
			if name == "cap" {
				k = 3
			}
			v.set(fr, st, in, SV{l: []*Term{args[0].l[k]}})
			return
		case *types.Basic:
			v.set(fr, st, in, SV{l: []*Term{args[0].l[2]}})
			return
		case *types.Array:
			v.set(fr, st, in, SV{l: []*Term{mkInt(u.Len())}})
			return
		case *types.Pointer:
			v.set(fr, st, in, SV{l: []*Term{mkInt(u.Elem().Underlying().(*types.Array).Len())}})
			return
		case *types.Map:
			n := freshVal("maplen", types.Typ[types.Int])
			st.assume(mkGe(n.l[0], mkInt(0)))
			v.set(fr, st, in, n)
			return
		}
		panic(unsupported(name))
	case "ssa:deferstack":
		v.set(fr, st, in, SV{l: []*Term{mkInt(0)}})
	case "copy":
		v.copyBuiltin(fr, st, in, args)
	case "append":
		v.appendBuiltin(fr, st, in, args)
	case "min", "max":
		r := args[0].l[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = mkIte(mkLe(r, a.l[0]), r, a.l[0])
			} else {
				r = mkIte(mkGe(r, a.l[0]), r, a.l[0])
			}
		}
		v.set(fr, st, in, SV{l: []*Term{r}})
	case "panic":
		v.oblige(st, "panic-unreachable", tFalse, in.Pos())
		st.pc = tFalse
	case "print", "println":
	case "delete":
		mt := com.Args[0].Type().Underlying().(*types.Map)
		k := v.mapKeyTerm(mt, args[1])
		key := mapKey(mt) + ".has"
		v.checkFrameKey(st, key, args[0].l[0], k, in.Pos())
		v.noteWrite(st, key, args[0].l[0], k)
		h := v.heapOf(st, key, SBool)
		st.heap[key] = mkStore(h, args[0].l[0], mkStore(mkSelect(h, args[0].l[0]), k, tFalse))
	default:
		panic(unsupported("builtin " + name))
	}
}

// elemLeafKeys lists the leaf keys of elements of type et.
func (v *V) elemLeafKeys(et types.Type) []ModEntry { return rowKeys(et, mkInt(0), -1) }

// fillRange sets elements [lo,hi) of (key,ref) from a source row, leaving the
// rest alone, through a fresh row constrained by quantified facts.
func (v *V) blit(st *State, m ModEntry, ref, dst, n *Term, src *Term, srcOff *Term) {
	h := v.heapOf(st, m.key, m.leaf)
	old := mkSelect(h, ref)
	if n.op == OConst && n.val.IsInt64() && n.val.Int64() <= 8 {
		row := old
		for i := int64(0); i < n.val.Int64(); i++ {
			row = mkStore(row, mkAdd(dst, mkInt(i)), mkSelect(src, mkAdd(srcOff, mkInt(i))))
		}
		st.heap[m.key] = mkStore(h, ref, row)
		v.noteWrite(st, m.key, ref, nil)
		return
	}
	row := fresh("blit_"+m.key, SArr(m.leaf))
	freshCnt["blitq"]++
	q := mkBVar(fmt.Sprintf("bq?%d", freshCnt["blitq"]), SInt)
	inR := mkAnd(mkLe(dst, q), mkLt(q, mkAdd(dst, n)))
	body := mkEq(mkSelect(row, q), mkIte(inR, mkSelect(src, mkAdd(srcOff, mkSub(q, dst))), mkSelect(old, q)))
	st.assume(mkQuant(OForall, []*Term{q}, body, [][]*Term{{mkSelect(row, q)}}))
	// instantiate from the source side too
	if src.op != OConstArr {
		freshCnt["blitq"]++
		q2 := mkBVar(fmt.Sprintf("bq?%d", freshCnt["blitq"]), SInt)
		in2 := mkAnd(mkLe(srcOff, q2), mkLt(q2, mkAdd(srcOff, n)))
		st.assume(mkQuant(OForall, []*Term{q2}, mkImp(in2, mkEq(mkSelect(row, mkAdd(dst, mkSub(q2, srcOff))), mkSelect(src, q2))), [][]*Term{{mkSelect(src, q2)}}))
	}
	st.heap[m.key] = mkStore(h, ref, row)
	v.noteWrite(st, m.key, ref, nil)
}

func (v *V) copyBuiltin(fr *Frame, st *State, in *ssa.Call, args []SV) {
	d, s := args[0], args[1]
	et := in.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
	var sref, soff, slen *Term
	str := false
	if b := basicOf(in.Common().Args[1].Type()); b != nil {
		str = true
		soff, slen = s.l[1], s.l[2]
	} else {
		sref, soff, slen = s.l[0], s.l[1], s.l[2]
	}
	n := mkIte(mkLe(d.l[2], slen), d.l[2], slen)
	for _, m := range rowKeys(et, d.l[0], -1) {
		if !v.isFresh(d.l[0]) && v.dry == 0 {
			// writing zero elements needs no permission
			if n != mkInt(0) {
				v.frameRow(st, m, n, in.Pos())
			}
		}
		src := (*Term)(nil)
		if str {
			src = s.l[0]
		} else {
			src = v.rowOf(st, m.key, m.leaf, sref)
		}
		v.blit(st, m, d.l[0], d.l[1], n, src, soff)
	}
	v.set(fr, st, in, SV{l: []*Term{n}})
}

// frameRow checks permission to write n>0 elements of a row.
func (v *V) frameRow(st *State, m ModEntry, n *Term, pos token.Pos) {
	if v.dry > 0 || v.modAll || v.isFresh(m.ref) {
		return
	}
	var or []*Term
	for _, x := range v.mods {
		if x.key == m.key && x.idx == nil && x.ghost == "" {
			or = append(or, mkEq(m.ref, x.ref))
		}
	}
	or = append(or, mkGe(mkRoot(m.ref), v.alloc0), mkLe(n, mkInt(0)))
	v.oblige(st, "frame: write to "+m.key+" is allowed by modifies", mkOr(or...), pos)
}

func (v *V) appendBuiltin(fr *Frame, st *State, in *ssa.Call, args []SV) {
	s := args[0]
	et := in.Type().Underlying().(*types.Slice).Elem()
	if len(args) < 2 {
		v.set(fr, st, in, s)
		return
	}
	a := args[1]
	var aoff, alen *Term
	str := false
	if b := basicOf(in.Common().Args[1].Type()); b != nil && b.Info()&types.IsString != 0 {
		str = true
		aoff, alen = a.l[1], a.l[2]
	} else if len(a.l) == 4 {
		aoff, alen = a.l[1], a.l[2]
	} else { // nil
		v.set(fr, st, in, s)
		return
	}
	n := mkAdd(s.l[2], alen)
	st.assume(mkLe(n, mkBig(maxObj))) // running out of memory is not modelled
	fits := mkLe(n, s.l[3])
	// result: in place when it fits, otherwise a new object
	nr := v.newRef(st)
	ncap := fresh("appcap", SInt)
	declareRange(ncap, bigZero, maxObj)
	st.assume(mkGe(ncap, n))
	rref := mkIte(fits, s.l[0], nr)
	roff := mkIte(fits, s.l[1], mkInt(0))
	rcap := mkIte(fits, s.l[3], ncap)
	for _, m := range rowKeys(et, mkInt(0), -1) {
		h := v.heapOf(st, m.key, m.leaf)
		var src *Term
		if str {
			src = a.l[0]
		} else {
			src = mkSelect(h, a.l[0])
		}
		old := mkSelect(h, s.l[0])
		// in-place row
		if fits != tFalse && v.dry == 0 && !v.isFresh(s.l[0]) {
			mm := m
			mm.ref = s.l[0]
			save := st.pc
			st.pc = mkAnd(st.pc, fits)
			v.frameRow(st, mm, alen, in.Pos())
			st.pc = save
		}
		var inRow, newRow *Term
		if alen.op == OConst && alen.val.IsInt64() && alen.val.Int64() <= 8 {
			inRow = old
			for i := int64(0); i < alen.val.Int64(); i++ {
				inRow = mkStore(inRow, mkAdd(s.l[1], s.l[2], mkInt(i)), mkSelect(src, mkAdd(aoff, mkInt(i))))
			}
			// new object: shifted copy of the old elements, then the new ones
			base := fresh("app_"+m.key, SArr(m.leaf))
			freshCnt["appq"]++
			q := mkBVar(fmt.Sprintf("aq?%d", freshCnt["appq"]), SInt)
			st.assume(mkQuant(OForall, []*Term{q}, mkImp(mkAnd(mkLe(mkInt(0), q), mkLt(q, s.l[2])), mkEq(mkSelect(base, q), mkSelect(old, mkAdd(s.l[1], q)))), [][]*Term{{mkSelect(base, q)}}))
			newRow = base
			for i := int64(0); i < alen.val.Int64(); i++ {
				newRow = mkStore(newRow, mkAdd(s.l[2], mkInt(i)), mkSelect(src, mkAdd(aoff, mkInt(i))))
			}
		} else {
			inRow = fresh("appi_"+m.key, SArr(m.leaf))
			newRow = fresh("appn_"+m.key, SArr(m.leaf))
			freshCnt["appq"]++
			q := mkBVar(fmt.Sprintf("aq?%d", freshCnt["appq"]), SInt)
			start := mkAdd(s.l[1], s.l[2])
			in1 := mkAnd(mkLe(start, q), mkLt(q, mkAdd(start, alen)))
			st.assume(mkQuant(OForall, []*Term{q}, mkEq(mkSelect(inRow, q), mkIte(in1, mkSelect(src, mkAdd(aoff, mkSub(q, start))), mkSelect(old, q))), [][]*Term{{mkSelect(inRow, q)}}))
			st.assume(mkQuant(OForall, []*Term{q}, mkAnd(
				mkImp(mkAnd(mkLe(mkInt(0), q), mkLt(q, s.l[2])), mkEq(mkSelect(newRow, q), mkSelect(old, mkAdd(s.l[1], q)))),
				mkImp(mkAnd(mkLe(s.l[2], q), mkLt(q, n)), mkEq(mkSelect(newRow, q), mkSelect(src, mkAdd(aoff, mkSub(q, s.l[2])))))), [][]*Term{{mkSelect(newRow, q)}}))
		}
		v.noteWrite(st, m.key, s.l[0], nil)
		v.noteWrite(st, m.key, nr, nil)
		h2 := mkStore(h, nr, newRow)
		if fits != tFalse {
			h2 = mkStore(h2, s.l[0], mkIte(fits, inRow, old))
		}
		st.heap[m.key] = h2
	}
	v.writes = append(v.writes, writeRec{ghost: "\x00alloc"})
	v.set(fr, st, in, SV{l: []*Term{rref, roff, n, rcap}})
}
