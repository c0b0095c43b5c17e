package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	tyInt  = types.Typ[types.UntypedInt]  // mathematical integer
	tyBool = types.Typ[types.UntypedBool] // proposition
	tyArr  = types.NewArray(types.Typ[types.UntypedInt], 0)
	tyArrB = types.NewArray(types.Typ[types.UntypedBool], 0)
)

// EV is an evaluated contract expression.
type EV struct {
	t   types.Type
	l   []*Term
	loc *Loc   // place not yet read
	st  *State // state to read it in
	pkg string // package qualifier
	row string // heap key prefix for row expressions
}

type Ctx struct {
	v        *V
	st       *State
	old      *State
	pre      *State
	head     *State
	env      map[string]EV
	fr       *Frame
	loop     *loopInfo
	hdr      *ssa.BasicBlock
	mode     int // 1 goal, -1 assumption, 0 neutral
	fuel     int
	ofuel    int // for opaque specs, which only unfold() opens
	depth    int
	pkg      *types.Package
	argsCur  bool // parameter names mean current values
	noLocals bool
}

type evalErr struct{ msg string }

func (c *Ctx) fail(f string, a ...any) { panic(evalErr{fmt.Sprintf(f, a...)}) }

func (c *Ctx) with(f func(n *Ctx)) *Ctx {
	n := *c
	f(&n)
	return &n
}

func (c *Ctx) bind(name string, e EV) *Ctx {
	n := *c
	n.env = make(map[string]EV, len(c.env)+1)
	for k, v := range c.env {
		n.env[k] = v
	}
	n.env[name] = e
	return &n
}

func intEV(t *Term) EV  { return EV{t: tyInt, l: []*Term{t}} }
func boolEV(t *Term) EV { return EV{t: tyBool, l: []*Term{t}} }

func (c *Ctx) force(e EV) EV {
	if e.loc != nil {
		st := e.st
		if st == nil {
			st = c.st
		}
		// Typing facts learnt while reading an old state belong to the current one.
		tmp := *st
		tmp.facts = nil
		tmp.pc = tTrue
		x := c.v.load(&tmp, *e.loc)
		for _, f := range collectFacts(tmp.facts) {
			c.st.assume(f)
		}
		return EV{t: e.loc.t, l: x.l}
	}
	return e
}

// Bool evaluates a proposition.
func (c *Ctx) Bool(e *Expr) *Term {
	r := c.force(c.eval(e))
	if len(r.l) != 1 || r.l[0].sort != SBool {
		c.fail("not a proposition: %s", e)
	}
	return r.l[0]
}

func (c *Ctx) Int(e *Expr) *Term {
	r := c.force(c.eval(e))
	if len(r.l) != 1 || r.l[0].sort != SInt {
		c.fail("not an integer: %v (%v)", e, r.t)
	}
	return r.l[0]
}

func (c *Ctx) resolveType(s string) types.Type {
	switch s {
	case "int", "":
		return tyInt
	case "bool":
		return tyBool
	case "arr":
		return tyArr
	case "arrb":
		return tyArrB
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(c.resolveType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		t := s[2:]
		if b, ok := goBasic[t]; ok {
			return types.NewSlice(b)
		}
		return types.NewSlice(c.resolveType(t))
	}
	if b, ok := goBasic[s]; ok {
		return b
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		p := c.v.pkgByName(s[:i])
		if p != nil {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	if s == "error" {
		return types.Universe.Lookup("error").Type()
	}
	c.fail("unknown type %s", s)
	return nil
}

var goBasic = map[string]types.Type{
	"goint": types.Typ[types.Int], "int8": types.Typ[types.Int8], "int16": types.Typ[types.Int16], "int32": types.Typ[types.Int32], "int64": types.Typ[types.Int64],
	"uint": types.Typ[types.Uint], "uint8": types.Typ[types.Uint8], "byte": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32], "uint64": types.Typ[types.Uint64],
	"string": types.Typ[types.String], "float64": types.Typ[types.Float64],
}

func (v *V) pkgByName(n string) *types.Package {
	for path, p := range v.pr.tpkgs {
		if (p.Name() == n || shortPkg(path) == n) && (strings.HasPrefix(path, repoPrefix) || sourcePkgs[path]) {
			return p
		}
	}
	for path, p := range v.pr.tpkgs {
		if path == n {
			return p
		}
	}
	return nil
}

// local looks up a Go local variable by name.
func (c *Ctx) local(name string) (EV, bool) {
	ord := -1
	base := name
	if i := strings.IndexByte(name, '#'); i >= 0 {
		fmt.Sscanf(name[i+1:], "%d", &ord)
		base = name[:i]
	}
	for fr := c.fr; fr != nil; fr = fr.parent {
		var cands []*ssa.Alloc
		var all []*ssa.Alloc
		for _, a := range frameAllocs(fr.fn) {
			if a.Comment != base {
				continue
			}
			if _, ok := c.st.cells[cellKey{fr.id, a}]; !ok {
				continue
			}
			all = append(all, a)
			if fr == c.fr && c.hdr != nil && !a.Block().Dominates(c.hdr) {
				continue
			}
			cands = append(cands, a)
		}
		if ord > 0 {
			// #n counts all declarations of that name in the function
			k := 0
			for _, a := range frameAllocs(fr.fn) {
				if a.Comment == base {
					k++
					if k == ord {
						if _, ok := c.st.cells[cellKey{fr.id, a}]; ok {
							return c.cellEV(fr, a), true
						}
					}
				}
			}
			continue
		}
		if len(cands) == 0 && len(all) == 1 {
			cands = all
		}
		if len(cands) > 0 {
			return c.cellEV(fr, cands[len(cands)-1]), true
		}
	}
	return EV{}, false
}

func (c *Ctx) cellEV(fr *Frame, a *ssa.Alloc) EV {
	sv := c.st.cells[cellKey{fr.id, a}]
	et := a.Type().(*types.Pointer).Elem()
	if addrEscapes(a) {
		lc := derefLoc(et, sv.l[0], sv.l[1])
		return EV{t: et, loc: &lc, st: c.st}
	}
	if sv.loc != nil {
		return EV{t: et, l: c.v.ptrLeaves(sv)}
	}
	return EV{t: et, l: sv.l}
}

var allocCache = map[*ssa.Function][]*ssa.Alloc{}

func frameAllocs(f *ssa.Function) []*ssa.Alloc {
	if r, ok := allocCache[f]; ok {
		return r
	}
	var r []*ssa.Alloc
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				r = append(r, a)
			}
		}
	}
	// by source position
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].Pos() < r[j-1].Pos(); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	allocCache[f] = r
	return r
}

func (c *Ctx) ident(name string) EV {
	switch name {
	case "true":
		return boolEV(tTrue)
	case "false":
		return boolEV(tFalse)
	case "nil":
		return EV{t: types.Typ[types.UntypedNil], l: []*Term{mkInt(0), mkInt(0)}}
	}
	if e, ok := c.env["\x00"+name]; ok { // bound variables win
		return e
	}
	if g, ok := c.st.ghost[name]; ok {
		return EV{t: g.t, l: g.l}
	}
	if c.fr != nil && !c.noLocals {
		if e, ok := c.local(name); ok {
			return e
		}
		if c.argsCur && c.v.ct != nil {
			for i, p := range c.v.ct.params {
				if p == name && i < len(c.v.fn.Params) {
					if e, ok := c.with(func(n *Ctx) { n.fr = c.v.topFrame }).local(c.v.fn.Params[i].Name()); ok {
						return e
					}
				}
			}
		}
	}
	if e, ok := c.env[name]; ok {
		return e
	}
	if name == "it" && c.loop != nil {
		return c.iter(c.loop)
	}
	if c.pkg != nil {
		if o := c.pkg.Scope().Lookup(name); o != nil {
			return c.pkgObj(o)
		}
	}
	if p := c.v.pkgByName(name); p != nil {
		return EV{pkg: p.Path()}
	}
	if m, ok := c.v.cs.macros[name]; ok && len(m.params) == 0 {
		return c.callMacro(m, nil)
	}
	c.fail("unknown name %q", name)
	return EV{}
}

func (c *Ctx) iter(li *loopInfo) EV {
	if li.ri == nil {
		c.fail("loop %d is not a range loop", li.n)
	}
	x, ok := c.st.cells[*li.ri]
	if !ok {
		c.fail("range index not available")
	}
	return intEV(mkAdd(x.l[0], mkInt(1)))
}

func (c *Ctx) pkgObj(o types.Object) EV {
	switch o := o.(type) {
	case *types.Const:
		if o.Val().Kind() == constant.Int {
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return EV{t: tyInt, l: []*Term{mkBig(b)}}
		}
		sv := c.v.constVal(c.st, o.Val(), o.Type())
		return EV{t: o.Type(), l: sv.l}
	case *types.Var:
		p := c.v.pr.pkgs[o.Pkg().Path()]
		if p != nil {
			if g, ok := p.Members[o.Name()].(*ssa.Global); ok {
				sv := c.v.globalAddr(g)
				lc := derefLoc(o.Type(), sv.l[0], sv.l[1])
				return EV{t: o.Type(), loc: &lc, st: c.st}
			}
		}
		// variable of another package: an opaque location
		lc := derefLoc(o.Type(), extGlobalRef(o), mkInt(0))
		return EV{t: o.Type(), loc: &lc, st: c.st}
	}
	c.fail("cannot use %s in a contract", o.Name())
	return EV{}
}

func extGlobalRef(o types.Object) *Term {
	k := o.Pkg().Path() + "." + o.Name()
	n, ok := globalRefs[k]
	if !ok {
		n = int64(len(globalRefs) + 2)
		globalRefs[k] = n
	}
	return mkInt(n)
}

func (c *Ctx) eval(e *Expr) EV {
	c.depth++
	defer func() { c.depth-- }()
	switch e.k {
	case "paren":
		return c.eval(e.xs[0])
	case "num":
		b, ok := new(big.Int).SetString(strings.ReplaceAll(e.s, "_", ""), 0)
		if !ok {
			c.fail("bad number %q", e.s)
		}
		return intEV(mkBig(b))
	case "str":
		sv := strLit(types.Typ[types.String], e.s)
		return EV{t: sv.t, l: sv.l}
	case "id":
		return c.ident(e.s)
	case "un":
		if e.s == "!" {
			n := c.with(func(n *Ctx) { n.mode = -n.mode })
			return boolEV(mkNot(n.Bool(e.xs[0])))
		}
		return intEV(mkNeg(c.Int(e.xs[0])))
	case "cond":
		n := c.with(func(n *Ctx) { n.mode = 0 })
		cd := n.Bool(e.xs[0])
		if cd == tTrue {
			return c.eval(e.xs[1])
		}
		if cd == tFalse {
			return c.eval(e.xs[2])
		}
		a, b := c.force(c.eval(e.xs[1])), c.force(c.eval(e.xs[2]))
		if len(a.l) != len(b.l) {
			c.fail("branches differ in %s", e)
		}
		out := EV{t: a.t}
		for i := range a.l {
			out.l = append(out.l, mkIte(cd, a.l[i], b.l[i]))
		}
		return out
	case "let":
		x := c.eval(e.xs[0])
		if x.loc != nil && x.st == nil {
			x.st = c.st
		}
		return c.bind("\x00"+e.s, x).eval(e.xs[1])
	case "quant":
		return c.quant(e)
	case "sel":
		return c.sel(e)
	case "idx":
		return c.index(e)
	case "bin":
		return c.bin(e)
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s", e.k)
	return EV{}
}

func (c *Ctx) quant(e *Expr) EV {
	n := c
	skolem := c.mode == 1 && e.s == "forall" || c.mode == -1 && e.s == "exists"
	var vs []*Term
	for _, p := range e.vars {
		t := c.resolveType(p.typ)
		var ev EV
		if skolem {
			sv := freshVal("sk_"+p.name, t)
			ev = EV{t: t, l: sv.l}
		} else {
			ev = EV{t: t}
			for _, lf := range leaves(t) {
				freshCnt["q_"+p.name]++
				b := mkBVar(fmt.Sprintf("%s?%d%s", p.name, freshCnt["q_"+p.name], strings.ReplaceAll(lf.suf, "[]", "_")), lf.sort)
				vs = append(vs, b)
				ev.l = append(ev.l, b)
			}
		}
		n = n.bind("\x00"+p.name, ev)
	}
	if skolem {
		return boolEV(n.Bool(e.xs[0]))
	}
	n = n.with(func(x *Ctx) { x.mode = 0 })
	body := n.Bool(e.xs[0])
	var pats [][]*Term
	for _, tr := range e.trig {
		var p []*Term
		for _, x := range tr {
			p = append(p, n.force(n.eval(x)).l[0])
		}
		pats = append(pats, p)
	}
	if e.s == "forall" {
		return boolEV(mkQuant(OForall, vs, body, pats))
	}
	return boolEV(mkQuant(OExists, vs, body, pats))
}

func (c *Ctx) sel(e *Expr) EV {
	x := c.eval(e.xs[0])
	if x.pkg != "" {
		p := c.v.pr.tpkgs[x.pkg]
		o := p.Scope().Lookup(e.s)
		if o == nil {
			c.fail("no %s in %s", e.s, x.pkg)
		}
		return c.pkgObj(o)
	}
	return c.selField(x, e.s)
}

func (c *Ctx) selField(x EV, name string) EV {
	t := x.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := c.force(x)
		lc := derefLoc(pt.Elem(), p.l[0], p.l[1])
		st := x.st
		if st == nil {
			st = c.st
		}
		x = EV{t: pt.Elem(), loc: &lc, st: st}
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.fail("selector .%s on %s", name, t)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == name {
			if x.loc != nil {
				lc := x.loc.field(i)
				return EV{t: f.Type(), loc: &lc, st: x.st}
			}
			ft, l := getPath(t, x.l, []pathElem{{field: i}})
			return EV{t: ft, l: l}
		}
	}
	for i := 0; i < s.NumFields(); i++ { // embedded
		if s.Field(i).Embedded() {
			_, idx, _ := types.LookupFieldOrMethod(s.Field(i).Type(), true, c.pkgOf(t), name)
			if idx != nil {
				return c.selField(c.selField(x, s.Field(i).Name()), name)
			}
		}
	}
	c.fail("no field %s in %s", name, t)
	return EV{}
}

func (c *Ctx) pkgOf(t types.Type) *types.Package {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return c.pkg
}

func (c *Ctx) index(e *Expr) EV {
	x := c.eval(e.xs[0])
	i := c.Int(e.xs[1])
	return c.indexEV(x, i)
}

func (c *Ctx) indexEV(x EV, i *Term) EV {
	switch u := x.t.Underlying().(type) {
	case *types.Slice:
		st := x.st
		if st == nil {
			st = c.st
		}
		s := c.force(x)
		lc := elemLoc(u.Elem(), s.l[0], mkAdd(s.l[1], i))
		return EV{t: u.Elem(), loc: &lc, st: st}
	case *types.Array:
		if x.loc != nil {
			lc := x.loc.elem(i)
			return EV{t: u.Elem(), loc: &lc, st: x.st}
		}
		t, l := getPath(x.t, x.l, []pathElem{{index: i}})
		return EV{t: t, l: l}
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			p := c.force(x)
			lc := elemLoc(a.Elem(), p.l[0], i)
			return EV{t: a.Elem(), loc: &lc, st: x.st}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s := c.force(x)
			return intEV(strByte(SV{l: s.l}, i))
		}
	case *types.Map:
		m := c.force(x)
		st := x.st
		if st == nil {
			st = c.st
		}
		out := EV{t: u.Elem()}
		for _, lf := range leaves(u.Elem()) {
			out.l = append(out.l, typedLeaf(mkSelect(c.v.rowOf(st, mapKey(u)+lf.suf, lf.sort, m.l[0]), i), lf))
		}
		return out
	}
	c.fail("cannot index %s", x.t)
	return EV{}
}

func (c *Ctx) bin(e *Expr) EV {
	switch e.s {
	case "&&":
		a := c.Bool(e.xs[0])
		return boolEV(mkAnd(a, c.Bool(e.xs[1])))
	case "||":
		a := c.Bool(e.xs[0])
		return boolEV(mkOr(a, c.Bool(e.xs[1])))
	case "==>":
		n := c.with(func(n *Ctx) { n.mode = -n.mode })
		a := n.Bool(e.xs[0])
		if a == tFalse {
			return boolEV(tTrue)
		}
		return boolEV(mkImp(a, c.Bool(e.xs[1])))
	case "<==>":
		n := c.with(func(n *Ctx) { n.mode = 0 })
		return boolEV(mkEq(n.Bool(e.xs[0]), n.Bool(e.xs[1])))
	case "==", "!=":
		a, b := c.force(c.eval(e.xs[0])), c.force(c.eval(e.xs[1]))
		r := c.eq(a, b, e)
		if e.s == "!=" {
			r = mkNot(r)
		}
		return boolEV(r)
	}
	a, b := c.Int(e.xs[0]), c.Int(e.xs[1])
	switch e.s {
	case "<":
		return boolEV(mkLt(a, b))
	case "<=":
		return boolEV(mkLe(a, b))
	case ">":
		return boolEV(mkGt(a, b))
	case ">=":
		return boolEV(mkGe(a, b))
	case "+":
		return intEV(mkAdd(a, b))
	case "-":
		return intEV(mkSub(a, b))
	case "*":
		return intEV(mkMul(a, b))
	case "/":
		return intEV(mkDiv(a, b))
	case "%":
		return intEV(mkMod(a, b))
	case "<<":
		return intEV(mkMul(a, pow2Term(b)))
	case ">>":
		return intEV(mkDiv(a, pow2Term(b)))
	}
	c.fail("operator %s", e.s)
	return EV{}
}

func (c *Ctx) eq(a, b EV, e *Expr) *Term {
	isNil := func(x EV) bool { bb := basicOf(x.t); return bb != nil && bb.Kind() == types.UntypedNil }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		return mkEq(a.l[0], mkInt(0)) // pointer, slice, map, interface
	}
	if bb := basicOf(a.t); bb != nil && bb.Info()&types.IsString != 0 {
		return strEq(SV{l: a.l}, SV{l: b.l})
	}
	if len(a.l) != len(b.l) {
		c.fail("comparison of different shapes in %v: %v, %v", e, a.t, b.t)
	}
	var cs []*Term
	for i := range a.l {
		if a.l[i].sort != b.l[i].sort {
			c.fail("comparison of different sorts in %v", e)
		}
		cs = append(cs, mkEq(a.l[i], b.l[i]))
	}
	return mkAnd(cs...)
}

func (c *Ctx) callMacro(m *Macro, args []EV) EV {
	if c.depth > 200 {
		c.fail("macro recursion in %s", m.name)
	}
	if len(args) != len(m.params) {
		c.fail("%s wants %d arguments", m.name, len(m.params))
	}
	if m.rec {
		return c.specApp(m, args)
	}
	n := c.with(func(n *Ctx) { n.noLocals = true; n.fr = nil })
	n.env = map[string]EV{}
	for i, p := range m.params {
		a := args[i]
		want := c.resolveType(p.typ)
		if a.loc == nil && a.t != nil && isNilT(a.t) {
			z := zeroVal(want)
			a = EV{t: want, l: z.l}
		}
		if a.loc != nil && a.st == nil {
			a.st = c.st
		}
		if p.typ == "int" || p.typ == "bool" {
			a = c.force(a)
		}
		_ = want
		n.env["\x00"+p.name] = a
	}
	return n.eval(m.body)
}

func isNilT(t types.Type) bool { b := basicOf(t); return b != nil && b.Kind() == types.UntypedNil }

// specApp applies a recursive spec function, adding its defining equation.
func (c *Ctx) specApp(m *Macro, args []EV) EV {
	var ts []*Term
	for i, a := range args {
		f := c.force(a)
		want := c.resolveType(m.params[i].typ)
		if len(f.l) != len(leaves(want)) {
			c.fail("argument %d of %s", i+1, m.name)
		}
		ts = append(ts, f.l...)
	}
	rt := c.resolveType(m.ret)
	t := mkApp("spec_"+m.name, leaves(rt)[0].sort, ts...)
	fuel := c.fuel
	if m.opaque {
		fuel = c.ofuel
	}
	if fuel > 0 && !t.hasBV {
		if c.v.unfolded == nil {
			c.v.unfolded = map[int]int{}
		}
		if c.v.unfolded[t.id] < fuel {
			c.v.unfolded[t.id] = fuel
			n := c.with(func(n *Ctx) {
				n.noLocals = true
				n.fr = nil
				n.fuel = fuel - 1
				n.ofuel = max(c.ofuel-1, 0)
				n.mode = 0
				n.pkg = nil
				n.st = &State{cells: map[cellKey]SV{}, regs: map[regKey]SV{}, heap: map[string]*Term{}, ghost: map[string]SV{}, pc: tTrue, alloc: c.v.alloc0}
			})
			n.env = map[string]EV{}
			for i, p := range m.params {
				n.env["\x00"+p.name] = c.force(args[i])
			}
			b := n.force(n.eval(m.body))
			termFacts[t.id] = []*Term{mkEq(t, b.l[0])}
		}
	}
	return EV{t: rt, l: []*Term{t}}
}

func (c *Ctx) call(e *Expr) EV {
	f := e.xs[0]
	args := e.xs[1:]
	if f.k == "sel" { // method-like or package-qualified: pkg.Type(x)? not supported
		c.fail("call of %s", f.s)
	}
	ev := func(i int) EV { return c.eval(args[i]) }
	in := func(i int) *Term { return c.Int(args[i]) }
	need := func(n int) {
		if len(args) != n {
			c.fail("%s wants %d arguments", f.s, n)
		}
	}
	switch f.s {
	case "old":
		need(1)
		if c.old == nil {
			c.fail("old outside a postcondition")
		}
		return c.at(c.old, args[0], true)
	case "pre":
		need(1)
		if c.pre == nil {
			c.fail("pre outside a loop")
		}
		return c.at(c.pre, args[0], false)
	case "head":
		need(1)
		if c.head == nil {
			c.fail("head outside a loop step")
		}
		return c.at(c.head, args[0], false)
	case "athead", "preloop": // in the state at the head of / before loop N
		need(2)
		n := 0
		fmt.Sscanf(args[0].s, "%d", &n)
		for i := len(c.v.allLoops) - 1; i >= 0; i-- {
			li := c.v.allLoops[i]
			if li.n == n && li.head != nil && !li.dryRun {
				st := li.head
				if f.s == "preloop" {
					st = li.pre
				}
				return c.with(func(n *Ctx) { n.fr = li.fr; n.hdr = li.loop.header }).at(st, args[1], false)
			}
		}
		c.fail("no loop %d before this point", n)
	case "len", "cap", "off":
		need(1)
		x := c.force(ev(0))
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			return intEV(x.l[map[string]int{"off": 1, "len": 2, "cap": 3}[f.s]])
		case *types.Array:
			return intEV(mkInt(u.Len()))
		case *types.Basic:
			return intEV(x.l[map[string]int{"off": 1, "len": 2, "cap": 2}[f.s]])
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return intEV(mkInt(a.Len()))
			}
		}
		c.fail("%s of %s", f.s, x.t)
	case "ref":
		need(1)
		x := ev(0)
		if x.loc != nil {
			if _, ok := x.t.Underlying().(*types.Array); ok {
				return intEV(x.loc.ref)
			}
		}
		x = c.force(x)
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			return intEV(x.l[1])
		}
		return intEV(x.l[0])
	case "idx":
		need(1)
		x := c.force(ev(0))
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			return intEV(x.l[2])
		}
		return intEV(x.l[1])
	case "addr": // address of a place as a pointer pair (ref only)
		need(1)
		x := ev(0)
		if x.loc == nil {
			c.fail("addr of a value")
		}
		return EV{t: types.NewPointer(x.t), l: []*Term{x.loc.ref, x.loc.idx}}
	case "fresh":
		need(1)
		x := c.force(ev(0))
		o := c.old
		if o == nil {
			c.fail("fresh without an old state")
		}
		r := x.l[0]
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			r = x.l[1]
		}
		return boolEV(mkGe(mkRoot(r), o.alloc))
	case "allocated":
		need(1)
		x := c.force(ev(0))
		return boolEV(mkLt(mkRoot(x.l[0]), c.st.alloc))
	case "root":
		need(1)
		x := ev(0)
		if x.loc != nil {
			if _, ok := x.t.Underlying().(*types.Array); ok {
				return intEV(mkRoot(x.loc.ref))
			}
		}
		x = c.force(x)
		if basicOf(x.t) == tyInt {
			return intEV(mkRoot(x.l[0]))
		}
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			return intEV(mkRoot(x.l[1]))
		}
		return intEV(mkRoot(x.l[0]))
	case "tag":
		need(1)
		return intEV(c.force(ev(0)).l[0])
	case "istype":
		if len(args) == 3 && args[2].s == "ptr" {
			return boolEV(mkEq(c.force(ev(0)).l[0], typeTag(types.NewPointer(c.resolveType(dotted(args[1]))))))
		}
		need(2)
		return boolEV(mkEq(c.force(ev(0)).l[0], typeTag(c.resolveType(dotted(args[1])))))
	case "asptr": // asptr(x, T): the *T in the interface value x
		need(2)
		x := c.force(ev(0))
		if _, ok := x.t.Underlying().(*types.Interface); !ok {
			c.fail("asptr of %s", x.t)
		}
		return EV{t: types.NewPointer(c.resolveType(dotted(args[1]))), l: []*Term{x.l[1], x.l[2]}}
	case "abs":
		need(1)
		x := in(0)
		return intEV(mkIte(mkLt(x, mkInt(0)), mkNeg(x), x))
	case "min", "max":
		r := in(0)
		for i := 1; i < len(args); i++ {
			x := in(i)
			if f.s == "min" {
				r = mkIte(mkLe(r, x), r, x)
			} else {
				r = mkIte(mkGe(r, x), r, x)
			}
		}
		return intEV(r)
	case "div":
		need(2)
		return intEV(mkDiv(in(0), in(1)))
	case "mod":
		need(2)
		return intEV(mkMod(in(0), in(1)))
	case "tdiv":
		need(2)
		return intEV(mkTDiv(in(0), in(1)))
	case "trem":
		need(2)
		return intEV(mkTRem(in(0), in(1)))
	case "pow2":
		need(1)
		return intEV(pow2Term(in(0)))
	case "band", "bor", "bxor":
		need(2)
		op := map[string]token.Token{"band": token.AND, "bor": token.OR, "bxor": token.XOR}[f.s]
		return intEV(intBinop(op, in(0), in(1), types.Typ[types.Int32]))
	case "wrap":
		need(2)
		return intEV(mkWrap(in(0), c.resolveType(args[1].s).Underlying().(*types.Basic)))
	case "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "goint":
		need(1)
		return intEV(mkWrap(in(0), goBasic[f.s].(*types.Basic)))
	case "upd":
		need(3)
		a := c.force(ev(0))
		x := c.force(ev(2))
		return EV{t: a.t, l: []*Term{mkStore(a.l[0], in(1), x.l[0])}}
	case "constarr":
		need(1)
		x := c.force(ev(0))
		if x.l[0].sort == SBool {
			return EV{t: tyArrB, l: []*Term{mkConstArr(x.l[0])}}
		}
		return EV{t: tyArr, l: []*Term{mkConstArr(x.l[0])}}
	case "row": // row(slice, field...) : the raw element array of a field
		x := c.force2(ev(0))
		var ref *Term
		var et types.Type
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			ref, et = c.force(x).l[0], u.Elem()
		case *types.Array:
			if x.loc == nil {
				return EV{t: tyArr, l: x.l[:1]}
			}
			ref, et = x.loc.ref, u.Elem()
		case *types.Basic:
			f := c.force(x)
			return EV{t: tyArr, l: []*Term{f.l[0]}}
		default:
			c.fail("row of %s", x.t)
		}
		st := x.st
		if st == nil {
			st = c.st
		}
		key := typeKey(et)
		for _, a := range args[1:] {
			key += "." + a.s
			s := et.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == a.s {
					et = s.Field(i).Type()
				}
			}
		}
		lf := leaves(et)[0]
		at := types.Type(tyArr)
		if lf.sort == SBool {
			at = tyArrB
		}
		return EV{t: at, l: []*Term{c.v.rowOf(st, key+lf.suf, lf.sort, ref)}}
	case "haskey":
		need(2)
		m := ev(0)
		st := m.st
		if st == nil {
			st = c.st
		}
		mt := m.t.Underlying().(*types.Map)
		mv := c.force(m)
		return boolEV(mkAnd(mkNot(mkEq(mv.l[0], mkInt(0))), mkSelect(c.v.rowOf(st, mapKey(mt)+".has", SBool, mv.l[0]), in(1))))
	case "deref":
		need(1)
		p := c.force(ev(0))
		pt := p.t.Underlying().(*types.Pointer)
		lc := derefLoc(pt.Elem(), p.l[0], p.l[1])
		return EV{t: pt.Elem(), loc: &lc, st: c.st}
	case "iter":
		need(1)
		n := 0
		fmt.Sscanf(args[0].s, "%d", &n)
		for _, li := range c.v.loopRecs {
			if li.n == n && li.ri != nil {
				if _, ok := c.st.cells[*li.ri]; ok {
					return c.iter(li)
				}
			}
		}
		for i := len(c.v.allLoops) - 1; i >= 0; i-- {
			li := c.v.allLoops[i]
			if li.n == n && li.ri != nil {
				if _, ok := c.st.cells[*li.ri]; ok {
					return c.iter(li)
				}
			}
		}
		c.fail("no range loop %d here", n)
	case "visited": // visited(n): the keys visited so far by the range loop n over a map
		need(1)
		n := 0
		fmt.Sscanf(args[0].s, "%d", &n)
		for i := len(c.v.allLoops) - 1; i >= 0; i-- {
			li := c.v.allLoops[i]
			if li.n != n {
				continue
			}
			for _, in := range li.loop.header.Instrs {
				if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
					if it, ok := c.st.regs[regKey{c.fr.id, nx.Iter}]; ok {
						return EV{t: tyArrB, l: []*Term{c.v.rowOf(c.st, "mapiter.visited", SBool, it.l[1])}}
					}
				}
			}
		}
		c.fail("no loop %d over a map here", n)
	case "strpos": // strpos(n): the position of the range loop n over a string
		need(1)
		n := 0
		fmt.Sscanf(args[0].s, "%d", &n)
		for i := len(c.v.allLoops) - 1; i >= 0; i-- {
			li := c.v.allLoops[i]
			if li.n != n {
				continue
			}
			for _, in := range li.loop.header.Instrs {
				if nx, ok := in.(*ssa.Next); ok && nx.IsString {
					if it, ok := c.st.regs[regKey{c.fr.id, nx.Iter}]; ok {
						return intEV(mkSelect(c.v.rowOf(c.st, "striter.pos", SInt, it.l[3]), mkInt(0)))
					}
				}
			}
		}
		c.fail("no loop %d over a string here", n)
	case "runeat", "runelen": // runeat(s, i), runelen(s, i): the character at a byte position of a string, and its length
		need(2)
		if f.s == "runeat" {
			return intEV(runeAt(SV{l: c.force(ev(0)).l}, in(1)))
		}
		return intEV(runeWidth(SV{l: c.force(ev(0)).l}, in(1)))
	case "unfold": // unfold(expr, n): evaluate with more fuel
		need(2)
		k := 0
		fmt.Sscanf(args[1].s, "%d", &k)
		return c.with(func(n *Ctx) { n.fuel, n.ofuel = k, k }).eval(args[0])
	case "f2":
		// opaque binary float ops by name: f2("fmul", a, b)
		return EV{t: types.Typ[types.Float64], l: []*Term{mkApp(args[0].s, SFlt, c.force(ev(1)).l[0], c.force(ev(2)).l[0])}}
	case "i2f":
		return EV{t: types.Typ[types.Float64], l: []*Term{mkApp("i2f", SFlt, in(0))}}
	case "f2i":
		t := mkApp("f2i64true", SInt, c.force(ev(0)).l[0])
		lo, hi, _, _ := intRange(types.Typ[types.Int])
		declareRange(t, lo, hi)
		return intEV(t)
	case "f2i32":
		t := mkApp("f2i32true", SInt, c.force(ev(0)).l[0])
		lo, hi, _, _ := intRange(types.Typ[types.Int32])
		declareRange(t, lo, hi)
		return intEV(t)
	case "f2iu16":
		t := mkApp("f2i16false", SInt, c.force(ev(0)).l[0])
		lo, hi, _, _ := intRange(types.Typ[types.Uint16])
		declareRange(t, lo, hi)
		return intEV(t)
	case "feq":
		return boolEV(mkApp("feq", SBool, c.force(ev(0)).l[0], c.force(ev(1)).l[0]))
	case "flt":
		return boolEV(mkApp("flt", SBool, c.force(ev(0)).l[0], c.force(ev(1)).l[0]))
	case "fconst":
		if args[0].s == "0" {
			return EV{t: types.Typ[types.Float64], l: []*Term{mkVar("flt_zero", SFlt)}}
		}
		return EV{t: types.Typ[types.Float64], l: []*Term{mkVar("flt_"+sanitize(args[0].s), SFlt)}}
	}
	if m, ok := c.v.cs.macros[f.s]; ok {
		var as []EV
		for i := range args {
			as = append(as, ev(i))
		}
		return c.callMacro(m, as)
	}
	if p, ok := c.lookupUninterp(f.s); ok {
		var ts []*Term
		for i := range args {
			ts = append(ts, c.force(ev(i)).l...)
		}
		return EV{t: p, l: []*Term{mkApp("u_"+f.s, leaves(p)[0].sort, ts...)}}
	}
	c.fail("unknown function %s", f.s)
	return EV{}
}

// names starting with u_ are uninterpreted integer functions; ub_ boolean ones.
func (c *Ctx) lookupUninterp(n string) (types.Type, bool) {
	if strings.HasPrefix(n, "u_") {
		return tyInt, true
	}
	if strings.HasPrefix(n, "ub_") {
		return tyBool, true
	}
	return nil, false
}

// dotted is the type an expression spells: T, pkg.T or *pkg.T.
func dotted(e *Expr) string {
	switch {
	case e.k == "sel":
		return dotted(e.xs[0]) + "." + e.s
	case e.k == "un" && e.s == "*":
		return "*" + dotted(e.xs[0])
	}
	return e.s
}

func (c *Ctx) force2(e EV) EV { return e }

// at evaluates e in another state. Local names keep meaning the same
// variables, read in that state.
func (c *Ctx) at(st *State, e *Expr, isOld bool) EV {
	n := c.with(func(n *Ctx) {
		n.st = st
		if isOld {
			n.noLocals = true // parameters by entry value
		}
	})
	// facts learnt go to the current state
	tmp := *st
	tmp.facts = nil
	tmp.pc = tTrue
	n.st = &tmp
	// places bound by let are read in that state too
	copied := false
	for k, b := range c.env {
		if b.loc != nil && b.st == c.st {
			if !copied {
				m := make(map[string]EV, len(c.env))
				for k, b := range c.env {
					m[k] = b
				}
				n.env, copied = m, true
			}
			b.st = &tmp
			n.env[k] = b
		}
	}
	x := n.eval(e)
	if x.loc != nil {
		x.st = st
		x = n.force(x)
	}
	for _, f := range collectFacts(tmp.facts) {
		c.st.assume(f)
	}
	return x
}
