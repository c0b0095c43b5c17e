package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- contract expressions

type Expr struct {
	k    string // num, id, bin, un, call, sel, idx, slice, quant, let, cond, str
	s    string
	xs   []*Expr
	vars []Param
	trig [][]*Expr
	line string
}

type Param struct{ name, typ string }

type tok struct {
	k, s string
	pos  int
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_') {
				j++
			}
			out = append(out, tok{"num", src[i:j], i})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_' || src[j] == '#') {
				j++
			}
			out = append(out, tok{"id", src[i:j], i})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], i})
			i = j + 1
		case c == '\'':
			out = append(out, tok{"num", strconv.Itoa(int(src[i+1])), i})
			i += 3
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "::", ":="} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op, i})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				if !strings.ContainsRune("+-*/%<>!()[]{}.,:?;=&|", rune(c)) {
					return nil, fmt.Errorf("bad character %q in %q", c, src)
				}
				out = append(out, tok{"op", string(c), i})
				i++
			}
		}
	}
	return append(out, tok{"eof", "", i}), nil
}

type eparser struct {
	ts  []tok
	i   int
	src string
}

func (p *eparser) peek() tok { return p.ts[p.i] }
func (p *eparser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *eparser) is(s string) bool {
	t := p.ts[p.i]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *eparser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *eparser) want(s string) {
	if !p.eat(s) {
		panic(fmt.Errorf("expected %q at %q in %q", s, p.src[p.peek().pos:], p.src))
	}
}

func parseExpr(src string) (e *Expr, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &eparser{ts: ts, src: src}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing text %q in %q", src[p.peek().pos:], src)
	}
	e.line = src
	return e, nil
}

func parseExprList(src string) ([]*Expr, error) {
	e, err := parseExpr("f(" + src + ")")
	if err != nil {
		return nil, err
	}
	return e.xs[1:], nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9, "<<": 9, ">>": 9, "&": 9, "|": 8}

func (p *eparser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			break
		}
		if t.s == "?" && min <= 3 {
			p.next()
			a := p.expr(3)
			p.want(":")
			b := p.expr(3)
			l = &Expr{k: "cond", xs: []*Expr{l, a, b}}
			continue
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			break
		}
		p.next()
		if pr == 6 { // chained comparisons
			r := p.expr(7)
			cur := &Expr{k: "bin", s: t.s, xs: []*Expr{l, r}}
			for p.peek().k == "op" && prec[p.peek().s] == 6 {
				o := p.next()
				r2 := p.expr(7)
				cur = &Expr{k: "bin", s: "&&", xs: []*Expr{cur, {k: "bin", s: o.s, xs: []*Expr{r, r2}}}}
				r = r2
			}
			l = cur
			continue
		}
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		l = &Expr{k: "bin", s: t.s, xs: []*Expr{l, r}}
	}
	return l
}

func (p *eparser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "-" || t.s == "!") {
		p.next()
		return &Expr{k: "un", s: t.s, xs: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *eparser) typ() string {
	// a type: sequence of * [] id . id
	s := ""
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]") {
			s += t.s
			p.next()
			continue
		}
		if t.k == "id" || t.k == "num" && strings.HasSuffix(s, "[") {
			s += t.s
			p.next()
			if p.is(".") {
				p.next()
				s += "." + p.next().s
			}
			if t.k == "num" {
				continue
			}
			return s
		}
		panic(fmt.Errorf("bad type at %q in %q", p.src[t.pos:], p.src))
	}
}

func (p *eparser) params(end string) []Param {
	var ps []Param
	for !p.is(end) {
		n := p.next()
		ty := "int"
		if !p.is(",") && !p.is(end) && !p.is("{") {
			ty = p.typ()
		}
		ps = append(ps, Param{n.s, ty})
		if !p.eat(",") {
			break
		}
	}
	return ps
}

func (p *eparser) primary() *Expr {
	t := p.next()
	switch {
	case t.k == "num":
		return &Expr{k: "num", s: t.s}
	case t.k == "str":
		return &Expr{k: "str", s: t.s}
	case t.k == "op" && t.s == "(":
		e := p.expr(0)
		p.want(")")
		return &Expr{k: "paren", xs: []*Expr{e}}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		e := &Expr{k: "quant", s: t.s}
		e.vars = p.params("::")
		for p.eat("{") {
			var tr []*Expr
			for !p.is("}") {
				tr = append(tr, p.expr(0))
				if !p.eat(",") {
					break
				}
			}
			p.want("}")
			e.trig = append(e.trig, tr)
		}
		p.want("::")
		e.xs = []*Expr{p.expr(0)}
		return e
	case t.k == "id" && t.s == "let":
		n := p.next()
		p.want("=")
		x := p.expr(0)
		p.want(";")
		b := p.expr(0)
		return &Expr{k: "let", s: n.s, xs: []*Expr{x, b}}
	case t.k == "id":
		return &Expr{k: "id", s: t.s}
	}
	panic(fmt.Errorf("unexpected %q at %q in %q", t.s, p.src[t.pos:], p.src))
}

func (p *eparser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.next()
			if p.eat("*") {
				e = &Expr{k: "sel", s: "*", xs: []*Expr{e}}
				continue
			}
			t := p.next()
			e = &Expr{k: "sel", s: t.s, xs: []*Expr{e}}
		case p.is("["):
			p.next()
			x := p.expr(0)
			p.want("]")
			e = &Expr{k: "idx", xs: []*Expr{e, x}}
		case p.is("("):
			p.next()
			c := &Expr{k: "call", xs: []*Expr{e}}
			for !p.is(")") {
				c.xs = append(c.xs, p.expr(0))
				if !p.eat(",") {
					break
				}
			}
			p.want(")")
			e = c
		default:
			return e
		}
	}
}

func (e *Expr) String() string {
	if e.line != "" {
		return e.line
	}
	return e.k + ":" + e.s
}

// ---- contract files

type Clause struct {
	tags []string
	e    *Expr
	text string
	name string
}

type LoopSpec struct {
	n        int
	inv      []Clause
	dec      []*Expr
	step     []Clause
	exit     []Clause
	sets     []SetClause
	uses     []UseClause
	modifies []Clause
	noterm   bool
	notermIn []string // the properties it is for; all if empty
	cut      bool     // forget how nonlinear values were computed before the loop
}

type SetClause struct {
	name string
	e    *Expr
	text string
}

type UseClause struct {
	e     *Expr
	where string // "head", "end", "entry", "return", "init"
	hint  bool   // a fact to check and then use, where its names are known
	tags  []string
	text  string
	n     int
}

type OnCall struct {
	callee   string
	args     []string
	requires []Clause
	sets     []SetClause
	presets  []SetClause // before the call
	ensures  []Clause
	uses     []UseClause
}

type FuncContract struct {
	name            string
	params, results []string
	requires        []Clause
	ensures         []Clause
	modifies        []Clause
	decreases       []*Expr
	loops           map[int]*LoopSpec
	oncalls         []*OnCall
	uses            []UseClause
	sets            []SetClause // ghost assignments at return
	props           []string
	split           bool
	extern          bool
	allocates       bool
	pure            bool
	trusted         string
	inline          bool
	noterm          bool
	notermIn        []string
	nilable         map[string]bool
	file            string
	line            int
	opts            map[string]string
}

type Macro struct {
	name   string
	params []Param
	ret    string
	body   *Expr
	opaque bool // unfolded by unfold() only
	rec    bool // spec function (uninterpreted with unfolding)
	fuel   int
	file   string
}

type Lemma struct {
	name     string
	params   []Param
	requires []Clause
	ensures  []Clause
	uses     []UseClause
	induct   *Expr
	axiom    bool
	props    []string
	file     string
	split    bool
	order    int
	used     map[string]bool
}

type GhostVar struct{ name, typ string }

type Contracts struct {
	funcs  map[string]*FuncContract
	macros map[string]*Macro
	lemmas map[string]*Lemma
	ghosts map[string]GhostVar
	order  []string
	lorder []string
}

var clauseKw = map[string]bool{"func": true, "extern": true, "iface": true, "pred": true, "def": true, "spec": true, "opaque": true, "lemma": true, "axiom": true, "ghost": true,
	"requires": true, "ensures": true, "modifies": true, "decreases": true, "loop": true, "invariant": true, "oncall": true, "set": true, "setpre": true, "use": true,
	"props": true, "split": true, "allocates": true, "pure": true, "trusted": true, "nilable": true, "inline": true, "step": true, "exit": true, "induct": true, "opt": true, "noterm": true, "end": true, "cut": true, "hint": true}

func loadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{funcs: map[string]*FuncContract{}, macros: map[string]*Macro{}, lemmas: map[string]*Lemma{}, ghosts: map[string]GhostVar{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := cs.parseFile(f, string(b)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return cs, nil
}

type rawClause struct {
	kw, rest string
	tags     []string
	line     int
}

func splitClauses(src string) []rawClause {
	var out []rawClause
	for ln, line := range strings.Split(src, "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		w := t
		for i, r := range t {
			if !(unicode.IsLetter(r)) {
				w = t[:i]
				break
			}
		}
		if clauseKw[w] && (len(w) == len(t) || t[len(w)] == ' ' || t[len(w)] == '[') {
			rest := t[len(w):]
			var tags []string
			if strings.HasPrefix(rest, "[") {
				j := strings.Index(rest, "]")
				tags = strings.FieldsFunc(rest[1:j], func(r rune) bool { return r == ' ' || r == ',' })
				rest = rest[j+1:]
			}
			out = append(out, rawClause{w, strings.TrimSpace(rest), tags, ln + 1})
			continue
		}
		if len(out) == 0 {
			out = append(out, rawClause{"?", t, nil, ln + 1})
			continue
		}
		out[len(out)-1].rest += " " + t
	}
	return out
}

// parseHead parses "name(a, b) (r, s)" .
func parseHead(s string) (name string, params, results []string, err error) {
	// name may contain parentheses: raster.(*Rasterizer).findCell(r) (res)
	i := 0
	depth := 0
	start := -1
	for i < len(s) {
		c := s[i]
		if c == '(' {
			if i > 0 && s[i-1] == '.' { // receiver type
				j := strings.IndexByte(s[i:], ')')
				i += j + 1
				continue
			}
			start = i
			break
		}
		i++
	}
	_ = depth
	if start < 0 {
		return strings.TrimSpace(s), nil, nil, nil
	}
	name = strings.TrimSpace(s[:start])
	j := strings.IndexByte(s[start:], ')')
	if j < 0 {
		return "", nil, nil, fmt.Errorf("bad head %q", s)
	}
	split := func(x string) []string {
		var r []string
		for _, f := range strings.Split(x, ",") {
			if f = strings.TrimSpace(f); f != "" {
				r = append(r, f)
			}
		}
		return r
	}
	params = split(s[start+1 : start+j])
	rest := strings.TrimSpace(s[start+j+1:])
	if strings.HasPrefix(rest, "(") {
		k := strings.IndexByte(rest, ')')
		results = split(rest[1:k])
	}
	return
}

func (cs *Contracts) parseFile(file, src string) error {
	var fc *FuncContract
	var lp *LoopSpec
	var oc *OnCall
	var lm *Lemma
	var fileTags []string
	_ = fileTags
	for _, c := range splitClauses(src) {
		bad := func(err error) error { return fmt.Errorf("line %d: %v", c.line, err) }
		mkc := func() (Clause, error) {
			e, err := parseExpr(c.rest)
			return Clause{c.tags, e, c.rest, ""}, err
		}
		switch c.kw {
		case "func", "extern", "iface":
			name, ps, rs, err := parseHead(c.rest)
			if err != nil {
				return bad(err)
			}
			if c.kw == "iface" {
				name = "iface " + name
			}
			fc = &FuncContract{name: name, params: ps, results: rs, loops: map[int]*LoopSpec{}, nilable: map[string]bool{}, file: filepath.Base(file), line: c.line, opts: map[string]string{}}
			fc.extern = c.kw != "func"
			if _, dup := cs.funcs[name]; dup {
				return bad(fmt.Errorf("duplicate contract for %s", name))
			}
			cs.funcs[name] = fc
			cs.order = append(cs.order, name)
			lp, oc, lm = nil, nil, nil
		case "ghost":
			f := strings.Fields(c.rest)
			cs.ghosts[f[0]] = GhostVar{f[0], f[1]}
		case "pred", "def", "spec", "opaque":
			// name(params) type = body
			eq := strings.Index(c.rest, " = ")
			if eq < 0 {
				return bad(fmt.Errorf("no = in %q", c.rest))
			}
			ts, err := lex(c.rest[:eq])
			if err != nil {
				return bad(err)
			}
			p := &eparser{ts: ts, src: c.rest[:eq]}
			m := &Macro{rec: c.kw == "spec" || c.kw == "opaque", opaque: c.kw == "opaque", file: filepath.Base(file), ret: "bool"}
			m.name = p.next().s
			p.want("(")
			m.params = p.params(")")
			p.want(")")
			if p.peek().k != "eof" {
				m.ret = p.typ()
			} else if c.kw != "pred" {
				m.ret = "int"
			}
			m.body, err = parseExpr(c.rest[eq+3:])
			if err != nil {
				return bad(err)
			}
			if m.rec {
				if err := m.checkRec(); err != nil {
					return bad(err)
				}
			}
			if _, dup := cs.macros[m.name]; dup {
				return bad(fmt.Errorf("duplicate %s", m.name))
			}
			cs.macros[m.name] = m
		case "lemma", "axiom":
			ts, err := lex(c.rest)
			if err != nil {
				return bad(err)
			}
			p := &eparser{ts: ts, src: c.rest}
			lm = &Lemma{axiom: c.kw == "axiom", file: filepath.Base(file), props: c.tags}
			lm.name = p.next().s
			p.want("(")
			lm.params = p.params(")")
			p.want(")")
			if cs.lemmas[lm.name] != nil {
				return bad(fmt.Errorf("duplicate lemma %s", lm.name))
			}
			lm.order = len(cs.lorder)
			cs.lemmas[lm.name] = lm
			cs.lorder = append(cs.lorder, lm.name)
			fc, lp, oc = nil, nil, nil
		case "requires", "ensures":
			cl, err := mkc()
			if err != nil {
				return bad(err)
			}
			switch {
			case lm != nil && c.kw == "requires":
				lm.requires = append(lm.requires, cl)
			case lm != nil:
				lm.ensures = append(lm.ensures, cl)
			case oc != nil && c.kw == "requires":
				oc.requires = append(oc.requires, cl)
			case oc != nil:
				return bad(fmt.Errorf("an ensures clause cannot follow oncall"))
			case fc == nil:
				return bad(fmt.Errorf("clause outside a contract"))
			case c.kw == "requires":
				fc.requires = append(fc.requires, cl)
			default:
				fc.ensures = append(fc.ensures, cl)
			}
		case "modifies":
			es, err := parseExprList(c.rest)
			if err != nil {
				return bad(err)
			}
			for _, e := range es {
				cl := Clause{c.tags, e, c.rest, ""}
				if lp != nil {
					lp.modifies = append(lp.modifies, cl)
				} else {
					fc.modifies = append(fc.modifies, cl)
				}
			}
		case "decreases":
			es, err := parseExprList(c.rest)
			if err != nil {
				return bad(err)
			}
			if lp != nil {
				lp.dec = es
			} else {
				fc.decreases = es
			}
		case "loop":
			n, err := strconv.Atoi(strings.TrimSpace(c.rest))
			if err != nil {
				return bad(err)
			}
			lp = &LoopSpec{n: n}
			fc.loops[n] = lp
			oc = nil
		case "invariant", "step", "exit":
			cl, err := mkc()
			if err != nil {
				return bad(err)
			}
			if lp == nil {
				return bad(fmt.Errorf("invariant outside a loop"))
			}
			if c.kw == "exit" {
				lp.exit = append(lp.exit, cl)
			} else if c.kw == "step" {
				lp.step = append(lp.step, cl)
			} else {
				lp.inv = append(lp.inv, cl)
			}
		case "oncall":
			name, ps, _, err := parseHead(c.rest)
			if err != nil {
				return bad(err)
			}
			oc = &OnCall{callee: name, args: ps}
			fc.oncalls = append(fc.oncalls, oc)
			lp = nil
		case "end":
			lp, oc = nil, nil
		case "set", "setpre":
			eq := strings.Index(c.rest, "=")
			e, err := parseExpr(c.rest[eq+1:])
			if err != nil {
				return bad(err)
			}
			s := SetClause{strings.TrimSpace(c.rest[:eq]), e, c.rest}
			if c.kw == "setpre" {
				if oc == nil {
					return bad(fmt.Errorf("setpre outside oncall"))
				}
				oc.presets = append(oc.presets, s)
			} else if oc != nil {
				oc.sets = append(oc.sets, s)
			} else if lp != nil {
				lp.sets = append(lp.sets, s)
			} else {
				fc.sets = append(fc.sets, s)
			}
		case "use", "hint":
			rest, where := c.rest, "return"
			if i := strings.LastIndex(rest, " at "); i >= 0 {
				rest, where = rest[:i], strings.TrimSpace(rest[i+4:])
			} else if lp != nil {
				where = "end"
			}
			e, err := parseExpr(rest)
			if err != nil {
				return bad(err)
			}
			u := UseClause{e: e, where: where, hint: c.kw == "hint", tags: c.tags, text: rest}
			switch {
			case lm != nil:
				lm.uses = append(lm.uses, u)
			case oc != nil:
				oc.uses = append(oc.uses, u)
			case lp != nil:
				lp.uses = append(lp.uses, u)
			default:
				fc.uses = append(fc.uses, u)
			}
		case "induct":
			e, err := parseExpr(c.rest)
			if err != nil {
				return bad(err)
			}
			lm.induct = e
		case "props":
			if lm != nil {
				lm.props = strings.Fields(c.rest)
			} else {
				fc.props = strings.Fields(c.rest)
			}
		case "split":
			if lm != nil {
				lm.split = true
			} else {
				fc.split = true
			}
		case "allocates":
			fc.allocates = true
		case "pure":
			fc.pure = true
		case "inline":
			fc.inline = true
		case "cut":
			if lp == nil {
				return bad(fmt.Errorf("cut belongs to a loop"))
			}
			lp.cut = true
		case "noterm":
			if lp != nil {
				lp.noterm = true
				lp.notermIn = strings.Fields(c.rest)
			} else {
				fc.noterm = true
				fc.notermIn = strings.Fields(c.rest)
			}
		case "trusted":
			fc.trusted = c.rest
			if fc.trusted == "" {
				fc.trusted = "trusted"
			}
		case "nilable":
			for _, n := range strings.Split(c.rest, ",") {
				fc.nilable[strings.TrimSpace(n)] = true
			}
		case "opt":
			f := strings.SplitN(c.rest, " ", 2)
			v := "1"
			if len(f) > 1 {
				v = f[1]
			}
			fc.opts[f[0]] = v
		default:
			return bad(fmt.Errorf("unexpected %q %q", c.kw, c.rest))
		}
	}
	return nil
}

func (c Clause) active(prop string) bool {
	if len(c.tags) == 0 || prop == "" {
		return true
	}
	for _, t := range c.tags {
		if t == prop {
			return true
		}
	}
	return false
}

func inProps(l []string, prop string) bool {
	return len(l) == 0 || Clause{tags: l}.active(prop) && prop != ""
}

// checkRec makes sure that a recursive spec function is well founded: its body
// is P <= c ? base : step (or P < c), with recursive calls only in step and
// always at P - k for a constant k > 0; and that it depends on its arguments only.
func (m *Macro) checkRec() error {
	for _, p := range m.params {
		switch p.typ {
		case "int", "bool", "arr", "arrb":
		default:
			return fmt.Errorf("spec %s: parameter %s must be int, bool or arr", m.name, p.name)
		}
	}
	strip := func(e *Expr) *Expr {
		for e.k == "paren" {
			e = e.xs[0]
		}
		return e
	}
	var calls func(e *Expr) []*Expr
	calls = func(e *Expr) []*Expr {
		var r []*Expr
		if e.k == "call" && e.xs[0].k == "id" && e.xs[0].s == m.name {
			r = append(r, e)
		}
		for _, x := range e.xs {
			r = append(r, calls(x)...)
		}
		return r
	}
	all := calls(m.body)
	if len(all) == 0 {
		return nil
	}
	b := strip(m.body)
	bad := fmt.Errorf("spec %s: recursion is not of the form  n <= c ? base : step(n - k)", m.name)
	if b.k != "cond" {
		return bad
	}
	c := strip(b.xs[0])
	if c.k != "bin" || (c.s != "<=" && c.s != "<") || c.xs[0].k != "id" || strip(c.xs[1]).k != "num" {
		return bad
	}
	pi := -1
	for i, p := range m.params {
		if p.name == c.xs[0].s {
			pi = i
		}
	}
	if pi < 0 || len(calls(b.xs[0])) > 0 || len(calls(b.xs[1])) > 0 {
		return bad
	}
	for _, x := range all {
		a := strip(x.xs[1+pi])
		if a.k != "bin" || a.s != "-" || strip(a.xs[0]).k != "id" || strip(a.xs[0]).s != c.xs[0].s || strip(a.xs[1]).k != "num" || strip(a.xs[1]).s == "0" {
			return bad
		}
	}
	return nil
}
