package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- queries

type query struct {
	text   string
	nfacts int
}

// polarity-aware strengthening: typing ranges of terms under quantifiers.
type ranger struct {
	cache map[[2]int]*Term
}

func hasQuant(t *Term, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t.op == OForall || t.op == OExists
	if !r {
		for _, a := range t.args {
			if hasQuant(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t.id] = r
	return r
}

var quantMemo = map[int]bool{}

func (rg *ranger) do(t *Term, pol int) *Term {
	if t.sort != SBool || !hasQuant(t, quantMemo) {
		return t
	}
	k := [2]int{t.id, pol}
	if r, ok := rg.cache[k]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case ONot:
		r = mkNot(rg.do(t.args[0], -pol))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rg.do(a, pol)
		}
		if t.op == OAnd {
			r = mkAnd(as...)
		} else {
			r = mkOr(as...)
		}
	case OIte:
		r = mkIte(rg.do(t.args[0], 0), rg.do(t.args[1], pol), rg.do(t.args[2], pol))
	case OEq:
		r = mkEq(rg.do(t.args[0], 0), rg.do(t.args[1], 0))
	case OForall, OExists:
		body := rg.do(t.args[0], pol)
		rs := bvRanges(t)
		p := pol
		if t.op == OExists {
			p = -p
		}
		if len(rs) > 0 && pol != 0 {
			if pol > 0 {
				body = mkAnd(append([]*Term{body}, rs...)...)
			} else {
				body = mkImp(mkAnd(rs...), body)
			}
		}
		r = mkQuant(t.op, t.bvars, body, t.pats)
	default:
		r = t
	}
	rg.cache[k] = r
	return r
}

func rawLe(a, b *Term) *Term { return mk(&Term{op: OLe, args: []*Term{a, b}, sort: SBool}) }

func rangeFacts(t *Term) []*Term {
	r, ok := declRange[t.id]
	if !ok {
		return nil
	}
	var out []*Term
	if r[0] != nil {
		out = append(out, rawLe(mkBig(r[0]), t))
	}
	if r[1] != nil {
		out = append(out, rawLe(t, mkBig(r[1])))
	}
	return out
}

// bvRanges lists the declared ranges of terms in the body that mention only the
// variables bound by q (and ground symbols).
func bvRanges(q *Term) []*Term {
	bound := map[int]bool{}
	for _, v := range q.bvars {
		bound[v.id] = true
	}
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || !t.hasBV {
			return
		}
		seen[t.id] = true
		if t.op == OForall || t.op == OExists {
			return
		}
		if t.sort == SInt {
			if rf := rangeFacts(t); rf != nil {
				fv := map[int]*Term{}
				freeBV(t, fv, map[int]bool{})
				ok := true
				for id := range fv {
					if !bound[id] {
						ok = false
					}
				}
				if ok {
					out = append(out, rf...)
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q.args[0])
	return out
}

// buildQuery prints the query whose unsatisfiability proves the obligation.
func buildQuery(o *Oblig) query {
	rg := &ranger{map[[2]int]*Term{}}
	var asserts []*Term
	seenA := map[int]bool{}
	add := func(t *Term) {
		if t == tTrue || seenA[t.id] {
			return
		}
		seenA[t.id] = true
		asserts = append(asserts, t)
	}
	for _, f := range collectFacts(o.facts) {
		add(rg.do(f, 1))
	}
	if o.v != nil {
		for _, f := range o.v.entryFacts {
			add(rg.do(f, 1))
		}
	}
	for _, f := range o.extra {
		add(rg.do(f, 1))
	}
	for _, c := range conjuncts(o.pc) {
		add(rg.do(c, 1))
	}
	if !o.cover {
		// split a negated disjunction into its parts
		ng := rg.do(mkNot(o.goal), 1)
		for _, c := range conjuncts(ng) {
			add(c)
		}
		if o.goal.op == OOr {
			for _, d := range o.goal.args {
				add(rg.do(mkNot(d), 1))
			}
		}
	}
	nf := len(asserts)
	// closure of side facts
	refs := map[int]int{}
	var order []*Term
	usesFun := map[string]bool{}
	vars := map[int]*Term{}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		switch t.op {
		case OVar:
			vars[t.id] = t
		case OApp:
			usesFun[t.name] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
		order = append(order, t)
	}
	for i := 0; i < len(asserts); i++ {
		n0 := len(order)
		visit(asserts[i])
		for _, t := range order[n0:] {
			if t.hasBV {
				continue
			}
			for _, f := range termFacts[t.id] {
				add(rg.do(f, 1))
			}
			if t.sort == SInt && t.op != OConst {
				for _, f := range rangeFacts(t) {
					add(f)
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n(declare-sort Flt 0)\n")
	// functions (definitions may use other functions: keep the registration order)
	need := map[string]bool{}
	var mark func(n string)
	mark = func(n string) {
		if need[n] {
			return
		}
		need[n] = true
		sig := funSigs[n]
		if strings.HasPrefix(sig, "(define-fun") {
			for _, m := range funOrder {
				if m != n && strings.Contains(sig, m) {
					mark(m)
				}
			}
		}
	}
	for f := range usesFun {
		mark(f)
	}
	if absMode > 0 {
		b.WriteString("(declare-fun nl!mul (Int Int) Int)\n(declare-fun nl!div (Int Int) Int)\n(declare-fun nl!mod (Int Int) Int)\n")
	}
	for _, f := range funOrder {
		if !need[f] {
			continue
		}
		if absMode > 1 && strings.HasPrefix(f, "wrapU") {
			b.WriteString("(declare-fun " + f + " (Int) Int)\n")
		} else {
			b.WriteString(funSigs[f] + "\n")
		}
	}
	vs := make([]*Term, 0, len(vars))
	for _, v := range vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", v.name, v.sort)
	}
	names := map[int]string{}
	n := 0
	// The closed parts of patterns that are no terms for a solver's matching, being conditional, become constants.
	inPat := map[int]bool{}
	var patPart func(t *Term)
	patPart = func(t *Term) {
		if !t.hasBV && len(t.args) > 0 {
			if hasIte(t, map[int]bool{}) {
				inPat[t.id] = true
			}
			return
		}
		for _, a := range t.args {
			patPart(a)
		}
	}
	for _, t := range order {
		for _, p := range t.pats {
			for _, x := range p {
				patPart(x)
			}
		}
	}
	for _, t := range order {
		if t.hasBV || len(t.args) == 0 || refs[t.id] < 2 && !inPat[t.id] {
			continue
		}
		if t.size < 4 && !inPat[t.id] {
			continue
		}
		n++
		nm := fmt.Sprintf("d!%d", n)
		if inPat[t.id] {
			b.WriteString("(declare-const " + nm + " " + string(t.sort) + ")\n(assert (= " + nm + " ")
			t.write(&b, names)
			b.WriteString("))\n")
			names[t.id] = nm
			continue
		}
		b.WriteString("(define-fun " + nm + " () " + string(t.sort) + " ")
		t.write(&b, names)
		b.WriteString(")\n")
		names[t.id] = nm
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		a.write(&b, names)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return query{b.String(), nf}
}

// hasIte reports whether t has a conditional or a logical connective in it.
func hasIte(t *Term, seen map[int]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	switch t.op {
	case OIte, OAnd, OOr, ONot, OEq, OLe, OLt:
		return true
	}
	for _, a := range t.args {
		if hasIte(a, seen) {
			return true
		}
	}
	return false
}

// ---- solvers

type solverCfg struct {
	name string
	abs  int // which printing of the query
	args func(file string, sec int) []string
}

func z3cfg(name, bin string, abs int, opts ...string) solverCfg {
	return solverCfg{name, abs, func(f string, sec int) []string {
		return append(append([]string{bin, fmt.Sprintf("-T:%d", sec), "-memory:3000"}, opts...), f)
	}}
}

func absFile(f string, abs int) string {
	if abs == 0 {
		return f
	}
	return strings.TrimSuffix(f, ".smt2") + fmt.Sprintf("-abs%d.smt2", abs)
}

var ematch = []string{"auto_config=false", "smt.mbqi=false", "smt.qi.eager_threshold=100"}

var (
	sZ3New = z3cfg("z3-5.2", "z3-new", 0)
	sCvc5  = solverCfg{"cvc5", 0, func(f string, sec int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--arrays-exp", "--nl-ext-tplanes", f}
	}}
	cfgShort = []solverCfg{
		z3cfg("z3-5.2", "z3-new", 1),
		z3cfg("z3-5.2", "z3-new", 2),
		z3cfg("z3-5.2/ematch", "z3-new", 1, append([]string{"smt.random_seed=1"}, ematch...)...),
		z3cfg("z3-5.2", "z3-new", 0, "smt.random_seed=6"),
		z3cfg("z3-5.2/arith2", "z3-new", 0, "smt.arith.solver=2"),
		z3cfg("z3-5.2/ematch", "z3-new", 0, append([]string{"smt.random_seed=4"}, ematch...)...),
		z3cfg("z3-4.8", "z3", 0, "smt.random_seed=1"),
		sCvc5,
	}
	cfgLong = append([]solverCfg{
		sZ3New,
		z3cfg("z3-4.8", "z3", 1),
		z3cfg("z3-5.2/ematch", "z3-new", 2, append([]string{"smt.random_seed=2"}, ematch...)...),
		z3cfg("z3-5.2", "z3-new", 0, "smt.random_seed=2", "auto_config=false", "smt.case_split=3"),
		z3cfg("z3-5.2", "z3-new", 1, "smt.random_seed=3"),
		z3cfg("z3-5.2/arith2", "z3-new", 1, "smt.arith.solver=2", "smt.random_seed=5"),
		z3cfg("z3-4.8", "z3", 0, "smt.random_seed=3"),
		z3cfg("z3-5.2/ematch", "z3-new", 1, append([]string{"smt.random_seed=5"}, ematch...)...),
	}, cfgShort...)
)

type solveResult struct {
	res    string
	solver string
	ms     int64
}

func runSolver(ctx context.Context, s solverCfg, file string, sec int) solveResult {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	a := s.args(absFile(file, s.abs), sec)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	res := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			res = "error: " + l
			break
		}
	}
	if s.abs > 0 && res == "sat" {
		res = "unknown"
	}
	return solveResult{res, s.name, time.Since(t0).Milliseconds()}
}

var solverStats = struct {
	sync.Mutex
	ms map[string]int64
	n  map[string]int
}{ms: map[string]int64{}, n: map[string]int{}}

func race(ctx context.Context, cfgs []solverCfg, file string, sec int) solveResult {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan solveResult, len(cfgs))
	for _, s := range cfgs {
		s := s
		go func() { ch <- runSolver(ctx, s, file, sec) }()
	}
	best := solveResult{res: "unknown", solver: "all"}
	for range cfgs {
		r := <-ch
		solverStats.Lock()
		solverStats.ms[r.solver] += r.ms
		solverStats.Unlock()
		if r.res == "unsat" || r.res == "sat" {
			return r
		}
		if strings.HasPrefix(r.res, "error") && best.res == "unknown" {
			best = r
		}
	}
	return best
}

// syntactic proof: the goal is among the facts.
func trivially(o *Oblig) bool {
	if o.cover {
		return false
	}
	fs := map[int]bool{}
	for _, f := range collectFacts(o.facts) {
		for _, c := range conjuncts(f) {
			fs[c.id] = true
		}
	}
	for _, c := range conjuncts(o.pc) {
		fs[c.id] = true
	}
	for _, g := range conjuncts(o.goal) {
		if !fs[g.id] && !fs[mkImp(o.pc, g).id] {
			ok := false
			if g.op == OOr {
				for _, d := range g.args {
					if fs[d.id] {
						ok = true
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

type solveOpts struct {
	quick, slow int // seconds
	workers     int
	dir         string
	keep        bool
	failFast    bool // stop after the first failures
	budget      time.Duration
}

var procStart = time.Now()

func solveAll(obs []*Oblig, so solveOpts) {
	var todo []*Oblig
	var mu sync.Mutex
	type job struct {
		o *Oblig
		f string
	}
	var jobs []job
	for _, o := range obs {
		if o.status != "" {
			continue
		}
		if trivially(o) {
			o.status, o.solver = "proved", "simplifier"
			continue
		}
		todo = append(todo, o)
	}
	for i, o := range todo {
		q := buildQuery(o)
		f := filepath.Join(so.dir, fmt.Sprintf("q%05d.smt2", i))
		os.WriteFile(f, []byte("; "+o.name+"\n; "+o.pos+" "+o.src+"\n"+q.text), 0o644)
		o.file = f
		jobs = append(jobs, job{o, f})
	}
	failed := 0
	finish := func(o *Oblig, r solveResult) {
		mu.Lock()
		defer mu.Unlock()
		o.ms += r.ms
		o.solver = r.solver
		if o.cover {
			switch r.res {
			case "unsat":
				o.status = "failed"
				o.detail = "contradictory: nothing satisfies it"
			default: // sat, or unknown (no contradiction found)
				o.status = "proved"
			}
			return
		}
		switch {
		case r.res == "unsat":
			o.status = "proved"
		case r.res == "sat":
			o.status = "failed"
			failed++
		default:
			o.status = "unknown"
			if strings.HasPrefix(r.res, "error") {
				o.detail += " solver " + r.res
			}
			failed++
		}
	}
	ctx := context.Background()
	run := func(js []job, workers int, f func(j job)) {
		ch := make(chan job)
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					f(j)
				}
			}()
		}
		for _, j := range js {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	// stage 1: one solver, short
	var hard []job
	run(jobs, so.workers, func(j job) {
		sec := so.quick
		if j.o.cover {
			sec = 2
		}
		r := race(ctx, []solverCfg{sZ3New}, j.f, sec)
		if r.res == "unsat" || r.res == "sat" || j.o.cover {
			finish(j.o, r)
			return
		}
		mu.Lock()
		j.o.ms += r.ms
		hard = append(hard, j)
		mu.Unlock()
	})
	// stage 2: several solvers, seeds and printings; stage 3: more of them, longer
	sort.Slice(hard, func(a, b int) bool { return hard[a].f < hard[b].f })
	for stage := 2; stage <= 3 && len(hard) > 0; stage++ {
		js := hard
		hard = nil
		for a := 1; a <= 2; a++ {
			absMode = a
			for _, j := range js {
				q := buildQuery(j.o)
				os.WriteFile(absFile(j.f, a), []byte(q.text), 0o644)
			}
		}
		absMode = 0
		cfgs, sec, workers := cfgShort, min(so.quick, so.slow), 2
		if stage == 3 {
			cfgs, sec, workers = cfgLong, so.slow, 1
			if so.failFast && len(js) > 4 {
				sec = min(sec, 30)
			}
		}
		if sec == 0 {
			continue
		}
		run(js, workers, func(j job) {
			mu.Lock()
			stop := so.failFast && failed >= 6
			mu.Unlock()
			if stop {
				finish(j.o, solveResult{res: "unknown", solver: "skipped after other failures"})
				return
			}
			lim := sec
			if stage == 3 && so.failFast {
				// a few stubborn obligations get more time, within a total budget
				left := int(so.budget.Seconds() - time.Since(procStart).Seconds())
				if len(js) <= 4 {
					lim = max(lim, min(150, left/len(js)))
				}
				lim = min(lim, max(15, left))
			}
			r := race(ctx, cfgs, j.f, lim)
			if r.res != "unsat" && r.res != "sat" && stage == 2 && so.slow > so.quick {
				mu.Lock()
				j.o.ms += r.ms
				hard = append(hard, j)
				mu.Unlock()
				return
			}
			finish(j.o, r)
		})
	}
	for _, j := range jobs {
		if !so.keep && (j.o.status == "proved" && os.Getenv("GOVER_KEEP") == "") {
			for a := 0; a <= 2; a++ {
				os.Remove(absFile(j.f, a))
			}
		}
	}
}

var _ = big.NewInt
