package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// PropCfg says which harness tests stand behind a property (contracts/props.json).
type PropCfg struct {
	Tests   []string          `json:"tests"`   // "pkgdir:TestName"
	Bounded map[string]string `json:"bounded"` // functions checked only by the bounded harness, with the bound
	Assume  []string          `json:"assume"`
	Lemmas  []string          `json:"lemmas"`
	Rule    string            `json:"rule"`
	// functions whose contracts this check assumes, because the check of the named property
	// discharges them: at least what this property sees of them, from at most what it requires
	Delegate map[string]string `json:"delegate"`
}

// delegated reports what makes the contract of a function, as property prop sees it, not one that the check of property d discharges.
func delegated(cs *Contracts, cfgs map[string]PropCfg, n, prop, d string) error {
	ct := cs.funcs[n]
	if ct == nil {
		return fmt.Errorf("no contract")
	}
	if !inProps(ct.props, d) || len(ct.props) == 0 {
		return fmt.Errorf("%s does not list it", d)
	}
	if cfgs[d].Delegate[n] != "" {
		return fmt.Errorf("%s delegates it", d)
	}
	for _, c := range ct.requires {
		if c.active(d) && !c.active(prop) {
			return fmt.Errorf("%s requires more of it: %s", d, c.text)
		}
	}
	for _, c := range append(append([]Clause(nil), ct.ensures...), ct.modifies...) {
		if c.active(prop) && !c.active(d) {
			return fmt.Errorf("%s ensures less of it: %s", d, c.text)
		}
	}
	for _, c := range ct.modifies {
		if c.active(prop) != c.active(d) {
			return fmt.Errorf("%s has another frame: %s", d, c.text)
		}
	}
	return nil
}

type harnessOut struct {
	ran        bool
	compiled   bool
	failed     bool
	input      string
	evals      int
	nontrivial int
	samples    []string
	log        string
	wall       float64
	test       string
}

func verifDir() string {
	if d := os.Getenv("GOVER_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// runHarness runs one bounded in-package test through an overlay.
func runHarness(repo, spec string, tier string, seed int, limit time.Duration) harnessOut {
	return runHarness2(repo, spec, tier, seed, limit, "")
}

func runHarness2(repo, spec string, tier string, seed int, limit time.Duration, trace string) harnessOut {
	h := harnessOut{test: spec}
	i := strings.Index(spec, ":")
	pkg, test := spec[:i], spec[i+1:]
	tmp, err := os.MkdirTemp("", "gover-h")
	if err != nil {
		h.log = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": {}}
	b, _ := os.ReadFile("/opt/vp/mod/overlay.json")
	json.Unmarshal(b, &ov)
	rep := map[string]string{}
	for k, x := range ov["Replace"] {
		if repo != "/repo" {
			k = strings.Replace(k, "/repo/", repo+"/", 1)
		}
		rep[k] = x
	}
	// the harness of a property is the common file of its package and its own file
	hd := filepath.Join(verifDir(), "replay", pkg)
	if pkg == "." {
		hd = filepath.Join(verifDir(), "replay", "root")
	}
	files, _ := filepath.Glob(filepath.Join(hd, "common*_test.go"))
	if c, err := os.ReadFile(filepath.Join(verifDir(), "replay", "common.go.txt")); err == nil {
		name := pkg
		if pkg == "." {
			name = "freetype"
		}
		cf := filepath.Join(tmp, "common0_test.go")
		os.WriteFile(cf, []byte(strings.Replace(string(c), "package PKG", "package "+name, 1)), 0o644)
		files = append(files, cf)
	}
	if c, err := os.ReadFile(filepath.Join(verifDir(), "replay", "fontgen.go.txt")); err == nil && pkg != "raster" {
		s := string(c)
		if pkg == "." {
			s = strings.NewReplacer("package PKG", "package freetype", "//IMPORT", "\"github.com/golang/freetype/truetype\"", "TT.", "truetype.").Replace(s)
		} else {
			s = strings.NewReplacer("package PKG", "package "+pkg, "//IMPORT", "", "TT.", "").Replace(s)
		}
		cf := filepath.Join(tmp, "common1_test.go")
		os.WriteFile(cf, []byte(s), 0o644)
		files = append(files, cf)
	}
	own, _ := filepath.Glob(filepath.Join(hd, strings.ToLower(strings.TrimPrefix(test, "TestVerif"))+"_test.go"))
	files = append(files, own...)
	for _, f := range files {
		rep[filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f))] = f
	}
	// keep the repository's own tests out: they may have changed or not compile with us
	old, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
	for _, f := range old {
		rep[f] = ""
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ob, 0o644)
	var env []string
	for _, e := range repoEnv() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			e = "GOFLAGS=-modfile=/opt/vp/mod/freetype.mod -buildvcs=false"
		}
		env = append(env, e)
	}
	out := filepath.Join(tmp, "out")
	os.Mkdir(out, 0o777)
	env = append(env, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_OUT="+out, "VERIF_TRACE="+trace, "VERIF_REPO="+repo, "GOMAXPROCS=4")
	bin := filepath.Join(tmp, "h.test")
	t0 := time.Now()
	c := exec.Command("go", "test", "-c", "-vet=off", "-overlay="+ovf, "-o", bin, "./"+pkg)
	c.Dir, c.Env = repo, env
	if o, err := c.CombinedOutput(); err != nil {
		h.log = "harness does not compile: " + string(o)
		return h
	}
	h.compiled = true
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c = exec.CommandContext(ctx, bin, "-test.run", "^"+test+"$", "-test.v", "-test.timeout", fmt.Sprintf("%ds", int(limit.Seconds())-3))
	c.Dir, c.Env = filepath.Join(repo, pkg), env
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err = c.Run()
	h.wall = time.Since(t0).Seconds()
	h.ran = true
	h.log = tail(buf.String(), 6000)
	if b, e := os.ReadFile(filepath.Join(out, "stats")); e == nil {
		fmt.Sscanf(string(b), "%d %d", &h.evals, &h.nontrivial)
	}
	if b, e := os.ReadFile(filepath.Join(out, "samples")); e == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if l != "" {
				h.samples = append(h.samples, l)
			}
		}
	}
	if f, e := os.ReadFile(filepath.Join(out, "failure")); e == nil {
		h.failed = true
		h.input = string(f)
		return h
	}
	if err != nil && trace == "" {
		// the process died: run again, noting each case before it starts
		return runHarness2(repo, spec, tier, seed, limit, "1")
	}
	if err != nil {
		// a crash or a hang: the case that was running is the failing input
		if cur, e := os.ReadFile(filepath.Join(out, "current")); e == nil && len(cur) > 0 {
			h.failed = true
			h.input = string(cur) + "\n(the process ended abnormally while running this case)\n"
		} else {
			h.ran = false
			h.log = "harness error: " + err.Error() + "\n" + h.log
		}
	}
	return h
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// obligations of a property: all functions whose contract lists it, and,
// transitively, every function whose contract those rely on.
func propObligs(pr *Program, cs *Contracts, prop string, cfgs map[string]PropCfg) (obs []*Oblig, vs []*V, lemmas []string, deleg []string) {
	cfg := cfgs[prop]
	var work []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			work = append(work, n)
		}
	}
	for _, n := range cs.order {
		ct := cs.funcs[n]
		for _, p := range ct.props {
			if p == prop && cfg.Delegate[n] == "" {
				add(n)
			}
		}
	}
	usedL := map[string]bool{}
	var lq []string
	addL := func(n string) {
		if !usedL[n] {
			usedL[n] = true
			lq = append(lq, n)
		}
	}
	for _, l := range cfg.Lemmas {
		addL(l)
	}
	for _, n := range cs.lorder {
		for _, p := range cs.lemmas[n].props {
			if p == prop {
				addL(n)
			}
		}
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		ct := cs.funcs[n]
		if ct.extern || ct.trusted != "" || ct.inline {
			continue
		}
		f := pr.byName(n)
		if f == nil || len(f.Blocks) == 0 {
			obs = append(obs, &Oblig{name: n + "/the function under contract exists", kind: "missing", fn: n, pc: tTrue, goal: tFalse, status: "failed", detail: "no such function in the source"})
			continue
		}
		v := newV(pr, cs, f, ct, prop)
		v.verify()
		obs = append(obs, v.obs...)
		vs = append(vs, v)
		var us []string
		for u := range v.used {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			if d := cfg.Delegate[u]; d != "" {
				if !seen[u] {
					seen[u] = true
					if err := delegated(cs, cfgs, u, prop, d); err != nil {
						die("%s: contract of %s: %v", prop, u, err)
					}
					deleg = append(deleg, "contract of "+u+", discharged by the check of "+d)
				}
				continue
			}
			add(u)
		}
		for l := range v.usedLemmas {
			addL(l)
		}
	}
	for len(lq) > 0 {
		n := lq[0]
		lq = lq[1:]
		lm := cs.lemmas[n]
		if lm == nil {
			obs = append(obs, &Oblig{name: "lemma " + n, kind: "missing lemma", fn: n, pc: tTrue, goal: tFalse, status: "failed"})
			continue
		}
		lemmas = append(lemmas, n)
		if lm.axiom {
			continue
		}
		obs = append(obs, lemmaObligs(pr, cs, lm)...)
		for l := range lm.used {
			addL(l)
		}
	}
	sort.Strings(lemmas)
	return
}

func cmdCheck(repo, cdir string, args []string) {
	t0 := time.Now()
	prop := ""
	onlyProof, onlyHarness := false, false
	for _, a := range args {
		switch a {
		case "-proof":
			onlyProof = true
		case "-harness":
			onlyHarness = true
		default:
			prop = a
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var cfgs map[string]PropCfg
	b, err := os.ReadFile(filepath.Join(cdir, "props.json"))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		die("props.json: %v", err)
	}
	cfg := cfgs[prop]
	vd := verifDir()
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(vd, "work", "replay"), 0o755)

	pr, err := load(repo)
	if err != nil {
		die("cannot load %s: %v", repo, err)
	}
	computeBoxed(pr)
	cs, err := loadContracts(cdir)
	if err != nil {
		die("%v", err)
	}

	// bounded harness, in the background
	hch := make(chan []harnessOut, 1)
	go func() {
		var hs []harnessOut
		if !onlyProof {
			lim := 240 * time.Second
			if tier == "thorough" {
				lim = 700 * time.Second
			}
			for _, t := range cfg.Tests {
				hs = append(hs, runHarness(repo, t, tier, seed, lim))
			}
		}
		hch <- hs
	}()

	var obs []*Oblig
	var vs []*V
	var lemmas, deleg []string
	if !onlyHarness {
		obs, vs, lemmas, deleg = propObligs(pr, cs, prop, cfgs)
	}
	dir, err := os.MkdirTemp("", "gover-q")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	hs := []harnessOut(nil)
	// the harness is short: wait for it, so that a concrete failure shortens the proof run
	hs = <-hch
	concrete := -1
	for i, h := range hs {
		if h.failed {
			concrete = i
			break
		}
	}
	so := solveOpts{quick: 5, slow: 60, workers: 8, dir: dir, failFast: true, budget: 700 * time.Second}
	if tier == "thorough" {
		so.slow = 200
	}
	if concrete >= 0 {
		so.quick, so.slow = 2, 3
	}
	solveAll(obs, so)

	nObl, nDis, nCover, covOK := 0, 0, 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var solverMs int64
	var bad []*Oblig
	for _, o := range obs {
		solverMs += o.ms
		if o.cover {
			nCover++
			if o.status == "proved" {
				covOK++
			} else {
				bad = append(bad, o)
			}
			continue
		}
		nObl++
		k := o.kind
		if strings.HasPrefix(k, "ensures") || strings.HasPrefix(k, "loop") || strings.HasPrefix(k, "requires") || strings.HasPrefix(k, "before") {
			k = strings.Fields(k)[0]
		} else if strings.HasPrefix(k, "frame") {
			k = "frame"
		}
		kinds[k]++
		if o.status == "proved" {
			nDis++
			by[o.solver]++
		} else {
			bad = append(bad, o)
		}
	}
	if nObl == 0 && !onlyHarness {
		bad = append(bad, &Oblig{name: "no obligations were generated", kind: "vacuous", status: "failed"})
	}
	var funcs, inl, assumed []string
	is := map[string]bool{}
	as := map[string]bool{}
	for _, v := range vs {
		funcs = append(funcs, funcName(v.fn))
		for n := range v.inlined {
			is[n] = true
		}
		for n := range v.assumed {
			as[n] = true
		}
	}
	for n := range is {
		inl = append(inl, n)
	}
	for n := range as {
		if ct := cs.funcs[n]; ct != nil {
			if ct.trusted != "" {
				assumed = append(assumed, "trusted contract of "+n+": "+ct.trusted)
			} else {
				assumed = append(assumed, "assumed contract of "+n)
			}
		} else {
			assumed = append(assumed, n)
		}
	}
	for _, l := range lemmas {
		if cs.lemmas[l].axiom {
			assumed = append(assumed, "axiom "+l)
		}
	}
	sort.Strings(inl)
	sort.Strings(assumed)
	assumed = append(assumed, deleg...)
	assumed = append(assumed, cfg.Assume...)
	evals, nontriv := 0, 0
	var samples []string
	var hnotes []string
	for _, h := range hs {
		evals += h.evals
		nontriv += h.nontrivial
		samples = append(samples, h.samples...)
		if !h.compiled || !h.ran {
			hnotes = append(hnotes, h.test+": "+tail(h.log, 400))
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	level := "proof"
	cov := map[string]any{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              "z3-new 5.2 / z3 4.8.12 / cvc5 1.1.2 on the queries generated by /verif/gover from " + repo,
		"trusted_base":             trustedBase,
		"functions_under_contract": funcs, "functions_inlined": inl, "lemmas": lemmas,
		"discharged_by": by, "obligation_kinds": kinds, "solver_ms": solverMs,
		"vacuity_covers": nCover, "vacuity_covers_ok": covOK,
	}
	if len(cfg.Tests) > 0 {
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = nontriv
		cov["rule"] = "bounded stand-in and replay harness: " + cfg.Rule
		if samples == nil {
			samples = []string{}
		}
		cov["samples"] = samples
		cov["harness_tests"] = cfg.Tests
	}
	if len(cfg.Bounded) > 0 {
		cov["bounded_not_proved"] = cfg.Bounded
	}
	if len(hnotes) > 0 {
		cov["harness_notes"] = hnotes
	}
	viol := 0
	if len(bad) > 0 || concrete >= 0 {
		viol = 1
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumed, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	if assumed == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(vd, "evidence", prop+".json"), append(eb, '\n'), 0o644)

	if os.Getenv("GOVER_V") != "" {
		for _, o := range obs {
			if o.status != "proved" || o.ms > 2000 {
				fmt.Printf("%-8s %6dms %-14s %s | %s | %s\n", o.status, o.ms, o.solver, o.name, o.src, o.detail)
			}
		}
		for _, h := range hs {
			fmt.Printf("harness %s: compiled=%v ran=%v failed=%v evals=%d nontrivial=%d %.1fs\n", h.test, h.compiled, h.ran, h.failed, h.evals, h.nontrivial, h.wall)
			if h.failed || !h.ran {
				fmt.Println(h.input, tail(h.log, 1500))
			}
		}
	}
	known := loadKnown(vd, prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s: %d obligations, %d discharged (%d functions under contract, %d inlined, %d lemmas), %d/%d covers, harness %d cases, %.1fs\n", prop, nObl, nDis, len(funcs), len(inl), len(lemmas), covOK, nCover, evals, time.Since(t0).Seconds())
	if viol == 0 {
		os.RemoveAll(dir)
		os.Exit(0)
	}
	// report
	rp := filepath.Join(vd, "work", "replay", fmt.Sprintf("%s-%d.txt", prop, time.Now().UnixNano()))
	var r strings.Builder
	fmt.Fprintf(&r, "property %s\n\n", prop)
	if concrete >= 0 {
		h := hs[concrete]
		fmt.Fprintf(&r, "FAILING INPUT (replayed on the real code by %s, seed %d, tier %s):\n%s\n\n", h.test, seed, tier, h.input)
		fmt.Fprintf(&r, "re-run: cd %s && VERIF_SEED=%d VERIF_TIER=%s %s/run.sh %s\n\n", vd, seed, tier, vd, prop)
		fmt.Fprintf(&r, "harness output:\n%s\n\n", h.log)
	}
	if len(bad) > 0 {
		fmt.Fprintf(&r, "OBLIGATIONS NOT DISCHARGED (%d):\n", len(bad))
		for i, o := range bad {
			fmt.Fprintf(&r, "\n%s\n  status %s by %s\n  at %s: %s\n  clause: %s\n", o.name, o.status, o.solver, o.pos, o.src, o.detail)
			if i < 4 {
				for _, t := range o.trace {
					fmt.Fprintf(&r, "    path: %s\n", t)
				}
				if o.file != "" && o.status == "failed" && !o.cover {
					fmt.Fprintf(&r, "  verifier model (excerpt):\n%s\n", model(o.file))
				}
			}
		}
	}
	os.WriteFile(rp, []byte(r.String()), 0o644)
	os.RemoveAll(dir)
	if len(bad) > 0 {
		fmt.Printf("first undischarged obligation: %s (%s: %s)\n", bad[0].name, bad[0].pos, bad[0].src)
	}
	if concrete >= 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	os.Exit(1)
}

// model asks the solver for the values of the parameters in a refuted query.
func model(file string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	f := file + ".model.smt2"
	os.WriteFile(f, append(b, []byte("(get-model)\n")...), 0o644)
	o, _ := exec.Command("z3-new", "-T:5", f).Output()
	var keep []string
	ls := strings.Split(string(o), "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i], "(define-fun p_") && strings.Contains(ls[i], "()") {
			keep = append(keep, "    "+strings.TrimSpace(ls[i])+" "+strings.TrimSpace(ls[i+1]))
		}
	}
	if len(keep) > 30 {
		keep = keep[:30]
	}
	return strings.Join(keep, "\n")
}

// loadKnown lists the recorded (not repaired) findings of a property.
func loadKnown(vd, prop string) []string {
	b, err := os.ReadFile(filepath.Join(vd, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return out
}

var trustedBase = []string{
	"the condition generator /verif/gover (go/ssa NaiveForm to SMT, integers modelled with exact Go wrap-around)",
	"golang.org/x/tools/go/ssa and go/types of the installed toolchain",
	"the SMT solvers z3 5.2, z3 4.8.12, cvc5 1.1.2",
	"slices, strings and arrays are shorter than 2^47 elements; running out of memory or stack is not modelled",
	"single-threaded execution: no other goroutine touches the same objects",
}
