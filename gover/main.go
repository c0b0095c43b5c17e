package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(3) }

func main() {
	if len(os.Args) < 2 {
		die("usage: gover ssa|fn|lemma|check ...")
	}
	repo := os.Getenv("GOVER_REPO")
	if repo == "" {
		repo = "/repo"
	}
	cdir := os.Getenv("GOVER_CONTRACTS")
	if cdir == "" {
		cdir = "/verif/contracts"
	}
	switch os.Args[1] {
	case "ssa":
		pr, err := load(repo)
		if err != nil {
			die("%v", err)
		}
		for _, f := range pr.allFuncs() {
			if f.Pkg == nil || pr.pkgs[f.Pkg.Pkg.Path()] == nil {
				continue
			}
			if len(os.Args) < 3 {
				fmt.Println(funcName(f))
			} else if funcName(f) == os.Args[2] {
				f.WriteTo(os.Stdout)
			}
		}
	case "fn":
		cmdFn(repo, cdir, os.Args[2:])
	case "check":
		cmdCheck(repo, cdir, os.Args[2:])
	case "harness": // one harness alone (development aid)
		h := runHarness(repo, os.Args[2], os.Getenv("VERIF_TIER"), 1, 10*time.Minute)
		fmt.Printf("failed %v, %d cases, %d nontrivial, %.1fs\n%s\n", h.failed, h.evals, h.nontrivial, h.wall, h.input)
		if !h.failed {
			fmt.Println(h.log)
		}
	default:
		die("unknown command %s", os.Args[1])
	}
}

// cmdFn verifies the named functions/lemmas (development aid).
func cmdFn(repo, cdir string, args []string) {
	t0 := time.Now()
	pr, err := load(repo)
	if err != nil {
		die("%v", err)
	}
	computeBoxed(pr)
	cs, err := loadContracts(cdir)
	if err != nil {
		die("%v", err)
	}
	prop, verbose, keep := "", false, false
	so := solveOpts{quick: 3, slow: 20, workers: 8}
	var pats []string
	for _, a := range args {
		switch {
		case strings.HasPrefix(a, "-prop="):
			prop = a[6:]
		case a == "-v":
			verbose = true
		case a == "-k":
			keep = true
		case strings.HasPrefix(a, "-t="):
			fmt.Sscanf(a[3:], "%d", &so.slow)
		default:
			pats = append(pats, a)
		}
	}
	dir, _ := os.MkdirTemp("", "gover")
	so.dir, so.keep = dir, keep
	so.failFast = false
	match := func(n string) bool {
		for _, p := range pats {
			if n == p || strings.HasSuffix(n, "."+p) || strings.HasSuffix(p, "*") && strings.Contains(n, strings.TrimSuffix(p, "*")) {
				return true
			}
		}
		return len(pats) == 0
	}
	var obs []*Oblig
	for _, n := range cs.lorder {
		lm := cs.lemmas[n]
		if lm.axiom || !match(n) {
			continue
		}
		obs = append(obs, lemmaObligs(pr, cs, lm)...)
	}
	for _, n := range cs.order {
		ct := cs.funcs[n]
		if ct.extern || ct.trusted != "" || ct.inline || !match(n) {
			continue
		}
		f := pr.byName(n)
		if f == nil {
			fmt.Println("no such function:", n)
			continue
		}
		v := newV(pr, cs, f, ct, prop)
		v.verify()
		obs = append(obs, v.obs...)
		for _, u := range v.unsup {
			fmt.Println("  note:", n, u)
		}
	}
	fmt.Printf("generated %d obligations in %.1fs\n", len(obs), time.Since(t0).Seconds())
	t1 := time.Now()
	solveAll(obs, so)
	bad := 0
	for _, o := range obs {
		if o.status != "proved" {
			bad++
			fmt.Printf("%s %s [%s] %s\n    %s\n    %s\n    %s\n", strings.ToUpper(o.status), o.name, o.solver, o.detail, o.pos, o.src, o.file)
			if verbose {
				for _, t := range o.trace {
					fmt.Println("      ", t)
				}
			}
		} else if verbose || o.ms > 3000 {
			fmt.Printf("ok %6dms %-12s %s %s\n", o.ms, o.solver, o.name, o.src)
		}
	}
	fmt.Printf("%d obligations, %d not proved, solving %.1fs  queries in %s\n", len(obs), bad, time.Since(t1).Seconds(), dir)
	if !keep && bad == 0 {
		os.RemoveAll(dir)
	}
	var ss []string
	for k, m := range solverStats.ms {
		ss = append(ss, fmt.Sprintf("%s %.1fs", k, float64(m)/1000))
	}
	sort.Strings(ss)
	fmt.Println(strings.Join(ss, ", "))
}
