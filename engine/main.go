package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
)

// The newer z3 is faster at everything but floating-point arithmetic.
var solverBin, fpSolverBin = newestZ3(), "z3"

func newestZ3() string {
	if v := os.Getenv("SYMGO_Z3"); v != "" {
		return v
	}
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}

func visitPkgs(pkgs []*packages.Package, f func(path string, files []*ast.File, info *types.Info)) {
	packages.Visit(pkgs, nil, func(p *packages.Package) { f(p.PkgPath, p.Syntax, p.TypesInfo) })
}

// harnessPkgs finds the harness packages with a harness for prop.
func harnessPkgs(hdir, prop string) []string {
	var r []string
	es, _ := os.ReadDir(hdir)
	for _, e := range es {
		if !e.IsDir() || e.Name() == "shim" || e.Name() == "sym" || e.Name() == "hx" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(hdir, e.Name(), "*.go"))
		found := false
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//sym:") {
					for _, kv := range strings.Fields(l) {
						if strings.HasPrefix(kv, "prop=") || strings.HasPrefix(kv, "//sym:prop=") {
							_, v, _ := strings.Cut(kv, "=")
							for _, p := range strings.Split(v, ",") {
								if p == prop || prop == "all" {
									found = true
								}
							}
						}
					}
				}
			}
		}
		if found {
			r = append(r, e.Name())
		}
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
	os.Exit(2)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type finding struct {
	prop, text, harness, assertion string
}

// knownFindings reads lines "known: property=<id> harness=<H> assertion=<id> <what fails>".
func knownFindings(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		var rest []string
		for _, w := range strings.Fields(l[7:]) {
			switch {
			case strings.HasPrefix(w, "property=") && f.prop == "":
				f.prop = w[9:]
			case strings.HasPrefix(w, "harness=") && f.harness == "":
				f.harness = w[8:]
			case strings.HasPrefix(w, "assertion=") && f.assertion == "":
				f.assertion = w[10:]
			default:
				rest = append(rest, w)
			}
		}
		f.text = strings.Join(rest, " ")
		if f.prop == prop {
			r = append(r, f)
		}
	}
	return r
}

// memHigh tells paths that run on and on to stop while memory is short.
var memHigh atomic.Bool

func watchMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(s)
		memHigh.Store(s[0].Value.Uint64() > 13<<30)
		time.Sleep(200 * time.Millisecond)
	}
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := fs.String("harness", "", "only this harness")
	verif := fs.String("verif", "/verif", "verification directory")
	repo := fs.String("repo", envOr("SYMGO_REPO", "/repo"), "repository")
	verbose := fs.Bool("v", false, "verbose")
	novalid := fs.Bool("novalidate", false, "skip trace validation")
	limit := fs.Int("limit", 0, "wall-clock budget in seconds")
	fs.Parse(args)
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(16 << 30)
	runtime.GOMAXPROCS(8)
	go watchMemory()
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	hdir := filepath.Join(*verif, "harness")
	pkgs := harnessPkgs(hdir, *prop)
	if len(pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	L, err := load(*repo, hdir, pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(t0)
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nat := newNative(L, tmp)
	thorough := *tier == "thorough"
	var hs []*Harness
	for _, h := range L.harnesses {
		for _, p := range h.props {
			if (p == *prop || *prop == "all") && h.tiers[*tier] && (*only == "" || *only == h.name) {
				hs = append(hs, h)
				break
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	budget := 600 * time.Second
	if thorough {
		budget = 3600 * time.Second
	}
	if *limit > 0 {
		budget = time.Duration(*limit) * time.Second
	}
	// Build the native programs while exploring.
	go func() {
		for _, p := range pkgs {
			nat.bin(p, "ctl")
		}
	}()
	type hres struct {
		h    *Harness
		ex   *Explorer
		viol *replayFile
		unc  []string
		kf   map[string]string
		val  int
		dis  []string
		nc   []string
		wall time.Duration
	}
	known := knownFindings(filepath.Join(*verif, "KNOWN_FINDINGS"), *prop)
	res := make([]*hres, len(hs))
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	var anyViol sync.Once
	stopAll := make(chan struct{})
	for i, h := range hs {
		r := &hres{h: h, kf: map[string]string{}}
		res[i] = r
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			select {
			case <-stopAll:
				return
			default:
			}
			if left := budget - time.Since(t0); left < h.opts.timeout {
				h.opts.timeout = left
			}
			if thorough && h.opts.timeout < budget {
				h.opts.timeout *= 4
			}
			ex := newExplorer(L.Program, h, thorough, seed)
			r.ex = ex
			done := make(chan struct{})
			defer close(done)
			go func() {
				select {
				case <-stopAll:
					ex.stop()
				case <-done:
				}
			}()
			var mu sync.Mutex
			ex.onCand = func(v *violation) bool {
				mu.Lock()
				defer mu.Unlock()
				if r.viol != nil {
					return true
				}
				if _, ok := r.kf[v.id]; ok {
					return false
				}
				rf, err := nat.confirm(h, *prop, v, thorough, stopAll)
				select {
				case <-stopAll:
					if rf == nil {
						return true
					}
				default:
				}
				if err != nil {
					r.unc = append(r.unc, "replay error: "+err.Error())
					return false
				}
				if rf == nil {
					r.unc = append(r.unc, fmt.Sprintf("%s %s: %s (not reproduced natively) %s", v.kind, v.id, v.msg, firstLine(v.stack)))
					if os.Getenv("SYMGO_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, v.stack)
					}
					return false
				}
				for _, k := range known {
					if k.harness == h.name && (k.assertion == v.id || k.assertion == v.kind) {
						r.kf[v.id] = k.text
						return false
					}
				}
				r.viol = rf
				anyViol.Do(func() { close(stopAll) })
				return true
			}
			ts := time.Now()
			ex.run(8)
			r.wall = time.Since(ts)
			select {
			case <-stopAll:
				return
			default:
			}
			if r.viol == nil && !*novalid {
				for _, s := range ex.samples {
					ok, msg := nat.validate(h, s, thorough)
					switch {
					case ok == 1:
						r.val++
					case ok < 0 && !h.noval:
						r.dis = append(r.dis, msg+" @ "+s.text)
					default:
						r.nc = append(r.nc, msg)
					}
				}
			}
			if *verbose {
				fmt.Fprintf(os.Stderr, "%-28s paths %d done %d infeasible %d steps %d unknown %d cands %v notes %v val %d/%d dis %v nc %v wall %.1fs unconf %d reached %v\n", h.name, ex.paths, ex.done, ex.infeas, ex.steps, ex.unknowns, ex.candN, ex.notes, r.val, len(ex.samples), r.dis, r.nc, r.wall.Seconds(), len(r.unc), ex.reached)
				for _, u := range r.unc {
					fmt.Fprintln(os.Stderr, "   unconfirmed:", u)
				}
			}
		}()
	}
	wg.Wait()
	// Summary and evidence.
	code := 0
	cov := map[string]interface{}{}
	var states, trans, traces, queries, sat, unsat, unk, checks, triv, instrs int
	var solverT time.Duration
	funcs := map[string]bool{}
	var harn []map[string]interface{}
	var samples, reduced, unconf, dis []string
	violations := 0
	var assump []string
	for _, r := range res {
		if r.ex == nil {
			reduced = append(reduced, r.h.name+": not run, another harness had already found a violation")
			continue
		}
		ex := r.ex
		states += ex.paths
		trans += int(ex.decisions)
		instrs += int(ex.steps)
		traces += r.val
		q, s, u, k := 0, 0, 0, 0
		var st time.Duration
		for _, w := range ex.workers {
			q += w.solver.Queries
			s += w.solver.SatN
			u += w.solver.UnsatN
			k += w.solver.UnknownN
			st += w.solver.Time
			checks += w.assertQueries
			triv += w.trivialAsserts
		}
		queries += q
		sat += s
		unsat += u
		unk += k
		solverT += st
		for f := range ex.funcs {
			funcs[f] = true
		}
		hm := map[string]interface{}{"name": r.h.pkg + "." + r.h.name, "bounds": r.h.bounds, "paths": ex.paths, "completed": ex.done,
			"infeasible": ex.infeas, "assertions": ex.asserts, "reached": ex.reached, "queries": q, "solver_s": round1(st.Seconds()), "wall_s": round1(r.wall.Seconds()),
			"traces_validated": r.val, "preemption_bound": r.h.opts.preempt}
		harn = append(harn, hm)
		for _, s := range ex.samples {
			if len(samples) < 12 {
				t := s.text
				if len(t) > 600 {
					t = t[:600] + "..."
				}
				samples = append(samples, r.h.name+": "+t)
			}
		}
		if ex.overflow {
			reduced = append(reduced, r.h.name+": path or time budget reached, exploration incomplete")
		}
		for _, n := range sortedKeys(ex.notes) {
			reduced = append(reduced, fmt.Sprintf("%s: %s (%d paths)", r.h.name, n, ex.notes[n]))
		}
		if ex.unknowns > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d solver queries undecided", r.h.name, ex.unknowns))
		}
		for _, w := range r.h.reach {
			if ex.reached[w] == 0 && r.viol == nil {
				reduced = append(reduced, r.h.name+": nothing reached "+w+", the check may be vacuous")
			}
		}
		if ex.done == 0 && r.viol == nil && len(ex.cands) == 0 {
			reduced = append(reduced, r.h.name+": no path completed")
		}
		unconf = append(unconf, r.unc...)
		for _, d := range r.dis {
			dis = append(dis, r.h.name+": "+d)
		}
		for _, e := range ex.engErr {
			fmt.Fprintln(os.Stderr, "ENGINE ERROR in", r.h.name+":", e)
			reduced = append(reduced, r.h.name+": engine error, exploration stopped")
		}
		for id, text := range r.kf {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s/%s]\n", *prop, text, r.h.name, id)
		}
		if r.viol != nil {
			violations++
			code = 1
			dir := filepath.Join(*verif, "evidence", "replays")
			os.MkdirAll(dir, 0755)
			f := filepath.Join(dir, fmt.Sprintf("%s_%s_%s.json", *prop, r.h.name, sanitize(r.viol.Assert)))
			r.viol.HowTo = "/verif/bin/symgo replay " + f
			b, _ := json.MarshalIndent(r.viol, "", " ")
			os.WriteFile(f, b, 0644)
			fmt.Printf("%s: %s\n", r.h.name, r.viol.Message)
			for _, v := range r.viol.Vals {
				fmt.Printf("  %s = %s\n", v.Name, v.Text)
			}
			if len(r.viol.Sched) > 0 {
				if sc := r.viol.Sched; len(sc) > 120 {
					fmt.Printf("  schedule %v... (%d steps, in the replay file)\n", sc[:120], len(sc))
				} else {
					fmt.Printf("  schedule %v\n", sc)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = traces
	cov["samples"] = samples
	cov["exhaustive"] = len(reduced) == 0 && violations == 0
	cov["explanation"] = "states = symbolic paths executed, each standing for all values satisfying its path condition; transitions = decisions taken on them (branches, choices, scheduling); traces = sampled paths whose predicted outputs the natively compiled code reproduced"
	cov["instructions"] = instrs
	cov["functions_encoded"] = fl
	cov["harnesses"] = harn
	cov["queries"] = queries
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["assertions_checked_by_solver"] = checks
	cov["assertions_constant_true"] = triv
	cov["solver_s"] = round1(solverT.Seconds())
	cov["solver"] = solverBin + " (" + fpSolverBin + " for floating-point mode)"
	cov["load_s"] = round1(loadT.Seconds())
	cov["reduced_bounds"] = reduced
	cov["unconfirmed_candidates"] = unconf
	cov["trace_disagreements"] = dis
	assump = append(assump, "float arithmetic is treated as real arithmetic except in harnesses in fp mode; every reported violation is confirmed in float64 on the compiled code",
		"network, clock, locks, random numbers and HTTP are replaced by the models in harness/shim", "behaviour outside the bounds stated per harness is not covered")
	ev := map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assump, "wall_s": round1(time.Since(t0).Seconds()), "violations": violations}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" && *prop != "all" {
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d traces validated, %.1fs, violations %d\n", *prop, *tier, len(hs), states, queries, solverT.Seconds(), traces, time.Since(t0).Seconds(), violations)
	for _, n := range reduced {
		fmt.Println("  reduced bound:", n)
	}
	for _, u := range unconf {
		fmt.Println("  unconfirmed candidate:", u)
	}
	for _, u := range dis {
		fmt.Println("  trace disagreement:", u)
	}
	return code
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

// replay runs a stored counterexample on the natively compiled code: exit 1 when it still fails.
func replay(args []string) int {
	if len(args) == 0 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	repo := envOr("SYMGO_REPO", "/repo")
	L, err := load(repo, filepath.Join(envOr("SYMGO_VERIF", "/verif"), "harness"), []string{rf.Pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(tmp)
	nat := newNative(L, tmp)
	mode := rf.Mode
	if mode == "" {
		mode = "ctl"
	}
	tries := 40
	bin, err := nat.bin(rf.Pkg, mode)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := 0; i < tries; i++ {
		env := []string{fmt.Sprintf("SYMTRY=%d", i)}
		if mode == "ctlrace" {
			env = append(env, "SYMCTL=1")
		}
		r, err := nat.runOnce(bin, &rf, env, 20*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if i == 0 {
			fmt.Print(r.out)
		}
		if shows(&rf, r) {
			fmt.Printf("reproduced: %s %s\n", rf.Kind, rf.Assert)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}
