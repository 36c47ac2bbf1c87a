package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessCfg struct {
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Thorough map[string]int `json:"thorough"`
	Preempt  int            `json:"preempt"`
	PreemptT int            `json:"preempt_thorough"`
	Budget   int            `json:"budget"`          // seconds, quick
	BudgetT  int            `json:"budget_thorough"` // seconds, thorough
	NoNative bool           `json:"no_native"`       // replay in the engine only
	Native   bool           `json:"native"`          // replay paths with several goroutines, too
	Why      string         `json:"why_no_native"`
	Steps    int64          `json:"steps"`
}

type propCfg struct {
	Pkg       string       `json:"pkg"`
	Load      []string     `json:"load"`
	Harnesses []harnessCfg `json:"harnesses"`
	Bounds    string       `json:"bounds"`
	Outside   string       `json:"outside"`
	Assume    []string     `json:"assumptions"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check ID | replay FILE | run PKG FN")
		os.Exit(1)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	switch os.Args[1] {
	case "check":
		if f := os.Getenv("ZZPROF"); f != "" {
			if w, err := os.Create(f); err == nil {
				_ = pprof.StartCPUProfile(w)
				rc := cmdCheck(os.Args[2:])
				pprof.StopCPUProfile()
				os.Exit(rc)
			}
		}
		rc := cmdCheck(os.Args[2:])
		printFuncs()
		os.Exit(rc)
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(1)
}

func verifDir() string {
	if d := os.Getenv("ZZVERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "harness")); err == nil {
			return d
		}
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("ZZREPO"); d != "" {
		return d
	}
	return "/repo"
}

type hresult struct {
	cfg    harnessCfg
	x      *Explorer
	wall   time.Duration
	nat    int
	natBad []string
	natErr string
}

func newWorker(id int, p *Program) *Worker {
	ts := newTerms()
	w := &Worker{id: id, p: p, ts: ts, code: map[*ssa.Function]*fnCode{}, globals: map[*ssa.Global]*Value{}, initState: map[*ssa.Package]int{},
		typeKeys: map[typesType]string{}, methCache: map[methKey]*ssa.Function{}, assertC: map[assertKey]bool{}, funcsRun: map[*ssa.Function]bool{}}
	return w
}

func explore(ws []*Worker, h *Harness, budget time.Duration, maxSteps int64) *Explorer {
	x := &Explorer{deadline: time.Now().Add(budget), cutReasons: map[string]int64{}, covers: map[string]int64{}, knownHits: map[string]*Violation{},
		sampleEvery: 997, funcs: map[string]bool{}, maxViol: 6}
	x.cond = sync.NewCond(&x.mu)
	x.queue = []Item{{slot: &x.vcRoot}}
	var wg sync.WaitGroup
	q0 := make([]int64, len(ws))
	for i, w := range ws {
		w.x, w.h = x, h
		w.maxSteps = maxSteps
		w.fixed = nil
		w.bmQueries, w.audits = 0, 0
		if w.sol == nil {
			w.sol = newSolver(w.ts, 10000)
		}
		w.sol.queries, w.sol.sat, w.sol.unsat, w.sol.unknown, w.sol.spent = 0, 0, 0, 0, 0
		q0[i] = 0
		clear(w.funcsRun)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.worker(w)
		}()
	}
	wg.Wait()
	x.leftover += len(x.queue)
	for _, it := range x.queue {
		if it.slot != nil {
			*it.slot = leafOpen
		}
	}
	for _, w := range ws {
		x.queries += w.sol.queries
		x.qsat += w.sol.sat
		x.qunsat += w.sol.unsat
		x.qunknown += w.sol.unknown
		x.solverTime += w.sol.spent
		x.native += w.bmQueries
		x.audits += w.audits
		for fn := range w.funcsRun {
			if pk := fnPkg(fn); pk != nil && strings.HasPrefix(pk.Path(), modPath) && (!strings.HasPrefix(pk.Path(), zzPath) || pk.Path() == zzPath+"/mainpkg") {
				x.funcs[strings.ReplaceAll(fn.String(), modPath+"/", "")] = true
			}
		}
	}
	return x
}

// engineReplay runs the harness concretely inside the engine.
func engineReplay(w *Worker, h *Harness, ins []Input) (*Violation, pathEnd) {
	x := &Explorer{deadline: time.Now().Add(60 * time.Second), cutReasons: map[string]int64{}, covers: map[string]int64{}, knownHits: map[string]*Violation{}, funcs: map[string]bool{}, sampleEvery: 1, maxViol: 10}
	x.cond = sync.NewCond(&x.mu)
	w.x, w.h = x, h
	w.fixed = newReplay(ins)
	defer func() { w.fixed = nil }()
	end := w.runPath(Item{})
	if len(x.violations) > 0 {
		return x.violations[0], end
	}
	for _, v := range x.knownHits {
		return v, end
	}
	return nil, end
}

func loadKnown(dir, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+id+" "), " ", 2)
		if k, ok := strings.CutPrefix(f[0], "id="); ok {
			d := ""
			if len(f) > 1 {
				d = f[1]
			}
			m[k] = d
		}
	}
	return m
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	only := fs.String("only", "", "run only this harness")
	budgetF := fs.Int("budget", 0, "seconds per harness")
	nw := fs.Int("j", runtime.NumCPU(), "")
	id := args[0]
	_ = fs.Parse(args[1:])
	if *tier == "" {
		*tier = "quick"
	}
	t0 := time.Now()
	dir, repo := verifDir(), repoDir()
	hdir := filepath.Join(dir, "harness")
	var cfg propCfg
	b, err := os.ReadFile(filepath.Join(hdir, id+".json"))
	if err != nil {
		fmt.Println("no configuration:", err)
		return 2
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		fmt.Println("bad configuration:", err)
		return 2
	}
	known := loadKnown(dir, id)
	ev := map[string]any{}
	cov := map[string]any{"bounds": cfg.Bounds, "outside_the_claim": cfg.Outside}
	finish := func(viol int) {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		ev["property"] = id
		ev["tier"] = *tier
		ev["seed"] = seed
		ev["level"] = "model_checking"
		ev["coverage"] = cov
		ev["assumptions"] = cfg.Assume
		ev["wall_s"] = float64(int(time.Since(t0).Seconds()*100)) / 100
		ev["violations"] = viol
		_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["samples"] = 0, 0, 0, []any{}

	var fns []string
	needNative := false
	for _, h := range cfg.Harnesses {
		fns = append(fns, h.Fn)
		if !h.NoNative {
			needNative = true
		}
	}
	var nat *Native
	if needNative {
		nat = buildNative(hdir, repo, cfg.Pkg, fns)
		defer nat.close()
	}
	pats := []string{"./internal/zzverif/" + cfg.Pkg}
	for _, l := range cfg.Load {
		pats = append(pats, l)
	}
	p, err := loadProgram(hdir, repo, pats)
	if err != nil {
		fmt.Println("UNDECIDED property="+id, "the code under test could not be loaded with the harness:", err)
		cov["undecided"] = err.Error()
		finish(0)
		return 2
	}
	pk := p.pkgs[zzPath+"/"+cfg.Pkg]
	loadT := time.Since(t0)
	ws := make([]*Worker, *nw)
	for i := range ws {
		ws[i] = newWorker(i, p)
	}
	defer func() {
		for _, w := range ws {
			if w.sol != nil {
				w.sol.close()
			}
		}
	}()
	var results []*hresult
	var viols []*Violation
	violCfg := map[*Violation]harnessCfg{}
	knownSeen := map[string]*Violation{}
	for _, hc := range cfg.Harnesses {
		if *only != "" && hc.Fn != *only {
			continue
		}
		fn := pk.Func(hc.Fn)
		if fn == nil {
			fmt.Println("no harness function", hc.Fn)
			continue
		}
		params := map[string]int{}
		for k, v := range hc.Params {
			params[k] = v
		}
		budget := time.Duration(hc.Budget) * time.Second
		if hc.Budget == 0 {
			budget = 40 * time.Second
		}
		pre := hc.Preempt
		if *tier == "thorough" {
			for k, v := range hc.Thorough {
				params[k] = v
			}
			if hc.PreemptT > 0 {
				pre = hc.PreemptT
			}
			budget = time.Duration(hc.BudgetT) * time.Second
			if hc.BudgetT == 0 {
				budget = 240 * time.Second
			}
		}
		if *budgetF > 0 {
			budget = time.Duration(*budgetF) * time.Second
		}
		steps := hc.Steps
		if steps == 0 {
			steps = 3_000_000
		}
		h := &Harness{name: hc.Fn, fn: fn, params: params, preempt: pre}
		th := time.Now()
		x := explore(ws, h, budget, steps)
		vcBudget := 12 * time.Second
		if *tier == "thorough" {
			vcBudget = 60 * time.Second
		}
		x.vc = x.certify(vcBudget, *nw)
		r := &hresult{cfg: hc, x: x}
		r.cfg.Params = params
		r.cfg.Preempt = pre
		r.wall = time.Since(th)
		results = append(results, r)
		for _, v := range x.violations {
			viols = append(viols, v)
			violCfg[v] = hc
		}
		for k, v := range x.knownHits {
			if _, ok := known[k]; ok {
				knownSeen[k] = v
			} else {
				viols = append(viols, v)
				violCfg[v] = hc
			}
		}
		fmt.Printf("%s/%s %s: %d paths, %d pruned, %d decisions, %d assertions (%d symbolic), %d z3 queries (%d sat, %d unsat, %d unknown, %.1fs), %.1fs%s\n", id, hc.Fn, *tier, x.paths, x.pruned, x.transitions, x.asserts, x.assertsSym, x.queries, x.qsat, x.qunsat, x.qunknown, x.solverTime.Seconds(), r.wall.Seconds(), map[bool]string{true: " TIMEOUT (unexplored remainder)", false: ""}[x.timedOut])
		fmt.Printf("  verification condition: %s (%d decisions, %d queries to z3: %d unsat, %d sat, %d unknown, %d skipped; %.1fs)%s\n", x.vc.Verdict, x.vc.Nodes, x.vc.Queries, x.vc.Unsat, x.vc.Sat, x.vc.Unknown, x.vc.Skipped, x.vc.WallS, x.vc.Why)
		shown := 0
		for k, n := range x.cutReasons {
			if shown++; shown > 4 {
				fmt.Printf("  ... %d kinds of cuts\n", len(x.cutReasons))
				break
			}
			fmt.Printf("  cut %d: %s\n", n, strings.ReplaceAll(strings.TrimSpace(k), "\n", " < "))
		}
	}

	// confirm violations
	var confirmed []*Violation
	var unconfirmed []string
	for _, v := range viols {
		hc := violCfg[v]
		h := &Harness{name: hc.Fn, fn: pk.Func(hc.Fn), params: v.Params, preempt: v.Preempt}
		ok := false
		if !hc.NoNative && !v.Virtual {
			tries := 1
			for _, i := range v.Inputs {
				if i.Kind == "sched" || i.Kind == "maporder" {
					tries = 40
				}
			}
			var last string
			for k := 0; k < tries && !ok; k++ {
				r, err := nat.run(hc.Fn, v.Params, v.Inputs)
				if err != nil {
					last = err.Error()
					break
				}
				last = fmt.Sprintf("exit %d: %s", r.code, tail(r.out, 300))
				if r.reproduces(v) {
					ok = true
					v.Confirm = "native execution of the same inputs: " + last
				}
			}
			if !ok && tries == 1 {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s %v: native run gave %s", hc.Fn, v.Msg, readable(v.Inputs), last))
				continue
			}
		}
		if !ok {
			ev, end := engineReplay(ws[0], h, v.Inputs)
			if ev != nil && ev.Kind == v.Kind {
				ok = true
				v.Confirm = "concrete re-execution in the engine with the recorded inputs, schedule and map order"
			} else {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: engine replay ended %v", hc.Fn, v.Msg, end))
			}
		}
		if ok {
			confirmed = append(confirmed, v)
		}
	}

	// validate sampled paths natively
	var totalNat int64
	var mism []string
	for _, r := range results {
		if r.cfg.NoNative || nat == nil {
			continue
		}
		lim := 24
		if *tier == "thorough" {
			lim = 100
		}
		var todo []*Sample
		ss := r.x.samples
		step := max(1, len(ss)/lim)
		for i := 0; i < len(ss) && len(todo) < lim; i += step {
			if (!ss[i].Conc || r.cfg.Native) && !ss[i].Virt {
				todo = append(todo, ss[i])
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 6)
		var okN int64
		for _, s := range todo {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				nr, err := nat.run(r.cfg.Fn, r.cfg.Params, s.Inputs)
				msg := ""
				if err != nil {
					msg = err.Error()
				} else if nr.code != 0 {
					msg = fmt.Sprintf("native exit %d: %s", nr.code, tail(nr.out, 200))
				} else if ok, d := sameLogs(s.Logs, nr.logs); !ok {
					msg = d
				}
				if msg == "" {
					atomic.AddInt64(&okN, 1)
					return
				}
				mu.Lock()
				mism = append(mism, fmt.Sprintf("%s %v: %s", r.cfg.Fn, readable(s.Inputs), msg))
				mu.Unlock()
			}()
		}
		wg.Wait()
		r.nat = int(okN)
		totalNat += okN
	}
	for i, m := range mism {
		if i < 5 {
			fmt.Println("  MODEL MISMATCH:", m)
		}
	}
	for i, m := range unconfirmed {
		if i < 5 {
			fmt.Println("  UNCONFIRMED (not reported):", m)
		}
	}

	// evidence
	var states, trans int64
	var samples []any
	var hs []any
	funcs := map[string]bool{}
	exhaustive := true
	for _, r := range results {
		x := r.x
		states += x.paths
		trans += x.transitions
		for f := range x.funcs {
			funcs[f] = true
		}
		for i := 0; i < len(x.samples) && i < 3; i++ {
			s := x.samples[i*len(x.samples)/3%len(x.samples)]
			var lg []string
			for _, l := range s.Logs {
				lg = append(lg, fmt.Sprintf("%s=%q", l.Key, l.Val))
			}
			samples = append(samples, map[string]any{"harness": r.cfg.Fn, "inputs": readable(s.Inputs), "observed": lg, "covers": s.Covers})
		}
		if x.timedOut || x.cuts > 0 || x.leftover > 0 {
			exhaustive = false
		}
		hs = append(hs, map[string]any{"harness": r.cfg.Fn, "bounds": r.cfg.Params, "preemptions": r.cfg.Preempt, "paths": x.paths, "pruned_paths": x.pruned, "decisions": x.transitions,
			"assertions_checked": x.asserts, "symbolic_assertions": x.assertsSym, "smt_queries": x.queries, "smt_sat": x.qsat, "smt_unsat": x.qunsat, "smt_unknown": x.qunknown,
			"byte_domain_decisions": x.native, "of_which_cross_checked_with_z3": x.audits, "solver_s": round2(x.solverTime.Seconds()), "wall_s": round2(r.wall.Seconds()), "ssa_steps": x.steps, "cuts": x.cutReasons, "unexplored": x.leftover,
			"complete_within_bounds": !x.timedOut && x.cuts == 0 && x.leftover == 0, "covers": x.covers, "max_goroutines": x.goMax, "verification_condition": x.vc, "native_traces": r.nat, "why_no_native_replay": r.cfg.Why})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, totalNat
	cov["samples"] = samples
	cov["harnesses"] = hs
	cov["functions_encoded"] = fl
	cov["exhaustive"] = exhaustive
	cov["states_are"] = "complete symbolic paths of the harness through the SSA of the code under test; each stands for all inputs satisfying its path condition"
	cov["load_s"] = round2(loadT.Seconds())
	if len(mism) > 0 {
		cov["model_mismatches"] = mism
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	var kf []string
	for k := range knownSeen {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	if len(kf) > 0 {
		cov["known_findings_seen"] = kf
	}
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k])
	}
	rdir := filepath.Join(dir, "replays")
	for i, v := range confirmed {
		if i >= 4 {
			break
		}
		_ = os.MkdirAll(rdir, 0o755)
		var lg []string
		for _, l := range v.Logs {
			lg = append(lg, fmt.Sprintf("%s=%q", l.Key, l.Val))
		}
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(replayFile{Property: id, Pkg: cfg.Pkg, Harness: v.Harness, Kind: v.Kind, Msg: v.Msg, Params: v.Params, Inputs: v.Inputs, Readable: readable(v.Inputs), Logs: lg, Stack: v.Stack, Confirm: v.Confirm, Known: v.Known}, "", " ")
		_ = os.WriteFile(rp, b, 0o644)
		fmt.Printf("  %s in %s: %s\n    inputs: %s\n    observed: %s\n    confirmed by %s\n", v.Kind, v.Harness, v.Msg, strings.Join(readable(v.Inputs), "; "), strings.Join(lg, "; "), v.Confirm)
		if debugEngine {
			fmt.Println(v.Stack)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	}
	finish(len(confirmed))
	if len(confirmed) > 0 {
		return 1
	}
	fmt.Printf("%s held on everything explored (%d paths, %d native traces, %.1fs)\n", id, states, totalNat, time.Since(t0).Seconds())
	return 0
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 1
	}
	nat := buildNative(filepath.Join(verifDir(), "harness"), repoDir(), rf.Pkg, []string{rf.Harness})
	defer nat.close()
	r, err := nat.run(rf.Harness, rf.Params, rf.Inputs)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	fmt.Printf("native exit %d\n%s\n", r.code, r.out)
	for _, l := range r.logs {
		fmt.Printf("%s=%q\n", l.Key, l.Val)
	}
	return 0
}
