package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// CheckCfg configures the check of one property.
type CheckCfg struct {
	Title       string      `json:"title"`
	Bounds      []string    `json:"bounds"`
	Outside     []string    `json:"outside"`
	Assumptions []string    `json:"assumptions"`
	Harnesses   []CheckHarn `json:"harnesses"`
}

type CheckHarn struct {
	HarnessCfg
	Quick    *HarnessCfg `json:"quick"`
	Thorough *HarnessCfg `json:"thorough"`
	Reach    []string    `json:"reach"`
	Repeat   int         `json:"repeat"`
	What     string      `json:"what"`
}

func (h CheckHarn) forTier(tier string) (HarnessCfg, bool) {
	c := h.HarnessCfg
	o := h.Quick
	if tier == "thorough" {
		o = h.Thorough
		if o == nil {
			o = h.Quick
		}
	}
	if o != nil {
		p := map[string]int{}
		for k, v := range c.Params {
			p[k] = v
		}
		for k, v := range o.Params {
			p[k] = v
		}
		c.Params = p
		if o.Budget > 0 {
			c.Budget = o.Budget
		} else if o.Budget < 0 {
			return c, false
		}
		if o.Steps > 0 {
			c.Steps = o.Steps
		}
		if o.Conc > 0 {
			c.Conc = o.Conc
		}
		if o.TmoMS > 0 {
			c.TmoMS = o.TmoMS
		}
	}
	return c, true
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(8 << 30)
	if len(os.Args) < 2 {
		fatal("usage: engine check|run|replay ...")
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func loadChecks(root string) map[string]*CheckCfg {
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	m := map[string]*CheckCfg{}
	if err := json.Unmarshal(b, &m); err != nil {
		fatal("checks.json: %v", err)
	}
	return m
}

// cmdRun is a development aid: explore one harness and print what was found.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	fn := fs.String("fn", "", "")
	ps := fs.String("p", "", "k=v,k=v")
	budget := fs.Float64("budget", 60, "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	steps := fs.Int64("steps", 0, "")
	prof := fs.String("prof", "", "")
	nomerge := fs.Bool("nomerge", false, "")
	samples := fs.Int("samples", 0, "")
	conc := fs.Int("conc", 0, "")
	verbose := fs.Bool("v", false, "")
	solver := fs.String("solver", "", "")
	fs.Parse(args)
	nat := buildNative(filepath.Join(*root, "harness"))
	defer nat.Close()
	t0 := time.Now()
	e, err := LoadEngine(filepath.Join(*root, "harness"))
	if err != nil {
		fatal("load: %v", err)
	}
	e.verbose = *verbose
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	params := map[string]int{}
	for _, kv := range strings.Split(*ps, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			n, _ := strconv.Atoi(kv[i+1:])
			params[kv[:i]] = n
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, name := range strings.Split(*fn, ",") {
		h := HarnessCfg{Fn: name, Params: params, Budget: *budget, Steps: *steps, NoMerge: *nomerge, Samples: *samples, Conc: *conc, Solver: *solver}
		c := e.Explore(h, *workers, 1)
		printCtx(c)
		for i, v := range c.viols {
			if i > 12 {
				break
			}
			ok, d := nat.confirm(v, params, 1)
			fmt.Printf("VIOL %q detail=%s values=%s\n   native: %v %s\n", v.Msg, v.Detail, valStr(v.Values), ok, d)
		}
		vr := validate(nat, c, params)
		fmt.Printf("validated %d/%d mismatches %d native-violations %d\n", vr.ok, vr.total, len(vr.mismatch), len(vr.viols))
		for i, m := range vr.mismatch {
			if i < 5 {
				fmt.Println("  MISMATCH", m)
			}
		}
		for _, v := range vr.viols {
			fmt.Println("  NATIVE-VIOL", v.Msg, valStr(v.Values))
		}
		if *verbose {
			for i, s := range c.samples {
				if s != nil && i < 10 {
					fmt.Printf("  sample %s %v\n", valStr(s.Values), s.Obs)
				}
			}
		}
	}
}

func printCtx(c *harnessCtx) {
	fmt.Printf("== %s: paths=%d completed=%d infeasible=%d panics=%d forks=%d steps=%d asserts=%d assertQ=%d unknown=%d trunc=%d timeout=%v %.1fs stack=%d\n", c.name, c.paths.Load(), c.completed.Load(), c.infeasible.Load(), c.panics.Load(),
		c.forks.Load(), c.steps.Load(), c.asserts.Load(), c.assertQ.Load(), c.unknown.Load(), c.truncated.Load(), c.timeout, c.elapsed.Seconds(), len(c.stack))
	s := c.solver
	fmt.Printf("   solver: q=%d sat=%d unsat=%d unk=%d cache=%d time=%.1fs err=%d cross=%d bad=%d badmodels\n", s.Queries, s.SatN, s.UnsatN, s.UnknownN, s.CacheHits, s.Time.Seconds(), s.Errors, s.Cross, s.CrossBad)
	for _, k := range sortedKeys(c.unsup) {
		fmt.Printf("   unsupported %dx %s\n", c.unsup[k], k)
	}
	for _, k := range sortedKeys(c.notes) {
		fmt.Printf("   note %dx %s\n", c.notes[k], k)
	}
	fmt.Printf("   reached: %v\n", c.reached)
	for k, n := range c.violKey {
		fmt.Printf("   violations %dx %q\n", n, k)
	}
}

func valStr(v []NatVal) string {
	var sb strings.Builder
	for i, x := range v {
		if i > 60 {
			sb.WriteString(" ...")
			break
		}
		if x.K == "u" && x.V >= 32 && x.V < 127 {
			fmt.Fprintf(&sb, " %d%q", x.V, rune(x.V))
		} else {
			fmt.Fprintf(&sb, " %d", int64(x.V))
		}
	}
	return sb.String()
}

type valResult struct {
	total, ok int
	mismatch  []string
	viols     []*Violation
	traces    []string
}

// validate runs sampled paths natively and compares the observations.
// dumpSamples writes the inputs of the sample paths to the directory VERIF_DUMP
// (development: a quick native pass over changed code).
func dumpSamples(id string, c *harnessCtx, params map[string]int) {
	dir := os.Getenv("VERIF_DUMP")
	if dir == "" {
		return
	}
	var cases []natCase
	for _, s := range c.samples {
		if s != nil && s.Outcome == "ok" {
			cases = append(cases, natCase{c.name, params, s.Values, 1})
		}
	}
	b, _ := json.Marshal(cases)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", id, c.name, hash64(uint64(len(b))+uint64(len(cases))*1000003))), b, 0644)
}

func validate(nat *Native, c *harnessCtx, params map[string]int) (vr valResult) {
	var cases []natCase
	var smp []*Sample
	for _, s := range c.samples {
		if s == nil {
			continue
		}
		smp = append(smp, s)
		cases = append(cases, natCase{c.name, params, s.Values, 1})
	}
	if len(cases) == 0 {
		return
	}
	res, st := nat.run(cases, 40*time.Second)
	if st != "done" {
		// one by one
		res = nil
		var ns []*Sample
		for i := range cases {
			r, st := nat.run(cases[i:i+1], 10*time.Second)
			if len(r) == 1 {
				res = append(res, r[0])
				ns = append(ns, smp[i])
			} else {
				vr.mismatch = append(vr.mismatch, fmt.Sprintf("native %s on %s", st, valStr(cases[i].Values)))
				vr.viols = append(vr.viols, &Violation{Harness: c.name, Msg: "does not terminate or crashes", Kind: "limit", Values: cases[i].Values})
			}
		}
		smp = ns
	}
	for i, r := range res {
		s := smp[i]
		vr.total++
		if r.Kind == "assert" || r.Kind == "panic" {
			vr.viols = append(vr.viols, &Violation{Harness: c.name, Msg: r.Msg, Kind: r.Kind, Values: s.Values})
			continue
		}
		if s.Outcome != "ok" {
			vr.total--
			continue
		}
		if r.Kind != "ok" || len(r.Obs) != len(s.Obs) {
			vr.mismatch = append(vr.mismatch, fmt.Sprintf("native outcome %s %s obs %v, engine obs %v, inputs %s", r.Kind, r.Msg, r.Obs, s.Obs, valStr(s.Values)))
			continue
		}
		good := true
		for k := range r.Obs {
			if r.Obs[k] != s.Obs[k] {
				vr.mismatch = append(vr.mismatch, fmt.Sprintf("%s: native %s engine %s inputs %s", r.Obs[k].L, r.Obs[k].V, s.Obs[k].V, valStr(s.Values)))
				good = false
				break
			}
		}
		if good {
			vr.ok++
		}
	}
	return
}

type replayFile struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Values   []NatVal       `json:"values"`
	Message  string         `json:"message"`
	Detail   string         `json:"detail"`
	Native   string         `json:"native"`
	Repeat   int            `json:"repeat"`
}

// limit is the time for the exploration of a check's harnesses, in seconds.
var limit = map[string]float64{"quick": 660, "thorough": 3000}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	id := fs.String("id", "", "")
	tier := fs.String("tier", "", "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	only := fs.String("only", "", "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	cfg := loadChecks(*root)[*id]
	if cfg == nil {
		fatal("no check %s", *id)
	}
	nat := buildNative(filepath.Join(*root, "harness"))
	e, err := LoadEngine(filepath.Join(*root, "harness"))
	if err != nil {
		nat.Close()
		fatal("load: %v", err)
	}
	nat.wg.Wait()
	if nat.err != nil {
		err := nat.err
		nat.Close()
		fatal("%v", err)
	}
	known := loadKnown(*root, *id)
	code := 0
	ev := newEvidence(*id, *tier, seed, cfg)
	nv := 0
	knownSeen := map[string]bool{}
	os.MkdirAll(filepath.Join(*root, "replays"), 0755)
	for _, ch := range cfg.Harnesses {
		hc, on := ch.forTier(*tier)
		if !on || (*only != "" && *only != hc.Fn) {
			continue
		}
		if hc.Budget == 0 {
			hc.Budget = 60
		}
		// all of the harnesses have to fit in the time that a check has
		if left := limit[*tier] - time.Since(t0).Seconds(); hc.Budget > left {
			hc.Budget = max(left, 10)
		}
		if code == 1 {
			hc.Budget = min(hc.Budget, 30) // there is a violation already
		}
		if n, _ := strconv.Atoi(os.Getenv("VERIF_SAMPLES")); n > 0 && hc.Samples == 0 {
			hc.Samples = n // development: more sample paths
		}
		c := e.Explore(hc, *workers, seed)
		dumpSamples(*id, c, hc.Params)
		rep := ch.Repeat
		if rep == 0 {
			rep = 1
		}
		inconclusive := []string{}
		vr := validate(nat, c, hc.Params)
		viols := append(append([]*Violation(nil), c.viols...), vr.viols...)
		done := map[string]bool{}
		confirmed := 0
		for _, v := range viols {
			key := v.Msg
			if done[key] {
				continue
			}
			if confirmed >= 5 {
				break
			}
			ok, d := nat.confirm(v, hc.Params, rep)
			if !ok {
				inconclusive = append(inconclusive, v.Msg+" ["+v.Detail+"]: native: "+d)
				continue
			}
			done[key] = true
			if v.Known != "" && known[v.Known] != "" {
				if !knownSeen[v.Known] {
					knownSeen[v.Known] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, known[v.Known])
				}
				continue
			}
			confirmed++
			nv++
			path := filepath.Join(*root, "replays", fmt.Sprintf("%s-%d.json", *id, nv))
			b, _ := json.MarshalIndent(replayFile{*id, v.Harness, hc.Params, v.Values, v.Msg, v.Detail, d, rep}, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("%s: %s [%s]\n  native run: %s\n", v.Harness, v.Msg, v.Detail, d)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
			code = 1
		}
		ev.add(ch, hc, c, vr, inconclusive, confirmed)
		var miss []string
		for _, l := range ch.Reach {
			if c.reached[l] == 0 {
				miss = append(miss, l)
			}
		}
		fmt.Printf("%s: paths=%d forks=%d queries=%d solver=%.1fs asserts=%d unknown=%d unsupported=%d truncated=%d timeout=%v validated=%d/%d mismatches=%d inconclusive=%d %.1fs\n", hc.Fn, c.paths.Load(), c.forks.Load(),
			c.solver.Queries, c.solver.Time.Seconds(), c.asserts.Load(), c.unknown.Load(), sumMap(c.unsup), c.truncated.Load(), c.timeout, vr.ok, vr.total, len(vr.mismatch), len(inconclusive), c.elapsed.Seconds())
		if len(miss) > 0 {
			fmt.Printf("  witnesses not reached: %v\n", miss)
		}
		if code == 1 && *only == "" && (nv >= 3 || time.Since(t0) > 60*time.Second) {
			break
		}
	}
	nat.Close()
	ev.write(filepath.Join(*root, "evidence", *id+".json"), e, time.Since(t0).Seconds(), nv, nat.runs)
	os.Exit(code)
}

func sumMap(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

// loadKnown reads "known: property=ID key=KEY text" lines.
func loadKnown(root, id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[f[2][4:]] = f[3]
		}
	}
	return m
}

func cmdReplay(args []string) {
	if len(args) < 1 {
		fatal("usage: engine replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	root := "/verif"
	if len(args) > 1 {
		root = args[1]
	}
	nat := buildNative(filepath.Join(root, "harness"))
	defer nat.Close()
	ok, d := nat.confirm(&Violation{Harness: r.Harness, Msg: r.Message, Values: r.Values}, r.Params, r.Repeat)
	fmt.Printf("reproduced=%v %s\n", ok, d)
}

// ---- evidence

type evidence struct {
	id, tier                                                       string
	seed                                                           int64
	cfg                                                            *CheckCfg
	states, trans, traces, asserts, assertQ, unknown, trunc, unsup int64
	exh                                                            bool
	solver                                                         SolverStats
	per                                                            []map[string]any
	samples                                                        []any
	fns                                                            map[string]bool
}

func newEvidence(id, tier string, seed int64, cfg *CheckCfg) *evidence {
	return &evidence{id: id, tier: tier, seed: seed, cfg: cfg, exh: true, fns: map[string]bool{}}
}

func (ev *evidence) add(ch CheckHarn, hc HarnessCfg, c *harnessCtx, vr valResult, inconclusive []string, confirmed int) {
	ev.states += c.paths.Load() - c.infeasible.Load()
	ev.trans += c.forks.Load() + c.assertQ.Load()
	ev.traces += int64(vr.ok)
	ev.asserts += c.asserts.Load()
	ev.assertQ += c.assertQ.Load()
	ev.unknown += c.unknown.Load()
	ev.trunc += c.truncated.Load()
	ev.unsup += int64(sumMap(c.unsup))
	ev.solver.Add(&c.solver)
	if c.timeout || c.stop || c.unknown.Load() > 0 || c.truncated.Load() > 0 || len(c.unsup) > 0 {
		ev.exh = false
	}
	for f := range c.fns {
		ev.fns[f] = true
	}
	miss := []string{}
	for _, l := range ch.Reach {
		if c.reached[l] == 0 {
			miss = append(miss, l)
		}
	}
	m := map[string]any{
		"harness": hc.Fn, "what": ch.What, "params": hc.Params, "paths": c.paths.Load(), "completed": c.completed.Load(), "infeasible": c.infeasible.Load(),
		"forks": c.forks.Load(), "steps": c.steps.Load(), "asserts": c.asserts.Load(), "assert_queries": c.assertQ.Load(), "undecided": c.unknown.Load(),
		"truncated_concretisations": c.truncated.Load(), "budget_exhausted": c.timeout, "wall_s": c.elapsed.Seconds(), "solver_queries": c.solver.Queries, "solver_time_s": c.solver.Time.Seconds(),
		"paths_validated": vr.ok, "validation_mismatches": len(vr.mismatch), "violations_confirmed": confirmed, "step_limit": c.stepLimit,
	}
	if len(c.unsup) > 0 {
		m["unsupported"] = c.unsup
	}
	if len(c.notes) > 0 {
		m["notes"] = c.notes
	}
	if len(miss) > 0 {
		m["witnesses_not_reached"] = miss
	}
	if len(inconclusive) > 0 {
		m["inconclusive"] = inconclusive
	}
	if len(vr.mismatch) > 0 {
		k := vr.mismatch
		if len(k) > 5 {
			k = k[:5]
		}
		m["mismatch_examples"] = k
	}
	m["reached"] = c.reached
	ev.per = append(ev.per, m)
	for i, s := range c.samples {
		if s == nil || i >= 3 {
			continue
		}
		ev.samples = append(ev.samples, map[string]any{"harness": hc.Fn, "inputs": strings.TrimSpace(valStr(s.Values)), "observed": s.Obs, "outcome": s.Outcome})
	}
}

func (ev *evidence) write(path string, e *Engine, wall float64, nv int, natRuns int) {
	var repo, std []string
	for f := range ev.fns {
		switch {
		case strings.Contains(f, "github.com/rveen/"):
			repo = append(repo, f)
		case strings.Contains(f, "verif/harness"):
		default:
			std = append(std, f)
		}
	}
	sort.Strings(repo)
	sort.Strings(std)
	cov := map[string]any{
		"states": ev.states, "transitions": ev.trans, "traces_validated_against_impl": ev.traces, "samples": ev.samples, "exhaustive": ev.exh,
		"meaning": "states: symbolic paths explored to their end (each covers every input satisfying its path condition); transitions: symbolic branch alternatives found feasible plus assertion queries; traces validated: paths whose solver model was run on the natively compiled code with identical observations",
		"bounds":  ev.cfg.Bounds, "outside_bounds": ev.cfg.Outside, "functions_encoded": repo, "library_functions_encoded": std,
		"assertions_evaluated": ev.asserts, "assertion_queries": ev.assertQ, "solver_queries": ev.solver.Queries, "solver_sat": ev.solver.SatN, "solver_unsat": ev.solver.UnsatN,
		"solver_unknown": ev.solver.UnknownN, "solver_cache_hits": ev.solver.CacheHits, "solver_time_s": ev.solver.Time.Seconds(), "solver_cross_checked": ev.solver.Cross, "solver_disagreements": ev.solver.CrossBad,
		"undecided": ev.unknown, "truncated": ev.trunc, "unsupported_paths": ev.unsup, "native_runs": natRuns, "harnesses": ev.per,
	}
	ass := append([]string{"the Go SSA form of golang.org/x/tools is a faithful rendering of the source", "the engine's translation of SSA to SMT (cross-validated by native replay of sampled paths)", "z3 4.8.12 (a sample of queries cross-checked with cvc5)"}, ev.cfg.Assumptions...)
	out := map[string]any{"property": ev.id, "tier": ev.tier, "seed": ev.seed, "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": wall, "violations": nv}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("%v", err)
	}
}
