package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harnessCtx is the shared state of one harness's exploration.
type harnessCtx struct {
	name       string
	params     map[string]int
	stepLimit  int64
	stackLimit int // frames
	allocLimit int64
	concLimit  int
	deadline   time.Time
	maxPaths   int64

	unknown, truncated, asserts, assertQ atomic.Int64
	paths, completed, infeasible, panics atomic.Int64
	forks, steps                         atomic.Int64

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []Item
	busy    int
	stop    bool
	over    atomic.Bool
	timeout bool
	notes   map[string]int
	unsup   map[string]int
	viols   []*Violation
	violKey map[string]int
	reached map[string]int
	fns     map[string]bool
	samples []*Sample
	nSeen   int64
	maxSamp int
	solver  SolverStats
	start   time.Time
	elapsed time.Duration
}

// Sample is a completed path kept for validation against the native code.
type Sample struct {
	Values  []NatVal
	Obs     []NatObs
	Outcome string
}

type NatObs struct {
	L string `json:"l"`
	V string `json:"v"`
}

func (c *harnessCtx) note(s string) {
	c.mu.Lock()
	c.notes[s]++
	c.mu.Unlock()
}

func (c *harnessCtx) push(it Item) {
	c.forks.Add(1)
	c.mu.Lock()
	c.stack = append(c.stack, it)
	c.cond.Signal()
	c.mu.Unlock()
}

const maxViolPerKey = 6

func (c *harnessCtx) addViolation(v *Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	k := v.Msg
	c.violKey[k]++
	if c.violKey[k] > maxViolPerKey {
		return
	}
	c.viols = append(c.viols, v)
	// the rest of the exploration only looks for violations of other kinds
	if d := time.Now().Add(45 * time.Second); d.Before(c.deadline) {
		c.deadline = d
	}
	if len(c.violKey) >= 12 || len(c.viols) > 40 {
		c.stop = true
		c.cond.Broadcast()
	}
}

func (c *harnessCtx) pop() (Item, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.stop {
			return Item{}, false
		}
		if time.Now().After(c.deadline) {
			c.timeout = true
			c.stop = true
			c.cond.Broadcast()
			return Item{}, false
		}
		if n := len(c.stack); n > 0 {
			it := c.stack[n-1]
			c.stack[n-1] = Item{}
			c.stack = c.stack[:n-1]
			c.busy++
			return it, true
		}
		if c.busy == 0 {
			c.cond.Broadcast()
			return Item{}, false
		}
		c.cond.Wait()
	}
}

func (c *harnessCtx) done() {
	c.mu.Lock()
	c.busy--
	if c.busy == 0 && len(c.stack) == 0 {
		c.cond.Broadcast()
	}
	c.mu.Unlock()
}

// HarnessCfg says how one harness is explored.
type HarnessCfg struct {
	Fn      string         `json:"fn"`
	Params  map[string]int `json:"params"`
	Budget  float64        `json:"budget"`
	Steps   int64          `json:"steps"`
	Alloc   int64          `json:"alloc"`
	Conc    int            `json:"conc"`
	Samples int            `json:"samples"`
	NoMerge bool           `json:"nomerge"`
	Solver  string         `json:"solver"`
	TmoMS   int            `json:"solver_timeout_ms"`
}

func (e *Engine) Explore(h HarnessCfg, workers int, seed int64) *harnessCtx {
	f := e.harnPkg.Func(h.Fn)
	if f == nil {
		fatal("no harness function %s", h.Fn)
	}
	c := &harnessCtx{name: h.Fn, params: h.Params, stepLimit: h.Steps, allocLimit: h.Alloc, concLimit: h.Conc,
		notes: map[string]int{}, unsup: map[string]int{}, violKey: map[string]int{}, reached: map[string]int{}, fns: map[string]bool{}, maxSamp: h.Samples}
	c.stackLimit = maxDepth
	if n := h.Params["stack"]; n > 0 {
		c.stackLimit = n
	}
	if c.stepLimit == 0 {
		c.stepLimit = 3_000_000
	}
	if c.allocLimit == 0 {
		c.allocLimit = 64 << 20
	}
	if c.concLimit == 0 {
		c.concLimit = 300
	}
	if c.maxSamp == 0 {
		c.maxSamp = 24
	}
	if h.Budget == 0 {
		h.Budget = 60
	}
	if h.TmoMS == 0 {
		h.TmoMS = 4000
	}
	if h.Solver == "" {
		h.Solver = e.solverBin
	}
	c.cond = sync.NewCond(&c.mu)
	c.start = time.Now()
	c.deadline = c.start.Add(time.Duration(h.Budget * float64(time.Second)))
	c.stack = []Item{{}}
	e.noMerge = h.NoMerge
	fn := e.fnOf(f)
	stopTick := make(chan bool)
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopTick:
				return
			case <-t.C:
				c.mu.Lock()
				if time.Now().After(c.deadline) {
					c.timeout = c.timeout || len(c.stack) > 0 || c.busy > 0
					c.stop = true
					if time.Now().After(c.deadline.Add(3 * time.Second)) {
						c.over.Store(true)
					}
				}
				c.cond.Broadcast()
				c.mu.Unlock()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(e, i, c, h.Solver, h.TmoMS)
			defer w.close()
			for {
				it, ok := c.pop()
				if !ok {
					return
				}
				w.runPath(fn, it, seed)
				c.done()
				if len(w.db.m) > 3_000_000 {
					w.flush(h.Solver, h.TmoMS)
				}
			}
		}(i)
	}
	wg.Wait()
	close(stopTick)
	c.elapsed = time.Since(c.start)
	return c
}

func newWorker(e *Engine, id int, c *harnessCtx, solver string, tmo int) *W {
	w := &W{eng: e, id: id, ctx: c}
	w.flush(solver, tmo)
	return w
}

func (w *W) flush(solver string, tmo int) {
	if w.sol != nil {
		w.close()
	}
	w.db = NewTermDB()
	w.sol = NewSolver(w.db, solver, tmo)
	if solver == "z3" {
		x := NewSolver(w.db, "cvc5", tmo)
		w.sol.cross = x
		w.sol.crossMod = 997
	}
	w.globs = nil
	w.initDone = map[*ssa.Package]bool{}
}

func (w *W) close() {
	w.ctx.mu.Lock()
	w.ctx.solver.Add(&w.sol.Stats)
	for i, s := range w.fnSeen {
		if s {
			w.eng.fnMu.Lock()
			f := w.eng.fnList[i]
			w.eng.fnMu.Unlock()
			w.ctx.fns[f.name] = true
		}
	}
	w.ctx.mu.Unlock()
	w.sol.Stats = SolverStats{}
	w.sol.Close()
}

func (w *W) resetPath(it Item) {
	w.pre, w.decs = it.pre, nil
	w.pc = nil
	w.pcSet = map[*Term]bool{}
	w.known = map[*Term]uint64{}
	w.model = w.model[:0]
	for i := 0; i < len(w.db.vars); i++ {
		w.model = append(w.model, 0)
	}
	w.ord = nil
	w.initM = it.model
	w.recs, w.obs = nil, nil
	w.reached = map[string]bool{}
	w.steps, w.allocs, w.nextCheck = 0, 0, 0
	w.spec = 0
	w.concCnt = map[string]int{}
	w.trunc = ""
	w.frames = 0
	w.topFrame = nil
	w.mapOrder = false
	w.clock = clockStart
	w.regTop = 0
	w.fsState = nil
	// packages under test start fresh on every path
	for i, g := range w.globs {
		if g == nil {
			continue
		}
		p := w.eng.globList[i].Pkg
		if w.eng.repoPkgs[p] {
			w.globs[i] = nil
		}
	}
	for p := range w.initDone {
		if w.eng.repoPkgs[p] {
			delete(w.initDone, p)
		}
	}
}

func (w *W) runPath(fn *Fn, it Item, seed int64) {
	c := w.ctx
	w.resetPath(it)
	w.eng.globMu.Lock()
	n := len(w.eng.globList)
	w.eng.globMu.Unlock()
	for len(w.globs) < n {
		w.globs = append(w.globs, nil)
	}
	outcome := "ok"
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch x := e.(type) {
			case *pathAbort:
				switch x.kind {
				case abInfeasible:
					outcome = "infeasible"
				case abSteps, abAlloc, abDepth:
					outcome = "limit"
					kind := map[abortKind]string{abSteps: "does not terminate within the step bound", abAlloc: "memory use exceeds the bound", abDepth: "unbounded recursion"}[x.kind]
					c.addViolation(&Violation{Harness: c.name, Msg: kind, Values: w.nativeValues(w.ordModel()), Kind: "limit", Detail: x.msg})
				case abUnsupported:
					outcome = "unsupported"
					c.mu.Lock()
					c.unsup[x.msg]++
					c.mu.Unlock()
				case abBudget:
					outcome = "budget"
				default:
					outcome = "unsupported"
					c.mu.Lock()
					c.unsup["internal: "+x.msg]++
					c.mu.Unlock()
				}
			case *tpanic:
				outcome = "panic"
				c.panics.Add(1)
				c.addViolation(&Violation{Harness: c.name, Msg: "panic: " + x.msg, Detail: x.pos, Values: w.nativeValues(w.ordModel()), Kind: "panic"})
			default:
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(e)
				}
				outcome = "unsupported"
				c.mu.Lock()
				c.unsup[fmt.Sprintf("engine error: %v (in %s)", e, w.where(w.topFrame))]++
				c.mu.Unlock()
			}
		}()
		w.call(fn, nil, nil, nil)
	}()
	w.coEnd()
	c.steps.Add(w.steps)
	c.paths.Add(1)
	if outcome == "infeasible" {
		c.infeasible.Add(1)
		return
	}
	if outcome == "ok" {
		c.completed.Add(1)
	}
	var smp *Sample
	c.mu.Lock()
	for l := range w.reached {
		c.reached[l]++
	}
	c.nSeen++
	// reservoir sampling, deterministic in the seed
	slot := -1
	if len(c.samples) < c.maxSamp {
		slot = len(c.samples)
		c.samples = append(c.samples, nil)
	} else if r := int64(hash64(uint64(c.nSeen)*0x9e3779b97f4a7c15+uint64(seed)) % uint64(c.nSeen)); r < int64(c.maxSamp) {
		slot = int(r)
	}
	c.mu.Unlock()
	if slot >= 0 && (outcome == "ok" || outcome == "unsupported") {
		om := w.ordModel()
		smp = &Sample{Values: w.nativeValues(om), Outcome: outcome}
		if outcome == "ok" {
			for _, o := range w.obs {
				smp.Obs = append(smp.Obs, NatObs{o.label, w.obsString(o.v)})
			}
		}
		c.mu.Lock()
		c.samples[slot] = smp
		c.mu.Unlock()
	}
}

func hash64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (w *W) obsString(o obsVal) string {
	switch o.kind {
	case "s":
		b := append([]byte(nil), o.b...)
		for i, t := range o.bt {
			if t != nil {
				b[i] = byte(w.db.Eval(t, w.model))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case "i":
		n := o.n
		if o.t != nil {
			n = uint64(sextw(w.db.Eval(o.t, w.model), o.t.w))
		}
		return fmt.Sprintf("%d", int64(n))
	case "b":
		n := o.n
		if o.t != nil {
			n = w.db.Eval(o.t, w.model)
		}
		return fmt.Sprintf("%v", n != 0)
	case "f":
		n := o.n
		if o.t != nil {
			n = w.db.Eval(o.t, w.model)
		}
		f := b2f(n)
		if f != f {
			return "NaN"
		}
		return fmt.Sprintf("%x", n)
	}
	return "?"
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
