package main

import (
	"fmt"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path. For a k-way branch c is the chosen
// side. For a concretisation c==0 means value==v and c==1 means value!=v.
type Dec struct {
	c int32
	v uint64
}

// Item is a unit of exploration work: a decision prefix and a model (values of
// the path's variables by creation ordinal) that satisfies it.
type Item struct {
	pre   []Dec
	model []uint64
}

type abortKind int

const (
	abInfeasible abortKind = iota // an assumption cannot hold
	abUnsupported
	abSteps  // step limit
	abAlloc  // allocation limit
	abDepth  // recursion limit
	abSpec   // speculative region failed
	abBudget // time budget exhausted
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func (w *W) abort(k abortKind, format string, a ...any) {
	panic(&pathAbort{k, fmt.Sprintf(format, a...)})
}

// Rec is one value requested by the harness, in order, for native replay.
type Rec struct {
	kind string
	t    *Term // nil when concrete
	n    uint64
}

// W is one exploration worker.
type W struct {
	eng    *Engine
	id     int
	db     *TermDB
	sol    *Solver
	globs  []*V // by global index
	stdOK  map[int]bool
	frames int // call depth
	ctx    *harnessCtx

	// path state
	pre       []Dec
	decs      []Dec
	pc        []*Term
	pcSet     map[*Term]bool
	known     map[*Term]uint64
	model     Model
	ord       []*Term // variables by ordinal
	initM     []uint64
	recs      []Rec
	obs       []Obs
	reached   map[string]bool
	steps     int64
	nextCheck int64
	allocs    int64
	spec      int
	specVal   bool
	concCnt   map[string]int
	ufs       map[string]V
	natObs    map[string]any
	regStk    []V
	regTop    int
	bigFlag   bool
	trunc     string // reason why this path's claim is reduced
	stubs     map[string]bool
	symUsed   bool
	fnSeen    []bool
	undo      []undoEnt
	fsState   any
	topFrame  *Frame
	mapOrder  bool
	initDone  map[*ssa.Package]bool

	cos     []*coro
	cur     *coro
	coErr   any
	clock   int64
	coDying bool
	coAck   chan struct{}
	locks   map[any]int
	wgs     map[any]int
}

type Obs struct {
	label string
	v     obsVal
}

// obsVal is a value observed, kept symbolic until the path ends.
type obsVal struct {
	kind string // i,b,f,s
	n    uint64
	t    *Term
	b    []byte
	bt   []*Term
	sgn  bool
}

func (w *W) newVar(width uint8) *Term {
	k := len(w.ord)
	t := w.db.Var(fmt.Sprintf("x%d_%d", k, width), width)
	w.ord = append(w.ord, t)
	id := int(t.k)
	for len(w.model) <= id {
		w.model = append(w.model, 0)
	}
	var v uint64
	if k < len(w.initM) {
		v = w.initM[k]
		if width != WF64 {
			v &= maskw(width)
		}
	}
	w.model[id] = v
	return t
}

func (w *W) ordModel() []uint64 {
	m := make([]uint64, len(w.ord))
	for i, t := range w.ord {
		m[i] = w.model[t.k]
	}
	return m
}

// slice selects the path constraints connected to the variables of g.
func (w *W) slice(g *Term) []*Term {
	if len(w.pc) == 0 {
		return []*Term{g}
	}
	vs := g.vars
	used := make([]bool, len(w.pc))
	res := []*Term{g}
	for changed := true; changed; {
		changed = false
		for i := len(w.pc) - 1; i >= 0; i-- {
			if used[i] || !intersects(w.pc[i].vars, vs) {
				continue
			}
			used[i] = true
			res = append(res, w.pc[i])
			nv := unionVars(vs, w.pc[i].vars)
			if len(nv) != len(vs) {
				vs = nv
				changed = true
			}
		}
	}
	return res
}

func intersects(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

// query decides PC and g; on Sat it returns an ordinal model.
func (w *W) query(g *Term) (SatRes, []uint64) {
	if g.IsFalse() {
		return Unsat, nil
	}
	if w.pcSet[w.db.Not(g)] {
		return Unsat, nil
	}
	if w.ctx.over.Load() {
		w.abort(abBudget, "budget")
	}
	cs := w.slice(g)
	hard := false
	for _, c := range cs {
		hard = hard || c.hard
	}
	if hard {
		if om := w.guess(cs, 150); om != nil {
			return Sat, om
		}
	}
	res, vars, vals := w.sol.Check(cs)
	if res == Unknown && hard {
		if om := w.guess(cs, 5000); om != nil {
			return Sat, om
		}
	}
	if res != Sat {
		return res, nil
	}
	m := append(Model(nil), w.model...)
	for i, v := range vars {
		m[v] = vals[i]
	}
	// guard against a wrong model (floating point printing, solver errors)
	for _, c := range cs {
		if w.db.Eval(c, m) == 0 {
			w.eng.badModels.Add(1)
			return Unknown, nil
		}
	}
	om := make([]uint64, len(w.ord))
	for i, t := range w.ord {
		om[i] = m[t.k]
	}
	return Sat, om
}

var guessInts = []uint64{0, 1, ^uint64(0), 2, 3, 7, 1<<63 - 1, 1 << 63, 1<<53 + 1, ^uint64(1 << 53), 1 << 31, 1<<62 + 1, ^uint64(1), 100, 1<<32 + 1}

var guessFloats = []float64{0, 1, -1, 0.5, 3, 2.5, -7.25, 1 << 53, 1e17, 1e308, 5e-324, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1 << 63, 0.1}

// guess looks for a model of the constraints among special values, as queries with
// multiplications or floats can be hard to decide; a model found is verified like the
// solver's. Finding none says nothing.
func (w *W) guess(cs []*Term, tries int) []uint64 {
	var vars []int32
	for _, c := range cs {
		vars = unionVars(vars, c.vars)
	}
	if len(vars) == 0 || len(vars) > 12 {
		return nil
	}
	m := append(Model(nil), w.model...)
	for len(m) < len(w.db.vars) {
		m = append(m, 0)
	}
	rnd := uint64(88172645463325252)
	next := func() uint64 {
		rnd ^= rnd << 13
		rnd ^= rnd >> 7
		rnd ^= rnd << 17
		return rnd
	}
	base := append(Model(nil), m...)
	for t := 0; t < tries; t++ {
		for _, v := range vars {
			m[v] = base[v]
			if len(vars) > 1 && next()%4 == 0 {
				continue
			}
			var x uint64
			wd := w.db.vars[v].w
			switch r := next() >> 3; wd {
			case WBool:
				x = r & 1
			case WF64:
				if f := guessFloats[r%uint64(len(guessFloats))]; r&0x1000 == 0 {
					x = f2b(f)
				} else {
					x = f2b(float64(int64(next())>>(r>>16&63)) / 8)
				}
			default:
				switch x = guessInts[r%uint64(len(guessInts))]; {
				case r&0x3000 == 0:
					x = base[v] + uint64(int64(r>>20&7)-3)
				case r&0x1000 == 0:
					x = next() >> (r >> 20 & 63)
				}
				x &= maskw(wd)
			}
			m[v] = x
		}
		ok := true
		for _, c := range cs {
			if w.db.Eval(c, m) == 0 {
				ok = false
				break
			}
		}
		if ok {
			om := make([]uint64, len(w.ord))
			for i, t := range w.ord {
				om[i] = m[t.k]
			}
			return om
		}
	}
	return nil
}

func (w *W) addPC(g *Term) {
	if g.IsTrue() || w.pcSet[g] {
		return
	}
	// split conjunctions so that slicing is precise
	if g.op == OpAnd {
		w.addPC(g.a[0])
		w.addPC(g.a[1])
		return
	}
	if g.op == OpNot && g.a[0].op == OpOr {
		w.addPC(w.db.Not(g.a[0].a[0]))
		w.addPC(w.db.Not(g.a[0].a[1]))
		return
	}
	w.pcSet[g] = true
	w.pc = append(w.pc, g)
	if g.op == OpEq && g.a[1].op == OpConst {
		w.known[g.a[0]] = g.a[1].k
	}
}

func (w *W) setModel(om []uint64) {
	for i, t := range w.ord {
		if i < len(om) {
			w.model[t.k] = om[i]
		}
	}
}

// choose picks one of the guarded alternatives, which are assumed exhaustive
// and mutually exclusive; the others are queued when feasible.
func (w *W) choose(guards []*Term) int {
	live := -1
	nlive := 0
	for i, g := range guards {
		if g.IsTrue() {
			return i
		}
		if !g.IsFalse() {
			live = i
			nlive++
		}
	}
	if nlive == 0 {
		w.abort(abInfeasible, "no alternative")
	}
	// Implied syntactically by the path condition?
	for i, g := range guards {
		if w.pcSet[g] {
			return i
		}
	}
	if w.spec > 0 {
		w.abort(abSpec, "branch")
	}
	_ = live
	k := len(w.decs)
	if k < len(w.pre) {
		d := w.pre[k]
		if int(d.c) >= len(guards) {
			w.abort(abUnsupported, "replay of a path diverged")
		}
		w.decs = append(w.decs, d)
		w.addPC(guards[d.c])
		return int(d.c)
	}
	// free choice: the model's side
	sel := -1
	for i, g := range guards {
		if !g.IsFalse() && w.db.Eval(g, w.model) != 0 {
			sel = i
			break
		}
	}
	if sel < 0 {
		w.abort(abUnsupported, "model satisfies no alternative")
	}
	for i, g := range guards {
		if i == sel || g.IsFalse() {
			continue
		}
		res, om := w.query(g)
		switch res {
		case Sat:
			w.push(Dec{c: int32(i)}, om)
		case Unknown:
			w.ctx.unknown.Add(1)
		}
	}
	w.decs = append(w.decs, Dec{c: int32(sel)})
	w.addPC(guards[sel])
	return sel
}

func (w *W) push(d Dec, om []uint64) {
	pre := make([]Dec, len(w.decs)+1)
	copy(pre, w.decs)
	pre[len(w.decs)] = d
	w.ctx.push(Item{pre, om})
}

// branch decides a symbolic boolean.
func (w *W) branch(t *Term) bool {
	if t.op == OpConst {
		return t.k != 0
	}
	return w.choose([]*Term{w.db.Not(t), t}) == 1
}

func (w *W) truth(v V) bool {
	if t, ok := v.p.(*Term); ok {
		return w.branch(t)
	}
	return v.n != 0
}

// smallVars returns the variables of a float that depends on a few bytes only.
func (w *W) smallVars(t *Term) []*Term {
	if t.w != WF64 || len(t.vars) == 0 || len(t.vars) > 3 {
		return nil
	}
	var r []*Term
	for _, id := range t.vars {
		for _, v := range w.ord {
			if int32(v.k) == id && v.w == 8 {
				r = append(r, v)
			}
		}
	}
	if len(r) != len(t.vars) {
		return nil
	}
	return r
}

// floatToInt truncates a float; a float that comes from a few bytes is made
// concrete first, which is easier to decide.
func (w *W) floatToInt(t *Term) *Term {
	if w.spec == 0 && w.smallVars(t) != nil {
		t = w.db.Const(WF64, w.concretise(t, "float"))
	}
	return w.db.FToS(t)
}

// concretise forks until the term has a fixed value on this path.
func (w *W) concretise(t *Term, what string) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if v, ok := w.known[t]; ok {
		return v
	}
	if w.spec > 0 {
		w.abort(abSpec, "concretise")
	}
	if vs := w.smallVars(t); vs != nil {
		// Fixing the bytes a float comes from is easier to decide.
		m := append(Model{}, w.model...)
		for _, v := range vs {
			for int(v.k) >= len(m) {
				m = append(m, 0)
			}
			m[v.k] = w.concretise(v, what)
		}
		x := w.db.Eval(t, m)
		w.known[t] = x
		return x
	}
	lim := w.ctx.concLimit
	for n := 0; ; n++ {
		k := len(w.decs)
		if k < len(w.pre) {
			d := w.pre[k]
			w.decs = append(w.decs, d)
			eq := w.db.Eq(t, w.db.Const(t.w, d.v))
			if t.w == WF64 {
				eq = w.db.FEq(t, w.db.Const(WF64, d.v))
			}
			if d.c == 0 {
				w.addPC(eq)
				return d.v
			}
			w.addPC(w.db.Not(eq))
			continue
		}
		v := w.db.Eval(t, w.model)
		eq := w.db.Eq(t, w.db.Const(t.w, v))
		if n >= lim {
			w.ctx.note("concretisation of " + what + " truncated")
			w.ctx.truncated.Add(1)
		} else {
			res, om := w.query(w.db.Not(eq))
			switch res {
			case Sat:
				w.push(Dec{1, v}, om)
			case Unknown:
				w.ctx.unknown.Add(1)
			}
		}
		w.decs = append(w.decs, Dec{0, v})
		w.addPC(eq)
		return v
	}
}

// assume restricts the path to g.
func (w *W) assume(g *Term) {
	if g.IsTrue() {
		return
	}
	if w.spec > 0 {
		w.abort(abSpec, "assume")
	}
	if g.IsFalse() {
		w.abort(abInfeasible, "assume false")
	}
	if len(w.decs) >= len(w.pre) && w.db.Eval(g, w.model) == 0 {
		res, om := w.query(g)
		switch res {
		case Unsat:
			w.abort(abInfeasible, "assume")
		case Unknown:
			w.ctx.unknown.Add(1)
			w.abort(abUnsupported, "assumption undecided")
		}
		w.setModel(om)
	} else if len(w.decs) < len(w.pre) && w.db.Eval(g, w.model) == 0 {
		// the stored model satisfies the whole prefix, so it satisfies assumptions
		// made inside the prefix unless a variable was created later; re-solve then.
		res, om := w.query(g)
		if res != Sat {
			w.abort(abInfeasible, "assume (prefix)")
		}
		w.setModel(om)
	}
	w.addPC(g)
}

// assert checks that g holds on every continuation of this path.
func (w *W) assert(g *Term, msg string) {
	w.ctx.asserts.Add(1)
	if g.IsTrue() {
		return
	}
	if w.spec > 0 {
		w.abort(abSpec, "assert")
	}
	if len(w.decs) < len(w.pre) {
		// already checked on an earlier path with the same prefix
		w.addPC(g)
		return
	}
	ng := w.db.Not(g)
	w.ctx.assertQ.Add(1)
	res, om := w.query(ng)
	if res == Sat {
		w.violation(msg, om)
		if g.IsFalse() {
			w.abort(abInfeasible, "assertion always fails here")
		}
		r2, om2 := w.query(g)
		if r2 != Sat {
			w.abort(abInfeasible, "assertion fails")
		}
		w.setModel(om2)
	} else if res == Unknown {
		w.ctx.unknown.Add(1)
		w.ctx.note("assertion undecided: " + msg)
		if w.db.Eval(g, w.model) == 0 {
			w.violation(msg, w.ordModel())
		}
	} else if w.db.Eval(g, w.model) == 0 {
		w.abort(abUnsupported, "model inconsistent at assertion")
	}
	w.addPC(g)
}

func (w *W) violation(msg string, om []uint64) {
	w.ctx.addViolation(&Violation{
		Harness: w.ctx.name, Msg: msg, Values: w.nativeValues(om), Decs: append([]Dec(nil), w.decs...),
	})
}

// nativeValues renders the harness's requested values under a model.
func (w *W) nativeValues(om []uint64) []NatVal {
	m := append(Model(nil), w.model...)
	for i, t := range w.ord {
		if i < len(om) {
			m[t.k] = om[i]
		}
	}
	r := make([]NatVal, len(w.recs))
	for i, rc := range w.recs {
		v := rc.n
		if rc.t != nil {
			v = w.db.Eval(rc.t, m)
			if rc.t.w != WBool && rc.t.w != WF64 {
				if rc.kind == "i" {
					v = uint64(sextw(v, rc.t.w))
				}
			}
		}
		r[i] = NatVal{rc.kind, v}
	}
	return r
}

type NatVal struct {
	K string `json:"k"`
	V uint64 `json:"v,string"`
}

type Violation struct {
	Harness string
	Msg     string
	Values  []NatVal
	Decs    []Dec
	Kind    string
	Detail  string
	Known   string
}
