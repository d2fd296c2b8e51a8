package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Fn is a compiled function, shared by all workers.
type Fn struct {
	f        *ssa.Function
	name     string
	id       int
	once     sync.Once
	ready    atomic.Bool
	nregs    int
	blocks   []*Blk
	recover  *Blk
	intr     func(w *W, fr *Frame, args []V) V
	intrPure bool
	conc     bool
	model    *Fn // replacement written in Go (interpreted)
	instrs   int
	pkgStd   bool
	resT     []types.Type
	ninstr   int
	free0    int // register of the first free variable
	hasDefer bool
	regT     []types.Type
}

type termKind uint8

const (
	tkJump termKind = iota
	tkIf
	tkReturn
	tkPanic
	tkNone
)

type phiNode struct {
	reg   int
	edges []opd
	t     types.Type
	ii    intInfo
	isInt bool
}

type Blk struct {
	idx    int
	phis   []phiNode
	ins    []func(fr *Frame)
	kind   termKind
	cond   opd
	succ   [2]*Blk
	predIx [2]int // index of this block among succ's preds
	ret    []opd
	pure   bool
	ipdom  *Blk // nil = exit
	pos    token.Pos
	outs   []int   // registers written by the block's instructions and phis
	live   []int   // registers live on entry (phis excluded)
	back   [2]bool // successor edge is a loop back edge
}

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
)

type opd struct {
	kind opKind
	reg  int
	c    V
}

func (o *opd) get(fr *Frame) V {
	switch o.kind {
	case okReg:
		return fr.regs[o.reg]
	case okConst:
		return o.c
	}
	return V{p: fr.w.glob(o.reg)}
}

type deferred struct {
	fn   V
	args []V
	host func()
}

type tpanic struct {
	v    V // interface value
	msg  string
	goex bool
	pos  string
	rt   bool
}

type Frame struct {
	w         *W
	fn        *Fn
	regs      []V
	caller    *Frame
	defers    []deferred
	panicking *tpanic
	recovered bool
	hasDefer  bool
	result    V
	blk       *Blk
}

// ---- engine tables

type Engine struct {
	prog      *ssa.Program
	fset      *token.FileSet
	fnMu      sync.Mutex
	fns       map[*ssa.Function]*Fn
	fnList    []*Fn
	globMu    sync.Mutex
	globIx    map[*ssa.Global]int
	globList  []*ssa.Global
	repoPkgs  map[*ssa.Package]bool // re-initialised on every path
	built     map[*ssa.Package]bool
	badModels atomic.Int64
	models    map[string]*ssa.Function
	methCache sync.Map
	timedOut  atomic.Bool
	implCache sync.Map
	anyType   types.Type
	errStrPtr types.Type
	verbose   bool
	harnPkg   *ssa.Package
	modelPkg  *ssa.Package
	symPath   string
	mu        sync.Mutex
	solverBin string
	buildMu   sync.Mutex
	noMerge   bool
	pureMu    sync.Mutex
	pureFn    map[*ssa.Function]int
}

func (e *Engine) fnOf(f *ssa.Function) *Fn {
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	if x, ok := e.fns[f]; ok {
		return x
	}
	x := &Fn{f: f, name: f.String(), id: len(e.fnList)}
	if f.Pkg != nil {
		x.pkgStd = !e.repoPkgs[f.Pkg]
	}
	e.fns[f] = x
	e.fnList = append(e.fnList, x)
	x.intr, x.intrPure = lookupIntrinsic(e, f)
	x.conc = concArgs[x.name]
	if m, ok := e.models[x.name]; ok && x.intr == nil {
		x.model = &Fn{f: m, name: m.String(), id: len(e.fnList)}
		if y, ok := e.fns[m]; ok {
			x.model = y
		} else {
			e.fns[m] = x.model
			e.fnList = append(e.fnList, x.model)
		}
	}
	return x
}

func (e *Engine) globalIx(g *ssa.Global) int {
	e.globMu.Lock()
	defer e.globMu.Unlock()
	if i, ok := e.globIx[g]; ok {
		return i
	}
	i := len(e.globList)
	e.globIx[g] = i
	e.globList = append(e.globList, g)
	return i
}

// glob returns this worker's cell for a global.
func (w *W) glob(i int) *V {
	for len(w.globs) <= i {
		w.globs = append(w.globs, nil)
	}
	if c := w.globs[i]; c != nil {
		return c
	}
	w.eng.globMu.Lock()
	g := w.eng.globList[i]
	w.eng.globMu.Unlock()
	w.ensureInit(g.Pkg) // may abort: leave no cell behind
	for len(w.globs) <= i {
		w.globs = append(w.globs, nil)
	}
	if w.globs[i] == nil {
		c := new(V)
		*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.globs[i] = c
	}
	return w.globs[i]
}

func (e *Engine) ensureBuilt(p *ssa.Package) {
	if p == nil {
		return
	}
	e.buildMu.Lock()
	if !e.built[p] {
		p.Build()
		e.built[p] = true
	}
	e.buildMu.Unlock()
}

// compile translates the SSA form of the function.
func (fn *Fn) compile(e *Engine) {
	fn.once.Do(func() {
		f := fn.f
		if f.Pkg != nil {
			e.ensureBuilt(f.Pkg)
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			e.ensureBuilt(o.Pkg)
		}
		c := &compiler{e: e, fn: fn, regs: map[ssa.Value]int{}}
		c.run()
		fn.ready.Store(true)
	})
}

type compiler struct {
	e    *Engine
	fn   *Fn
	regs map[ssa.Value]int
	n    int
}

func (c *compiler) alloc(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.n
	c.n++
	c.regs[v] = i
	return i
}

func (c *compiler) opd(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{kind: okConst, c: constVal(x)}
	case *ssa.Global:
		return opd{kind: okGlobal, reg: c.e.globalIx(x)}
	case *ssa.Function:
		return opd{kind: okConst, c: V{p: &Closure{fn: c.e.fnOf(x)}}}
	case *ssa.Builtin:
		return opd{kind: okConst, c: V{p: x}}
	}
	return opd{kind: okReg, reg: c.alloc(v)}
}

func constVal(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if ii, ok := basicInt(t); ok {
		x := constant.ToInt(c.Value)
		if ii.signed {
			i, _ := constant.Int64Val(x)
			return V{n: canon(uint64(i), ii)}
		}
		u, ok := constant.Uint64Val(x)
		if !ok {
			i, _ := constant.Int64Val(x)
			u = uint64(i)
		}
		return V{n: canon(u, ii)}
	}
	if _, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(c.Value)
		return fltV(f)
	}
	if isBool(t) {
		return boolV(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return str(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return str(string(rune(i)))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return V{}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return V{}
	}
	panic(fmt.Sprintf("constVal %v : %v", c, t))
}

func (c *compiler) run() {
	f := c.fn.f
	for _, p := range f.Params {
		c.alloc(p)
	}
	c.fn.free0 = c.n
	for _, fv := range f.FreeVars {
		c.alloc(fv)
	}
	if f.Signature.Results() != nil {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			c.fn.resT = append(c.fn.resT, f.Signature.Results().At(i).Type())
		}
	}
	for range f.Blocks {
		c.fn.blocks = append(c.fn.blocks, &Blk{})
	}
	ipd := ipdoms(f)
	for i, b := range f.Blocks {
		blk := c.fn.blocks[i]
		blk.idx = i
		blk.pure = true
		blk.kind = tkNone
		if ipd[i] >= 0 {
			blk.ipdom = c.fn.blocks[ipd[i]]
		}
		for si, s := range b.Succs {
			if si < 2 {
				blk.succ[si] = c.fn.blocks[s.Index]
			}
		}
		for _, in := range b.Instrs {
			if blk.pos == token.NoPos && in.Pos() != token.NoPos {
				blk.pos = in.Pos()
			}
			if v, ok := in.(ssa.Value); ok {
				blk.outs = append(blk.outs, c.alloc(v))
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Defer:
				c.fn.hasDefer = true
				fnc, _ := c.instr(in)
				blk.ins = append(blk.ins, fnc)
				blk.pure = false
			case *ssa.Phi:
				ph := phiNode{reg: c.alloc(x), t: x.Type()}
				ph.ii, ph.isInt = basicInt(x.Type())
				for _, ed := range x.Edges {
					ph.edges = append(ph.edges, c.opd(ed))
				}
				blk.phis = append(blk.phis, ph)
			case *ssa.Jump:
				blk.kind = tkJump
			case *ssa.If:
				blk.kind = tkIf
				blk.cond = c.opd(x.Cond)
			case *ssa.Return:
				blk.kind = tkReturn
				for _, r := range x.Results {
					blk.ret = append(blk.ret, c.opd(r))
				}
			case *ssa.Panic:
				blk.kind = tkPanic
				blk.cond = c.opd(x.X)
				blk.pure = false
			default:
				fnc, pure := c.instr(in)
				if fnc != nil {
					blk.ins = append(blk.ins, fnc)
					c.fn.ninstr++
				}
				if !pure {
					blk.pure = false
				}
			}
		}
	}
	// predecessor indexes (for duplicates, both edges of an If to one block)
	for i, b := range f.Blocks {
		blk := c.fn.blocks[i]
		for si, s := range b.Succs {
			if si >= 2 {
				break
			}
			blk.back[si] = s.Dominates(b)
			cnt := 0
			for pi, p := range s.Preds {
				if p == b {
					if si == 1 && b.Succs[0] == s && cnt == 0 {
						cnt++
						continue
					}
					blk.predIx[si] = pi
					break
				}
			}
		}
	}
	if f.Recover != nil {
		c.fn.recover = c.fn.blocks[f.Recover.Index]
	}
	c.fn.nregs = c.n
	c.fn.regT = make([]types.Type, c.n)
	for v, i := range c.regs {
		c.fn.regT[i] = v.Type()
	}
	c.liveness()
}

// liveness computes the registers live on entry to every block.
func (c *compiler) liveness() {
	f := c.fn.f
	n := len(f.Blocks)
	words := (c.n + 63) / 64
	in := make([][]uint64, n)
	use := make([][]uint64, n)
	def := make([][]uint64, n)
	out := make([][]uint64, n)
	for i := range in {
		in[i] = make([]uint64, words)
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		out[i] = make([]uint64, words)
	}
	set := func(b []uint64, i int) { b[i/64] |= 1 << (i % 64) }
	has := func(b []uint64, i int) bool { return b[i/64]>>(i%64)&1 == 1 }
	var ops []*ssa.Value
	phiUse := make([][]int, n) // uses by successors' phis, at the end of the block
	for i, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				for pi, e := range ph.Edges {
					if r, ok := c.regs[e]; ok {
						p := b.Preds[pi].Index
						phiUse[p] = append(phiUse[p], r)
					}
				}
				set(def[i], c.regs[ph])
				continue
			}
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if r, ok := c.regs[*o]; ok && !has(def[i], r) {
					set(use[i], r)
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				if r, ok := c.regs[v]; ok {
					set(def[i], r)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			o := out[i]
			for _, s := range b.Succs {
				for k := range o {
					o[k] |= in[s.Index][k]
				}
			}
			for _, r := range phiUse[i] {
				set(o, r)
			}
			for k := range o {
				nv := use[i][k] | (o[k] &^ def[i][k])
				if nv != in[i][k] {
					in[i][k] = nv
					changed = true
				}
			}
		}
	}
	for i := range f.Blocks {
		for r := 0; r < c.n; r++ {
			if has(in[i], r) {
				c.fn.blocks[i].live = append(c.fn.blocks[i].live, r)
			}
		}
	}
}

// ipdoms computes immediate post-dominators; -1 means the virtual exit.
func ipdoms(f *ssa.Function) []int {
	n := len(f.Blocks)
	exit := n
	// reverse graph post order
	succs := make([][]int, n+1)
	preds := make([][]int, n+1)
	for i, b := range f.Blocks {
		if len(b.Succs) == 0 {
			succs[i] = append(succs[i], exit)
			preds[exit] = append(preds[exit], i)
		}
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
			preds[s.Index] = append(preds[s.Index], i)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(exit)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			b := order[i]
			if b == exit {
				continue
			}
			nw := -1
			for _, s := range succs[b] {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
					continue
				}
				x, y := s, nw
				for x != y {
					for num[x] < num[y] {
						x = idom[x]
					}
					for num[y] < num[x] {
						y = idom[y]
					}
				}
				nw = x
			}
			if nw >= 0 && idom[b] != nw {
				idom[b] = nw
				changed = true
			}
		}
	}
	r := make([]int, n)
	for i := range r {
		r[i] = idom[i]
		if r[i] == exit {
			r[i] = -1
		}
	}
	return r
}
