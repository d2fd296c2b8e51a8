package main

import (
	"fmt"
	"go/types"
	"strings"
)

const (
	maxDepth = 1500
)

type undoEnt struct {
	reg int
	v   V
}

func (w *W) pushRegs(n int) []V {
	if w.regTop+n > len(w.regStk) {
		sz := 2 * len(w.regStk)
		if sz < 4096 {
			sz = 4096
		}
		for sz < n {
			sz *= 2
		}
		w.regStk = make([]V, sz)
		w.regTop = 0
	}
	r := w.regStk[w.regTop : w.regTop+n : w.regTop+n]
	w.regTop += n
	return r
}

// call runs a function value with arguments.
func (w *W) callV(fv V, args []V, caller *Frame) V {
	switch c := fv.p.(type) {
	case *Closure:
		if c.host != nil {
			return c.host(w, args)
		}
		return w.call(c.fn, args, c.free, caller)
	case nil:
		w.rtPanic(caller, "invalid memory address or nil pointer dereference")
	}
	w.abort(abUnsupported, "call of %T", fv.p)
	return V{}
}

func (w *W) call(fn *Fn, args []V, free []V, caller *Frame) V {
	if fn.intr != nil {
		if w.spec > 0 && !fn.intrPure {
			w.abort(abSpec, "intrinsic %s", fn.name)
		}
		if fn.id < len(w.fnSeen) {
			w.fnSeen[fn.id] = true
		}
		return fn.intr(w, caller, args)
	}
	if fn.model != nil {
		if fn.id < len(w.fnSeen) {
			w.fnSeen[fn.id] = true
		}
		fn = fn.model
	}
	if !fn.ready.Load() {
		fn.compile(w.eng)
	}
	if len(fn.blocks) == 0 {
		w.abort(abUnsupported, "no body: %s", fn.name)
	}
	if fn.conc {
		for i, a := range args {
			if t, ok := a.p.(*Term); ok {
				args[i] = V{n: w.concretise(t, "argument of "+fn.name)}
			} else if _, ok := a.p.(*BS); ok {
				args[i] = str(w.concretiseStr(a, "argument of "+fn.name))
			}
		}
	}
	if w.frames >= w.ctx.stackLimit {
		w.abort(abDepth, "recursion deeper than %d in %s", w.ctx.stackLimit, fn.name)
	}
	for fn.id >= len(w.fnSeen) {
		w.fnSeen = append(w.fnSeen, make([]bool, 256)...)
	}
	w.fnSeen[fn.id] = true
	stk, top := w.regStk, w.regTop
	fr := Frame{w: w, fn: fn, caller: caller}
	fr.regs = w.pushRegs(fn.nregs)
	copy(fr.regs, args)
	copy(fr.regs[fn.free0:], free)
	w.frames++
	saveTop := w.topFrame
	w.topFrame = &fr
	var res V
	if fn.hasDefer {
		res = w.execDefer(&fr)
	} else {
		res = w.exec(&fr, fn.blocks[0])
	}
	w.topFrame = saveTop
	w.frames--
	w.regStk, w.regTop = stk, top
	return res
}

func (w *W) execDefer(fr *Frame) (res V) {
	stk, top, frames := w.regStk, w.regTop, w.frames
	run := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			e := recover()
			if e == nil {
				return
			}
			tp, isT := e.(*tpanic)
			if !isT {
				panic(e)
			}
			w.regStk, w.regTop, w.frames = stk, top, frames
			w.topFrame = fr
			fr.panicking = tp
		}()
		res = w.exec(fr, fr.fn.blocks[0])
		return true
	}
	if run() {
		return res
	}
	if w.spec > 0 {
		w.abort(abSpec, "panic")
	}
	w.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fn.recover != nil {
		return w.exec(fr, fr.fn.recover)
	}
	switch len(fr.fn.resT) {
	case 0:
		return V{}
	case 1:
		return zero(fr.fn.resT[0])
	}
	tp := make(Tuple, len(fr.fn.resT))
	for i, t := range fr.fn.resT {
		tp[i] = zero(t)
	}
	return V{p: tp}
}

func (w *W) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		stk, top, frames := w.regStk, w.regTop, w.frames
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				e := recover()
				tp, isT := e.(*tpanic)
				if !isT {
					panic(e)
				}
				w.regStk, w.regTop, w.frames = stk, top, frames
				w.topFrame = fr
				fr.panicking = tp
			}()
			w.callV(d.fn, d.args, fr)
			ok = true
		}()
	}
}

func (w *W) tick(n int) {
	w.steps += int64(n)
	if w.steps > w.ctx.stepLimit {
		w.abort(abSteps, "more than %d steps (in %s)", w.ctx.stepLimit, w.topFrame.fn.name)
	}
}

func (w *W) exec(fr *Frame, blk *Blk) V {
	pix := -1
	phisDone := false
	for {
		w.steps += int64(len(blk.ins)) + 1
		if w.steps > w.nextCheck {
			w.nextCheck = w.steps + 20000
			if w.ctx.over.Load() {
				w.abort(abBudget, "budget")
			}
		}
		if w.steps > w.ctx.stepLimit {
			w.abort(abSteps, "more than %d steps (in %s)", w.ctx.stepLimit, fr.fn.name)
		}
		if len(blk.phis) > 0 && !phisDone {
			if len(blk.phis) == 1 {
				ph := &blk.phis[0]
				fr.regs[ph.reg] = ph.edges[pix].get(fr)
			} else {
				var buf [12]V
				tmp := buf[:0]
				for i := range blk.phis {
					tmp = append(tmp, blk.phis[i].edges[pix].get(fr))
				}
				for i := range blk.phis {
					fr.regs[blk.phis[i].reg] = tmp[i]
				}
			}
		}
		phisDone = false
		fr.blk = blk
		for _, f := range blk.ins {
			f(fr)
		}
		switch blk.kind {
		case tkJump:
			pix = blk.predIx[0]
			blk = blk.succ[0]
		case tkIf:
			c := blk.cond.get(fr)
			if t, ok := c.p.(*Term); ok {
				nb, np, ret, isRet, pd := w.symIf(fr, blk, t)
				if isRet {
					return ret
				}
				blk, pix, phisDone = nb, np, pd
				continue
			}
			if c.n != 0 {
				pix = blk.predIx[0]
				blk = blk.succ[0]
			} else {
				pix = blk.predIx[1]
				blk = blk.succ[1]
			}
		case tkReturn:
			return retVal(fr, blk)
		case tkPanic:
			v := blk.cond.get(fr)
			w.goPanic(fr, v)
		default:
			w.abort(abUnsupported, "block without terminator in %s", fr.fn.name)
		}
	}
}

func retVal(fr *Frame, blk *Blk) V {
	switch len(blk.ret) {
	case 0:
		return V{}
	case 1:
		return blk.ret[0].get(fr)
	}
	tp := make(Tuple, len(blk.ret))
	for i := range blk.ret {
		tp[i] = blk.ret[i].get(fr)
	}
	return V{p: tp}
}

// ---- merging of side-effect free regions

type leaf struct {
	g    *Term
	blk  *Blk
	pix  int
	vals []V // live values (per blk.live entry defined in the region), then phis
	have []bool
	ret  V
	isR  bool
}

const maxLeaves = 40

type regionFail struct{}

func (w *W) symIf(fr *Frame, blk *Blk, t *Term) (*Blk, int, V, bool, bool) {
	plain := func() (*Blk, int, V, bool, bool) {
		if w.branch(t) {
			return blk.succ[0], blk.predIx[0], V{}, false, false
		}
		return blk.succ[1], blk.predIx[1], V{}, false, false
	}
	// decided by the path condition?
	if w.pcSet[t] {
		return blk.succ[0], blk.predIx[0], V{}, false, false
	}
	if w.pcSet[w.db.Not(t)] {
		return blk.succ[1], blk.predIx[1], V{}, false, false
	}
	s0, s1 := blk.succ[0], blk.succ[1]
	ok0 := s0.pure && !blk.back[0]
	ok1 := s1.pure && !blk.back[1]
	if (!ok0 && !ok1) || w.eng.noMerge {
		return plain()
	}
	if s0 == s1 {
		// only phis differ
	}
	r := region{w: w, fr: fr, start: blk, stop: blk.ipdom}
	if !r.run(t) {
		return plain()
	}
	// group leaves
	type group struct {
		g      *Term
		leaves []int
		ret    V
		vals   []V
	}
	var groups []*group
	for i := range r.leaves {
		lf := &r.leaves[i]
		placed := false
		for _, gr := range groups {
			f := &r.leaves[gr.leaves[0]]
			if f.isR != lf.isR || (!lf.isR && f.blk != lf.blk) {
				continue
			}
			if lf.isR {
				if v, ok := w.mergeRet(fr.fn, lf.g, lf.ret, gr.ret); ok {
					gr.ret = v
					gr.g = w.db.Or(gr.g, lf.g)
					gr.leaves = append(gr.leaves, i)
					placed = true
					break
				}
				continue
			}
			nv := make([]V, len(gr.vals))
			good := true
			for k := range gr.vals {
				var ty types.Type
				if k < len(lf.blk.live) {
					if !lf.have[k] {
						continue
					}
					ty = fr.fn.regT[lf.blk.live[k]]
				} else {
					ty = lf.blk.phis[k-len(lf.blk.live)].t
				}
				v, ok := w.mergeVal(ty, lf.g, lf.vals[k], gr.vals[k], false)
				if !ok {
					good = false
					break
				}
				nv[k] = v
			}
			if !good {
				continue
			}
			gr.vals = nv
			gr.g = w.db.Or(gr.g, lf.g)
			gr.leaves = append(gr.leaves, i)
			placed = true
			break
		}
		if !placed {
			groups = append(groups, &group{g: lf.g, leaves: []int{i}, ret: lf.ret, vals: lf.vals})
		}
	}
	sel := 0
	if len(groups) > 1 {
		gs := make([]*Term, len(groups))
		for i, g := range groups {
			gs[i] = g.g
		}
		sel = w.choose(gs)
	}
	gr := groups[sel]
	lf := &r.leaves[gr.leaves[0]]
	if lf.isR {
		return nil, 0, gr.ret, true, false
	}
	nl := len(lf.blk.live)
	for k, reg := range lf.blk.live {
		if lf.have[k] {
			fr.regs[reg] = gr.vals[k]
		}
	}
	for k := range lf.blk.phis {
		fr.regs[lf.blk.phis[k].reg] = gr.vals[nl+k]
	}
	return lf.blk, -1, V{}, false, true
}

type region struct {
	w      *W
	fr     *Frame
	start  *Blk
	stop   *Blk
	leaves []leaf
	defd   map[int]bool
	trail  []*Blk
}

func (r *region) run(t *Term) (ok bool) {
	w := r.w
	if w.spec == 0 {
		stk, top, frames, tf := w.regStk, w.regTop, w.frames, w.topFrame
		saved := append([]V(nil), r.fr.regs...)
		defer func() {
			w.spec = 0
			if e := recover(); e != nil {
				switch x := e.(type) {
				case regionFail:
				case *pathAbort:
					if x.kind != abSpec {
						panic(e)
					}
				default:
					panic(e)
				}
				w.regStk, w.regTop, w.frames, w.topFrame = stk, top, frames, tf
				copy(r.fr.regs, saved)
				ok = false
			}
		}()
		w.spec = 1
	} else {
		w.spec++
		defer func() { w.spec-- }()
	}
	b := r.start
	r.edge(b, 0, t)
	r.edge(b, 1, w.db.Not(t))
	return true
}

func (r *region) edge(from *Blk, si int, g *Term) {
	if g.IsFalse() {
		return
	}
	to := from.succ[si]
	pix := from.predIx[si]
	if from.back[si] || to == r.stop || !to.pure || len(r.trail) > 16 {
		r.leaf(to, pix, g)
		return
	}
	r.visit(to, pix, g)
}

func (r *region) leaf(to *Blk, pix int, g *Term) {
	if len(r.leaves) >= maxLeaves {
		panic(regionFail{})
	}
	lf := leaf{g: g, blk: to, pix: pix}
	lf.vals = make([]V, len(to.live)+len(to.phis))
	lf.have = make([]bool, len(to.live))
	for k, reg := range to.live {
		for _, b := range r.trail {
			for _, o := range b.outs {
				if o == reg {
					lf.have[k] = true
				}
			}
		}
		if lf.have[k] {
			lf.vals[k] = r.fr.regs[reg]
		}
	}
	for k := range to.phis {
		lf.vals[len(to.live)+k] = to.phis[k].edges[pix].get(r.fr)
	}
	r.leaves = append(r.leaves, lf)
}

func (r *region) visit(b *Blk, pix int, g *Term) {
	fr, w := r.fr, r.w
	w.steps += int64(len(b.ins)) + 1
	if w.steps > w.ctx.stepLimit {
		w.abort(abSteps, "more than %d steps (in %s)", w.ctx.stepLimit, fr.fn.name)
	}
	saved := make([]V, len(b.outs))
	for i, o := range b.outs {
		saved[i] = fr.regs[o]
	}
	tmp := make([]V, len(b.phis))
	for i := range b.phis {
		tmp[i] = b.phis[i].edges[pix].get(fr)
	}
	for i := range b.phis {
		fr.regs[b.phis[i].reg] = tmp[i]
	}
	r.trail = append(r.trail, b)
	for _, f := range b.ins {
		f(fr)
	}
	switch b.kind {
	case tkJump:
		r.edge(b, 0, g)
	case tkIf:
		c := b.cond.get(fr)
		if t, ok := c.p.(*Term); ok {
			r.edge(b, 0, w.db.And(g, t))
			r.edge(b, 1, w.db.And(g, w.db.Not(t)))
		} else if c.n != 0 {
			r.edge(b, 0, g)
		} else {
			r.edge(b, 1, g)
		}
	case tkReturn:
		if len(r.leaves) >= maxLeaves || fr.fn.hasDefer {
			panic(regionFail{})
		}
		r.leaves = append(r.leaves, leaf{g: g, isR: true, ret: retVal(fr, b)})
	default:
		panic(regionFail{})
	}
	r.trail = r.trail[:len(r.trail)-1]
	for i, o := range b.outs {
		fr.regs[o] = saved[i]
	}
}

func (w *W) mergeRet(fn *Fn, g *Term, a, b V) (V, bool) {
	switch len(fn.resT) {
	case 0:
		return V{}, true
	case 1:
		return w.mergeVal(fn.resT[0], g, a, b, true)
	}
	ta, tb := a.p.(Tuple), b.p.(Tuple)
	r := make(Tuple, len(ta))
	for i := range ta {
		v, ok := w.mergeVal(fn.resT[i], g, ta[i], tb[i], true)
		if !ok {
			return V{}, false
		}
		r[i] = v
	}
	return V{p: r}, true
}

// mergeVal is ite(g, a, b) when representable.
func (w *W) mergeVal(t types.Type, g *Term, a, b V, isRet bool) (V, bool) {
	if sameV(a, b) {
		return a, true
	}
	if isBool(t) {
		return w.mkBool(w.db.Ite(g, w.boolT(a), w.boolT(b))), true
	}
	if ii, ok := basicInt(t); ok {
		if ii.w > 32 && !isRet {
			return V{}, false
		}
		return w.mkInt(w.db.Ite(g, w.intT(a, ii.w), w.intT(b, ii.w)), ii), true
	}
	if bits, ok := isFloat(t); ok && bits == 64 {
		return w.mkF(w.db.Ite(g, w.fltT(a), w.fltT(b))), true
	}
	return V{}, false
}

func sameV(a, b V) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case string:
		y, ok := b.p.(string)
		return ok && x == y
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && (x == y || (x.t == y.t && sameV(x.v, y.v)))
	case *Slice:
		y, ok := b.p.(*Slice)
		return ok && (x == y || *x == *y)
	case BPtr:
		y, ok := b.p.(BPtr)
		return ok && x == y
	case Tuple:
		y, ok := b.p.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case *BS:
		y, ok := b.p.(*BS)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.b {
			if !sameV(strAt(a, i), strAt(b, i)) {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.p.(*Closure)
		return ok && (x == y || (x.fn == y.fn && x.host == nil && y.host == nil && len(x.free) == 0 && len(y.free) == 0))
	default:
		return a.p == b.p
	}
}

// ---- term helpers

func (w *W) boolT(v V) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return w.db.Bool(v.n != 0)
}

func (w *W) intT(v V, width uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		if t.w != width {
			panic(fmt.Sprintf("intT width %d want %d", t.w, width))
		}
		return t
	}
	return w.db.Const(width, v.n)
}

func (w *W) fltT(v V) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return w.db.Const(WF64, v.n)
}

func (w *W) mkBool(t *Term) V {
	if t.op == OpConst {
		return V{n: t.k}
	}
	return V{p: t}
}

func (w *W) mkInt(t *Term, ii intInfo) V {
	if t.op == OpConst {
		return V{n: canon(t.k, ii)}
	}
	return V{p: t}
}

func (w *W) mkF(t *Term) V {
	if t.op == OpConst {
		return V{n: t.k}
	}
	return V{p: t}
}

// ---- panics

func (w *W) where(fr *Frame) string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 6; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.name)
		n++
	}
	return sb.String()
}

func (w *W) rtPanic(fr *Frame, msg string) {
	if w.spec > 0 {
		w.abort(abSpec, "panic")
	}
	if fr == nil {
		fr = w.topFrame
	}
	panic(&tpanic{v: w.mkErr("runtime error: " + msg), msg: "runtime error: " + msg, rt: true, pos: w.where(fr)})
}

func (w *W) goPanic(fr *Frame, v V) {
	if w.spec > 0 {
		w.abort(abSpec, "panic")
	}
	msg := "panic"
	if i, ok := v.p.(*Iface); ok {
		if s, ok := concStr(i.v); ok && isString(i.t) {
			msg = "panic: " + s
		} else {
			msg = "panic of type " + i.t.String()
		}
	}
	panic(&tpanic{v: v, msg: msg, pos: w.where(fr)})
}

// mkErr builds an error value (*errors.errorString).
func (w *W) mkErr(msg string) V {
	if w.eng.errStrPtr == nil {
		return V{}
	}
	c := &V{p: &Struct{[]V{str(msg)}}}
	return V{p: &Iface{t: w.eng.errStrPtr, v: V{p: c}}}
}
