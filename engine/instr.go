package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// instr compiles one instruction to a closure; pure tells whether it may be
// executed speculatively (no writes to memory, no control effects).
func (c *compiler) instr(in ssa.Instruction) (func(fr *Frame), bool) {
	e := c.e
	switch x := in.(type) {
	case *ssa.Alloc:
		r := c.alloc(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if needsAlloc(t) {
			return func(fr *Frame) {
				v := new(V)
				*v = zero(t)
				fr.regs[r] = V{p: v}
			}, true
		}
		return func(fr *Frame) { fr.regs[r] = V{p: new(V)} }, true

	case *ssa.BinOp:
		return c.binop(x), pureBin(x)

	case *ssa.UnOp:
		return c.unop(x)

	case *ssa.Call:
		r := c.alloc(x)
		f, pure := c.callInstr(&x.Call, x)
		return func(fr *Frame) { fr.regs[r] = f(fr) }, pure

	case *ssa.Go:
		fn, args := c.callParts(&x.Call)
		return func(fr *Frame) {
			fv, as := fn(fr, args)
			fr.w.spawn(fv, as)
		}, false

	case *ssa.Defer:
		fn, args := c.callParts(&x.Call)
		return func(fr *Frame) {
			fv, as := fn(fr, args)
			fr.defers = append(fr.defers, deferred{fn: fv, args: as})
		}, false

	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.w.runDefers(fr)
			if fr.panicking != nil {
				p := fr.panicking
				panic(p)
			}
		}, false

	case *ssa.ChangeInterface:
		r, o := c.alloc(x), c.opd(x.X)
		return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
	case *ssa.ChangeType:
		r, o := c.alloc(x), c.opd(x.X)
		return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
	case *ssa.Convert:
		r, o := c.alloc(x), c.opd(x.X)
		from, to := x.X.Type(), x.Type()
		if fi, ok := basicInt(from); ok {
			if ti, ok := basicInt(to); ok {
				return func(fr *Frame) {
					v := o.get(fr)
					if t, ok := v.p.(*Term); ok {
						fr.regs[r] = fr.w.convInt(t, fi, ti)
						return
					}
					fr.regs[r] = V{n: canon(v.n, ti)}
				}, true
			}
		}
		return func(fr *Frame) { fr.regs[r] = fr.w.convert(fr, o.get(fr), from, to) }, true
	case *ssa.MultiConvert:
		r, o := c.alloc(x), c.opd(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *Frame) { fr.regs[r] = fr.w.convert(fr, o.get(fr), from, to) }, true

	case *ssa.Extract:
		r, o := c.alloc(x), c.opd(x.Tuple)
		i := x.Index
		return func(fr *Frame) { fr.regs[r] = o.get(fr).p.(Tuple)[i] }, true

	case *ssa.Field:
		r, o := c.alloc(x), c.opd(x.X)
		i := x.Field
		return func(fr *Frame) { fr.regs[r] = o.get(fr).p.(*Struct).f[i] }, true

	case *ssa.FieldAddr:
		r, o := c.alloc(x), c.opd(x.X)
		i := x.Field
		return func(fr *Frame) {
			p, ok := o.get(fr).p.(*V)
			if !ok {
				fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			st, ok := p.p.(*Struct)
			if !ok {
				fr.w.abort(abUnsupported, "field of opaque object in %s", fr.fn.name)
			}
			fr.regs[r] = V{p: &st.f[i]}
		}, true

	case *ssa.Index:
		r, o, ix := c.alloc(x), c.opd(x.X), c.opd(x.Index)
		_, isStr := x.X.Type().Underlying().(*types.Basic)
		ii, _ := basicInt(x.Index.Type())
		var eii intInfo
		if a, ok := x.X.Type().Underlying().(*types.Array); ok {
			eii, _ = basicInt(a.Elem())
		} else {
			eii = intInfo{8, false}
		}
		return func(fr *Frame) {
			v, i := o.get(fr), ix.get(fr)
			if isStr {
				fr.regs[r] = fr.w.indexRead(fr, i, ii, strLen(v), eii, func(k int) V { return strAt(v, k) })
				return
			}
			switch a := v.p.(type) {
			case *ByteArr:
				fr.regs[r] = fr.w.indexRead(fr, i, ii, len(a.b), eii, a.at)
			case *Arr:
				fr.regs[r] = fr.w.indexRead(fr, i, ii, len(a.v), eii, func(k int) V { return a.v[k] })
			default:
				fr.w.abort(abUnsupported, "index of %T", v.p)
			}
		}, true

	case *ssa.IndexAddr:
		return c.indexAddr(x), true

	case *ssa.Lookup:
		r, o, ix := c.alloc(x), c.opd(x.X), c.opd(x.Index)
		if isString(x.X.Type()) {
			ii, _ := basicInt(x.Index.Type())
			return func(fr *Frame) {
				v, i := o.get(fr), ix.get(fr)
				if !i.isSym() && int64(i.n) >= 0 && int64(i.n) < int64(strLen(v)) {
					fr.regs[r] = strAt(v, int(i.n))
					return
				}
				fr.regs[r] = fr.w.indexRead(fr, i, ii, strLen(v), intInfo{8, false}, func(k int) V { return strAt(v, k) })
			}, true
		}
		mt := x.X.Type().Underlying().(*types.Map)
		commaOk := x.CommaOk
		return func(fr *Frame) {
			m, _ := o.get(fr).p.(*Map)
			v, ok := fr.w.mapGet(fr, m, mt.Key(), ix.get(fr))
			if !ok {
				v = zero(mt.Elem())
			} else {
				v = copyVal(v)
			}
			if commaOk {
				fr.regs[r] = V{p: Tuple{v, boolV(ok)}}
			} else {
				fr.regs[r] = v
			}
		}, true

	case *ssa.MakeClosure:
		r := c.alloc(x)
		fn := e.fnOf(x.Fn.(*ssa.Function))
		var bs []opd
		for _, b := range x.Bindings {
			bs = append(bs, c.opd(b))
		}
		return func(fr *Frame) {
			free := make([]V, len(bs))
			for i := range bs {
				free[i] = bs[i].get(fr)
			}
			fr.regs[r] = V{p: &Closure{fn: fn, free: free}}
		}, true

	case *ssa.MakeInterface:
		r, o := c.alloc(x), c.opd(x.X)
		t := x.X.Type()
		if o.kind == okConst {
			v := V{p: &Iface{t, o.c}}
			return func(fr *Frame) { fr.regs[r] = v }, true
		}
		return func(fr *Frame) { fr.regs[r] = V{p: &Iface{t, o.get(fr)}} }, true

	case *ssa.MakeMap:
		r := c.alloc(x)
		return func(fr *Frame) { fr.regs[r] = V{p: &Map{idx: map[any]int{}}} }, false

	case *ssa.MakeSlice:
		r, lo, co := c.alloc(x), c.opd(x.Len), c.opd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *Frame) {
			w := fr.w
			ln := w.makeLen(fr, lo.get(fr))
			cp := w.makeLen(fr, co.get(fr))
			if cp < ln {
				w.rtPanic(fr, "makeslice: cap out of range")
			}
			fr.regs[r] = w.makeSlice(et, ln, cp)
		}, false

	case *ssa.MakeChan:
		r := c.alloc(x)
		return func(fr *Frame) { fr.regs[r] = V{p: &Chan{}} }, false
	case *ssa.Send:
		ch, v := c.opd(x.Chan), c.opd(x.X)
		return func(fr *Frame) {
			cc, ok := ch.get(fr).p.(*Chan)
			if !ok {
				fr.w.abort(abUnsupported, "send on nil channel")
			}
			if cc.closed {
				fr.w.rtPanic(fr, "send on closed channel")
			}
			cc.q = append(cc.q, v.get(fr))
		}, false

	case *ssa.MapUpdate:
		o, k, v := c.opd(x.Map), c.opd(x.Key), c.opd(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		return func(fr *Frame) {
			m, ok := o.get(fr).p.(*Map)
			if !ok {
				fr.w.goPanic(fr, fr.w.mkErr("assignment to entry in nil map"))
			}
			fr.w.mapSet(fr, m, mt.Key(), k.get(fr), copyVal(v.get(fr)))
		}, false

	case *ssa.Range:
		r, o := c.alloc(x), c.opd(x.X)
		if isString(x.X.Type()) {
			return func(fr *Frame) { fr.regs[r] = V{p: &StrIter{s: o.get(fr)}} }, false
		}
		return func(fr *Frame) {
			m, _ := o.get(fr).p.(*Map)
			fr.regs[r] = V{p: fr.w.newMapIter(m)}
		}, false
	case *ssa.Next:
		r, o := c.alloc(x), c.opd(x.Iter)
		return func(fr *Frame) {
			switch it := o.get(fr).p.(type) {
			case *StrIter:
				fr.regs[r] = fr.w.nextRune(fr, it)
			case *MapIter:
				fr.regs[r] = fr.w.nextMap(it)
			}
		}, false

	case *ssa.Slice:
		return c.slice(x), true

	case *ssa.SliceToArrayPointer:
		r, o := c.alloc(x), c.opd(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *Frame) {
			s, _ := o.get(fr).p.(*Slice)
			if s == nil || int64(s.len) < n {
				fr.w.rtPanic(fr, "cannot convert slice to array pointer")
			}
			if s.ba != nil {
				if s.off == 0 && len(s.ba.b) == int(n) {
					fr.regs[r] = V{p: &V{p: s.ba}}
					return
				}
				fr.w.abort(abUnsupported, "slice to array pointer")
			}
			fr.w.abort(abUnsupported, "slice to array pointer")
		}, false

	case *ssa.Store:
		a, v := c.opd(x.Addr), c.opd(x.Val)
		return func(fr *Frame) {
			switch p := a.get(fr).p.(type) {
			case *V:
				val := v.get(fr)
				switch val.p.(type) {
				case *Struct, *Arr, *ByteArr:
					storeTo(p, val)
				default:
					*p = val
				}
			case BPtr:
				p.a.set(p.i, v.get(fr))
			case *LazyAddr:
				q := fr.w.resolve(V{p: p})
				if bp, ok := q.p.(BPtr); ok {
					bp.a.set(bp.i, v.get(fr))
				} else {
					*q.p.(*V) = v.get(fr)
				}
			default:
				fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
		}, false

	case *ssa.TypeAssert:
		return c.typeAssert(x), true

	case *ssa.Select:
		r := c.alloc(x)
		type sel struct {
			ch, v opd
			send  bool
			et    types.Type
		}
		var ss []sel
		for _, st := range x.States {
			e := sel{ch: c.opd(st.Chan), send: st.Dir == types.SendOnly, et: st.Chan.Type().Underlying().(*types.Chan).Elem()}
			if e.send {
				e.v = c.opd(st.Send)
			}
			ss = append(ss, e)
		}
		blocking := x.Blocking
		return func(fr *Frame) {
			w := fr.w
			chs := make([]*Chan, len(ss))
			for i, e := range ss {
				chs[i], _ = e.ch.get(fr).p.(*Chan)
			}
			ready := func() (l []int) {
				for i, e := range ss {
					if c := chs[i]; c != nil && (e.send || len(c.q) > 0 || c.closed) {
						l = append(l, i)
					}
				}
				return l
			}
			if blocking {
				w.waitFor(fr, func(w *W) bool { return len(ready()) > 0 })
			}
			l := ready()
			k, ok := -1, false
			var got V
			if len(l) > 0 {
				k = l[w.choice(len(l), "select")]
				c := chs[k]
				switch {
				case ss[k].send && c.closed:
					w.rtPanic(fr, "send on closed channel")
				case ss[k].send:
					c.q = append(c.q, ss[k].v.get(fr))
				case len(c.q) > 0:
					got, ok = c.q[0], true
					c.q = c.q[1:]
				default:
					got = zero(ss[k].et)
				}
			}
			t := Tuple{V{n: uint64(int64(k))}, boolV(ok)}
			for i, e := range ss {
				if e.send {
					continue
				}
				if i == k {
					t = append(t, got)
				} else {
					t = append(t, zero(e.et))
				}
			}
			fr.regs[r] = V{p: t}
		}, false
	}
	return func(fr *Frame) { fr.w.abort(abUnsupported, "instruction %T in %s", in, fr.fn.name) }, false
}

type Chan struct {
	q      []V
	closed bool
}

func (w *W) makeLen(fr *Frame, v V) int {
	if t, ok := v.p.(*Term); ok {
		// negative or huge lengths panic in Go
		if w.branch(w.db.Slt(t, w.db.Const(t.w, 0))) {
			w.rtPanic(fr, "makeslice: len out of range")
		}
		big := uint64(w.ctx.allocLimit)
		if t.w >= 32 || maskw(t.w) > big {
			if w.branch(w.db.Ult(w.db.Const(t.w, big), t)) {
				w.abort(abAlloc, "allocation of more than %d elements in %s", big, fr.fn.name)
			}
		}
		return int(w.concretise(t, "slice length"))
	}
	n := int64(v.n)
	if n < 0 {
		w.rtPanic(fr, "makeslice: len out of range")
	}
	if n > w.ctx.allocLimit {
		w.abort(abAlloc, "allocation of %d elements in %s", n, fr.fn.name)
	}
	return int(n)
}

func (w *W) makeSlice(et types.Type, ln, cp int) V {
	w.allocs += int64(cp)
	if w.allocs > 16*w.ctx.allocLimit {
		w.abort(abAlloc, "total allocations exceed limit")
	}
	if isByteType(et) {
		return V{p: &Slice{ba: &ByteArr{b: make([]byte, cp)}, len: ln, cap: cp}}
	}
	a := &Arr{v: make([]V, cp)}
	if needsAlloc(et) {
		for i := range a.v {
			a.v[i] = zero(et)
		}
	}
	return V{p: &Slice{a: a, len: ln, cap: cp}}
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) func(fr *Frame) {
	r, o, ix := c.alloc(x), c.opd(x.X), c.opd(x.Index)
	ii, _ := basicInt(x.Index.Type())
	_, scalar := basicInt(x.Type().Underlying().(*types.Pointer).Elem())
	return func(fr *Frame) {
		w := fr.w
		base := o.get(fr)
		i := ix.get(fr)
		switch b := base.p.(type) {
		case *Slice:
			k := w.index(fr, i, ii, b.len, scalar)
			if k < 0 {
				// symbolic read of a constant-size window: kept as lazy address
				fr.regs[r] = V{p: &LazyAddr{s: b, i: i.p.(*Term)}}
				return
			}
			if b.ba != nil {
				fr.regs[r] = V{p: BPtr{b.ba, b.off + k}}
			} else {
				fr.regs[r] = V{p: &b.a.v[b.off+k]}
			}
		case *V:
			switch a := b.p.(type) {
			case *Arr:
				k := w.index(fr, i, ii, len(a.v), scalar)
				if k < 0 {
					fr.regs[r] = V{p: &LazyAddr{s: &Slice{a: a, len: len(a.v), cap: len(a.v)}, i: i.p.(*Term)}}
					return
				}
				fr.regs[r] = V{p: &a.v[k]}
			case *ByteArr:
				k := w.index(fr, i, ii, len(a.b), scalar)
				if k < 0 {
					fr.regs[r] = V{p: &LazyAddr{s: &Slice{ba: a, len: len(a.b), cap: len(a.b)}, i: i.p.(*Term)}}
					return
				}
				fr.regs[r] = V{p: BPtr{a, k}}
			default:
				w.abort(abUnsupported, "IndexAddr of pointer to %T", b.p)
			}
		case nil:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				w.index(fr, i, ii, 0, false)
			}
			w.rtPanic(fr, "invalid memory address or nil pointer dereference")
		default:
			w.abort(abUnsupported, "IndexAddr of %T", base.p)
		}
	}
}

// LazyAddr is the address of an element at a symbolic index; loads from it
// become ite chains over the elements.
type LazyAddr struct {
	s *Slice
	i *Term
}

const lazyMax = 4200

// index checks bounds and returns a concrete index, or -1 when the element may
// be read through a LazyAddr.
func (w *W) index(fr *Frame, i V, ii intInfo, n int, lazy bool) int {
	t, ok := i.p.(*Term)
	if !ok {
		k := int64(i.n)
		if k < 0 || k >= int64(n) {
			w.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	}
	w.boundsBranch(fr, t, n)
	if lazy && n <= lazyMax {
		return -1
	}
	return int(w.concretise(t, "index in "+fr.fn.name))
}

func (w *W) boundsBranch(fr *Frame, t *Term, n int) {
	var in *Term
	if t.w < 63 && uint64(n) > maskw(t.w) {
		in = w.db.tTrue
	} else {
		in = w.db.Ult(t, w.db.Const(t.w, uint64(n)))
	}
	if !w.branch(in) {
		w.rtPanic(fr, fmt.Sprintf("index out of range with length %d", n))
	}
}

func (w *W) indexRead(fr *Frame, i V, ii intInfo, n int, eii intInfo, at func(int) V) V {
	t, ok := i.p.(*Term)
	if !ok {
		k := int64(i.n)
		if k < 0 || k >= int64(n) {
			w.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return at(int(k))
	}
	w.boundsBranch(fr, t, n)
	if eii.w == 0 {
		return at(int(w.concretise(t, "index")))
	}
	return w.iteRead(t, n, eii, at)
}

// iteRead builds the value at a symbolic index as an ite over runs of equal values.
func (w *W) iteRead(t *Term, n int, eii intInfo, at func(int) V) V {
	if n == 0 {
		return V{}
	}
	type run struct {
		lo int
		v  V
	}
	var runs []run
	for k := 0; k < n; k++ {
		v := at(k)
		if len(runs) == 0 || !sameV(runs[len(runs)-1].v, v) {
			runs = append(runs, run{k, v})
		}
		if len(runs) > 600 {
			return at(int(w.concretise(t, "table index")))
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return w.intT(runs[lo].v, eii.w)
		}
		m := (lo + hi) / 2
		return w.db.Ite(w.db.Ult(t, w.db.Const(t.w, uint64(runs[m].lo))), build(lo, m), build(m, hi))
	}
	return w.mkInt(build(0, len(runs)), eii)
}

func (w *W) lazyLoad(fr *Frame, l *LazyAddr, et types.Type) V {
	eii, ok := basicInt(et)
	if isBool(et) {
		ok = false
	}
	if !ok {
		k := int(w.concretise(l.i, "index in "+fr.fn.name))
		return *w.elemCell(l.s, k)
	}
	return w.iteRead(l.i, l.s.len, eii, func(k int) V { return sliceAt(l.s, k) })
}

func (w *W) elemCell(s *Slice, k int) *V {
	if s.ba != nil {
		v := s.ba.at(s.off + k)
		return &v
	}
	return &s.a.v[s.off+k]
}

func sliceAt(s *Slice, k int) V {
	if s.ba != nil {
		return s.ba.at(s.off + k)
	}
	return s.a.v[s.off+k]
}

// resolve turns a lazy address into a concrete pointer.
func (w *W) resolve(v V) V {
	l, ok := v.p.(*LazyAddr)
	if !ok {
		return v
	}
	k := int(w.concretise(l.i, "index"))
	if l.s.ba != nil {
		return V{p: BPtr{l.s.ba, l.s.off + k}}
	}
	return V{p: &l.s.a.v[l.s.off+k]}
}

func (c *compiler) unop(x *ssa.UnOp) (func(fr *Frame), bool) {
	r, o := c.alloc(x), c.opd(x.X)
	switch x.Op {
	case token.MUL:
		et := x.Type()
		if needsAlloc(et) {
			return func(fr *Frame) {
				switch p := o.get(fr).p.(type) {
				case *V:
					fr.regs[r] = copyVal(*p)
				case *LazyAddr:
					fr.regs[r] = copyVal(fr.w.lazyLoad(fr, p, et))
				default:
					fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
			}, true
		}
		return func(fr *Frame) {
			switch p := o.get(fr).p.(type) {
			case *V:
				fr.regs[r] = *p
			case BPtr:
				fr.regs[r] = p.a.at(p.i)
			case *LazyAddr:
				fr.regs[r] = fr.w.lazyLoad(fr, p, et)
			default:
				fr.w.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
		}, true
	case token.NOT:
		return func(fr *Frame) {
			v := o.get(fr)
			if t, ok := v.p.(*Term); ok {
				fr.regs[r] = fr.w.mkBool(fr.w.db.Not(t))
				return
			}
			fr.regs[r] = V{n: v.n ^ 1}
		}, true
	case token.SUB:
		if bits, ok := isFloat(x.Type()); ok {
			_ = bits
			return func(fr *Frame) {
				v := o.get(fr)
				if t, ok := v.p.(*Term); ok {
					fr.regs[r] = fr.w.mkF(fr.w.db.FNeg(t))
					return
				}
				fr.regs[r] = fltV(-v.flt())
			}, true
		}
		ii, _ := basicInt(x.Type())
		return func(fr *Frame) {
			v := o.get(fr)
			if t, ok := v.p.(*Term); ok {
				fr.regs[r] = fr.w.mkInt(fr.w.db.Neg(t), ii)
				return
			}
			fr.regs[r] = V{n: canon(-v.n, ii)}
		}, true
	case token.XOR:
		ii, _ := basicInt(x.Type())
		return func(fr *Frame) {
			v := o.get(fr)
			if t, ok := v.p.(*Term); ok {
				fr.regs[r] = fr.w.mkInt(fr.w.db.BNot(t), ii)
				return
			}
			fr.regs[r] = V{n: canon(^v.n, ii)}
		}, true
	case token.ARROW:
		commaOk := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *Frame) {
			ch, _ := o.get(fr).p.(*Chan)
			if ch == nil {
				fr.w.abort(abUnsupported, "receive from nil channel in %s", fr.fn.name)
			}
			fr.w.waitFor(fr, func(w *W) bool { return len(ch.q) > 0 || ch.closed })
			v, ok := zero(et), false
			if len(ch.q) > 0 {
				v, ok = ch.q[0], true
				ch.q = ch.q[1:]
			}
			if commaOk {
				fr.regs[r] = V{p: Tuple{v, boolV(ok)}}
			} else {
				fr.regs[r] = v
			}
		}, false
	}
	return func(fr *Frame) { fr.w.abort(abUnsupported, "unop %v", x.Op) }, false
}

func pureBin(x *ssa.BinOp) bool {
	switch x.Op {
	case token.QUO, token.REM:
		if _, ok := x.Y.(*ssa.Const); ok {
			return true
		}
		_, fl := isFloat(x.X.Type())
		return fl
	}
	return true
}

func (c *compiler) binop(x *ssa.BinOp) func(fr *Frame) {
	r, a, b := c.alloc(x), c.opd(x.X), c.opd(x.Y)
	op := x.Op
	t := x.X.Type()
	if ii, ok := basicInt(t); ok {
		switch op {
		case token.SHL, token.SHR:
			ci, _ := basicInt(x.Y.Type())
			return func(fr *Frame) { fr.regs[r] = fr.w.shift(fr, op, a.get(fr), b.get(fr), ii, ci) }
		}
		return func(fr *Frame) {
			x, y := a.get(fr), b.get(fr)
			if x.p == nil && y.p == nil {
				switch op {
				case token.ADD:
					fr.regs[r] = V{n: canon(x.n+y.n, ii)}
					return
				case token.SUB:
					fr.regs[r] = V{n: canon(x.n-y.n, ii)}
					return
				case token.EQL:
					fr.regs[r] = boolV(x.n == y.n)
					return
				case token.NEQ:
					fr.regs[r] = boolV(x.n != y.n)
					return
				case token.LSS:
					if ii.signed {
						fr.regs[r] = boolV(int64(x.n) < int64(y.n))
					} else {
						fr.regs[r] = boolV(x.n < y.n)
					}
					return
				case token.GEQ:
					if ii.signed {
						fr.regs[r] = boolV(int64(x.n) >= int64(y.n))
					} else {
						fr.regs[r] = boolV(x.n >= y.n)
					}
					return
				}
			}
			fr.regs[r] = fr.w.intBin(fr, op, x, y, ii)
		}
	}
	if bits, ok := isFloat(t); ok {
		return func(fr *Frame) { fr.regs[r] = fr.w.fltBin(fr, op, a.get(fr), b.get(fr), bits) }
	}
	if isString(t) {
		return func(fr *Frame) { fr.regs[r] = fr.w.strBin(fr, op, a.get(fr), b.get(fr)) }
	}
	ty := x.Y.Type()
	return func(fr *Frame) {
		xv, yv := a.get(fr), b.get(fr)
		switch op {
		case token.EQL:
			fr.regs[r] = fr.w.mkBool(fr.w.eqT(fr, t, ty, xv, yv))
		case token.NEQ:
			fr.regs[r] = fr.w.mkBool(fr.w.db.Not(fr.w.eqT(fr, t, ty, xv, yv)))
		case token.AND, token.LAND:
			fr.regs[r] = fr.w.mkBool(fr.w.db.And(fr.w.boolT(xv), fr.w.boolT(yv)))
		case token.OR, token.LOR:
			fr.regs[r] = fr.w.mkBool(fr.w.db.Or(fr.w.boolT(xv), fr.w.boolT(yv)))
		default:
			fr.w.abort(abUnsupported, "binop %v on %v", op, t)
		}
	}
}

func (w *W) shift(fr *Frame, op token.Token, x, y V, ii, ci intInfo) V {
	if !y.isSym() {
		if ci.signed && int64(y.n) < 0 {
			w.rtPanic(fr, "negative shift amount")
		}
		if !x.isSym() {
			n := y.n
			if op == token.SHL {
				if n >= uint64(ii.w) {
					return V{}
				}
				return V{n: canon(x.n<<n, ii)}
			}
			if ii.signed {
				if n > 63 {
					n = 63
				}
				return V{n: canon(uint64(int64(x.n)>>n), ii)}
			}
			if n >= 64 {
				return V{}
			}
			return V{n: x.n >> n}
		}
		n := y.n
		if n > uint64(ii.w) {
			n = uint64(ii.w)
		}
		ct := w.db.Const(ii.w, n)
		if maskw(ii.w) < n {
			ct = w.db.Const(ii.w, maskw(ii.w))
		}
		return w.mkInt(w.db.Bin(shOp(op, ii), w.intT(x, ii.w), ct), ii)
	}
	ct := y.term()
	if ci.signed {
		if w.branch(w.db.Slt(ct, w.db.Const(ct.w, 0))) {
			w.rtPanic(fr, "negative shift amount")
		}
	}
	xt := w.intT(x, ii.w)
	if ct.w <= ii.w {
		return w.mkInt(w.db.Bin(shOp(op, ii), xt, w.db.Zext(ct, ii.w)), ii)
	}
	big := w.db.Ult(w.db.Const(ct.w, uint64(ii.w)-1), ct)
	small := w.db.Trunc(ct, ii.w)
	var over *Term
	if op == token.SHR && ii.signed {
		over = w.db.Bin(OpAshr, xt, w.db.Const(ii.w, uint64(ii.w)-1))
	} else {
		over = w.db.Const(ii.w, 0)
	}
	return w.mkInt(w.db.Ite(big, over, w.db.Bin(shOp(op, ii), xt, small)), ii)
}

func shOp(op token.Token, ii intInfo) Op {
	if op == token.SHL {
		return OpShl
	}
	if ii.signed {
		return OpAshr
	}
	return OpLshr
}

func (w *W) intBin(fr *Frame, op token.Token, x, y V, ii intInfo) V {
	db := w.db
	if x.p == nil && y.p == nil {
		switch op {
		case token.MUL:
			return V{n: canon(x.n*y.n, ii)}
		case token.QUO, token.REM:
			if y.n == 0 {
				w.rtPanic(fr, "integer divide by zero")
			}
			if ii.signed {
				if int64(y.n) == -1 {
					if op == token.QUO {
						return V{n: canon(-x.n, ii)}
					}
					return V{}
				}
				if op == token.QUO {
					return V{n: canon(uint64(int64(x.n)/int64(y.n)), ii)}
				}
				return V{n: canon(uint64(int64(x.n)%int64(y.n)), ii)}
			}
			if op == token.QUO {
				return V{n: x.n / y.n}
			}
			return V{n: x.n % y.n}
		case token.AND:
			return V{n: x.n & y.n}
		case token.OR:
			return V{n: x.n | y.n}
		case token.XOR:
			return V{n: canon(x.n^y.n, ii)}
		case token.AND_NOT:
			return V{n: x.n &^ y.n}
		case token.LEQ:
			if ii.signed {
				return boolV(int64(x.n) <= int64(y.n))
			}
			return boolV(x.n <= y.n)
		case token.GTR:
			if ii.signed {
				return boolV(int64(x.n) > int64(y.n))
			}
			return boolV(x.n > y.n)
		}
		panic("intBin " + op.String())
	}
	a, b := w.intT(x, ii.w), w.intT(y, ii.w)
	switch op {
	case token.ADD:
		return w.mkInt(db.Bin(OpAdd, a, b), ii)
	case token.SUB:
		return w.mkInt(db.Bin(OpSub, a, b), ii)
	case token.MUL:
		return w.mkInt(db.Bin(OpMul, a, b), ii)
	case token.QUO, token.REM:
		if w.branch(db.Eq(b, db.Const(ii.w, 0))) {
			w.rtPanic(fr, "integer divide by zero")
		}
		o := OpUdiv
		switch {
		case op == token.QUO && ii.signed:
			o = OpSdiv
		case op == token.REM && ii.signed:
			o = OpSrem
		case op == token.REM:
			o = OpUrem
		}
		return w.mkInt(db.Bin(o, a, b), ii)
	case token.AND:
		return w.mkInt(db.Bin(OpBAnd, a, b), ii)
	case token.OR:
		return w.mkInt(db.Bin(OpBOr, a, b), ii)
	case token.XOR:
		return w.mkInt(db.Bin(OpBXor, a, b), ii)
	case token.AND_NOT:
		return w.mkInt(db.Bin(OpBAnd, a, db.BNot(b)), ii)
	case token.EQL:
		return w.mkBool(db.Eq(a, b))
	case token.NEQ:
		return w.mkBool(db.Not(db.Eq(a, b)))
	}
	lt, le := db.Ult, db.Ule
	if ii.signed {
		lt, le = db.Slt, db.Sle
	}
	switch op {
	case token.LSS:
		return w.mkBool(lt(a, b))
	case token.LEQ:
		return w.mkBool(le(a, b))
	case token.GTR:
		return w.mkBool(lt(b, a))
	case token.GEQ:
		return w.mkBool(le(b, a))
	}
	panic("intBin " + op.String())
}

func (w *W) fltBin(fr *Frame, op token.Token, x, y V, bits int) V {
	if x.p == nil && y.p == nil {
		a, b := x.flt(), y.flt()
		rnd := func(f float64) V {
			if bits == 32 {
				f = float64(float32(f))
			}
			return fltV(f)
		}
		switch op {
		case token.ADD:
			return rnd(a + b)
		case token.SUB:
			return rnd(a - b)
		case token.MUL:
			return rnd(a * b)
		case token.QUO:
			return rnd(a / b)
		case token.EQL:
			return boolV(a == b)
		case token.NEQ:
			return boolV(a != b)
		case token.LSS:
			return boolV(a < b)
		case token.LEQ:
			return boolV(a <= b)
		case token.GTR:
			return boolV(a > b)
		case token.GEQ:
			return boolV(a >= b)
		}
	}
	db := w.db
	a, b := w.fltT(x), w.fltT(y)
	switch op {
	case token.EQL:
		return w.mkBool(db.FEq(a, b))
	case token.NEQ:
		return w.mkBool(db.Not(db.FEq(a, b)))
	case token.LSS:
		return w.mkBool(db.FLt(a, b))
	case token.LEQ:
		return w.mkBool(db.FLe(a, b))
	case token.GTR:
		return w.mkBool(db.FLt(b, a))
	case token.GEQ:
		return w.mkBool(db.FLe(b, a))
	}
	if bits == 32 {
		w.abort(abUnsupported, "symbolic float32 arithmetic")
	}
	switch op {
	case token.ADD:
		return w.mkF(db.FBin(OpFAdd, a, b))
	case token.SUB:
		return w.mkF(db.FBin(OpFSub, a, b))
	case token.MUL:
		return w.mkF(db.FBin(OpFMul, a, b))
	case token.QUO:
		return w.mkF(db.FBin(OpFDiv, a, b))
	}
	panic("fltBin")
}

func (w *W) byteT(v V) *Term { return w.intT(v, 8) }

// strEqT is the equality of two strings as a term.
func (w *W) strEqT(a, b V) *Term {
	n := strLen(a)
	if n != strLen(b) {
		return w.db.tFalse
	}
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return w.db.Bool(x == y)
		}
	}
	r := w.db.tTrue
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				return w.db.tFalse
			}
			continue
		}
		r = w.db.And(r, w.db.Eq(w.byteT(x), w.byteT(y)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// strLtT is a < b as a term.
func (w *W) strLtT(a, b V) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return w.db.Bool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	r := w.db.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := w.byteT(strAt(a, i)), w.byteT(strAt(b, i))
		r = w.db.Ite(w.db.Eq(x, y), r, w.db.Ult(x, y))
	}
	return r
}

func (w *W) strBin(fr *Frame, op token.Token, a, b V) V {
	switch op {
	case token.ADD:
		w.allocs += int64(strLen(a) + strLen(b))
		if w.allocs > 16*w.ctx.allocLimit {
			w.abort(abAlloc, "strings grow beyond the allocation limit in %s", fr.fn.name)
		}
		return strConcat(a, b)
	case token.EQL:
		return w.mkBool(w.strEqT(a, b))
	case token.NEQ:
		return w.mkBool(w.db.Not(w.strEqT(a, b)))
	case token.LSS:
		return w.mkBool(w.strLtT(a, b))
	case token.GTR:
		return w.mkBool(w.strLtT(b, a))
	case token.LEQ:
		return w.mkBool(w.db.Not(w.strLtT(b, a)))
	case token.GEQ:
		return w.mkBool(w.db.Not(w.strLtT(a, b)))
	}
	panic("strBin")
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// eqT is a==b for values of types ta, tb.
func (w *W) eqT(fr *Frame, ta, tb types.Type, a, b V) *Term {
	db := w.db
	if isIface(ta) != isIface(tb) {
		// mixed comparison: convert the concrete side
		if isIface(ta) {
			b = V{p: &Iface{tb, b}}
		} else {
			a = V{p: &Iface{ta, a}}
			ta = tb
		}
	}
	switch u := ta.Underlying().(type) {
	case *types.Interface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return db.Bool(x == nil && y == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return db.tFalse
		}
		if !types.Comparable(x.t) {
			w.rtPanic(fr, "comparing uncomparable type "+x.t.String())
		}
		if rt, ok := x.v.p.(*RType); ok {
			rt2, ok2 := y.v.p.(*RType)
			return db.Bool(ok2 && types.Identical(rt.t, rt2.t))
		}
		return w.eqT(fr, x.t, x.t, x.v, y.v)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strEqT(a, b)
		case u.Info()&types.IsBoolean != 0:
			return db.Eq(w.boolT(a), w.boolT(b))
		case u.Info()&types.IsInteger != 0:
			ii, _ := basicInt(ta)
			return db.Eq(w.intT(a, ii.w), w.intT(b, ii.w))
		case u.Info()&types.IsFloat != 0:
			return db.FEq(w.fltT(a), w.fltT(b))
		}
		return db.Bool(a.p == b.p)
	case *types.Struct:
		x, y := a.p.(*Struct), b.p.(*Struct)
		r := db.tTrue
		for i := range x.f {
			ft := u.Field(i).Type()
			r = db.And(r, w.eqT(fr, ft, ft, x.f[i], y.f[i]))
		}
		return r
	case *types.Array:
		r := db.tTrue
		n := int(u.Len())
		for i := 0; i < n; i++ {
			r = db.And(r, w.eqT(fr, u.Elem(), u.Elem(), arrAt(a, i), arrAt(b, i)))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return db.Bool(a.p == nil && b.p == nil)
	case *types.Pointer, *types.Chan:
		a, b = w.resolve(a), w.resolve(b)
		return db.Bool(a.p == b.p)
	}
	w.abort(abUnsupported, "comparison of %v", ta)
	return nil
}

func arrAt(v V, i int) V {
	switch a := v.p.(type) {
	case *Arr:
		return a.v[i]
	case *ByteArr:
		return a.at(i)
	}
	panic("arrAt")
}

func (w *W) convInt(t *Term, fi, ti intInfo) V {
	switch {
	case ti.w == fi.w:
		return w.mkInt(t, ti)
	case ti.w < fi.w:
		return w.mkInt(w.db.Trunc(t, ti.w), ti)
	case fi.signed:
		return w.mkInt(w.db.Sext(t, ti.w), ti)
	}
	return w.mkInt(w.db.Zext(t, ti.w), ti)
}

func (w *W) convert(fr *Frame, v V, from, to types.Type) V {
	fu, tu := from.Underlying(), to.Underlying()
	if fi, ok := basicInt(from); ok {
		if ti, ok := basicInt(to); ok {
			if t, ok := v.p.(*Term); ok {
				return w.convInt(t, fi, ti)
			}
			return V{n: canon(v.n, ti)}
		}
		if bits, ok := isFloat(to); ok {
			if t, ok := v.p.(*Term); ok {
				if bits == 32 {
					w.abort(abUnsupported, "symbolic float32 conversion")
				}
				if fi.signed {
					return w.mkF(w.db.FFromS(t))
				}
				return w.mkF(w.db.FFromU(t))
			}
			var f float64
			if fi.signed {
				f = float64(int64(v.n))
			} else {
				f = float64(v.n)
			}
			if bits == 32 {
				f = float64(float32(f))
			}
			return fltV(f)
		}
		if isString(to) {
			return w.runeToStr(fr, v, fi)
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			w.abort(abUnsupported, "unsafe pointer conversion in %s", fr.fn.name)
		}
	}
	if fbits, ok := isFloat(from); ok {
		_ = fbits
		if bits, ok := isFloat(to); ok {
			if v.isSym() {
				if bits == 64 {
					return v
				}
				w.abort(abUnsupported, "symbolic float32 conversion")
			}
			if bits == 32 {
				return fltV(float64(float32(v.flt())))
			}
			return v
		}
		if ti, ok := basicInt(to); ok {
			if t, ok := v.p.(*Term); ok {
				if ti.w < 64 {
					return w.convInt(w.floatToInt(t), intInfo{64, true}, ti)
				}
				if !ti.signed {
					w.abort(abUnsupported, "symbolic float to uint64")
				}
				return w.mkInt(w.floatToInt(t), ti)
			}
			f := v.flt()
			if !ti.signed && ti.w == 64 && f >= 9223372036854775808.0 {
				return V{n: uint64(f)}
			}
			return V{n: canon(f2s(f), ti)}
		}
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok {
			if isByteType(sl.Elem()) {
				b, t := strParts(v)
				if b == nil {
					return V{p: &Slice{ba: &ByteArr{}}}
				}
				return mkBytesV(b, t)
			}
			// []rune
			it := &StrIter{s: v}
			a := &Arr{}
			for {
				tp := w.nextRune(fr, it).p.(Tuple)
				if tp[0].n == 0 {
					break
				}
				a.v = append(a.v, tp[2])
			}
			return V{p: &Slice{a: a, len: len(a.v), cap: len(a.v)}}
		}
		if isString(to) {
			return v
		}
	}
	if sl, ok := fu.(*types.Slice); ok && isString(to) {
		if isByteType(sl.Elem()) {
			return bytesToStr(v)
		}
		s, _ := v.p.(*Slice)
		if s == nil {
			return V{}
		}
		r := V{}
		for i := 0; i < s.len; i++ {
			r = strConcat(r, w.runeToStr(fr, s.a.v[s.off+i], intInfo{32, true}))
		}
		return r
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	w.abort(abUnsupported, "conversion %v -> %v in %s", from, to, fr.fn.name)
	return V{}
}

func (w *W) runeToStr(fr *Frame, v V, fi intInfo) V {
	t, ok := v.p.(*Term)
	if !ok {
		if fi.signed && (int64(v.n) < 0) || v.n > 0x10ffff {
			return str("\uFFFD")
		}
		return str(string(rune(v.n)))
	}
	db := w.db
	w8 := func(x *Term) *Term { return db.Trunc(x, 8) }
	var x *Term
	switch {
	case t.w < 32 && fi.signed:
		x = db.Sext(t, 32)
	case t.w < 32:
		x = db.Zext(t, 32)
	case t.w > 32:
		hi := db.Not(db.Ult(t, db.Const(t.w, 0x110000)))
		if w.branch(hi) {
			return str("\uFFFD")
		}
		x = db.Trunc(t, 32)
	default:
		x = t
	}
	k := func(v uint64) *Term { return db.Const(32, v) }
	if w.branch(db.Ult(x, k(0x80))) {
		return mkStr([]byte{0}, []*Term{w8(x)})
	}
	sh := func(n uint64) *Term {
		return w8(db.Bin(OpBOr, db.Bin(OpBAnd, db.Bin(OpLshr, x, k(n)), k(0x3f)), k(0x80)))
	}
	if w.branch(db.Ult(x, k(0x800))) {
		return mkStr([]byte{0, 0}, []*Term{w8(db.Bin(OpBOr, db.Bin(OpLshr, x, k(6)), k(0xc0))), sh(0)})
	}
	bad := db.Or(db.Not(db.Ult(x, k(0x110000))), db.And(db.Not(db.Ult(x, k(0xd800))), db.Ult(x, k(0xe000))))
	if w.branch(bad) {
		return str("\uFFFD")
	}
	if w.branch(db.Ult(x, k(0x10000))) {
		return mkStr([]byte{0, 0, 0}, []*Term{w8(db.Bin(OpBOr, db.Bin(OpLshr, x, k(12)), k(0xe0))), sh(6), sh(0)})
	}
	return mkStr([]byte{0, 0, 0, 0}, []*Term{w8(db.Bin(OpBOr, db.Bin(OpLshr, x, k(18)), k(0xf0))), sh(12), sh(6), sh(0)})
}

// nextRune yields (ok, index, rune).
func (w *W) nextRune(fr *Frame, it *StrIter) V {
	n := strLen(it.s)
	if it.pos >= n {
		return V{p: Tuple{V{}, V{}, V{}}}
	}
	pos := it.pos
	c := strAt(it.s, pos)
	if t, ok := c.p.(*Term); ok {
		if w.branch(w.db.Ult(t, w.db.Const(8, 0x80))) {
			it.pos++
			return V{p: Tuple{V{n: 1}, intV(pos), w.mkInt(w.db.Zext(t, 32), intInfo{32, true})}}
		}
	} else if c.n < 0x80 {
		it.pos++
		return V{p: Tuple{V{n: 1}, intV(pos), c}}
	}
	f := w.eng.models["utf8.DecodeRuneInString"]
	res := w.call(w.eng.fnOf(f), []V{strSlice(it.s, pos, n)}, nil, fr).p.(Tuple)
	sz := res[1]
	if t, ok := sz.p.(*Term); ok {
		sz = V{n: w.concretise(t, "rune size")}
	}
	it.pos += int(sz.n)
	return V{p: Tuple{V{n: 1}, intV(pos), res[0]}}
}

func (c *compiler) slice(x *ssa.Slice) func(fr *Frame) {
	r, o := c.alloc(x), c.opd(x.X)
	var lo, hi, mx *opd
	get := func(v ssa.Value) *opd {
		if v == nil {
			return nil
		}
		p := c.opd(v)
		return &p
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	isStr := isString(x.X.Type())
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		idx := func(p *opd, def int) int {
			if p == nil {
				return def
			}
			i := p.get(fr)
			if t, ok := i.p.(*Term); ok {
				// out of range bounds panic below; split off the negative and huge region first
				return int(sextw(w.concretise(t, "slice bound in "+fr.fn.name), t.w))
			}
			return int(i.n)
		}
		if isStr {
			n := strLen(v)
			l, h := idx(lo, 0), idx(hi, n)
			if h < 0 || h > n {
				w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[r] = strSlice(v, l, h)
			return
		}
		var s Slice
		isNil := false
		switch b := v.p.(type) {
		case *Slice:
			s = *b
		case *V:
			switch a := b.p.(type) {
			case *Arr:
				s = Slice{a: a, len: len(a.v), cap: len(a.v)}
			case *ByteArr:
				s = Slice{ba: a, len: len(a.b), cap: len(a.b)}
			default:
				w.abort(abUnsupported, "slice of pointer to %T", b.p)
			}
		case nil:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				w.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			isNil = true
		default:
			w.abort(abUnsupported, "slice of %T", v.p)
		}
		l, h := idx(lo, 0), idx(hi, s.len)
		m := idx(mx, s.cap)
		if m < 0 || m > s.cap {
			w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, s.cap))
		}
		if h < 0 || h > m {
			w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
		}
		if l < 0 || l > h {
			w.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if isNil {
			fr.regs[r] = V{}
			return
		}
		fr.regs[r] = V{p: &Slice{a: s.a, ba: s.ba, off: s.off + l, len: h - l, cap: m - l}}
	}
}

func (w *W) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, it}
	if v, ok := w.eng.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	w.eng.implCache.Store(k, r)
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(fr *Frame) {
	r, o := c.alloc(x), c.opd(x.X)
	at := x.AssertedType
	commaOk := x.CommaOk
	it, toIface := at.Underlying().(*types.Interface)
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		i, _ := v.p.(*Iface)
		ok := false
		var res V
		if i != nil {
			if toIface {
				if _, isRT := i.v.p.(*RType); isRT {
					ok = true
				} else {
					ok = w.implements(i.t, it)
				}
				res = v
			} else {
				ok = i.t == at || types.Identical(i.t, at)
				res = i.v
			}
		}
		if !ok {
			if !commaOk {
				d := "nil"
				if i != nil {
					d = i.t.String()
				}
				w.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %s, not %s", d, at))
			}
			res = zero(at)
		}
		if commaOk {
			fr.regs[r] = V{p: Tuple{res, boolV(ok)}}
		} else {
			fr.regs[r] = res
		}
	}
}

var _ = math.Pi
