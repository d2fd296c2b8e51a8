package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callParts resolves the callee and evaluates arguments (for defer).
func (c *compiler) callParts(cc *ssa.CallCommon) (func(fr *Frame, args []opd) (V, []V), []opd) {
	var args []opd
	for _, a := range cc.Args {
		args = append(args, c.opd(a))
	}
	if cc.IsInvoke() {
		recv := c.opd(cc.Value)
		m := cc.Method
		return func(fr *Frame, args []opd) (V, []V) {
			fv, rv := fr.w.lookupMethod(fr, recv.get(fr), m)
			as := make([]V, 0, len(args)+1)
			as = append(as, rv)
			for i := range args {
				as = append(as, args[i].get(fr))
			}
			return fv, as
		}, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		cl := &Closure{}
		sig := cc.Signature()
		argT := argTypes(cc)
		return func(fr *Frame, args []opd) (V, []V) {
			as := make([]V, 0, len(args))
			for i := range args {
				as = append(as, args[i].get(fr))
			}
			cl2 := *cl
			cl2.host = func(w *W, a []V) V { return w.builtin(fr, b.Name(), sig, argT, a) }
			if b.Name() == "recover" {
				cl2.host = func(w *W, a []V) V { fr.panicking = nil; return V{} }
			}
			return V{p: &cl2}, as
		}, args
	}
	f := c.opd(cc.Value)
	return func(fr *Frame, args []opd) (V, []V) {
		as := make([]V, 0, len(args))
		for i := range args {
			as = append(as, args[i].get(fr))
		}
		return f.get(fr), as
	}, args
}

func argTypes(cc *ssa.CallCommon) []types.Type {
	var r []types.Type
	for _, a := range cc.Args {
		r = append(r, a.Type())
	}
	return r
}

func (c *compiler) callInstr(cc *ssa.CallCommon, v ssa.Value) (func(fr *Frame) V, bool) {
	var args []opd
	for _, a := range cc.Args {
		args = append(args, c.opd(a))
	}
	if cc.IsInvoke() {
		recv := c.opd(cc.Value)
		m := cc.Method
		n := len(args)
		return func(fr *Frame) V {
			rv := recv.get(fr)
			if i, ok := rv.p.(*Iface); ok {
				if rt, ok := i.v.p.(*RType); ok {
					as := make([]V, n)
					for k := range args {
						as[k] = args[k].get(fr)
					}
					return fr.w.rtypeCall(fr, rt, m.Name(), as)
				}
			}
			fv, rv2 := fr.w.lookupMethod(fr, rv, m)
			var buf [6]V
			as := append(buf[:0], rv2)
			for k := range args {
				as = append(as, args[k].get(fr))
			}
			return fr.w.callV(fv, as, fr)
		}, false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		name := b.Name()
		sig := cc.Signature()
		argT := argTypes(cc)
		pure := name == "len" || name == "cap" || name == "min" || name == "max" || name == "ssa:wrapnilchk"
		if name == "len" {
			a := args[0]
			switch argT[0].Underlying().(type) {
			case *types.Slice:
				return func(fr *Frame) V {
					if s, ok := a.get(fr).p.(*Slice); ok {
						return V{n: uint64(s.len)}
					}
					return V{}
				}, true
			case *types.Basic:
				return func(fr *Frame) V { return V{n: uint64(strLen(a.get(fr)))} }, true
			}
		}
		return func(fr *Frame) V {
			var buf [6]V
			as := buf[:0]
			for k := range args {
				as = append(as, args[k].get(fr))
			}
			return fr.w.builtin(fr, name, sig, argT, as)
		}, pure
	}
	if sf := cc.StaticCallee(); sf != nil {
		fn := c.e.fnOf(sf)
		if _, isClos := cc.Value.(*ssa.MakeClosure); !isClos {
			pure := c.e.isPureFn(sf, 0)
			switch len(args) {
			case 1:
				a0 := args[0]
				return func(fr *Frame) V {
					var buf [1]V
					buf[0] = a0.get(fr)
					return fr.w.call(fn, buf[:], nil, fr)
				}, pure
			}
			return func(fr *Frame) V {
				var buf [6]V
				as := buf[:0]
				for k := range args {
					as = append(as, args[k].get(fr))
				}
				return fr.w.call(fn, as, nil, fr)
			}, pure
		}
	}
	f := c.opd(cc.Value)
	return func(fr *Frame) V {
		var buf [6]V
		as := buf[:0]
		for k := range args {
			as = append(as, args[k].get(fr))
		}
		return fr.w.callV(f.get(fr), as, fr)
	}, false
}

// isPureFn: transitively free of side effects (approximated statically).
func (e *Engine) isPureFn(f *ssa.Function, depth int) bool {
	e.pureMu.Lock()
	v, ok := e.pureFn[f]
	e.pureMu.Unlock()
	if ok {
		return v == 1
	}
	if depth > 6 {
		return false
	}
	if intr, p := lookupIntrinsic(e, f); intr != nil {
		return p
	}
	if _, ok := e.models[f.String()]; ok || concArgs[f.String()] {
		return false
	}
	e.pureMu.Lock()
	e.pureFn[f] = 0 // recursion guard
	e.pureMu.Unlock()
	res := e.pureBody(f, depth)
	e.pureMu.Lock()
	if res {
		e.pureFn[f] = 1
	} else if depth > 0 {
		// may be due to the depth limit: recompute later at top level
		delete(e.pureFn, f)
	}
	e.pureMu.Unlock()
	return res
}

func (e *Engine) pureBody(f *ssa.Function, depth int) bool {
	if f.Pkg != nil {
		e.ensureBuilt(f.Pkg)
	}
	if len(f.Blocks) == 0 || len(f.Blocks) > 40 || len(f.FreeVars) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if !pureBin(x) {
					return false
				}
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
			case *ssa.Alloc, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Index,
				*ssa.IndexAddr, *ssa.Lookup, *ssa.MakeInterface, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Slice, *ssa.TypeAssert, *ssa.DebugRef, *ssa.MultiConvert:
			case *ssa.Panic:
			case *ssa.Call:
				if x.Call.IsInvoke() {
					return false
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
						continue
					}
					return false
				}
				sf := x.Call.StaticCallee()
				if sf == nil || !e.isPureFn(sf, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *W) lookupMethod(fr *Frame, rv V, m *types.Func) (V, V) {
	i, ok := rv.p.(*Iface)
	if !ok {
		w.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	k := methKey{i.t, m}
	if c, ok := w.eng.methCache.Load(k); ok {
		return c.(V), i.v
	}
	sf := w.eng.prog.LookupMethod(i.t, m.Pkg(), m.Name())
	if sf == nil {
		w.abort(abUnsupported, "method %s of %s not found", m.Name(), i.t)
	}
	c := V{p: &Closure{fn: w.eng.fnOf(sf)}}
	w.eng.methCache.Store(k, c)
	return c, i.v
}

// callMethod invokes a named method on an interface value.
func (w *W) callMethod(fr *Frame, rv V, name string, args ...V) V {
	i, ok := rv.p.(*Iface)
	if !ok {
		w.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	ms := w.eng.prog.MethodSets.MethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		s := ms.At(k)
		if s.Obj().Name() == name {
			sf := w.eng.prog.MethodValue(s)
			as := append([]V{i.v}, args...)
			return w.call(w.eng.fnOf(sf), as, nil, fr)
		}
	}
	w.abort(abUnsupported, "method %s of %s not found", name, i.t)
	return V{}
}

func (w *W) hasMethod(t types.Type, name string) bool {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (w *W) builtin(fr *Frame, name string, sig *types.Signature, argT []types.Type, a []V) V {
	switch name {
	case "len":
		switch x := a[0].p.(type) {
		case nil:
			return V{}
		case *Slice:
			return intV(x.len)
		case string:
			return intV(len(x))
		case *BS:
			return intV(len(x.b))
		case *Map:
			return intV(x.n)
		case *Arr:
			return intV(len(x.v))
		case *ByteArr:
			return intV(len(x.b))
		case *Chan:
			return intV(len(x.q))
		case *V:
			return w.builtin(fr, name, sig, argT, []V{*x})
		}
	case "cap":
		switch x := a[0].p.(type) {
		case nil:
			return V{}
		case *Slice:
			return intV(x.cap)
		case *Arr:
			return intV(len(x.v))
		case *ByteArr:
			return intV(len(x.b))
		case *V:
			return w.builtin(fr, name, sig, argT, []V{*x})
		}
	case "append":
		return w.appendB(fr, sig.Params().At(0).Type(), a, argT)
	case "copy":
		return w.copyB(fr, a)
	case "delete":
		m, _ := a[0].p.(*Map)
		w.mapDel(fr, m, argT[0].Underlying().(*types.Map).Key(), a[1])
		return V{}
	case "clear":
		switch x := a[0].p.(type) {
		case *Map:
			x.ents, x.idx, x.n = nil, map[any]int{}, 0
		case *Slice:
			et := argT[0].Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				if x.ba != nil {
					x.ba.set(x.off+i, V{})
				} else {
					storeTo(&x.a.v[x.off+i], zero(et))
				}
			}
		}
		return V{}
	case "panic":
		w.goPanic(fr, a[0])
	case "recover":
		p := fr.caller
		if p != nil && p.panicking != nil {
			v := p.panicking.v
			p.panicking = nil
			return v
		}
		return V{}
	case "close":
		ch, ok := a[0].p.(*Chan)
		if !ok || ch.closed {
			w.rtPanic(fr, "close of nil or closed channel")
		}
		ch.closed = true
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		r := a[0]
		ii, isInt := basicInt(argT[0])
		for _, y := range a[1:] {
			switch {
			case isInt:
				x, z := w.intT(r, ii.w), w.intT(y, ii.w)
				var lt *Term
				if ii.signed {
					lt = w.db.Slt(x, z)
				} else {
					lt = w.db.Ult(x, z)
				}
				if name == "max" {
					lt = w.db.Not(w.db.Or(lt, w.db.Eq(x, z)))
				}
				r = w.mkInt(w.db.Ite(lt, x, z), ii)
			default:
				if isString(argT[0]) {
					lt := w.truth(w.mkBool(w.strLtT(y, r)))
					if (name == "min") == lt {
						r = y
					}
					continue
				}
				if r.isSym() || y.isSym() {
					w.abort(abUnsupported, "symbolic float min/max")
				}
				if name == "min" {
					r = fltV(min(r.flt(), y.flt()))
				} else {
					r = fltV(max(r.flt(), y.flt()))
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if a[0].p == nil {
			w.rtPanic(fr, "value method called using nil pointer")
		}
		return a[0]
	case "String": // unsafe.String
		p, ok := a[0].p.(BPtr)
		n := int(a[1].n)
		if n == 0 {
			return V{}
		}
		if !ok {
			w.abort(abUnsupported, "unsafe.String")
		}
		return bytesToStr(V{p: &Slice{ba: p.a, off: p.i, len: n, cap: n}})
	case "StringData":
		b, t := strParts(a[0])
		return V{p: BPtr{&ByteArr{b: append([]byte(nil), b...), t: append([]*Term(nil), t...)}, 0}}
	case "SliceData":
		s, _ := a[0].p.(*Slice)
		if s == nil {
			return V{}
		}
		if s.ba != nil {
			return V{p: BPtr{s.ba, s.off}}
		}
		if len(s.a.v) == 0 {
			return V{p: new(V)}
		}
		return V{p: &s.a.v[s.off]}
	case "Slice":
		n := int(a[1].n)
		if p, ok := a[0].p.(BPtr); ok {
			return V{p: &Slice{ba: p.a, off: p.i, len: n, cap: n}}
		}
		if n == 0 {
			return V{}
		}
	}
	w.abort(abUnsupported, "builtin %s", name)
	return V{}
}

// growCap is the capacity append gives a slice it has to reallocate: what
// runtime.growslice does, with the runtime's size classes.
func growCap(oldCap, need int, elem types.Type) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	es := int(gcSizes.Sizeof(elem))
	if es == 0 {
		return need
	}
	hdr := 0
	size := nc * es
	if hasPointers(elem) && size > 512 {
		hdr = 8
	}
	size += hdr
	if size <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= size {
				size = c
				break
			}
		}
		size -= hdr
	} else {
		size = (size - hdr + 8191) &^ 8191
	}
	return size / es
}

var gcSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (w *W) appendB(fr *Frame, st types.Type, a []V, argT []types.Type) V {
	sl, ok := st.Underlying().(*types.Slice)
	if !ok {
		w.abort(abUnsupported, "append to %v", st)
	}
	s, _ := a[0].p.(*Slice)
	if isByteType(sl.Elem()) {
		var sb []byte
		var stt []*Term
		if len(argT) > 1 && isString(argT[1]) {
			sb, stt = strParts(a[1])
		} else {
			sb, stt = sliceBytes(a[1])
		}
		if len(sb) == 0 {
			return a[0]
		}
		var off, ln, cp int
		var ba *ByteArr
		if s != nil {
			ba, off, ln, cp = s.ba, s.off, s.len, s.cap
		}
		need := ln + len(sb)
		if need > cp {
			nc := growCap(cp, need, sl.Elem())
			w.charge(fr, nc)
			nb := &ByteArr{b: make([]byte, nc)}
			if ba != nil {
				nb.copyFrom(0, ba.b, ba.t, off, ln)
			}
			ba, off, cp = nb, 0, nc
		}
		ba.copyFrom(off+ln, sb, stt, 0, len(sb))
		return V{p: &Slice{ba: ba, off: off, len: need, cap: cp}}
	}
	t, _ := a[1].p.(*Slice)
	if t == nil || t.len == 0 {
		return a[0]
	}
	var off, ln, cp int
	var ar *Arr
	if s != nil {
		ar, off, ln, cp = s.a, s.off, s.len, s.cap
	}
	need := ln + t.len
	if need > cp {
		nc := growCap(cp, need, sl.Elem())
		w.charge(fr, nc)
		na := &Arr{v: make([]V, nc)}
		for i := 0; i < ln; i++ {
			na.v[i] = copyVal(ar.v[off+i])
		}
		if needsAlloc(sl.Elem()) {
			for i := ln; i < nc; i++ {
				na.v[i] = zero(sl.Elem())
			}
		}
		ar, off, cp = na, 0, nc
	}
	tmp := make([]V, t.len)
	for i := range tmp {
		tmp[i] = copyVal(t.a.v[t.off+i])
	}
	for i := range tmp {
		storeTo(&ar.v[off+ln+i], tmp[i])
	}
	return V{p: &Slice{a: ar, off: off, len: need, cap: cp}}
}

func (w *W) charge(fr *Frame, n int) {
	w.allocs += int64(n)
	if w.allocs > 16*w.ctx.allocLimit {
		w.abort(abAlloc, "allocations exceed the limit in %s", fr.fn.name)
	}
}

func (w *W) copyB(fr *Frame, a []V) V {
	d, _ := a[0].p.(*Slice)
	if d == nil {
		return V{}
	}
	if d.ba != nil {
		var sb []byte
		var st []*Term
		switch a[1].p.(type) {
		case string, *BS:
			sb, st = strParts(a[1])
		default:
			sb, st = sliceBytes(a[1])
		}
		n := len(sb)
		if d.len < n {
			n = d.len
		}
		d.ba.copyFrom(d.off, sb, st, 0, n)
		return intV(n)
	}
	s, _ := a[1].p.(*Slice)
	if s == nil {
		return V{}
	}
	n := s.len
	if d.len < n {
		n = d.len
	}
	tmp := make([]V, n)
	for i := range tmp {
		tmp[i] = copyVal(s.a.v[s.off+i])
	}
	for i := range tmp {
		storeTo(&d.a.v[d.off+i], tmp[i])
	}
	return intV(n)
}

// ---- maps

func (w *W) mapKey(kt types.Type, k V) (any, bool) {
	switch x := k.p.(type) {
	case nil:
		if isString(kt) {
			return "", true
		}
		if _, ok := basicInt(kt); ok {
			return k.n, true
		}
		if isBool(kt) {
			return k.n, true
		}
		return nil, true
	case string:
		return x, true
	case *V:
		return x, true
	case *Iface:
		if s, ok := concStr(x.v); ok && isString(x.t) {
			return "i:" + x.t.String() + ":" + s, true
		}
		if x.v.p == nil {
			return fmt.Sprintf("i:%s:%d", x.t, x.v.n), true
		}
		if p, ok := x.v.p.(*V); ok {
			return p, true
		}
	case *Struct:
		s := "s:"
		for _, f := range x.f {
			fk, ok := w.mapKey(nil2(f), f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T%v|", fk, fk)
		}
		return s, true
	}
	return nil, false
}

func nil2(v V) types.Type {
	return types.Typ[types.Int]
}

func (w *W) mapFind(fr *Frame, m *Map, kt types.Type, k V) int {
	if m == nil {
		return -1
	}
	ck, conc := w.mapKey(kt, k)
	if conc && len(m.idx) == len(m.ents) {
		if i, ok := m.idx[ck]; ok && !m.ents[i].dead {
			return i
		}
		return -1
	}
	for i := range m.ents {
		if m.ents[i].dead {
			continue
		}
		if w.branch(w.eqT(fr, kt, kt, m.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (w *W) mapGet(fr *Frame, m *Map, kt types.Type, k V) (V, bool) {
	i := w.mapFind(fr, m, kt, k)
	if i < 0 {
		return V{}, false
	}
	return m.ents[i].v, true
}

func (w *W) mapSet(fr *Frame, m *Map, kt types.Type, k, v V) {
	i := w.mapFind(fr, m, kt, k)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, MapEnt{k: k, v: v})
	m.n++
	if ck, ok := w.mapKey(kt, k); ok && len(m.idx) == len(m.ents)-1 {
		if _, dup := m.idx[ck]; dup {
			// a dead entry had this key
			m.idx[deadKey{len(m.ents)}] = -1
		}
		m.idx[ck] = len(m.ents) - 1
	}
}

type deadKey struct{ i int }

func (w *W) mapDel(fr *Frame, m *Map, kt types.Type, k V) {
	i := w.mapFind(fr, m, kt, k)
	if i >= 0 {
		m.ents[i].dead = true
		m.n--
	}
}

// newMapIter: Go leaves the order unspecified. When the harness asks for it
// (sym.MapOrder), the order is a choice of the path; else insertion order.
func (w *W) newMapIter(m *Map) *MapIter {
	it := &MapIter{m: m}
	if m == nil {
		return it
	}
	for i := range m.ents {
		if !m.ents[i].dead {
			it.ord = append(it.ord, i)
		}
	}
	if w.mapOrder && len(it.ord) > 1 && len(it.ord) <= 4 {
		for i := 0; i < len(it.ord)-1; i++ {
			j := i + w.choice(len(it.ord)-i, "map order")
			it.ord[i], it.ord[j] = it.ord[j], it.ord[i]
		}
	}
	return it
}

func (w *W) nextMap(it *MapIter) V {
	for it.pos < len(it.ord) {
		e := it.m.ents[it.ord[it.pos]]
		it.pos++
		if e.dead {
			continue
		}
		return V{p: Tuple{V{n: 1}, e.k, copyVal(e.v)}}
	}
	return V{p: Tuple{V{}, V{}, V{}}}
}

// choice picks an integer in [0,n) nondeterministically; it is a symbolic
// variable that is concretised at once. It does not appear in native replays.
func (w *W) choice(n int, what string) int {
	if n <= 1 {
		return 0
	}
	v := w.newVar(16)
	w.assume(w.db.Ult(v, w.db.Const(16, uint64(n))))
	return int(w.concretise(v, what))
}
