package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(w *W, fr *Frame, a []V) V

type intrEnt struct {
	f    intrFn
	pure bool
}

var intrinsics map[string]intrEnt

func reg(name string, pure bool, f intrFn) { intrinsics[name] = intrEnt{f, pure} }

func lookupIntrinsic(e *Engine, f *ssa.Function) (intrFn, bool) {
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if x, ok := intrinsics[name]; ok {
		return x.f, x.pure
	}
	if name == "reflect.TypeFor" && len(f.TypeArgs()) == 1 {
		t := f.TypeArgs()[0]
		return func(w *W, fr *Frame, a []V) V { return w.rtypeV(t) }, true
	}
	if f.Pkg != nil && f.Name() == "init" && f.Synthetic == "package initializer" {
		return noop, false // run lazily, see ensureInit
	}
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "log":
			if f.Name() == "init" {
				break
			}
			return func(w *W, fr *Frame, a []V) V {
				if strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic") {
					w.goPanic(fr, V{p: &Iface{types.Typ[types.String], str("log." + f.Name())}})
				}
				if f.Name() == "New" || f.Name() == "Default" {
					return V{p: &V{p: &Struct{}}}
				}
				return V{}
			}, false
		}
		if strings.HasPrefix(f.Pkg.Pkg.Path(), e.symPath) && f.Pkg.Pkg.Path() == e.symPath {
			if x, ok := intrinsics["sym."+f.Name()]; ok {
				return x.f, x.pure
			}
		}
	}
	return nil, false
}

func noop(w *W, fr *Frame, a []V) V { return V{} }

func hostStr(w *W, v V) string {
	s, ok := concStr(v)
	if !ok {
		w.abort(abUnsupported, "symbolic string where a concrete one is needed")
	}
	return s
}

// concretiseStr forks until all bytes are fixed.
func (w *W) concretiseStr(v V, what string) string {
	if s, ok := concStr(v); ok {
		return s
	}
	n := strLen(v)
	b := make([]byte, n)
	for i := range b {
		x := strAt(v, i)
		if t, ok := x.p.(*Term); ok {
			b[i] = byte(w.concretise(t, what))
		} else {
			b[i] = byte(x.n)
		}
	}
	return string(b)
}

func rangeBounds(tabs ...*unicode.RangeTable) []uint32 {
	in := func(r rune) bool { return unicode.In(r, tabs...) }
	var b []uint32
	prev := false
	for r := rune(0); r <= unicode.MaxRune; r++ {
		x := in(r)
		if x != prev {
			b = append(b, uint32(r))
			prev = x
		}
	}
	return b
}

var (
	letterB = rangeBounds(unicode.Letter)
	digitB  = rangeBounds(unicode.Digit)
	spaceB  = rangeBounds(unicode.White_Space)
)

func (w *W) inBounds(t *Term, b []uint32) *Term {
	db := w.db
	var build func(lo, hi int) *Term
	// parity of number of bounds <= r
	build = func(lo, hi int) *Term {
		if lo == hi {
			return db.Bool(lo%2 == 1)
		}
		m := (lo + hi) / 2
		return db.Ite(db.Ult(t, db.Const(32, uint64(b[m]))), build(lo, m), build(m+1, hi))
	}
	return build(0, len(b))
}

func uniPred(b []uint32, host func(rune) bool) intrFn {
	return func(w *W, fr *Frame, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return w.mkBool(w.inBounds(t, b))
		}
		return boolV(host(rune(int64(a[0].n))))
	}
}

// indexByteV is the first index of c in the byte string, as an ite chain.
func (w *W) indexByteV(n int, at func(int) V, c V) V {
	ii := intInfo{64, true}
	ct := w.intT(c, 8)
	r := w.db.Const(64, ^uint64(0))
	for i := n - 1; i >= 0; i-- {
		r = w.db.Ite(w.db.Eq(w.byteT(at(i)), ct), w.db.Const(64, uint64(i)), r)
	}
	return w.mkInt(r, ii)
}

func sliceStr(v V) V {
	b, t := sliceBytes(v)
	return mkStr(b, t)
}

func (w *W) cmpStr(a, b V) V {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return intV(strings.Compare(x, y))
		}
	}
	lt := w.strLtT(a, b)
	eq := w.strEqT(a, b)
	ii := intInfo{64, true}
	return w.mkInt(w.db.Ite(eq, w.db.Const(64, 0), w.db.Ite(lt, w.db.Const(64, ^uint64(0)), w.db.Const(64, 1))), ii)
}

func (w *W) indexStr(s, sub V) V {
	if x, ok := concStr(s); ok {
		if y, ok := concStr(sub); ok {
			return intV(strings.Index(x, y))
		}
	}
	n, m := strLen(s), strLen(sub)
	r := w.db.Const(64, ^uint64(0))
	for i := n - m; i >= 0; i-- {
		r = w.db.Ite(w.strEqT(strSlice(s, i, i+m), sub), w.db.Const(64, uint64(i)), r)
	}
	return w.mkInt(r, intInfo{64, true})
}

func (w *W) containsAny(s, chars V) V {
	cs := hostStr(w, chars)
	if x, ok := concStr(s); ok {
		return boolV(strings.ContainsAny(x, cs))
	}
	for _, c := range cs {
		if c >= 0x80 {
			w.abort(abUnsupported, "ContainsAny with non-ASCII set")
		}
	}
	r := w.db.tFalse
	for i := 0; i < strLen(s); i++ {
		x := w.byteT(strAt(s, i))
		for k := 0; k < len(cs); k++ {
			r = w.db.Or(r, w.db.Eq(x, w.db.Const(8, uint64(cs[k]))))
		}
	}
	return w.mkBool(r)
}

func (w *W) mkStrSlice(ss []V) V {
	a := &Arr{v: ss}
	return V{p: &Slice{a: a, len: len(ss), cap: len(ss)}}
}

func init() {
	intrinsics = map[string]intrEnt{}

	reg("unicode.IsLetter", true, uniPred(letterB, unicode.IsLetter))
	reg("unicode.IsDigit", true, uniPred(digitB, unicode.IsDigit))
	reg("unicode.IsSpace", true, uniPred(spaceB, unicode.IsSpace))

	reg("internal/bytealg.IndexByte", true, func(w *W, fr *Frame, a []V) V {
		b, t := sliceBytes(a[0])
		if len(t) == 0 && !a[1].isSym() {
			return intV(bytes.IndexByte(b, byte(a[1].n)))
		}
		s := &BS{b, t}
		return w.indexByteV(len(b), func(i int) V { return strAt(V{p: s}, i) }, a[1])
	})
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	reg("internal/bytealg.IndexByteString", true, func(w *W, fr *Frame, a []V) V {
		if s, ok := concStr(a[0]); ok && !a[1].isSym() {
			return intV(strings.IndexByte(s, byte(a[1].n)))
		}
		s := a[0]
		return w.indexByteV(strLen(s), func(i int) V { return strAt(s, i) }, a[1])
	})
	intrinsics["strings.IndexByte"] = intrinsics["internal/bytealg.IndexByteString"]
	intrinsics["internal/stringslite.IndexByte"] = intrinsics["internal/bytealg.IndexByteString"]
	cnt := func(w *W, s V, c V) V {
		if x, ok := concStr(s); ok && !c.isSym() {
			return intV(strings.Count(x, string([]byte{byte(c.n)})))
		}
		n := 0
		for i := 0; i < strLen(s); i++ {
			if w.branch(w.db.Eq(w.byteT(strAt(s, i)), w.byteT(c))) {
				n++
			}
		}
		return intV(n)
	}
	reg("internal/bytealg.Count", false, func(w *W, fr *Frame, a []V) V { return cnt(w, sliceStr(a[0]), a[1]) })
	reg("internal/bytealg.CountString", false, func(w *W, fr *Frame, a []V) V { return cnt(w, a[0], a[1]) })
	reg("internal/bytealg.Equal", true, func(w *W, fr *Frame, a []V) V { return w.mkBool(w.strEqT(sliceStr(a[0]), sliceStr(a[1]))) })
	intrinsics["bytes.Equal"] = intrinsics["internal/bytealg.Equal"]
	reg("internal/bytealg.Compare", true, func(w *W, fr *Frame, a []V) V { return w.cmpStr(sliceStr(a[0]), sliceStr(a[1])) })
	intrinsics["bytes.Compare"] = intrinsics["internal/bytealg.Compare"]
	reg("internal/bytealg.CompareString", true, func(w *W, fr *Frame, a []V) V { return w.cmpStr(a[0], a[1]) })
	intrinsics["strings.Compare"] = intrinsics["internal/bytealg.CompareString"]
	intrinsics["cmp.Compare[string]"] = intrinsics["internal/bytealg.CompareString"]
	reg("internal/bytealg.MakeNoZero", true, func(w *W, fr *Frame, a []V) V {
		n := w.makeLen(fr, a[0])
		return V{p: &Slice{ba: &ByteArr{b: make([]byte, n)}, len: n, cap: n}}
	})
	reg("internal/stringslite.Index", true, func(w *W, fr *Frame, a []V) V { return w.indexStr(a[0], a[1]) })
	intrinsics["strings.Index"] = intrinsics["internal/stringslite.Index"]
	reg("bytes.Index", true, func(w *W, fr *Frame, a []V) V { return w.indexStr(sliceStr(a[0]), sliceStr(a[1])) })
	reg("strings.ContainsAny", true, func(w *W, fr *Frame, a []V) V { return w.containsAny(a[0], a[1]) })
	reg("bytes.ContainsAny", true, func(w *W, fr *Frame, a []V) V { return w.containsAny(sliceStr(a[0]), a[1]) })
	reg("internal/abi.NoEscape", true, func(w *W, fr *Frame, a []V) V { return a[0] })
	reg("internal/abi.Escape", true, func(w *W, fr *Frame, a []V) V { return a[0] })
	reg("internal/abi.EscapeNonString", true, noop)
	reg("internal/race.Acquire", true, noop)
	reg("runtime.KeepAlive", true, noop)
	reg("runtime.GC", true, noop)
	reg("runtime.SetFinalizer", false, noop)
	reg("runtime.Gosched", false, noop)

	// sync
	for _, n := range []string{"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock"} {
		reg(n, false, noop)
	}
	reg("(*sync.Once).Do", false, func(w *W, fr *Frame, a []V) V {
		st := a[0].p.(*V).p.(*Struct)
		// use the first scalar cell of the struct as the done flag
		c := &st.f[0]
		for {
			if s, ok := c.p.(*Struct); ok {
				c = &s.f[len(s.f)-1]
				continue
			}
			break
		}
		if c.n == 0 {
			c.n = 1
			w.callV(a[1], nil, fr)
		}
		return V{}
	})
	reg("(*sync.Pool).Get", false, func(w *W, fr *Frame, a []V) V {
		st := a[0].p.(*V).p.(*Struct)
		nf := st.f[len(st.f)-1]
		if nf.p == nil {
			return V{}
		}
		return w.callV(nf, nil, fr)
	})
	reg("(*sync.Pool).Put", false, noop)
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ii := intInfo{64, ty[0] == 'I'}
		if strings.HasSuffix(ty, "32") {
			ii.w = 32
		}
		reg("sync/atomic.Load"+ty, false, func(w *W, fr *Frame, a []V) V { return *a[0].p.(*V) })
		reg("sync/atomic.Store"+ty, false, func(w *W, fr *Frame, a []V) V { *a[0].p.(*V) = a[1]; return V{} })
		reg("sync/atomic.Add"+ty, false, func(w *W, fr *Frame, a []V) V {
			c := a[0].p.(*V)
			c.n = canon(c.n+a[1].n, ii)
			return *c
		})
		reg("sync/atomic.CompareAndSwap"+ty, false, func(w *W, fr *Frame, a []V) V {
			c := a[0].p.(*V)
			if c.n == a[1].n {
				*c = a[2]
				return boolV(true)
			}
			return boolV(false)
		})
		reg("sync/atomic.Swap"+ty, false, func(w *W, fr *Frame, a []V) V {
			c := a[0].p.(*V)
			o := *c
			*c = a[1]
			return o
		})
	}
	reg("sync/atomic.LoadPointer", false, func(w *W, fr *Frame, a []V) V { return *a[0].p.(*V) })
	reg("sync/atomic.StorePointer", false, func(w *W, fr *Frame, a []V) V { *a[0].p.(*V) = a[1]; return V{} })

	// math
	reg("math.Float64bits", true, func(w *W, fr *Frame, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			if t.op == OpFBits {
				return V{p: t.a[0]}
			}
			if w.spec > 0 {
				w.abort(abSpec, "Float64bits")
			}
			b := w.newVar(64)
			w.model[b.k] = w.db.Eval(t, w.model)
			w.assume(w.db.Or(w.db.FEq(w.db.FFromBits(b), t), w.db.And(w.db.Not(w.db.FEq(t, t)), w.db.Not(w.db.FEq(w.db.FFromBits(b), w.db.FFromBits(b))))))
			return V{p: b}
		}
		return V{n: a[0].n}
	})
	reg("math.Float64frombits", true, func(w *W, fr *Frame, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return w.mkF(w.db.FFromBits(t))
		}
		return V{n: a[0].n}
	})
	reg("math.Float32bits", true, func(w *W, fr *Frame, a []V) V { return V{n: uint64(math.Float32bits(float32(cf(w, a[0]))))} })
	reg("math.Float32frombits", true, func(w *W, fr *Frame, a []V) V {
		if a[0].isSym() {
			w.abort(abUnsupported, "symbolic float32")
		}
		return fltV(float64(math.Float32frombits(uint32(a[0].n))))
	})
	reg("math.IsNaN", true, func(w *W, fr *Frame, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return w.mkBool(w.db.Not(w.db.FEq(t, t)))
		}
		return boolV(math.IsNaN(a[0].flt()))
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp, "Round": math.Round} {
		reg("math."+n, true, func(w *W, fr *Frame, a []V) V { return fltV(f(cf(w, a[0]))) })
	}
	reg("math.Abs", true, func(w *W, fr *Frame, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return w.mkF(w.db.Ite(w.db.FLt(t, w.db.FConst(0)), w.db.FNeg(t), t))
		}
		return fltV(math.Abs(a[0].flt()))
	})
	reg("math.Mod", true, func(w *W, fr *Frame, a []V) V { return fltV(math.Mod(cf(w, a[0]), cf(w, a[1]))) })
	reg("math.Pow", true, func(w *W, fr *Frame, a []V) V { return fltV(math.Pow(cf(w, a[0]), cf(w, a[1]))) })

	// strconv
	reg("strconv.FormatFloat", true, func(w *W, fr *Frame, a []V) V {
		return str(strconv.FormatFloat(cf(w, a[0]), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	})
	reg("strconv.Quote", true, func(w *W, fr *Frame, a []V) V { return str(strconv.Quote(hostStr(w, a[0]))) })
	reg("internal/strconv.FormatFloat", true, intrinsics["strconv.FormatFloat"].f)

	// time
	reg("time.Now", true, func(w *W, fr *Frame, a []V) V {
		t := fr.w.eng.prog.ImportedPackage("time").Type("Time").Type()
		v := zero(t)
		v.p.(*Struct).f[1] = V{n: uint64(w.clock)}
		return v
	})
	reg("os.Getenv", true, noop)
	reg("os.runtime_args", true, noop)
	reg("syscall.runtime_envs", true, noop)
	reg("runtime.FuncForPC", true, func(w *W, fr *Frame, a []V) V { return V{p: &V{p: &Struct{}}} })
	reg("(*runtime.Func).Name", true, func(w *W, fr *Frame, a []V) V { return str("func") })
	reg("runtime.Caller", true, func(w *W, fr *Frame, a []V) V { return V{p: Tuple{V{}, str("file"), V{}, V{}}} })
	reg("internal/godebug.New", true, func(w *W, fr *Frame, a []V) V { return V{p: &V{p: &Struct{}}} })
	reg("(*internal/godebug.Setting).Value", true, noop)
	reg("(*internal/godebug.Setting).IncNonDefault", true, noop)
	reg("(*internal/godebug.Setting).Name", true, noop)

	// sort
	sortSlice := func(w *W, fr *Frame, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return V{}
		}
		s, _ := i.v.p.(*Slice)
		if s == nil {
			return V{}
		}
		if s.len > 12 {
			w.abort(abUnsupported, "sort.Slice of more than 12 elements")
		}
		for x := 1; x < s.len; x++ {
			for y := x; y > 0; y-- {
				if !w.truth(w.callV(a[1], []V{intV(y), intV(y - 1)}, fr)) {
					break
				}
				if s.ba != nil {
					p, q := s.ba.at(s.off+y), s.ba.at(s.off+y-1)
					s.ba.set(s.off+y, q)
					s.ba.set(s.off+y-1, p)
				} else {
					c := s.a.v
					c[s.off+y], c[s.off+y-1] = c[s.off+y-1], c[s.off+y]
				}
			}
		}
		return V{}
	}
	reg("sort.Slice", false, sortSlice)
	reg("sort.SliceStable", false, sortSlice)

	// io/os
	reg("os.Exit", false, func(w *W, fr *Frame, a []V) V { w.rtPanic(fr, "os.Exit called"); return V{} })

	registerFmt()
	registerReflect()
	registerSym()
	registerCoro()
}

func cf(w *W, v V) float64 {
	if t, ok := v.p.(*Term); ok {
		return math.Float64frombits(w.concretise(t, "float"))
	}
	return v.flt()
}

// ---- fmt

func registerFmt() {
	variadic := func(v V) []V {
		s, _ := v.p.(*Slice)
		if s == nil {
			return nil
		}
		return s.a.v[s.off : s.off+s.len]
	}
	reg("fmt.Sprint", false, func(w *W, fr *Frame, a []V) V { return w.sprint(fr, variadic(a[0]), false) })
	reg("fmt.Sprintln", false, func(w *W, fr *Frame, a []V) V { return w.sprint(fr, variadic(a[0]), true) })
	reg("fmt.Sprintf", false, func(w *W, fr *Frame, a []V) V { return w.sprintf(fr, hostStr(w, a[0]), variadic(a[1])) })
	reg("fmt.Errorf", false, func(w *W, fr *Frame, a []V) V {
		s := w.sprintf(fr, hostStr(w, a[0]), variadic(a[1]))
		c := &V{p: &Struct{[]V{s}}}
		return V{p: &Iface{t: w.eng.errStrPtr, v: V{p: c}}}
	})
	wr := func(w *W, fr *Frame, dst V, s V) V {
		b, t := strParts(s)
		return w.callMethod(fr, dst, "Write", mkBytesV(b, t))
	}
	reg("fmt.Fprintf", false, func(w *W, fr *Frame, a []V) V {
		return wr(w, fr, a[0], w.sprintf(fr, hostStr(w, a[1]), variadic(a[2])))
	})
	reg("fmt.Fprint", false, func(w *W, fr *Frame, a []V) V { return wr(w, fr, a[0], w.sprint(fr, variadic(a[1]), false)) })
	reg("fmt.Fprintln", false, func(w *W, fr *Frame, a []V) V { return wr(w, fr, a[0], w.sprint(fr, variadic(a[1]), true)) })
	for _, n := range []string{"Print", "Println", "Printf"} {
		reg("fmt."+n, false, func(w *W, fr *Frame, a []V) V { return V{p: Tuple{V{}, V{}}} })
	}
}

func isErrorLike(w *W, t types.Type) string {
	switch t.(type) {
	case *types.Named, *types.Pointer, *types.Alias:
	default:
		return ""
	}
	for _, n := range []string{"Error", "String"} {
		ms := w.eng.prog.MethodSets.MethodSet(t)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == n {
				sig := ms.At(k).Obj().Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
					return n
				}
			}
		}
	}
	return ""
}

// fmtV renders an operand as %v does.
func (w *W) fmtV(fr *Frame, v V, verb string) V {
	i, ok := v.p.(*Iface)
	if !ok {
		if strings.HasSuffix(verb, "v") || strings.HasSuffix(verb, "T") {
			return str("<nil>")
		}
		return str("%!" + verb[len(verb)-1:] + "(<nil>)")
	}
	if strings.HasSuffix(verb, "T") {
		return str(rtypeString(i.t))
	}
	last := verb[len(verb)-1]
	plain := verb == "%v" || verb == "%s" || verb == "%d"
	if last == 'v' || last == 's' {
		if m := isErrorLike(w, i.t); m != "" {
			if _, isPtr := i.t.Underlying().(*types.Pointer); !(isPtr && i.v.p == nil) {
				s := w.callMethod(fr, v, m)
				if plain {
					return s
				}
				return str(fmt.Sprintf(verb, hostStr(w, s)))
			}
			return str("<nil>")
		}
	}
	switch {
	case isString(i.t):
		if plain && last != 'd' {
			return i.v
		}
		if s, ok := concStr(i.v); ok {
			return str(fmt.Sprintf(verb, s))
		}
		if verb == "%q" {
			return strConcat(strConcat(str("\""), i.v), str("\"")) // approximation only used in messages
		}
	case isBool(i.t):
		b := w.truth(i.v)
		return str(fmt.Sprintf(verb, b))
	}
	if ii, ok := basicInt(i.t); ok {
		if t, ok := i.v.p.(*Term); ok {
			if plain && last != 's' {
				f := w.eng.models["fmtInt"]
				x := w.convInt(t, ii, intInfo{64, ii.signed})
				return w.call(w.eng.fnOf(f), []V{x, boolV(ii.signed)}, nil, fr)
			}
			return w.fmtV(fr, V{p: &Iface{i.t, V{n: canon(w.concretise(t, "formatted integer"), ii)}}}, verb)
		}
		var h any
		switch {
		case ii.w == 32 && ii.signed:
			h = int32(i.v.n)
		case ii.signed:
			h = int64(i.v.n)
		case ii.w == 8:
			h = uint8(i.v.n)
		default:
			h = i.v.n
		}
		return str(fmt.Sprintf(verb, h))
	}
	if bits, ok := isFloat(i.t); ok {
		f := cf(w, i.v)
		if bits == 32 {
			return str(fmt.Sprintf(verb, float32(f)))
		}
		return str(fmt.Sprintf(verb, f))
	}
	switch u := i.t.Underlying().(type) {
	case *types.Slice:
		if isByteType(u.Elem()) {
			if last == 's' && plain {
				return bytesToStr(i.v)
			}
			b, t := sliceBytes(i.v)
			if len(t) == 0 {
				return str(fmt.Sprintf(verb, b))
			}
		}
		s, _ := i.v.p.(*Slice)
		r := str("[")
		if s != nil {
			for k := 0; k < s.len; k++ {
				if k > 0 {
					r = strConcat(r, str(" "))
				}
				e := sliceAt(s, k)
				if !isIface(u.Elem()) {
					e = V{p: &Iface{u.Elem(), e}}
				}
				r = strConcat(r, w.fmtV(fr, e, verb))
			}
		}
		return strConcat(r, str("]"))
	case *types.Pointer:
		if i.v.p == nil {
			return str("<nil>")
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); ok && last == 'v' {
			w.abort(abUnsupported, "formatting of a pointer to struct %s", i.t)
		}
		return str("0xc000000000")
	case *types.Signature:
		return str("0x400000")
	}
	w.abort(abUnsupported, "formatting of %s with %s", i.t, verb)
	return V{}
}

func (w *W) sprint(fr *Frame, args []V, ln bool) V {
	r := V{}
	for k, a := range args {
		if k > 0 {
			if ln {
				r = strConcat(r, str(" "))
			} else {
				// Sprint adds spaces between operands when neither is a string
				isS := func(v V) bool { i, ok := v.p.(*Iface); return ok && isString(i.t) }
				if !isS(a) && !isS(args[k-1]) {
					r = strConcat(r, str(" "))
				}
			}
		}
		r = strConcat(r, w.fmtV(fr, a, "%v"))
	}
	if ln {
		r = strConcat(r, str("\n"))
	}
	return r
}

func (w *W) sprintf(fr *Frame, f string, args []V) V {
	r := V{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			return strConcat(r, str(f[i:]))
		}
		r = strConcat(r, str(f[i:i+j]))
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			return strConcat(r, str("%!(NOVERB)"))
		}
		if f[k] == '%' {
			r = strConcat(r, str("%"))
			i = k + 1
			continue
		}
		verb := f[i : k+1]
		if f[k] == 'w' {
			verb = f[i:k] + "v"
		}
		i = k + 1
		if ai >= len(args) {
			r = strConcat(r, str("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		r = strConcat(r, w.fmtV(fr, args[ai], verb))
		ai++
	}
	if ai < len(args) {
		r = strConcat(r, str("%!(EXTRA)"))
	}
	return r
}
