package main

import (
	"go/types"
	"math"
)

func (w *W) rec(kind string, t *Term, n uint64) { w.recs = append(w.recs, Rec{kind, t, n}) }

func registerSym() {
	reg("sym.Byte", false, func(w *W, fr *Frame, a []V) V {
		t := w.newVar(8)
		w.rec("u", t, 0)
		return V{p: t}
	})
	reg("sym.Bool", false, func(w *W, fr *Frame, a []V) V {
		t := w.newVar(WBool)
		w.rec("u", t, 0)
		return V{p: t}
	})
	reg("sym.Int64", false, func(w *W, fr *Frame, a []V) V {
		t := w.newVar(64)
		w.rec("i", t, 0)
		return V{p: t}
	})
	reg("sym.Uint64", false, func(w *W, fr *Frame, a []V) V {
		t := w.newVar(64)
		w.rec("u", t, 0)
		return V{p: t}
	})
	reg("sym.Float64", false, func(w *W, fr *Frame, a []V) V {
		b := w.newVar(64)
		w.rec("u", b, 0)
		return V{p: w.db.FFromBits(b)}
	})
	reg("sym.Int", false, func(w *W, fr *Frame, a []V) V {
		lo, hi := int64(a[0].n), int64(a[1].n)
		if lo == hi {
			w.rec("i", nil, uint64(lo))
			return a[0]
		}
		t := w.newVar(64)
		if v := int64(w.model[t.k]); v < lo || v > hi {
			if len(w.decs) >= len(w.pre) {
				w.model[t.k] = uint64(lo)
			}
		}
		w.rec("i", t, 0)
		w.assume(w.db.Sle(w.db.Const(64, uint64(lo)), t))
		w.assume(w.db.Sle(t, w.db.Const(64, uint64(hi))))
		return V{p: t}
	})
	reg("sym.Choose", false, func(w *W, fr *Frame, a []V) V {
		n := int(int64(a[0].n))
		if n <= 1 {
			w.rec("i", nil, 0)
			return V{}
		}
		t := w.newVar(16)
		if len(w.decs) >= len(w.pre) && w.model[t.k] >= uint64(n) {
			w.model[t.k] = 0
		}
		w.rec("u", t, 0)
		w.assume(w.db.Ult(t, w.db.Const(16, uint64(n))))
		return V{n: w.concretise(t, "choice")}
	})
	reg("sym.Bytes", false, func(w *W, fr *Frame, a []V) V {
		n := int(int64(a[0].n))
		b := make([]byte, n)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = w.newVar(8)
			w.rec("u", ts[i], 0)
		}
		return mkBytesV(b, ts)
	})
	reg("sym.Assume", false, func(w *W, fr *Frame, a []V) V {
		w.assume(w.boolT(a[0]))
		return V{}
	})
	reg("sym.Assert", false, func(w *W, fr *Frame, a []V) V {
		s, ok := concStr(a[1])
		if !ok {
			s = "(message with symbolic text)"
		}
		w.assert(w.boolT(a[0]), s)
		return V{}
	})
	reg("sym.Fail", false, func(w *W, fr *Frame, a []V) V {
		s, _ := concStr(a[0])
		w.assert(w.db.tFalse, s)
		return V{}
	})
	reg("sym.Reach", false, func(w *W, fr *Frame, a []V) V {
		s, _ := concStr(a[0])
		w.reached[s] = true
		return V{}
	})
	reg("sym.Symbolic", true, func(w *W, fr *Frame, a []V) V { return boolV(true) })
	reg("sym.Param", true, func(w *W, fr *Frame, a []V) V {
		n := hostStr(w, a[0])
		if v, ok := w.ctx.params[n]; ok {
			return intV(v)
		}
		return a[1]
	})
	reg("sym.MapOrder", false, func(w *W, fr *Frame, a []V) V {
		w.mapOrder = a[0].n != 0
		return V{}
	})
	reg("sym.Concrete", false, func(w *W, fr *Frame, a []V) V { return str(w.concretiseStr(a[0], "string")) })
	reg("sym.ConcreteInt", false, func(w *W, fr *Frame, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return V{n: w.concretise(t, "int")}
		}
		return a[0]
	})
	reg("sym.IsConcrete", false, func(w *W, fr *Frame, a []V) V {
		_, ok := concStr(a[0])
		return boolV(ok)
	})
	// branch-free combinators
	reg("sym.And", true, func(w *W, fr *Frame, a []V) V { return w.mkBool(w.db.And(w.boolT(a[0]), w.boolT(a[1]))) })
	reg("sym.Or", true, func(w *W, fr *Frame, a []V) V { return w.mkBool(w.db.Or(w.boolT(a[0]), w.boolT(a[1]))) })
	reg("sym.StrEq", true, func(w *W, fr *Frame, a []V) V { return w.mkBool(w.strEqT(a[0], a[1])) })
	reg("sym.IfInt", true, func(w *W, fr *Frame, a []V) V {
		return w.mkInt(w.db.Ite(w.boolT(a[0]), w.intT(a[1], 64), w.intT(a[2], 64)), intInfo{64, true})
	})
	reg("sym.ParseFloatHost", false, func(w *W, fr *Frame, a []V) V { return hostParseFloat(w, hostStr(w, a[0])) })
	reg("sym.TypeName", true, func(w *W, fr *Frame, a []V) V {
		if i, ok := a[0].p.(*Iface); ok {
			return str(rtypeString(i.t))
		}
		return str("nil")
	})
	reg("sym.SamePtr", true, func(w *W, fr *Frame, a []V) V { return boolV(a[0].p == a[1].p) })
	reg("sym.ObserveStr", false, func(w *W, fr *Frame, a []V) V {
		l, _ := concStr(a[0])
		b, t := strParts(a[1])
		w.obs = append(w.obs, Obs{l, obsVal{kind: "s", b: b, bt: t}})
		return V{}
	})
	reg("sym.ObserveInt", false, func(w *W, fr *Frame, a []V) V {
		l, _ := concStr(a[0])
		w.obs = append(w.obs, Obs{l, obsVal{kind: "i", n: a[1].n, t: a[1].term()}})
		return V{}
	})
	reg("sym.ObserveBool", false, func(w *W, fr *Frame, a []V) V {
		l, _ := concStr(a[0])
		w.obs = append(w.obs, Obs{l, obsVal{kind: "b", n: a[1].n, t: a[1].term()}})
		return V{}
	})
	reg("sym.ObserveFloat", false, func(w *W, fr *Frame, a []V) V {
		l, _ := concStr(a[0])
		w.obs = append(w.obs, Obs{l, obsVal{kind: "f", n: a[1].n, t: a[1].term()}})
		return V{}
	})
	// Panics runs f and reports whether it panicked (and how).
	reg("sym.Panics", false, func(w *W, fr *Frame, a []V) V {
		stk, top, frames, tf := w.regStk, w.regTop, w.frames, w.topFrame
		msg := ""
		p := func() (p bool) {
			defer func() {
				if e := recover(); e != nil {
					tp, ok := e.(*tpanic)
					if !ok {
						panic(e)
					}
					w.regStk, w.regTop, w.frames, w.topFrame = stk, top, frames, tf
					p = true
					msg = tp.msg + " at " + tp.pos
				}
			}()
			w.callV(a[0], nil, fr)
			return false
		}()
		return V{p: Tuple{boolV(p), str(msg)}}
	})
}

func hostParseFloat(w *W, s string) V {
	f, err := parseFloatHost(s)
	e := V{}
	if err != nil {
		e = w.mkErr(err.Error())
	}
	return V{p: Tuple{V{n: math.Float64bits(f)}, e}}
}

var _ types.Type
