package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RVal models a reflect.Value, RType a reflect.Type.
type RVal struct {
	t     types.Type
	v     V
	valid bool
	recv  *RVal
	meth  *ssa.Function
}

type RType struct{ t types.Type }

func rtypeString(t types.Type) string {
	switch u := t.(type) {
	case *types.Alias:
		return rtypeString(types.Unalias(t))
	case *types.Named:
		s := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			s = u.Obj().Pkg().Name() + "." + s
		}
		return s
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		case types.UnsafePointer:
			return "unsafe.Pointer"
		}
		return u.Name()
	case *types.Pointer:
		return "*" + rtypeString(u.Elem())
	case *types.Slice:
		return "[]" + rtypeString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rtypeString(u.Elem()))
	case *types.Map:
		return "map[" + rtypeString(u.Key()) + "]" + rtypeString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		return u.String()
	case *types.Signature:
		var ps []string
		for i := 0; i < u.Params().Len(); i++ {
			if u.Variadic() && i == u.Params().Len()-1 {
				ps = append(ps, "..."+rtypeString(u.Params().At(i).Type().(*types.Slice).Elem()))
				continue
			}
			ps = append(ps, rtypeString(u.Params().At(i).Type()))
		}
		s := "func(" + strings.Join(ps, ", ") + ")"
		switch u.Results().Len() {
		case 0:
		case 1:
			s += " " + rtypeString(u.Results().At(0).Type())
		default:
			var rs []string
			for i := 0; i < u.Results().Len(); i++ {
				rs = append(rs, rtypeString(u.Results().At(i).Type()))
			}
			s += " (" + strings.Join(rs, ", ") + ")"
		}
		return s
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
	}
	return t.String()
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Struct:
		return reflect.Struct
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (w *W) rtypeV(t types.Type) V {
	return V{p: &Iface{t: types.NewPointer(types.Typ[types.Int]), v: V{p: &RType{t}}}}
}

func (w *W) strPanic(fr *Frame, msg string) {
	w.goPanic(fr, V{p: &Iface{types.Typ[types.String], str(msg)}})
}

func (w *W) rtypeCall(fr *Frame, rt *RType, name string, a []V) V {
	sig, _ := rt.t.Underlying().(*types.Signature)
	needSig := func() {
		if sig == nil {
			w.strPanic(fr, "reflect: "+name+" of non-func type "+rtypeString(rt.t))
		}
	}
	switch name {
	case "String":
		return str(rtypeString(rt.t))
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return str(n.Obj().Name())
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return str(rtypeString(b))
		}
		return V{}
	case "Kind":
		return V{n: uint64(rkind(rt.t))}
	case "NumIn":
		needSig()
		return intV(sig.Params().Len())
	case "NumOut":
		needSig()
		return intV(sig.Results().Len())
	case "IsVariadic":
		needSig()
		return boolV(sig.Variadic())
	case "In", "Out":
		needSig()
		i := int(int64(a[0].n))
		tp := sig.Params()
		if name == "Out" {
			tp = sig.Results()
		}
		if i < 0 || i >= tp.Len() {
			w.rtPanic(fr, "index out of range (reflect.Type."+name+")")
		}
		return w.rtypeV(tp.At(i).Type())
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return w.rtypeV(u.Elem())
		case *types.Slice:
			return w.rtypeV(u.Elem())
		case *types.Array:
			return w.rtypeV(u.Elem())
		case *types.Map:
			return w.rtypeV(u.Elem())
		}
		w.strPanic(fr, "reflect: Elem of invalid type")
	case "AssignableTo", "ConvertibleTo", "Implements":
		o := a[0].p.(*Iface).v.p.(*RType)
		switch name {
		case "AssignableTo":
			return boolV(types.AssignableTo(rt.t, o.t))
		case "ConvertibleTo":
			return boolV(types.ConvertibleTo(rt.t, o.t))
		}
		return boolV(types.AssignableTo(rt.t, o.t))
	case "Comparable":
		return boolV(types.Comparable(rt.t))
	case "NumMethod":
		return intV(w.eng.prog.MethodSets.MethodSet(rt.t).Len())
	case "Size":
		return intV(8)
	}
	w.abort(abUnsupported, "reflect.Type.%s", name)
	return V{}
}

func rv(v V) *RVal {
	if r, ok := v.p.(*RVal); ok {
		return r
	}
	return &RVal{}
}

func registerReflect() {
	reg("reflect.TypeOf", true, func(w *W, fr *Frame, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return V{}
		}
		return w.rtypeV(i.t)
	})
	intrinsics["internal/reflectlite.TypeOf"] = intrinsics["reflect.TypeOf"]
	reg("reflect.ValueOf", true, func(w *W, fr *Frame, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return V{p: &RVal{}}
		}
		return V{p: &RVal{t: i.t, v: i.v, valid: true}}
	})
	reg("reflect.Zero", true, func(w *W, fr *Frame, a []V) V {
		i, ok := a[0].p.(*Iface)
		if !ok {
			w.strPanic(fr, "reflect: Zero(nil)")
		}
		t := i.v.p.(*RType).t
		return V{p: &RVal{t: t, v: zero(t), valid: true}}
	})
	need := func(w *W, fr *Frame, r *RVal, m string) {
		if !r.valid {
			w.strPanic(fr, "reflect: call of reflect.Value."+m+" on zero Value")
		}
	}
	m := func(name string, f func(w *W, fr *Frame, r *RVal, a []V) V) {
		reg("(reflect.Value)."+name, false, func(w *W, fr *Frame, a []V) V { return f(w, fr, rv(a[0]), a[1:]) })
	}
	m("IsValid", func(w *W, fr *Frame, r *RVal, a []V) V { return boolV(r.valid) })
	m("Kind", func(w *W, fr *Frame, r *RVal, a []V) V {
		if !r.valid {
			return V{}
		}
		return V{n: uint64(rkind(r.t))}
	})
	m("Type", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "Type")
		return w.rtypeV(r.t)
	})
	m("Interface", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "Interface")
		if isIface(r.t) {
			return r.v
		}
		return V{p: &Iface{r.t, r.v}}
	})
	m("Pointer", func(w *W, fr *Frame, r *RVal, a []V) V { return V{n: 0x400000} })
	m("IsNil", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "IsNil")
		switch rkind(r.t) {
		case reflect.Func, reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan:
			return boolV(r.v.p == nil)
		}
		w.strPanic(fr, "reflect: call of reflect.Value.IsNil on "+rkind(r.t).String()+" Value")
		return V{}
	})
	m("Elem", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "Elem")
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			if p, ok := r.v.p.(*V); ok {
				return V{p: &RVal{t: u.Elem(), v: *p, valid: true}}
			}
			return V{p: &RVal{}}
		case *types.Interface:
			if i, ok := r.v.p.(*Iface); ok {
				return V{p: &RVal{t: i.t, v: i.v, valid: true}}
			}
			return V{p: &RVal{}}
		}
		w.strPanic(fr, "reflect: call of Elem")
		return V{}
	})
	m("FieldByName", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "FieldByName")
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.strPanic(fr, "reflect: FieldByName on non-struct")
		}
		name := hostStr(w, a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return V{p: &RVal{t: st.Field(i).Type(), v: r.v.p.(*Struct).f[i], valid: true}}
			}
		}
		return V{p: &RVal{}}
	})
	m("String", func(w *W, fr *Frame, r *RVal, a []V) V {
		if !r.valid {
			return str("<invalid Value>")
		}
		if isString(r.t) {
			return r.v
		}
		return str("<" + rtypeString(r.t) + " Value>")
	})
	m("Int", func(w *W, fr *Frame, r *RVal, a []V) V { need(w, fr, r, "Int"); return r.v })
	m("Len", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "Len")
		return w.builtin(fr, "len", nil, []types.Type{r.t}, []V{r.v})
	})
	m("MethodByName", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "MethodByName")
		ms := w.eng.prog.MethodSets.MethodSet(r.t)
		nm := a[0]
		for k := 0; k < ms.Len(); k++ {
			s := ms.At(k)
			if !s.Obj().Exported() {
				continue
			}
			if w.branch(w.strEqT(nm, str(s.Obj().Name()))) {
				sf := w.eng.prog.MethodValue(s)
				sig := s.Obj().Type().(*types.Signature)
				fs := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
				return V{p: &RVal{t: fs, valid: true, recv: r, meth: sf}}
			}
		}
		return V{p: &RVal{}}
	})
	m("Call", func(w *W, fr *Frame, r *RVal, a []V) V {
		need(w, fr, r, "Call")
		sig, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			w.strPanic(fr, "reflect: call of Call on non-func Value")
		}
		var args []V
		if s, _ := a[0].p.(*Slice); s != nil {
			args = s.a.v[s.off : s.off+s.len]
		}
		np := sig.Params().Len()
		if sig.Variadic() {
			if len(args) < np-1 {
				w.strPanic(fr, "reflect: Call with too few input arguments")
			}
		} else if len(args) < np {
			w.strPanic(fr, "reflect: Call with too few input arguments")
		} else if len(args) > np {
			w.strPanic(fr, "reflect: Call with too many input arguments")
		}
		conv := func(x *RVal, pt types.Type) V {
			if !x.valid {
				w.strPanic(fr, "reflect: Call using zero Value argument")
			}
			if !types.AssignableTo(x.t, pt) {
				w.strPanic(fr, "reflect: Call using "+rtypeString(x.t)+" as type "+rtypeString(pt))
			}
			if isIface(pt) && !isIface(x.t) {
				return V{p: &Iface{x.t, x.v}}
			}
			return x.v
		}
		for _, x := range args {
			if !rv(x).valid {
				w.strPanic(fr, "reflect: Call using zero Value argument")
			}
		}
		var in []V
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 {
				et := pt.(*types.Slice).Elem()
				arr := &Arr{}
				for _, x := range args[i:] {
					arr.v = append(arr.v, conv(rv(x), et))
				}
				if isByteType(et) {
					w.abort(abUnsupported, "variadic bytes call")
				}
				in = append(in, V{p: &Slice{a: arr, len: len(arr.v), cap: len(arr.v)}})
				break
			}
			in = append(in, conv(rv(args[i]), pt))
		}
		var res V
		if r.meth != nil {
			res = w.call(w.eng.fnOf(r.meth), append([]V{r.recv.v}, in...), nil, fr)
		} else {
			if r.v.p == nil {
				w.strPanic(fr, "reflect: call of nil func")
			}
			res = w.callV(r.v, in, fr)
		}
		var out []V
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, V{p: &RVal{t: sig.Results().At(0).Type(), v: res, valid: true}})
		default:
			for i, x := range res.p.(Tuple) {
				out = append(out, V{p: &RVal{t: sig.Results().At(i).Type(), v: x, valid: true}})
			}
		}
		return V{p: &Slice{a: &Arr{v: out}, len: len(out), cap: len(out)}}
	})
}
