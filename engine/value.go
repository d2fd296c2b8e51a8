package main

import (
	"fmt"
	"go/types"
	"math"
)

// V is one runtime value of the interpreted program. Scalars live in n when
// concrete; p then is nil. A symbolic scalar has its term in p.
//
//	bool        n=0/1        | p=*Term (Bool)
//	ints        n canonical  | p=*Term (BVw)
//	float64/32  n=bits(f64)  | p=*Term (F64)
//	string      p=nil ("") | string | *BS
//	pointer     p=nil | *V | *BPtr
//	slice       p=nil | *Slice
//	array       p=*Arr | *ByteArr
//	struct      p=*Struct
//	map         p=nil | *Map
//	func        p=nil | *Closure
//	iface       p=nil | *Iface
//	tuple       p=Tuple
type V struct {
	n uint64
	p any
}

// BS is an immutable byte string with some symbolic bytes; t may be shorter than b.
type BS struct {
	b []byte
	t []*Term
}

// ByteArr is mutable backing store for byte arrays and slices.
type ByteArr struct {
	b []byte
	t []*Term // t[i] != nil overrides b[i]; may be shorter than b
}

type BPtr struct {
	a *ByteArr
	i int
}

type Arr struct{ v []V }

type Slice struct {
	a        *Arr
	ba       *ByteArr
	off      int
	len, cap int
}

type Struct struct{ f []V }

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn   *Fn
	free []V
	// host closure (bound intrinsic)
	host func(w *W, args []V) V
}

type Tuple []V

type MapEnt struct {
	k, v V
	dead bool
}

type Map struct {
	ents []MapEnt
	idx  map[any]int // concrete scalar/string keys
	n    int
}

type MapIter struct {
	ord []int
	m   *Map
	pos int
}

type StrIter struct {
	s   V
	pos int
}

func (a *ByteArr) at(i int) V {
	if i < len(a.t) {
		if t := a.t[i]; t != nil {
			return V{p: t}
		}
	}
	return V{n: uint64(a.b[i])}
}

func (a *ByteArr) set(i int, v V) {
	if t, ok := v.p.(*Term); ok {
		if i >= len(a.t) {
			nt := make([]*Term, i+1, (i+1)*3/2+8)
			copy(nt, a.t)
			a.t = nt
		}
		a.t[i] = t
		return
	}
	a.b[i] = byte(v.n)
	if i < len(a.t) {
		a.t[i] = nil
	}
}

// copyFrom copies n bytes from (sb,st)[so:] to a[do:], handling overlap.
func (a *ByteArr) copyFrom(do int, sb []byte, st []*Term, so, n int) {
	if n <= 0 {
		return
	}
	// symbolic part
	symN := 0
	if so < len(st) {
		symN = len(st) - so
		if symN > n {
			symN = n
		}
	}
	copy(a.b[do:do+n], sb[so:so+n])
	if symN == 0 && do >= len(a.t) {
		return
	}
	var tmp []*Term
	if symN > 0 {
		tmp = append(tmp, st[so:so+symN]...)
	}
	for i := 0; i < n; i++ {
		var t *Term
		if i < symN {
			t = tmp[i]
		}
		if t == nil {
			if do+i < len(a.t) {
				a.t[do+i] = nil
			}
			continue
		}
		a.set(do+i, V{p: t})
	}
}

func mkStr(b []byte, t []*Term) V {
	for _, x := range t {
		if x != nil {
			return V{p: &BS{b, t}}
		}
	}
	if len(b) == 0 {
		return V{}
	}
	return V{p: string(b)}
}

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *BS:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strAt(v V, i int) V {
	switch s := v.p.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *BS:
		if i < len(s.t) && s.t[i] != nil {
			return V{p: s.t[i]}
		}
		return V{n: uint64(s.b[i])}
	}
	panic("strAt")
}

func strParts(v V) ([]byte, []*Term) {
	switch s := v.p.(type) {
	case nil:
		return nil, nil
	case string:
		return []byte(s), nil
	case *BS:
		return s.b, s.t
	}
	panic(fmt.Sprintf("strParts of %T", v.p))
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.p.(type) {
	case string:
		return V{p: s[lo:hi]}
	case *BS:
		var t []*Term
		if lo < len(s.t) {
			e := hi
			if e > len(s.t) {
				e = len(s.t)
			}
			t = s.t[lo:e:e]
		}
		return mkStr(s.b[lo:hi:hi], t)
	}
	panic("strSlice")
}

func strConcat(a, b V) V {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return V{p: x + y}
		}
	}
	ab, at := strParts(a)
	bb, bt := strParts(b)
	nb := make([]byte, 0, len(ab)+len(bb))
	nb = append(append(nb, ab...), bb...)
	nt := make([]*Term, len(ab)+len(bt))
	copy(nt, at)
	copy(nt[len(ab):], bt)
	return mkStr(nb, nt)
}

func concStr(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func str(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: s}
}

func mkBytesV(b []byte, t []*Term) V {
	a := &ByteArr{b: append([]byte(nil), b...)}
	a.t = append(a.t, t...)
	return V{p: &Slice{ba: a, len: len(b), cap: len(b)}}
}

// sliceBytes returns views of a byte slice's content.
func sliceBytes(v V) ([]byte, []*Term) {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil, nil
	}
	b := s.ba.b[s.off : s.off+s.len]
	var t []*Term
	if s.off < len(s.ba.t) {
		e := s.off + s.len
		if e > len(s.ba.t) {
			e = len(s.ba.t)
		}
		t = s.ba.t[s.off:e]
	}
	return b, t
}

func bytesToStr(v V) V {
	b, t := sliceBytes(v)
	if len(b) == 0 {
		return V{}
	}
	return mkStr(append([]byte(nil), b...), append([]*Term(nil), t...))
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// copyVal copies values with value semantics (structs, arrays).
func copyVal(v V) V {
	switch x := v.p.(type) {
	case *Struct:
		f := make([]V, len(x.f))
		for i := range x.f {
			f[i] = copyVal(x.f[i])
		}
		return V{p: &Struct{f}}
	case *Arr:
		f := make([]V, len(x.v))
		for i := range x.v {
			f[i] = copyVal(x.v[i])
		}
		return V{p: &Arr{f}}
	case *ByteArr:
		return V{p: &ByteArr{b: append([]byte(nil), x.b...), t: append([]*Term(nil), x.t...)}}
	}
	return v
}

// storeTo writes v into the cell, in place for structs and arrays.
func storeTo(c *V, v V) {
	switch x := v.p.(type) {
	case *Struct:
		d, ok := c.p.(*Struct)
		if !ok {
			*c = copyVal(v)
			return
		}
		if d == x {
			return
		}
		for i := range x.f {
			storeTo(&d.f[i], x.f[i])
		}
		return
	case *Arr:
		d, ok := c.p.(*Arr)
		if !ok {
			*c = copyVal(v)
			return
		}
		if d == x {
			return
		}
		for i := range x.v {
			storeTo(&d.v[i], x.v[i])
		}
		return
	case *ByteArr:
		d, ok := c.p.(*ByteArr)
		if !ok {
			*c = copyVal(v)
			return
		}
		if d == x {
			return
		}
		copy(d.b, x.b)
		d.t = append(d.t[:0], x.t...)
		return
	}
	*c = v
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func zero(t types.Type) V {
	if isReflectValue(t) {
		return V{p: &RVal{}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]V, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return V{p: &Struct{f}}
	case *types.Array:
		if isByteType(u.Elem()) {
			return V{p: &ByteArr{b: make([]byte, u.Len())}}
		}
		f := make([]V, u.Len())
		if needsAlloc(u.Elem()) {
			for i := range f {
				f[i] = zero(u.Elem())
			}
		}
		return V{p: &Arr{f}}
	case *types.Tuple:
		f := make(Tuple, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return V{p: f}
	}
	return V{}
}

func needsAlloc(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type intInfo struct {
	w      uint8
	signed bool
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	}
	return intInfo{}, false
}

func isFloat(t types.Type) (bits int, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func canon(v uint64, ii intInfo) uint64 {
	if ii.signed {
		return uint64(sextw(v&maskw(ii.w), ii.w))
	}
	return v & maskw(ii.w)
}

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func intV(i int) V       { return V{n: uint64(i)} }
func fltV(f float64) V   { return V{n: math.Float64bits(f)} }
func (v V) flt() float64 { return math.Float64frombits(v.n) }
func (v V) isSym() bool  { _, ok := v.p.(*Term); return ok }
func (v V) term() *Term  { t, _ := v.p.(*Term); return t }
