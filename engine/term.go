package main

// Hash-consed SMT terms over booleans, bit-vectors (1..64 bits) and float64.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpExtract // k = lo; width w
	OpZext
	OpSext
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFEq
	OpFLt
	OpFLe
	OpFFromS // signed bv64 -> f64
	OpFFromU
	OpFToS  // f64 -> signed bv64 (rtz)
	OpFBits // bv64 -> f64 reinterpretation
	OpFIsNaN
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpSdiv: "bvsdiv", OpUrem: "bvurem", OpSrem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFNeg: "fp.neg", OpFIsNaN: "fp.isNaN",
}

const (
	WBool = 0
	WF64  = 100
)

// Term is an immutable hash-consed node.
type Term struct {
	op   Op
	w    uint8
	k    uint64
	a    [3]*Term
	id   int32
	vars []int32 // sorted ids of variables
	sent bool    // defined in the solver process
	hard bool    // contains operations that are costly for the solver

	gen    uint32
	ev     uint64
	lo, hi uint64 // unsigned bounds (bit vectors)
}

type tkey struct {
	op Op
	w  uint8
	k  uint64
	a  [3]int32
}

type VarInfo struct {
	name string
	w    uint8
	t    *Term
}

// TermDB is one worker's term universe.
type TermDB struct {
	m      map[tkey]*Term
	n      int32
	vars   []VarInfo
	byName map[string]*Term
	gen    uint32
	tTrue  *Term
	tFalse *Term
}

func NewTermDB() *TermDB {
	db := &TermDB{m: map[tkey]*Term{}, byName: map[string]*Term{}, gen: 1}
	db.tTrue = db.Const(WBool, 1)
	db.tFalse = db.Const(WBool, 0)
	return db
}

func maskw(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sextw(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (db *TermDB) mk(op Op, w uint8, k uint64, a ...*Term) *Term {
	var key tkey
	key.op, key.w, key.k = op, w, k
	key.a = [3]int32{-1, -1, -1}
	for i, x := range a {
		key.a[i] = x.id
	}
	if t, ok := db.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, id: db.n}
	copy(t.a[:], a)
	db.n++
	switch len(a) {
	case 0:
	case 1:
		t.vars = a[0].vars
	default:
		t.vars = a[0].vars
		for _, x := range a[1:] {
			t.vars = unionVars(t.vars, x.vars)
		}
	}
	switch op {
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFFromS, OpFFromU, OpFToS:
		t.hard = true
	case OpMul, OpUdiv, OpSdiv, OpUrem, OpSrem:
		t.hard = w >= 32
	}
	for _, x := range a {
		t.hard = t.hard || x.hard
	}
	t.bounds()
	db.m[key] = t
	return t
}

// bounds computes an unsigned interval that contains every value of the term.
func (t *Term) bounds() {
	if t.w == WBool || t.w > 64 {
		t.hi = ^uint64(0)
		return
	}
	m := maskw(t.w)
	t.lo, t.hi = 0, m
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.k, t.k
	case OpZext:
		t.lo, t.hi = a.lo, a.hi
	case OpSext:
		if a.hi < 1<<(a.w-1) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpExtract:
		if t.k == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpIte:
		x, y := t.a[1], t.a[2]
		t.lo, t.hi = min(x.lo, y.lo), max(x.hi, y.hi)
	case OpAdd:
		if a.hi <= m-b.hi {
			t.lo, t.hi = a.lo+b.lo, a.hi+b.hi
		} else if b.op == OpConst && a.lo >= -b.k&m {
			// subtraction of a constant without wrap
			t.lo, t.hi = (a.lo+b.k)&m, (a.hi+b.k)&m
		}
	case OpSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OpBAnd:
		t.hi = min(a.hi, b.hi)
	case OpBOr:
		t.lo = max(a.lo, b.lo)
		t.hi = (uint64(1)<<bits.Len64(a.hi|b.hi) - 1) & m
	case OpBXor:
		t.hi = (uint64(1)<<bits.Len64(a.hi|b.hi) - 1) & m
	case OpUrem:
		if b.op == OpConst && b.k > 0 {
			t.hi = min(a.hi, b.k-1)
		}
	case OpUdiv:
		if b.op == OpConst && b.k > 0 {
			t.lo, t.hi = a.lo/b.k, a.hi/b.k
		}
	case OpLshr:
		if b.op == OpConst && b.k < 64 {
			t.lo, t.hi = a.lo>>b.k, a.hi>>b.k
		}
	case OpShl:
		if b.op == OpConst && b.k < 64 && a.hi <= m>>b.k {
			t.lo, t.hi = a.lo<<b.k, a.hi<<b.k
		}
	}
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func (db *TermDB) Const(w uint8, v uint64) *Term {
	if w != WF64 {
		v &= maskw(w)
	}
	return db.mk(OpConst, w, v)
}

func (db *TermDB) Bool(b bool) *Term {
	if b {
		return db.tTrue
	}
	return db.tFalse
}

func (db *TermDB) Var(name string, w uint8) *Term {
	if t, ok := db.byName[name]; ok {
		if t.w != w {
			panic("var redeclared with other width: " + name)
		}
		return t
	}
	id := int32(len(db.vars))
	t := db.mk(OpVar, w, uint64(id))
	t.vars = []int32{id}
	db.vars = append(db.vars, VarInfo{name, w, t})
	db.byName[name] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == WBool && t.k == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == WBool && t.k == 0 }

func (db *TermDB) Not(a *Term) *Term {
	if a.op == OpConst {
		return db.Const(WBool, a.k^1)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return db.mk(OpNot, WBool, 0, a)
}

func (db *TermDB) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return db.tFalse
	}
	if a.op == OpAnd && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if b.op == OpAnd && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return db.mk(OpAnd, WBool, 0, a, b)
}

func (db *TermDB) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return db.tTrue
	}
	// (x or (not x and y)) = x or y
	if b.op == OpAnd {
		if b.a[0].op == OpNot && b.a[0].a[0] == a {
			return db.Or(a, b.a[1])
		}
		if b.a[1].op == OpNot && b.a[1].a[0] == a {
			return db.Or(a, b.a[0])
		}
	}
	if a.op == OpAnd {
		if a.a[0].op == OpNot && a.a[0].a[0] == b {
			return db.Or(b, a.a[1])
		}
		if a.a[1].op == OpNot && a.a[1].a[0] == b {
			return db.Or(b, a.a[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return db.mk(OpOr, WBool, 0, a, b)
}

func (db *TermDB) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return db.Ite(c.a[0], b, a)
	}
	if a.w == WBool {
		if a.op == OpConst {
			if a.k == 1 {
				return db.Or(c, b)
			}
			return db.And(db.Not(c), b)
		}
		if b.op == OpConst {
			if b.k == 1 {
				return db.Or(db.Not(c), a)
			}
			return db.And(c, a)
		}
	}
	return db.mk(OpIte, a.w, 0, c, a, b)
}

func (db *TermDB) Eq(a, b *Term) *Term {
	if a == b && a.w != WF64 {
		return db.tTrue
	}
	if a.w == WF64 {
		return db.FEq(a, b)
	}
	if a.op == OpConst && b.op == OpConst {
		return db.Bool(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w != WBool && (a.hi < b.lo || b.hi < a.lo) {
		return db.tFalse
	}
	if a.w == WBool {
		if b.op == OpConst {
			if b.k == 1 {
				return a
			}
			return db.Not(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpZext:
			in := a.a[0]
			if b.k > maskw(in.w) {
				return db.tFalse
			}
			return db.Eq(in, db.Const(in.w, b.k))
		case OpSext:
			in := a.a[0]
			v := db.Const(in.w, b.k)
			if uint64(sextw(v.k, in.w))&maskw(a.w) != b.k {
				return db.tFalse
			}
			return db.Eq(in, v)
		case OpIte:
			if a.a[1].op == OpConst || a.a[2].op == OpConst {
				return db.Ite(a.a[0], db.Eq(a.a[1], b), db.Eq(a.a[2], b))
			}
		case OpAdd:
			if a.a[1].op == OpConst {
				return db.Eq(a.a[0], db.Const(a.w, b.k-a.a[1].k))
			}
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return db.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return db.mk(OpEq, WBool, 0, a, b)
}

func (db *TermDB) Ult(a, b *Term) *Term {
	if a == b {
		return db.tFalse
	}
	if a.op == OpConst && b.op == OpConst {
		return db.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return db.tTrue
	}
	if a.lo >= b.hi {
		return db.tFalse
	}
	if b.op == OpConst {
		if b.k == 0 {
			return db.tFalse
		}
		if a.op == OpZext {
			in := a.a[0]
			if b.k > maskw(in.w) {
				return db.tTrue
			}
			return db.Ult(in, db.Const(in.w, b.k))
		}
		if b.k == 1 {
			return db.Eq(a, db.Const(a.w, 0))
		}
		if a.op == OpIte && a.a[1].op == OpConst {
			return db.Ite(a.a[0], db.Ult(a.a[1], b), db.Ult(a.a[2], b))
		}
	}
	if a.op == OpConst {
		if b.op == OpZext {
			in := b.a[0]
			if a.k >= maskw(in.w) {
				return db.tFalse
			}
			return db.Ult(db.Const(in.w, a.k), in)
		}
		if a.k == maskw(a.w) {
			return db.tFalse
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return db.Ult(a.a[0], b.a[0])
	}
	return db.mk(OpUlt, WBool, 0, a, b)
}

func (db *TermDB) Ule(a, b *Term) *Term { return db.Not(db.Ult(b, a)) }

func (db *TermDB) Slt(a, b *Term) *Term {
	if a == b {
		return db.tFalse
	}
	if a.op == OpConst && b.op == OpConst {
		return db.Bool(sextw(a.k, a.w) < sextw(b.k, b.w))
	}
	nonneg := func(t *Term) bool {
		return t.hi < 1<<(t.w-1)
	}
	if nonneg(a) && nonneg(b) {
		return db.Ult(a, b)
	}
	if nonneg(a) && b.lo >= 1<<(b.w-1) {
		return db.tFalse
	}
	if nonneg(b) && a.lo >= 1<<(a.w-1) {
		return db.tTrue
	}
	if b.op == OpConst && a.op == OpIte && (a.a[1].op == OpConst || a.a[2].op == OpConst) {
		return db.Ite(a.a[0], db.Slt(a.a[1], b), db.Slt(a.a[2], b))
	}
	if a.op == OpConst && b.op == OpIte && (b.a[1].op == OpConst || b.a[2].op == OpConst) {
		return db.Ite(b.a[0], db.Slt(a, b.a[1]), db.Slt(a, b.a[2]))
	}
	return db.mk(OpSlt, WBool, 0, a, b)
}

func (db *TermDB) Sle(a, b *Term) *Term { return db.Not(db.Slt(b, a)) }

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := maskw(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSdiv:
		sx, sy := sextw(x, w), sextw(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSrem:
		sx, sy := sextw(x, w), sextw(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		s := sextw(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation.
func (db *TermDB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return db.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst {
			a, b = b, a
		} else if b.op != OpConst && a.id > b.id {
			a, b = b, a
		}
	}
	if b.op == OpConst {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
			if b.k == 0 {
				return a
			}
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == maskw(w) {
				return a
			}
			if a.op == OpZext && b.k&maskw(a.a[0].w) == maskw(a.a[0].w) {
				return a
			}
			if a.op == OpZext && b.k <= maskw(a.a[0].w) {
				return db.Zext(db.Bin(OpBAnd, a.a[0], db.Const(a.a[0].w, b.k)), w)
			}
		case OpUdiv, OpSdiv:
			if b.k == 1 {
				return a
			}
		}
		if op == OpSub {
			return db.Bin(OpAdd, a, db.Const(w, -b.k))
		}
		if op == OpAdd && a.op == OpAdd && a.a[1].op == OpConst {
			return db.Bin(OpAdd, a.a[0], db.Const(w, a.a[1].k+b.k))
		}
		if op == OpLshr && a.op == OpZext && b.k >= uint64(a.a[0].w) {
			return db.Const(w, 0)
		}
		if op == OpBOr && b.k == maskw(w) {
			return b
		}
		if (op == OpAdd || op == OpBAnd || op == OpMul || op == OpBOr) && a.op == OpIte && a.a[1].op == OpConst && a.a[2].op == OpConst {
			return db.Ite(a.a[0], db.Bin(op, a.a[1], b), db.Bin(op, a.a[2], b))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return db.Const(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return db.mk(op, w, 0, a, b)
}

func (db *TermDB) BNot(a *Term) *Term {
	if a.op == OpConst {
		return db.Const(a.w, ^a.k)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return db.mk(OpBNot, a.w, 0, a)
}

func (db *TermDB) Neg(a *Term) *Term {
	if a.op == OpConst {
		return db.Const(a.w, -a.k)
	}
	return db.mk(OpNeg, a.w, 0, a)
}

func (db *TermDB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return db.Const(w, a.k)
	}
	if a.op == OpZext {
		return db.Zext(a.a[0], w)
	}
	if a.op == OpIte && a.a[1].op == OpConst && a.a[2].op == OpConst {
		return db.Ite(a.a[0], db.Zext(a.a[1], w), db.Zext(a.a[2], w))
	}
	return db.mk(OpZext, w, 0, a)
}

func (db *TermDB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return db.Const(w, uint64(sextw(a.k, a.w)))
	}
	if a.op == OpZext {
		return db.Zext(a.a[0], w)
	}
	if a.op == OpIte && a.a[1].op == OpConst && a.a[2].op == OpConst {
		return db.Ite(a.a[0], db.Sext(a.a[1], w), db.Sext(a.a[2], w))
	}
	return db.mk(OpSext, w, 0, a)
}

func (db *TermDB) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return db.Const(w, a.k)
	}
	switch a.op {
	case OpZext, OpSext:
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return db.Trunc(in, w)
		}
		if a.op == OpZext {
			return db.Zext(in, w)
		}
		return db.Sext(in, w)
	case OpBAnd, OpBOr, OpBXor, OpAdd, OpSub, OpMul:
		return db.Bin(a.op, db.Trunc(a.a[0], w), db.Trunc(a.a[1], w))
	case OpIte:
		return db.Ite(a.a[0], db.Trunc(a.a[1], w), db.Trunc(a.a[2], w))
	case OpExtract:
		return db.mk(OpExtract, w, a.k, a.a[0])
	}
	return db.mk(OpExtract, w, 0, a)
}

// ---- float64

func f2b(f float64) uint64 { return math.Float64bits(f) }
func b2f(b uint64) float64 { return math.Float64frombits(b) }

func (db *TermDB) FConst(f float64) *Term { return db.Const(WF64, f2b(f)) }

func (db *TermDB) FBin(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return db.FConst(evalF(op, b2f(a.k), b2f(b.k)))
	}
	return db.mk(op, WF64, 0, a, b)
}

func evalF(op Op, x, y float64) float64 {
	switch op {
	case OpFAdd:
		return x + y
	case OpFSub:
		return x - y
	case OpFMul:
		return x * y
	case OpFDiv:
		return x / y
	}
	panic("evalF")
}

func (db *TermDB) FNeg(a *Term) *Term {
	if a.op == OpConst {
		return db.FConst(-b2f(a.k))
	}
	return db.mk(OpFNeg, WF64, 0, a)
}
func (db *TermDB) FEq(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return db.Bool(b2f(a.k) == b2f(b.k))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return db.mk(OpFEq, WBool, 0, a, b)
}
func (db *TermDB) FLt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return db.Bool(b2f(a.k) < b2f(b.k))
	}
	return db.mk(OpFLt, WBool, 0, a, b)
}
func (db *TermDB) FLe(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return db.Bool(b2f(a.k) <= b2f(b.k))
	}
	return db.mk(OpFLe, WBool, 0, a, b)
}
func (db *TermDB) FFromS(a *Term) *Term {
	if a.op == OpConst {
		return db.FConst(float64(sextw(a.k, a.w)))
	}
	if a.w < 64 {
		a = db.Sext(a, 64)
	}
	return db.mk(OpFFromS, WF64, 0, a)
}
func (db *TermDB) FFromU(a *Term) *Term {
	if a.op == OpConst {
		return db.FConst(float64(a.k))
	}
	if a.w < 64 {
		return db.FFromS(db.Zext(a, 64))
	}
	return db.mk(OpFFromU, WF64, 0, a)
}
func f2s(f float64) uint64 {
	// amd64 cvttsd2si semantics
	if math.IsNaN(f) || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return 1 << 63
	}
	return uint64(int64(f))
}
func (db *TermDB) FToS(a *Term) *Term {
	if a.op == OpConst {
		return db.Const(64, f2s(b2f(a.k)))
	}
	return db.mk(OpFToS, 64, 0, a)
}
func (db *TermDB) FFromBits(a *Term) *Term {
	if a.op == OpConst {
		return db.Const(WF64, a.k)
	}
	return db.mk(OpFBits, WF64, 0, a)
}

// ---- evaluation under a model

type Model []uint64 // by var id; missing = 0

func (db *TermDB) Eval(t *Term, m Model) uint64 {
	db.gen++
	return db.ev(t, m)
}

func (db *TermDB) ev(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		if int(t.k) < len(m) {
			return m[t.k]
		}
		return 0
	}
	if t.gen == db.gen {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = db.ev(t.a[0], m) ^ 1
	case OpAnd:
		r = db.ev(t.a[0], m)
		if r != 0 {
			r = db.ev(t.a[1], m)
		}
	case OpOr:
		r = db.ev(t.a[0], m)
		if r == 0 {
			r = db.ev(t.a[1], m)
		}
	case OpIte:
		if db.ev(t.a[0], m) != 0 {
			r = db.ev(t.a[1], m)
		} else {
			r = db.ev(t.a[2], m)
		}
	case OpEq:
		r = b2u(db.ev(t.a[0], m) == db.ev(t.a[1], m))
	case OpUlt:
		r = b2u(db.ev(t.a[0], m) < db.ev(t.a[1], m))
	case OpUle:
		r = b2u(db.ev(t.a[0], m) <= db.ev(t.a[1], m))
	case OpSlt:
		r = b2u(sextw(db.ev(t.a[0], m), t.a[0].w) < sextw(db.ev(t.a[1], m), t.a[1].w))
	case OpSle:
		r = b2u(sextw(db.ev(t.a[0], m), t.a[0].w) <= sextw(db.ev(t.a[1], m), t.a[1].w))
	case OpBNot:
		r = ^db.ev(t.a[0], m) & maskw(t.w)
	case OpNeg:
		r = -db.ev(t.a[0], m) & maskw(t.w)
	case OpExtract:
		r = (db.ev(t.a[0], m) >> t.k) & maskw(t.w)
	case OpZext:
		r = db.ev(t.a[0], m)
	case OpSext:
		r = uint64(sextw(db.ev(t.a[0], m), t.a[0].w)) & maskw(t.w)
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		r = f2b(evalF(t.op, b2f(db.ev(t.a[0], m)), b2f(db.ev(t.a[1], m))))
	case OpFNeg:
		r = f2b(-b2f(db.ev(t.a[0], m)))
	case OpFEq:
		r = b2u(b2f(db.ev(t.a[0], m)) == b2f(db.ev(t.a[1], m)))
	case OpFLt:
		r = b2u(b2f(db.ev(t.a[0], m)) < b2f(db.ev(t.a[1], m)))
	case OpFLe:
		r = b2u(b2f(db.ev(t.a[0], m)) <= b2f(db.ev(t.a[1], m)))
	case OpFFromS:
		r = f2b(float64(int64(db.ev(t.a[0], m))))
	case OpFFromU:
		r = f2b(float64(db.ev(t.a[0], m)))
	case OpFToS:
		r = f2s(b2f(db.ev(t.a[0], m)))
	case OpFBits:
		r = db.ev(t.a[0], m)
	case OpFIsNaN:
		r = b2u(math.IsNaN(b2f(db.ev(t.a[0], m))))
	default:
		r = evalBin(t.op, t.w, db.ev(t.a[0], m), db.ev(t.a[1], m))
	}
	t.gen = db.gen
	t.ev = r
	return r
}

// ---- printing

func sortName(w uint8) string {
	switch w {
	case WBool:
		return "Bool"
	case WF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		switch t.w {
		case WBool:
			if t.k == 1 {
				return "true"
			}
			return "false"
		case WF64:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.k)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OpVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

// body is the SMT-LIB text of the node with its arguments as references.
func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, t.a[0].ref())
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OpFAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", t.a[0].ref(), t.a[1].ref())
	case OpFSub:
		return fmt.Sprintf("(fp.sub RNE %s %s)", t.a[0].ref(), t.a[1].ref())
	case OpFMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", t.a[0].ref(), t.a[1].ref())
	case OpFDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", t.a[0].ref(), t.a[1].ref())
	case OpFFromS:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", t.a[0].ref())
	case OpFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", t.a[0].ref())
	case OpFBits:
		return fmt.Sprintf("((_ to_fp 11 53) %s)", t.a[0].ref())
	case OpFToS:
		x := t.a[0].ref()
		inr := fmt.Sprintf("(and (fp.leq ((_ to_fp 11 53) #xc3e0000000000000) %s) (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000)))", x, x)
		return fmt.Sprintf("(ite %s ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", inr, x)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range t.a {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	switch t.op {
	case OpConst, OpVar:
		return t.ref()
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opNames[t.op])
	for _, x := range t.a {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.String())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

var _ = bits.Len
