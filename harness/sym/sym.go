// Package sym gives harnesses their nondeterministic inputs. The engine
// intercepts every function of this package; the bodies below are the native
// versions, used to replay a path on the compiled code with recorded values.
package sym

import (
	"fmt"
	"math"
	"strconv"
	"time"
	"unsafe"
)

// Val is one recorded input.
type Val struct {
	K string `json:"k"`
	V uint64 `json:"v,string"`
}

// Obs is one observed output.
type Obs struct {
	L string `json:"l"`
	V string `json:"v"`
}

type Stop struct {
	Kind, Msg string
}

var (
	vals   []Val
	pos    int
	params map[string]int
	obs    []Obs
)

// Start prepares a native replay.
func Start(v []Val, p map[string]int) {
	vals, pos, params, obs = v, 0, p, nil
}

// Observed returns the observations so far.
func Observed() []Obs { return obs }

func next() uint64 {
	if pos >= len(vals) {
		panic(Stop{"diverged", "more inputs requested than recorded"})
	}
	v := vals[pos].V
	pos++
	return v
}

func Byte() byte         { return byte(next()) }
func Bool() bool         { return next() != 0 }
func Int64() int64       { return int64(next()) }
func Uint64() uint64     { return next() }
func Float64() float64   { return math.Float64frombits(next()) }
func Int(lo, hi int) int { return int(int64(next())) }
func Choose(n int) int   { return int(next()) }
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// Str is a symbolic string of n bytes.
func Str(n int) string { return string(Bytes(n)) }

func Assume(b bool) {
	if !b {
		panic(Stop{"assume", "assumption does not hold"})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(Stop{"assert", msg})
	}
}

func Fail(msg string) { panic(Stop{"assert", msg}) }

// Reach marks a point that some path must reach (vacuity witness).
func Reach(label string) {}

// Symbolic tells whether the harness runs in the engine.
func Symbolic() bool { return false }

// Param is a bound chosen by the check's configuration.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// MapOrder turns symbolic map iteration order on.
func MapOrder(on bool) {}

// Concrete forks until the string has one value on the path.
func Concrete(s string) string { return s }
func ConcreteInt(i int) int    { return i }
func IsConcrete(s string) bool { return true }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func StrEq(a, b string) bool   { return a == b }
func IfInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func ParseFloatHost(s string) (float64, error) { return strconv.ParseFloat(s, 64) }
func TypeName(i any) string                    { return fmt.Sprintf("%T", i) }
func SamePtr(a, b unsafe.Pointer) bool         { return a == b }

func ObserveStr(l, s string)       { obs = append(obs, Obs{l, fmt.Sprintf("%q", s)}) }
func ObserveInt(l string, n int64) { obs = append(obs, Obs{l, fmt.Sprintf("%d", n)}) }
func ObserveBool(l string, b bool) { obs = append(obs, Obs{l, fmt.Sprintf("%v", b)}) }
func ObserveFloat(l string, f float64) {
	if f != f {
		obs = append(obs, Obs{l, "NaN"})
		return
	}
	obs = append(obs, Obs{l, fmt.Sprintf("%x", math.Float64bits(f))})
}

// Panics runs f and reports whether it panicked, and how.
func Panics(f func()) (p bool, msg string) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(Stop); ok {
				panic(s)
			}
			p = true
			msg = fmt.Sprint(e)
		}
	}()
	f()
	return false, ""
}

// Wait blocks until f holds (models only).
func Wait(f func() bool) {
	for !f() {
		time.Sleep(time.Millisecond)
	}
}

// WaitUntil is Wait until a time, in seconds since year 1 (models only).
func WaitUntil(f func() bool, t int64) bool { return f() }

// Settle waits until every other goroutine is blocked; the native version
// just waits for long enough.
func Settle() { time.Sleep(SettleTime) }

var SettleTime = 25 * time.Millisecond

// Pick is a choice of the environment (network, scheduler) among n, which a
// native replay leaves to the real one.
func Pick(n int) int { return 0 }
