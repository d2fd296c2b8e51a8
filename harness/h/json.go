package h

import (
	"bytes"
	"encoding/json"
	"strings"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C21Import", C21Import)
	reg("C21Text", C21Text)
	reg("C21Number", C21Number)
	reg("C21Invalid", C21Invalid)
	reg("C21Export", C21Export)
	reg("C21Strings", C21Strings)
}

// node as FromJSON is expected to give it
type jn struct {
	v any
	k []*jn
}

type jgen struct {
	left int // values that may still be made
	lean bool
}

func jstr(s string) string { return "\"" + s + "\"" }

func (j *jgen) ws() string {
	if j.lean {
		return ""
	}
	return []string{"", " ", "\n\t"}[sym.Choose(3)]
}

// value makes a JSON text, and the nodes of its value.
func (j *jgen) value(depth int) (string, []*jn) {
	j.left--
	k := 5
	if depth > 0 && j.left > 0 {
		k = 7
	}
	switch sym.Choose(k) {
	case 0:
		s := str(0, 1)
		sym.Assume(jplain(s))
		return jstr(s), []*jn{{v: s}}
	case 1:
		d := sym.Byte()
		sym.Assume(rng(d, '1', '9'))
		if sym.Choose(2) == 0 {
			return "-" + string([]byte{d}), []*jn{{v: -int64(d - '0')}}
		}
		return string([]byte{d}) + "0", []*jn{{v: int64(d-'0') * 10}}
	case 2:
		if sym.Choose(2) == 0 {
			return "1.5", []*jn{{v: 1.5}}
		}
		return "-2e3", []*jn{{v: -2000.0}}
	case 3:
		if sym.Choose(2) == 0 {
			return "true", []*jn{{v: true}}
		}
		return "false", []*jn{{v: false}}
	case 4:
		return "null", nil // nothing
	case 5:
		t := "[" + j.ws()
		var r []*jn
		n := sym.Choose(min(j.left, 3) + 1)
		for i := 0; i < n; i++ {
			if i > 0 {
				t += j.ws() + "," + j.ws()
			}
			x, v := j.value(depth - 1)
			t += x
			r = append(r, &jn{v: "_", k: v})
		}
		return t + j.ws() + "]", r
	}
	t := "{" + j.ws()
	m := &jn{v: "_"}
	n := sym.Choose(min(j.left, 3) + 1)
	for i := 0; i < n; i++ {
		if i > 0 {
			t += "," + j.ws()
		}
		s := str(0, 1)
		sym.Assume(jplain(s))
		x, v := j.value(depth - 1)
		t += jstr(s) + j.ws() + ":" + j.ws() + x
		// in the order of the names, the last of a name counts
		at := 0
		for at < len(m.k) && m.k[at].v.(string) < s {
			at++
		}
		nd := &jn{v: s, k: v}
		if at < len(m.k) && m.k[at].v.(string) == s {
			m.k[at] = nd
			continue
		}
		m.k = append(m.k, nil)
		copy(m.k[at+1:], m.k[at:])
		m.k[at] = nd
	}
	return t + j.ws() + "}", []*jn{m}
}

// jplain: bytes that stand for themselves in a JSON string.
func jplain(s string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = sym.And(r, rng(s[i], ' ', 126))
		r = sym.And(r, s[i] != '"')
		r = sym.And(r, s[i] != '\\')
	}
	return r
}

func sameJ(g *ogdl.Graph, k []*jn, what string) {
	if len(g.Out) != len(k) {
		sym.Fail(what + ": number of nodes")
	}
	for i, n := range k {
		if g.Out[i] == nil {
			sym.Fail(what + ": nil node")
		}
		sym.Assert(eqAny(g.Out[i].This, n.v), what+": value")
		sameJ(g.Out[i], n.k, what)
	}
}

func importJ(t string, k []*jn) {
	sym.ObserveStr("json", t)
	b := []byte(t)
	g, err := ogdl.FromJSON(b)
	sym.Assert(err == nil, "error on valid JSON")
	sym.Assert(string(b) == t, "text changed")
	s := strings.TrimLeft(t, " \n\t")
	if s[0] == '[' {
		if g == nil {
			sym.Fail("no graph")
		}
		sameJ(g, k, "list")
		sym.Reach("list")
		return
	}
	if k == nil {
		sym.Assert(g == nil, "null")
		return
	}
	if g == nil {
		sym.Fail("no graph")
	}
	sym.Assert(eqAny(g.This, k[0].v), "value")
	sameJ(g, k[0].k, "members")
	if s[0] == '{' {
		sym.Reach("object")
	} else {
		sym.Reach("scalar")
	}
}

// C21Import: JSON values of any structure.
func C21Import() {
	j := &jgen{left: sym.Param("n", 4), lean: true}
	t, k := j.value(sym.Param("depth", 3))
	importJ(t, k)
}

// C21Text: white space.
func C21Text() {
	j := &jgen{left: sym.Param("n", 2)}
	a := j.ws()
	t, k := j.value(2)
	importJ(a+t+j.ws(), k)
}

// C21Number: numbers and strings.
func C21Number() {
	digs := func(lo, hi int) string {
		s := str(lo, hi)
		for i := 0; i < len(s); i++ {
			sym.Assume(rng(s[i], '0', '9'))
		}
		return s
	}
	switch sym.Choose(4) {
	case 0:
		s := digs(1, sym.Param("digits", 4))
		if len(s) > 1 {
			sym.Assume(s[0] != '0')
		}
		v := int64(0)
		for i := 0; i < len(s); i++ {
			v = v*10 + int64(s[i]-'0')
		}
		if sym.Choose(2) == 1 {
			s, v = "-"+s, -v
		}
		importJ(s, []*jn{{v: v}})
	case 1:
		d := sym.Byte()
		sym.Assume(rng(d, '0', '9'))
		// the edges of the range
		if sym.Choose(2) == 0 {
			s := "922337203685477580" + string([]byte{d})
			if d <= '7' {
				importJ(s, []*jn{{v: int64(9223372036854775800) + int64(d-'0')}})
			} else {
				importJ(s, []*jn{{v: 9223372036854775808.0}})
			}
			return
		}
		s := "-922337203685477580" + string([]byte{d})
		if d <= '8' {
			importJ(s, []*jn{{v: int64(-9223372036854775800) - int64(d-'0')}})
		} else {
			importJ(s, []*jn{{v: -9223372036854775808.0}})
		}
	case 2:
		e := []struct {
			s string
			v float64
		}{{"0.1", 0.1}, {"1e2", 100}, {"1E-2", 0.01}, {"-0.0", 0}, {"3.0", 3}, {"12345678901234567890", 12345678901234567890}, {"1.7976931348623157e308", 1.7976931348623157e308}, {"5e-324", 5e-324}}[sym.Choose(8)]
		importJ(e.s, []*jn{{v: e.v}})
	case 3:
		e := []struct{ s, v string }{{"\\n", "\n"}, {"\\\"", "\""}, {"\\\\", "\\"}, {"\\/", "/"}, {"\\u0041", "A"}, {"\\u00e9", "é"}, {"\\ud83d\\ude00", "😀"}, {"é", "é"}}[sym.Choose(8)]
		a := str(0, 1)
		sym.Assume(jplain(a))
		importJ(jstr(e.s+a), []*jn{{v: e.v + a}})
	}
}

// C21Invalid: any bytes; encoding/json tells what is valid.
func C21Invalid() {
	pre := ""
	if sym.Param("prefix", 0) == 1 {
		pre = []string{"{\"a\":", "[1,", "{\"a\":1", "\"a", "-", "1e", "[[", "{\"", "{"}[sym.Choose(9)]
	}
	t := pre + str(0, sym.Param("n", 2))
	sym.ObserveStr("json", t)
	var v any
	d := json.NewDecoder(strings.NewReader(t))
	d.UseNumber()
	verr := d.Decode(&v)
	g, err := ogdl.FromJSON([]byte(t))
	sym.Assert((err == nil) == (verr == nil), "error exactly on invalid JSON")
	if err != nil {
		sym.Assert(g == nil, "graph from invalid JSON")
		sym.Reach("invalid")
		return
	}
	sym.Reach("valid")
}

// leafJ is a scalar of a graph and what JSON has for it.
func leafJ() (any, any) {
	k := sym.Choose(4)
	if sym.Param("lean", 0) == 1 {
		if k == 0 {
			s := string([]byte{byte(sym.Int('a', 'z'))})
			return s, s
		}
		if k == 1 {
			return int64(-7), int64(-7)
		}
		sym.Assume(false)
	}
	switch k {
	case 0:
		s := str(1, 1)
		sym.Assume(rng(s[0], 0, 127))
		sym.Assume(s[0] != '_')
		return s, s
	case 1:
		n := int64(sym.Int(-99, 99))
		return n, n
	case 2:
		f := []float64{1.5, -1e-7, 1e300, 0.1}[sym.Choose(4)]
		return f, f
	}
	n := sym.Int(0, 9)
	return n, int64(n)
}

type egen struct{ left int }

// fill gives g the nodes of a value: a scalar, a list or a map.
func (e *egen) fill(g *ogdl.Graph, depth int) any {
	e.left--
	k := 1
	if depth > 0 && e.left > 0 {
		k = 3
	}
	switch sym.Choose(k) {
	case 0:
		v, j := leafJ()
		g.Add(v)
		return j
	case 1:
		return e.list(g.Add("_"), depth-1)
	}
	return e.members(g, depth-1)
}

func (e *egen) list(l *ogdl.Graph, depth int) any {
	var r []any
	n := 1 + sym.Choose(min(max(e.left, 1), 3))
	for i := 0; i < n; i++ {
		if depth > 0 && e.left > 1 && sym.Choose(2) == 1 {
			e.left--
			r = append(r, e.list(l.Add("_"), depth-1))
			continue
		}
		e.left--
		v, j := leafJ()
		l.Add(v)
		r = append(r, j)
	}
	return r
}

func (e *egen) members(g *ogdl.Graph, depth int) any {
	m := map[string]any{}
	n := 1 + sym.Choose(min(max(e.left, 1), 3))
	for i := 0; i < n; i++ {
		// different names
		s := string([]byte{"abc"[i]})
		if i == 0 {
			c := sym.Byte()
			sym.Assume(rng(c, 0, 127))
			if sym.Param("lean", 0) == 1 {
				sym.Assume(rng(c, 'f', 'z'))
			}
			sym.Assume(sym.And(c != 'b', c != 'c'))
			sym.Assume(c != '_')
			s = string([]byte{c})
		}
		m[s] = e.fill(g.Add(s), depth)
	}
	return m
}

func sameV(a, b any, what string) {
	switch x := b.(type) {
	case map[string]any:
		y, ok := a.(map[string]any)
		if !ok || len(x) != len(y) {
			sym.Fail(what + ": members")
		}
		for k, v := range x {
			w, ok := y[k]
			sym.Assert(ok, what+": member missing")
			sameV(w, v, what)
		}
	case []any:
		y, ok := a.([]any)
		if !ok || len(x) != len(y) {
			sym.Fail(what + ": elements")
		}
		for i := range x {
			sameV(y[i], x[i], what)
		}
	default:
		switch y := a.(type) {
		case json.Number:
			switch x := b.(type) {
			case int64:
				n, err := y.Int64()
				sym.Assert(err == nil && n == x, what+": integer")
			case float64:
				f, err := y.Float64()
				sym.Assert(err == nil && f == x, what+": number")
			default:
				sym.Fail(what + ": kind of value")
			}
		default:
			sym.Assert(a == b, what+": value")
		}
	}
}

// C21Export: graphs that have the form of a JSON value.
func C21Export() {
	e := &egen{left: sym.Param("n", 3)}
	g := ogdl.New([]any{"_", "x", nil}[sym.Choose(3)])
	want := e.fill(g, sym.Param("depth", 2))
	sn := snapshot(g)
	b := g.JSON()
	sn.check("export")
	sym.ObserveStr("json", string(b))
	sym.Assert(string(g.JSON()) == string(b), "export is not deterministic")
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err := d.Decode(&v)
	sym.Assert(err == nil && json.Valid(b), "export is not JSON")
	sameV(v, want, "export")
	sym.Reach("export")
}

// C21Strings: strings and numbers in graphs of any shape.
func C21Strings() {
	g := ogdl.New("_")
	s := str(1, sym.Param("l", 2))
	for i := 0; i < len(s); i++ {
		sym.Assume(rng(s[i], 0, 127))
	}
	sym.Assume(s != "_")
	switch sym.Choose(3) {
	case 0:
		g.Add(s)
	case 1:
		g.Add([]byte(s))
	case 2:
		g.Add(s).Add("v")
	}
	b := g.JSON()
	var v any
	err := json.Unmarshal(b, &v)
	sym.Assert(err == nil, "export is not JSON")
	if m, ok := v.(map[string]any); ok {
		sym.Assert(m[s] == any("v"), "name")
		sym.Reach("name")
		return
	}
	sym.Assert(v == any(s), "text")
	sym.Reach("text")
}
