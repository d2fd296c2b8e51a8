package h

import (
	"math"
	"strconv"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C28Find", C28Find)
	reg("C11Set", C11Set)
	reg("C11Graph", C11Graph)
	reg("C11Index", C11Index)
	reg("C12Get", C12Get)
	reg("C12Typed", C12Typed)
	reg("C12Dyn", C12Dyn)
	reg("C12Many", C12Many)
	reg("C12Special", C12Special)
	reg("C17Native", C17Native)
	reg("C17Text", C17Text)
	reg("C18Chain", C18Chain)
	reg("C18Edit", C18Edit)
	reg("C23Read", C23Read)
}

// token is a name that can stand in a path without quotes.
func token(n int) string {
	s := sym.Str(n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.Or(c == '_', sym.Or(rng(c, '0', '9'), sym.Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')))))
	}
	return s
}

// pathName is a path element that names a node: its text and its meaning.
func pathName() (string, string) {
	if sym.Param("quoted", 1) == 0 || sym.Choose(2) == 0 {
		s := token(1)
		return s, s
	}
	q := "\"'`"[sym.Choose(3)]
	s := str(1, 2)
	plain(s, q)
	sym.Assume(s[0] != '!') // not one of the parser's own markers
	return string([]byte{q}) + s + string([]byte{q}), s
}

type step struct {
	kind int // 0 name, 1 index, 2 selector {n}, 3 selector {}
	name string
	i    int
}

// mkPath is the text and the meaning of a path of up to n elements.
func mkPath(n int, mid bool) (string, []step) {
	s := ""
	var st []step
	k := 1 + sym.Choose(n)
	for i := 0; i < k; i++ {
		kinds := 1
		if mid || i == k-1 {
			kinds = 2
			if i > 0 && st[i-1].kind == 0 {
				kinds = 4
			}
		}
		kind := sym.Choose(kinds)
		if kind == 0 {
			t, nm := pathName()
			if i > 0 {
				s += "."
			}
			s += t
			st = append(st, step{name: nm})
			continue
		}
		if i > 0 && sym.Choose(2) == 1 {
			s += "."
		}
		switch kind {
		case 1, 2:
			d := sym.Choose(4)
			num := "0123"[d : d+1]
			if sym.Choose(3) == 1 {
				num = " " + num + " "
			}
			if kind == 1 {
				s += "[" + num + "]"
			} else {
				s += "{" + num + "}"
			}
			st = append(st, step{kind: kind, i: d})
		case 3:
			s += "{}"
			st = append(st, step{kind: 3})
		}
	}
	return s, st
}

// resolve is what a path designates: a node, or a set of subnodes, or nothing.
// With deep, an index inside a path stands for the subnode itself; if there is none, the
// result is nil and true.
func resolve(m *snap, st []step, deep bool) (r *snap, real bool) {
	cur := m
	var prev *snap
	real = true
	name := ""
	for i, s := range st {
		switch s.kind {
		case 0:
			prev, name = cur, s.name
			cur = cur.find(name)
			real = true
			if cur == nil {
				return nil, false
			}
		case 1:
			if deep && i < len(st)-1 {
				if s.i >= len(cur.out) {
					return nil, true
				}
				cur = cur.out[s.i]
				continue
			}
			n := &snap{}
			if s.i < len(cur.out) {
				n.out = []*snap{cur.out[s.i]}
			}
			cur, real = n, false
		case 2, 3:
			n := &snap{}
			k := 0
			for _, o := range prev.out {
				if ctext(o.content()) == name {
					if s.kind == 3 || k == s.i {
						n.out = append(n.out, o.out...)
					}
					k++
				}
			}
			cur, real = n, false
		}
	}
	return cur, real
}

// C12Get: Get and Eval designate the nodes that the path's grammar says.
func C12Get() {
	g := mkGraph(sym.Param("n", 3), func() any { return content(sym.Param("kinds", 1)) })
	m := snapshot(g)
	p, st := mkPath(sym.Param("steps", 2), sym.Param("mid", 0) == 1)
	sym.ObserveStr("path", p)
	r, found := designated(g, m, p, st)
	if !found {
		return
	}
	// p.q is q within p
	if len(st) == 2 && st[1].kind < 2 {
		q := p[len(p)-1:]
		a, b := mkSplit(p)
		sym.Assert(len(q) == 1 && len(a)+len(b) >= len(p)-1, "split")
		y := g.Get(a).Get(b)
		if y == nil || len(y.Out) != len(r.Out) {
			sym.Fail("Get in two steps differs")
		}
		for i := range r.Out {
			sym.Assert(y.Out[i] == r.Out[i], "Get in two steps differs")
		}
	}
	m.check("Get")
	switch st[len(st)-1].kind {
	case 0:
		sym.Reach("name")
	case 1:
		sym.Reach("index")
	case 2:
		sym.Reach("selector")
	case 3:
		sym.Reach("all")
	}
}

// designated checks that Get and Eval give what the path designates.
func designated(g *ogdl.Graph, m *snap, p string, st []step) (*ogdl.Graph, bool) {
	want, real := resolve(m, st, false)
	r := g.Get(p)
	if want == nil {
		sym.Assert(r == nil, "Get: found what does not exist")
		sym.Reach("nothing")
	} else {
		if r == nil {
			sym.Fail("Get: not found")
		}
		if real {
			sym.Assert(r == want.g, "Get: another node")
		}
		if len(r.Out) != len(want.out) {
			sym.Fail("Get: number of subnodes designated")
		}
		for i, o := range want.out {
			sym.Assert(r.Out[i] == o.g, "Get: other subnodes designated")
		}
	}
	found := want != nil
	// when evaluated, an index inside the path is the subnode itself
	want, outside := resolve(m, st, true)
	v, err := g.Eval(ogdl.NewPath(p))
	if want == nil {
		if x, ok := v.(*ogdl.Graph); ok {
			sym.Assert(x == nil || outside && len(x.Out) == 0, "Eval: found what does not exist")
		} else {
			sym.Assert(v == nil, "Eval: found what does not exist")
		}
		m.check("Get")
		return r, found
	}
	sym.Assert(err == nil, "Eval: error")
	if len(want.out) == 1 && len(want.out[0].out) == 0 {
		sym.Assert(eqAny(v, want.out[0].content()), "Eval: value of a single subnode")
	} else {
		x, ok := v.(*ogdl.Graph)
		if !ok || x == nil || len(x.Out) != len(want.out) {
			sym.Fail("Eval: number of subnodes designated")
		}
		for i, o := range want.out {
			sym.Assert(x.Out[i] == o.g, "Eval: other subnodes designated")
		}
	}
	return r, found
}

// C12Many: selectors and indexes among many nodes with names of their own or the same.
func C12Many() {
	n := sym.Param("n", 4)
	g := ogdl.New("_")
	x := token(1)
	top := g
	pre := ""
	var st []step
	if sym.Choose(2) == 1 {
		top = g.Add("top")
		pre, st = "top.", []step{{name: "top"}}
	}
	for i := 0; i < n; i++ {
		nm := x
		if sym.Choose(2) == 1 {
			nm = token(1)
		}
		k := top.Add(nm)
		for j := sym.Choose(3); j > 0; j-- {
			k.Add(string([]byte{'a' + byte(i), 'z' - byte(j)})).Add(int64(i))
		}
	}
	m := snapshot(g)
	p := pre + x
	st = append(st, step{name: x})
	d := sym.Choose(n + 1)
	num := strconv.Itoa(d)
	switch sym.Choose(3) {
	case 0:
		p += "{" + num + "}"
		st = append(st, step{kind: 2, i: d})
	case 1:
		p += "{}"
		st = append(st, step{kind: 3})
	case 2:
		p = pre + "[" + num + "]"
		st[len(st)-1] = step{kind: 1, i: d}
		if len(st) == 1 && sym.Choose(2) == 1 {
			p += "." + x
			st = append(st, step{name: x})
		}
	}
	switch sym.Choose(4) {
	case 1:
		e := string([]byte{'a' + byte(sym.Choose(n)), 'y'})
		p += "." + e
		st = append(st, step{name: e})
	case 2:
		p += "[1]"
		st = append(st, step{kind: 1, i: 1})
	case 3:
		p += "[2]." + x
		st = append(st, step{kind: 1, i: 2}, step{name: x})
	}
	sym.ObserveStr("path", p)
	designated(g, m, p, st)
	m.check("Get")
	sym.Reach("many")
}

// C12Dyn: path elements that are given by expressions.
func C12Dyn() {
	g := mkGraph(sym.Param("n", 2), func() any { return content(1) })
	d := sym.Choose(3)
	if sym.Choose(2) == 1 {
		g.Add("vv").Add(int64(d))
	} else {
		g.Add("vv").Add(d)
	}
	w := sym.Str(1)
	g.Add("ww").Add(w)
	m := snapshot(g)
	nm := token(1)
	p := nm
	st := []step{{name: nm}}
	dot := ""
	if sym.Choose(2) == 1 {
		dot = "."
	}
	switch sym.Choose(8) {
	case 0:
		p += dot + "[vv]"
		st = append(st, step{kind: 1, i: d})
	case 1:
		p += dot + "{vv}"
		st = append(st, step{kind: 2, i: d})
	case 2:
		p += dot + "[vv + 1]"
		st = append(st, step{kind: 1, i: d + 1})
	case 3:
		p += dot + "{vv+1}"
		st = append(st, step{kind: 2, i: d + 1})
	case 4:
		p += ".(ww)"
		st = append(st, step{name: w})
	case 5:
		p = "(ww)." + nm
		st = []step{{name: w}, {name: nm}}
	case 6:
		c := sym.Str(1)
		plain(c, '\'')
		p += ".( '" + c + "' )"
		st = append(st, step{name: c})
	case 7:
		p = "('" + nm + "'){vv}"
		st = append(st, step{kind: 2, i: d})
	}
	sym.ObserveStr("path", p)
	if _, ok := designated(g, m, p, st); ok {
		sym.Reach("found")
	}
	m.check("Get")
}

// C12Special: the elements that stand for something of the node itself.
func C12Special() {
	g := mkGraph(sym.Param("n", 3), func() any { return content(sym.Param("kinds", 1)) })
	m := snapshot(g)
	cur := m
	p := ""
	for k := sym.Choose(3); k > 0; k-- {
		nm := token(1)
		p += nm + "."
		if cur != nil {
			cur = cur.find(nm)
		}
	}
	k := sym.Choose(5)
	p += []string{"_len", "_this", "_thisString", "_string", "_json"}[k]
	sym.ObserveStr("path", p)
	v, err := g.Eval(ogdl.NewPath(p))
	m.check("Eval")
	if cur == nil {
		if x, ok := v.(*ogdl.Graph); ok {
			sym.Assert(x == nil, "special: of nothing")
		} else {
			sym.Assert(v == nil, "special: of nothing")
		}
		sym.Reach("nothing")
		return
	}
	sym.Assert(err == nil, "special: error")
	switch k {
	case 0:
		n, ok := v.(int)
		sym.Assert(ok && n == len(cur.out), "_len")
	case 1:
		sym.Assert(v == any(cur.g), "_this")
	case 2:
		s, ok := v.(string)
		sym.Assert(ok && s == cur.g.ThisString(), "_thisString")
	case 3:
		s, ok := v.(string)
		sym.Assert(ok && s == cur.g.String(), "_string")
	case 4:
		b, ok := v.([]byte)
		sym.Assert(ok && string(b) == string(cur.g.JSON()), "_json")
	}
	sym.Reach("special")
}

// mkSplit cuts a path of two elements in two.
func mkSplit(p string) (string, string) {
	i := 1
	if c := p[0]; c == '"' || c == '\'' || c == '`' {
		for p[i] != c {
			i++
		}
		i++
	} else if c == '[' {
		for p[i] != ']' {
			i++
		}
		i++
	}
	a := p[:i]
	if p[i] == '.' {
		i++
	}
	return a, p[i:]
}

// C12Typed: the typed getters return the first subnode's value, or an error.
func C12Typed() {
	g := mkGraph(sym.Param("n", 3), func() any { return sym.Str(1) })
	m := snapshot(g)
	p, st := mkPath(2, false)
	want, _ := resolve(m, st, false)
	s, err := g.GetString(p)
	b, errb := g.GetBytes(p)
	n, errn := g.GetInt64(p)
	t, errt := g.GetBool(p)
	f, errf := g.GetFloat64(p)
	if want == nil || len(want.out) == 0 {
		sym.Assert(err != nil && errb != nil && errn != nil && errt != nil && errf != nil, "typed getters: no error for what does not exist")
		sym.Assert(s == "" && len(b) == 0 && n == 0 && !t && f == 0, "typed getters: value with an error")
		sym.Reach("error")
		return
	}
	c := want.out[0].this.(string)
	sym.Assert(err == nil && s == c, "GetString")
	sym.Assert(errb == nil && string(b) == c, "GetBytes")
	d := rng(c[0], '0', '9')
	sym.Assert((errn == nil) == d && (errf == nil) == d, "GetInt64, GetFloat64: error")
	if d {
		sym.Assert(n == int64(c[0]-'0') && f == float64(c[0]-'0'), "GetInt64, GetFloat64: value")
		sym.Reach("number")
	}
	sym.Assert(errt != nil && !t, "GetBool")
	m.check("typed getters")
	sym.Reach("text")
}

func leafOf(v any) *snap {
	s := &snap{this: v}
	if b, ok := v.([]byte); ok {
		s.this, s.byt = nil, string(b)
	}
	return s
}

// content of a model node that need not exist yet
func (s *snap) val() any {
	if s.this == nil && s.byt != "" {
		return []byte(s.byt)
	}
	return s.this
}

func (s *snap) findM(name string) *snap {
	for _, o := range s.out {
		if ctext(o.val()) == name {
			return o
		}
	}
	return nil
}

// bind asserts that the graph is as the model says, new nodes of the model
// standing for new nodes of the graph.
func (s *snap) bind(g *ogdl.Graph, what string) {
	if g == nil {
		sym.Fail(what + ": missing node")
	}
	if s.g != nil {
		sym.Assert(s.g == g, what+": node replaced")
	}
	s.g = g
	sym.Assert(eqAny(s.val(), g.This), what+": content")
	if len(s.out) != len(g.Out) {
		sym.Fail(what + ": number of subnodes")
	}
	for i, o := range s.out {
		o.bind(g.Out[i], what)
	}
}

// setM is what Set does, on the model.
func setM(m *snap, st []step, v any) {
	cur := m
	for _, s := range st {
		if s.kind == 1 {
			for len(cur.out) <= s.i {
				cur.out = append(cur.out, leafOf("_"))
			}
			cur.out[s.i] = leafOf(v)
			return
		}
		f := cur.findM(s.name)
		if f == nil {
			f = leafOf(s.name)
			cur.out = append(cur.out, f)
		}
		cur = f
	}
	cur.out = []*snap{leafOf(v)}
}

func setPath(n int) (string, []step) {
	s := ""
	var st []step
	k := 1 + sym.Choose(n)
	for i := 0; i < k; i++ {
		t, nm := pathName()
		if i > 0 {
			s += "."
		}
		s += t
		st = append(st, step{name: nm})
	}
	if sym.Choose(3) == 0 {
		d := sym.Choose(3)
		s += "[" + "012"[d:d+1] + "]"
		st = append(st, step{kind: 1, i: d})
	}
	return s, st
}

// C11Set: sequences of sets against a model; get returns what was set.
func C11Set() {
	g := mkGraph(sym.Param("n", 2), func() any { return sym.Str(1) })
	m := snapshot(g)
	for i := 0; i < sym.Param("sets", 1); i++ {
		p, st := setPath(sym.Param("steps", 2))
		v := content(sym.Param("kinds", 3))
		setM(m, st, v)
		r := g.Set(p, v)
		sym.Assert(r != nil, "Set returned nothing")
		m.bind(g, "Set")
		x := g.Get(p)
		if x == nil || len(x.Out) != 1 {
			sym.Fail("Set, then Get: one value expected")
		}
		sym.Assert(eqAny(x.Out[0].This, v) && len(x.Out[0].Out) == 0, "Set, then Get: another value")
		sym.Assert(x.String() == ctext(v), "Set, then Get: String")
		if st[len(st)-1].kind == 1 {
			sym.Reach("index")
		} else {
			sym.Reach("name")
		}
	}
	observe("g", g)
	// the graph remains usable
	sym.Assert(g.Text() != "" || g.Len() == 0, "Text")
}

// C11Index: set by index, also where the index makes no sense.
func C11Index() {
	g := mkGraph(2, func() any { return sym.Str(1) })
	m := snapshot(g)
	var p string
	bad := true
	k := sym.Choose(10)
	p = []string{"[-1]", "a[-1]", "a[-9223372036854775808]", "a[1-2]", "a[x]", "a['q']", "a[", "a[]", "a[1+1]", "[0]"}[k]
	r := g.Set(p, "v")
	switch k {
	case 8:
		setM(m, []step{{name: "a"}, {kind: 1, i: 2}}, "v")
		bad = false
	case 9:
		setM(m, []step{{kind: 1, i: 0}}, "v")
		bad = false
	default:
		// what precedes the index may have been created
		if k > 0 && m.findM("a") == nil && len(g.Out) > len(m.out) {
			m.out = append(m.out, leafOf("a"))
		}
	}
	m.bind(g, "Set with an index")
	sym.Assert((r == nil) == bad, "Set with an index: result")
	g.Text()
	g.Get("a.b")
	sym.Reach("index")
}

// numbers tells what the numeric getters make of the single value of x.
func numbers(x *ogdl.Graph, n int64, what string) {
	d := sym.Int64()
	sym.Assert(x.Int64() == n && x.Int64(d) == n, what+": Int64")
	i, ok := x.GetAt(0).ThisInt64()
	sym.Assert(ok && i == n, what+": ThisInt64")
	i, err := x.GetInt64("")
	sym.Assert(err == nil && i == n, what+": GetInt64")
	v, ok := x.Number().(int64)
	sym.Assert(ok && v == n, what+": Number")
	v, ok = x.GetAt(0).ThisNumber().(int64)
	sym.Assert(ok && v == n, what+": ThisNumber")
	v, ok = x.Scalar().(int64)
	sym.Assert(ok && v == n, what+": Scalar")
	v, ok = x.GetAt(0).ThisScalar().(int64)
	sym.Assert(ok && v == n, what+": ThisScalar")
}

// C17Native: native contents convert without changing their value.
func C17Native() {
	g := ogdl.New("_")
	k := g.Add("k")
	x := func() *ogdl.Graph { return g.Get("k") }
	kind := sym.Choose(16)
	switch kind {
	case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
		var n int64
		var v any
		switch kind {
		case 0:
			n = sym.Int64()
			v = n
		case 1:
			n = sym.Int64()
			v = int(n)
		case 2:
			n = int64(int32(sym.Int64()))
			v = int32(n)
		case 3:
			n = int64(int16(sym.Int64()))
			v = int16(n)
		case 4:
			n = int64(int8(sym.Byte()))
			v = int8(n)
		case 5:
			n = sym.Int64()
			sym.Assume(n >= 0)
			v = uint64(n)
		case 6:
			n = sym.Int64()
			sym.Assume(n >= 0)
			v = uint(n)
		case 7:
			n = int64(uint32(sym.Int64()))
			v = uint32(n)
		case 8:
			n = int64(uint16(sym.Int64()))
			v = uint16(n)
		case 9:
			n = int64(sym.Byte())
			v = uint8(n)
		}
		k.Add(v)
		numbers(x(), n, "integer")
		i, err := g.GetInt64("k")
		sym.Assert(err == nil && i == n, "integer: GetInt64 with path")
		sym.Assume(n >= -1<<20 && n <= 1<<20)
		f, err := g.GetFloat64("k")
		sym.Assert(err == nil && f == float64(n), "integer: GetFloat64")
		f, ok := x().GetAt(0).ThisFloat64()
		sym.Assert(ok && f == float64(n), "integer: ThisFloat64")
		sym.Assert(x().ThisString() == "k", "ThisString")
		sym.Reach("integer")
	case 10: // short integers, to text
		n := sym.Int64()
		sym.Assume(n > -100 && n < 100)
		s := refItoa(n)
		k.Add(n)
		sym.Assert(x().String() == s && x().String("d") == s, "integer: String")
		sym.Assert(string(x().Bytes()) == s, "integer: Bytes")
		t, err := g.GetString("k")
		sym.Assert(err == nil && t == s, "integer: GetString")
		sym.Assert(x().Float64() == float64(n) && x().Float64(3) == float64(n), "integer: Float64")
		sym.Reach("integer")
	case 11:
		b := sym.Bool()
		k.Add(b)
		d := sym.Bool()
		sym.Assert(x().Bool() == b && x().Bool(d) == b, "boolean: Bool")
		t, err := g.GetBool("k")
		sym.Assert(err == nil && t == b, "boolean: GetBool")
		s := "false"
		if b {
			s = "true"
		}
		sym.Assert(x().String() == s && string(x().Bytes()) == s, "boolean: String")
		v, ok := x().Scalar().(bool)
		sym.Assert(ok && v == b, "boolean: Scalar")
		sym.Assert(x().Int64(7) == 7 && x().Int64() == 0, "boolean: Int64")
		sym.Assert(x().Number() == nil, "boolean: Number")
		sym.Assert(x().Float64(7) == 7, "boolean: Float64")
		_, err = g.GetInt64("k")
		sym.Assert(err != nil, "boolean: GetInt64")
		_, err = g.GetFloat64("k")
		sym.Assert(err != nil, "boolean: GetFloat64")
		sym.Reach("boolean")
	case 12:
		f := sym.Float64()
		sym.Assume(f == f)
		k.Add(f)
		v, err := g.GetFloat64("k")
		sym.Assert(err == nil && v == f, "float: GetFloat64")
		n, ok := x().Number().(float64)
		sym.Assert(ok && n == f, "float: Number")
		n, ok = x().Scalar().(float64)
		sym.Assert(ok && n == f, "float: Scalar")
		n, ok = x().GetAt(0).ThisFloat64()
		sym.Assert(ok && n == f, "float: ThisFloat64")
		sym.Reach("float")
	case 13: // integral floats
		i := sym.Int64()
		sym.Assume(i > -(1<<10) && i < 1<<10)
		k.Add(float64(i))
		sym.Assert(x().Int64() == i && x().Int64(7) == i, "integral float: Int64")
		n, err := g.GetInt64("k")
		sym.Assert(err == nil && n == i, "integral float: GetInt64")
		sym.Reach("float")
	case 14:
		fs := []float64{0, -1, 0.1, 1e300, -2.5e-300, 123456789.125, 1e21, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1)}
		f := fs[sym.Choose(len(fs))]
		k.Add(f)
		sym.Assert(x().Float64() == f && x().Float64(3) == f, "float: Float64")
		sym.Assert(x().String() == strconv.FormatFloat(f, 'g', -1, 64), "float: String")
		sym.Reach("float")
	case 15:
		f := []float32{0, -1, 0.5, 1048576.5}[sym.Choose(4)]
		k.Add(f)
		sym.Assert(x().Float64() == float64(f), "float32: Float64")
		v, err := g.GetFloat64("k")
		sym.Assert(err == nil && v == float64(f), "float32: GetFloat64")
		sym.Reach("float")
	}
}

// C17Text: texts convert exactly when they denote a number or a boolean.
func C17Text() {
	var s string
	switch sym.Choose(5) {
	case 0:
		s = str(0, sym.Param("n", 3))
	case 1:
		s = "922337203685477580" + sym.Str(1)
	case 2:
		s = "-922337203685477580" + sym.Str(1)
	case 3:
		s = "tru" + sym.Str(1)
	case 4:
		s = "fals" + sym.Str(1)
	}
	g := ogdl.New("_")
	var x *ogdl.Graph
	if sym.Choose(2) == 0 {
		g.Add("k").Add(s)
	} else {
		g.Add("k").Add([]byte(s))
	}
	x = g.Get("k")
	sym.Assert(x.String() == s, "text: String")
	sym.Assert(string(x.Bytes()) == s, "text: Bytes")
	t, err := g.GetString("k")
	sym.Assert(err == nil && t == s, "text: GetString")
	t, ok := text(x.Interface())
	sym.Assert(ok && t == s, "text: Interface")

	n, isInt := refIntRange(s)
	d := sym.Int64()
	if isInt {
		sym.Assert(x.Int64() == n && x.Int64(d) == n, "text: Int64 of an integer")
		i, err := g.GetInt64("k")
		sym.Assert(err == nil && i == n, "text: GetInt64 of an integer")
		sym.Reach("int")
	} else {
		sym.Assert(x.Int64() == 0 && x.Int64(d) == d, "text: Int64 of what is not an integer")
		_, err := g.GetInt64("k")
		sym.Assert(err != nil, "text: GetInt64 of what is not an integer")
	}
	f, errf := strconv.ParseFloat(s, 64)
	isNum := errf == nil
	df := sym.Float64()
	if isNum {
		v := x.Float64()
		sym.Assert(v == f || (v != v && f != f), "text: Float64 of a number")
		v = x.Float64(df)
		sym.Assert(v == f || (v != v && f != f), "text: Float64 of a number, with default")
		v, err := g.GetFloat64("k")
		sym.Assert(err == nil && (v == f || (v != v && f != f)), "text: GetFloat64 of a number")
		sym.Reach("float")
	} else {
		v := x.Float64()
		sym.Assert(v != v, "text: Float64 of what is not a number")
		v = x.Float64(df)
		sym.Assert(v == df || (v != v && df != df), "text: Float64 of what is not a number, with default")
		_, err := g.GetFloat64("k")
		sym.Assert(err != nil, "text: GetFloat64 of what is not a number")
	}
	isT, isF := s == "true", s == "false"
	db := sym.Bool()
	if isT || isF {
		sym.Assert(x.Bool() == isT && x.Bool(db) == isT, "text: Bool")
		b, err := g.GetBool("k")
		sym.Assert(err == nil && b == isT, "text: GetBool")
		b, ok := x.Scalar().(bool)
		sym.Assert(ok && b == isT, "text: Scalar of a boolean")
		sym.Reach("bool")
	} else {
		sym.Assert(!x.Bool() && x.Bool(db) == db, "text: Bool of what is not a boolean")
		_, err := g.GetBool("k")
		sym.Assert(err != nil, "text: GetBool of what is not a boolean")
	}
	// Number and Scalar
	switch v := x.Number().(type) {
	case int64:
		sym.Assert(isInt && v == n, "text: Number of an integer")
	case float64:
		sym.Assert(isNum && (v == f || (v != v && f != f)), "text: Number")
	default:
		sym.Assert(v == nil && !isNum, "text: Number of what is not a number")
		if !isT && !isF {
			t, ok := text(x.Scalar())
			sym.Assert(ok && t == s, "text: Scalar of what is nothing else")
			sym.Reach("text")
		}
	}
}

// refIntRange is the value of a decimal integer that fits an int64.
func refIntRange(s string) (int64, bool) {
	if len(s) < 19 {
		return refInt(s)
	}
	// 922337203685477580d, with or without minus
	c := s[len(s)-1]
	if !rng(c, '0', '9') {
		return 0, false
	}
	if s[0] == '-' {
		if c > '8' {
			return 0, false
		}
		return -9223372036854775800 - int64(c-'0'), true
	}
	if c > '7' {
		return 0, false
	}
	return 9223372036854775800 + int64(c-'0'), true
}

// absent asserts that a lookup that found nothing behaves as such.
func absent(x *ogdl.Graph) {
	sym.Assert(x.Len() == -1, "missing: Len")
	sym.Assert(x.String() == "" && x.String("d") == "d", "missing: String")
	sym.Assert(x.ThisString() == "" && x.ThisString("d") == "d", "missing: ThisString")
	sym.Assert(x.StringCSV() == "" && x.StringCSV("d") == "d", "missing: StringCSV")
	sym.Assert(x.StringTxt() == "" && x.StringTxt("d") == "d", "missing: StringTxt")
	sym.Assert(x.Strings() == nil, "missing: Strings")
	n := sym.Int64()
	sym.Assert(x.Int64() == 0 && x.Int64(n) == n, "missing: Int64")
	f := x.Float64()
	sym.Assert(f != f && x.Float64(2.5) == 2.5, "missing: Float64")
	b := sym.Bool()
	sym.Assert(!x.Bool() && x.Bool(b) == b, "missing: Bool")
	sym.Assert(x.Bytes() == nil && x.ThisBytes() == nil, "missing: Bytes")
	sym.Assert(x.Number() == nil && x.ThisNumber() == nil, "missing: Number")
	sym.Assert(x.Scalar() == nil && x.ThisScalar() == nil && x.Interface() == nil, "missing: Scalar")
	_, ok := x.ThisInt64()
	_, ok2 := x.ThisFloat64()
	sym.Assert(!ok && !ok2, "missing: ThisInt64, ThisFloat64")
	sym.Assert(x.Text() == "" && x.Show() == "" && x.Html("p") == "", "missing: Text")
	sym.Assert(x.JSON() == nil && x.Binary() == nil, "missing: JSON, Binary")
	sym.Assert(x.ThisType() == "", "missing: ThisType")
	sym.Assert(x.Clone() == nil, "missing: Clone")
	sym.Assert(x.Node("a") == nil && x.GetAt(0) == nil && x.Get("a.b") == nil && x.Get("[0]") == nil && x.Get("") == nil, "missing: lookups")
	_, err := x.GetString("a")
	_, err2 := x.GetInt64("a")
	_, err3 := x.GetBool("a")
	_, err4 := x.GetFloat64("a")
	_, err5 := x.GetBytes("a")
	sym.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil && err5 != nil, "missing: typed getters")
	sym.Assert(x.Equals(nil), "missing: Equals")
}

// present calls everything on a node that exists.
func present(x *ogdl.Graph) {
	if len(x.Out) == 0 {
		n := sym.Int64()
		sym.Assert(x.String() == "" && x.Int64() == 0 && x.Int64(n) == n && !x.Bool() && x.Interface() == nil, "leaf: values")
		f := x.Float64()
		sym.Assert(f != f && x.Float64(2.5) == 2.5 && x.Number() == nil && x.Scalar() == nil && x.Bytes() == nil, "leaf: values")
		sym.Assert(x.StringCSV() == "" && x.StringTxt() == "" && len(x.Strings()) == 0, "leaf: lists")
	} else {
		s := ctext(x.Out[0].This)
		sym.Assert(x.String() == s && x.String("d") == s, "String")
		sym.Assert(string(x.Bytes()) == s, "Bytes")
		csv, txt := s, s
		for _, o := range x.Out[1:] {
			csv += ", " + ctext(o.This)
			txt += " " + ctext(o.This)
		}
		sym.Assert(x.StringCSV() == csv && x.StringCSV("d") == csv, "StringCSV")
		sym.Assert(x.StringTxt() == txt && x.StringTxt("d") == txt, "StringTxt")
		l := x.Strings()
		sym.Assert(len(l) == len(x.Out), "Strings")
		for i, o := range x.Out {
			sym.Assert(l[i] == ctext(o.This), "Strings")
		}
	}
	sym.Assert(x.ThisString() == ctext(x.This), "ThisString")
	sym.Assert(string(x.ThisBytes()) == ctext(x.This), "ThisBytes")
	switch sym.Choose(6) {
	case 0:
		x.ThisNumber()
		x.ThisScalar()
		x.ThisInt64()
		x.ThisFloat64()
		x.ThisType()
		x.ThisValue()
		x.Value()
	case 1:
		x.Text()
	case 2:
		x.Show()
	case 3:
		x.Html("p")
	case 4:
		x.JSON()
	case 5:
		x.Binary()
	}
}

// lookup applies one of the lookups.
func lookup(g *ogdl.Graph) *ogdl.Graph {
	switch sym.Choose(5) {
	case 0:
		p, _ := mkPath(2, true)
		return g.Get(p)
	case 1:
		return g.Node(str(0, 1))
	case 2:
		return g.GetAt(sym.Int(-2, 3))
	case 3:
		return g.Get("")
	}
	p := str(1, 2)
	if sym.Param("ascii", 0) == 1 {
		for i := 0; i < len(p); i++ {
			sym.Assume(p[i] < 0x80)
		}
	}
	return g.Get(p)
}

// C18Chain: lookups chain, whatever they find.
func C18Chain() {
	var g *ogdl.Graph
	if sym.Choose(8) > 0 {
		g = mkGraph(sym.Param("n", 2), func() any { return content(sym.Param("kinds", 2)) })
	}
	m := snapshot(g)
	x := g
	for i := 0; i < sym.Param("chain", 1); i++ {
		x = lookup(x)
	}
	if x == nil {
		absent(x)
		sym.Reach("absent")
	} else {
		present(x)
		sym.Reach("present")
	}
	m.check("lookups")
}

// C18Edit: edits through a missing node change nothing; through a node that
// exists they do not panic.
func C18Edit() {
	g := mkGraph(sym.Param("n", 2), func() any { return content(9) })
	m := snapshot(g)
	x := g.GetAt(sym.Choose(3)).GetAt(sym.Choose(2) * 3)
	v := content(3)
	var r *ogdl.Graph
	switch sym.Choose(15) {
	case 0:
		r = x.Add(v)
	case 1:
		r = x.AddNodes(g)
	case 2:
		r = x.Set("a.b", v)
	case 3:
		r = x.Set("[0]", v)
	case 4:
		r = x.NodeOrNew("a")
	case 5:
		r = x.NodeSet("a", v)
	case 6:
		r = x.Create("a")
	case 7:
		x.Copy(g)
	case 8:
		x.Delete(v)
	case 9:
		x.DeleteAt(0)
	case 10:
		x.Clear()
	case 11:
		x.Substitute("a", v)
	case 12:
		x.Merge(ogdl.FromString("a b"))
	case 13:
		x.Sort("a")
		x.SortAsInt("a")
		x.SortAsString("a")
	case 14:
		// a missing node given to an edit
		g.Merge(x)
		g.Copy(nil)
		g.AddNodes(nil)
		r = g.Add(nil)
		var no *ogdl.Graph
		sym.Assert(g.Add(no) == nil, "adding a missing node returned a node")
		if x == nil {
			m.check("edits with a missing node")
		}
	}
	if x == nil {
		sym.Assert(r == nil, "editing a missing node returned a node")
		m.check("edits of a missing node")
		sym.Reach("absent")
	} else {
		sym.Reach("present")
	}
}

// C23Read: reading leaves the graph as it is.
func C23Read() {
	g := mkGraph(sym.Param("n", 2), func() any { return content(9) })
	if sym.Choose(2) == 1 {
		g.This = content(2)
	}
	m := snapshot(g)
	switch sym.Choose(22) {
	case 0:
		a := g.Text()
		sym.Assert(a == g.Text(), "Text differs the second time")
	case 1:
		a := g.Show()
		sym.Assert(a == g.Show(), "Show differs the second time")
	case 2:
		a := g.Html("x")
		sym.Assert(a == g.Html("x"), "Html differs the second time")
	case 3:
		a := string(g.JSON())
		sym.Assert(a == string(g.JSON()), "JSON differs the second time")
	case 4:
		a := string(g.Binary())
		sym.Assert(a == string(g.Binary()), "Binary differs the second time")
	case 5:
		present(g)
	case 6:
		p, _ := mkPath(2, true)
		g.Get(p)
		g.Eval(ogdl.NewPath(p))
	case 7:
		g.GetString("a.b")
		g.GetInt64("a")
		g.GetBool("[0]")
		g.GetFloat64("a{}")
		g.GetBytes("[1]")
	case 8:
		g.Node(sym.Str(1))
		g.GetAt(1)
		g.Strings()
	case 9:
		g.Find("a")
	case 10:
		h := g.Clone()
		mh := snapshot(h)
		g.Equals(h)
		mh.check("Equals")
	case 11:
		s := ogdl.FromString("!string\n  !int\n!float\n!bool\na")
		ms := snapshot(s)
		s.Check(g)
		ms.check("Check: schema")
	case 12:
		sc := mkGraph(2, func() any { return "!int" })
		g.Check(sc)
	case 13:
		g.Eval(ogdl.NewPath("a._len"))
		g.Eval(ogdl.NewPath("_json"))
		g.Eval(ogdl.NewPath("_this"))
		g.Eval(ogdl.NewPath("a._string"))
	case 14:
		e := ogdl.NewExpression("a+b*2 > [0] && !c || x.(a) == -1")
		me := snapshot(e)
		g.Eval(e)
		me.check("Eval: expression")
	case 15:
		e := ogdl.NewExpression("a[1+" + token(1) + "] - (b + 'x')")
		me := snapshot(e)
		g.Eval(e)
		me.check("Eval: expression")
	case 16:
		t := ogdl.NewTemplate("x $a $b.c $if(a==b)y$elseif(a)z$else w$end $a[0]")
		mt := snapshot(t)
		o := string(t.Process(g))
		mt.check("Process: template")
		sym.Assert(o == string(t.Process(g)), "Process differs the second time")
	case 17:
		t := ogdl.NewTemplate("$for(x,a)$x$end")
		mt := snapshot(t)
		t.Process(ogdl.FromString("a\n  b\n  c"))
		mt.check("Process: template")
	case 18:
		h := ogdl.New("_")
		h.Copy(g)
		h.AddNodes(g)
	case 19:
		h := ogdl.FromString("a b")
		h.Merge(g)
	case 20:
		h := ogdl.New("_")
		h.AddNodes(g)
		h.Add("x")
		h.Delete("x")
	case 21:
		h := ogdl.New("_")
		h.AddNodes(g)
		h.DeleteAt(0)
		h.Sort("a")
	}
	m.check("reading")
	sym.Reach("read")
}

// C28Find: the subnodes that match, in order, and those only.
func C28Find() {
	t := &T{}
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		k := &T{s: str(0, sym.Param("l", 2))}
		for j := 0; j < len(k.s); j++ {
			sym.Assume(k.s[j] < 128)
		}
		k.bin = i > 0 && sym.Choose(2) == 1
		if sym.Choose(2) == 1 {
			k.k = []*T{{s: "a"}}
		}
		t.k = append(t.k, k)
	}
	g := t.graph()
	s := snapshot(g)
	re := []string{"a", "^a", "a$", "^a$", "a|b", "[0-9]", "", "^$", ".b", "^(ab?|c)$", "(", "a**", "[a"}
	r := sym.Choose(len(re))
	got, err := g.Find(re[r])
	if r >= 10 {
		sym.Assert(err != nil && got == nil, "a wrong expression is accepted")
		_, err = (*ogdl.Graph)(nil).Find(re[r])
		sym.Assert(err != nil, "a wrong expression is accepted by a missing node")
		s.check("find")
		sym.Reach("wrong")
		return
	}
	sym.Assert(err == nil, "a right expression is rejected")
	var want []*ogdl.Graph
	for i, k := range t.k {
		if matches(r, k.s) {
			want = append(want, g.Out[i])
		}
	}
	if len(want) == 0 {
		sym.Assert(got == nil, "nothing found, but a graph")
		sym.Reach("nothing")
	} else if got == nil || len(got.Out) != len(want) {
		sym.Fail("other number of subnodes")
	} else {
		for i := range want {
			sym.Assert(got.Out[i] == want[i], "other subnodes")
		}
		sym.Reach("found")
	}
	s.check("find")
	x, err := (*ogdl.Graph)(nil).Find(re[r])
	sym.Assert(x == nil && err == nil, "missing node")
	observe("found", got)
}

// matches is the meaning of the expressions of C28Find.
func matches(r int, s string) bool {
	first := len(s) > 0 && s[0] == 'a'
	last := len(s) > 0 && s[len(s)-1] == 'a'
	switch r {
	case 0:
		return hasByte(s, 'a')
	case 1:
		return first
	case 2:
		return last
	case 3:
		return len(s) == 1 && first
	case 4:
		return sym.Or(hasByte(s, 'a'), hasByte(s, 'b'))
	case 5:
		x := false
		for i := 0; i < len(s); i++ {
			x = sym.Or(x, rng(s[i], '0', '9'))
		}
		return x
	case 6:
		return true
	case 7:
		return len(s) == 0
	case 8:
		x := false
		for i := 1; i < len(s); i++ {
			x = sym.Or(x, sym.And(s[i-1] != '\n', s[i] == 'b'))
		}
		return x
	}
	return s == "a" || s == "ab" || s == "c"
}

// C11Graph: a graph as value, at several places, that are then extended.
func C11Graph() {
	g := ogdl.New("_")
	v := ogdl.New("_")
	var val []string
	for i := sym.Choose(4); i > 0; i-- {
		s := sym.Str(1)
		v.Add(s)
		val = append(val, s)
	}
	var have [2][]string
	var set [2]bool
	path := [2]string{"a", []string{"b", "b.c"}[sym.Choose(2)]}
	for k := sym.Param("ops", 4); k > 0; k-- {
		i := sym.Choose(2)
		switch sym.Choose(3) {
		case 0: // set it
			sym.Assert(g.Set(path[i], v) != nil, "set")
			have[i] = append([]string(nil), val...)
			set[i] = true
		case 1: // extend one place
			sym.Assume(set[i])
			s := sym.Str(1)
			g.Get(path[i]).Add(s)
			have[i] = append(have[i], s)
		case 2: // extend the value
			s := sym.Str(1)
			v.Add(s)
			val = append(val, s)
		}
		for i := range have {
			if set[i] {
				listIs(g.Get(path[i]), have[i], "place")
			}
		}
		listIs(v, val, "value")
	}
	observe("graph", g)
	sym.Reach("graph")
}

func listIs(g *ogdl.Graph, l []string, what string) {
	if len(l) == 0 {
		sym.Assert(g.Len() == 0, what+": number of nodes")
		return
	}
	if g.Len() != len(l) {
		sym.Fail(what + ": number of nodes")
		return
	}
	for i := range l {
		sym.Assert(g.GetAt(i).This == any(l[i]), what+": nodes")
	}
}
