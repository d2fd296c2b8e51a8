package h

import (
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

// T is the harness's own picture of a tree: content text and children.
type T struct {
	s   string
	k   []*T
	bin bool // content is a byte slice
	raw any  // content when it is not text
}

// mkTree builds a tree of n nodes below a root. The shape is chosen: each node
// is at most one level deeper than the one before it.
func mkTree(n int, content func(i, lev, prev int) (string, bool)) *T {
	root := &T{}
	path := []*T{root}
	for i := 0; i < n; i++ {
		lev := 1
		if len(path) > 1 {
			lev = 1 + sym.Choose(len(path))
		}
		path = path[:lev]
		s, b := content(i, lev, len(path))
		nd := &T{s: s, bin: b}
		path[lev-1].k = append(path[lev-1].k, nd)
		path = append(path, nd)
	}
	return root
}

// fill copies the tree below an OGDL node, with public operations only.
func (t *T) fill(g *ogdl.Graph) {
	for _, k := range t.k {
		var nd *ogdl.Graph
		if k.raw != nil {
			nd = ogdl.New(k.raw)
		} else if k.bin {
			nd = ogdl.New([]byte(k.s))
		} else {
			nd = ogdl.New(k.s)
		}
		g.Out = append(g.Out, nd)
		k.fill(nd)
	}
}

func (t *T) graph() *ogdl.Graph {
	g := ogdl.New("_")
	t.fill(g)
	return g
}

func (t *T) count() int {
	n := 0
	for _, k := range t.k {
		n += 1 + k.count()
	}
	return n
}

// text is the harness's own view of a scalar content as text.
func text(v any) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), true
	}
	return "", false
}

// sameTree asserts that the graph below g is the tree t (shape and text).
func (t *T) same(g *ogdl.Graph, what string) {
	if g == nil {
		sym.Fail(what + ": missing node")
		return
	}
	if len(g.Out) != len(t.k) {
		sym.Fail(what + ": number of subnodes differs")
		return
	}
	for i, k := range t.k {
		c := g.Out[i]
		if c == nil {
			sym.Fail(what + ": nil subnode")
			return
		}
		if k.raw != nil {
			sym.Assert(c.This == k.raw, what+": content differs")
		} else {
			s, ok := text(c.This)
			sym.Assert(ok, what+": content is not text")
			sym.Assert(s == k.s, what+": content differs")
		}
		k.same(c, what)
	}
}

// sameG asserts that two graphs have the same shape and text contents.
func sameG(a, b *ogdl.Graph, what string) {
	if (a == nil) != (b == nil) {
		sym.Fail(what + ": one graph is missing")
		return
	}
	if a == nil {
		return
	}
	if len(a.Out) != len(b.Out) {
		sym.Fail(what + ": number of subnodes differs")
		return
	}
	for i := range a.Out {
		x, y := a.Out[i], b.Out[i]
		if x == nil || y == nil {
			sym.Assert(x == y, what+": nil subnode")
			continue
		}
		sym.Assert(eqAny(x.This, y.This), what+": content differs")
		sameG(x, y, what)
	}
}

// eqAny compares contents including their native type; byte slices by value.
func eqAny(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	if _, ok := b.([]byte); ok {
		return false
	}
	return a == b
}

// snap records a graph: every node, its content and its subnodes in order.
type snap struct {
	g    *ogdl.Graph
	this any
	out  []*snap
	byt  string
}

func snapshot(g *ogdl.Graph) *snap {
	if g == nil {
		return nil
	}
	s := &snap{g: g, this: g.This}
	if b, ok := g.This.([]byte); ok {
		s.byt = string(b)
		s.this = nil
	}
	for _, n := range g.Out {
		s.out = append(s.out, snapshot(n))
	}
	return s
}

// check asserts that the graph is exactly as it was.
func (s *snap) check(what string) {
	if s == nil {
		return
	}
	if b, ok := s.g.This.([]byte); ok {
		sym.Assert(s.this == nil && string(b) == s.byt, what+": content changed")
	} else {
		sym.Assert(s.g.This == s.this, what+": content changed")
	}
	if len(s.g.Out) != len(s.out) {
		sym.Fail(what + ": number of subnodes changed")
		return
	}
	for i, o := range s.out {
		if o == nil {
			sym.Assert(s.g.Out[i] == nil, what+": subnode replaced")
			continue
		}
		sym.Assert(s.g.Out[i] == o.g, what+": subnode replaced")
		o.check(what)
	}
}

// observe dumps a graph into the trace used for cross-validation.
func observe(l string, g *ogdl.Graph) {
	if g == nil {
		sym.ObserveStr(l, "nil")
		return
	}
	obsRec(l, g, 0)
}

func obsRec(l string, g *ogdl.Graph, d int) {
	for _, n := range g.Out {
		if n == nil {
			sym.ObserveInt(l, int64(-d-1))
			continue
		}
		sym.ObserveInt(l, int64(d))
		switch x := n.This.(type) {
		case string:
			sym.ObserveStr(l, x)
		case []byte:
			sym.ObserveStr(l+"b", string(x))
		case int64:
			sym.ObserveInt(l, x)
		case int:
			sym.ObserveInt(l, int64(x))
		case bool:
			sym.ObserveBool(l, x)
		case float64:
			sym.ObserveFloat(l, x)
		case nil:
			sym.ObserveStr(l, "(nil)")
		default:
			sym.ObserveStr(l, sym.TypeName(x))
		}
		obsRec(l, n, d+1)
	}
}

// hasByte tells, without branching per byte, whether s contains c.
func hasByte(s string, c byte) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = sym.Or(r, s[i] == c)
	}
	return r
}

// in tells, without branching, whether c is one of the bytes of set.
func in(c byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = sym.Or(r, c == set[i])
	}
	return r
}

// noneOf tells, without branching, that s has no byte of set.
func noneOf(s, set string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = sym.And(r, !in(s[i], set))
	}
	return r
}

func rng(c, lo, hi byte) bool { return sym.And(c >= lo, c <= hi) }

// str is a symbolic string of a chosen length between lo and hi.
func str(lo, hi int) string {
	return sym.Str(lo + sym.Choose(hi-lo+1))
}
