package h

import (
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C10Edit", C10Edit)
	reg("C10Copy", C10Copy)
	reg("C10Equals", C10Equals)
	reg("C20Sort", C20Sort)
	reg("C25Merge", C25Merge)
	reg("C25Substitute", C25Substitute)
}

// content is a node content of any of the kinds that OGDL graphs hold.
func content(kinds int) any {
	switch sym.Choose(kinds) {
	case 0:
		return sym.Str(1)
	case 1:
		return sym.Bytes(1)
	case 2:
		return int64(sym.Int(0, 9))
	case 3:
		return sym.Bool()
	case 4:
		return ""
	case 5:
		return []byte{}
	case 6:
		return 2.5
	case 7:
		return sym.Int(0, 9)
	}
	return nil
}

// ctext is the harness's own text form of such a content.
func ctext(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case int64:
		return refItoa(x)
	case int:
		return refItoa(int64(x))
	case bool:
		if x {
			return "true"
		}
		return "false"
	case float64:
		return "2.5"
	}
	return ""
}

// mkGraph builds a graph of n nodes of any shape and contents.
func mkGraph(n int, c func() any) *ogdl.Graph {
	root := ogdl.New("_")
	path := []*ogdl.Graph{root}
	for i := 0; i < n; i++ {
		lev := 1
		if len(path) > 1 {
			lev = 1 + sym.Choose(len(path))
		}
		path = path[:lev]
		nd := &ogdl.Graph{This: c()}
		path[lev-1].Out = append(path[lev-1].Out, nd)
		path = append(path, nd)
	}
	return root
}

func flat(s *snap, l []*snap) []*snap {
	l = append(l, s)
	for _, o := range s.out {
		l = flat(o, l)
	}
	return l
}

// nodeOf is a snapshot of a node expected to be new, with the given content.
func nodeOf(g *ogdl.Graph, v any) *snap {
	if g == nil {
		sym.Fail("no node was returned")
	}
	s := &snap{g: g, this: v}
	if b, ok := v.([]byte); ok {
		s.this, s.byt = nil, string(b)
	}
	return s
}

func (s *snap) content() any {
	if b, ok := s.g.This.([]byte); ok {
		return b
	}
	return s.this
}

func (s *snap) find(name string) *snap {
	for _, o := range s.out {
		if ctext(o.content()) == name {
			return o
		}
	}
	return nil
}

// C10Edit: sequences of structural edits against a model.
func C10Edit() {
	kinds := sym.Param("kinds", 3)
	g := mkGraph(sym.Param("n", 2), func() any { return content(kinds) })
	m := snapshot(g)
	for st := 0; st < sym.Param("ops", 2); st++ {
		all := flat(m, nil)
		t := all[sym.Choose(len(all))]
		switch sym.Choose(11) {
		case 0:
			v := content(kinds)
			r := t.g.Add(v)
			t.out = append(t.out, nodeOf(r, v))
		case 1:
			nd := ogdl.New(content(kinds))
			nd.Add("sub")
			r := t.g.Add(nd)
			sym.Assert(r == nd, "Add of a graph returns another node")
			t.out = append(t.out, snapshot(nd))
		case 2:
			v := content(kinds)
			var keep []*snap
			for _, o := range t.out {
				if !eqAny(o.content(), v) {
					keep = append(keep, o)
				}
			}
			t.g.Delete(v)
			t.out = keep
		case 3:
			i := sym.Choose(len(t.out)+3) - 1
			t.g.DeleteAt(i)
			if i >= 0 && i < len(t.out) {
				var keep []*snap
				keep = append(keep, t.out[:i]...)
				t.out = append(keep, t.out[i+1:]...)
			}
		case 4:
			s := sym.Str(1)
			f := t.find(s)
			r := t.g.NodeOrNew(s)
			if f != nil {
				sym.Assert(r == f.g, "NodeOrNew returned another node")
			} else {
				t.out = append(t.out, nodeOf(r, s))
			}
		case 5:
			s := sym.Str(1)
			f := t.find(s)
			r := t.g.Create(s)
			if f != nil {
				sym.Assert(r == f.g, "Create returned another node")
				f.out = nil
			} else {
				t.out = append(t.out, nodeOf(r, s))
			}
		case 6:
			s := sym.Str(1)
			v := content(kinds)
			f := t.find(s)
			r := t.g.NodeSet(s, v)
			if f == nil {
				k := len(t.out)
				if len(t.g.Out) != k+1 {
					sym.Fail("NodeSet: node not created")
				}
				f = nodeOf(t.g.Out[k], s)
				t.out = append(t.out, f)
			}
			f.out = []*snap{nodeOf(r, v)}
		case 7:
			t.g.Clear()
			t.out = nil
		case 8:
			o := ogdl.New("o")
			o.Add(content(kinds))
			o.Add("p").Add("q")
			so := snapshot(o)
			t.g.AddNodes(o)
			t.out = append(t.out, so.out...)
			so.check("AddNodes: source")
			// the source stays independent of the receiver
			o.Add("r")
		case 9:
			s := sym.Str(1)
			f := t.find(s)
			r := t.g.Node(s)
			sym.Assert((r == nil) == (f == nil), "Node: found or not")
			if f != nil {
				sym.Assert(r == f.g, "Node: not the first of that name")
			}
		case 10:
			i := sym.Choose(len(t.out)+3) - 1
			r := t.g.GetAt(i)
			if i >= 0 && i < len(t.out) {
				sym.Assert(r == t.out[i].g, "GetAt: another node")
			} else {
				sym.Assert(r == nil, "GetAt: out of range")
			}
		}
		m.check("edit")
		sym.Assert(t.g.Len() == len(t.out), "Len")
	}
	observe("g", g)
	sym.Reach("edit")
}

// disjoint asserts that two graphs have no node in common.
func disjoint(a, b *ogdl.Graph) {
	for _, x := range flat(snapshot(a), nil) {
		for _, y := range flat(snapshot(b), nil) {
			sym.Assert(x.g != y.g, "the copy shares a node with its source")
		}
	}
}

func mutate(g *ogdl.Graph, k int) {
	switch k {
	case 0:
		g.Add("new")
	case 1:
		g.This = "changed"
	case 2:
		g.Clear()
	case 3:
		g.DeleteAt(0)
	case 4:
		g.Set("x.y", "z")
	case 5:
		g.Substitute("s", "t")
	}
}

// C10Copy: copies and clones equal their source and are independent of it.
func C10Copy() {
	n := sym.Param("n", 3)
	g := mkGraph(n, func() any { return content(9) })
	m := snapshot(g)
	var c *ogdl.Graph
	if sym.Choose(2) == 0 {
		c = g.Clone()
		sym.Assert(eqAny(c.This, g.This), "Clone: root content")
		sameG(g, c, "Clone")
		sym.Assert(g.Equals(c) && c.Equals(g), "a clone does not equal its source")
		sym.Reach("clone")
	} else {
		c = ogdl.New("_")
		old := c.Add("old")
		c.Copy(g)
		sym.Assert(len(c.Out) == 1+len(g.Out) && c.Out[0] == old && len(old.Out) == 0, "Copy: existing subnodes")
		x := &ogdl.Graph{This: "_", Out: c.Out[1:]}
		sameG(g, x, "Copy")
		sym.Reach("copy")
	}
	m.check("copying: source")
	disjoint(g, c)
	mc := snapshot(c)
	k := sym.Choose(6)
	if sym.Choose(2) == 0 {
		l := flat(mc, nil)
		mutate(l[sym.Choose(len(l))].g, k)
		m.check("editing the copy: source")
	} else {
		l := flat(m, nil)
		mutate(l[sym.Choose(len(l))].g, k)
		mc.check("editing the source: copy")
	}
}

func refEquals(a, b *ogdl.Graph) bool {
	if len(a.Out) != len(b.Out) {
		return false
	}
	r := eqAny(a.This, b.This)
	for i := range a.Out {
		r = sym.And(r, refEquals(a.Out[i], b.Out[i]))
	}
	return r
}

// C10Equals: equality of shape and contents.
func C10Equals() {
	n := sym.Param("n", 2)
	a := mkGraph(1+sym.Choose(n), func() any { return content(6) })
	b := mkGraph(1+sym.Choose(n), func() any { return content(6) })
	ma, mb := snapshot(a), snapshot(b)
	if sym.Choose(2) == 1 {
		a.This = content(9)
		b.This = content(9)
		ma, mb = snapshot(a), snapshot(b)
	}
	r := a.Equals(b)
	w := refEquals(a, b)
	sym.Assert(r == w, "Equals")
	sym.Assert(b.Equals(a) == w, "Equals is not symmetric")
	ma.check("Equals")
	mb.check("Equals")
	sym.Assert(a.Equals(a), "Equals is not reflexive")
	var no *ogdl.Graph
	sym.Assert(!a.Equals(no) && !no.Equals(a) && no.Equals(nil), "Equals with a missing graph")
	if w {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

// C20Sort: sorting permutes the subnodes into order.
func C20Sort() {
	n := sym.Param("n", 3)
	ints := sym.Choose(2) == 1
	field := "f"
	deep := sym.Choose(2) == 1
	if deep {
		field = "e.f"
	}
	g := ogdl.New("_")
	keys := map[*ogdl.Graph]string{}
	nums := map[*ogdl.Graph]int64{}
	for i := 0; i < n; i++ {
		nd := g.Add("n")
		nd.Add("d")
		switch sym.Choose(4) {
		case 0: // without the field
			keys[nd], nums[nd] = "", 0
		case 1:
			nd.Add("x").Add("f")
			keys[nd], nums[nd] = "", 0
		default:
			p := nd
			if deep {
				p = nd.Add("e")
			}
			p = p.Add("f")
			if ints {
				var v int64
				if sym.Choose(2) == 0 {
					v = sym.Int64()
					p.Add(v)
				} else {
					d := sym.Str(1)
					sym.Assume(rng(d[0], '0', '9'))
					v = int64(d[0] - '0')
					if sym.Choose(2) == 0 {
						p.Add("-" + d)
						v = -v
					} else {
						p.Add([]byte(d))
					}
				}
				nums[nd] = v
			} else {
				s := str(0, 2)
				p.Add(s)
				keys[nd] = s
			}
		}
	}
	m := snapshot(g)
	if ints {
		g.SortAsInt(field)
	} else if sym.Choose(2) == 0 {
		g.Sort(field)
	} else {
		g.SortAsString(field)
	}
	if len(g.Out) != n {
		sym.Fail("sorting changed the number of subnodes")
	}
	for i, x := range g.Out {
		for j := 0; j < i; j++ {
			sym.Assert(x != g.Out[j], "sorting duplicated a subnode")
		}
		found := false
		for _, o := range m.out {
			if o.g == x {
				found = true
				o.check("sorting")
			}
		}
		sym.Assert(found, "sorting invented a subnode")
		if i > 0 {
			if ints {
				sym.Assert(nums[g.Out[i-1]] <= nums[x], "not in numeric order")
			} else {
				sym.Assert(keys[g.Out[i-1]] <= keys[x], "not in text order")
			}
		}
	}
	if ints {
		sym.Reach("ints")
	} else {
		sym.Reach("strings")
	}
}

// C25Merge: replace what both have, append what only the source has.
func C25Merge() {
	n := sym.Param("n", 2)
	mk := func() *ogdl.Graph {
		g := ogdl.New("_")
		for i := 0; i < n; i++ {
			var nm any = sym.Str(1)
			if i == 0 && sym.Choose(2) == 1 {
				nm = []byte(nm.(string))
			}
			nd := g.Add(nm)
			switch sym.Choose(3) {
			case 1:
				nd.Add(sym.Str(1))
			case 2:
				nd.Add(sym.Str(1)).Add(sym.Str(1))
				nd.Add(sym.Str(1))
			}
		}
		return g
	}
	g, src := mk(), mk()
	// names occur once in the source
	for i := range src.Out {
		for j := 0; j < i; j++ {
			sym.Assume(ctext(src.Out[i].This) != ctext(src.Out[j].This))
		}
	}
	m, ms := snapshot(g), snapshot(src)
	g.Merge(src)
	ms.check("Merge: source")
	// the expected result
	for _, s := range ms.out {
		f := m.find(ctext(s.content()))
		if f != nil {
			f.out = s.out
		} else {
			m.out = append(m.out, s)
		}
	}
	same := func(a *snap, b *ogdl.Graph) {}
	same = func(a *snap, b *ogdl.Graph) {
		sym.Assert(eqAny(a.content(), b.This), "Merge: content")
		if len(a.out) != len(b.Out) {
			sym.Fail("Merge: number of subnodes")
		}
		for i := range a.out {
			same(a.out[i], b.Out[i])
		}
	}
	same(m, g)
	observe("g", g)
	sym.Reach("merge")
	// what was replaced is not shared with the source
	for _, s := range ms.out {
		if nd := g.Node(ctext(s.content())); nd != s.g {
			nd.Add("x")
			ms.check("Merge: source after an edit of the result")
			nd.DeleteAt(nd.Len() - 1)
		}
	}
	var no *ogdl.Graph
	no.Merge(src)
	g.Merge(nil)
	same(m, g)
}

// C25Substitute: all nodes with that content, and only they, change.
func C25Substitute() {
	g := mkGraph(sym.Param("n", 3), func() any { return content(4) })
	if sym.Choose(2) == 1 {
		g.This = sym.Str(1)
	}
	m := snapshot(g)
	s := str(0, 1)
	v := content(3)
	for i, o := range flat(m, nil) {
		if i > 0 && ctext(o.content()) == s {
			o.this, o.byt = v, ""
			if b, ok := v.([]byte); ok {
				o.this, o.byt = nil, string(b)
			}
			sym.Reach("changed")
		}
	}
	g.Substitute(s, v)
	m.check("Substitute")
	observe("g", g)
	sym.Reach("substitute")
}
