package h

import (
	"verif/harness/sym"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
)

func init() {
	reg("C22Import", C22Import)
	reg("C22Any", C22Any)
	reg("C22Simplify", C22Simplify)
}

type xn struct {
	s string
	k []*xn
}

func (x *xn) add(s string, k ...*xn) *xn {
	n := &xn{s, k}
	x.k = append(x.k, n)
	return n
}

func sameX(g *ogdl.Graph, x *xn, what string) {
	if len(g.Out) != len(x.k) {
		sym.Fail(what + ": number of nodes")
	}
	for i, k := range x.k {
		if g.Out[i] == nil {
			sym.Fail(what + ": nil node")
		}
		s, ok := g.Out[i].This.(string)
		sym.Assert(ok && s == k.s, what+": content")
		sameX(g.Out[i], k, what)
	}
}

type xgen struct {
	left int
	b    []byte
}

func (x *xgen) w(s string) { x.b = append(x.b, s...) }

// name is an element name as written, and its node.
func (x *xgen) name() (string, string) {
	if sym.Param("lean", 0) == 1 {
		if x.left > 0 {
			return "q", "q"
		}
		return "a-b", "a_b"
	}
	switch sym.Choose(4) {
	case 0:
		c := sym.Byte()
		sym.Assume(sym.Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')))
		s := string([]byte{c})
		return s, s
	case 1:
		return "a-b-c", "a_b_c"
	case 2:
		return "n:e", "e"
	}
	c := sym.Byte()
	sym.Assume(sym.Or(rng(c, '0', '9'), sym.Or(c == '.', c == '_')))
	s := "x" + string([]byte{c})
	return s, s
}

// xtext is plain text of n bytes.
func xtext(n int) string {
	s := sym.Str(n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(rng(s[i], ' ', 126), in(s[i], "\t\n")))
		sym.Assume(noneOf(s[i:i+1], "<&\"'>"))
	}
	return s
}

func isXS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func trimX(s string) string {
	for len(s) > 0 && isXS(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && isXS(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func (x *xgen) attrs(n *xn) {
	m := 0
	if x.left > 0 {
		m = sym.Choose(min(x.left, 2) + 1)
	}
	for i := 0; i < m; i++ {
		x.left--
		s := []string{" ", "\n  "}[sym.Choose(2)]
		k := []string{"id", "a-b", "n:x", "xmlns"}[sym.Choose(4)]
		node := []string{"@id", "@a-b", "@x", "@xmlns"}
		_ = node
		nm := "@" + k
		if k == "n:x" {
			nm = "@x"
		}
		var v, r string
		switch sym.Choose(3) {
		case 0:
			v = xtext(1)
			r = v
		case 1:
			v, r = "a&lt;&#65;'", "a<A'"
		case 2:
			v, r = "", ""
		}
		x.w(s + k + "=\"" + v + "\"")
		n.add(nm, &xn{s: r})
	}
}

// element writes an element.
func (x *xgen) element(p *xn, depth int) {
	x.left--
	s, nm := x.name()
	n := p.add(nm)
	x.w("<" + s)
	x.attrs(n)
	if x.left <= 0 && sym.Choose(2) == 1 {
		x.w("/>")
		return
	}
	x.w(">")
	for x.left > 0 {
		k := sym.Choose(7)
		if k == 0 {
			break
		}
		x.left--
		switch k {
		case 1:
			if depth <= 0 {
				sym.Assume(false)
			}
			x.left++
			x.element(n, depth-1)
		case 2:
			// adjacent texts are one
			t := xtext(1 + sym.Choose(2))
			x.w(t + "<!-- < & -->")
			if r := trimX(t); r != "" {
				n.add(r)
			}
		case 3:
			x.w("&amp;&#x41; b<?pi x?>")
			n.add("&A b")
		case 4:
			t := sym.Str(1)
			sym.Assume(sym.Or(rng(t[0], ' ', 126), t[0] == '\n'))
			x.w("<![CDATA[" + t + "]]>")
			if r := trimX(t); r != "" {
				n.add(r)
			}
		case 5:
			x.w(" \r\n\t")
			x.w("<!--x-->")
		case 6:
			x.w(" a\r\nb ")
			x.w("<!---->")
			n.add("a\nb")
		}
	}
	x.w("</" + s + ">")
}

// C22Import: documents of any structure.
func C22Import() {
	x := &xgen{left: sym.Param("n", 3)}
	root := &xn{}
	k := 0
	if sym.Param("lean", 0) == 0 {
		k = sym.Choose(3)
	}
	switch k {
	case 1:
		x.w("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE a [<!ENTITY b \"c\">]>\n")
	case 2:
		x.w("\n<!-- c -->\n")
	}
	x.element(root, sym.Param("depth", 3))
	if sym.Choose(2) == 1 {
		x.w("\n")
	}
	t := string(x.b)
	sym.ObserveStr("xml", t)
	g := gxml.FromXML(x.b)
	if g == nil {
		sym.Fail("no graph")
	}
	sym.Assert(string(x.b) == t, "document changed")
	sameX(g, root, "document")
	sym.Reach("document")
	gxml.Simplify(g)
}

// C22Any: any bytes.
func C22Any() {
	pre := ""
	if sym.Param("prefix", 0) == 1 {
		pre = []string{"<a>", "<a ", "<a b=\"", "<a/>", "<a></a", "<a><b>", "<!", "&#", "<a>&", "</", "<a><![CDATA["}[sym.Choose(11)]
	}
	s := str(0, sym.Param("n", 2))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	t := pre + s
	sym.ObserveStr("xml", t)
	g := gxml.FromXML([]byte(t))
	if g == nil {
		sym.Fail("no graph")
	}
	gxml.Simplify(g)
	sym.Reach("any")
}

// C22Simplify: elements with an identifier take it as their name and keep their
// last subnode, field elements take their name; everything else stays.
func C22Simplify() {
	t := mkTree(sym.Param("n", 4), func(i, lev, prev int) (string, bool) {
		switch sym.Choose(5) {
		case 0:
			return "@id", false
		case 1:
			return "@name", false
		case 2:
			return "field", false
		case 3:
			return "p", false
		}
		return sym.Str(1) + " b", false
	})
	g := t.graph()
	gxml.Simplify(g)
	simplified(t)
	t.same(g, "simplified")
	observe("simplified", g)
	sym.Reach("simplified")
}

func simplified(t *T) {
	for _, n := range t.k {
		if len(n.k) == 0 {
			continue
		}
		a := n.k[0]
		if a.s == "@id" && len(a.k) > 0 && len(n.k) >= 2 {
			if n.s != "p" {
				n.s = a.k[0].s
			}
			n.k = n.k[len(n.k)-1:]
		} else if a.s == "@name" && len(a.k) == 1 && n.s == "field" {
			s := []byte(a.k[0].s)
			for i := range s {
				if s[i] == ' ' {
					s[i] = '_'
				}
			}
			n.s = string(s)
			n.k = n.k[1:]
		}
		simplified(n)
	}
}
