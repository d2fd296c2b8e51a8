package h

import (
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C01Total", C01Total)
	reg("C01Lines", C01Lines)
	reg("C02Indent", C02Indent)
	reg("C02Line", C02Line)
	reg("C02Quoted", C02Quoted)
	reg("C02Block", C02Block)
}

// isSubseq tells, without branching, whether out is a subsequence of src.
func isSubseq(out, src string) bool {
	// m[i] : out[j:] is a subsequence of src[i:]
	n := len(src)
	m := make([]bool, n+1)
	for i := range m {
		m[i] = true
	}
	for j := len(out) - 1; j >= 0; j-- {
		l := make([]bool, n+1)
		for i := n - 1; i >= 0; i-- {
			l[i] = sym.Or(l[i+1], sym.And(out[j] == src[i], m[i+1]))
		}
		m = l
	}
	return m[0]
}

// texts concatenates the contents of all nodes, in order.
func texts(g *ogdl.Graph) string {
	s := ""
	for _, n := range g.Out {
		if n == nil {
			sym.Fail("nil subnode")
			return ""
		}
		t, ok := n.This.(string)
		sym.Assert(ok, "content of a parsed node is not a string")
		s += t + texts(n)
	}
	return s
}

func countNodes(g *ogdl.Graph) int {
	n := 0
	for _, o := range g.Out {
		n += 1 + countNodes(o)
	}
	return n
}

func isEnd(c byte) bool {
	return sym.And(c < 32, sym.And(c != 9, sym.And(c != 10, c != 13)))
}

// checkTotal: what must hold of the parse of any bytes.
func checkTotal(s string) {
	g := ogdl.FromString(s)
	sym.Assert(g != nil, "FromString returned nil")
	t := texts(g)
	// the stream ends at the first end character
	e := len(s)
	for i := 0; i < len(s); i++ {
		if isEnd(s[i]) {
			e = i
			break
		}
	}
	sym.Assert(isSubseq(t, s[:e]), "node contents are not characters of the stream in order")
	observe("g", g)
	h := ogdl.FromBytes([]byte(s))
	sameG(g, h, "FromBytes and FromString")
	if sym.Param("typed", 0) == 0 {
		return
	}
	p := ogdl.NewStringParser(s)
	p.OgdlTypes()
	y := p.Graph()
	sym.Assert(y != nil, "OgdlTypes returned nil")
	sym.Assert(countNodes(y) == countNodes(g), "type detection changes the number of nodes")
}

// C01Total parses arbitrary bytes.
func C01Total() {
	s := sym.Str(sym.Param("n", 4))
	checkTotal(s)
	sym.Reach("total")
}

// C01Lines parses a few lines whose layout is chosen and whose every other
// byte is arbitrary.
func C01Lines() {
	n := sym.Param("n", 2)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "\n"
		}
		for k := sym.Choose(3); k > 0; k-- {
			s += " "
		}
		switch sym.Choose(5) {
		case 0:
			s += "a" + sym.Str(1)
		case 1:
			s += "\"" + sym.Str(1)
		case 2:
			s += "b \\\n" + sym.Str(1)
		case 3:
			s += "c # " + sym.Str(1)
		case 4:
			s += "'x\n" + sym.Str(2)
		}
	}
	checkTotal(s)
	sym.Reach("lines")
}

// A line of a document: its indentation and the contents of its scalars.
type docLine struct {
	ind int
	el  []string
}

// docTree is the tree defined by the grammar: each line below the nearest
// preceding line with less indentation, words of a line nested.
func docTree(ls []docLine) *T {
	root := &T{}
	type ent struct {
		ind int
		nd  *T
	}
	st := []ent{{-1, root}}
	for _, l := range ls {
		for st[len(st)-1].ind >= l.ind {
			st = st[:len(st)-1]
		}
		p := st[len(st)-1].nd
		for i, e := range l.el {
			nd := &T{s: e}
			p.k = append(p.k, nd)
			if i == 0 {
				st = append(st, ent{l.ind, nd})
			}
			p = nd
		}
	}
	return root
}

func spaces(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += " "
	}
	return s
}

// word is a symbolic unquoted scalar.
func word(n int) string {
	s := sym.Str(n)
	sym.Assume(s[0] != '"')
	sym.Assume(s[0] != '\'')
	sym.Assume(s[0] != '`')
	sym.Assume(s[0] != ',')
	sym.Assume(s[0] != '\\')
	sym.Assume(s[0] != '#')
	for i := 0; i < n; i++ {
		sym.Assume(s[i] > 32)
	}
	return s
}

// noise is an optional line without contents.
func noise(eol string) string {
	switch sym.Choose(5) {
	case 1:
		return eol
	case 2:
		return spaces(1+sym.Choose(3)) + eol
	case 3:
		return "# x" + eol
	case 4:
		return spaces(1+sym.Choose(3)) + "# x" + eol
	}
	return ""
}

// C02Indent: lines of one word, any indentation, with lines without contents
// in between.
func C02Indent() {
	n := sym.Param("n", 3)
	bare := sym.Param("bare", 0) == 1
	eol := "\n"
	base, tail := 0, ""
	if !bare {
		if sym.Choose(2) == 1 {
			eol = "\r\n"
		}
		base = sym.Choose(2)
		tail = spaces(sym.Choose(2))
	}
	var ls []docLine
	s := ""
	for i := 0; i < n; i++ {
		ind := base
		if i > 0 {
			if !bare {
				s += noise(eol)
			}
			ind += sym.Choose(sym.Param("ind", 4))
		}
		w := word(1)
		ls = append(ls, docLine{ind, []string{w}})
		s += spaces(ind) + w
		if i < n-1 || sym.Choose(2) == 1 {
			s += tail + eol
		}
	}
	g := ogdl.FromString(s)
	docTree(ls).same(g, "indentation")
	observe("g", g)
	sym.Reach("indent")
}

// scalar is a word or a one-line quoted string: source and value.
func scalarSrc() (string, string) {
	switch sym.Choose(4) {
	case 0:
		w := word(1 + sym.Choose(2))
		return w, w
	case 1:
		v := sym.Str(1)
		plain(v, '"')
		return "\"" + v + "\"", v
	case 2:
		v := sym.Str(2)
		plain(v, '\'')
		return "'" + v + "'", v
	default:
		v := sym.Str(1)
		plain(v, '`')
		return "`" + v + "`", v
	}
}

// plain: bytes that stand for themselves inside a quoted string.
func plain(v string, q byte) {
	for i := 0; i < len(v); i++ {
		c := v[i]
		sym.Assume(c != q)
		sym.Assume(c != '\\')
		sym.Assume(sym.Or(c >= 32, c == 9))
	}
}

// C02Line: several scalars on a line are nested, a comment ends the line, and
// the next line hangs below the first scalar.
func C02Line() {
	n := sym.Param("n", 2)
	eol := "\n"
	if sym.Choose(2) == 1 {
		eol = "\r\n"
	}
	ind := sym.Choose(2) * 2
	s := ""
	var ls []docLine
	if ind > 0 {
		s = "r" + eol
		ls = append(ls, docLine{0, []string{"r"}})
	}
	s += spaces(ind)
	var el []string
	for i := 0; i < n; i++ {
		if i > 0 {
			s += spaces(1 + sym.Choose(2))
		}
		x, v := scalarSrc()
		s += x
		el = append(el, v)
	}
	ls = append(ls, docLine{ind, el})
	switch sym.Choose(3) {
	case 1:
		s += "  "
	case 2:
		c := sym.Str(2)
		for i := 0; i < 2; i++ {
			sym.Assume(sym.Or(c[i] >= 32, c[i] == 9))
		}
		s += " # " + c
	}
	if d := sym.Choose(4); d > 0 {
		i2 := (d - 1) * 2
		w := word(1)
		s += eol + spaces(i2) + w
		ls = append(ls, docLine{i2, []string{w}})
	}
	g := ogdl.FromString(s)
	docTree(ls).same(g, "line")
	observe("g", g)
	sym.Reach("line")
}

// C02Quoted: the value of a quoted string, with its escapes and line breaks.
func C02Quoted() {
	n := sym.Param("n", 3)
	q := "\"'`"[sym.Choose(3)]
	ind := sym.Choose(3)
	s, v := "", ""
	if ind > 0 {
		s = "r\n" + spaces(ind)
	}
	s += string([]byte{q})
	esc := false
	for i := 0; i < n; i++ {
		switch sym.Choose(6) {
		case 5: // the quote of the other kind, escaped
			sym.Assume(q != '`')
			sym.Assume(!esc)
			s += "\\" + string([]byte{'"' + '\'' - q})
			v += string([]byte{'"' + '\'' - q})
		case 0: // plain
			x := sym.Str(1)
			plain(x, q)
			if esc {
				sym.Assume(x[0] != '"')
				sym.Assume(x[0] != '\'')
				sym.Assume(x[0] != 9)
			}
			s += x
			v += x
			esc = false
		case 1: // the quote, escaped
			sym.Assume(q != '`')
			sym.Assume(!esc)
			s += "\\" + string([]byte{q})
			v += string([]byte{q})
		case 2: // a backslash that escapes nothing
			sym.Assume(!esc)
			s += "\\"
			v += "\\"
			esc = true
		case 3: // line break, indented as the line is
			sym.Assume(!esc)
			s += "\n" + spaces(ind)
			v += "\n"
		case 4: // line break, indented more
			sym.Assume(!esc)
			s += "\n" + spaces(ind+1)
			v += "\n "
		}
	}
	sym.Assume(!esc)
	s += string([]byte{q})
	var ls []docLine
	if ind > 0 {
		ls = append(ls, docLine{0, []string{"r"}})
	}
	ls = append(ls, docLine{ind, []string{v}})
	if sym.Choose(2) == 1 {
		w := word(1)
		s += "\n" + spaces(ind) + w
		ls = append(ls, docLine{ind, []string{w}})
	}
	g := ogdl.FromString(s)
	docTree(ls).same(g, "quoted")
	observe("g", g)
	sym.Reach("quoted")
}

// C02Block: a block is one node holding the following, more indented lines.
func C02Block() {
	n := sym.Param("n", 2)
	eol := "\n"
	if sym.Choose(2) == 1 {
		eol = "\r\n"
	}
	ind := sym.Choose(3)
	s := ""
	var ls []docLine
	if ind > 0 {
		s = "r" + eol
		ls = append(ls, docLine{0, []string{"r"}})
	}
	s += spaces(ind)
	var el []string
	if sym.Choose(2) == 1 {
		w := word(1)
		s += w + " "
		el = append(el, w)
	}
	s += "\\" + eol
	v := ""
	more := 1 + sym.Choose(2)
	for i := 0; i < n; i++ {
		x := sym.Str(2)
		for k := 0; k < 2; k++ {
			sym.Assume(sym.Or(x[k] >= 32, x[k] == 9))
		}
		sym.Assume(x[0] > 32)
		if i > 0 {
			v += "\n"
		}
		v += x
		s += spaces(ind+more) + x
		if i < n-1 {
			s += eol
		}
	}
	el = append(el, v)
	ls = append(ls, docLine{ind, el})
	switch sym.Choose(3) {
	case 1:
		s += eol
	case 2:
		w := word(1)
		i2 := sym.Choose(ind + 1)
		s += eol + spaces(i2) + w
		ls = append(ls, docLine{i2, []string{w}})
	}
	g := ogdl.FromString(s)
	docTree(ls).same(g, "block")
	observe("g", g)
	sym.Reach("block")
}
