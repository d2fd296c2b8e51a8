package h

import (
	"strconv"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C04RoundTrip", C04RoundTrip)
	reg("C04Long", C04Long)
	reg("C04Native", C04Native)
	reg("C04Leaf", C04Leaf)
	reg("C04Shape", C04Shape)
	reg("C05Scalar", C05Scalar)
	reg("C05Limits", C05Limits)
	reg("C05Shape", C05Shape)
}

// plainWord: a content that is a word in OGDL text.
func plainWord(n int) string {
	s := sym.Str(n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(c > 32)
		sym.Assume(!in(c, "'\",()`\\"))
	}
	return s
}

// printable: any text that OGDL text can hold in a quoted string.
func printable(n int) string {
	s := sym.Str(n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.Or(c >= 32, sym.Or(c == '\n', c == '\t')))
		sym.Assume(c != '\\')
	}
	return s
}

// C04RoundTrip: print and parse.
func C04RoundTrip() {
	l := sym.Param("l", 2)
	t := mkTree(sym.Param("n", 3), func(i, lev, prev int) (string, bool) {
		if lev == 1 {
			return plainWord(1 + sym.Choose(2)), false
		}
		return printable(1 + sym.Choose(l)), false
	})
	g := t.graph()
	s := g.Text()
	sym.ObserveStr("text", s)
	t.same(ogdl.FromString(s), "print and parse")
	// a single word prints as itself
	if len(t.k) == 1 && len(t.k[0].k) == 0 {
		sym.Assert(s == t.k[0].s, "a single word does not print as itself")
	}
	sym.Reach("print")
}

// C04Shape: print and parse larger trees, with contents of a few kinds.
func C04Shape() {
	t := mkTree(sym.Param("n", 5), func(i, lev, prev int) (string, bool) {
		w := plainWord(1)
		if lev == 1 {
			return w, false
		}
		switch sym.Choose(4) {
		case 0:
			return w + " b", false
		case 1:
			return w + "\n  c\n\nd", false
		case 2:
			return "\"" + w + "\"", false
		}
		return w, false
	})
	s := t.graph().Text()
	sym.ObserveStr("text", s)
	t.same(ogdl.FromString(s), "print and parse")
	sym.Reach("shape")
}

// C04Leaf: the text of a graph that holds a single value is that value, and a node shows
// as the text of a graph that holds it.
func C04Leaf() {
	s := str(0, sym.Param("l", 4))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\r')
	}
	k := len(s)
	if k > 1 {
		sym.Assume(sym.Or(s[0] != '"', s[k-1] != '"'))
	}
	g := ogdl.New("_")
	if sym.Choose(2) == 0 {
		g.Add(s)
	} else {
		g.Add([]byte(s))
	}
	sym.Assert(g.Text() == s, "the text of a single value")
	n := ogdl.New(s)
	if k == 0 {
		s = "_"
	}
	sym.Assert(n.Show() == s, "what a leaf shows")
	if k > 0 && sym.Choose(2) == 1 {
		n.Add("a").Add("b c")
		n.Add("d")
		r := ogdl.New("r")
		r.Add(n)
		sym.Assert(n.Show() == r.Text(), "what a node shows")
	}
	sym.Reach("leaf")
}

// C04Long: longer texts and deeper nodes, with special characters anywhere.
func C04Long() {
	d := 1 + sym.Choose(sym.Param("depth", 3))
	root := &T{}
	p := root
	for i := 0; i < d; i++ {
		k := &T{s: "n"}
		p.k = append(p.k, k)
		p = k
	}
	s := ""
	for i := 0; i < sym.Param("parts", 3); i++ {
		switch sym.Choose(4) {
		case 0:
			s += "\n"
		case 1:
			s += " "
		case 2:
			s += "w" + printable(1)
		case 3:
			s += printable(1) + "\""
		}
	}
	leaf := &T{s: s}
	p.k = append(p.k, leaf)
	if sym.Choose(2) == 1 {
		leaf.k = append(leaf.k, &T{s: printable(1)})
	}
	if sym.Choose(2) == 1 {
		p.k = append(p.k, &T{s: printable(1)})
	}
	x := root.graph().Text()
	sym.ObserveStr("text", x)
	root.same(ogdl.FromString(x), "print and parse")
	sym.Reach("long")
}

// C04Native: contents of other types print as their text.
func C04Native() {
	var v any
	want := ""
	switch sym.Choose(5) {
	case 0:
		n := sym.Int64()
		sym.Assume(n > -100000 && n < 100000)
		v = n
		want = refItoa(n)
	case 1:
		n := sym.Int(-9999, 9999)
		v = n
		want = refItoa(int64(n))
	case 2:
		b := sym.Bool()
		v = b
		want = "false"
		if b {
			want = "true"
		}
	case 3:
		v = []byte("x y")
		want = "x y"
	case 4:
		v = 2.5
		want = "2.5"
	}
	g := ogdl.New("_")
	a := g.Add("a")
	a.Add(v).Add("z")
	r := ogdl.FromString(g.Text())
	t := &T{k: []*T{{s: "a", k: []*T{{s: want, k: []*T{{s: "z"}}}}}}}
	t.same(r, "native contents")
	sym.Reach("native")
}

// refInt is the value of a decimal integer, with optional sign.
func refInt(s string) (int64, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	var v int64
	for i := 0; i < len(s); i++ {
		if !rng(s[i], '0', '9') {
			return 0, false
		}
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

// checkScalar: the typed value of an unquoted scalar s.
func checkScalar(v any, s string, what string) {
	if n, ok := refInt(s); ok {
		x, is := v.(int64)
		sym.Assert(is, what+": an integer is not an int64")
		sym.Assert(x == n, what+": value of an integer")
		sym.Reach("int")
		return
	}
	if s == "true" || s == "false" {
		x, is := v.(bool)
		sym.Assert(is && x == (s == "true"), what+": boolean")
		sym.Reach("bool")
		return
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		x, is := v.(float64)
		sym.Assert(is, what+": a number is not a float64")
		sym.Assert(x == f || (x != x && f != f), what+": value of a number")
		sym.Reach("float")
		return
	}
	x, is := v.(string)
	sym.Assert(is, what+": a text is not a string")
	sym.Assert(x == s, what+": text differs")
	sym.Reach("text")
}

// C05Scalar: the type and value of any short unquoted scalar.
func C05Scalar() {
	n := 1 + sym.Choose(sym.Param("n", 4))
	s := word(n)
	if sym.Choose(2) == 1 {
		s = "tru" + word(1)
		if sym.Choose(2) == 1 {
			s = "fals" + word(1)
		}
	}
	src := s
	switch sym.Choose(3) {
	case 1:
		src = s + "\n"
	case 2:
		src = s + " x"
	}
	g := ogdl.FromStringTypes(src)
	if g == nil || len(g.Out) != 1 {
		sym.Fail("typed scalar: one node expected")
		return
	}
	checkScalar(g.Out[0].This, s, "typed scalar")
	sym.Reach("scalar")
}

// C05Limits: integers around the limits of int64.
func C05Limits() {
	base := []string{"922337203685477580", "-922337203685477580", "1844674407370955161", "+92233720368547758", "00000000000000000000"}
	s := base[sym.Choose(len(base))]
	d := sym.Byte()
	sym.Assume(rng(d, '0', '9'))
	s += string([]byte{d})
	g := ogdl.FromStringTypes("k " + s)
	v := g.Out[0].Out[0].This
	n, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		x, is := v.(int64)
		sym.Assert(is && x == n, "limits: integer")
		// the decimal form gives the digits back
		sym.Reach("in")
	} else {
		_, is := v.(float64)
		sym.Assert(is, "limits: a number beyond int64 is a float64")
		sym.Reach("out")
	}
	over := false
	switch s[:18] {
	case "922337203685477580":
		over = d > '7'
	case "-92233720368547758":
		over = d > '8'
	case "184467440737095516":
		over = true
	}
	sym.Assert(over == (err != nil), "limits: range")
	sym.Reach("limits")
}

// C05Shape: same shape with and without type detection; quoted stays text.
func C05Shape() {
	var ls []docLine
	s := ""
	type q struct {
		v    string
		quot bool
	}
	var all []q
	n := sym.Param("n", 2)
	blk := false
	for i := 0; i < n; i++ {
		ind := 0
		if i > 0 && !blk {
			ind = sym.Choose(2) * i
		}
		blk = false
		s += spaces(ind)
		switch sym.Choose(4) {
		case 0:
			w := word(1)
			s += "k " + w
			all = append(all, q{"k", false}, q{w, false})
			ls = append(ls, docLine{ind, []string{"k", w}})
		case 1:
			v := sym.Str(2)
			plain(v, '"')
			s += "\"" + v + "\""
			all = append(all, q{v, true})
			ls = append(ls, docLine{ind, []string{v}})
		case 2:
			blk = true
			v := word(1)
			s += "b \\\n" + spaces(ind+1) + v + "1"
			all = append(all, q{"b", false}, q{v + "1", true})
			ls = append(ls, docLine{ind, []string{"b", v + "1"}})
		case 3:
			v := sym.Str(1)
			plain(v, '\'')
			w := word(2)
			s += "'" + v + "' " + w
			all = append(all, q{v, true}, q{w, false})
			ls = append(ls, docLine{ind, []string{v, w}})
		}
		s += "\n"
	}
	g := ogdl.FromStringTypes(s)
	u := ogdl.FromString(s)
	docTree(ls).same(u, "untyped")
	k := 0
	var rec func(a, b *ogdl.Graph)
	rec = func(a, b *ogdl.Graph) {
		if len(a.Out) != len(b.Out) {
			sym.Fail("type detection changes the shape")
			return
		}
		for i := range a.Out {
			x := a.Out[i]
			e := all[k]
			k++
			if e.quot {
				t, is := x.This.(string)
				sym.Assert(is, "a quoted scalar or block changed its type")
				sym.Assert(t == e.v, "a quoted scalar or block changed its text")
			} else {
				checkScalar(x.This, e.v, "typed scalar")
			}
			rec(x, b.Out[i])
		}
	}
	rec(g, u)
	sym.Reach("shape")
}
