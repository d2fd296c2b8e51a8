package h

import (
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C16Text", C16Text)
	reg("C16Nest", C16Nest)
	reg("C16If", C16If)
	reg("C16Loop", C16Loop)
}

// literal is a text of n printable bytes that can stand anywhere in a template.
func literal(n int) string {
	s := sym.Str(n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.And(c != '$', sym.Or(c >= 32, in(c, "\t\n\r"))))
	}
	return s
}

// notPath assumes that s, following a path, is not taken as part of it.
func notPath(s string) {
	if len(s) == 0 {
		return
	}
	c := s[0]
	sym.Assume(sym.And(c < 128, !in(c, ".[({_")))
	sym.Assume(!rng(c, '0', '9'))
	sym.Assume(!rng(c, 'a', 'z'))
	sym.Assume(!rng(c, 'A', 'Z'))
}

// C16Text: literal text is copied, variables are replaced by what they designate.
func C16Text() {
	g := ogdl.New("_")
	v := str(0, 2)
	g.Add("v").Add(v)
	g.Add("w").Add([]byte("b"))
	n := int64(sym.Int(-9, 99))
	g.Add("n").Add(n)
	b := sym.Bool()
	g.Add("b").Add(b)
	d := g.Add("d")
	d.Add("v").Add("dv")
	d.Add("v").Add("dw")
	m := snapshot(g)
	tpl, want := "", ""
	path := false // what precedes is a bare path
	lit := sym.Param("lit", 1)
	for i := 0; i < sym.Param("n", 3); i++ {
		last := path
		path = false
		switch sym.Choose(5) {
		case 0:
			var s string
			if sym.Choose(2) == 0 {
				s = literal(lit)
			} else {
				// what looks like one of the parser's own markers is text too
				mk := []string{"!p", "!e", "!if", "!elseif", "!end", "!else", "!for", "!break", "!t", "!g", "!string", "!s", "\\", "%s", "\r\n"}
				s = mk[sym.Choose(len(mk))]
			}
			if last {
				notPath(s)
			}
			tpl += s
			want += s
		case 1:
			tpl += "$\\"
			want += "$"
		case 2, 3:
			k := sym.Choose(7)
			p := []string{"v", "w", "n", "b", "d.v", "d.v{1}", "nothing"}[k]
			val := []string{v, "b", "", "", "dv", "dw", ""}[k]
			switch k {
			case 2:
				val = refItoa(n)
			case 3:
				val = ctext(b)
			}
			want += val
			switch sym.Choose(3) {
			case 0:
				tpl += "$" + p
				path = true
			case 1:
				tpl += "${" + p + "}"
			case 2:
				tpl += "${ " + p + " }"
			}
		case 4:
			// an expression is silent
			tpl += []string{"$(v+1)", "$( n )", "$(n==1)", "$(nothing)"}[sym.Choose(4)]
		}
	}
	sym.ObserveStr("template", tpl)
	var t *ogdl.Graph
	if sym.Choose(2) == 0 {
		t = ogdl.NewTemplate(tpl)
	} else {
		t = ogdl.NewTemplateFromBytes([]byte(tpl))
	}
	got := string(t.Process(g))
	sym.ObserveStr("out", got)
	sym.Assert(got == want, "output")
	sym.Assert(string(t.Process(g)) == want, "output, second time")
	m.check("template")
	sym.Reach("text")
}

// a template of directives and its meaning
type tn struct {
	k    int
	s    string
	cond []func(*env) bool
	sub  [][]tn
}

type env struct {
	z    string
	x    []string // loop variables
	same bool     // all of the loops have the same one
	v    string   // that one
	p    [3]bool
	list []string
	out  string
}

func (e *env) cur() string {
	if e.same {
		return e.v
	}
	return e.x[len(e.x)-1]
}

// run returns true if a break ends the loop.
func runT(l []tn, e *env) bool {
	for _, n := range l {
		switch n.k {
		case 0:
			e.out += n.s
		case 1:
			e.out += e.z
		case 2:
			e.z = n.s
		case 3:
			e.out += e.cur()
		case 4: // if
			for i, b := range n.sub {
				if i >= len(n.cond) || n.cond[i](e) {
					if runT(b, e) {
						return true
					}
					break
				}
			}
		case 5: // for
			e.x = append(e.x, "")
			for _, it := range e.list {
				e.x[len(e.x)-1] = it
				e.v = it
				if runT(n.sub[0], e) {
					break
				}
			}
			e.x = e.x[:len(e.x)-1]
		case 6:
			return true
		}
	}
	return false
}

type tgen struct {
	left  int
	marks int
	lean  bool
	same  bool // one variable for all of the loops
	conds int
}

// loopVar is the name of the variable of the i-th loop around.
func (t *tgen) loopVar(i int) string {
	if t.same {
		i = 0
	}
	return "xyw"[i : i+1]
}

func (t *tgen) cond(loops int) (string, func(*env) bool) {
	n := 3
	if loops > 0 {
		n = 4
	}
	if t.lean {
		i := t.conds % 3
		t.conds++
		return "pqr"[i : i+1], func(e *env) bool { return e.p[i] }
	}
	switch sym.Choose(n) {
	case 0:
		i := sym.Choose(3)
		return "pqr"[i : i+1], func(e *env) bool { return e.p[i] }
	case 1:
		return "z=='1'", func(e *env) bool { return e.z == "1" }
	case 2:
		return "nothing", func(e *env) bool { return false }
	}
	v := t.loopVar(loops - 1)
	return v + "=='i'", func(e *env) bool { return e.cur() == "i" }
}

// gen is a sequence of up to t.left elements, in a number of loops.
func (t *tgen) gen(loops, depth int) (string, []tn) {
	s := ""
	var l []tn
	for t.left > 0 {
		// 0 ends the sequence
		k := 0
		if t.same {
			k = []int{0, 1, 4, 5, 6, 7}[sym.Choose(6)]
		} else if t.lean {
			k = []int{0, 1, 5, 6, 7}[sym.Choose(5)]
		} else {
			k = sym.Choose(8)
		}
		if k == 0 {
			break
		}
		t.left--
		switch k {
		case 1:
			m := string([]byte{' ', 'A' + byte(t.marks), ' '})
			t.marks++
			s += m
			l = append(l, tn{k: 0, s: m})
		case 2:
			s += "${z}"
			l = append(l, tn{k: 1})
		case 3:
			v := "123"[t.left%3 : t.left%3+1]
			s += "$(z='" + v + "')"
			l = append(l, tn{k: 2, s: v})
		case 4:
			if loops == 0 {
				sym.Assume(false)
			}
			s += "${" + t.loopVar(loops-1) + "}"
			l = append(l, tn{k: 3})
		case 5:
			if depth == 0 {
				sym.Assume(false)
			}
			n := tn{k: 4}
			c, f := t.cond(loops)
			s += "$if(" + c + ")"
			b, ls := t.gen(loops, depth-1)
			s += b
			n.cond = append(n.cond, f)
			n.sub = append(n.sub, ls)
			if t.left > 0 && sym.Choose(2) == 1 {
				t.left--
				c, f := t.cond(loops)
				s += "$elseif(" + c + ")"
				b, ls := t.gen(loops, depth-1)
				s += b
				n.cond = append(n.cond, f)
				n.sub = append(n.sub, ls)
			}
			if sym.Choose(2) == 1 {
				s += "$else"
				b, ls := t.gen(loops, depth-1)
				s += b
				n.sub = append(n.sub, ls)
			}
			s += "$end"
			l = append(l, n)
		case 6:
			if depth == 0 || loops == 3 {
				sym.Assume(false)
			}
			s += "$for(" + t.loopVar(loops) + []string{",", ", "}[t.left%2] + "l)"
			b, ls := t.gen(loops+1, depth-1)
			s += b + "$end"
			l = append(l, tn{k: 5, sub: [][]tn{ls}})
		case 7:
			if loops == 0 {
				sym.Assume(false)
			}
			s += "$break"
			l = append(l, tn{k: 6})
		}
	}
	return s, l
}

func tenv(n int) (*ogdl.Graph, *env) {
	g := ogdl.New("_")
	e := &env{}
	for i := 0; i < 3; i++ {
		e.p[i] = sym.Bool()
		g.Add("pqr"[i : i+1]).Add(e.p[i])
	}
	e.z = "0"
	g.Add("z").Add("0")
	li := g.Add("l")
	for i := 0; i < n; i++ {
		e.list = append(e.list, "ijk"[i:i+1])
		li.Add("ijk"[i : i+1])
	}
	return g, e
}

// C16Nest: every nesting of directives.
func C16Nest() {
	g, e := tenv(2 + sym.Param("same", 0))
	t := &tgen{left: sym.Param("n", 3), lean: sym.Param("lean", 0) == 1, same: sym.Param("same", 0) == 1}
	e.same = t.same
	s, l := t.gen(0, sym.Param("depth", 3))
	sym.ObserveStr("template", s)
	runT(l, e)
	tp := ogdl.NewTemplate(s)
	mt := snapshot(tp)
	got := string(tp.Process(g))
	sym.ObserveStr("out", got)
	sym.Assert(got == e.out, "output")
	mt.check("processing the template")
	sym.Reach("nest")
}

// C16If: chains of if, elseif and else with conditions of every kind, in a loop
// over elements of symbolic contents.
func C16If() {
	g := ogdl.New("_")
	li := g.Add("l")
	n := sym.Choose(4)
	var it []string
	for i := 0; i < n; i++ {
		it = append(it, sym.Str(1))
		li.Add(it[i])
	}
	k := sym.Str(1)
	g.Add("k").Add(k)
	m := int64(sym.Int(0, 9))
	g.Add("m").Add(m)
	tpl := "${k}$for(x,l)<$x$if(x==k)K$elseif( x == 'a' && m > 3)A$elseif(m<=1)$break$else E$end>$end."
	want := k
	for _, x := range it {
		want += "<" + x
		if x == k {
			want += "K"
		} else if x == "a" && m > 3 {
			want += "A"
		} else if m <= 1 {
			break
		} else {
			want += " E"
		}
		want += ">"
	}
	want += "."
	got := string(ogdl.NewTemplate(tpl).Process(g))
	sym.ObserveStr("out", got)
	sym.Assert(got == want, "output")
	sym.Reach("if")
}

// C16Loop: elements with nodes of their own, loops in loops.
func C16Loop() {
	g := ogdl.New("_")
	li := g.Add("l")
	n := sym.Choose(sym.Param("n", 3) + 1)
	want := ""
	for i := 0; i < n; i++ {
		// the element, and what is below it
		nm := []string{"e", "f"}[sym.Choose(2)]
		e := li.Add(nm)
		want += "<"
		in := ""
		for j := sym.Choose(3); j > 0; j-- {
			s := sym.Str(1)
			sym.Assume(rng(s[0], 'a', 'z'))
			e.Add(s)
			if nm == "e" {
				if in == "" {
					want += s
				}
				in += " {" + s + "}"
			}
		}
		want += ":" + in + ">"
	}
	t := []string{"$for(x,l)<$x.e[0]:$for(y,x.e) {$y}$end>$end.$x[0]", "$for(x, l)<${x.e[0]}:$for( y, x.e ) {$y}$end>$end.", "$(i=0)$for(x,l)<$x.e[0]:$(i+=1)$for(y,x.e) {$y}$end>$end.$i"}
	k := sym.Choose(len(t))
	got := string(ogdl.NewTemplate(t[k]).Process(g))
	sym.ObserveStr("out", got)
	switch k {
	case 0:
		// the variable keeps the last element
		want += "."
		if len(got) >= len(want) {
			got = got[:len(want)]
		}
	case 1:
		want += "."
	case 2:
		want += "." + string(rune('0'+n))
	}
	sym.Assert(got == want, "output")
	sym.Reach("loop")
}
