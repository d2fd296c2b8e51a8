package h

import (
	"math"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C13Prec", C13Prec)
	reg("C13Kinds", C13Kinds)
	reg("C13Const", C13Const)
	reg("C13Assign", C13Assign)
	reg("C13Big", C13Big)
	reg("C15Big", C15Big)
	reg("C15Compare", C15Compare)
	reg("C15Logic", C15Logic)
	reg("C14Path", C14Path)
	reg("C14Expr", C14Expr)
	reg("C14Template", C14Template)
	reg("C14Tokens", C14Tokens)
}

// ill is the value of what the property says nothing about.
type ill struct{}

var opList = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||"}

func refPrec(op string) int {
	switch op {
	case "*", "/", "%":
		return 5
	case "+", "-":
		return 4
	case "==", "!=", "<", ">", "<=", ">=":
		return 3
	case "&&":
		return 2
	case "||":
		return 1
	}
	return 0
}

func isNum(v any) bool {
	switch v.(type) {
	case int64, float64:
		return true
	}
	return false
}

func flt(v any) float64 {
	if i, ok := v.(int64); ok {
		return float64(i)
	}
	return v.(float64)
}

// refOp2 is the value of a op b for int64, float64, bool and string values.
func refOp2(a any, op string, b any) any {
	if _, bad := a.(ill); bad {
		return a
	}
	if _, bad := b.(ill); bad {
		return b
	}
	p := refPrec(op)
	if p >= 4 {
		x, ok := a.(int64)
		y, ok2 := b.(int64)
		if ok && ok2 {
			switch op {
			case "+":
				return x + y
			case "-":
				return x - y
			case "*":
				return x * y
			case "/":
				if y == 0 {
					return float64(x) / float64(y)
				}
				return x / y
			case "%":
				if y == 0 {
					return math.NaN()
				}
				return x % y
			}
		}
		if isNum(a) && isNum(b) {
			f, g := flt(a), flt(b)
			switch op {
			case "+":
				return f + g
			case "-":
				return f - g
			case "*":
				return f * g
			case "/":
				return f / g
			}
			return ill{}
		}
		s, ok := a.(string)
		t, ok2 := b.(string)
		if ok && ok2 && op == "+" {
			return s + t
		}
		return ill{}
	}
	if p == 3 {
		x, ok := a.(int64)
		y, ok2 := b.(int64)
		if ok && ok2 {
			switch op {
			case "==":
				return x == y
			case "!=":
				return x != y
			case "<":
				return x < y
			case ">":
				return x > y
			case "<=":
				return x <= y
			}
			return x >= y
		}
		f, ok := a.(float64)
		if ok && isNum(b) {
			g := flt(b)
			switch op {
			case "==":
				return f == g
			case "!=":
				return f != g
			case "<":
				return f < g
			case ">":
				return f > g
			case "<=":
				return f <= g
			}
			return f >= g
		}
		s, ok := a.(string)
		t, ok2 := b.(string)
		if ok && ok2 {
			switch op {
			case "==":
				return s == t
			case "!=":
				return s != t
			}
		}
		return ill{}
	}
	x, ok := a.(bool)
	y, ok2 := b.(bool)
	if ok && ok2 {
		if op == "&&" {
			return sym.And(x, y)
		}
		return sym.Or(x, y)
	}
	return ill{}
}

// refExpr evaluates v0 op0 v1 op1 v2 ... by precedence, from the left.
func refExpr(v []any, ops []string) any {
	vals := append([]any{}, v...)
	os := append([]string{}, ops...)
	for p := 5; p > 0; p-- {
		for i := 0; i < len(os); {
			if refPrec(os[i]) != p {
				i++
				continue
			}
			vals[i] = refOp2(vals[i], os[i], vals[i+1])
			vals = append(vals[:i+1], vals[i+2:]...)
			os = append(os[:i], os[i+1:]...)
		}
	}
	return vals[0]
}

func refUnary(u string, v any) any {
	switch u {
	case "!":
		if b, ok := v.(bool); ok {
			return !b
		}
		return ill{}
	case "-":
		if i, ok := v.(int64); ok {
			return -i
		}
		if f, ok := v.(float64); ok {
			return 0 - f
		}
		return ill{}
	}
	return v
}

// sameVal asserts that a result has the type and value expected.
func sameVal(got, want any, what string) {
	switch w := want.(type) {
	case int64:
		v, ok := got.(int64)
		sym.Assert(ok && v == w, what+": integer value")
		sym.Reach("integer")
	case float64:
		v, ok := got.(float64)
		if !ok {
			sym.Fail(what + ": float expected")
		}
		sym.Assert(sym.Or(v == w, sym.And(v != v, w != w)), what+": float value")
		sym.Reach("float")
	case bool:
		v, ok := got.(bool)
		sym.Assert(ok && v == w, what+": boolean value")
		sym.Reach("bool")
	case string:
		v, ok := text(got)
		sym.Assert(ok && v == w, what+": text")
		sym.Reach("text")
	default:
		sym.Fail(what + ": no value expected")
	}
}

// operand is one operand: its text and value; variables are added to the context.
func operand(g *ogdl.Graph, i, kinds int) (string, any) {
	nm := "abcd"[i : i+1]
	switch sym.Choose(kinds) {
	case 0:
		v := sym.Int64()
		g.Add(nm).Add(v)
		return nm, v
	case 1:
		v := sym.Bool()
		g.Add(nm).Add(v)
		return nm, v
	case 2:
		v := sym.Float64()
		sym.Assume(v == v)
		g.Add(nm).Add(v)
		return nm, v
	case 3:
		c := sym.Byte()
		sym.Assume(rng(c, '0', '9'))
		return string([]byte{c}), int64(c - '0')
	}
	return nm, nil
}

// C13Prec: precedence, associativity, grouping and unary operators.
func C13Prec() {
	n := sym.Param("n", 3)
	kinds := sym.Param("kinds", 2)
	g := ogdl.New("_")
	var txt []string
	var vals []any
	var ops []string
	// in long expressions, a few operators of each level, and the kinds that they need
	long := sym.Param("long", 0)
	list := opList
	if long == 1 {
		list = []string{"*", "+", "-", "<", "==", "&&", "||"}
		for i := 1; i < n; i++ {
			ops = append(ops, list[sym.Choose(len(list))])
		}
	}
	logical := func(i int) bool {
		return i < 0 || i >= len(ops) || ops[i] == "&&" || ops[i] == "||"
	}
	for i := 0; i < n; i++ {
		if long == 1 {
			t := "abcdefg"[i : i+1]
			var v any
			if logical(i-1) && logical(i) {
				v = sym.Bool()
			} else {
				v = sym.Int64()
			}
			g.Add(t).Add(v)
			txt = append(txt, t)
			vals = append(vals, v)
			continue
		}
		t, v := operand(g, i, kinds)
		if sym.Param("unary", 0) == 1 {
			switch v.(type) {
			case bool:
				if sym.Choose(2) == 1 {
					t, v = "!"+t, refUnary("!", v)
				}
			default:
				u := 2
				if i == 1 {
					u = 3
				}
				switch sym.Choose(u) {
				case 1:
					t, v = "-"+t, refUnary("-", v)
				case 2:
					t = "+" + t
				}
			}
		}
		txt = append(txt, t)
		vals = append(vals, v)
		if i > 0 {
			ops = append(ops, opList[sym.Choose(len(opList))])
		}
	}
	gap := ""
	if long == 0 && sym.Choose(2) == 1 {
		gap = " "
	}
	// an optional group, with an optional operator before it
	v2, o2 := vals, ops
	lo, hi := 0, 0
	pre := ""
	if sym.Param("group", 1) == 1 {
		lo = sym.Choose(n - 1)
		hi = lo + sym.Choose(n-lo)
		if hi > lo {
			if long == 0 {
				pre = []string{"", "-", "!"}[sym.Choose(3)]
			}
			x := refUnary(pre, refExpr(vals[lo:hi+1], ops[lo:hi]))
			v2 = append([]any{}, vals[:lo]...)
			v2 = append(v2, x)
			v2 = append(v2, vals[hi+1:]...)
			o2 = append([]string{}, ops[:lo]...)
			o2 = append(o2, ops[hi:]...)
		}
	}
	want := refExpr(v2, o2)
	if _, bad := want.(ill); bad {
		return
	}
	s := ""
	for i := range txt {
		if hi > lo && i == lo {
			s += pre + "(" + gap
		}
		s += txt[i]
		if hi > lo && i == hi {
			s += gap + ")"
		}
		if i < len(ops) {
			s += gap + ops[i] + gap
		}
	}
	sym.ObserveStr("expr", s)
	m := snapshot(g)
	got, err := g.Eval(ogdl.NewExpression(s))
	sym.Assert(err == nil, "error")
	sameVal(got, want, s)
	m.check("expression without assignment")
}

// native is a context value of one of the native kinds and its normalized form.
func native(kinds int) (any, any) {
	switch sym.Choose(kinds) {
	case 0:
		v := sym.Int64()
		return v, v
	case 1:
		v := sym.Float64()
		return v, v
	case 2:
		s := str(0, 1)
		return s, s
	case 3:
		s := str(1, 1)
		return []byte(s), s
	case 4:
		v := sym.Bool()
		return v, v
	case 5:
		v := sym.Int64()
		return int(v), v
	case 6:
		v := int32(sym.Int64())
		return v, int64(v)
	case 7:
		v := sym.Byte()
		return v, int64(v)
	case 8:
		v := uint32(sym.Int64())
		return v, int64(v)
	case 9:
		v := sym.Int64()
		sym.Assume(v >= 0)
		return uint64(v), v
	case 10:
		return float32(0.5), 0.5
	}
	return nil, ""
}

// C13Kinds: arithmetic on all native kinds.
func C13Kinds() {
	g := ogdl.New("_")
	x, a := native(11)
	y, b := native(11)
	g.Add("x").Add(x)
	g.Add("y").Add(y)
	k := sym.Choose(5)
	op := opList[k]
	want := refOp2(a, op, b)
	if _, bad := want.(ill); bad {
		return
	}
	got, err := g.Eval(ogdl.NewExpression("x" + op + "y"))
	sym.Assert(err == nil, "error")
	sameVal(got, want, "x"+op+"y")
}

// C13Const: constants, as they are written.
func C13Const() {
	g := ogdl.New("_")
	v := int64(sym.Int(-99, 99))
	g.Add("a").Add(v)
	op := opList[sym.Choose(11)]
	var s string
	var w any
	switch sym.Choose(6) {
	case 0: // integers
		n := 1 + sym.Choose(3)
		d := sym.Str(n)
		x := int64(0)
		for i := 0; i < n; i++ {
			sym.Assume(rng(d[i], '0', '9'))
			x = x*10 + int64(d[i]-'0')
		}
		s, w = d, x
	case 1:
		d := sym.Str(1)
		sym.Assume(rng(d[0], '0', '9'))
		s, w = "-"+d, -int64(d[0]-'0')
	case 2:
		k := sym.Choose(5)
		s = []string{"1.5", "0.25", "-2.5", "10.0", "9223372036854775807"}[k]
		w = []any{1.5, 0.25, -2.5, 10.0, int64(math.MaxInt64)}[k]
	case 3: // strings
		q := "\"'"[sym.Choose(2)]
		t := str(0, 2)
		plain(t, q)
		s = string([]byte{q}) + t + string([]byte{q})
		w = t
		// against a text
		g.Clear()
		c := str(0, 2)
		g.Add("a").Add(c)
		op = []string{"==", "!=", "+"}[sym.Choose(3)]
		want := refOp2(c, op, t)
		got, err := g.Eval(ogdl.NewExpression("a" + op + s))
		sym.Assert(err == nil, "error")
		sameVal(got, want, "a"+op+"constant")
		got, err = g.Eval(ogdl.NewExpression(s + op + "a"))
		sym.Assert(err == nil, "error")
		sameVal(got, refOp2(t, op, c), "constant"+op+"a")
		sym.Reach("string")
		return
	case 4:
		d := sym.Str(1)
		sym.Assume(rng(d[0], '0', '9'))
		s, w = "- "+d, -int64(d[0]-'0')
		op = opList[sym.Choose(11)] + " "
	case 5:
		d := sym.Str(1)
		sym.Assume(rng(d[0], '0', '9'))
		s, w = "+"+d, int64(d[0]-'0')
	}
	o := op
	if o[len(o)-1] == ' ' {
		o = o[:len(o)-1]
	}
	want := refOp2(v, o, w)
	if _, bad := want.(ill); bad {
		return
	}
	if f, ok := w.(float64); ok && refPrec(o) == 3 {
		// an integer is compared with the integer part
		want = refOp2(v, o, int64(f))
	}
	got, err := g.Eval(ogdl.NewExpression("a" + op + s))
	sym.Assert(err == nil, "error")
	sameVal(got, want, "a"+op+"constant")
	// the constant first
	if s[0] >= '0' && s[0] <= '9' {
		want = refOp2(w, o, v)
		if _, bad := want.(ill); bad {
			return
		}
		got, err = g.Eval(ogdl.NewExpression(s + op + "a"))
		sym.Assert(err == nil, "error")
		sameVal(got, want, "constant"+op+"a")
	}
}

// C13Assign: assignments store in the context, and only there.
func C13Assign() {
	g := ogdl.New("_")
	x := sym.Int64()
	y := sym.Int64()
	old := sym.Int64()
	g.Add("x").Add(x)
	g.Add("y").Add(y)
	// the variable assigned to exists, or not
	var st []step
	var p string
	exists := sym.Choose(2) == 1
	switch sym.Choose(3) {
	case 0:
		p, st = "v", []step{{name: "v"}}
		if exists {
			g.Add("v").Add(old)
		}
	case 1:
		p, st = "v.w", []step{{name: "v"}, {name: "w"}}
		if exists {
			g.Add("v").Add("w").Add(old)
		} else if sym.Choose(2) == 1 {
			g.Add("v").Add("u")
		}
	case 2:
		p, st = "v[1]", []step{{name: "v"}, {kind: 1, i: 1}}
		v := g.Add("v")
		v.Add("u")
		if exists {
			v.Add(old)
		}
	}
	m := snapshot(g)
	k := sym.Choose(6)
	op := []string{"=", "+=", "-=", "*=", "/=", "%="}[k]
	r := sym.Choose(3)
	rhs := []string{"x+y*3", "x", "(x-y)*2 "}[r]
	v := []int64{x + y*3, x, (x - y) * 2}[r]
	gap := ""
	if sym.Choose(2) == 1 {
		gap = " "
	}
	if k > 3 {
		sym.Assume(v != 0) // see C13Prec
	}
	var want any = v
	if exists && k > 0 {
		want = refOp2(old, op[:1], v)
	} else {
		switch k {
		case 2:
			want = -v
		case 3, 4, 5:
			// no claim about what has no previous value
			g.Eval(ogdl.NewExpression(p + gap + op + gap + rhs))
			sym.Reach("novalue")
			return
		}
	}
	setM(m, st, want)
	g.Eval(ogdl.NewExpression(p + gap + op + gap + rhs))
	// NaN does not equal itself
	if f, ok := want.(float64); !ok || f == f {
		m.bind(g, p+op+rhs)
	}
	sym.Reach("assigned")
}

// truncInt is the integer a value converts to.
func truncInt(v any) (int64, bool) {
	switch x := v.(type) {
	case int64:
		return x, true
	case float64:
		return int64(x), true
	case string:
		return refInt(x)
	}
	return 0, false
}

// C15Compare: comparison of any two kinds.
func C15Compare() {
	g := ogdl.New("_")
	x, a := native(12)
	y, b := native(12)
	switch a.(type) {
	case int64, float64:
	default:
		// the text of floats is out of reach
		if _, ok := b.(float64); ok {
			y = 1.5
		}
	}
	if x != nil {
		g.Add("x").Add(x)
	}
	if y != nil {
		g.Add("y").Add(y)
	}
	// floats in the range of integers when they are to be truncated
	_, ia := a.(int64)
	fa, isfa := a.(float64)
	if fb, ok := b.(float64); ok && ia {
		sym.Assume(fb > -1e15 && fb < 1e15)
	}
	cmp := func(op string) bool {
		v, err := g.Eval(ogdl.NewExpression("x" + op + "y"))
		r, ok := v.(bool)
		sym.Assert(err == nil && ok, "comparison: not a boolean")
		return r
	}
	eq, ne, lt, gt, le, ge := cmp("=="), cmp("!="), cmp("<"), cmp(">"), cmp("<="), cmp(">=")
	switch {
	case ia:
		n, ok := truncInt(b)
		if !ok {
			sym.Assert(!eq && !ne && !lt && !gt && !le && !ge, "comparison of a number with something else")
			sym.Reach("incomparable")
			return
		}
		i := a.(int64)
		sym.Assert(eq == (i == n) && ne == (i != n), "integers: equality")
		sym.Assert(lt == (i < n) && gt == (i > n) && le == (i <= n) && ge == (i >= n), "integers: order")
		sym.Reach("integers")
	case isfa:
		var f float64
		switch v := b.(type) {
		case int64:
			f = float64(v)
		case float64:
			f = v
		case string:
			n, ok := refInt(v)
			if !ok {
				sym.Assert(!eq && !ne && !lt && !gt && !le && !ge, "comparison of a number with something else")
				sym.Reach("incomparable")
				return
			}
			f = float64(n)
		default:
			sym.Assert(!eq && !ne && !lt && !gt && !le && !ge, "comparison of a number with something else")
			sym.Reach("incomparable")
			return
		}
		sym.Assert(eq == (fa == f) && ne == (fa != f), "floats: equality")
		sym.Assert(lt == (fa < f) && gt == (fa > f) && le == (fa <= f) && ge == (fa >= f), "floats: order")
		sym.Reach("floats")
	default:
		sym.Assert(!lt && !gt && !le && !ge, "order of what is not a number")
		sym.Assert(eq != ne, "texts: equality and inequality")
		s, t := vtext(a), ""
		switch y.(type) {
		case int64, int, int32, uint8, uint32, uint64, float64, float32:
			// only short texts can be equal to a number's
			return
		default:
			t = vtext(b)
		}
		sym.Assert(eq == (s == t), "texts: equality")
		sym.Reach("texts")
	}
}

func vtext(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return ""
}

// C15Logic: truth tables over everything that is or is not a boolean.
func C15Logic() {
	g := ogdl.New("_")
	mk := func(nm string) (bool, bool) {
		var v any
		var b, ok bool
		switch sym.Choose(7) {
		case 0:
			b, ok = sym.Bool(), true
			v = b
		case 1:
			n := sym.Int64()
			v, b, ok = n, n != 0, true
		case 2:
			n := int(sym.Int64())
			v, b, ok = n, n != 0, true
		case 3:
			s := "tru" + sym.Str(1)
			v, b, ok = s, true, s == "true"
		case 4:
			s := "fals" + sym.Str(1)
			v, b, ok = []byte(s), false, s == "false"
		case 5:
			v = sym.Float64()
		case 6:
			return false, false
		}
		g.Add(nm).Add(v)
		return b, ok
	}
	a, oka := mk("x")
	b, okb := mk("y")
	ok := sym.And(oka, okb)
	and, err := g.Eval(ogdl.NewExpression("x&&y"))
	v, isb := and.(bool)
	sym.Assert(err == nil && isb && v == sym.And(ok, sym.And(a, b)), "and")
	or, err := g.Eval(ogdl.NewExpression("x || y"))
	v, isb = or.(bool)
	sym.Assert(err == nil && isb && v == sym.And(ok, sym.Or(a, b)), "or")
	not, err := g.Eval(ogdl.NewExpression("!x"))
	v, isb = not.(bool)
	sym.Assert(err == nil && isb && v == !sym.And(oka, a), "not")
	sym.Reach("logic")
}

// context is a graph to evaluate things in.
func context() *ogdl.Graph {
	g := ogdl.New("_")
	if sym.Param("empty", 0) == 1 && sym.Choose(2) == 1 {
		return g
	}
	if sym.Param("wide", 0) == 1 {
		g.Add("a").Add(sym.Int64())
	} else {
		g.Add("a").Add(int64(sym.Int(-1, 9)))
	}
	g.Add("b").Add("a")
	c := g.Add("c")
	c.Add("d").Add("x")
	c.Add("d")
	c.Add("e").Add(1.5)
	g.Add("1").Add([]byte("y"))
	return g
}

// anyText is a text of up to n bytes, of any bytes or of ASCII only.
func anyText() string {
	s := str(0, sym.Param("n", 2))
	if sym.Param("ascii", 0) == 1 {
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 128)
		}
	}
	return s
}

// C14Path: any bytes as a path.
func C14Path() {
	s := anyText()
	if p := sym.Param("prefix", 0); p > 0 {
		pre := []string{"", "a", "c.", "a[", "c.d{", "a(", "a.(", "(", "'"}
		s = pre[sym.Choose(len(pre))] + s
	}
	g := context()
	switch sym.Choose(5) {
	case 0:
		g.Get(s).String()
	case 1:
		g.Eval(ogdl.NewPath(s))
	case 2:
		g.Set(s, sym.Byte())
		g.Text()
		g.Get(s).Text()
	case 3:
		g.GetString(s)
		g.GetInt64(s)
		g.GetBool(s)
		g.GetFloat64(s)
		g.GetBytes(s)
	case 4:
		g.GetAt(2).Get(s)
		g.Sort(s)
	}
	sym.Reach("path")
}

// C14Expr: any bytes as an expression.
func C14Expr() {
	s := anyText()
	if p := sym.Param("prefix", 0); p > 0 {
		pre := []string{"", "a+", "-", "(", "a=", "a/", "a%(", "c[", "'"}
		s = pre[sym.Choose(len(pre))] + s
	}
	g := context()
	e := ogdl.NewExpression(s)
	g.Eval(e)
	g.Eval(e)
	sym.Reach("expression")
}

// C14Template: any bytes as a template.
func C14Template() {
	s := anyText()
	if p := sym.Param("prefix", 0); p > 0 {
		pre := []string{"$", "$(", "${", "$if(", "$for(", "$if(a)$else", "$for(x,c)$", "$end", "$for(a,a)$x$", "$if(a==1)$"}
		s = pre[sym.Choose(len(pre))] + s
	}
	g := context()
	var t *ogdl.Graph
	if sym.Choose(2) == 0 {
		t = ogdl.NewTemplate(s)
	} else {
		t = ogdl.NewTemplateFromBytes([]byte(s))
	}
	t.Process(g)
	t.Process(g)
	t.Process(nil)
	g.Text()
	sym.Reach("template")
}

var tokens = []string{"a", "c", "x", "1", "1.5", "'s'", "(", ")", "[", "]", "{", "}", ".", ",", "+", "-", "*", "/", "%", "!", "=", "==", "+=", "<", "&&", " ", "_len", "\\"}
var ttokens = []string{"$a", "$c.d", "$(a", ")", "$if(", "a", "$if(a)", "$elseif(", "$else", "$end", "$for(", "$for(x,c)", "x", ",", "$x", "$break", "$", "\\", "{", "}", "(", "[0]", "/0", "text"}

// C14Tokens: any sequence of tokens.
func C14Tokens() {
	s := ""
	n := sym.Param("n", 3)
	kind := sym.Choose(3)
	l := tokens
	if kind == 2 {
		l = ttokens
	}
	for i := 0; i < n; i++ {
		s += l[sym.Choose(len(l))]
	}
	g := context()
	switch kind {
	case 0:
		g.Eval(ogdl.NewExpression(s))
		sym.Reach("expression")
	case 1:
		g.Get(s)
		g.Eval(ogdl.NewPath(s))
		g.Set(s, "v")
		sym.Reach("path")
	case 2:
		t := ogdl.NewTemplate(s)
		t.Process(g)
		t.Process(g)
		sym.Reach("template")
	}
	g.Text()
}

// big is an integer near a power of two or a limit.
func big() int64 {
	b := []int64{0, 1 << 31, 1 << 53, -(1 << 53), 1 << 62, math.MaxInt64 - 3, math.MinInt64 + 3}[sym.Choose(7)]
	return b + int64(sym.Int(-3, 3))
}

// C15Big: comparison of integers that floats cannot tell apart.
func C15Big() {
	g := ogdl.New("_")
	a, b := big(), big()
	g.Add("x").Add(a)
	y := any(b)
	if sym.Choose(2) == 1 {
		y = int(b)
	}
	g.Add("y").Add(y)
	for i, op := range []string{"==", "!=", "<", ">", "<=", ">="} {
		v, err := g.Eval(ogdl.NewExpression("x" + op + "y"))
		r, ok := v.(bool)
		sym.Assert(err == nil && ok, "comparison: not a boolean")
		sym.Assert(r == []bool{a == b, a != b, a < b, a > b, a <= b, a >= b}[i], "comparison of "+op)
	}
	sym.Reach("integers")
}

// C13Big: arithmetic on integers that floats cannot hold, and assignment.
func C13Big() {
	g := ogdl.New("_")
	a, b := big(), big()
	g.Add("x").Add(a)
	g.Add("y").Add(b)
	op := []string{"+", "-", "*", "/", "%"}[sym.Choose(5)]
	if op == "*" {
		// one of them is small: products of two large ones are out of reach
		sym.Assume(sym.Or(sym.And(b > -8, b < 8), sym.And(a > -8, a < 8)))
	}
	if op == "/" || op == "%" {
		sym.Assume(sym.And(b != 0, sym.Or(b != -1, a != math.MinInt64)))
	}
	var w int64
	switch op {
	case "+":
		w = a + b
	case "-":
		w = a - b
	case "*":
		w = a * b
	case "/":
		w = a / b
	case "%":
		w = a % b
	}
	if sym.Choose(2) == 0 {
		v, err := g.Eval(ogdl.NewExpression("x" + op + "y"))
		sym.Assert(err == nil, "error")
		sameVal(v, w, "x"+op+"y")
		return
	}
	_, err := g.Eval(ogdl.NewExpression("x" + op + "=y"))
	sym.Assert(err == nil, "error")
	v, ok := g.Get("x").Interface().(int64)
	sym.Assert(ok && v == w, "x"+op+"=y")
	sym.Reach("integer")
}
