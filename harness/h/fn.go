package h

import (
	"errors"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C24Func", C24Func)
	reg("C24Graph", C24Graph)
	reg("C24Remote", C24Remote)
	reg("C24Method", C24Method)
	reg("C19Check", C19Check)
	reg("C19Deep", C19Deep)
}

// arg is an argument: its text and its value; nil when it has none.
func arg(g *ogdl.Graph, i int) (string, any) {
	nm := "abcd"[i : i+1]
	switch sym.Choose(9) {
	case 0:
		v := sym.Int64()
		g.Add(nm).Add(v)
		return nm, v
	case 1:
		v := sym.Float64()
		sym.Assume(v == v)
		g.Add(nm).Add(v)
		return nm, v
	case 2:
		v := sym.Bool()
		g.Add(nm).Add(v)
		return nm, v
	case 3:
		v := str(0, 1)
		g.Add(nm).Add(v)
		return nm, v
	case 4:
		v := str(0, 1)
		plain(v, '\'')
		return "'" + v + "'", v
	case 5:
		d := sym.Byte()
		sym.Assume(rng(d, '0', '9'))
		return string([]byte{d}), int64(d - '0')
	case 6:
		v := sym.Int64()
		g.Add(nm).Add(v)
		return nm + "*2-" + nm, v*2 - v
	case 7:
		return nm, nil // missing
	}
	return "1.5", 1.5
}

func sep() string {
	return []string{",", " , "}[sym.Choose(2)]
}

func zero(w any) any {
	switch w.(type) {
	case int64:
		return int64(0)
	case float64:
		return 0.0
	case bool:
		return false
	}
	return ""
}

// C24Func: functions of fixed signatures.
func C24Func() {
	g := ogdl.New("_")
	calls := 0
	var got []any
	ret := sym.Int64()
	k := sym.Choose(5)
	var want []any // a value of each parameter type
	switch k {
	case 0:
		g.Add("f").Add(func() int64 { calls++; return ret })
	case 1:
		want = []any{int64(0)}
		g.Add("f").Add(func(a int64) int64 { calls++; got = append(got, a); return ret })
	case 2:
		want = []any{""}
		g.Add("f").Add(func(a string) int64 { calls++; got = append(got, a); return ret })
	case 3:
		want = []any{int64(0), ""}
		g.Add("f").Add(func(a int64, b string) int64 { calls++; got = append(got, a, b); return ret })
	case 4:
		want = []any{1.5, false}
		g.Add("f").Add(func(a float64, b bool) int64 { calls++; got = append(got, a, b); return ret })
	}
	var args []any
	s := "f("
	n := len(want)
	if sym.Choose(2) == 1 {
		// a wrong number of them, of the right type
		n = []int{0, 1, 3}[sym.Choose(3)]
		sym.Assume(n != len(want))
		for i := 0; i < n; i++ {
			g.Add("abc"[i : i+1]).Add([]any{int64(1), "x", 1.5}[sym.Choose(3)])
			if i > 0 {
				s += ","
			}
			s += "abc"[i : i+1]
		}
		s += ")"
		v, err := g.Eval(ogdl.NewPath(s))
		sym.Assert(calls == 0 && v == nil, "called with a wrong number of arguments")
		sym.Assert(err != nil, "no error for a wrong number of arguments")
		ogdl.NewTemplate("$" + s).Process(g)
		sym.Assert(calls == 0, "called with a wrong number of arguments")
		sym.Reach("number")
		return
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep()
		}
		t, v := arg(g, i)
		s += t
		args = append(args, v)
	}
	s += ")"
	sym.ObserveStr("call", s)
	ok := len(args) == len(want)
	if ok {
		for i, w := range want {
			if args[i] == nil {
				args[i] = zero(w) // no value
			} else if sym.TypeName(args[i]) != sym.TypeName(w) {
				ok = false
			}
		}
	}
	v, err := g.Eval(ogdl.NewPath(s))
	if !ok {
		sym.Assert(calls == 0, "called with arguments that don't match")
		sym.Assert(err != nil, "no error for arguments that don't match")
		g.Eval(ogdl.NewExpression(s + "+1"))
		sym.Assert(calls == 0, "called with arguments that don't match")
		ogdl.NewTemplate("$" + s).Process(g)
		sym.Assert(calls == 0, "called with arguments that don't match")
		sym.Reach("error")
		return
	}
	check := func(c int) {
		sym.Assert(calls == c, "not called exactly once")
		if len(got) != c*len(args) {
			sym.Fail("number of arguments received")
		}
		for i := range args {
			sym.Assert(eqAny(got[(c-1)*len(args)+i], args[i]), "argument received")
		}
	}
	check(1)
	r, isI := v.(int64)
	sym.Assert(err == nil && isI && r == ret, "result")
	v, err = g.Eval(ogdl.NewExpression(s))
	check(2)
	r, isI = v.(int64)
	sym.Assert(err == nil && isI && r == ret, "result, in an expression")
	v, err = g.Eval(ogdl.NewExpression("1+" + s + "*3"))
	check(3)
	r, isI = v.(int64)
	sym.Assert(err == nil && isI && r == 1+ret*3, "result, within an expression")
	sym.Reach("call")
}

// C24Graph: functions that take or return graphs; the path goes on in the result.
func C24Graph() {
	g := ogdl.New("_")
	calls := 0
	x := sym.Str(1)
	res := ogdl.New("res")
	res.Add("a").Add(x)
	y := sym.Int64()
	g.Add("y").Add(y)
	var seen any
	switch sym.Choose(3) {
	case 0:
		g.Add("f").Add(func(v int64) *ogdl.Graph { calls++; seen = v; return res })
	case 1:
		g.Add("f").Add(func(v int64) *ogdl.Graph { calls++; seen = v; return nil })
		v, _ := g.Eval(ogdl.NewPath("f(y).a"))
		r, isG := v.(*ogdl.Graph)
		sym.Assert(calls == 1 && (v == nil || isG && r == nil), "path into nothing")
		sym.Reach("nothing")
		return
	case 2:
		e := false
		g.Add("f").Add(func(v int64) (*ogdl.Graph, error) {
			calls++
			seen = v
			if e {
				return nil, errors.New("e")
			}
			return res, nil
		})
	}
	v, err := g.Eval(ogdl.NewPath("f(y)"))
	sym.Assert(calls == 1 && err == nil, "not called once")
	r, ok := v.(*ogdl.Graph)
	sym.Assert(ok && r == res, "result")
	v, err = g.Eval(ogdl.NewPath("f(y).a"))
	sym.Assert(calls == 2 && err == nil, "not called once")
	t, ok := v.(string)
	sym.Assert(ok && t == x, "path into the result")
	sym.Assert(seen == y, "argument")
	n := g.Get("f( y ).a")
	sym.Assert(calls == 3 && n != nil && n == res.Out[0], "Get: path into the result")
	s := string(ogdl.NewTemplate("<$f(y).a>").Process(g))
	sym.Assert(calls == 4 && s == "<"+x+">", "template")
	sym.Reach("graph")
}

// C24Remote: functions with the signature of remote functions.
func C24Remote() {
	g := ogdl.New("_")
	calls := 0
	var req *ogdl.Graph
	res := ogdl.New("res")
	res.Add("r")
	fail := sym.Bool()
	g.Add("T").Add(func(q *ogdl.Graph) (*ogdl.Graph, error) {
		calls++
		req = q
		return res, nil
	})
	_ = fail
	var args []any
	s := "T.name"
	n := sym.Choose(4)
	if n > 0 || sym.Choose(2) == 1 {
		s += "("
		for i := 0; i < n; i++ {
			if i > 0 {
				s += sep()
			}
			t, v := arg(g, i)
			if v == nil {
				v = "" // missing variables are not claimed
				sym.Assume(false)
			}
			s += t
			args = append(args, v)
		}
		s += ")"
	}
	v, err := g.Eval(ogdl.NewPath(s))
	r, ok := v.(*ogdl.Graph)
	sym.Assert(err == nil && ok && r == res, "result")
	sym.Assert(calls == 1, "not called exactly once")
	if req == nil || len(req.Out) != 1 {
		sym.Fail("request")
	}
	sym.Assert(req.Out[0].ThisString() == "name", "request: name")
	if len(req.Out[0].Out) != len(args) {
		sym.Fail("request: number of arguments")
	}
	for i, a := range args {
		sym.Assert(eqAny(req.Out[0].Out[i].This, a), "request: argument")
	}
	sym.Reach("remote")
}

// Obj has methods to be called from paths.
type Obj struct {
	calls int
	got   []any
	ret   string
	res   *ogdl.Graph
}

func (o *Obj) R(a int64) *ogdl.Graph {
	o.calls++
	o.got = append(o.got, a)
	return o.res
}

func (o *Obj) R0() *ogdl.Graph {
	o.calls++
	o.got = append(o.got, int64(7))
	return o.res
}

func (o *Obj) String() string { return "an object" }

func (o *Obj) I(a int64, b string) string {
	o.calls++
	o.got = append(o.got, a, b)
	return o.ret
}

func (o *Obj) F(a float64, b bool) string {
	o.calls++
	o.got = append(o.got, a, b)
	return o.ret
}

func (o *Obj) N(a int) string {
	o.calls++
	o.got = append(o.got, int64(a))
	return o.ret
}

func (o *Obj) G(a *ogdl.Graph) string {
	o.calls++
	o.got = append(o.got, a)
	return o.ret
}

func (o *Obj) L(a []string) string {
	o.calls++
	for _, s := range a {
		o.got = append(o.got, s)
	}
	return o.ret
}

func (o *Obj) Z() string {
	o.calls++
	return o.ret
}

// conv is an argument converted to the type of w; variables are graphs that
// hold one value.
func conv(v any, isVar bool, w any) (any, bool) {
	switch w.(type) {
	case int64:
		switch x := v.(type) {
		case int64:
			return x, true
		case float64:
			return int64(x), true
		case string:
			n, _ := refInt(x)
			return n, true
		case bool:
			if isVar {
				return int64(0), true
			}
		}
	case string:
		if isVar {
			switch x := v.(type) {
			case bool:
				return ctext(x), true
			case string:
				return x, true
			}
			return nil, true // not compared
		}
		if x, ok := v.(string); ok {
			return x, true
		}
	case float64:
		switch x := v.(type) {
		case int64:
			return float64(x), true
		case float64:
			return x, true
		case string:
			if !isVar {
				return map[string]float64{"2.5": 2.5, "12": 12, "-7": -7, "1e2": 100}[x], true
			}
		}
		return nil, true // not compared
	case bool:
		switch x := v.(type) {
		case bool:
			return x, true
		case string:
			if !isVar {
				return x == "true" || x == "1", true
			}
		}
		return nil, true // not compared
	}
	return nil, false
}

// C24Method: methods of stored objects; arguments are converted.
func C24Method() {
	g := ogdl.New("_")
	o := &Obj{ret: sym.Str(1)}
	g.Add("o").Add(o)
	var want []any
	s := "o."
	k := sym.Choose(8)
	switch k {
	case 7:
		methodGraph(g, o)
		return
	case 6:
		n := 1 + sym.Choose(3)
		a := g.Add("a")
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, str(1, 2))
			a.Add(l[i])
		}
		v, err := g.Eval(ogdl.NewPath("o.L(a)"))
		r, ok := v.(string)
		sym.Assert(err == nil && ok && r == o.ret && o.calls == 1, "list argument")
		sym.Assert(len(o.got) == n, "list argument")
		for i, x := range l {
			sym.Assert(o.got[i] == any(x), "list argument")
		}
		sym.Reach("graph")
		return
	case 0:
		s += "I("
		want = []any{int64(0), ""}
	case 1:
		s += "F("
		want = []any{0.0, false}
	case 2:
		s += "N("
		want = []any{int64(0)}
	case 3:
		s += "Z("
	case 4:
		v, err := g.Eval(ogdl.NewPath("o.Nope(1)"))
		sym.Assert(err != nil && v == nil && o.calls == 0, "no such method")
		sym.Reach("error")
		return
	case 5:
		g.Add("a").Add("x")
		v, err := g.Eval(ogdl.NewPath("o.G(a)"))
		r, ok := v.(string)
		sym.Assert(err == nil && ok && r == o.ret && o.calls == 1, "graph argument")
		sym.Assert(o.got[0] == g.Get("a"), "graph argument")
		v, err = g.Eval(ogdl.NewPath("o.G(1)"))
		sym.Assert(err != nil && o.calls == 1, "wrong argument")
		sym.Reach("graph")
		return
	}
	n := len(want)
	// surplus arguments are ignored, missing ones are zero
	switch sym.Choose(4) {
	case 0:
		n++
	case 1:
		if n > 0 {
			n--
		}
	}
	var exp []any
	ok := true
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep()
		}
		nm := "ab c"[i : i+1]
		var v any
		isVar := true
		if i == 2 {
			s += "1"
			continue
		}
		switch sym.Choose(7) {
		case 6: // an argument without a value
			s += "zz"
			if i < len(want) {
				exp = append(exp, want[i])
			}
			continue
		case 0:
			x := int64(0)
			if i >= len(want) || want[i] == any("") {
				x = int64(sym.Int(0, 9))
			} else if _, fl := want[i].(float64); fl {
				x = int64(sym.Int(-99, 99))
			} else {
				x = sym.Int64()
			}
			g.Add(nm).Add(x)
			v = x
			s += nm
		case 1:
			x := sym.Str(1)
			g.Add(nm).Add(x)
			v = x
			s += nm
		case 2:
			x := sym.Bool()
			g.Add(nm).Add(x)
			v = x
			s += nm
		case 3:
			d := sym.Byte()
			sym.Assume(rng(d, '0', '9'))
			x := int64(d - '0')
			s += string([]byte{d})
			big := true
			if i < len(want) {
				_, fl := want[i].(float64)
				big = !fl
			}
			if big && d != '0' && sym.Choose(3) == 0 {
				x = x*1000000000 + 7
				s += "000000007"
			}
			v = x
			isVar = false
		case 4:
			x := str(1, 2)
			if i < len(want) {
				switch want[i].(type) {
				case float64:
					x = []string{"2.5", "12", "x", "-7", "1e2"}[sym.Choose(5)]
				case bool:
					x = []string{"true", "false", "1", "x"}[sym.Choose(4)]
				}
			}
			plain(x, '\'')
			s += "'" + x + "'"
			v = x
			isVar = false
		case 5:
			v = 2.5
			s += "2.5"
			isVar = false
		}
		if i < len(want) {
			if k == 2 && !isVar {
				// there is no conversion from text to int
				if _, isS := v.(string); isS {
					ok = false
				}
			}
			e, can := conv(v, isVar, want[i])
			if !can {
				ok = false
			}
			exp = append(exp, e)
		}
	}
	for i := n; i < len(want); i++ {
		exp = append(exp, want[i])
	}
	s += ")"
	sym.ObserveStr("call", s)
	v, err := g.Eval(ogdl.NewPath(s))
	if o.calls == 0 {
		sym.Assert(err != nil && v == nil, "not called, without error")
		for i, e := range exp {
			if e == nil && want[i] != any("") {
				return // no claim
			}
		}
		sym.Assert(!ok, "not called")
		sym.Reach("error")
		return
	}
	sym.Assert(ok, "called with arguments that don't match")
	r, isS := v.(string)
	sym.Assert(err == nil && isS && r == o.ret, "result")
	sym.Assert(o.calls == 1, "not called exactly once")
	if len(o.got) != len(want) {
		sym.Fail("number of arguments received")
	}
	for i := range want {
		if exp[i] != nil {
			sym.Assert(eqAny(o.got[i], exp[i]), "argument received")
		}
	}
	sym.Reach("call")
}

// methodGraph: methods whose result is a graph.
func methodGraph(g *ogdl.Graph, o *Obj) {
	x := sym.Str(1)
	o.res = ogdl.New("res")
	o.res.Add("a").Add(x)
	n := sym.Int64()
	g.Add("y").Add(n)
	p := "o.R(y)"
	noArgs := sym.Choose(2) == 1
	if noArgs {
		p = "o.R0"
		n = 7
	}
	called := func(what string) {
		sym.Assert(o.calls == 1 && o.got[0] == any(n), what)
		o.calls, o.got = 0, nil
	}
	v, err := g.Eval(ogdl.NewPath(p))
	called("Eval: not called once")
	r, ok := v.(*ogdl.Graph)
	sym.Assert(err == nil && ok && r == o.res, "Eval: result")
	v, err = g.Eval(ogdl.NewPath(p + ".a"))
	called("Eval: not called once")
	t, ok := v.(string)
	sym.Assert(err == nil && ok && t == x, "Eval: path into the result")
	sym.Assert(g.Get(p) == o.res, "Get: result")
	called("Get: not called once")
	sym.Assert(g.Get(p+".a") == o.res.Out[0], "Get: path into the result")
	called("Get: not called once")
	sym.Assert(g.Get(p+".b") == nil, "Get: path to nothing in the result")
	called("Get: not called once")
	s := string(ogdl.NewTemplate("<$" + p + ".a>").Process(g))
	sym.Assert(s == "<"+x+">", "template")
	called("template: not called once")
	sym.Reach("graph")
}

// schema literals and types
func schemaNode() any {
	switch sym.Choose(7) {
	case 0:
		return "!int"
	case 1:
		return "!float"
	case 2:
		return "!bool"
	case 3:
		return "!string"
	case 4:
		return "!binary"
	case 5:
		return str(0, 1)
	}
	return "!" + sym.Str(1)
}

// conforms is what one schema node accepts.
func conforms(sc string, v any) bool {
	switch sc {
	case "!int":
		switch x := v.(type) {
		case string:
			_, ok := refInt(x)
			return ok
		case []byte:
			_, ok := refInt(string(x))
			return ok
		case int64, int, float64:
			return true
		}
		return false
	case "!float":
		switch x := v.(type) {
		case string:
			_, ok := refInt(x) // texts are too short for other numbers
			return ok
		case []byte:
			_, ok := refInt(string(x))
			return ok
		case int64, int, float64:
			return true
		}
		return false
	case "!bool":
		switch x := v.(type) {
		case bool, int64, int:
			return true
		case string:
			return x == "true" || x == "false"
		}
		return false
	case "!string":
		_, ok := v.(string)
		return ok
	case "!binary":
		_, ok := v.([]byte)
		return ok
	}
	if len(sc) > 0 && sc[0] == '!' {
		return false
	}
	return sc == ctext(v)
}

func conformsTree(sc, x *ogdl.Graph) bool {
	for i, s := range sc.Out {
		if x == nil || i >= len(x.Out) {
			return false
		}
		if !conforms(s.ThisString(), x.Out[i].This) || !conformsTree(s, x.Out[i]) {
			return false
		}
	}
	return true
}

func checkSchema(sc, x *ogdl.Graph) {
	ms, mx := snapshot(sc), snapshot(x)
	want := conformsTree(sc, x)
	ok, msg := sc.Check(x)
	sym.Assert(ok == want, "accepted what does not conform, or the contrary")
	sym.Assert(ok == (msg == ""), "message")
	ms.check("Check: schema")
	mx.check("Check: graph")
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C19Check: any small schema and any small graph.
func C19Check() {
	sc := mkGraph(sym.Choose(sym.Param("n", 2)+1), schemaNode)
	x := mkGraph(sym.Choose(sym.Param("m", 2)+1), func() any {
		if sym.Choose(3) == 0 {
			return []string{"true", "false"}[sym.Choose(2)]
		}
		return content(9)
	})
	checkSchema(sc, x)
	var no *ogdl.Graph
	if ok, _ := no.Check(x); !ok {
		sym.Fail("no schema")
	}
	ok, _ := sc.Check(nil)
	sym.Assert(ok == (len(sc.Out) == 0), "no graph")
}

// C19Deep: deeper schemas against graphs that nearly conform.
func C19Deep() {
	sc := mkGraph(sym.Param("n", 4), func() any { return []string{"!int", "a", "!string"}[sym.Choose(3)] })
	x := &ogdl.Graph{This: "_"}
	var cp func(s, d *ogdl.Graph)
	cp = func(s, d *ogdl.Graph) {
		for _, o := range s.Out {
			k := sym.Choose(3)
			if k == 2 && sym.Choose(3) == 0 {
				continue // missing
			}
			n := &ogdl.Graph{This: sym.Str(1)}
			if k == 1 {
				n.This = int64(3)
			}
			d.Out = append(d.Out, n)
			cp(o, n)
		}
	}
	cp(sc, x)
	checkSchema(sc, x)
}
