package h

import (
	"bytes"
	"strings"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C26Token", C26Token)
	reg("C26Unread", C26Unread)
	reg("C27Events", C27Events)
}

func lexer(s string) *ogdl.Lexer { return ogdl.NewLexer(bytes.NewReader([]byte(s))) }

// rest asserts that what p still has to give is s.
func rest(p *ogdl.Lexer, s, what string) {
	for i := 0; i < len(s); i++ {
		c, err := p.Byte()
		if err != nil {
			sym.Fail(what + ": the stream ends early")
			return
		}
		sym.Assert(c == s[i], what+": what follows is not there any more")
	}
	c, err := p.Byte()
	sym.Assert(err != nil && c == 0, what+": more than the stream")
}

// run is the length of the longest prefix of s whose bytes are all ok.
func run(s string, ok func(byte) bool) int {
	i := 0
	for i < len(s) && ok(s[i]) {
		i++
	}
	return i
}

// C26Token: each production takes the longest text of its kind and nothing else.
func C26Token() {
	s := sym.Str(sym.Param("n", 3))
	if sym.Param("ascii", 0) == 1 {
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 128)
		}
	}
	// some bytes before it, so that it can begin in mid-stream
	pre := sym.Choose(2)
	p := lexer("zz"[:pre] + s)
	for i := 0; i < pre; i++ {
		p.Byte()
	}
	n := 0
	want, what := "", ""
	found, got := false, ""
	text := func(c byte) bool { return c > 32 }
	switch sym.Choose(13) {
	case 0:
		what = "String"
		n = run(s, text)
		got, found = p.String()
	case 1:
		what = "StringStop"
		n = run(s, func(c byte) bool { return sym.And(c > 32, !in(c, ",)")) })
		got, found = p.StringStop([]byte(",)"))
	case 2:
		what = "Integer"
		n = run(s, func(c byte) bool { return rng(c, '0', '9') })
		got, found = p.Integer()
	case 3:
		what = "Number"
		sign := ""
		i := 0
		if len(s) > 0 && sym.Or(s[0] == '-', s[0] == '+') {
			if s[0] == '-' {
				sign = "-"
			}
			i = 1
		}
		j := i + run(s[i:], func(c byte) bool { return rng(c, '0', '9') })
		digits := j - i
		if j < len(s) && s[j] == '.' {
			k := run(s[j+1:], func(c byte) bool { return rng(c, '0', '9') })
			digits += k
			j += 1 + k
		}
		if digits > 0 {
			n = j
			want = sign + s[i:j]
		}
		got, found = p.Number()
		sym.Assert(found == (n > 0), "Number: found")
		sym.Assert(got == want, "Number: text")
		sym.ObserveStr("num", got)
		rest(p, s[n:], what)
		sym.Reach("number")
		return
	case 4:
		what = "Operator"
		n = run(s, func(c byte) bool { return in(c, "+-*/%&|!<>=~^") })
		got, found = p.Operator()
		if n > 1 {
			// a sign or a negation at the end belongs to what follows
			whole := false
			for _, o := range []string{"==", ">=", "<=", "!=", "+=", "-=", "*=", "/=", "%=", "||", "&&"} {
				whole = sym.Or(whole, sym.StrEq(s[:n], o))
			}
			if whole {
				sym.Assert(len(got) == n, "Operator: a known operator is cut")
			} else if len(got) < n {
				sym.Assert(len(got) > 0, "Operator: nothing")
				for i := len(got); i < n; i++ {
					sym.Assert(in(s[i], "+-!"), "Operator: cut at something that is not a sign")
				}
				n = len(got)
			}
		}
	case 5:
		what = "Space"
		n = run(s, func(c byte) bool { return in(c, " \t") })
		m, u := p.Space()
		sym.Assert(m == n, "Space: number")
		uniform(s[:n], u, what)
		rest(p, s[n:], what)
		sym.Reach("space")
		return
	case 6:
		what = "SpaceMax"
		max := sym.Choose(len(s) + 2)
		// at most max of each
		sp, tb := 0, 0
		for n < len(s) && sp < max && tb < max && in(s[n], " \t") {
			if s[n] == ' ' {
				sp++
			} else {
				tb++
			}
			n++
		}
		m, u := p.SpaceMax(max)
		sym.Assert(m == n, "SpaceMax: number")
		uniform(s[:n], u, what)
		rest(p, s[n:], what)
		sym.Reach("space")
		return
	case 7:
		what = "WhiteSpace"
		n = run(s, func(c byte) bool { return in(c, " \t\r\n") })
		found = p.WhiteSpace()
		got = s[:n]
	case 8:
		what = "Comment"
		if len(s) > 1 && sym.And(s[0] == '#', in(s[1], " \t")) {
			n = 2 + run(s[2:], func(c byte) bool {
				return sym.Or(c >= 32, c == '\t')
			})
			// the line end is part of it
			if n+1 < len(s) && s[n] == '\r' && s[n+1] == '\n' {
				n += 2
			} else if n < len(s) && s[n] == '\n' {
				n++
			} else if n < len(s) && s[n] == '\r' {
				n++
			}
		}
		found = p.Comment()
		got = s[:n]
	case 9:
		what = "TemplateText"
		n = run(s, func(c byte) bool {
			return sym.And(c != '$', sym.Or(c >= 32, in(c, "\t\r\n")))
		})
		got, found = p.TemplateText()
	case 10:
		what = "Break"
		if len(s) > 0 && s[0] == '\n' {
			n = 1
		} else if len(s) > 1 && s[0] == '\r' && s[1] == '\n' {
			n = 2
		} else if len(s) > 0 {
			sym.Assume(s[0] != '\r') // see DESIGN.md: a lone CR
		}
		found = p.Break()
		got = s[:n]
	case 11:
		what = "End, PeekByte, PeekRune"
		e := p.End()
		c := p.PeekByte()
		r, err := p.PeekRune()
		sym.Assert(err == nil, "PeekRune: error")
		if len(s) == 0 {
			sym.Assert(e && c == 0 && r == 0, "peeking at the end")
		} else {
			sym.Assert(e == sym.And(s[0] < 32, !in(s[0], "\t\r\n")), "End")
			sym.Assert(c == s[0], "PeekByte")
			if s[0] < 128 {
				sym.Assert(r == rune(s[0]), "PeekRune")
			}
		}
		rest(p, s, what)
		sym.Reach("peek")
		return
	case 12:
		what = "Token8"
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 128) // for other letters, see C03Rune and C18
		}
		n = run(s, func(c byte) bool {
			return sym.Or(sym.Or(rng(c, '0', '9'), rng(c|32, 'a', 'z')), c == '_')
		})
		got, found = p.Token8()
	}
	sym.Assert(found == (n > 0), what+": found")
	sym.Assert(len(got) == n && got == s[:n], what+": text")
	sym.ObserveStr(what, got)
	rest(p, s[n:], what)
	sym.Reach("token")
}

func uniform(s string, u byte, what string) {
	sp, tb := hasByte(s, ' '), hasByte(s, '\t')
	sym.Assert((u == ' ') == !tb, what+": blanks only")
	sym.Assert((u == '\t') == sym.And(tb, !sp), what+": tabs only")
}

// C26Unread: bytes and runes that were read can be unread, wherever the buffer
// is refilled.
func C26Unread() {
	// a stream of known bytes with some symbolic ones about a place where the
	// buffer may be refilled
	at := 0
	if sym.Param("far", 1) == 1 {
		at = []int{0, 4096, 6144}[sym.Choose(3)]
	}
	if at > 0 {
		at -= 1 + sym.Choose(3)
	}
	// an ASCII character, whole runes, a truncated one
	n := sym.Param("n", 3)
	mid := ""
	for len(mid) < n {
		switch sym.Choose(5) {
		case 4:
			mid += "\U0001f600"
		case 0:
			c := sym.Str(1)
			sym.Assume(c[0] < 128)
			mid += c
		case 1:
			mid += "\u00e9"
		case 2:
			mid += "\u20ac"
		case 3:
			mid += "\xe2\x82"
		}
	}
	tail := sym.Choose(2) * 20
	s := strings.Repeat("abcdefg", at/7+1)[:at] + mid + strings.Repeat("hijkl", tail/5+1)[:tail]
	p := lexer(s)
	for i := 0; i < at; i++ {
		c, err := p.Byte()
		if err != nil || c != s[i] {
			sym.Fail("a byte of the stream is missing")
			return
		}
	}
	pos := at
	byts, runes := 0, []int{}
	for k := sym.Param("ops", 4); k > 0; k-- {
		switch sym.Choose(6) {
		case 5:
			r, err := p.PeekRune()
			w, _ := runeAt(s[pos:])
			sym.Assert(err == nil && r == w, "PeekRune: not the next one")
		case 0: // read a byte
			c, err := p.Byte()
			if pos == len(s) {
				sym.Assert(c == 0 && err != nil, "the end of the stream is not reported")
				p.UnreadByte()
			} else {
				sym.Assert(err == nil && c == s[pos], "Byte: not the next byte")
				pos++
				byts++
			}
			runes = nil
		case 1: // unread one
			if byts == 0 || pos == 0 {
				sym.Assume(false)
			}
			p.UnreadByte()
			pos--
			byts--
			runes = nil
		case 2: // read a rune
			r, err := p.Rune()
			if pos == len(s) {
				sym.Assert(r == 0 && err == nil, "Rune at the end")
				sym.Assert(p.UnreadRune() == nil, "UnreadRune at the end")
				break
			}
			want, size := runeAt(s[pos:])
			sym.Assert(r == want, "Rune: not the next one")
			pos += size
			byts += size
			runes = append(runes, size)
		case 3: // unread one
			if len(runes) == 0 {
				sym.Assume(false)
			}
			sym.Assert(p.UnreadRune() == nil, "UnreadRune fails")
			size := runes[len(runes)-1]
			runes = runes[:len(runes)-1]
			pos -= size
			byts -= size
		case 4:
			c := p.PeekByte()
			if pos == len(s) {
				sym.Assert(c == 0, "PeekByte at the end")
			} else {
				sym.Assert(c == s[pos], "PeekByte: not the next byte")
			}
		}
		sym.ObserveInt("pos", int64(pos))
	}
	// what follows, to the end
	rest(p, s[pos:], "what follows")
	sym.Reach("unread")
}

// runeAt is the first character of s and its size.
func runeAt(s string) (rune, int) {
	switch {
	case s == "":
		return 0, 0
	case s[0] < 128:
		return rune(s[0]), 1
	case strings.HasPrefix(s, "\u00e9"):
		return 0xe9, 2
	case strings.HasPrefix(s, "\u20ac"):
		return 0x20ac, 3
	case strings.HasPrefix(s, "\U0001f600"):
		return 0x1f600, 4
	}
	return 0xfffd, 1
}

// C27Events: the tree is the one that the levels of the events describe.
func C27Events() {
	type item struct {
		v   any
		lev int
	}
	var items []item
	var ev *ogdl.SimpleEventHandler
	var p *ogdl.Parser
	if sym.Choose(2) == 0 {
		ev = &ogdl.SimpleEventHandler{}
	} else {
		p = ogdl.NewStringParser("")
		ev = p.Handler()
	}
	cur, max := 0, sym.Param("levels", 3)
	top := func() int { // deepest level the next item can have
		if len(items) == 0 {
			return 0
		}
		return items[len(items)-1].lev + 1
	}
	for k := sym.Param("ops", 4); k > 0; k-- {
		add := func(v any, lev int) {
			if lev > top() {
				sym.Assume(false)
			}
			items = append(items, item{v, lev})
		}
		switch sym.Choose(8) {
		case 0:
			s := sym.Str(1)
			add(s, cur)
			if p != nil {
				p.Emit(s)
			} else {
				ev.Add(s)
			}
		case 1:
			b := sym.Bytes(1)
			add(string(b), cur)
			items[len(items)-1].v = b
			ev.AddBytes(b)
		case 2:
			n := sym.Int64()
			add(n, cur)
			ev.AddItf(n)
		case 3:
			s, l := sym.Str(1), sym.Choose(max+1)
			add(s, l)
			if sym.Choose(2) == 0 {
				ev.AddAt(s, l)
			} else {
				items[len(items)-1].v = []byte(s)
				ev.AddBytesAt([]byte(s), l)
			}
		case 4:
			cur++
			if p != nil {
				p.Inc()
			} else {
				ev.Inc()
			}
		case 5:
			if cur > 0 {
				cur--
			}
			if p != nil {
				p.Dec()
			} else {
				ev.Dec()
			}
		case 6:
			cur = sym.Choose(max + 1)
			ev.SetLevel(cur)
		case 7:
			if len(items) == 0 {
				sym.Assume(false)
			}
			items = items[:len(items)-1]
			ev.Delete()
		}
		sym.Assert(ev.Level() == cur, "the current level")
	}
	var g *ogdl.Graph
	if p != nil {
		g = p.Graph()
	} else {
		g = ev.Tree()
	}
	if g == nil {
		sym.Fail("no tree")
		return
	}
	// every item below the last one of the level above it
	root := &T{}
	path := []*T{root}
	for _, it := range items {
		nd := &T{}
		switch x := it.v.(type) {
		case string:
			nd.s = x
		case []byte:
			nd.s, nd.bin = string(x), true
		default:
			nd.raw = it.v
		}
		path = path[:it.lev+1]
		path[it.lev].k = append(path[it.lev].k, nd)
		path = append(path, nd)
	}
	root.same(g, "tree")
	kinds(root, g)
	observe("tree", g)
	sym.Reach("tree")
}

// kinds asserts that byte slices are byte slices and texts are texts.
func kinds(t *T, g *ogdl.Graph) {
	for i, k := range t.k {
		if k.raw == nil {
			_, b := g.Out[i].This.([]byte)
			sym.Assert(b == k.bin, "tree: text or bytes")
		}
		kinds(k, g.Out[i])
	}
}
