package h

import (
	"os"
	"path/filepath"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C08Log", C08Log)
	reg("C08Cut", C08Cut)
	reg("C08Memory", C08Memory)
	reg("C08Big", C08Big)
	reg("C08Raw", C08Raw)
}

// tmpDir is where the native replay has its files.
func tmpDir() (string, func()) {
	if sym.Symbolic() {
		return "/t", func() {}
	}
	d, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

type entry struct {
	t   *T // what was appended
	b   []byte
	pos int64
}

// object is something to append.
func object(i int) (*ogdl.Graph, *T) {
	t := mkTree(sym.Choose(sym.Param("nodes", 2)+1), func(i, lev, prev int) (string, bool) {
		s := str(1, sym.Param("l", 1))
		binText(s)
		return s, sym.Choose(2) == 1
	})
	return t.graph(), t
}

// stored tells whether the object at pos is e.
func stored(l *ogdl.Log, e *entry, next int64, what string) {
	g, n, err := l.Get(e.pos)
	sym.Assert(err == nil, what+": error")
	e.t.same(g, what)
	sym.Assert(n == next, what+": position of the next object")
	b, n, err := l.GetBinary(e.pos)
	sym.Assert(err == nil, what+": error (binary)")
	sym.Assert(string(b) == string(e.b), what+": binary form")
	sym.Assert(n == next, what+": position of the next object (binary)")
}

// walk visits the log from zero.
func walk(l *ogdl.Log, es []*entry, end int64, what string) {
	pos := int64(0)
	for i := 0; ; i++ {
		if i == len(es) {
			sym.Assert(pos == end, what+": end")
			g, n, _ := l.Get(pos)
			sym.Assert(g == nil || g.Len() == 0, what+": object after the end")
			sym.Assert(n == -1, what+": next after the end")
			b, _, _ := l.GetBinary(pos)
			sym.Assert(len(b) == 0, what+": object after the end (binary)")
			return
		}
		g, n, err := l.Get(pos)
		sym.Assert(err == nil && pos == es[i].pos, what+": position")
		es[i].t.same(g, what)
		pos = n
	}
}

// C08Log: any sequence of appends, reads and reopenings.
func C08Log() {
	dir, clean := tmpDir()
	defer clean()
	file := filepath.Join(dir, "log")
	l, err := ogdl.OpenLog(file)
	if err != nil {
		sym.Fail("open")
	}
	if sym.Choose(2) == 1 {
		l.SetSync(false)
	}
	var es []*entry
	end := int64(0)
	next := func(i int) int64 {
		if i+1 < len(es) {
			return es[i+1].pos
		}
		return end
	}
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		switch sym.Choose(5) {
		case 0, 1:
			g, t := object(i)
			e := &entry{t: t, b: refBinary(t)}
			if sym.Choose(2) == 0 {
				e.pos = l.Add(g)
			} else {
				e.pos = l.AddBinary(append([]byte{}, e.b...))
			}
			sym.Assert(e.pos == end, "position of the object appended")
			end += int64(len(e.b))
			es = append(es, e)
		case 2:
			if len(es) == 0 {
				sym.Assume(false)
			}
			k := sym.Choose(len(es))
			g, nx, err := l.Get(es[k].pos)
			sym.Assert(err == nil && nx == next(k), "read between appends")
			es[k].t.same(g, "read between appends")
		case 3:
			if len(es) == 0 {
				sym.Assume(false)
			}
			k := sym.Choose(len(es))
			b, nx, err := l.GetBinary(es[k].pos)
			sym.Assert(err == nil && nx == next(k) && string(b) == string(es[k].b), "binary read between appends")
		case 4:
			l.Sync()
			l.Close()
			l, err = ogdl.OpenLog(file)
			if err != nil {
				sym.Fail("open again")
			}
		}
	}
	for k := len(es) - 1; k >= 0; k-- {
		stored(l, es[k], next(k), "object at its position")
	}
	walk(l, es, end, "walk")
	b, err := os.ReadFile(file)
	all := ""
	for _, e := range es {
		all += string(e.b)
	}
	sym.Assert(err == nil && string(b) == all, "contents of the file")
	l.Close()
	sym.Reach("log")
}

// C08Cut: the file is cut at any byte.
func C08Cut() {
	dir, clean := tmpDir()
	defer clean()
	file := filepath.Join(dir, "log")
	l, err := ogdl.OpenLog(file)
	if err != nil {
		sym.Fail("open")
	}
	var es []*entry
	end := int64(0)
	n := 1 + sym.Choose(sym.Param("n", 2))
	for i := 0; i < n; i++ {
		g, t := object(i)
		e := &entry{t: t, b: refBinary(t)}
		e.pos = l.Add(g)
		end += int64(len(e.b))
		es = append(es, e)
	}
	l.Close()
	cut := int64(sym.Choose(int(end)))
	if err := os.Truncate(file, cut); err != nil {
		sym.Fail("truncate")
	}
	l, err = ogdl.OpenLog(file)
	if err != nil {
		sym.Fail("open again")
	}
	whole := 0
	for i, e := range es {
		nx := e.pos + int64(len(e.b))
		if nx <= cut {
			stored(l, e, nx, "complete object")
			whole = i + 1
			continue
		}
		if e.pos > cut {
			break
		}
		// the torn one
		p, msg := sym.Panics(func() { l.Get(e.pos) })
		sym.Assert(!p, "reading a torn object panics: "+msg)
		p, msg = sym.Panics(func() { l.GetBinary(e.pos) })
		sym.Assert(!p, "reading a torn object panics (binary): "+msg)
		break
	}
	// following the positions ends
	pos := int64(0)
	for i := 0; pos >= 0; i++ {
		if i > int(end)+2 {
			sym.Fail("the walk does not end")
		}
		if i < whole {
			sym.Assert(pos == es[i].pos, "position of a complete object")
		}
		g, n, _ := l.Get(pos)
		if i < whole {
			es[i].t.same(g, "complete object")
		}
		pos = n
	}
	sym.Reach("cut")
	// the log goes on behind the torn object
	g, t := object(0)
	p := l.Add(g)
	sym.Assert(p == cut, "position of an object appended after a cut")
	e := &entry{t: t, b: refBinary(t), pos: p}
	stored(l, e, p+int64(len(e.b)), "object appended after a cut")
	l.Close()
}

// C08Memory: the log in memory.
func C08Memory() {
	l := &ogdl.Log{}
	all := ""
	n := 1 + sym.Choose(sym.Param("n", 3))
	for i := 0; i < n; i++ {
		g, t := object(i)
		b := refBinary(t)
		var p int64
		if sym.Choose(2) == 0 {
			p = l.Add(g)
		} else {
			p = l.AddBinary(append([]byte{}, b...))
		}
		sym.Assert(p == int64(len(all)), "position of the object appended")
		all += string(b)
		sym.Assert(string(l.Bytes()) == all, "bytes")
		t.same(ogdl.FromBinary(l.Bytes()[p:]), "object at its position")
	}
	l.Sync()
	l.Close()
	sym.Reach("memory")
}

// C08Big: objects about the size of the buffers, and deep ones.
func C08Big() {
	dir, clean := tmpDir()
	defer clean()
	l, err := ogdl.OpenLog(filepath.Join(dir, "log"))
	if err != nil {
		sym.Fail("open")
	}
	var es []*entry
	end := int64(0)
	size := sym.Param("size", 4096)
	first := sym.Choose(2)
	for i := 0; i < 2; i++ {
		var t *T
		c := sym.Str(1)
		binText(c)
		switch {
		case i == first && sym.Choose(2) == 0:
			// deep: levels take two bytes
			t = &T{}
			x := t
			d := 126 + sym.Choose(5)
			for j := 0; j < d; j++ {
				y := &T{s: "x"}
				x.k = []*T{y}
				x = y
			}
			x.k = []*T{{s: c}}
		case i == first:
			b := make([]byte, size-8+sym.Choose(12))
			for j := range b {
				b[j] = 'x'
			}
			t = &T{k: []*T{{s: string(b) + c}}}
			if sym.Choose(2) == 1 {
				t.k = append(t.k, &T{s: c})
			}
		default:
			t = &T{k: []*T{{s: c}}}
		}
		e := &entry{t: t, b: refBinary(t)}
		if sym.Choose(2) == 0 {
			e.pos = l.Add(t.graph())
		} else {
			e.pos = l.AddBinary(append([]byte{}, e.b...))
		}
		sym.Assert(e.pos == end, "position of the object appended")
		end += int64(len(e.b))
		es = append(es, e)
	}
	stored(l, es[1], end, "object at its position")
	stored(l, es[0], es[1].pos, "object at its position")
	walk(l, es, end, "walk")
	l.Close()
	sym.Reach("big")
}

// C08Raw: binary objects with binary nodes.
func C08Raw() {
	dir, clean := tmpDir()
	defer clean()
	l, err := ogdl.OpenLog(filepath.Join(dir, "log"))
	if err != nil {
		sym.Fail("open")
	}
	var es []*entry
	end := int64(0)
	n := 1 + sym.Choose(sym.Param("n", 2))
	for i := 0; i < n; i++ {
		t := &T{}
		b := []byte{1, 'G', 0}
		for k, m := 0, 1+sym.Choose(2-i); k < m; k++ {
			b = append(b, 1)
			if sym.Choose(3-i) == 0 {
				s := sym.Str(1)
				binText(s)
				b = append(b, s...)
				b = append(b, 0)
				t.k = append(t.k, &T{s: s})
				continue
			}
			b = append(b, 1)
			all := ""
			for c := sym.Choose(3); c > 0; c-- {
				s := str(1, 2)
				if sym.Choose(2) == 0 {
					b = append(b, byte(len(s)))
				} else {
					b = append(b, 0x80, byte(len(s)))
				}
				b = append(b, s...)
				all += s
			}
			b = append(b, 0)
			t.k = append(t.k, &T{s: all})
		}
		b = append(b, 0)
		e := &entry{t: t, b: b}
		e.pos = l.AddBinary(append([]byte{}, b...))
		sym.Assert(e.pos == end, "position of the object appended")
		end += int64(len(b))
		es = append(es, e)
	}
	for i, e := range es {
		nx := end
		if i+1 < len(es) {
			nx = es[i+1].pos
		}
		stored(l, e, nx, "object at its position")
	}
	walk(l, es, end, "walk")
	l.Close()
	sym.Reach("raw")
}
