package h

import (
	"bufio"
	"bytes"
	"os"

	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C07File", C07File)
	reg("C06RoundTrip", C06RoundTrip)
	reg("C06Types", C06Types)
	reg("C06Deep", C06Deep)
	reg("C07Total", C07Total)
	reg("C07Header", C07Header)
	reg("C07Format", C07Format)
	reg("C07Chunks", C07Chunks)
	reg("C07Truncated", C07Truncated)
}

// refVarInt is the documented variable integer encoding, shortest form.
func refVarInt(n int) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x4000:
		return []byte{byte(0x80 | n>>8), byte(n)}
	case n < 0x200000:
		return []byte{byte(0xc0 | n>>16), byte(n >> 8), byte(n)}
	}
	return []byte{byte(0xe0 | n>>24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// refBinary is the documented encoding of a tree of text nodes.
func refBinary(t *T) []byte {
	b := []byte{1, 'G', 0}
	var rec func(t *T, lev int)
	rec = func(t *T, lev int) {
		for _, k := range t.k {
			b = append(b, refVarInt(lev)...)
			b = append(b, k.s...)
			b = append(b, 0)
			rec(k, lev+1)
		}
	}
	rec(t, 1)
	return append(b, 0)
}

func binText(s string) {
	sym.Assume(noneOf(s, "\x00"))
	sym.Assume(s[0] != 1)
}

// C06RoundTrip: every tree of n nodes with every content of up to l bytes.
func C06RoundTrip() {
	n := 1 + sym.Choose(sym.Param("n", 3))
	l := sym.Param("l", 2)
	t := mkTree(n, func(i, lev, prev int) (string, bool) {
		s := str(1, l)
		binText(s)
		return s, sym.Choose(2) == 1
	})
	g := t.graph()
	sn := snapshot(g)
	b := g.Binary()
	sym.Assert(string(b) == string(refBinary(t)), "encoding is not the documented one")
	sym.Assert(string(g.Binary()) == string(b), "encoding is not deterministic")
	sn.check("encoding")
	g2 := ogdl.FromBinary(b)
	t.same(g2, "decoded graph")
	g3 := ogdl.FromBinaryReader(bytes.NewReader(b))
	t.same(g3, "graph decoded from a reader")
	observe("g", g2)
	sym.Reach("roundtrip")
}

// C06Types: the encoding depends on the text of the content, not on its type.
func C06Types() {
	root := ogdl.New("_")
	nd := root.Add("a")
	var want string
	switch sym.Choose(6) {
	case 0:
		i := sym.Int(-1000, 1000)
		nd.Add(i)
		want = refItoa(int64(i))
	case 1:
		i := int64(sym.Int(-99, 99)) + 1<<40
		nd.Add(i)
		want = refItoa(i)
	case 2:
		b := sym.Bool()
		nd.Add(b)
		want = "false"
		if b {
			want = "true"
		}
	case 3:
		s := str(1, 3)
		binText(s)
		nd.Add([]byte(s))
		want = s
	case 4:
		s := str(1, 3)
		binText(s)
		nd.Add(s)
		want = s
	case 5:
		nd.Add(1.5)
		want = "1.5"
	}
	t := &T{k: []*T{{s: "a", k: []*T{{s: want}}}}}
	b := root.Binary()
	sym.Assert(string(b) == string(refBinary(t)), "encoding is not the documented one")
	t.same(ogdl.FromBinary(b), "decoded graph")
	sym.ObserveStr("b", string(b))
	sym.Reach("types")
}

func refItoa(n int64) string {
	if n < 0 {
		return "-" + refUtoa(uint64(-n))
	}
	return refUtoa(uint64(n))
}

func refUtoa(u uint64) string {
	n := 1
	for p := uint64(10); n < 20 && u >= p; p *= 10 {
		n++
	}
	p := uint64(1)
	for i := 1; i < n; i++ {
		p *= 10
	}
	var b []byte
	for ; n > 0; n-- {
		b = append(b, byte('0'+u/p%10))
		p /= 10
	}
	return string(b)
}

// C06Deep: chains whose depth needs more than one byte per level.
func C06Deep() {
	ds := []int{126, 127, 128, 129, 255, 256, 257, 300}
	if x := sym.Param("depth", 0); x > 0 {
		ds = []int{x, x + 1, x + 2}
	}
	d := ds[sym.Choose(len(ds))]
	s := sym.Str(1)
	binText(s)
	root := &T{}
	p := root
	for i := 0; i < d; i++ {
		c := &T{s: s}
		p.k = append(p.k, c)
		p = c
	}
	root.k = append(root.k, &T{s: "z"})
	b := root.graph().Binary()
	sym.Assert(string(b) == string(refBinary(root)), "encoding is not the documented one")
	root.same(ogdl.FromBinary(b), "decoded graph")
	sym.Reach("deep")
}

// C07Total: any bytes after the header; decoding ends without panic.
func C07Total() {
	n := sym.Choose(sym.Param("n", 6) + 1)
	b := append([]byte{1, 'G', 0}, sym.Bytes(n)...)
	g := ogdl.FromBinary(b)
	sym.Assert(g != nil, "nil graph for a stream with a header")
	refDecode(b, g)
	observe("g", g)
	sym.Reach("total")
}

// C07Header: any first bytes; only the exact header is accepted.
func C07Header() {
	n := sym.Choose(sym.Param("n", 5) + 1)
	b := sym.Bytes(n)
	g := ogdl.FromBinary(b)
	ok := false
	if n >= 3 {
		ok = sym.And(b[0] == 1, sym.And(b[1] == 'G', b[2] == 0))
	}
	sym.Assert((g != nil) == ok, "header test")
	g = ogdl.FromBinaryReader(bytes.NewReader(b))
	sym.Assert((g != nil) == ok, "header test (reader)")
	sym.Reach("header")
}

// refDecode decodes a well-formed stream as documented and compares with g.
// Streams that are not well formed are left alone.
func refDecode(b []byte, g *ogdl.Graph) {
	type node struct {
		lev int
		bin bool
		s   string
	}
	var ns []node
	i := 3
	get := func() int {
		if i >= len(b) {
			return -1
		}
		i++
		return int(b[i-1])
	}
	varint := func() int {
		c := get()
		switch {
		case c < 0:
			return -1
		case c < 0x80:
			return c
		case c < 0xc0:
			d := get()
			if d < 0 {
				return -1
			}
			return c&0x3f<<8 | d
		case c < 0xe0:
			d, e := get(), get()
			if e < 0 {
				return -1
			}
			return c&0x1f<<16 | d<<8 | e
		case c < 0xf0:
			d, e, f := get(), get(), get()
			if f < 0 {
				return -1
			}
			return c&0xf<<24 | d<<16 | e<<8 | f
		}
		return -1
	}
	prev := 0
	for {
		l := varint()
		if l == 0 {
			break
		}
		if l < 0 || l > prev+1 {
			return
		}
		prev = l
		c := get()
		if c < 0 {
			return
		}
		var s []byte
		if c == 1 {
			for {
				n := varint()
				if n == 0 {
					break
				}
				if n < 0 || n > len(b)-i {
					return
				}
				n = sym.ConcreteInt(n)
				s = append(s, b[i:i+n]...)
				i += n
			}
			ns = append(ns, node{l, true, string(s)})
			continue
		}
		for c != 0 {
			if c < 0 {
				return
			}
			s = append(s, byte(c))
			c = get()
		}
		ns = append(ns, node{l, false, string(s)})
	}
	sym.Reach("wellformed")
	// compare, walking the graph in pre-order
	k := 0
	var rec func(g *ogdl.Graph, lev int)
	rec = func(g *ogdl.Graph, lev int) {
		for _, c := range g.Out {
			if k >= len(ns) {
				sym.Fail("more nodes than encoded")
				return
			}
			n := ns[k]
			k++
			sym.Assert(n.lev == lev, "node at the wrong level")
			if n.bin {
				x, ok := c.This.([]byte)
				sym.Assert(ok, "binary node does not hold bytes")
				sym.Assert(string(x) == n.s, "binary node content differs")
			} else {
				x, ok := c.This.(string)
				sym.Assert(ok, "text node does not hold a string")
				sym.Assert(x == n.s, "text node content differs")
			}
			rec(c, lev+1)
		}
	}
	rec(g, 1)
	sym.Assert(k == len(ns), "nodes are missing")
}

// varIntBytes encodes n in one to four bytes, whichever are enough for it.
func varIntBytes(n int) []byte {
	min := 1
	for _, m := range []int{0x80, 0x4000, 0x200000} {
		if n >= m {
			min++
		}
	}
	switch min + sym.Choose(5-min) {
	case 1:
		return []byte{byte(n)}
	case 2:
		return []byte{byte(0x80 | n>>8), byte(n)}
	case 3:
		return []byte{byte(0xc0 | n>>16), byte(n >> 8), byte(n)}
	}
	return []byte{byte(0xe0 | n>>24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// C07Format: documented streams with levels in one to four bytes, text and
// binary nodes in several chunks, followed by bytes of another message.
func C07Format() {
	n := 1 + sym.Choose(sym.Param("n", 2))
	b := []byte{1, 'G', 0}
	lev := 0
	for i := 0; i < n; i++ {
		lev = 1 + sym.Choose(lev+1)
		b = append(b, varIntBytes(lev)...)
		if sym.Choose(2) == 0 {
			s := str(0, sym.Param("l", 2))
			if len(s) > 0 {
				binText(s)
			}
			b = append(b, s...)
			b = append(b, 0)
			continue
		}
		b = append(b, 1)
		for c := sym.Choose(sym.Param("chunks", 2) + 1); c > 0; c-- {
			s := str(1, sym.Param("l", 2))
			b = append(b, varIntBytes(len(s))...)
			b = append(b, s...)
		}
		b = append(b, 0)
	}
	b = append(b, 0)
	end := len(b)
	rest := sym.Bytes(2)
	b = append(b, rest...)
	g := ogdl.FromBinary(b)
	refDecode(b, g)
	br := bufio.NewReader(bytes.NewReader(b))
	g2 := ogdl.FromBinaryBufioReader(br)
	sameG(g, g2, "decoded from a buffered reader")
	tail := make([]byte, 8)
	m, _ := br.Read(tail)
	sym.Assert(m == len(b)-end, "decoding does not stop at the end of the message")
	if m == 2 {
		sym.Assert(string(tail[:m]) == string(rest), "following bytes were consumed")
	}
	observe("g", g)
	sym.Reach("format")
}

// C07Chunks: long binary chunks, whose lengths need two and three bytes.
func C07Chunks() {
	ln := []int{127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385}
	if sym.Param("long", 0) == 1 {
		ln = []int{32767, 32768, 65535, 65536, 65537}
	}
	n := ln[sym.Choose(len(ln))]
	b := []byte{1, 'G', 0, 1, 1}
	b = append(b, varIntBytes(n)...)
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i)
	}
	data[0], data[n-1] = sym.Byte(), sym.Byte()
	b = append(b, data...)
	b = append(b, 0, 2, 'x', 0, 0, 7)
	g := ogdl.FromBinary(b)
	refDecode(b, g)
	sym.Assert(len(g.Out) == 1 && len(g.Out[0].Out) == 1, "shape of a stream with a long chunk")
	sym.Reach("chunks")
}

// C07Truncated: every prefix of a documented stream is decoded without panic,
// and nodes that are complete in the prefix are decoded as in the whole.
func C07Truncated() {
	b := []byte{1, 'G', 0, 1}
	s := str(1, 2)
	binText(s)
	b = append(b, s...)
	b = append(b, 0)
	b = append(b, varIntBytes(2)...)
	b = append(b, 1)
	d := str(1, 2)
	b = append(b, varIntBytes(len(d))...)
	b = append(b, d...)
	b = append(b, 0, 1, 'z', 0, 0)
	cut := sym.Int(0, len(b))
	cut = sym.ConcreteInt(cut)
	g := ogdl.FromBinary(b[:cut])
	sym.Assert((g != nil) == (cut >= 3), "truncated header")
	if cut >= 5+len(s) {
		sym.Assert(len(g.Out) >= 1, "complete node lost")
		x, ok := g.Out[0].This.(string)
		sym.Assert(ok && x == s, "complete node changed")
	}
	observe("g", g)
	sym.Reach("cut")
}

// C07File: a file is decoded like the same bytes in memory, also through a reader.
func C07File() {
	d, done := tmpDir()
	defer done()
	n := d + "/f.gb"
	pre := []string{"", "\x01G\x00", "\x01G\x00\x01a\x00"}[sym.Choose(3)]
	s := pre + sym.Str(sym.Choose(sym.Param("n", 3)+1))
	if err := os.WriteFile(n, []byte(s), 0600); err != nil {
		sym.Fail("cannot write a file")
	}
	g := ogdl.FromBinary([]byte(s))
	sameG(ogdl.FromBinaryFile(n), g, "file")
	sameG(ogdl.FromBinaryReader(bytes.NewReader([]byte(s))), g, "reader")
	sameG(ogdl.FromBinaryBufioReader(bufio.NewReader(bytes.NewReader([]byte(s)))), g, "buffered reader")
	sym.Assert(ogdl.FromBinaryFile(d+"/nothing") == nil, "missing file")
	observe("file", g)
	sym.Reach("file")
}
