package h

import (
	"bytes"
	"io"
	"os"
	"strings"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
)

func init() {
	reg("C03Frag", C03Frag)
	reg("C03Boundary", C03Boundary)
	reg("C03Chunks", C03Chunks)
	reg("C03Deep", C03Deep)
	reg("C03File", C03File)
}

// fragReader hands out its bytes in pieces of the sizes that next says.
type fragReader struct {
	s    string
	next func(rem int) int
	eof  bool // the last piece comes together with io.EOF
}

func (r *fragReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	n := r.next(len(r.s))
	if n > len(r.s) {
		n = len(r.s)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if len(r.s) == 0 && r.eof {
		return n, io.EOF
	}
	return n, nil
}

// C03Frag: arbitrary bytes, arbitrarily fragmented.
func C03Frag() {
	s := sym.Str(sym.Param("n", 3))
	switch sym.Choose(3) {
	case 1:
		s = "a\n  b " + s
	case 2:
		s = "a \"" + s
	}
	empty := 0
	r := &fragReader{s: s, eof: sym.Choose(2) == 1}
	r.next = func(rem int) int {
		if rem > 4 {
			return rem - 4 + sym.Choose(2)
		}
		k := sym.Choose(rem + 1)
		if k == 0 {
			empty++
			sym.Assume(empty <= sym.Param("empty", 1))
		}
		return k
	}
	g := ogdl.FromReader(r)
	sameG(g, ogdl.FromString(s), "fragmented stream")
	observe("g", g)
	sym.Reach("frag")
}

// tailDoc is a short document that follows a long one.
func tailDoc() string {
	switch sym.Choose(7) {
	case 0:
		return "  " + word(1) + " " + word(1) + "\r\n  " + word(1)
	case 1:
		v := sym.Str(2)
		plain(v, '"')
		return "\"" + v + "\\\"\" " + word(1) + "\n" + word(1)
	case 2:
		return "a \\\n   " + word(2) + "\n  " + word(1) + "\nb"
	case 3:
		return "a # c\n    b\n  " + word(1) + "\n# d\nc"
	case 4:
		return "\xc3\xa9\xe2\x82\xac " + word(1) + " \\"
	case 5:
		v := sym.Str(1)
		plain(v, '\'')
		return "  'a\n  " + v + "' #x\n" + word(1)
	default:
		return word(2) + "\x00" + word(1)
	}
}

// C03Boundary: the position of a document within the stream, and hence within
// the parser's buffers, makes no difference.
func C03Boundary() {
	t := tailDoc()
	base := 4096
	switch sym.Choose(3) {
	case 1:
		base = 4096 + 2048
	case 2:
		base = 2048
	}
	d := sym.Param("lo", -12) + sym.Choose(sym.Param("span", 14))
	n := base + d
	placed(n, t)
	sym.Reach("boundary")
}

// C03Deep: the same with lines indented deeply, the boundary falling anywhere
// in or around the indentation.
func C03Deep() {
	ds := []int{20, 70}
	if sym.Param("deep", 0) == 1 {
		ds = []int{20, 70, 300, 1500}
	}
	dp := ds[sym.Choose(len(ds))]
	in := string(bytes.Repeat([]byte{' '}, dp))
	t := "  r\n" + in + word(1) + "\n" + in
	switch sym.Choose(4) {
	case 0:
		t += word(1) + " u\n" + in + "v\nz"
	case 1:
		t += "b \\\n" + in + "  " + word(1) + "\n" + in + "v\nz"
	case 2:
		t += "'a\n" + in + word(1) + "'\n" + in + "v"
	case 3:
		t += "b # c\n" + in + " " + word(1) + "\n  v\nz"
	}
	base := 4096
	if sym.Choose(2) == 1 {
		base = 4096 + 2048
	}
	// the boundary falls into the first, second or third indentation
	var off int
	switch sym.Choose(8) {
	case 0:
		off = sym.Choose(6)
	case 1:
		off = dp/2 + sym.Choose(3)
	case 2:
		off = dp + sym.Choose(12)
	case 3:
		off = dp + dp/2 + sym.Choose(2)
	case 4:
		off = 2*dp + sym.Choose(16)
	case 5:
		off = 2*dp + dp/2 + sym.Choose(2)
	case 6:
		off = 3*dp + sym.Choose(16)
	case 7:
		off = 4*dp + 12
	}
	placed(base-off, t)
	sym.Reach("deep")
}

// placed checks that the document t is read the same after n bytes of lines.
func placed(n int, t string) {
	fill := make([]byte, 0, n)
	for len(fill) < n {
		m := n - len(fill)
		if m > 1000 {
			m = 1000
		}
		if n-len(fill)-m == 1 {
			m--
		}
		for i := 0; i < m-1; i++ {
			fill = append(fill, 'f')
		}
		fill = append(fill, '\n')
	}
	// the document by itself, below a line
	want := ogdl.FromString("f\n" + t)
	var g *ogdl.Graph
	if sym.Choose(2) == 0 {
		g = ogdl.FromString(string(fill) + t)
	} else {
		// reads of less than a buffer
		r := &fragReader{s: string(fill) + t, eof: sym.Choose(2) == 1, next: func(rem int) int { return 700 }}
		g = ogdl.FromReader(r)
	}
	k := 0
	for i := 0; i < len(fill); i++ {
		if fill[i] == '\n' {
			k++
		}
	}
	if len(g.Out) < k {
		sym.Fail("long stream: lines missing")
		return
	}
	// the last filler line takes the place of the single line
	x := ogdl.New("_")
	x.Out = g.Out[k-1:]
	for i := 0; i < k-1; i++ {
		sym.Assert(len(g.Out[i].Out) == 0, "long stream: extra subnode")
	}
	x.Out[0].This = "f"
	sameG(x, want, "long stream")
}

// C03Chunks: reads of a fixed size, of every size around the buffer sizes.
func C03Chunks() {
	sizes := []int{1, 7, 2047, 2048, 2049, 4095, 4096, 4097}
	sz := sizes[sym.Choose(len(sizes))]
	w := word(1)
	n := 0
	doc := ""
	total := 4090 + sym.Choose(3)*1024
	for len(doc) < total {
		n++
		doc += "line \"quoted text\" word\n  sub " + w + "\n"
	}
	cnt := 0
	r := &fragReader{s: doc, eof: sym.Choose(2) == 1, next: func(rem int) int {
		cnt++
		if cnt%2 == 0 && sz > 1000 {
			return 0
		}
		return sz
	}}
	g := ogdl.FromReader(r)
	sym.Assert(len(g.Out) == n, "chunked stream: number of lines")
	for _, l := range g.Out {
		sym.Assert(l.This == "line" && len(l.Out) == 2, "chunked stream: line")
		sym.Assert(l.Out[0].This == "quoted text" && l.Out[0].Out[0].This == "word", "chunked stream: quoted")
		sym.Assert(l.Out[1].This == "sub" && l.Out[1].Out[0].This == w, "chunked stream: sub line")
	}
	sym.Reach("chunks")
}

func init() { reg("C03Rune", C03Rune) }

// C03Rune: a variable with multi-byte letters anywhere in a long template.
func C03Rune() {
	d := 4096*(1+sym.Choose(2))/2*2 - 9 + sym.Choose(12)
	fill := make([]byte, d)
	for i := range fill {
		fill[i] = 't'
	}
	name := "a\xc3\xa9\xe2\x84\xaaz"
	var end string
	if sym.Choose(2) == 0 {
		end = "."
	}
	ctx := ogdl.New("_")
	v := word(1)
	ctx.Set("x", v)
	ctx.Out[0].This = name
	src := string(fill) + "$" + name
	want := string(fill) + v
	if end == "." {
		src += " u"
		want += " u"
	}
	out := ogdl.NewTemplate(src).Process(ctx)
	sym.Assert(string(out) == want, "long template: output differs")
	sym.Reach("rune")
}

// C03File: a file is parsed like the same bytes in memory.
func C03File() {
	d, done := tmpDir()
	defer done()
	n := d + "/f.ogdl"
	s := sym.Str(sym.Choose(sym.Param("n", 3) + 1))
	pre := []string{"", "a\n  b ", "a \"", strings.Repeat("ab c\n", 1000)}[sym.Choose(4)]
	if err := os.WriteFile(n, []byte(pre+s), 0600); err != nil {
		sym.Fail("cannot write a file")
	}
	g := ogdl.FromFile(n)
	if len(pre+s) == 0 {
		sym.Assert(g == nil || len(g.Out) == 0, "an empty file")
	} else {
		sameG(g, ogdl.FromBytes([]byte(pre+s)), "file")
	}
	f, err := os.Open(n)
	if err != nil {
		sym.Fail("cannot open the file")
	}
	sameG(ogdl.FromReader(f), ogdl.FromBytes([]byte(pre+s)), "open file")
	f.Close()
	// what is stored is the file
	b, err := os.ReadFile(n)
	sym.Assert(err == nil && string(b) == pre+s, "file changed")
	sym.Assert(ogdl.FromFile(d+"/nothing") == nil, "missing file")
	observe("file", g)
	sym.Reach("file")
}
