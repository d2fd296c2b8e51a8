package h

import (
	"encoding/binary"
	"io"
	"log"
	"net"
	"strings"
	"sync"
	"time"
	"verif/harness/sym"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

func init() {
	reg("C09Server", C09Server)
	reg("C09Client", C09Client)
	reg("C09Inter", C09Inter)
	reg("C09Both", C09Both)
	reg("C09Late", C09Late)
}

// freeHost is an address to listen on.
func freeHost() string {
	if sym.Symbolic() {
		return "h"
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// serve starts a server and waits until it accepts connections.
func serve(protocol int, routes map[string]ogdlrf.Function) string {
	if !sym.Symbolic() {
		log.SetOutput(io.Discard)
	}
	for try := 0; ; try++ {
		host := freeHost()
		srv := &ogdlrf.Server{Host: host, Timeout: 20, Protocol: protocol}
		for _, k := range []string{"a", "b"} {
			if routes[k] != nil {
				srv.AddRoute(k, routes[k])
			}
		}
		failed := make(chan bool, 1)
		go func() {
			srv.Serve()
			failed <- true
		}()
		sym.Settle()
		for n := 0; n < 200; n++ {
			select {
			case <-failed:
				n = 200
				continue
			default:
			}
			c, err := net.Dial("tcp", host)
			if err == nil {
				c.Close()
				sym.Settle()
				return host
			}
			time.Sleep(5 * time.Millisecond)
		}
		if try > 5 {
			sym.Fail("the server does not start")
		}
	}
}

// seen is what the handlers got.
type seen struct {
	mu sync.Mutex
	n  int
	g  []*ogdl.Graph
	r  []string
}

// handler answers with its name and what the request has below its first child.
func (s *seen) handler(name string) ogdlrf.Function {
	return func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		s.mu.Lock()
		s.g = append(s.g, g)
		s.r = append(s.r, name)
		s.mu.Unlock()
		r := ogdl.New("_")
		n := r.Add("re" + name)
		for _, x := range g.Out[0].Out {
			n.Add(x.This)
		}
		for _, x := range g.Out[1:] {
			r.Add(x.This)
		}
		return r
	}
}

func (s *seen) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.g)
}

// rfReq is a request and its answer.
type rfReq struct {
	req, rep *T
	route    string
}

// mkReq makes a request: the name of a route or another one, and a payload.
func mkReq() *rfReq {
	name := []string{"a", "b", ""}[sym.Choose(sym.Param("names", 3))]
	q := &rfReq{route: name}
	if name == "" {
		name = str(1, sym.Param("l", 1))
		binText(name)
		sym.Assume(name != "a" && name != "b")
	}
	top := &T{s: name}
	q.req = &T{k: []*T{top}}
	if q.route != "" {
		rep := &T{s: "re" + q.route}
		q.rep = &T{k: []*T{rep}}
		for i := 0; i < 1+sym.Choose(sym.Param("load", 1)); i++ {
			x := payload()
			top.k = append(top.k, x)
			rep.k = append(rep.k, x)
		}
		// further nodes at the top
		switch sym.Choose(sym.Param("tops", 0) + 1) {
		case 1:
			q.req.k = append(q.req.k, &T{s: "b"})
			q.rep.k = append(q.rep.k, &T{s: "b"})
		case 2:
			s := str(1, 1)
			binText(s)
			q.req.k = append(q.req.k, &T{s: s}, &T{s: "a"})
			q.rep.k = append(q.rep.k, &T{s: s}, &T{s: "a"})
		}
	} else {
		q.rep = &T{k: []*T{{s: "error", k: []*T{{s: "notFound"}}}}}
	}
	return q
}

func payload() *T {
	switch sym.Choose(sym.Param("kinds", 2)) {
	case 1:
		s := str(1, 1)
		binText(s)
		return &T{s: s, bin: true}
	case 2:
		// large ones
		s := str(1, 1)
		binText(s)
		return &T{s: s + strings.Repeat("x", []int{250, 4085, 9990, 20000, 70000}[sym.Choose(4+sym.Param("huge", 0))])}
	}
	s := str(1, sym.Param("l", 1))
	binText(s)
	return &T{s: s}
}

// frame is the message on the wire.
func frame(protocol int, t *T) []byte {
	b := t.graph().Binary()
	if protocol == 1 {
		return b
	}
	f := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	return append(f, b...)
}

// pieces sends b cut at up to "cuts" points, all of it or the first part.
func pieces(c net.Conn, b []byte) {
	from := 0
	for i := sym.Param("cuts", 1); i > 0 && from < len(b); i-- {
		to := cutPoint(from, len(b))
		if to == len(b) {
			break
		}
		c.Write(b[from:to])
		sym.Settle()
		from = to
	}
	c.Write(b[from:])
	sym.Settle()
}

// cutPoint chooses where to cut n bytes, after from.
func cutPoint(from, n int) int {
	if n-from < 64 {
		return from + 1 + sym.Choose(n-from)
	}
	p := []int{1, 3, 4, 5, 7, 260, 4096, 10000, n - 1, n}
	var ok []int
	for _, x := range p {
		if x > from && x <= n {
			ok = append(ok, x)
		}
	}
	return ok[sym.Choose(len(ok))]
}

// expect reads exactly b.
func expect(c net.Conn, b []byte, what string) {
	got := make([]byte, len(b))
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	n, err := io.ReadFull(c, got)
	sym.Assert(err == nil && n == len(b), what+": no complete reply")
	sym.Assert(string(got) == string(b), what+": reply")
}

// silent tells that nothing more arrives.
func silent(c net.Conn, what string) {
	b := make([]byte, 1)
	if sym.Symbolic() {
		c.SetReadDeadline(time.Now().Add(3 * time.Second))
	} else {
		c.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
	}
	n, _ := c.Read(b)
	sym.Assert(n == 0, what+": more than the replies")
}

// wire is one client of the server, byte by byte.
type wire struct {
	c net.Conn
}

// C09Server: the server under every fragmentation and cut of what it receives.
func C09Server() {
	v := 1 + sym.Choose(2)
	var sn seen
	host := serve(v, map[string]ogdlrf.Function{"a": sn.handler("a"), "b": sn.handler("b")})
	nc := 1 + sym.Choose(sym.Param("conns", 1))
	var ws []*wire
	for i := 0; i < nc; i++ {
		c, err := net.Dial("tcp", host)
		sym.Assert(err == nil, "connect")
		w := &wire{c: c}
		ws = append(ws, w)
	}
	// the whole messages, one after the other on any of the connections
	var order []*rfReq
	total := 1 + sym.Choose(sym.Param("reqs", 1))
	if sym.Param("pipe", 0) == 1 {
		// several in one go (with length prefix only)
		v2 := v == 2
		sym.Assume(v2)
		w := ws[0]
		var b, rep []byte
		for i := 0; i < total; i++ {
			q := mkReq()
			order = append(order, q)
			b = append(b, frame(v, q.req)...)
			rep = append(rep, frame(v, q.rep)...)
		}
		pieces(w.c, b)
		expect(w.c, rep, "several requests")
	} else {
		for i := 0; i < total; i++ {
			w := ws[sym.Choose(nc)]
			q := mkReq()
			order = append(order, q)
			pieces(w.c, frame(v, q.req))
			expect(w.c, frame(v, q.rep), "request")
		}
	}
	// one more, cut
	if sym.Param("tail", 1) == 1 && sym.Choose(2) == 1 {
		w := ws[sym.Choose(nc)]
		q := mkReq()
		b := frame(v, q.req)
		n := cutPoint(0, len(b)-1)
		if sym.Param("tailcuts", 0) == 1 {
			pieces(w.c, b[:n])
		} else {
			w.c.Write(b[:n])
			sym.Settle()
		}
		w.c.Close()
		sym.Settle()
		sym.Reach("cut")
	}
	for _, w := range ws {
		silent(w.c, "at the end")
		w.c.Close()
	}
	sym.Settle()
	// what the handlers saw
	k := 0
	sn.mu.Lock()
	defer sn.mu.Unlock()
	for _, q := range order {
		if q.route == "" {
			continue
		}
		sym.Assert(k < len(sn.g), "a request did not reach its handler")
		sym.Assert(sn.r[k] == q.route, "wrong handler")
		q.req.same(sn.g[k], "request seen by the handler")
		k++
	}
	sym.Assert(k == len(sn.g), "handler called for more than the complete requests")
	sym.Reach("server")
}

// peer is a server on the wire: it gets exactly the expected bytes, and
// answers as told.
type peer struct {
	mu    sync.Mutex
	want  []byte // next request
	reply []byte
	cuts  []int // length sent of the answer to each attempt; all of it at the end
	bad   string
	tries int
	at    []int // where a whole answer is cut into pieces
}

func (p *peer) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go p.conn(c)
	}
}

func (p *peer) conn(c net.Conn) {
	defer c.Close()
	for {
		p.mu.Lock()
		want := p.want
		p.mu.Unlock()
		got := make([]byte, len(want))
		c.SetReadDeadline(time.Now().Add(8 * time.Second))
		n, err := io.ReadFull(c, got)
		if n == 0 {
			return
		}
		p.mu.Lock()
		if err != nil || string(got) != string(p.want) {
			p.bad = "request on the wire"
		}
		p.tries++
		reply := p.reply
		cut := -1
		if len(p.cuts) > 0 {
			cut = p.cuts[0]
			p.cuts = p.cuts[1:]
		}
		p.mu.Unlock()
		if cut >= 0 {
			if cut > 0 {
				c.Write(reply[:cut])
			}
			return
		}
		p.send(c, reply)
	}
}

func (p *peer) send(c net.Conn, b []byte) {
	for _, f := range p.frag(b) {
		c.Write(f)
		sym.Settle()
	}
}

func (p *peer) frag(b []byte) [][]byte {
	var r [][]byte
	from := 0
	for _, to := range p.at {
		if to > from && to < len(b) {
			r = append(r, b[from:to])
			from = to
		}
	}
	return append(r, b[from:])
}

// startPeer listens with the peer on a free address.
func startPeer(p *peer) (string, net.Listener) {
	for {
		host := freeHost()
		l, err := net.Listen("tcp", host)
		if err == nil {
			go p.serve(l)
			return host, l
		}
	}
}

// fragment chooses up to n points where to cut b.
func fragment(n int, b []byte) []int {
	var at []int
	from := 0
	for ; n > 0; n-- {
		from = cutPoint(from, len(b))
		if from == len(b) {
			break
		}
		at = append(at, from)
	}
	return at
}

// C09Client: the client, with answers in any pieces and connections cut at any
// point of an answer.
func C09Client() {
	v := 1 + sym.Choose(2)
	p := &peer{}
	host, l := startPeer(p)
	cl := &ogdlrf.Client{Host: host, Timeout: 10, Protocol: v}
	for i := 1 + sym.Choose(sym.Param("calls", 1)); i > 0; i-- {
		q := mkReq()
		reply := frame(v, q.rep)
		p.mu.Lock()
		p.want = frame(v, q.req)
		p.reply = reply
		p.tries = 0
		p.cuts = nil
		cut := 0
		switch sym.Choose(3) {
		case 0:
			p.at = fragment(sym.Param("cuts", 1), reply)
		case 1:
			// cut once, whole at the next attempt
			cut = 1
			p.at = nil
			n := sym.Choose(2) * cutPoint(0, len(reply)-1)
			p.cuts = []int{n}
		case 2:
			// always cut
			cut = 2
			n := cutPoint(0, len(reply)-1)
			for k := 0; k < 20; k++ {
				p.cuts = append(p.cuts, n)
			}
		}
		p.mu.Unlock()
		req := q.req.graph()
		g, err := cl.Call(req)
		p.mu.Lock()
		sym.Assert(p.bad == "", p.bad)
		if cut == 0 {
			sym.Assert(err == nil && g != nil, "call: error")
			sym.Assert(p.tries == 1, "call: sent more than once")
			sym.Reach("whole")
		}
		if cut == 2 {
			sym.Assert(err != nil && g == nil, "call: result from a cut answer")
			sym.Reach("cut")
		}
		if err == nil {
			sym.Assert(g != nil, "call: neither result nor error")
			q.rep.same(g, "call: result")
			if cut == 1 {
				sym.Reach("again")
			}
		} else {
			sym.Assert(g == nil, "call: result with error")
		}
		p.mu.Unlock()
		q.req.same(req, "call: request after the call")
	}
	cl.Close()
	l.Close()
	sym.Settle()
}

// C09Both: clients against the server.
func C09Both() {
	v := 1 + sym.Choose(2)
	var sn seen
	host := serve(v, map[string]ogdlrf.Function{"a": sn.handler("a"), "b": sn.handler("b")})
	cs := []*ogdlrf.Client{
		{Host: host, Timeout: 10, Protocol: v},
		{Host: host, Timeout: 10, Protocol: v},
	}
	n := 1 + sym.Choose(sym.Param("calls", 3))
	k := 0
	for i := 0; i < n; i++ {
		q := mkReq()
		c := cs[0]
		if i > 0 {
			c = cs[sym.Choose(2)]
			if sym.Choose(2) == 1 {
				c.Close()
			}
		}
		g, err := c.Call(q.req.graph())
		sym.Assert(err == nil && g != nil, "call: error")
		q.rep.same(g, "result of the call")
		if q.route != "" {
			k++
			sym.Assert(sn.count() == k, "handler called not once")
			sym.Assert(sn.r[k-1] == q.route, "wrong handler")
			q.req.same(sn.g[k-1], "request seen by the handler")
		} else {
			sym.Assert(sn.count() == k, "handler called for another name")
		}
	}
	cs[0].Close()
	cs[1].Close()
	sym.Settle()
	sym.Assert(sn.count() == k, "handler called without a request")
	sym.Reach("both")
}

// C09Late: an answer that comes too late is not that of the next call.
func C09Late() {
	host := freeHost()
	l, err := net.Listen("tcp", host)
	if err != nil {
		return
	}
	v := 1 + sym.Choose(sym.Param("versions", 1))
	v = 3 - v
	q1, q2 := mkReq(), mkReq()
	b1, b2 := frame(v, q1.req), frame(v, q2.req)
	r1, r2 := frame(v, q1.rep), frame(v, q2.rep)
	var mu sync.Mutex
	second := false
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				var old net.Conn
				got := make([]byte, len(b1))
				c.SetReadDeadline(time.Now().Add(20 * time.Second))
				mu.Lock()
				s := second
				mu.Unlock()
				if !s {
					if _, err := io.ReadFull(c, got); err != nil {
						return
					}
					old = c
					// too late
					for !s {
						time.Sleep(20 * time.Millisecond)
						mu.Lock()
						s = second
						mu.Unlock()
					}
					old.Write(r1)
				}
				got = make([]byte, len(b2))
				c.SetReadDeadline(time.Now().Add(5 * time.Second))
				if _, err := io.ReadFull(c, got); err != nil {
					return
				}
				c.Write(r2)
				sym.Settle()
			}()
		}
	}()
	cl := &ogdlrf.Client{Host: host, Timeout: 1, Protocol: v}
	g, err := cl.Call(q1.req.graph())
	sym.Assert(err != nil && g == nil, "call without an answer")
	mu.Lock()
	second = true
	mu.Unlock()
	sym.Settle()
	g, err = cl.Call(q2.req.graph())
	if err == nil {
		sym.Assert(g != nil, "call: neither result nor error")
		q2.rep.same(g, "result of the second call")
		sym.Reach("late")
	}
	cl.Close()
	l.Close()
	sym.Settle()
}

// C09Inter: messages on several connections, with their pieces interleaved.
func C09Inter() {
	v := 1 + sym.Choose(2)
	var sn seen
	host := serve(v, map[string]ogdlrf.Function{"a": sn.handler("a"), "b": sn.handler("b")})
	type state struct {
		c   net.Conn
		q   *rfReq
		ps  [][]byte
		cut bool
	}
	var ws []*state
	for i := 0; i < sym.Param("conns", 2); i++ {
		c, err := net.Dial("tcp", host)
		sym.Assert(err == nil, "connect")
		w := &state{c: c, q: mkReq()}
		b := frame(v, w.q.req)
		n := cutPoint(0, len(b))
		w.ps = [][]byte{b[:n], b[n:]}
		if n == len(b) {
			w.ps = w.ps[:1]
		} else if sym.Choose(2) == 1 {
			w.ps[1] = nil
			w.cut = true
		}
		ws = append(ws, w)
	}
	var order []*rfReq
	for {
		var rest []*state
		for _, w := range ws {
			if len(w.ps) > 0 {
				rest = append(rest, w)
			}
		}
		if len(rest) == 0 {
			break
		}
		w := rest[sym.Choose(len(rest))]
		p := w.ps[0]
		w.ps = w.ps[1:]
		if p == nil {
			w.c.Close()
		} else {
			w.c.Write(p)
		}
		sym.Settle()
		if len(w.ps) == 0 && !w.cut {
			expect(w.c, frame(v, w.q.rep), "interleaved requests")
			if w.q.route != "" {
				order = append(order, w.q)
			}
		}
	}
	for _, w := range ws {
		w.c.Close()
	}
	sym.Settle()
	sn.mu.Lock()
	defer sn.mu.Unlock()
	sym.Assert(len(sn.g) == len(order), "number of calls of the handlers")
	for i, q := range order {
		sym.Assert(sn.r[i] == q.route, "wrong handler")
		q.req.same(sn.g[i], "interleaved request seen by the handler")
	}
	sym.Reach("inter")
}
