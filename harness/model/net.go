package model

import (
	"errors"
	"io"
	"net"
	"time"

	"verif/harness/sym"
)

// A network of streams in memory. What one side writes arrives at the other,
// whole, in order, and in pieces: normally those written, and up to "splits"
// times per stream in smaller or larger ones. Deadlines pass when nothing else
// can happen.

type stream struct {
	b      []byte
	cut    []int // lengths of the pieces
	closed bool  // by the writer
	splits int
}

func (s *stream) write(b []byte) {
	if len(b) == 0 {
		return
	}
	s.b = append(s.b, b...)
	s.cut = append(s.cut, len(b))
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "127.0.0.1:1" }

type conn struct {
	in, out *stream
	closed  bool
	dl      int64 // read deadline in seconds, 0 for none
}

var (
	errTimeout   = errors.New("i/o timeout")
	errNetClosed = errors.New("use of closed network connection")
	errRefused   = errors.New("connection refused")
	errInUse     = errors.New("address already in use")
)

func (c *conn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, errNetClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	s := c.in
	ready := func() bool { return len(s.b) > 0 || s.closed || c.closed }
	if c.dl == 0 {
		sym.Wait(ready)
	} else if !sym.WaitUntil(ready, c.dl) {
		return 0, errTimeout
	}
	if c.closed {
		return 0, errNetClosed
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.cut[0]
	if n > len(b) {
		n = len(b)
	}
	if s.splits > 0 {
		m := len(s.b)
		if m > len(b) {
			m = len(b)
		}
		if m > 1 && sym.Pick(2) == 1 {
			s.splits--
			n = 1 + sym.Pick(m)
		}
	}
	copy(b[:n], s.b)
	s.b = s.b[n:]
	for k := n; k > 0; {
		if s.cut[0] <= k {
			k -= s.cut[0]
			s.cut = s.cut[1:]
		} else {
			s.cut[0] -= k
			k = 0
		}
	}
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, errNetClosed
	}
	c.out.write(b)
	return len(b), nil
}

func (c *conn) Close() error {
	if c.closed {
		return errNetClosed
	}
	c.closed = true
	c.out.closed = true
	return nil
}

func (c *conn) LocalAddr() net.Addr           { return addr{} }
func (c *conn) RemoteAddr() net.Addr          { return addr{} }
func (c *conn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }
func (c *conn) SetReadDeadline(t time.Time) error {
	c.dl = 0
	if !t.IsZero() {
		c.dl = t.Unix() + 62135596800
	}
	return nil
}

func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

type listener struct {
	host    string
	pending []*conn
	closed  bool
}

var listeners []*listener

func (l *listener) Accept() (net.Conn, error) {
	sym.Wait(func() bool { return len(l.pending) > 0 || l.closed })
	if l.closed {
		return nil, errNetClosed
	}
	c := l.pending[0]
	l.pending = l.pending[1:]
	return c, nil
}

func (l *listener) Close() error {
	if l.closed {
		return errNetClosed
	}
	l.closed = true
	for _, c := range l.pending {
		c.Close()
	}
	return nil
}

func (l *listener) Addr() net.Addr { return addr{} }

func NetListen(network, host string) (net.Listener, error) {
	for _, l := range listeners {
		if l.host == host && !l.closed {
			return nil, errInUse
		}
	}
	l := &listener{host: host}
	listeners = append(listeners, l)
	return l, nil
}

func NetDial(network, host string) (net.Conn, error) {
	for _, l := range listeners {
		if l.host == host && !l.closed {
			n := sym.Param("splits", 0)
			a, b := &stream{splits: n}, &stream{splits: n}
			l.pending = append(l.pending, &conn{in: a, out: b})
			return &conn{in: b, out: a}, nil
		}
	}
	return nil, errRefused
}

func NetDialTimeout(network, host string, d time.Duration) (net.Conn, error) {
	return NetDial(network, host)
}
