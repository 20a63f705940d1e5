// Package vnet replaces package net in instrumented code: an in-memory network
// whose reads, writes, dials and accepts are scheduling points, with deadlines
// on virtual time and injectable faults.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"verif/mc"
	"verif/mc/vtime"
)

func init() { mc.OnExec = append(mc.OnExec, reset) }

type state struct {
	listeners map[string]*TCPListener
	dial      func(network, addr string) (time.Duration, error)
	onConn    func(client, server *TCPConn)
	port      int
	o         mc.Obj
	dials     int
}

var st *state

func reset() { st = &state{listeners: map[string]*TCPListener{}, port: 40000} }

// DialPolicy decides the fate of a dial: an error, a delay, or (0, nil).
func DialPolicy(f func(network, addr string) (time.Duration, error)) { st.dial = f }

// OnConn is told about every established pair.
func OnConn(f func(client, server *TCPConn)) { st.onConn = f }

// Dials counts dial attempts so far.
func Dials() int { return st.dials }

// stream is one direction of a connection.
type stream struct {
	o       mc.Obj
	buf     []byte
	eof     bool  // the writer closed its side
	rdead   bool  // the reader closed its side
	err     error // connection broken
	q       mc.WaitQ
	wq      mc.WaitQ
	maxRead int // longest single read, 0: unlimited
	window  int // bytes in flight before Write blocks, 0: unlimited
	written int64
	failAt  int64 // Write fails once this many bytes have been written; <0: never
}

// TCPConn is a virtual stream connection.
type TCPConn struct {
	Name        string
	in, out     *stream
	la, ra      net.Addr
	closed      bool
	rdl, wdl    *deadline
	rclosed     bool
	wclosed     bool
	ReadsEnded  bool // a Read has returned an error
	Used        bool // Read has been called
	WriteFailed bool // a Write has returned an error
	CloseCalls  int
	SetDLErrors bool
}

type UnixConn = TCPConn
type UnixListener = TCPListener

type deadline struct {
	h     *mc.TimerH
	s     *stream
	fired bool
	set   bool
}

func newStream() *stream { return &stream{failAt: -1} }

// Pair makes a connected pair without a listener.
func Pair(name string) (client, server *TCPConn) {
	st.port++
	ca := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: st.port}
	sa := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1000}
	a, b := newStream(), newStream()
	client = &TCPConn{Name: name + ".client", in: a, out: b, la: ca, ra: sa}
	server = &TCPConn{Name: name + ".server", in: b, out: a, la: sa, ra: ca}
	return
}

// MaxRead limits how many bytes one Read of this side returns.
func (c *TCPConn) MaxRead(n int) { c.in.maxRead = n }

// Window limits how many unread bytes this side may have sent.
func (c *TCPConn) Window(n int) { c.out.window = n }

// FailWritesAfter makes writes of this side fail once n bytes were written.
func (c *TCPConn) FailWritesAfter(n int64) { c.out.failAt = n }

// Break resets the connection: both sides get errors from now on.
func (c *TCPConn) Break(err error) {
	if err == nil {
		err = syscall.ECONNRESET
	}
	c.in.o.Op("net break")
	c.out.o.TouchAll()
	for _, s := range []*stream{c.in, c.out} {
		s.err = err
		s.buf = nil
		s.q.WakeAll(&s.o)
		s.wq.WakeAll(&s.o)
	}
}

// Unread is the number of bytes this side could still read.
func (c *TCPConn) Unread() int { return len(c.in.buf) }

// IsClosed tells whether Close has been called on this side.
func (c *TCPConn) IsClosed() bool { c.in.o.Touch(); return c.closed }

// WriteClosed tells whether this side will send nothing more.
func (c *TCPConn) WriteClosed() bool { c.out.o.Touch(); return c.closed || c.wclosed }

// Written is the number of bytes this side has sent.
func (c *TCPConn) Written() int64 { c.out.o.Touch(); return c.out.written }

// Failed tells whether sending has failed on this side.
func (c *TCPConn) Failed() bool { c.out.o.Touch(); return c.out.err != nil }

func (c *TCPConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func (c *TCPConn) Read(b []byte) (int, error) {
	s := c.in
	s.o.OpAcq("net read " + c.Name)
	c.Used = true
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if mc.Killing() {
			return 0, io.EOF
		}
		if c.closed {
			c.ReadsEnded = true
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rdl != nil && c.rdl.set && c.rdl.fired {
			c.ReadsEnded = true
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(s.buf) > 0 {
			n := len(b)
			if s.maxRead > 0 && n > s.maxRead {
				n = s.maxRead
			}
			n = copy(b[:n], s.buf)
			s.buf = s.buf[n:]
			if !s.wq.Empty() {
				s.o.TouchRel()
				s.wq.WakeAll(&s.o)
			}
			return n, nil
		}
		if s.err != nil {
			c.ReadsEnded = true
			return 0, c.opErr("read", s.err)
		}
		if s.eof || s.rdead {
			c.ReadsEnded = true
			return 0, io.EOF
		}
		s.q.Park("net read " + c.Name)
		s.o.TouchAcq()
	}
}

func (c *TCPConn) Write(b []byte) (n int, err error) {
	defer func() {
		if err != nil {
			c.WriteFailed = true
		}
	}()
	s := c.out
	s.o.OpRel("net write " + c.Name)
	for {
		if mc.Killing() {
			return n, io.EOF
		}
		if c.closed || c.wclosed {
			return n, c.opErr("write", net.ErrClosed)
		}
		if c.wdl != nil && c.wdl.set && c.wdl.fired {
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if s.err != nil {
			return n, c.opErr("write", s.err)
		}
		if s.eof {
			return n, c.opErr("write", syscall.EPIPE)
		}
		k := len(b)
		if s.window > 0 {
			if room := s.window - len(s.buf); k > room {
				k = room
			}
		}
		if s.failAt >= 0 && s.written+int64(k) > s.failAt {
			k = int(s.failAt - s.written)
			if k < 0 {
				k = 0
			}
			if !s.rdead {
				s.buf = append(s.buf[:len(s.buf):len(s.buf)], b[:k]...)
			}
			s.written += int64(k)
			n += k
			s.q.WakeAll(&s.o)
			s.err = syscall.ECONNRESET
			return n, c.opErr("write", syscall.ECONNRESET)
		}
		if k > 0 {
			s.buf = append(s.buf[:len(s.buf):len(s.buf)], b[:k]...)
			s.written += int64(k)
			b = b[k:]
			n += k
			s.q.WakeAll(&s.o)
		}
		if len(b) == 0 {
			return n, nil
		}
		s.wq.Park("net write " + c.Name)
		s.o.TouchAll()
	}
}

func (c *TCPConn) Close() error {
	c.CloseCalls++
	c.in.o.Op("net close " + c.Name)
	c.out.o.TouchAll()
	if mc.Killing() {
		return nil
	}
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.in.rdead = true
	c.out.eof = true
	// the peer's writes fail from now on
	if c.in.err == nil {
		c.in.err = syscall.EPIPE
	}
	for _, s := range []*stream{c.in, c.out} {
		s.q.WakeAll(&s.o)
		s.wq.WakeAll(&s.o)
	}
	return nil
}

func (c *TCPConn) CloseRead() error {
	c.in.o.Op("net closeread " + c.Name)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.in.rdead = true
	c.in.q.WakeAll(&c.in.o)
	return nil
}

func (c *TCPConn) CloseWrite() error {
	c.out.o.Op("net closewrite " + c.Name)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.wclosed = true
	c.out.eof = true
	c.out.q.WakeAll(&c.out.o)
	c.out.wq.WakeAll(&c.out.o)
	return nil
}

func (c *TCPConn) LocalAddr() net.Addr  { return c.la }
func (c *TCPConn) RemoteAddr() net.Addr { return c.ra }

func (c *TCPConn) setDL(p **deadline, s *stream, t time.Time, write bool) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	if *p == nil {
		*p = &deadline{s: s}
	}
	d := *p
	s.o.Touch()
	if d.h != nil && d.set {
		d.h.Stop("deadline off")
	}
	d.fired = false
	d.set = !t.IsZero()
	if !d.set {
		return nil
	}
	left := t.Sub(vtime.Now())
	if left <= 0 {
		d.fired = true
		s.q.WakeAll(&s.o)
		s.wq.WakeAll(&s.o)
		return nil
	}
	d.h = mc.NewClockTimer(func(h uint64) {
		d.fired = true
		s.o.H = h
		if write {
			s.wq.WakeAll(&s.o)
		} else {
			s.q.WakeAll(&s.o)
		}
	})
	d.h.Reset(left, 0, "deadline")
	return nil
}

func (c *TCPConn) SetReadDeadline(t time.Time) error  { return c.setDL(&c.rdl, c.in, t, false) }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return c.setDL(&c.wdl, c.out, t, true) }
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

// Pipe is net.Pipe, with buffering.
func Pipe() (net.Conn, net.Conn) {
	a, b := Pair("pipe")
	return a, b
}

// TCPListener is a virtual listener.
type TCPListener struct {
	o       mc.Obj
	q       mc.WaitQ
	backlog []*TCPConn
	closed  bool
	key     string
	addr    net.Addr
	errs    []error
}

// InjectAcceptError makes the next Accept fail once.
func (l *TCPListener) InjectAcceptError(err error) {
	l.o.Op("inject accept error")
	l.errs = append(l.errs, err)
	l.q.WakeAll(&l.o)
}

// ListenerAt returns the listener bound to an address.
func ListenerAt(network, addr string) *TCPListener { return st.listeners[network+"!"+addr] }

func Listen(network, addr string) (net.Listener, error) {
	st.o.Op("net listen")
	port := 1000 + len(st.listeners)
	if strings.HasSuffix(addr, ":0") {
		port += 19000
		addr = fmt.Sprintf("%s:%d", strings.TrimSuffix(addr, ":0"), port)
	}
	k := network + "!" + addr
	if l := st.listeners[k]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	l := &TCPListener{key: k, addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}}
	st.listeners[k] = l
	return l, nil
}

func (l *TCPListener) Accept() (net.Conn, error) {
	l.o.Op("net accept")
	for {
		if mc.Killing() || l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: e}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			return c, nil
		}
		l.q.Park("net accept")
		l.o.TouchAll()
	}
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func (l *TCPListener) Close() error {
	l.o.Op("net listener close")
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.backlog {
		c.in.err, c.out.err = syscall.ECONNRESET, syscall.ECONNRESET
		c.in.wq.WakeAll(&l.o)
		c.out.q.WakeAll(&l.o)
	}
	l.backlog = nil
	l.q.WakeAll(&l.o)
	return nil
}

func (l *TCPListener) Addr() net.Addr { return l.addr }

func (l *TCPListener) SetDeadline(time.Time) error { return nil }

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(_ context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}

// Dialer is net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) DialContext(_ context.Context, network, addr string) (net.Conn, error) {
	return d.Dial(network, addr)
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	st.o.Op("net dial " + addr)
	st.dials++
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if mc.Killing() {
		return fail(errors.New("killed"))
	}
	if st.dial != nil {
		delay, err := st.dial(network, addr)
		if d.Timeout > 0 && delay > d.Timeout {
			delay, err = d.Timeout, os.ErrDeadlineExceeded
		}
		if delay > 0 {
			mc.Sleep(delay)
		}
		if err != nil {
			return fail(err)
		}
	}
	l := st.listeners[network+"!"+addr]
	if l == nil || l.closed {
		return fail(syscall.ECONNREFUSED)
	}
	l.o.Op("net connect " + addr)
	if l.closed {
		return fail(syscall.ECONNREFUSED)
	}
	c, s := Pair(fmt.Sprintf("conn%d", st.port-39999))
	if st.onConn != nil {
		st.onConn(c, s)
	}
	l.backlog = append(l.backlog, s)
	l.q.WakeAll(&l.o)
	return c, nil
}

func Dial(network, addr string) (net.Conn, error) {
	return (&Dialer{}).Dial(network, addr)
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: d}).Dial(network, addr)
}
