package main

import (
	"bytes"
	"io"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"verif/seq/enum"
)

// sink records what is written and fails at the given call.
type sink struct {
	got  []byte
	n    int
	fail int // number of the failing call (0: none)
	part int // quarters of that call's bytes that still get through
	bad  bool
}

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	if s.fail > 0 && s.n >= s.fail {
		k := 0
		if !s.bad {
			k = len(p) * s.part / 4
		}
		s.bad = true
		s.got = append(s.got, p[:k]...)
		return k, errBroken
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

const (
	opRequest = iota
	opResponse
	opPing
	opPong
	opFlush
)

// writer runs operations on the library's writer and on the oracle.
type writer struct {
	c    *enum.C
	h    nt.HeaderWriter
	s    sink
	rc   nt.RCType
	want []byte
	sent []packet
	resp []bool
	n    int
}

func (w *writer) do(op, size int) (err error) {
	w.n++
	w.c.Op(1)
	p := packet{msg: uint32(w.n), id: uint32(0x01020304 * w.n), code: 0x83 + uint32(w.n)<<8, body: pattern(size, w.n), short: -1}
	switch op {
	case opRequest:
		w.want = append(w.want, p.request()...)
		err = w.h.WriteRequest(nt.Request{Msg: iproto.RequestType(p.msg), Id: p.id, Body: p.body})
	case opResponse:
		w.want = append(w.want, p.response(w.rc)...)
		err = w.h.WriteResponse(nt.Response{Msg: iproto.RequestType(p.msg), Id: p.id, Code: iproto.RetCode(p.code), Body: p.body})
	case opPing:
		p.msg, p.id, p.body = uint32(iproto.Ping), uint32(iproto.PingRequestId), nil
		w.want = append(w.want, p.request()...)
		err = w.h.Ping()
	case opPong:
		// a server answers a ping with the id it came with
		p.msg, p.body = uint32(iproto.Ping), nil
		if w.n%2 == 1 {
			p.id = uint32(iproto.PingRequestId)
		}
		w.want = append(w.want, p.response(w.rc)...)
		err = w.h.WriteResponse(nt.Response{Msg: iproto.RequestType(p.msg), Id: p.id, Code: iproto.RetCode(p.code)})
	case opFlush:
		if err = w.h.Flush(); err == nil {
			w.c.Check(bytes.Equal(w.s.got, w.want), "after a flush %d bytes were sent, want %d; first difference at %d", len(w.s.got), len(w.want), diff(w.s.got, w.want))
		}
		return
	}
	w.sent = append(w.sent, p)
	w.resp = append(w.resp, op == opResponse || op == opPong)
	w.c.Note("op %d with a body of %d bytes: error %v, %d bytes sent of %d", op, len(p.body), err, len(w.s.got), len(w.want))
	w.c.Check(len(w.s.got) <= len(w.want) && bytes.Equal(w.s.got, w.want[:len(w.s.got)]), "the bytes sent differ from the packets at %d", diff(w.s.got, w.want))
	return
}

func diff(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// finish flushes and reads everything back.
func (w *writer) finish() {
	if err := w.do(opFlush, 0); err != nil {
		w.c.Fail("flush: %v", err)
	}
	var h nt.HeaderReader
	h.Init(&cutReader{data: w.s.got, end: io.EOF, empty: -1}, 0, w.rc)
	for i, p := range w.sent {
		var got packet
		if w.resp[i] {
			r, err := h.ReadResponse()
			w.c.Check(err == nil, "packet %d: %v", i, err)
			got = packet{msg: uint32(r.Msg), id: r.Id, code: uint32(r.Code), body: r.Body}
			p = p.seen(w.rc)
		} else {
			r, err := h.ReadRequest()
			w.c.Check(err == nil, "packet %d: %v", i, err)
			got = packet{msg: uint32(r.Msg), id: r.Id, body: r.Body}
			p.code = 0
		}
		w.c.Check(got.msg == p.msg && got.id == p.id && got.code == p.code && bytes.Equal(got.body, p.body), "packet %d was read back as msg %#x id %d code %#x body %.16x (%d bytes), written was msg %#x id %d code %#x body %.16x (%d bytes)", i, got.msg, got.id, got.code, got.body, len(got.body), p.msg, p.id, p.code, p.body, len(p.body))
	}
	w.c.Outcome("%d", w.s.n)
}

func newWriter(c *enum.C, rc nt.RCType) *writer {
	w := &writer{c: c, rc: rc}
	w.h.Init(&w.s, 0, rc)
	return w
}

// sizes around the thresholds of a buffer of 4096 bytes.
var sizes = []int{0, 1, 1000, 1023, 1024, 1025, 2048, 3000, 4079, 4080, 4083, 4084, 4085, 4092, 4095, 4096, 4097, 9000}

func writing(add func(enum.Scenario)) {
	add(enum.Scenario{
		Name:  "C12.sequences",
		Doc:   "all sequences of packets and flushes: the bytes sent are the protocol encoding, and are read back as the same packets",
		Quick: "sequences of 3 (thorough 4) of: request or response with body sizes around the thresholds, ping, answered ping, flush; 3 layouts",
		Run: func(c *enum.C) {
			rc := layouts[c.Pick(3)]
			w := newWriter(c, rc)
			n := 3
			if c.Deep {
				n = 4
			}
			for i := 0; i < n; i++ {
				k := c.Pick(2*len(sizes) + 3)
				var err error
				switch {
				case k < len(sizes):
					if err = w.do(opRequest, sizes[k]); rc != nt.RC4byte && i == 0 {
						c.Skip() // requests do not depend on the layout
					}
				case k < 2*len(sizes):
					err = w.do(opResponse, sizes[k-len(sizes)])
				case k == 2*len(sizes):
					err = w.do(opPing, 0)
				case k == 2*len(sizes)+1:
					err = w.do(opPong, 0)
				default:
					err = w.do(opFlush, 0)
				}
				c.Check(err == nil, "error %v", err)
			}
			w.finish()
		},
	})
	add(enum.Scenario{
		Name:  "C12.fill",
		Doc:   "the buffer is filled to every level before small packets of every kind are written",
		Quick: "fill level 12..30, 1010..1040 and 4030..4096 bytes by one packet (or two), then two operations of: request of 0, 1, 1025 bytes, response of 0, 1, 5, 1025 bytes, ping, answered ping; 3 layouts",
		Run: func(c *enum.C) {
			w := newWriter(c, layouts[c.Pick(3)])
			level := c.Pick(19 + 31 + 67)
			switch {
			case level < 19:
				level += 12
			case level < 50:
				level += 1010 - 19
			default:
				level += 4030 - 50
			}
			if w.do(opFlush, 0) != nil {
				c.Fail("flush")
			}
			for left := level - 12; left >= 0; {
				k := left
				if k > 1000 {
					k = 1000
				}
				if w.do(opRequest, k) != nil {
					c.Fail("write")
				}
				left -= k + 12
			}
			for i := 0; i < 2; i++ {
				var err error
				switch k := c.Pick(9); k {
				case 0, 1, 2:
					err = w.do(opRequest, []int{0, 1, 1025}[k])
				case 3, 4, 5, 6:
					err = w.do(opResponse, []int{0, 1, 5, 1025}[k-3])
				case 7:
					err = w.do(opPing, 0)
				case 8:
					err = w.do(opPong, 0)
				}
				c.Check(err == nil, "error %v", err)
			}
			w.finish()
		},
	})
	add(enum.Scenario{
		Name:  "C12.failures",
		Doc:   "the connection fails at any write, after any part of it: the failure is reported at once or by the next flush, and what was sent is a prefix of the packets",
		Quick: "sequences of 4 (thorough 5) of: request or response of 0, 1000, 1025, 4097 bytes, ping, flush; failure at call 1..4 after 0, 1/4, 1/2, 3/4, all of its bytes",
		Run: func(c *enum.C) {
			w := newWriter(c, layouts[c.Pick(2)])
			w.s.fail = 1 + c.Pick(4)
			w.s.part = c.Pick(5)
			n := 4
			if c.Deep {
				n = 5
			}
			bad := false
			for i := 0; i <= n && !bad; i++ {
				var err error
				if i == n {
					err = w.do(opFlush, 0)
				} else {
					switch k := c.Pick(7); k {
					case 0, 1, 2:
						err = w.do(opRequest, []int{0, 1000, 4097}[k])
					case 3, 4:
						err = w.do(opResponse, []int{0, 1025}[k-3])
					case 5:
						err = w.do(opPing, 0)
					default:
						err = w.do(opFlush, 0)
					}
				}
				c.Check(err == nil || w.s.bad, "error %v without a failure", err)
				bad = err != nil
			}
			c.Check(bad == w.s.bad, "a failed write was not reported by the next flush")
			k := len(w.s.got)
			c.Check(k <= len(w.want) && bytes.Equal(w.s.got, w.want[:k]), "what was sent before the failure differs from the packets at %d", diff(w.s.got, w.want))
			if bad {
				c.Skip()
			}
			w.finish()
		},
	})
}
