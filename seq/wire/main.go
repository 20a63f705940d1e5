// Harness wire: packet framing (C11 reading, C12 writing).
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"verif/seq/enum"
)

// packet is what the oracle knows about a packet.
type packet struct {
	msg, id uint32
	code    uint32
	body    []byte
	short   int // >= 0: only that many bytes of return code and body are sent
}

func u32(b []byte, i uint32) []byte { return binary.LittleEndian.AppendUint32(b, i) }

// request encodes a request by the protocol description.
func (p packet) request() []byte {
	b := u32(u32(u32(nil, p.msg), uint32(len(p.body))), p.id)
	return append(b, p.body...)
}

var rcSize = map[nt.RCType]int{nt.RC0byte: 0, nt.RC1byte: 1, nt.RC4byte: 4}

// response encodes a response with a return code of the given layout.
func (p packet) response(rc nt.RCType) []byte {
	var t []byte
	if p.msg != uint32(iproto.Ping) {
		for k := 0; k < rcSize[rc]; k++ {
			t = append(t, byte(p.code>>(8*k)))
		}
	}
	t = append(t, p.body...)
	if p.short >= 0 {
		t = t[:p.short]
	}
	b := u32(u32(u32(nil, p.msg), uint32(len(t))), p.id)
	return append(b, t...)
}

// seen is how the reader must report p.
func (p packet) seen(rc nt.RCType) packet {
	n := rcSize[rc]
	if p.msg == uint32(iproto.Ping) {
		p.code = 0
		return p
	}
	if p.short >= 0 && p.short < n {
		p.body = p.response(rc)[12:]
		p.code = uint32(iproto.RcProtocolError)
		return p
	}
	switch n {
	case 0:
		p.code = 0
	case 1:
		p.code &= 0xff
	}
	return p
}

var errBroken = errors.New("connection broken")

// cutReader delivers data in the given pieces.
type cutReader struct {
	data  []byte
	cuts  []int // ends of pieces, increasing
	chunk int   // maximal piece when there are no cuts left (0: any)
	pos   int
	end   error // reported at the end
	with  bool  // ... together with the last bytes
	empty int   // an empty read before this position (-1: none)
	reads int
}

func (r *cutReader) Read(p []byte) (n int, err error) {
	r.reads++
	if r.empty == r.pos {
		r.empty = -1
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	for len(r.cuts) > 0 && r.cuts[0] <= r.pos {
		r.cuts = r.cuts[1:]
	}
	to := len(r.data)
	if len(r.cuts) > 0 {
		to = r.cuts[0]
	} else if r.chunk > 0 && r.pos+r.chunk < to {
		to = r.pos + r.chunk
	}
	n = copy(p, r.data[r.pos:to])
	r.pos += n
	if r.pos == len(r.data) && (n == 0 || r.with) {
		err = r.end
	}
	return
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + seed)
	}
	return b
}

// readAll reads packets until an error and compares them with want.
func readAll(c *enum.C, conn io.Reader, rc nt.RCType, resp bool, want []packet, clean bool) {
	var h nt.HeaderReader
	h.Init(conn, 0, rc)
	var bodies [][]byte
	for i := 0; ; i++ {
		var got packet
		var err error
		if resp {
			var r nt.Response
			r, err = h.ReadResponse()
			got = packet{msg: uint32(r.Msg), id: r.Id, code: uint32(r.Code), body: r.Body}
		} else {
			var r nt.Request
			r, err = h.ReadRequest()
			got = packet{msg: uint32(r.Msg), id: r.Id, body: r.Body}
		}
		c.Op(1)
		c.Note("packet %d: msg %#x id %d code %#x body %d bytes err %v", i, got.msg, got.id, got.code, len(got.body), err)
		if err != nil {
			c.Check(i == len(want), "error %v instead of packet %d of %d", err, i, len(want))
			if clean {
				c.Check(err == io.EOF, "error %v at the end of a complete stream", err)
			}
			c.Outcome("%d %v", i, err)
			break
		}
		c.Check(i < len(want), "packet %d (msg %#x id %d, body of %d bytes) was invented", i, got.msg, got.id, len(got.body))
		w := want[i]
		if resp {
			w = w.seen(rc)
		} else {
			w.code = 0
		}
		c.Check(got.msg == w.msg && got.id == w.id && got.code == w.code, "packet %d has msg %#x id %d code %#x, want msg %#x id %d code %#x", i, got.msg, got.id, got.code, w.msg, w.id, w.code)
		c.Check(bytes.Equal(got.body, w.body), "packet %d has body %d bytes %.16x, want %d bytes %.16x", i, len(got.body), got.body, len(w.body), w.body)
		bodies = append(bodies, got.body)
		// what is appended to a body is nobody else's
		_ = append(got.body, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee)
	}
	for i, b := range bodies {
		w := want[i]
		if resp {
			w = w.seen(rc)
		}
		c.Check(bytes.Equal(b, w.body), "the body of packet %d was changed by later reads", i)
	}
}

var layouts = []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}

// kind picks requests or responses of a layout.
func kind(c *enum.C) (resp bool, rc nt.RCType) {
	k := c.Pick(4)
	if k == 0 {
		return false, nt.RC4byte
	}
	return true, layouts[k-1]
}

func encode(l []packet, resp bool, rc nt.RCType) (data []byte, ends []int) {
	for _, p := range l {
		if resp {
			data = append(data, p.response(rc)...)
		} else {
			data = append(data, p.request()...)
		}
		ends = append(ends, len(data))
	}
	return
}

// small picks packets with small bodies, return codes and pings.
func small(c *enum.C, n int, resp bool, rc nt.RCType, maxBody int) (l []packet) {
	for i := 0; i < n; i++ {
		p := packet{msg: uint32(0x11 + i), id: uint32(0x01020304 + i), short: -1, body: pattern(c.Pick(maxBody+1), 16*i+1)}
		if resp {
			k := 4
			if rc == nt.RC0byte {
				k = 2
			}
			switch c.Pick(k) {
			case 1:
				p.msg, p.id = uint32(iproto.Ping), ^uint32(0)
			case 2:
				p.code = 0x807f0102
			case 3:
				p.short = 0
				if rc == nt.RC4byte {
					p.short = c.Pick(4)
				}
				p.body = pattern(4, 9)
			}
		}
		l = append(l, p)
	}
	return
}

func prefix(l []packet, ends []int, n int) []packet {
	k := 0
	for k < len(ends) && ends[k] <= n {
		k++
	}
	return l[:k]
}

func main() {
	var s []enum.Scenario
	add := func(x enum.Scenario) { s = append(s, x) }
	add(enum.Scenario{
		Name:  "C11.every-cut",
		Doc:   "one packet, every way of cutting it into reads, end of stream with or after the last bytes",
		Quick: "requests and responses of 3 layouts, bodies of 0..2 bytes (thorough 0..4), return codes, pings, responses too short for their code; all 2^(n-1) segmentations of packets of n <= 16 bytes, of longer ones (everywhere in thorough) all segmentations of what follows byte 9; both end of stream styles",
		Run: func(c *enum.C) {
			resp, rc := kind(c)
			m := 2
			if c.Deep {
				m = 4
			}
			l := small(c, 1, resp, rc, m)
			data, _ := encode(l, resp, rc)
			r := &cutReader{data: data, end: io.EOF, with: c.Bool(), empty: -1}
			if len(data) > 16 && !c.Deep {
				// cuts inside the header were all seen with the short ones
				for i := 10; i < len(data); i++ {
					if c.Bool() {
						r.cuts = append(r.cuts, i)
					}
				}
			} else {
				for i := 1; i < len(data); i++ {
					if c.Bool() {
						r.cuts = append(r.cuts, i)
					}
				}
			}
			readAll(c, r, rc, resp, l, true)
		},
	})
	add(enum.Scenario{
		Name:  "C11.cuts",
		Doc:   "two and three packets in a row, up to two cuts anywhere (thorough: three), or pieces of equal size, with an empty read in between",
		Quick: "requests and responses of 3 layouts, bodies of 0..1 bytes, all pairs of packet kinds and all triples of equal kind; all placements of 0..2 cuts, all piece sizes; one empty read at any cut",
		Run: func(c *enum.C) {
			resp, rc := kind(c)
			l := small(c, 2, resp, rc, 1)
			if c.Bool() {
				l = append(l, packet{msg: 5, id: 6, code: 0x102, body: []byte("z"), short: -1})
			}
			data, _ := encode(l, resp, rc)
			r := &cutReader{data: data, end: io.EOF, with: c.Bool(), empty: -1}
			n := 2
			if c.Deep {
				n = 3
			}
			if c.Bool() {
				r.chunk = 1 + c.Pick(len(data))
				r.empty = r.chunk * c.Pick(3)
			} else {
				at := 0
				for i := 0; i < n; i++ {
					at += c.Pick(len(data) - at)
					r.cuts = append(r.cuts, at)
				}
				if c.Bool() {
					r.empty = r.cuts[0]
				}
			}
			readAll(c, r, rc, resp, l, true)
		},
	})
	add(enum.Scenario{
		Name:  "C11.truncated",
		Doc:   "two packets cut off at every point, by end of stream or an error, reported with or after the last bytes: the complete packets, then an error",
		Quick: "requests and responses of 3 layouts, all pairs of packet kinds with bodies of 0..2 bytes; all truncation points x {EOF, error} x {with, after} x {one cut anywhere, single bytes}",
		Run: func(c *enum.C) {
			resp, rc := kind(c)
			l := small(c, 2, resp, rc, 2)
			data, ends := encode(l, resp, rc)
			n := c.Pick(len(data) + 1)
			r := &cutReader{data: data[:n], end: io.EOF, empty: -1}
			if c.Bool() {
				r.end = errBroken
			}
			r.with = c.Bool()
			if k := c.Pick(n + 1); k == n {
				r.chunk = 1
			} else {
				r.cuts = []int{k}
			}
			readAll(c, r, rc, resp, prefix(l, ends, n), false)
		},
	})
	add(enum.Scenario{
		Name:  "C11.buffer",
		Doc:   "packets whose ends fall around the end of the reader's internal buffer, in pieces of many sizes",
		Quick: "first body 8160..8200 bytes or so that the header straddles, second 0, 1, 4, 8176, 8192, 20000, third 3 bytes; pieces of 1460, 4096, 8190..8194, 11, whole; both end styles; complete and truncated by 1 byte",
		Run: func(c *enum.C) {
			resp, rc := kind(c)
			l := []packet{
				{msg: 1, id: 1, code: 0x102, body: pattern(8160+c.Pick(41), 1), short: -1},
				{msg: 2, id: 2, code: 0x203, body: pattern([]int{0, 1, 4, 8176, 8192, 20000}[c.Pick(6)], 2), short: -1},
				{msg: 3, id: 3, code: 0x4, body: pattern(3, 3), short: -1},
			}
			data, ends := encode(l, resp, rc)
			n := len(data) - c.Pick(2)
			r := &cutReader{data: data[:n], end: io.EOF, with: c.Bool(), empty: -1, chunk: []int{0, 1460, 4096, 8190, 8191, 8192, 8193, 8194, 11}[c.Pick(9)]}
			readAll(c, r, rc, resp, prefix(l, ends, n), n == len(data))
		},
	})
	add(enum.Scenario{
		Name:  "C11.many",
		Doc:   "long runs of small packets that wrap the reader's internal buffer many times: bodies kept from the first to the last packet stay unchanged",
		Quick: "900 packets with body sizes (i*a+b) mod m for a in 1..7, b in 0..3, m in {1,2,5,33,600}, pieces of 1, 7, 100, 1460, 8192 bytes and whole, requests and responses of 3 layouts",
		Run: func(c *enum.C) {
			resp, rc := kind(c)
			a, b, m := 1+c.Pick(7), c.Pick(4), []int{1, 2, 5, 33, 600}[c.Pick(5)]
			if m == 1 && (a > 1 || b > 0) {
				c.Skip()
			}
			chunk := []int{0, 7, 100, 1460, 8192, 1}[c.Pick(6)]
			if chunk == 1 && m > 33 {
				c.Skip()
			}
			var l []packet
			for i := 0; i < 900; i++ {
				l = append(l, packet{msg: uint32(i % 3), id: uint32(i), code: uint32(i), body: pattern((i*a+b)%m, i), short: -1})
			}
			data, _ := encode(l, resp, rc)
			readAll(c, &cutReader{data: data, end: io.EOF, empty: -1, chunk: chunk}, rc, resp, l, true)
		},
	})
	add(enum.Scenario{
		Name:  "C11.ping",
		Doc:   "the handshake accepts a ping packet, however it is cut, and nothing else, and the packets after it are read",
		Quick: "message type and id each right or differing in one bit, bodies of 0, 1, 4 and 13 bytes, one cut anywhere, truncations; a response follows",
		Run: func(c *enum.C) {
			msg, id := uint32(iproto.Ping), uint32(iproto.PingRequestId)
			if k := c.Pick(33); k > 0 {
				msg ^= 1 << (k - 1)
			}
			if k := c.Pick(33); k > 0 {
				id ^= 1 << (k - 1)
			}
			body := []int{0, 1, 4, 13}[c.Pick(4)]
			if body > 0 && msg^uint32(iproto.Ping) > 1 || id != ^uint32(0) && msg != uint32(iproto.Ping) {
				c.Skip()
			}
			data := packet{msg: msg, id: id, body: pattern(body, 3)}.request()
			whole := len(data)
			next := packet{msg: 5, id: 6, code: 0x102, body: pattern(3, 1), short: -1}
			after, _ := encode([]packet{next}, true, nt.RC4byte)
			data = append(data, after...)
			n := len(data)
			if c.Bool() {
				n = c.Pick(whole)
			}
			var h nt.HeaderReader
			h.Init(&cutReader{data: data[:n], cuts: []int{c.Pick(n + 1)}, end: io.EOF, empty: -1}, 0, nt.RC4byte)
			err := h.ReadPing()
			c.Op(1)
			good := n >= whole && msg == uint32(iproto.Ping) && id == uint32(iproto.PingRequestId)
			c.Check((err == nil) == good, "a packet of %d bytes, of which %d are there, with msg %#x id %#x: error %v", whole, n, msg, id, err)
			if good {
				r, err := h.ReadResponse()
				c.Check(err == nil && uint32(r.Msg) == next.msg && r.Id == next.id && uint32(r.Code) == next.code && bytes.Equal(r.Body, next.body), "the packet after a ping with a body of %d bytes is read as %+v, %v", body, r, err)
			}
		},
	})
	writing(add)
	enum.Main(s)
}
