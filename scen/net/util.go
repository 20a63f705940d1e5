// Package main (group net): a client and a server over a virtual network.
package main

import (
	"encoding/binary"
	"fmt"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"verif/mc"
	"verif/mc/vnet"
)

var scenarios []mc.Scenario

func add(s mc.Scenario) { scenarios = append(scenarios, s) }

const (
	ms   = time.Millisecond
	addr = "host:1"
	ping = uint32(0xFF00)
	pid  = ^uint32(0)
	msgA = iproto.RequestType(7)
)

// begin lets the library's background threads settle, then starts branching.
func begin() {
	mc.Idle(0)
	mc.Begin()
}

// parallel runs functions in threads of their own and waits for all of them.
func parallel(fs ...func()) {
	done := make(chan bool, len(fs))
	for _, f := range fs {
		f := f
		go func() {
			f()
			done <- true
		}()
	}
	for range fs {
		<-done
	}
}

// packet is what travels, taken apart by hand: type, length, id, body.
type packet struct {
	msg, id uint32
	body    string
}

func (p packet) bytes() []byte {
	b := make([]byte, 12, 12+len(p.body))
	binary.LittleEndian.PutUint32(b, p.msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(p.body)))
	binary.LittleEndian.PutUint32(b[8:], p.id)
	return append(b, p.body...)
}

func codeBytes(rc nt.RCType, code iproto.RetCode) string {
	switch rc {
	case nt.RC4byte:
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(code))
		return string(b[:])
	case nt.RC1byte:
		return string([]byte{byte(code)})
	}
	return ""
}

// wireCode is the code which arrives when code is sent.
func wireCode(rc nt.RCType, code iproto.RetCode) iproto.RetCode {
	switch rc {
	case nt.RC1byte:
		return code & 0xff
	case nt.RC0byte:
		return iproto.RcOK
	}
	return code
}

// answer is a response as the wire shows it.
type answer struct {
	msg, id uint32
	code    iproto.RetCode
	body    string
}

func (p packet) answer(rc nt.RCType) answer {
	a := answer{msg: p.msg, id: p.id, body: p.body}
	if p.msg == ping {
		return a
	}
	switch rc {
	case nt.RC4byte:
		mc.Check(len(p.body) >= 4, "response to %d has no room for its code: %q", p.id, p.body)
		a.code = iproto.RetCode(binary.LittleEndian.Uint32([]byte(p.body)))
		a.body = p.body[4:]
	case nt.RC1byte:
		mc.Check(len(p.body) >= 1, "response to %d has no room for its code: %q", p.id, p.body)
		a.code = iproto.RetCode(p.body[0])
		a.body = p.body[1:]
	}
	return a
}

// peer is our own end of a connection.
type peer struct {
	*vnet.TCPConn
	buf []byte
}

// next reads a packet; an error when the stream ends or breaks.
func (p *peer) next() (k packet, err error) {
	for {
		if len(p.buf) >= 12 {
			n := 12 + int(binary.LittleEndian.Uint32(p.buf[4:]))
			if len(p.buf) >= n {
				k.msg = binary.LittleEndian.Uint32(p.buf)
				k.id = binary.LittleEndian.Uint32(p.buf[8:])
				k.body = string(p.buf[12:n])
				p.buf = p.buf[n:]
				return
			}
		}
		var b [1024]byte
		n, err := p.Read(b[:])
		p.buf = append(p.buf, b[:n]...)
		if err != nil {
			return k, err
		}
	}
}

func (p *peer) send(l ...packet) error {
	var b []byte
	for _, k := range l {
		b = append(b, k.bytes()...)
	}
	_, err := p.Write(b)
	return err
}

// all reads the answers until the stream ends.
func (p *peer) all(rc nt.RCType) (l []answer, err error) {
	for {
		k, err := p.next()
		if err != nil {
			return l, err
		}
		l = append(l, k.answer(rc))
		mc.Note("client got %+v", l[len(l)-1])
	}
}

// counter is a shared counter whose accesses are ordered.
type counter struct {
	o mc.Obj
	n int
}

func (c *counter) inc() int { c.o.Touch(); c.n++; return c.n }
func (c *counter) get() int { c.o.Touch(); return c.n }

// probe is a Responder that insists on being called at most once.
type probe struct {
	o    mc.Obj
	name string
	id   uint32
	typ  iproto.RequestType
	n    int
	code iproto.RetCode
	body string
	req  *iproto.Request
}

func (p *probe) Respond(r *iproto.Response) {
	p.o.Touch()
	p.n++
	mc.Check(p.n == 1, "%s completed %d times", p.name, p.n)
	mc.Check(r.Id == p.id && r.Msg == p.typ, "%s completed with a response of id %d type %#x", p.name, r.Id, uint32(r.Msg))
	p.code, p.body = r.Code, string(r.Body)
	mc.Note("%s completed code=%#x body=%q", p.name, uint32(r.Code), p.body)
}

func (p *probe) done() bool { p.o.Touch(); return p.n > 0 }

// newProbe makes a request; its body and id are unlike those of any other.
func newProbe(i int) *probe {
	p := &probe{name: fmt.Sprintf("request %d", i), id: uint32(7000 + i), typ: msgA}
	p.req = &iproto.Request{Id: p.id, Msg: msgA, Body: iproto.Body(fmt.Sprintf("q%d", i)), Responder: p}
	return p
}

func newProbes(n int) (l []*probe) {
	for i := 0; i < n; i++ {
		l = append(l, newProbe(i))
	}
	return
}

func perm(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + mc.ChooseFree(n-i)
		l[i], l[j] = l[j], l[i]
	}
	return l
}
