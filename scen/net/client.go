package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verif/mc"
	"verif/mc/vnet"
)

// fake is the server side of the tests of clients: it records what arrives.
type fake struct {
	o       mc.Obj
	l       *vnet.TCPListener
	clients []*vnet.TCPConn // the client's ends, in the order of dialing
	wire    []packet        // requests that have arrived
	answers map[string]bool // bodies of requests that have been answered
	limit   int             // connections a client may have at once
	serve   func(p *peer, nr int)
	refuse  int // dials to refuse
	rc      nt.RCType
	onDial  func()
}

func newFake(limit int, serve func(p *peer, nr int)) *fake {
	l, err := vnet.Listen("tcp", addr)
	mc.Check(err == nil, "cannot listen: %v", err)
	f := &fake{l: l.(*vnet.TCPListener), limit: limit, serve: serve, answers: map[string]bool{}}
	vnet.OnConn(func(c, s *vnet.TCPConn) {
		f.clients = append(f.clients, c)
		if f.onDial != nil {
			f.onDial()
		}
		mc.Check(f.open() <= f.limit, "client has %d connections, configured are %d", f.open(), f.limit)
	})
	go func() {
		for nr := 0; ; nr++ {
			c, err := f.l.Accept()
			if err != nil {
				return
			}
			p := &peer{TCPConn: c.(*vnet.TCPConn)}
			nr := nr
			go f.serve(p, nr)
		}
	}()
	return f
}

// open counts the connections the client can still send on.
func (f *fake) open() (n int) {
	for _, c := range f.clients {
		if !c.WriteClosed() && !c.WriteFailed && !c.Failed() {
			n++
		}
	}
	return
}

// greet is the handshake.
func (f *fake) greet(p *peer) bool {
	k, err := p.next()
	if err != nil {
		return false
	}
	mc.Check(k.msg == ping && k.id == pid && k.body == "", "connection starts with packet type %#x id %#x body %q", k.msg, k.id, k.body)
	return p.send(k) == nil
}

// request reads the next request, answering pings.
func (f *fake) request(p *peer) (k packet, err error) {
	for {
		if k, err = p.next(); err != nil {
			return
		}
		if k.msg == ping {
			mc.Check(k.id == pid && k.body == "", "ping has id %#x body %q", k.id, k.body)
			p.send(k)
			continue
		}
		f.o.Touch()
		mc.Check(len(k.body) > 1 && k.body[0] == 'q', "server got a request of type %#x with body %q, which nobody sent", k.msg, k.body)
		f.wire = append(f.wire, k)
		mc.Note("server got %q under id %d", k.body, k.id)
		return
	}
}

func ansCode(body string) iproto.RetCode {
	return iproto.RetCode(uint32(body[len(body)-1])<<8 | 0x40 | 5)
}

// reply to a request: code and body depend on its body.
func (f *fake) reply(p *peer, k packet) error {
	f.o.Touch()
	f.answers[k.body] = true
	return p.send(packet{k.msg, k.id, codeBytes(f.rc, ansCode(k.body)) + "re:" + k.body})
}

func (f *fake) answered(b string) bool { f.o.Touch(); return f.answers[b] }
func (f *fake) arrived() []packet      { f.o.Touch(); return append([]packet(nil), f.wire...) }

// loop answers every request until the client closes.
func (f *fake) loop(p *peer) {
	for {
		k, err := f.request(p)
		if err != nil {
			break
		}
		f.reply(p, k)
	}
}

// pingOrNot: a failure must be noticed without pings, too.
func pingOrNot() time.Duration { return []time.Duration{250 * ms, -1}[mc.ChooseFree(2)] }

func newClient(cfg client.ServerConfig) *client.Server {
	cfg.Network, cfg.Address = "tcp", addr
	if cfg.Connections == 0 {
		cfg.Connections = 1
	}
	if cfg.PingInterval == 0 {
		cfg.PingInterval = -1
	}
	s := cfg.NewServer()
	iproto.Run(s)
	return s
}

// wireCheck: what arrived are the requests of the probes, each at most once.
func (f *fake) wireCheck(ps []*probe) {
	seen := map[string]bool{}
	for _, k := range f.arrived() {
		known := false
		for i := range ps {
			known = known || k.body == fmt.Sprintf("q%d", i)
		}
		mc.Check(known && k.msg == uint32(msgA), "server got a request of type %#x with body %q, which nobody sent", k.msg, k.body)
		mc.Check(!seen[k.body], "request %q was sent twice", k.body)
		mc.Check(k.id != pid, "request %q was sent under the ping id", k.body)
		seen[k.body] = true
	}
}

// own checks that a request was completed with its own answer.
func (p *probe) own(i int, rc nt.RCType) {
	b := fmt.Sprintf("q%d", i)
	mc.Check(p.done(), "%s was not completed", p.name)
	mc.Check(p.code == wireCode(rc, ansCode(b)) && p.body == "re:"+b, "%s completed with code %#x body %q", p.name, uint32(p.code), p.body)
}

// either checks that a request was completed with its answer or one of codes.
func (p *probe) either(f *fake, i int, codes ...iproto.RetCode) (ok bool) {
	mc.Check(p.done(), "%s was not completed", p.name)
	for _, c := range codes {
		if p.code == c && p.body == "" {
			return false
		}
	}
	p.own(i, f.rc)
	mc.Check(f.answered(fmt.Sprintf("q%d", i)), "%s completed with an answer nobody gave", p.name)
	return true
}

// gone checks that a stopped client has closed everything and does nothing more.
func (f *fake) gone() {
	mc.Idle(500 * ms)
	for _, c := range f.clients {
		mc.Check(c.IsClosed(), "%s is still open after the client was stopped", c.Name)
	}
	for _, l := range mc.Live() {
		mc.Check(!strings.Contains(l, "client") && !strings.Contains(l, "connection.(") && !strings.Contains(l, "SimplePoint") && !strings.Contains(l, "Buffer"), "still running after the client was stopped: %s", l)
	}
	n := vnet.Dials()
	mc.Idle(3000 * ms)
	mc.Check(vnet.Dials() == n, "a stopped client dials")
}

func until(f func() bool, what string) {
	for i := 0; !f(); i++ {
		mc.Check(i < 100, "%s", what)
		mc.Idle(100 * ms)
	}
}

func alldone(ps []*probe) func() bool {
	return func() bool {
		for _, p := range ps {
			if !p.done() {
				return false
			}
		}
		return true
	}
}

// setCounter moves a new client connection close to the end of its ids.
func setCounter(s *client.Server, v uint32) bool {
	m := reflect.ValueOf(s).Elem().FieldByName("connections")
	if !m.IsValid() || m.Kind() != reflect.Map {
		return false
	}
	it := m.MapRange()
	ok := false
	for it.Next() {
		c := it.Value()
		if c.Kind() != reflect.Ptr || c.Elem().Kind() != reflect.Struct {
			return false
		}
		h := c.Elem().FieldByName("inFly")
		if !h.IsValid() || h.Kind() != reflect.Struct {
			return false
		}
		id := h.FieldByName("curId")
		if !id.IsValid() || id.Kind() != reflect.Uint32 {
			return false
		}
		*(*uint32)(unsafe.Pointer(id.UnsafeAddr())) = v
		ok = true
	}
	return ok
}

func init() {
	// order: answers in any order.
	order := func(name, doc string, n, senders, nconn int, rc nt.RCType, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			ps := newProbes(n)
			pm := perm(n)
			var f *fake
			all := &counter{}
			f = newFake(nconn, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nconn > 1 {
					f.loop(p)
					p.Close()
					return
				}
				var ks []packet
				for i := 0; i < n; i++ {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					for _, o := range ks {
						mc.Check(o.id != k.id, "two requests in flight have the same id %d", k.id)
					}
					ks = append(ks, k)
				}
				for _, i := range pm {
					f.reply(p, ks[i])
				}
				_, err := f.request(p)
				mc.Check(err == io.EOF, "connection ended with %v", err)
				p.Close()
			})
			f.rc = rc
			s := newClient(client.ServerConfig{Connections: nconn, RetCodeType: rc})
			begin()
			var fs []func()
			for t := 0; t < senders; t++ {
				t := t
				fs = append(fs, func() {
					for i := t; i < n; i += senders {
						s.Send(ps[i].req)
						all.inc()
					}
				})
			}
			parallel(fs...)
			mc.Idle(1 * ms)
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				p.own(i, rc)
			}
			s.Stop()
			f.gone()
		}})
	}
	order("C13.order", "3 requests from one thread, answered in every order", 3, 1, 1, nt.RC4byte, mc.Bound{D: 3}, mc.Bound{D: 4})
	order("C13.senders", "2 requests from two threads, answered in both orders", 2, 2, 1, nt.RC1byte, mc.Bound{D: 4}, mc.Bound{D: 5})
	order("C13.conns", "3 requests from two threads over two connections", 3, 2, 2, nt.RC4byte, mc.Bound{D: 2}, mc.Bound{D: 3})

	// cancel: a request is completed by somebody else meanwhile.
	cancel := func(name, doc string, how int, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			ps := newProbes(3)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{})
			begin()
			code := iproto.RcCanceled
			parallel(func() {
				for _, p := range ps {
					s.Send(p.req)
				}
			}, func() {
				switch how {
				case 0:
					ps[0].req.Cancel()
				case 1:
					ps[0].req.Expire()
					code = iproto.RcTimeout
				}
			})
			mc.Idle(1 * ms)
			mc.End()
			f.wireCheck(ps)
			ps[0].either(f, 0, code)
			ps[1].own(1, nt.RC4byte)
			ps[2].own(2, nt.RC4byte)
			s.Stop()
			f.gone()
		}})
	}
	cancel("C13.cancel", "3 requests, the first is cancelled at any moment", 0, mc.Bound{D: 3}, mc.Bound{D: 5})
	cancel("C13.expire", "3 requests, the first expires at any moment", 1, mc.Bound{D: 3}, mc.Bound{D: 5})

	add(mc.Scenario{Name: "C13.late", Doc: "a request times out; its answer arrives late, among those of others",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 5}, Run: func() {
			ps := newProbes(4)
			when := mc.ChooseFree(3) // the late answer: first, between, last
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				var ks []packet
				for i := 0; i < 3; i++ {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					ks = append(ks, k)
				}
				l := [][]int{{0, 1, 2}, {1, 0, 2}, {1, 2, 0}}[when]
				for _, i := range l {
					f.reply(p, ks[i])
				}
				f.loop(p)
				p.Close()
			})
			s := newClient(client.ServerConfig{Timeout: 50 * ms})
			begin()
			s.Send(ps[0].req)
			mc.Idle(60 * ms)
			mc.Check(ps[0].done() && ps[0].code == iproto.RcTimeout, "request did not time out")
			s.Send(ps[1].req)
			s.Send(ps[2].req)
			mc.Idle(1 * ms)
			s.Send(ps[3].req)
			mc.Idle(1 * ms)
			mc.End()
			f.wireCheck(ps)
			for i := 1; i < 4; i++ {
				ps[i].own(i, nt.RC4byte)
			}
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C13.stuck", Doc: "requests completed while the connection is stuck are not written later",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 5}, Run: func() {
			ps := newProbes(5)
			goOn := make(chan bool)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				f.clients[nr].Window(5)
				<-goOn
				f.loop(p)
				p.Close()
			})
			s := newClient(client.ServerConfig{})
			begin()
			s.Send(ps[0].req)
			mc.Idle(1 * ms)
			for _, p := range ps[1:] {
				s.Send(p.req)
			}
			ps[1].req.Cancel()
			ps[3].req.Expire()
			goOn <- true
			mc.Idle(1 * ms)
			mc.End()
			f.wireCheck(ps)
			for _, k := range f.arrived() {
				mc.Check(k.body != "q1" && k.body != "q3", "request %q was written after it had been completed", k.body)
			}
			for _, i := range []int{0, 2, 4} {
				ps[i].own(i, nt.RC4byte)
			}
			mc.Check(ps[1].code == iproto.RcCanceled && ps[3].code == iproto.RcTimeout, "completed with %#x and %#x", uint32(ps[1].code), uint32(ps[3].code))
			s.Stop()
			f.gone()
		}})

	// rows: long histories of ids.
	rows := func(name, doc string, start uint32, n int) {
		b := mc.Bound{D: 0, MaxSteps: 5000000}
		add(mc.Scenario{Name: name, Doc: doc, Quick: b, Deep: mc.Bound{D: -1}, Run: func() {
			batch := []int{1, 7, 250, 255, 256, 600}[mc.ChooseFree(6)]
			pat := mc.ChooseFree(4)
			ps := newProbes(n)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				var first *packet
				inFly := map[uint32]bool{}
				reply := func(k packet) {
					delete(inFly, k.id)
					f.reply(p, k)
				}
				got := 0
				if start > 0 {
					// the reader has to notice that the ids have moved
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					mc.Note("first id is %#x", k.id)
					f.reply(p, k)
					got++
				}
				for got < n {
					var ks []packet
					for i := 0; i < batch && got < n; i++ {
						k, err := f.request(p)
						mc.Check(err == nil, "connection ended with %v", err)
						mc.Check(!inFly[k.id] && k.id != pid, "id %#x is used by two requests in flight, or for pings", k.id)
						inFly[k.id] = true
						got++
						if first == nil && pat == 3 {
							first = &k
							continue
						}
						ks = append(ks, k)
					}
					for i := range ks {
						switch pat {
						case 0, 3:
							reply(ks[i])
						case 1:
							reply(ks[len(ks)-1-i])
						case 2:
							j := i * 101 % len(ks)
							if len(ks)%101 == 0 {
								j = i
							}
							reply(ks[j])
						}
					}
				}
				if first != nil {
					reply(*first)
				}
				f.loop(p)
				p.Close()
			})
			var s *client.Server
			s = newClient(client.ServerConfig{})
			if start > 0 {
				f.onDial = func() { mc.Note("ids moved: %v", setCounter(s, start)) }
			}
			begin()

			from := 0
			if start > 0 {
				s.Send(ps[0].req)
				mc.Idle(1 * ms)
				from = 1
			}
			for i := from; i < n; i += batch {
				for j := i; j < i+batch && j < n; j++ {
					s.Send(ps[j].req)
				}
				mc.Idle(1 * ms)
			}
			mc.End()
			f.wireCheck2(ps)
			for i, p := range ps {
				p.own(i, nt.RC4byte)
			}
			s.Stop()
			f.gone()
		}})
	}
	// round: requests in flight since the ids began anew.
	add(mc.Scenario{Name: "C13.round", Doc: "requests stay in flight while all the ids of their connection are used up and begin anew: ids in flight are distinct, every answer goes to its request, also the late ones",
		Quick: mc.Bound{D: 0, MaxSteps: 5000000}, Deep: mc.Bound{D: -1}, Run: func() {
			old := []int{1, 3, 254, 255, 300, 520}[mc.ChooseFree(6)]
			breaks := mc.ChooseFree(2) == 1
			late := mc.ChooseFree(2) == 1 // newer ones are answered after the old ones
			// the first ids may be free again when the others begin anew
			base := mc.ChooseFree(2) * 300
			n := base + 1300
			ps := newProbes(n)
			var s *client.Server
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				inFly := map[uint32]bool{}
				var held, rest []packet
				for i := 0; i < n; i++ {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					mc.Check(!inFly[k.id] && k.id != pid, "id %#x is used by two requests in flight, or for pings", k.id)
					inFly[k.id] = true
					switch {
					case i < base:
						f.reply(p, k)
						delete(inFly, k.id)
					case i < base+old:
						held = append(held, k)
						if i == base+old-1 {
							mc.Note("ids moved: %v", setCounter(s, 0xfffffe70))
						}
					case i == base+old || !late:
						f.reply(p, k)
						delete(inFly, k.id)
					default:
						rest = append(rest, k)
					}
				}
				if breaks {
					for _, k := range rest {
						f.reply(p, k)
					}
					p.Close()
					return
				}
				for _, k := range append(held, rest...) {
					f.reply(p, k)
				}
				f.loop(p)
				p.Close()
			})
			s = newClient(client.ServerConfig{})
			begin()
			send := func(from, to int) {
				for i := from; i < to; i++ {
					s.Send(ps[i].req)
				}
				mc.Idle(1 * ms)
			}
			if base > 0 {
				send(0, base)
			}
			send(base, base+old)
			send(base+old, base+old+1)
			for i := base + old + 1; i < n; i += 200 {
				to := i + 200
				if to > n {
					to = n
				}
				send(i, to)
			}
			mc.End()
			f.wireCheck2(ps)
			for i, p := range ps {
				if breaks && i >= base && i < base+old {
					mc.Check(p.done() && p.code == iproto.RcIOError, "request %d, in flight when its connection broke, ended with %#x", i, uint32(p.code))
				} else {
					p.own(i, nt.RC4byte)
				}
			}
			s.Stop()
			f.gone()
		}})
	rows("C13.rows", "700 requests over one connection, in batches answered in several orders", 0, 700)
	rows("C13.wrap", "the same when ids are about to be used up", 0xfffffe70, 700)
}

// wireCheck2 is wireCheck for many requests.
func (f *fake) wireCheck2(ps []*probe) {
	seen := map[string]int{}
	for _, k := range f.arrived() {
		seen[k.body]++
	}
	for i := range ps {
		mc.Check(seen[fmt.Sprintf("q%d", i)] == 1, "request %d was sent %d times", i, seen[fmt.Sprintf("q%d", i)])
	}
	mc.Check(len(seen) == len(ps), "%d different requests arrived, %d were sent", len(seen), len(ps))
}
