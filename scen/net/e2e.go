package main

import (
	"fmt"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verif/mc"
	"verif/mc/vnet"
)

// world is a server with a recording service, and clients connected to it.
type world struct {
	o       mc.Obj
	handled map[string]int
	work    chan *iproto.Request
	held    []*iproto.Request // mode 3
	srv     *server.Server
	clients []*vnet.TCPConn
	servers []*vnet.TCPConn
	rc      nt.RCType
	stopped bool // connections may be refused from now on
}

// newWorld: mode 0 answers in the reading thread, 1 in a thread per request,
// 2 by workers; requests whose body ends in '!' are never answered.
func newWorld(cfg server.Config, mode int) *world {
	w := &world{handled: map[string]int{}, rc: cfg.RCType}
	if mode == 2 {
		w.work = make(chan *iproto.Request, 16)
		for i := 0; i < 2; i++ {
			go func() {
				for r := range w.work {
					w.answer(r, string(r.Body))
				}
			}()
		}
	}
	cfg.Network, cfg.Address = "tcp", addr
	cfg.EndPoint = iproto.SF(func(r *iproto.Request) {
		b := string(r.Body)
		w.o.Touch()
		w.handled[b]++
		mc.Note("service got %q", b)
		mc.Check(r.Msg == msgA && len(b) > 1 && b[0] == 'q', "service got a request of type %#x with body %q, which nobody sent", uint32(r.Msg), b)
		mc.Check(w.handled[b] == 1, "request %q was handled %d times", b, w.handled[b])
		switch {
		case b[len(b)-1] == '!':
		case mode == 0:
			w.answer(r, b)
		case mode == 1:
			go w.answer(r, b)
		case mode == 2:
			w.work <- r
		case mode == 3:
			w.held = append(w.held, r)
		}
	})
	vnet.OnConn(func(c, s *vnet.TCPConn) {
		w.clients = append(w.clients, c)
		w.servers = append(w.servers, s)
	})
	w.srv = cfg.NewServer()
	err := w.srv.Run()
	mc.Check(err == nil, "server does not run: %v", err)
	return w
}

// code of the answer to a request: every fourth is an internal one.
func e2eCode(b string) iproto.RetCode {
	c := uint32(b[len(b)-1]) << 8 & 0x7f00
	switch b[len(b)-1] % 4 {
	case 0:
		return iproto.RetCode(c | 0x40)
	case 1:
		return iproto.RetCode(c | 0x41)
	case 2:
		return iproto.RetCode(c | 0x42)
	}
	return iproto.RetCode(c | 0x43)
}

func (w *world) answer(r *iproto.Request, b string) {
	r.Respond(e2eCode(b), iproto.Body("re:"+b))
}

func (w *world) count(b string) int { w.o.Touch(); return w.handled[b] }

// verdict: the call ended with its answer, or with one of the codes.
func (w *world) verdict(p *probe, b string, codes ...iproto.RetCode) bool {
	mc.Check(p.done(), "%s was not completed", p.name)
	for _, c := range codes {
		if p.code == c && p.body == "" {
			return false
		}
	}
	c := e2eCode(b)
	if c%8 == 3 {
		c--
	}
	mc.Check(p.code == wireCode(w.rc, c) && p.body == "re:"+b, "%s (%q) ended with code %#x body %q", p.name, b, uint32(p.code), p.body)
	mc.Check(w.count(b) == 1, "%s was answered without being handled", p.name)
	return true
}

func (w *world) end(cl ...*client.Server) {
	for _, s := range cl {
		s.Stop()
	}
	mc.Idle(500 * ms)
	for _, c := range w.clients {
		mc.Check(c.IsClosed(), "%s is open after the client was stopped", c.Name)
	}
	if !w.stopped {
		w.srv.Stop()
	}
	<-w.srv.Running
	if w.work != nil {
		close(w.work)
	}
}

func init() {
	// calls: calls between clients and a server.
	calls := func(name, doc string, nclients, ncalls, nconn, mode int, rc nt.RCType, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			w := newWorld(server.Config{RCType: rc}, mode)
			var cl []*client.Server
			for i := 0; i < nclients; i++ {
				cl = append(cl, newClient(client.ServerConfig{Connections: nconn, RetCodeType: rc}))
			}
			if mc.ChooseFree(2) == 1 {
				mc.Idle(1 * ms) // connected before the first call
			}
			begin()
			var ps []*probe
			for i := 0; i < nclients*ncalls; i++ {
				ps = append(ps, newProbe(i))
			}
			var fs []func()
			for i := range cl {
				i := i
				fs = append(fs, func() {
					for j := 0; j < ncalls; j++ {
						cl[i].Send(ps[i*ncalls+j].req)
					}
				})
			}
			parallel(fs...)
			until(alldone(ps), "calls do not end")
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i))
			}
			w.end(cl...)
		}})
	}
	calls("C22.calls", "3 calls of a client, answered by two workers", 1, 3, 1, 2, nt.RC4byte, mc.Bound{D: 3}, mc.Bound{D: 4})
	calls("C22.clients", "two clients with 2 calls each, answered by a thread each", 2, 2, 1, 1, nt.RC4byte, mc.Bound{D: 2}, mc.Bound{D: 3})
	calls("C22.conns", "4 calls over two connections, answered at once", 1, 4, 2, 0, nt.RC1byte, mc.Bound{D: 2}, mc.Bound{D: 3})

	add(mc.Scenario{Name: "C22.call", Doc: "calls that wait for their result, from three threads",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			w := newWorld(server.Config{}, 1)
			s := newClient(client.ServerConfig{})
			begin()
			call := func(i int) func() {
				return func() {
					b := fmt.Sprintf("q%d", i)
					res := iproto.CallMsgBody(s, msgA, iproto.Body(b))
					c := e2eCode(b)
					if c%8 == 3 {
						c--
					}
					mc.Check(res != nil && res.Msg == msgA && res.Code == c && string(res.Body) == "re:"+b, "call %q ended with %+v", b, res)
				}
			}
			parallel(call(0), call(3), func() {
				var cx iproto.Context
				res := cx.CallMsgBody(s, msgA, iproto.Body("q2"))
				mc.Check(res != nil && res.Code == e2eCode("q2") && string(res.Body) == "re:q2", "call \"q2\" ended with %+v", res)
				cx.Done()
			})
			mc.End()
			w.end(s)
		}})

	add(mc.Scenario{Name: "C22.timeout", Doc: "calls with a timeout, some of which are never answered or late",
		Quick: mc.Bound{D: 2, MaxEarly: 1}, Deep: mc.Bound{D: 3, MaxEarly: 2}, Run: func() {
			w := newWorld(server.Config{}, 0)
			s := newClient(client.ServerConfig{Timeout: 100 * ms})
			mc.Idle(1 * ms)
			begin()
			ps := newProbes(4)
			bodies := []string{"q0!", "q1", "q2!", "q3"}
			for i, p := range ps {
				p.req.Body = iproto.Body(bodies[i])
				s.Send(p.req)
			}
			until(alldone(ps), "calls do not end")
			mc.End()
			for i, p := range ps {
				ok := w.verdict(p, bodies[i], iproto.RcTimeout)
				mc.Check(!ok || i%2 == 1, "call %q was answered by nobody", bodies[i])
			}
			w.srv.Stop()
			w.stopped = true
			s.Stop()
			// requests which are never answered keep the server's connection
			// until writing to it fails; nothing more is expected here
		}})

	add(mc.Scenario{Name: "C22.cancel", Doc: "a call is cancelled at any moment, others go on",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			w := newWorld(server.Config{}, 1)
			s := newClient(client.ServerConfig{})
			mc.Idle(1 * ms)
			begin()
			ps := newProbes(2)
			s.Send(ps[0].req)
			parallel(func() { s.Send(ps[1].req) }, func() { ps[0].req.Cancel() })
			until(alldone(ps), "calls do not end")
			mc.End()
			w.verdict(ps[0], "q0", iproto.RcCanceled)
			w.verdict(ps[1], "q1")
			w.end(s)
		}})

	// halt: one side is stopped, or the connection breaks, at any moment.
	halt := func(name, doc string, mode int, how func(w *world, s *client.Server), q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			w := newWorld(server.Config{}, mode)
			s := newClient(client.ServerConfig{PingInterval: -1})
			if mc.ChooseFree(2) == 1 {
				mc.Idle(1 * ms)
			}
			begin()
			ps := newProbes(2)
			for _, p := range ps {
				s.Send(p.req)
			}
			parallel(func() { how(w, s) })
			until(alldone(ps), "calls do not end")
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i), iproto.RcIOError, iproto.RcShutdown)
			}
			if name == "C22.stopclient" {
				w.end()
			} else {
				w.end(s)
			}
		}})
	}
	halt("C22.stopserver", "the server is stopped at any moment", 1, func(w *world, s *client.Server) { w.srv.Stop(); w.stopped = true }, mc.Bound{D: 3}, mc.Bound{D: 4})
	halt("C22.stopclient", "the client is stopped at any moment", 2, func(w *world, s *client.Server) { s.Stop() }, mc.Bound{D: 3}, mc.Bound{D: 4})
	halt("C22.break", "the connection is reset at any moment", 1, func(w *world, s *client.Server) {
		if len(w.clients) > 0 {
			w.clients[0].Break(nil)
		}
	}, mc.Bound{D: 3}, mc.Bound{D: 4})

	add(mc.Scenario{Name: "C22.drain", Doc: "the server is stopped after it has got the requests: every call still gets its answer",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			w := newWorld(server.Config{}, 2)
			s := newClient(client.ServerConfig{PingInterval: -1})
			mc.Idle(1 * ms)
			begin()
			ps := newProbes(2)
			for _, p := range ps {
				s.Send(p.req)
			}
			until(func() bool { return w.count("q1") == 1 }, "requests do not arrive")
			w.srv.Stop()
			w.stopped = true
			until(alldone(ps), "calls do not end")
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i))
			}
			w.end(s)
		}})

	add(mc.Scenario{Name: "C22.proxy", Doc: "a server whose service is a client of another server",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			w := newWorld(server.Config{}, 0)
			inner := newClient(client.ServerConfig{})
			kind := mc.ChooseFree(2)
			var front *server.Server
			cfg := server.Config{Network: "tcp", Address: "front:1", EndPoint: iproto.Route(func(r *iproto.Request) { inner.Send(r) })}
			if kind == 1 {
				cfg.EndPoint = inner
			}
			front = cfg.NewServer()
			err := front.Run()
			mc.Check(err == nil, "server does not run: %v", err)
			s := client.ServerConfig{Network: "tcp", Address: "front:1", Connections: 1, PingInterval: -1}.NewServer()
			iproto.Run(s)
			mc.Idle(1 * ms)
			begin()
			ps := newProbes(3)
			for _, p := range ps {
				s.Send(p.req)
			}
			until(alldone(ps), "calls do not end")
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i))
			}
			s.Stop()
			mc.Idle(500 * ms)
			front.Stop()
			<-front.Running
			w.end(inner)
		}})
}
