package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/server"
	"verif/mc"
	"verif/mc/vnet"
)

// service records the requests a server hands over, and what it answered.
type service struct {
	o    mc.Obj
	seen []*handled
	work chan *handled // nil: answer at once
	hold bool          // nobody answers
}

type handled struct {
	r    *iproto.Request
	id   uint32
	msg  uint32
	body string
}

func (s *service) sf() iproto.SF {
	return func(r *iproto.Request) {
		s.o.TouchRel()
		h := &handled{r, r.Id, uint32(r.Msg), string(r.Body)}
		s.seen = append(s.seen, h)
		mc.Note("service got %d", h.id)
		if s.hold {
			return
		}
		if s.work == nil {
			h.reply()
		} else {
			s.work <- h
		}
	}
}

func (s *service) list() []*handled { s.o.TouchAcq(); return append([]*handled(nil), s.seen...) }

func (h *handled) code() iproto.RetCode { return iproto.RetCode(0x4000|(h.id%32)<<3) | iproto.RcFatal }
func (h *handled) ans() string          { return "re:" + h.body }
func (h *handled) reply()               { h.r.Respond(h.code(), iproto.Body(h.ans())) }

// workers answer requests until the channel is closed.
func (s *service) workers(n int) {
	for i := 0; i < n; i++ {
		go func() {
			for h := range s.work {
				h.reply()
			}
		}()
	}
}

// reqId: ids that mean something elsewhere come early.
func reqId(i int) uint32 {
	switch i {
	case 1:
		return pid
	case 2:
		return 0
	}
	return uint32(100 + i)
}

func reqs(from, n int) (l []packet) {
	for i := from; i < from+n; i++ {
		l = append(l, packet{[]uint32{0x20, 0xffffffff, 0, 0xff01}[i%4], reqId(i), fmt.Sprintf("q%d", i)})
	}
	return
}

// judge compares what a client sent, what the service saw and what came back.
// complete: every request the service saw must have been answered.
func judge(name string, sent []packet, seen []*handled, got []answer, complete bool, rc nt.RCType) {
	saw := map[uint32]*handled{}
	n := 0
	for _, h := range seen {
		mc.Check(saw[h.id] == nil, "%s: request %d was handled twice", name, h.id)
		saw[h.id] = h
	}
	for _, k := range sent {
		if h := saw[k.id]; h != nil {
			mc.Check(h.msg == k.msg && h.body == k.body, "%s: service got %d type %#x body %q, client sent type %#x body %q", name, h.id, h.msg, h.body, k.msg, k.body)
			n++
		}
	}
	mc.Check(n == len(seen), "%s: service got %d requests, %d of them were sent", name, len(seen), n)
	back := map[uint32]bool{}
	for _, a := range got {
		if a.msg == ping {
			mc.Check(a.body == "", "%s: answer to a ping has body %q", name, a.body)
			continue
		}
		h := saw[a.id]
		mc.Check(h != nil, "%s: answer to request %d which the service never got", name, a.id)
		mc.Check(!back[a.id], "%s: request %d was answered twice", name, a.id)
		back[a.id] = true
		mc.Check(a.msg == h.msg && a.code == wireCode(rc, h.code()) && a.body == h.ans(), "%s: answer to %d: type %#x code %#x body %q, service answered type %#x code %#x body %q", name, a.id, a.msg, uint32(a.code), a.body, h.msg, uint32(h.code()), h.ans())
	}
	if complete {
		for _, h := range seen {
			mc.Check(back[h.id], "%s: request %d was handled but not answered", name, h.id)
		}
	}
}

func pings(got []answer) (n int) {
	for _, a := range got {
		if a.msg == ping {
			n++
		}
	}
	return
}

type rig struct {
	srv     *server.Server
	svc     *service
	servers []*vnet.TCPConn
}

func newRig(cfg server.Config, svc *service) *rig {
	g := &rig{svc: svc}
	cfg.Network, cfg.Address = "tcp", addr
	if cfg.EndPoint == nil {
		cfg.EndPoint = svc.sf()
	}
	vnet.OnConn(func(c, s *vnet.TCPConn) { g.servers = append(g.servers, s) })
	g.srv = cfg.NewServer()
	err := g.srv.Run()
	mc.Check(err == nil, "server does not run: %v", err)
	return g
}

func dial() *peer {
	c, err := vnet.Dial("tcp", addr)
	mc.Check(err == nil, "cannot connect: %v", err)
	return &peer{TCPConn: c.(*vnet.TCPConn)}
}

// allClosed checks that the server has closed all connections it has served.
func (g *rig) allClosed() {
	for _, s := range g.servers {
		mc.Check(s.WriteClosed() || !s.Used, "server reported that it has stopped while %s is open", s.Name)
	}
}

// stopped waits until the server reports that it has stopped, and checks that
// all connections were closed by then and nothing is left running.
func (g *rig) stopped() {
	<-g.srv.Running
	g.allClosed()
	mc.Idle(100 * ms)
	for _, l := range mc.Live() {
		mc.Check(!strings.Contains(l, "net/server"), "still running after the server has stopped: %s", l)
	}
}

func init() {
	// answers: requests answered by threads of their own, then the client is done.
	answers := func(name, doc string, n, workers, pingAt, maxRead, clamp int, rc nt.RCType, q, d mc.Bound) {
		q.Clamp, d.Clamp = clamp, clamp
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			svc := &service{}
			if workers > 0 {
				svc.work = make(chan *handled, 16)
				svc.workers(workers)
			}
			g := newRig(server.Config{RCType: rc}, svc)
			c := dial()
			if maxRead > 0 {
				g.servers[0].MaxRead(maxRead)
			}
			begin()
			sent := reqs(0, n)
			var l []packet
			for i, k := range sent {
				if i == pingAt {
					l = append(l, packet{ping, pid, ""})
				}
				l = append(l, k)
			}
			c.send(l...)
			c.CloseWrite()
			got, err := c.all(rc)
			mc.End()
			mc.Check(err == io.EOF, "connection ended with %v", err)
			mc.Check(len(svc.list()) == n, "service got %d requests of %d", len(svc.list()), n)
			judge(name, sent, svc.list(), got, true, rc)
			if pingAt >= 0 {
				mc.Check(pings(got) == 1, "%d answers to one ping", pings(got))
			}
			g.srv.Stop()
			g.stopped()
		}})
	}
	answers("C16.answers", "3 requests and a ping, answered by 2 threads; the client has closed its side", 3, 2, 1, 0, 0, nt.RC4byte, mc.Bound{D: 3}, mc.Bound{D: 4})
	answers("C16.inline", "4 requests and a ping, answered in the reading thread", 4, 0, 3, 0, 0, nt.RC1byte, mc.Bound{D: 2}, mc.Bound{D: 4})
	answers("C16.overflow", "4 requests, answers overflow the output channel", 4, 2, -1, 0, 1, nt.RC4byte, mc.Bound{D: 3}, mc.Bound{D: 4})
	answers("C16.pieces", "2 requests that arrive in pieces", 2, 1, 1, 10, 0, nt.RC0byte, mc.Bound{D: 3}, mc.Bound{D: 4})

	// stop: the server is stopped at any moment.
	stop := func(name, doc string, nconn, n, workers int, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			svc := &service{}
			if workers > 0 {
				svc.work = make(chan *handled, 16)
				svc.workers(workers)
			}
			g := newRig(server.Config{}, svc)
			begin()
			var all []packet
			for i := 0; i < nconn; i++ {
				all = append(all, reqs(i*n, n)...)
			}
			got := make([][]answer, nconn)
			var fs []func()
			for i := 0; i < nconn; i++ {
				i := i
				fs = append(fs, func() {
					nc, err := vnet.Dial("tcp", addr)
					if err != nil {
						return // stopped before
					}
					c := &peer{TCPConn: nc.(*vnet.TCPConn)}
					for _, k := range all[i*n : i*n+n] {
						if c.send(k) != nil {
							break
						}
					}
					got[i], _ = c.all(nt.RC4byte)
				})
			}
			fs = append(fs, func() {
				g.srv.Stop()
				<-g.srv.Running
				g.allClosed()
				for _, h := range svc.list() {
					mc.Check(h.r.Performed(), "server reported that it has stopped before request %d was completed", h.id)
				}
			})
			parallel(fs...)
			mc.End()
			var back []answer
			for _, l := range got {
				back = append(back, l...)
			}
			judge(name, all, svc.list(), back, true, nt.RC4byte)
			g.stopped()
		}})
	}
	stop("C16.stop", "one connection with 2 requests answered by a thread; the server is stopped at any moment", 1, 2, 1, mc.Bound{D: 3}, mc.Bound{D: 4})
	stop("C16.stop2", "two connections with one request each, the server is stopped at any moment", 2, 1, 1, mc.Bound{D: 3}, mc.Bound{D: 4})

	// breaks: the connection is reset at any moment, or the server cannot write.
	add(mc.Scenario{Name: "C16.break", Doc: "the connection is reset at any moment; one request is answered later, the others never",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			svc := &service{work: make(chan *handled, 16)}
			g := newRig(server.Config{}, svc)
			c := dial()
			begin()
			sent := reqs(0, 3)
			sent[1] = packet{ping, pid, ""}
			var got []answer
			parallel(func() {
				c.send(sent...)
				got, _ = c.all(nt.RC4byte)
			}, func() {
				c.Break(nil)
			}, func() {
				mc.Idle(1 * ms)
				if len(svc.list()) > 0 {
					h := <-svc.work
					h.reply()
				}
				mc.Idle(1 * ms)
				for _, h := range svc.list() {
					mc.Check(h.r.Performed(), "request %d was neither answered nor cancelled after the connection broke", h.id)
				}
			}, func() {
				mc.Idle(10 * ms)
				g.srv.Stop()
				<-g.srv.Running
			})
			mc.End()
			judge("C16.break", []packet{sent[0], sent[2]}, svc.list(), got, false, nt.RC4byte)
			mc.Check(pings(got) <= 1, "%d answers to one ping", pings(got))
			g.stopped()
		}})
	add(mc.Scenario{Name: "C16.breakanswers", Doc: "the connection is reset at any moment while threads answer; then the server is stopped",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			svc := &service{work: make(chan *handled, 16)}
			svc.workers(2)
			g := newRig(server.Config{}, svc)
			c := dial()
			begin()
			sent := reqs(0, 2)
			var got []answer
			parallel(func() {
				c.send(sent...)
				got, _ = c.all(nt.RC4byte)
			}, func() {
				c.Break(nil)
			}, func() {
				g.srv.Stop()
				<-g.srv.Running
			})
			mc.End()
			judge("C16.breakanswers", sent, svc.list(), got, false, nt.RC4byte)
			for _, h := range svc.list() {
				mc.Check(h.r.Performed(), "request %d was neither answered nor cancelled after the connection broke", h.id)
			}
			g.stopped()
		}})
	add(mc.Scenario{Name: "C16.writefail", Doc: "writing fails after any number of answers, with requests that nobody answers",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			svc := &service{work: make(chan *handled, 16)}
			g := newRig(server.Config{}, svc)
			c := dial()
			g.servers[0].FailWritesAfter(int64(mc.ChooseFree(4) * 11))
			begin()
			sent := reqs(0, 3)
			go func() {
				for i := 0; i < 2; i++ {
					h, ok := <-svc.work
					if !ok {
						return
					}
					h.reply()
				}
			}()
			c.send(sent...)
			got, _ := c.all(nt.RC4byte)
			mc.Idle(10 * ms)
			mc.End()
			judge("C16.writefail", sent, svc.list(), got, false, nt.RC4byte)
			for _, h := range svc.list() {
				mc.Check(h.r.Performed(), "request %d was neither answered nor cancelled after writing failed", h.id)
			}
			close(svc.work)
			g.srv.Stop()
			g.stopped()
		}})

	// slow: the client does not read for a long time.
	slow := func(name, doc string, timeout bool, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			svc := &service{work: make(chan *handled, 16)}
			cfg := server.Config{}
			if timeout {
				cfg.WriteTimeout = 50 * ms
			}
			g := newRig(cfg, svc)
			c := dial()
			g.servers[0].Window(20)
			begin()
			sent := reqs(0, 5)
			done := &counter{}
			for w := 0; w < 2; w++ {
				go func() {
					for h := range svc.work {
						h.reply()
						done.inc()
					}
				}()
			}
			c.send(sent...)
			c.send(packet{ping, pid, ""})
			mc.Idle(40 * ms)
			mc.Check(done.get() == len(svc.list()), "answering blocks while the client does not read: %d of %d answered", done.get(), len(svc.list()))
			if timeout {
				mc.Idle(40 * ms)
			}
			c.CloseWrite()
			got, err := c.all(nt.RC4byte)
			mc.End()
			judge(name, sent, svc.list(), got, !timeout, nt.RC4byte)
			if !timeout {
				mc.Check(err == io.EOF, "connection ended with %v", err)
				mc.Check(len(svc.list()) == 5 && pings(got) == 1, "%d requests of 5 handled, %d pings answered", len(svc.list()), pings(got))
			}
			close(svc.work)
			g.srv.Stop()
			g.stopped()
		}})
	}
	slow("C16.slow", "the client reads nothing until 5 answers and one to a ping are ready", false, mc.Bound{D: 2, Clamp: 1}, mc.Bound{D: 3, Clamp: 1})
	slow("C16.slowtimeout", "the client reads nothing until writing to it has timed out", true, mc.Bound{D: 2, Clamp: 1}, mc.Bound{D: 3, Clamp: 1})

	add(mc.Scenario{Name: "C16.accepterr", Doc: "accepting fails now and then; connections come and go",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			svc := &service{}
			g := newRig(server.Config{}, svc)
			begin()
			vnet.ListenerAt("tcp", addr).InjectAcceptError(errors.New("too many open files"))
			for i := 0; i < 3; i++ {
				c := dial()
				sent := reqs(i, 1)
				c.send(sent...)
				k, err := c.next()
				mc.Check(err == nil, "connection ended with %v", err)
				judge("C16.accepterr", sent, svc.list()[i:], []answer{k.answer(nt.RC4byte)}, true, nt.RC4byte)
				switch i {
				case 0:
					c.CloseWrite()
					_, err = c.all(nt.RC4byte)
					mc.Check(err == io.EOF, "connection ended with %v", err)
				case 1:
					c.Close()
				}
				vnet.ListenerAt("tcp", addr).InjectAcceptError(errors.New("too many open files"))
			}
			g.srv.Stop()
			mc.End()
			g.stopped()
		}})

	add(mc.Scenario{Name: "C16.sameids", Doc: "two connections use the same ids at the same time, and again after they were answered",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			svc := &service{work: make(chan *handled, 16)}
			svc.workers(2)
			g := newRig(server.Config{}, svc)
			begin()
			n := &counter{}
			client := func(i int) func() {
				return func() {
					c := dial()
					for round := 0; round < 2; round++ {
						var bodies []string
						for id := uint32(0); id < 2; id++ {
							bodies = append(bodies, fmt.Sprintf("c%d r%d i%d", i, round, id))
							c.send(packet{uint32(msgA), id, bodies[id]})
						}
						got := map[uint32]bool{}
						for j := 0; j < 2; j++ {
							k, err := c.next()
							mc.Check(err == nil, "connection ended with %v", err)
							a := k.answer(nt.RC4byte)
							mc.Check(a.id < 2 && !got[a.id] && a.body == "re:"+bodies[a.id], "client %d got id %d body %q in round %d", i, a.id, a.body, round)
							got[a.id] = true
							n.inc()
						}
					}
					c.CloseWrite()
					l, err := c.all(nt.RC4byte)
					mc.Check(len(l) == 0 && err == io.EOF, "client %d got %v and %v at the end", i, l, err)
				}
			}
			parallel(client(1), client(2))
			mc.End()
			mc.Check(n.get() == 8, "%d answers of 8", n.get())
			close(svc.work)
			g.srv.Stop()
			g.stopped()
		}})

	add(mc.Scenario{Name: "C16.stopidle", Doc: "a server with no connection, or with idle ones, is stopped while one connects",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 5}, Run: func() {
			svc := &service{}
			g := newRig(server.Config{}, svc)
			idle := mc.ChooseFree(3)
			for i := 0; i < idle; i++ {
				dial()
			}
			begin()
			parallel(func() {
				vnet.Dial("tcp", addr)
			}, func() {
				g.srv.Stop()
				<-g.srv.Running
				g.allClosed()
			})
			mc.End()
			g.stopped()
		}})

	add(mc.Scenario{Name: "C16.long", Doc: "300 requests answered in several orders while the client reads now and then",
		Quick: mc.Bound{D: 0, MaxSteps: 2000000}, Deep: mc.Bound{D: -1, MaxSteps: 2000000}, Run: func() {
			svc := &service{work: make(chan *handled, 400)}
			g := newRig(server.Config{}, svc)
			c := dial()
			order, read := mc.ChooseFree(4), mc.ChooseFree(4)
			if read > 0 {
				g.servers[0].Window([]int{0, 30, 1000, 3000}[read])
			}
			begin()
			const n = 300
			sent := reqs(0, n)
			for i := 0; i < n; i += 50 {
				c.send(sent[i : i+50]...)
			}
			mc.Idle(1 * ms)
			h := svc.list()
			mc.Check(len(h) == n, "service got %d requests of %d", len(h), n)
			var got []answer
			take := func(k int) {
				for ; k > 0; k-- {
					p, err := c.next()
					mc.Check(err == nil, "connection ended with %v", err)
					got = append(got, p.answer(nt.RC4byte))
				}
			}
			for i := 0; i < n; i++ {
				j := i
				switch order {
				case 1:
					j = n - 1 - i
				case 2:
					j = i * 7 % n
				case 3:
					j = i ^ 1
				}
				h[j].reply()
				if read == 2 && i == 200 {
					take(180)
				}
				if read == 3 && i%100 == 99 {
					take(100)
				}
			}
			c.CloseWrite()
			rest, err := c.all(nt.RC4byte)
			got = append(got, rest...)
			mc.End()
			mc.Check(err == io.EOF, "connection ended with %v", err)
			judge("C16.long", sent, svc.list(), got, true, nt.RC4byte)
			g.srv.Stop()
			g.stopped()
		}})
}
