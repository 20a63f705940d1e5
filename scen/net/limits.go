package main

import (
	"fmt"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verif/mc"
	"verif/mc/vnet"
)

// Time limits and keep-alive. No timer fires while a thread can run here, so
// the clock shows exactly when the library acts.

// exactly allows for the clock ticking a little with every look at it.
func exactly(d, limit time.Duration) bool { return d >= limit && d < limit+ms }

func since(t int64) time.Duration { return time.Duration(mc.Now() - t) }

func init() {
	add(mc.Scenario{Name: "C24.alive", Doc: "client and server with read time limits; pings keep idle connections alive through pauses of any length",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			limit := 150 * ms
			lim := mc.ChooseFree(4)
			nconn := 1
			if lim == 3 {
				nconn += mc.ChooseFree(2)
			}
			cfg, scfg := client.ServerConfig{Connections: nconn, PingInterval: 100 * ms}, server.Config{}
			if lim&1 != 0 {
				cfg.ReadTimeout, cfg.WriteTimeout = limit, limit
			}
			if lim&2 != 0 {
				scfg.ReadTimeout, scfg.WriteTimeout = limit, limit
			}
			if lim == 0 && mc.ChooseFree(2) == 1 {
				cfg.PingInterval = -1
			}
			w := newWorld(scfg, 1)
			s := newClient(cfg)
			mc.Idle(1 * ms)
			begin()
			pauses := []time.Duration{0, 140 * ms, 450 * ms}
			ps := newProbes(3)
			for i, p := range ps {
				if i > 0 {
					mc.Idle(pauses[mc.ChooseFree(len(pauses))])
				}
				s.Send(p.req)
				mc.Idle(10 * ms)
				w.verdict(p, fmt.Sprintf("q%d", i))
			}
			mc.End()
			mc.Check(len(w.clients) == nconn, "%d connections were made, %d are configured, and none had a reason to end", len(w.clients), nconn)
			for _, c := range w.clients {
				mc.Check(!c.IsClosed() && !c.WriteClosed(), "%s was closed", c.Name)
			}
			w.end(s)
		}})

	add(mc.Scenario{Name: "C24.pings", Doc: "an idle connection is pinged every interval, not at all when that is disabled, and still between calls",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			ivs := []time.Duration{-1, 70 * ms, 500 * ms, 0}
			iv := ivs[mc.ChooseFree(len(ivs))]
			calls := mc.ChooseFree(2) == 1
			held := mc.ChooseFree(2) == 1 // a request is in flight all the time
			n := &counter{}
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				for {
					k, err := p.next()
					if err != nil {
						p.Close()
						return
					}
					if k.msg == ping {
						mc.Check(k.id == pid && k.body == "", "ping has id %#x body %q", k.id, k.body)
						n.inc()
						p.send(k)
						continue
					}
					f.o.Touch()
					f.wire = append(f.wire, k)
					if k.body != "q9" {
						f.reply(p, k)
					}
				}
			})
			s := client.ServerConfig{Network: "tcp", Address: addr, Connections: 1, PingInterval: iv}.NewServer()
			iproto.Run(s)
			mc.Idle(5 * ms)
			begin()
			if iv == 0 {
				iv = client.DefaultPingInterval
			}
			last := newProbe(9)
			if held {
				s.Send(last.req)
			}
			ps := newProbes(6)
			for i := range ps {
				if calls {
					s.Send(ps[i].req)
				}
				mc.Idle(360 * ms)
				if calls {
					ps[i].own(i, nt.RC4byte)
				}
			}
			mc.End()
			want := 0
			if iv > 0 {
				want = int(6 * 360 * ms / iv)
			}
			mc.Check(n.get() >= want && n.get() <= want+1, "%d pings in %v at an interval of %v", n.get(), 6*360*ms, iv)
			mc.Check(len(f.clients) == 1, "%d connections were made", len(f.clients))
			if held {
				last.req.Cancel()
			}
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C24.hours", Doc: "a connection without time limits and pings rests for hours: nothing is sent, nothing ends",
		Quick: mc.Bound{D: 0, Horizon: 4 * time.Hour, MaxSteps: 1000000}, Deep: mc.Bound{D: 0, Horizon: 40 * time.Hour, MaxSteps: 10000000}, Run: func() {
			w := newWorld(server.Config{}, 1)
			s := newClient(client.ServerConfig{PingInterval: -1})
			mc.Idle(1 * ms)
			begin()
			ps := newProbes(2)
			s.Send(ps[0].req)
			mc.Idle(10 * ms)
			w.verdict(ps[0], "q0")
			n := w.clients[0].Written()
			mc.Idle(2 * time.Hour)
			mc.Check(w.clients[0].Written() == n, "something was sent")
			s.Send(ps[1].req)
			mc.Idle(10 * ms)
			w.verdict(ps[1], "q1")
			mc.End()
			mc.Check(len(w.clients) == 1, "%d connections were made", len(w.clients))
			w.end(s)
		}})

	add(mc.Scenario{Name: "C24.silent", Doc: "a server falls silent; its connection ends after the read time limit, counted from the last byte",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			limit := 100 * ms
			if mc.ChooseFree(2) == 1 {
				limit = 0
			}
			shake := mc.ChooseFree(2) == 1          // silent in the handshake already
			parts := mc.ChooseFree(4)               // pieces of an answer that come
			idle := !shake && mc.ChooseFree(2) == 1 // no request is in flight
			var f *fake
			ps := newProbes(3)
			last := int64(-1)
			ended := int64(-1)
			var o mc.Obj
			mark := func(p *int64) { o.Touch(); *p = mc.Now() }
			f = newFake(1, func(p *peer, nr int) {
				if nr > 0 {
					if f.greet(p) {
						f.loop(p)
						p.Close()
					}
					return
				}
				if shake {
					k, err := p.next()
					mc.Check(err == nil, "connection ended with %v", err)
					b := k.bytes()
					for i := 0; i < parts; i++ {
						mc.Sleep(90 * ms)
						p.Write(b[i : i+1])
						mark(&last)
					}
				} else {
					if !f.greet(p) {
						return
					}
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					f.reply(p, k)
					mark(&last)
					b := packet{ping, pid, "xxxxxxxx"}.bytes()
					if !idle {
						if k, err = f.request(p); err == nil {
							b = packet{k.msg, k.id, codeBytes(nt.RC4byte, 0) + "re"}.bytes()
						}
					}
					if err == nil {
						for i := 0; i < parts; i++ {
							mc.Sleep(60 * ms)
							p.Write(b[i*5 : i*5+5])
							mark(&last)
						}
					}
				}
				var b [100]byte
				for {
					if _, err := p.Read(b[:]); err != nil {
						break
					}
				}
				mark(&ended)
				p.Close()
			})
			if shake {
				mark(&last)
			}
			s := newClient(client.ServerConfig{ReadTimeout: limit})
			begin()
			if !shake {
				mc.Idle(20 * ms)
				s.Send(ps[0].req)
				mc.Idle(1 * ms)
				ps[0].own(0, nt.RC4byte)
				mc.Idle(20 * ms)
			}
			if !idle {
				s.Send(ps[1].req)
			}
			get := func() (int64, int64) { o.Touch(); return last, ended }
			if limit == 0 {
				mc.Idle(100 * time.Second)
				_, e := get()
				mc.Check(e < 0 && !ps[1].done(), "a connection without read time limit ended while the server was silent")
				mc.End()
				f.clients[0].Break(nil)
			} else {
				for i := 0; ; i++ {
					mc.Idle(5 * ms)
					l, e := get()
					if e >= 0 {
						mc.Check(exactly(time.Duration(e-l), limit), "silence of the server ended the connection after %v, its limit is %v", time.Duration(e-l), limit)
						break
					}
					mc.Check(i < 100, "a connection with a read time limit of %v did not end when the server fell silent", limit)
				}
				mc.End()
			}
			if !idle {
				until(ps[1].done, "a request in flight on a connection that ended is not completed")
			}
			if shake {
				ps[1].either(f, 1, iproto.RcIOError)
			} else if !idle {
				mc.Check(ps[1].code == iproto.RcIOError && ps[1].body == "", "a request in flight on a connection that ended was completed with code %#x body %q", uint32(ps[1].code), ps[1].body)
			}
			for i := 0; ; i++ {
				p := newProbe(2)
				s.Send(p.req)
				until(p.done, "a request sent after reconnecting is not completed")
				if p.code != iproto.RcIOError {
					p.own(2, nt.RC4byte)
					break
				}
				mc.Check(i < 10, "requests keep failing after reconnecting")
				mc.Idle(130 * ms)
			}
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C24.blocked", Doc: "a server stops reading for a while; writing to it fails when the write time limit is over, not before",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			limit := 100 * ms
			if mc.ChooseFree(2) == 1 {
				limit = 0
			}
			pause := []time.Duration{0, 90 * ms, 110 * ms, 5 * time.Second, 100 * time.Second}[mc.ChooseFree(5)]
			var f *fake
			ps := newProbes(3)
			go_ := make(chan bool, 1)
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nr == 0 {
					<-go_
				}
				f.loop(p)
				p.Close()
			})
			s := newClient(client.ServerConfig{WriteTimeout: limit})
			mc.Idle(5 * ms)
			f.clients[0].Window(20)
			begin()
			start := mc.Now()
			s.Send(ps[0].req)
			mc.Idle(5 * ms)
			s.Send(ps[1].req)
			if pause > 0 {
				mc.Idle(pause)
			}
			start2 := start + 5*int64(ms)
			if limit > 0 && mc.Now()-start2 > int64(limit) {
				mc.Check(f.clients[0].WriteClosed() || f.clients[0].Failed() || f.clients[0].WriteFailed, "writing was blocked for %v, its limit of %v is over, and the connection is in use", since(start2), limit)
			} else {
				mc.Check(!f.clients[0].WriteClosed() && !f.clients[0].WriteFailed && !f.clients[0].IsClosed(), "writing was blocked for %v, its limit is %v, and the connection is not in use any more", since(start2), limit)
			}
			go_ <- true
			until(alldone(ps[:2]), "requests are not completed after the server has started reading again")
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps[:2] {
				if p.either(f, i, iproto.RcIOError) == false {
					mc.Check(limit > 0 && pause > limit, "request %d failed, though writing was blocked for %v only, the limit is %v", i, pause, limit)
				}
			}
			if limit == 0 || pause < limit {
				mc.Check(len(f.clients) == 1, "%d connections were made", len(f.clients))
			}
			f.settle(s, ps, 2)
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C24.silentclient", Doc: "a client falls silent; the server ends reading after its limit, counted from the last byte, and still answers",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			limit := 100 * ms
			if mc.ChooseFree(2) == 1 {
				limit = 0
			}
			svc := &service{work: make(chan *handled, 16)}
			parts := mc.ChooseFree(4)
			late := mc.ChooseFree(2) == 1 // the answer comes when reading has ended
			pinging := mc.ChooseFree(2) == 1
			g := newRig(server.Config{ReadTimeout: limit}, svc)
			c := dial()
			begin()
			last := mc.Now()
			if pinging {
				for i := 0; i < 3; i++ {
					c.send(packet{ping, pid, ""})
					k, err := c.next()
					mc.Check(err == nil && k.msg == ping && k.id == pid && k.body == "", "answer to a ping: %+v, %v", k, err)
					last = mc.Now()
					mc.Idle(80 * ms)
				}
			}
			sent := reqs(0, 2)
			c.send(sent[0])
			last = mc.Now()
			b := sent[1].bytes()
			for i := 0; i < parts; i++ {
				mc.Idle(90 * ms)
				c.Write(b[i*3 : i*3+3])
				last = mc.Now()
			}
			var h *handled
			if !late {
				h = <-svc.work
				h.reply()
				k, err := c.next()
				mc.Check(err == nil, "connection ended with %v, %v after the last byte, the limit is %v", err, since(last), limit)
				judge("C24.silentclient", sent, svc.list(), []answer{k.answer(nt.RC4byte)}, true, nt.RC4byte)
				if limit == 0 {
					mc.Idle(100 * time.Second)
					mc.End()
					mc.Check(!g.servers[0].IsClosed() && !g.servers[0].WriteClosed(), "a connection without read time limit ended")
					c.Close()
				} else {
					_, err := c.next()
					mc.End()
					mc.Check(err != nil && exactly(since(last), limit), "connection ended with %v, %v after the last byte, the limit is %v", err, since(last), limit)
				}
			} else {
				d := 300 * ms
				if limit == 0 {
					d = 100 * time.Second
				}
				mc.Idle(d)
				mc.Check(!g.servers[0].WriteClosed(), "the connection was closed before a request read from it was answered")
				h = <-svc.work
				h.reply()
				k, err := c.next()
				mc.Check(err == nil, "connection ended with %v before the answer", err)
				judge("C24.silentclient", sent, svc.list(), []answer{k.answer(nt.RC4byte)}, true, nt.RC4byte)
				if limit > 0 {
					at := mc.Now()
					_, err = c.next()
					mc.Check(err != nil && since(at) < ms, "reading timed out and the last request was answered, but the connection ended with %v %v later", err, since(at))
				} else {
					c.Close()
				}
				mc.End()
			}
			g.srv.Stop()
			g.stopped()
		}})

	add(mc.Scenario{Name: "C24.blockedclient", Doc: "a client stops reading for a while; writing to it fails when the write time limit is over, not before",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			limit := 100 * ms
			if mc.ChooseFree(2) == 1 {
				limit = 0
			}
			pause := []time.Duration{0, 90 * ms, 110 * ms, 5 * time.Second, 100 * time.Second}[mc.ChooseFree(5)]
			again := mc.ChooseFree(2) == 1
			svc := &service{}
			g := newRig(server.Config{WriteTimeout: limit}, svc)
			c := dial()
			g.servers[0].Window(30)
			begin()
			sent := reqs(0, 4)
			var got []answer
			lost := limit > 0 && pause > limit
			for i := 0; i < 2 && (i == 0 || again && !lost); i++ {
				c.send(sent[i*2 : i*2+2]...)
				if pause > 0 {
					mc.Idle(pause)
				}
				mc.Check(g.servers[0].WriteFailed == lost && g.servers[0].IsClosed() == lost, "writing was blocked for %v, the limit is %v, and the connection is closed: %v", pause, limit, g.servers[0].IsClosed())
				for j := 0; j < 2; j++ {
					k, err := c.next()
					if err != nil {
						mc.Check(lost, "connection ended with %v after writing was blocked for %v, the limit is %v", err, pause, limit)
						break
					}
					got = append(got, k.answer(nt.RC4byte))
				}
			}
			mc.End()
			judge("C24.blockedclient", sent, svc.list(), got, !lost, nt.RC4byte)
			c.Close()
			g.srv.Stop()
			g.stopped()
		}})

	add(mc.Scenario{Name: "C24.dial", Doc: "an address that neither accepts nor refuses: dialing is given up after its time limit and tried again",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			limit := []time.Duration{0, 300 * ms, 2 * time.Second}[mc.ChooseFree(3)]
			answer := []time.Duration{100 * ms, 290 * ms, 400 * ms, 1900 * ms, 4900 * ms, 5100 * ms, time.Hour}[mc.ChooseFree(7)]
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			n := 0
			var o mc.Obj
			var at []int64
			vnet.DialPolicy(func(network, a string) (time.Duration, error) {
				o.Touch()
				n++
				at = append(at, mc.Now())
				mc.Check(network == "tcp" && a == addr, "client dials %s %s", network, a)
				if n <= 2 {
					return answer, nil
				}
				return 0, nil
			})
			begin()
			s := newClient(client.ServerConfig{DialTimeout: limit})
			if limit == 0 {
				limit = 5 * time.Second
			}
			ok := answer < limit
			if ok {
				mc.Idle(answer + ms)
			} else {
				mc.Idle(2*limit + 500*ms)
			}
			p := newProbe(0)
			s.Send(p.req)
			mc.Idle(ms)
			p.own(0, nt.RC4byte)
			mc.End()
			o.Touch()
			if ok {
				mc.Check(n == 1, "%d dials, the first one should have succeeded", n)
			} else {
				mc.Check(n == 3, "%d dials, the third one should have succeeded", n)
				for i := 1; i < 3; i++ {
					d := time.Duration(at[i] - at[i-1])
					mc.Check(d >= limit && d <= limit+250*ms, "dial %d came %v after the one before, the limit is %v", i+1, d, limit)
				}
			}
			s.Stop()
			f.gone()
		}})
}
