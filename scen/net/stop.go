package main

import (
	"syscall"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verif/mc"
	"verif/mc/vnet"
)

func init() {
	// stop: the client is stopped at any moment.
	stop := func(name, doc string, nconn, nreq int, closes bool, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			ps := newProbes(nreq)
			var f *fake
			f = newFake(nconn, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				f.loop(p)
				if closes {
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{Connections: nconn, PingInterval: pingOrNot()})
			if mc.ChooseFree(2) == 1 {
				mc.Idle(1 * ms) // connected when the first request is sent
			}
			begin()
			for _, p := range ps[:nreq-1] {
				s.Send(p.req)
			}
			// the last one may be sent while the client is being told to stop
			// nothing: sending is over when it is stopped
			s.Send(ps[nreq-1].req)
			parallel(func() { s.Stop() })
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				ok := p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
				mc.Check(ok || !f.answered(string(rune('q'))+string(rune('0'+i))), "%s was written and answered, and completed with %#x", p.name, uint32(p.code))
			}
		}})
	}
	stop("C15.stop", "2 requests are sent and the client is stopped at any moment; the server closes when the client does", 1, 2, true, mc.Bound{D: 3}, mc.Bound{D: 4})
	stop("C15.stopopen", "the same with a server that never closes", 1, 2, false, mc.Bound{D: 3}, mc.Bound{D: 4})
	stop("C15.stop2", "two connections, 2 requests", 2, 2, true, mc.Bound{D: 2}, mc.Bound{D: 3})
	stop("C15.stop3", "three connections, 3 requests, a server that never closes", 3, 3, false, mc.Bound{D: 1}, mc.Bound{D: 2})

	// slow: answers arrive long after the client was stopped.
	add(mc.Scenario{Name: "C15.slowanswers", Doc: "answers to 3 requests arrive in any order after the client was stopped, perhaps one of them never",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			ps := newProbes(3)
			pm := perm(3)
			lost := mc.ChooseFree(2)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				var ks []packet
				for len(ks) < 3 {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					ks = append(ks, k)
				}
				for n, i := range pm[:3-lost] {
					mc.Idle(100 * ms)
					mc.Check(!f.clients[0].IsClosed(), "client closed its connection before it got answer %d of 3", n+1)
					f.reply(p, ks[i])
				}
				if lost == 1 {
					mc.Idle(300 * ms)
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{})
			begin()
			for _, p := range ps {
				s.Send(p.req)
			}
			mc.Idle(1 * ms)
			s.Stop()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				if i == pm[2] && lost == 1 {
					p.either(f, i, iproto.RcShutdown, iproto.RcIOError)
				} else {
					p.own(i, nt.RC4byte)
				}
			}
		}})

	// the last answer arrives when the end of writing is noted.
	add(mc.Scenario{Name: "C15.stop-order", Doc: "the server answers when it sees that the client stopped writing, and never closes; stores may be delayed as by a processor",
		Quick: mc.Bound{D: 5}, Deep: mc.Bound{D: 7}, Run: func() {
			ps := newProbes(1)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				k, err := f.request(p)
				mc.Check(err == nil, "connection ended with %v", err)
				_, err = f.request(p)
				mc.Check(err != nil, "there was a second request")
				f.reply(p, k)
				f.request(p)
			})
			s := newClient(client.ServerConfig{})
			s.Send(ps[0].req)
			mc.Idle(1 * ms)
			s.Stop()
			mc.Idle(195 * ms)
			begin()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			ps[0].own(0, nt.RC4byte)
		}})

	// phases: stopped while connecting or disconnected.
	add(mc.Scenario{Name: "C15.phases", Doc: "stopped while dialing, in the handshake, while the server refuses or cannot be reached, or between attempts",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			ps := newProbes(2)
			kind := mc.ChooseFree(7)
			nconn := 1 + mc.ChooseFree(2)
			at := time.Duration([]int{0, 20, 210}[mc.ChooseFree(3)]) * ms
			var f *fake
			f = newFake(nconn, func(p *peer, nr int) {
				switch kind {
				case 4: // silence until the read timeout
					return
				case 5: // closes in the handshake
					p.Close()
					return
				case 6: // one good, one silent
					if nr%2 == 1 {
						return
					}
				}
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			vnet.DialPolicy(func(string, string) (time.Duration, error) {
				switch kind {
				case 1:
					return 0, syscall.ECONNREFUSED
				case 2:
					return 50 * ms, syscall.EHOSTUNREACH
				case 3:
					return 50 * ms, nil
				}
				return 0, nil
			})
			s := newClient(client.ServerConfig{Connections: nconn, DialTimeout: 100 * ms, ReadTimeout: 150 * ms})
			begin()
			s.Send(ps[0].req)
			if at > 0 {
				mc.Idle(at)
			}
			s.Send(ps[1].req)
			s.Stop()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
			}
		}})

	// lost: the connection fails while the client is stopped.
	add(mc.Scenario{Name: "C15.lost", Doc: "the connection is reset at any moment while the client is stopped at any moment",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			ps := newProbes(2)
			hard := mc.ChooseFree(2)
			ready := make(chan *peer, 4)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if f.greet(p) {
					ready <- p
					f.loop(p)
				}
			})
			s := newClient(client.ServerConfig{})
			p0 := <-ready
			begin()
			for _, p := range ps {
				s.Send(p.req)
			}
			parallel(func() { s.Stop() }, func() {
				if hard == 1 {
					p0.Break(nil)
				} else {
					p0.Close()
				}
			})
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
			}
		}})

	// stuck: the server does not read while the client is stopped.
	add(mc.Scenario{Name: "C15.stuck", Doc: "the server does not read for a while, or until writing times out, when the client is stopped",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			ps := newProbes(3)
			timeout := mc.ChooseFree(2) == 1
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nr == 0 {
					mc.Idle(300 * ms)
				}
				f.loop(p)
				p.Close()
			})
			f.onDial = func() { f.clients[len(f.clients)-1].Window(13) }
			cfg := client.ServerConfig{}
			if timeout {
				cfg.WriteTimeout = 100 * ms
			}
			s := newClient(cfg)
			begin()
			s.Send(ps[0].req)
			mc.Idle(10 * ms)
			s.Send(ps[1].req)
			s.Send(ps[2].req)
			s.Stop()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				ok := p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
				mc.Check(ok || timeout || !f.answered(string(rune('q'))+string(rune('0'+i))), "%s was written and answered, and completed with %#x", p.name, uint32(p.code))
			}
		}})

	// resize: the number of connections changes while requests flow.
	resize := func(name, doc string, sizes [][]int, nreq int, slow bool, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			ps := newProbes(nreq)
			l := sizes[mc.ChooseFree(len(sizes))]
			max := 0
			for _, n := range l {
				if n > max {
					max = n
				}
			}
			var f *fake
			f = newFake(max, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				f.loop(p)
				p.Close()
			})
			d := 0 * ms
			if slow {
				// the client looks at the number of its connections every 200 ms
				d = []time.Duration{150 * ms, 500 * ms}[mc.ChooseFree(2)]
				vnet.DialPolicy(func(string, string) (time.Duration, error) { return d, nil })
			}
			s := newClient(client.ServerConfig{Connections: l[0]})
			begin()
			parallel(func() {
				for i, p := range ps {
					s.Send(p.req)
					if slow || i%2 == 1 {
						mc.Idle(150 * ms)
					}
				}
			}, func() {
				for _, n := range l[1:] {
					if slow {
						mc.Idle(210 * ms)
					}
					s.SetConnections(n)
				}
			})
			mc.Idle(1000 * ms)
			want := l[len(l)-1]
			open := 0
			for _, c := range f.clients {
				if !c.IsClosed() {
					open++
				}
			}
			mc.Check(open == want, "%d connections are open, wanted are %d (after %v)", open, want, l)
			f.limit = want
			mc.Idle(1000 * ms)
			mc.End()
			mc.Check(f.open() == want, "%d connections are open later, wanted are %d (after %v)", f.open(), want, l)
			if want == 0 {
				s.SetConnections(1)
				f.limit = 1
			}
			until(alldone(ps), "requests are not completed after the number of connections changed")
			f.wireCheck(ps)
			for i, p := range ps {
				if d == 500*ms {
					// all connections may have been stopped before they were established
					p.either(f, i, iproto.RcIOError)
				} else {
					p.own(i, nt.RC4byte)
				}
			}
			s.Stop()
			f.gone()
		}})
	}
	resize("C15.resize", "one and two connections", [][]int{{1, 2}, {2, 1}}, 3, false, mc.Bound{D: 3}, mc.Bound{D: 4})
	resize("C15.resize3", "from one to three to one, and back and forth", [][]int{{1, 3, 1}, {3, 1, 2}, {2, 0}, {1, 0, 1}}, 2, false, mc.Bound{D: 2}, mc.Bound{D: 3})
	resize("C15.resizeslow", "resized while connections are being dialed", [][]int{{1, 3, 1}, {3, 1, 3}, {2, 1, 0}, {3, 2}, {1, 1}}, 4, true, mc.Bound{D: 2}, mc.Bound{D: 3})

	add(mc.Scenario{Name: "C15.regrow", Doc: "connections are taken away and brought back while a request is in flight on one of them",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			n := 1 + mc.ChooseFree(2)
			gap := []time.Duration{0, 50 * ms, 300 * ms}[mc.ChooseFree(3)]
			ps := newProbes(3)
			release := make(chan bool, 1)
			var f *fake
			f = newFake(2*n, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				for {
					k, err := f.request(p)
					if err != nil {
						break
					}
					if k.body == "q0" {
						<-release
					}
					f.reply(p, k)
				}
				p.Close()
			})
			s := newClient(client.ServerConfig{Connections: n})
			mc.Idle(1 * ms)
			begin()
			s.Send(ps[0].req)
			mc.Idle(1 * ms)
			s.SetConnections(0)
			if gap > 0 {
				mc.Idle(gap)
			}
			s.SetConnections(n)
			mc.Idle(250 * ms)
			fresh := 0
			for _, c := range f.clients {
				if !c.IsClosed() && !c.WriteClosed() {
					fresh++
				}
			}
			mc.Check(fresh == n, "%d connections are in use, wanted are %d, while an old one waits for an answer", fresh, n)
			s.Send(ps[1].req)
			release <- true
			until(alldone(ps[:2]), "requests are not completed after the number of connections changed")
			ps[0].own(0, nt.RC4byte)
			ps[1].own(1, nt.RC4byte)
			mc.Idle(250 * ms)
			mc.End()
			f.wireCheck(ps)
			mc.Check(f.open() == n, "%d connections are open, wanted are %d", f.open(), n)
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C15.resizestop", Doc: "resized and stopped at the same time",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			ps := newProbes(2)
			l := [][]int{{1, 2}, {2, 1}, {1, 3}}[mc.ChooseFree(3)]
			var f *fake
			f = newFake(3, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				f.loop(p)
			})
			s := newClient(client.ServerConfig{Connections: l[0]})
			if mc.ChooseFree(2) == 1 {
				mc.Idle(1 * ms)
			}
			begin()
			s.Send(ps[0].req)
			s.Send(ps[1].req)
			parallel(func() { s.SetConnections(l[1]) }, func() { s.Stop() })
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
			}
		}})
}
