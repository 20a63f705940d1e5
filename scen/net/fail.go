package main

import (
	"os"
	"syscall"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verif/mc"
	"verif/mc/vnet"
)

// settle lets a client recover, and checks that it works again.
func (f *fake) settle(s *client.Server, ps []*probe, last int) {
	mc.Idle(600 * ms)
	until(func() bool { return f.open() == f.limit }, "client has not got all its connections back")
	mc.Check(!ps[last].done(), "request %d completed before it was sent", last)
	s.Send(ps[last].req)
	until(ps[last].done, "a request sent after reconnecting is not completed")
	ps[last].own(last, f.rc)
}

func init() {
	// dial: connecting fails in several ways before it succeeds.
	dialing := func(name, doc string, nconn int, q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			ps := newProbes(3)
			var f *fake
			f = newFake(nconn, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			n, kind := mc.ChooseFree(3), mc.ChooseFree(4)
			vnet.DialPolicy(func(network, a string) (time.Duration, error) {
				mc.Check(network == "tcp" && a == addr, "client dials %s %s", network, a)
				if vnet.Dials() > n {
					return 0, nil
				}
				switch kind {
				case 0:
					return 0, syscall.ECONNREFUSED
				case 1:
					return 70 * ms, syscall.EHOSTUNREACH
				case 2:
					return time.Hour, os.ErrDeadlineExceeded
				}
				return 30 * ms, nil // slow, but it works
			})
			s := newClient(client.ServerConfig{Connections: nconn, DialTimeout: 200 * ms})
			begin()
			parallel(func() {
				s.Send(ps[0].req)
				mc.Idle(50 * ms)
				s.Send(ps[1].req)
			})
			until(alldone(ps[:2]), "requests sent while connecting are not completed")
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps[:2] {
				ok := p.either(f, i, iproto.RcIOError)
				mc.Check(ok || n > 0 && kind < 3, "%s failed although there was no failure", p.name)
			}
			f.settle(s, ps, 2)
			s.Stop()
			f.gone()
		}})
	}
	dialing("C14.dial", "dialing is refused, fails later, times out or is slow, twice at most", 1, mc.Bound{D: 3}, mc.Bound{D: 4})
	dialing("C14.dial2", "the same with two connections", 2, mc.Bound{D: 2}, mc.Bound{D: 3})

	add(mc.Scenario{Name: "C14.handshake", Doc: "the handshake fails in several ways before it succeeds",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			ps := newProbes(3)
			kind := mc.ChooseFree(8)
			n := 1 + mc.ChooseFree(2)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if nr < n {
					switch kind {
					case 0: // closes at once
						p.Close()
					case 1: // closes in the middle of the answer
						p.Write([]byte{0, 0xff, 0, 0, 0})
						p.Close()
					case 2: // no ping
						p.send(packet{7, pid, ""})
					case 3: // another id
						p.send(packet{ping, 5, ""})
					case 4: // silence
					case 5:
						p.Break(nil)
					case 6: // half an answer, then silence
						p.Write([]byte{0, 0xff, 0, 0, 0, 0})
					case 7: // see below
					}
					return
				}
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			if kind == 7 {
				f.onDial = func() { // no byte can be written
					if len(f.clients) <= n {
						f.clients[len(f.clients)-1].FailWritesAfter(0)
					}
				}
			}
			s := newClient(client.ServerConfig{ReadTimeout: 100 * ms})
			begin()
			s.Send(ps[0].req)
			s.Send(ps[1].req)
			until(alldone(ps[:2]), "requests sent while connecting are not completed")
			mc.End()
			f.wireCheck(ps)
			ps[0].either(f, 0, iproto.RcIOError)
			ps[1].either(f, 1, iproto.RcIOError)
			// pings keep the connection alive beyond its read timeout only if
			// they are frequent; here it may be replaced at any moment
			for i := 0; ; i++ {
				p := newProbe(2)
				s.Send(p.req)
				until(p.done, "a request sent after reconnecting is not completed")
				if p.code != iproto.RcIOError {
					p.own(2, nt.RC4byte)
					break
				}
				mc.Check(i < 10, "requests keep failing after reconnecting")
				mc.Idle(130 * ms)
			}
			s.Stop()
			f.gone()
		}})

	// broken: the established connection fails.
	broken := func(name, doc string, nconn, nreq int, how func(f *fake, p *peer), q, d mc.Bound) {
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			ps := newProbes(nreq + 1)
			var f *fake
			ready := make(chan *peer, 1)
			f = newFake(nconn, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nr == 0 {
					ready <- p
				}
				f.loop(p)
				p.Close()
			})
			s := newClient(client.ServerConfig{Connections: nconn, PingInterval: pingOrNot()})
			p0 := <-ready
			begin()
			parallel(func() {
				for _, p := range ps[:nreq] {
					s.Send(p.req)
				}
			}, func() {
				how(f, p0)
			})
			until(alldone(ps[:nreq]), "requests are not completed after a connection failed")
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps[:nreq] {
				p.either(f, i, iproto.RcIOError)
			}
			f.settle(s, ps, nreq)
			s.Stop()
			f.gone()
		}})
	}
	broken("C14.break", "the connection is reset at any moment", 1, 2, func(f *fake, p *peer) { p.Break(nil) }, mc.Bound{D: 3}, mc.Bound{D: 4})
	broken("C14.close", "the server closes the connection at any moment", 1, 2, func(f *fake, p *peer) { p.Close() }, mc.Bound{D: 3}, mc.Bound{D: 4})
	broken("C14.closewrite", "the server closes its sending side at any moment", 1, 2, func(f *fake, p *peer) { p.CloseWrite() }, mc.Bound{D: 3}, mc.Bound{D: 4})
	broken("C14.two", "one of two connections is reset at any moment", 2, 2, func(f *fake, p *peer) { p.Break(nil) }, mc.Bound{D: 2}, mc.Bound{D: 3})

	add(mc.Scenario{Name: "C14.partial", Doc: "the server answers some of 3 requests, in any order, perhaps half of one, and then the connection ends",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			ps := newProbes(4)
			pm := perm(3)
			na, half, how := mc.ChooseFree(4), mc.ChooseFree(2), mc.ChooseFree(3)
			given := map[string]bool{}
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nr > 0 {
					f.loop(p)
					p.Close()
					return
				}
				var ks []packet
				for len(ks) < 3 {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					ks = append(ks, k)
				}
				for _, i := range pm[:na] {
					given[ks[i].body] = true
					f.reply(p, ks[i])
				}
				if half == 1 && na < 3 {
					k := ks[pm[na]]
					b := packet{k.msg, k.id, codeBytes(nt.RC4byte, 0) + "re:" + k.body}.bytes()
					p.Write(b[:len(b)-2])
				}
				switch how {
				case 0:
					p.Close()
				case 1:
					p.CloseWrite()
				case 2:
					mc.Idle(1 * ms) // let the client have read the answers
					p.Break(nil)
				}
			})
			s := newClient(client.ServerConfig{PingInterval: pingOrNot()})
			begin()
			for _, p := range ps[:3] {
				s.Send(p.req)
			}
			until(alldone(ps[:3]), "requests are not completed after the connection failed")
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps[:3] {
				if given[string("q"+string(rune('0'+i)))] {
					p.own(i, nt.RC4byte)
				} else {
					mc.Check(p.code == iproto.RcIOError && p.body == "", "%s was not answered, and completed with code %#x body %q", p.name, uint32(p.code), p.body)
				}
			}
			f.settle(s, ps, 3)
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C14.writefail", Doc: "writing to the connection fails after any number of bytes, or times out",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			ps := newProbes(4)
			n := mc.ChooseFree(8)
			slow := mc.ChooseFree(2) == 1
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nr == 0 && slow {
					k, err := f.request(p)
					if err == nil {
						f.reply(p, k)
					}
					mc.Idle(400 * ms)
				}
				f.loop(p)
				p.Close()
			})
			f.onDial = func() {
				if len(f.clients) == 1 {
					if slow {
						f.clients[0].Window(12 + n*3)
					} else {
						f.clients[0].FailWritesAfter(int64(12 + n*7))
					}
				}
			}
			s := newClient(client.ServerConfig{WriteTimeout: 50 * ms, PingInterval: 250 * ms})
			begin()
			for _, p := range ps[:3] {
				s.Send(p.req)
			}
			until(alldone(ps[:3]), "requests are not completed after writing failed")
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps[:3] {
				p.either(f, i, iproto.RcIOError)
			}
			f.settle(s, ps, 3)
			s.Stop()
			f.gone()
		}})

	add(mc.Scenario{Name: "C14.down", Doc: "the server goes away for a while and comes back, several times",
		Quick: mc.Bound{D: 1}, Deep: mc.Bound{D: 2}, Run: func() {
			ps := newProbes(7)
			nconn := 1 + mc.ChooseFree(2)
			var f *fake
			var peers []*peer
			down := false
			f = newFake(nconn, func(p *peer, nr int) {
				peers = append(peers, p)
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			vnet.DialPolicy(func(string, string) (time.Duration, error) {
				if down {
					return 0, syscall.ECONNREFUSED
				}
				return 0, nil
			})
			s := newClient(client.ServerConfig{Connections: nconn, PingInterval: pingOrNot()})
			begin()
			for i := 0; i < 3; i++ {
				until(func() bool { return f.open() == nconn }, "client has not got all its connections back")
				s.Send(ps[2*i].req)
				until(ps[2*i].done, "request is not completed while connected")
				ps[2*i].own(2*i, nt.RC4byte)
				down = true
				for _, p := range peers {
					p.Close()
				}
				mc.Idle(700 * ms)
				mc.Check(f.open() == 0, "connections are open while the server is down")
				s.Send(ps[2*i+1].req)
				until(ps[2*i+1].done, "request sent while the server is down is not completed")
				mc.Check(ps[2*i+1].code == iproto.RcIOError, "request sent while the server is down ended with %#x", uint32(ps[2*i+1].code))
				down = false
			}
			mc.End()
			f.wireCheck(ps)
			f.settle(s, ps, 6)
			s.Stop()
			f.gone()
		}})
}
