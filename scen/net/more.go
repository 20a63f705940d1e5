package main

import (
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verif/mc"
	"verif/mc/vnet"
)

func big(i, n int) string {
	return fmt.Sprintf("q%d%s.%d", i, strings.Repeat("x", n), i)
}

func init() {
	// C13: bodies that do not fit the output buffer are written while the
	// request is being put on the wire.
	add(mc.Scenario{Name: "C13.large", Doc: "requests with bodies larger than the output buffer, answered and cancelled at any moment",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			what := mc.ChooseFree(3)
			ps := newProbes(2)
			bodies := []string{big(0, 70000), big(1, 10)}
			for i, p := range ps {
				p.req.Body = iproto.Body(bodies[i])
			}
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{})
			begin()
			codes := []iproto.RetCode{iproto.RcCanceled, iproto.RcTimeout}
			parallel(func() {
				s.Send(ps[0].req)
				s.Send(ps[1].req)
			}, func() {
				switch what {
				case 1:
					ps[0].req.Cancel()
				case 2:
					ps[0].req.Expire()
				}
			})
			mc.Idle(1 * ms)
			mc.End()
			for i, p := range ps {
				mc.Check(p.done(), "%s was not completed", p.name)
				if i == 0 && what > 0 && p.code == codes[what-1] && p.body == "" {
					continue
				}
				mc.Check(p.code == ansCode(bodies[i]) && p.body == "re:"+bodies[i], "%s completed with code %#x and %d bytes, its answer has %d", p.name, uint32(p.code), len(p.body), len(bodies[i])+3)
			}
			seen := map[string]bool{}
			for _, k := range f.arrived() {
				mc.Check(!seen[k.body] && (k.body == bodies[0] || k.body == bodies[1]), "a request with %d bytes arrived, which nobody sent or which arrived before", len(k.body))
				seen[k.body] = true
			}
			mc.Check(seen[bodies[1]], "the second request did not arrive")
			s.Stop()
			f.gone()
		}})

	// C13: a new row of ids is begun while an answer of the old one is taken.
	add(mc.Scenario{Name: "C13.rowborder", Doc: "the request that begins a new row of ids races with the answers to the last ones of the old row",
		Quick: mc.Bound{D: 2, MaxSteps: 100000}, Deep: mc.Bound{D: 3, MaxSteps: 100000}, Run: func() {
			const n = 262
			ps := newProbes(n)
			m := 253 + mc.ChooseFree(4)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{})
			mc.Idle(1 * ms)
			for i := 0; i < m; i++ {
				s.Send(ps[i].req)
				mc.Idle(0)
			}
			begin()
			for i := m; i < m+3; i++ {
				s.Send(ps[i].req)
			}
			mc.Idle(1 * ms)
			mc.End()
			for i := m + 3; i < n; i++ {
				s.Send(ps[i].req)
				mc.Idle(0)
			}
			f.wireCheck2(ps)
			for i, p := range ps {
				p.own(i, nt.RC4byte)
			}
			s.Stop()
			f.gone()
		}})

	// C13: answers of all kinds of codes.
	add(mc.Scenario{Name: "C13.codes", Doc: "answers with codes of every kind and at the ends of their range, in every width",
		Quick: mc.Bound{D: 0}, Deep: mc.Bound{D: 1}, Run: func() {
			rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[mc.ChooseFree(3)]
			codes := []uint32{0, 1, 2, 3, 4, 5, 7, 0xff, 0x100, 0x103, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
			ps := newProbes(len(codes))
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				for _, c := range codes {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					p.send(packet{k.msg, k.id, codeBytes(rc, iproto.RetCode(c)) + "re:" + k.body})
				}
				f.request(p)
				p.Close()
			})
			f.rc = rc
			s := newClient(client.ServerConfig{RetCodeType: rc})
			begin()
			for _, p := range ps {
				s.Send(p.req)
			}
			mc.Idle(1 * ms)
			mc.End()
			for i, p := range ps {
				want := wireCode(rc, iproto.RetCode(codes[i]))
				mc.Check(p.done() && p.code == want && p.body == fmt.Sprintf("re:q%d", i), "%s, answered with %#x, completed with code %#x body %q", p.name, codes[i], uint32(p.code), p.body)
			}
			s.Stop()
			f.gone()
		}})

	// C13: types that mean something elsewhere.
	add(mc.Scenario{Name: "C13.types", Doc: "requests of any type, that of a ping included, are answered in both orders among pings",
		Quick: mc.Bound{D: 0}, Deep: mc.Bound{D: 1}, Run: func() {
			types := []iproto.RequestType{0, iproto.Ping, 1, 0xff01, 0xffffffff, iproto.Ping}
			back := mc.ChooseFree(2) == 1
			pinged := mc.ChooseFree(2) == 1
			ps := newProbes(len(types))
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				var ks []packet
				for len(ks) < len(types) {
					k, err := p.next()
					mc.Check(err == nil, "connection ended with %v", err)
					if k.id == pid {
						p.send(k)
						continue
					}
					i := len(ks)
					mc.Check(k.msg == uint32(types[i]) && k.body == fmt.Sprintf("q%d", i), "request %d of type %#x arrived as type %#x body %q", i, uint32(types[i]), k.msg, k.body)
					ks = append(ks, k)
				}
				for i := range ks {
					if back {
						i = len(ks) - 1 - i
					}
					if pinged {
						p.send(packet{uint32(iproto.Ping), pid, ""})
					}
					if types[i] == iproto.Ping { // has no return code
						p.send(packet{ks[i].msg, ks[i].id, "re:" + ks[i].body})
					} else {
						f.reply(p, ks[i])
					}
				}
				p.next()
				p.Close()
			})
			s := newClient(client.ServerConfig{})
			begin()
			for i, p := range ps {
				p.typ, p.req.Msg = types[i], types[i]
				s.Send(p.req)
			}
			mc.Idle(1 * ms)
			mc.End()
			for i, p := range ps {
				mc.Check(p.done(), "a request of type %#x was answered, but is not completed", uint32(types[i]))
				if types[i] == iproto.Ping {
					mc.Check(p.code == iproto.RcOK && p.body == fmt.Sprintf("re:q%d", i), "%s, a ping, completed with code %#x body %q", p.name, uint32(p.code), p.body)
				} else {
					p.own(i, nt.RC4byte)
				}
			}
			s.Stop()
			f.gone()
		}})

	// C14: many requests in flight when the connection breaks.
	add(mc.Scenario{Name: "C14.rows", Doc: "600 requests are in flight, some are answered in several orders, then the connection breaks: the others fail, each once",
		Quick: mc.Bound{D: 0, MaxSteps: 1000000}, Deep: mc.Bound{D: -1, MaxSteps: 1000000}, Run: func() {
			n := []int{1, 255, 256, 257, 600}[mc.ChooseFree(5)]
			pat := mc.ChooseFree(6)
			hard := mc.ChooseFree(3)
			keep := func(i int) bool { // not answered
				switch pat {
				case 0:
					return true
				case 1:
					return i%3 != 0
				case 2:
					return i >= 200
				case 3:
					return i < 300
				case 4: // the last one of a row of ids
					return i == 3 || i == 300
				}
				return i == 0 || i == n-1
			}
			ps := newProbes(n + 1)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if nr > 0 {
					f.loop(p)
					p.Close()
					return
				}
				var ks []packet
				for i := 0; i < n; i++ {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					ks = append(ks, k)
				}
				for i, k := range ks {
					if !keep(i) {
						f.reply(p, k)
					}
				}
				mc.Idle(1 * ms)
				switch hard {
				case 0:
					p.Break(nil)
				case 1:
					p.Close()
				case 2:
					p.Write([]byte{1, 2, 3})
					p.CloseWrite()
				}
			})
			s := newClient(client.ServerConfig{PingInterval: 100 * ms})
			begin()
			for _, p := range ps[:n] {
				s.Send(p.req)
			}
			until(alldone(ps[:n]), "requests are not completed after the connection broke")
			mc.End()
			f.wireCheck2(ps[:n])
			for i, p := range ps[:n] {
				if ok := p.either(f, i, iproto.RcIOError); ok == keep(i) {
					mc.Fail("%s completed with %#x, answered: %v", p.name, uint32(p.code), !keep(i))
				}
			}
			f.settle(s, ps, n)
			s.Stop()
			f.gone()
		}})

	// C15: the clock goes on while threads have not run.
	add(mc.Scenario{Name: "C15.tick", Doc: "the client is stopped and its connections are told so while a request is being sent",
		Quick: mc.Bound{D: 3, MaxEarly: 1, EarlyWin: 250 * ms}, Deep: mc.Bound{D: 4, MaxEarly: 1, EarlyWin: 250 * ms}, Run: func() {
			ps := newProbes(2)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{})
			mc.Idle(190 * ms)
			begin()
			s.Send(ps[0].req)
			s.Send(ps[1].req)
			s.Stop()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
			}
		}})

	// C15: many connections end at once.
	add(mc.Scenario{Name: "C15.many", Doc: "8 connections with a request each, a server that never closes; the client is stopped",
		Quick: mc.Bound{D: 1}, Deep: mc.Bound{D: 2}, Run: func() {
			const n = 8
			ps := newProbes(n)
			mode := mc.ChooseFree(3)
			var f *fake
			f = newFake(n, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				if mode == 1 {
					f.loop(p)
					return
				}
				var ks []packet
				for {
					k, err := f.request(p)
					if err != nil {
						break
					}
					ks = append(ks, k)
				}
				mc.Idle(10 * ms)
				if mode == 2 { // never answered
					p.Close()
					return
				}
				for _, k := range ks {
					f.reply(p, k)
				}
			})
			s := newClient(client.ServerConfig{Connections: n})
			mc.Idle(1 * ms)
			begin()
			for _, p := range ps {
				s.Send(p.req)
			}
			s.Stop()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			mc.End()
			f.wireCheck(ps)
			for i, p := range ps {
				p.either(f, i, iproto.RcIOError, iproto.RcShutdown)
			}
		}})

	// C15: requests that complete otherwise leave nothing a stop would wait for.
	add(mc.Scenario{Name: "C15.unused", Doc: "a request is cancelled or expires while it is sent or answered; then the client is stopped, with a server that never closes",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			ps := newProbes(2)
			how, who := mc.ChooseFree(4), mc.ChooseFree(2)
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				for {
					k, err := f.request(p)
					if err != nil {
						return
					}
					if how >= 2 {
						mc.Idle(5 * ms)
					}
					f.reply(p, k)
				}
			})
			s := newClient(client.ServerConfig{})
			mc.Idle(1 * ms)
			begin()
			parallel(func() {
				s.Send(ps[0].req)
				s.Send(ps[1].req)
			}, func() {
				if how >= 2 {
					mc.Idle(1 * ms)
				}
				if how%2 == 0 {
					ps[who].req.Cancel()
				} else {
					ps[who].req.Expire()
				}
			})
			mc.Idle(20 * ms)
			mc.End()
			s.Stop()
			until(alldone(ps), "requests are not completed after the client was stopped")
			f.gone()
			f.wireCheck(ps)
			ps[who].either(f, who, []iproto.RetCode{iproto.RcCanceled, iproto.RcTimeout}[how%2])
			ps[1-who].own(1-who, nt.RC4byte)
		}})

	// C15: sizes set in quick succession.
	add(mc.Scenario{Name: "C15.burst", Doc: "the number of connections is set several times in a row: the last one counts",
		Quick: mc.Bound{D: 1}, Deep: mc.Bound{D: 2}, Run: func() {
			l := [][]int{{1, 3, 2, 1}, {3, 1, 2, 3}, {2, 1, 3, 1, 2}, {1, 0, 0, 2}, {2, 2, 1, 0}}[mc.ChooseFree(5)]
			ps := newProbes(3)
			var f *fake
			f = newFake(3, func(p *peer, nr int) {
				if f.greet(p) {
					f.loop(p)
					p.Close()
				}
			})
			s := newClient(client.ServerConfig{Connections: l[0]})
			if mc.ChooseFree(2) == 1 {
				mc.Idle(1 * ms)
			}
			begin()
			s.Send(ps[0].req)
			for _, n := range l[1:] {
				s.SetConnections(n)
			}
			s.Send(ps[1].req)
			mc.Idle(1000 * ms)
			mc.End()
			want := l[len(l)-1]
			mc.Check(f.open() == want, "%d connections are open, wanted are %d (after %v)", f.open(), want, l)
			f.limit = want
			mc.Idle(1000 * ms)
			mc.Check(f.open() == want, "%d connections are open later, wanted are %d (after %v)", f.open(), want, l)
			if want == 0 {
				f.limit = 1
				s.SetConnections(1)
			}
			s.Send(ps[2].req)
			until(alldone(ps), "requests are not completed after the number of connections changed")
			f.wireCheck(ps)
			for i, p := range ps {
				p.own(i, nt.RC4byte)
			}
			s.Stop()
			f.gone()
		}})

	// C16: pings of any id.
	add(mc.Scenario{Name: "C16.pings", Doc: "pings with several ids among requests are answered each under its own id, and not handed to the service",
		Quick: mc.Bound{D: 2}, Deep: mc.Bound{D: 3}, Run: func() {
			svc := &service{}
			if mc.ChooseFree(2) == 1 {
				svc.work = make(chan *handled, 16)
				svc.workers(1)
			}
			g := newRig(server.Config{}, svc)
			c := dial()
			ids := []uint32{pid, 0, 1, 100, 0x7fffffff, 0x80000000, pid - 1}
			k := mc.ChooseFree(len(ids))
			begin()
			sent := reqs(0, 2)
			c.send(packet{ping, ids[k], ""}, sent[0], packet{ping, ids[(k+1)%len(ids)], ""}, sent[1])
			c.CloseWrite()
			got, err := c.all(nt.RC4byte)
			mc.End()
			mc.Check(err == io.EOF, "connection ended with %v", err)
			mc.Check(len(svc.list()) == 2, "service got %d requests of 2", len(svc.list()))
			judge("C16.pings", sent, svc.list(), got, true, nt.RC4byte)
			var back []uint32
			for _, a := range got {
				if a.msg == ping {
					back = append(back, a.id)
				}
			}
			mc.Check(len(back) == 2 && (back[0] == ids[k] && back[1] == ids[(k+1)%len(ids)]), "pings with ids %#x %#x were answered under %#x", ids[k], ids[(k+1)%len(ids)], back)
			close2(svc)
			g.srv.Stop()
			g.stopped()
		}})

	// C16: answers that pile up in amounts around the sizes of the buffers.
	add(mc.Scenario{Name: "C16.pile", Doc: "answers pile up while the client reads nothing, are taken, and pile up again, in amounts around the sizes of buffers",
		Quick: mc.Bound{D: 0, Clamp: 3, MaxSteps: 2000000}, Deep: mc.Bound{D: 1, Clamp: 3, MaxSteps: 2000000}, Run: func() {
			sizes := []int{1, 5, 15, 16, 17, 31, 33, 40, 64, 70, 130, 262}
			a, b := sizes[mc.ChooseFree(len(sizes))], sizes[mc.ChooseFree(len(sizes))]
			n := a + b + 3
			svc := &service{hold: true}
			g := newRig(server.Config{}, svc)
			c := dial()
			g.servers[0].Window(40)
			mc.Idle(0)
			if a*b < 40 {
				mc.Begin()
			}
			sent := reqs(0, n)
			c.send(sent...)
			mc.Idle(1 * ms)
			h := svc.list()
			mc.Check(len(h) == n, "service got %d requests of %d", len(h), n)
			var got []answer
			take := func(k int) {
				for ; k > 0; k-- {
					p, err := c.next()
					mc.Check(err == nil, "connection ended with %v", err)
					got = append(got, p.answer(nt.RC4byte))
				}
			}
			for i := 0; i < a; i++ {
				h[i].reply()
			}
			mc.Idle(1 * ms)
			take(a / 2)
			for i := a; i < a+b; i++ {
				h[i].reply()
			}
			take(a - a/2 + b)
			for i := a + b; i < n; i++ {
				h[i].reply()
			}
			c.CloseWrite()
			rest, err := c.all(nt.RC4byte)
			got = append(got, rest...)
			mc.End()
			mc.Check(err == io.EOF, "connection ended with %v", err)
			judge("C16.pile", sent, svc.list(), got, true, nt.RC4byte)
			g.srv.Stop()
			g.stopped()
		}})

	// C22: longer histories.
	add(mc.Scenario{Name: "C22.long", Doc: "some hundreds of calls over one and two connections, answered by 2 workers",
		Quick: mc.Bound{D: 0, MaxSteps: 2000000}, Deep: mc.Bound{D: 1, MaxSteps: 2000000}, Run: func() {
			n := []int{17, 40, 300}[mc.ChooseFree(3)]
			nconn := 1 + mc.ChooseFree(2)
			mode := mc.ChooseFree(3)
			batch := []int{1, 5, 16}[mc.ChooseFree(3)]
			w := newWorld(server.Config{}, mode)
			s := newClient(client.ServerConfig{Connections: nconn})
			mc.Idle(1 * ms)
			if n == 17 {
				mc.Begin()
			}
			ps := newProbes(n)
			for i, p := range ps {
				s.Send(p.req)
				if i%batch == batch-1 {
					mc.Idle(1 * ms)
				}
			}
			mc.Idle(10 * ms)
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i))
			}
			w.end(s)
		}})

	add(mc.Scenario{Name: "C22.many", Doc: "many calls are with the service at once, which answers them in several orders",
		Quick: mc.Bound{D: 0, MaxSteps: 2000000}, Deep: mc.Bound{D: 1, MaxSteps: 2000000}, Run: func() {
			n := []int{3, 16, 17, 33, 70, 300}[mc.ChooseFree(6)]
			nconn := 1 + mc.ChooseFree(2)
			order := mc.ChooseFree(4)
			w := newWorld(server.Config{}, 3)
			s := newClient(client.ServerConfig{Connections: nconn})
			mc.Idle(1 * ms)
			if n == 3 {
				mc.Begin()
			}
			ps := newProbes(n)
			for _, p := range ps {
				s.Send(p.req)
			}
			mc.Idle(1 * ms)
			mc.Check(len(w.held) == n, "%d of %d calls arrived", len(w.held), n)
			for i := range w.held {
				switch order {
				case 1:
					i = n - 1 - i
				case 2:
					i = (i*7 + 5) % n
					if n%7 == 0 {
						i = (i*11 + 5) % n
					}
				case 3:
					if j := i ^ 1; j < n {
						i = j
					}
				}
				r := w.held[i]
				b := string(r.Body)
				if b == "" {
					continue // 7 and n are not coprime
				}
				w.answer(r, b)
			}
			for _, r := range w.held {
				if b := string(r.Body); b != "" {
					w.answer(r, b)
				}
			}
			mc.Idle(10 * ms)
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i))
			}
			w.end(s)
		}})

	// C23: how the address of a directory's client is understood.
	add(mc.Scenario{Name: "C23.network", Doc: "templates that leave the network, the number of connections or the name open",
		Quick: mc.Bound{D: 1}, Deep: mc.Bound{D: 2}, Run: func() {
			addrs := []string{"a:1", "[::1]:5", "/tmp/sock", "sock"}
			nets := []string{"tcp", "tcp", "unix", "unix"}
			k := mc.ChooseFree(4)
			conns := mc.ChooseFree(3) - 1
			name := []string{"", "every"}[mc.ChooseFree(2)]
			dials := &counter{}
			vnet.DialPolicy(func(n, a string) (time.Duration, error) {
				mc.Check(a == addrs[k] && n == nets[k], "the client for %q dials %s %s", addrs[k], n, a)
				dials.inc()
				return time.Hour, syscall.ECONNREFUSED
			})
			cfg := &client.ServerConfig{Connections: conns, Name: name, DialTimeout: 100 * time.Second}
			was := *cfg
			au := &client.Auto{Config: cfg}
			begin()
			s := au.Get(addrs[k])
			mc.Check(au.Get(addrs[k]) == s, "two lookups returned different clients")
			mc.Idle(300 * ms)
			mc.End()
			mc.Check(dials.get() == 1, "%d connections are dialed, the template says %d", dials.get(), conns)
			mc.Check(name == "" && strings.Contains(s.Name(), addrs[k]) || name != "" && strings.Contains(s.Name(), name), "the client for %q is called %q", addrs[k], s.Name())
			mc.Check(*cfg == was, "the template was changed: %+v", *cfg)
			au.Stop()
		}})
}

func close2(s *service) {
	if s.work != nil {
		close(s.work)
	}
}
