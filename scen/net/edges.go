package main

import (
	"fmt"
	"syscall"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verif/mc"
	"verif/mc/vnet"
)

func init() {
	add(mc.Scenario{Name: "C22.balancer", Doc: "clients are the children of a balancer, connected, connecting or refused; the balancer is stopped at any moment after calls were sent: each ends with its answer, an I/O error or the shutdown code",
		Quick: mc.Bound{D: 1, Sec: 60}, Deep: mc.Bound{D: 2}, Run: func() {
			w := newWorld(server.Config{}, mc.ChooseFree(2))
			refused := mc.ChooseFree(3)
			early := mc.ChooseFree(2) == 1
			n := 0
			vnet.DialPolicy(func(_, a string) (time.Duration, error) {
				if n++; refused == 2 || refused == n {
					return ms, syscall.ECONNREFUSED
				}
				return ms, nil
			})
			b := &iproto.BalancerPoint{}
			b.Init()
			for i := 0; i < 2; i++ {
				cfg := client.ServerConfig{Network: "tcp", Address: addr, PingInterval: -1, Name: fmt.Sprintf("c%d", i)}
				b.AddChild(cfg.NewServer())
			}
			iproto.Run(b)
			if !early {
				mc.Idle(10 * ms)
			}
			ps := newProbes(2)
			begin()
			for _, p := range ps {
				b.Send(p.req)
			}
			if refused != 2 && mc.ChooseFree(2) == 1 {
				mc.Idle(20 * ms)
				for i, p := range ps {
					w.verdict(p, fmt.Sprintf("q%d", i))
				}
			}
			b.Stop()
			mc.Idle(time.Second)
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i), iproto.RcShutdown, iproto.RcIOError)
			}
			w.end()
		}})

	add(mc.Scenario{Name: "C22.halts", Doc: "two things happen to calls under way, in either order: the client is stopped, the server is stopped, the connection breaks; answers come at once or after all that",
		Quick: mc.Bound{D: 2, Sec: 60}, Deep: mc.Bound{D: 3}, Run: func() {
			first := mc.ChooseFree(3)
			second := (first + 1 + mc.ChooseFree(2)) % 3
			held := mc.ChooseFree(2) == 1
			apart := mc.ChooseFree(2) == 1
			mode := 1
			if held {
				mode = 3
			}
			w := newWorld(server.Config{}, mode)
			s := newClient(client.ServerConfig{PingInterval: -1})
			mc.Idle(1 * ms)
			begin()
			ps := newProbes(2)
			for _, p := range ps {
				s.Send(p.req)
			}
			stopped := false
			parallel(func() {
				for i, k := range []int{first, second} {
					if i == 1 && apart {
						mc.Idle(250 * ms) // the client stops its connections at its next tick
					}
					switch k {
					case 0:
						s.Stop()
						stopped = true
					case 1:
						w.srv.Stop()
						w.stopped = true
					case 2:
						w.clients[0].Break(nil)
					}
				}
			})
			mc.Idle(250 * ms)
			w.o.Touch()
			for _, r := range w.held {
				w.answer(r, string(r.Body))
			}
			until(alldone(ps), "calls do not end")
			mc.End()
			for i, p := range ps {
				w.verdict(p, fmt.Sprintf("q%d", i), iproto.RcIOError, iproto.RcShutdown)
			}
			if stopped {
				w.end()
			} else {
				w.end(s)
			}
		}})

	add(mc.Scenario{Name: "C23.refused", Doc: "an address no client can be made for is looked up and refused with a panic, which the program survives; other lookups go on",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 5}, Run: func() {
			newTown("a:1")
			known := mc.ChooseFree(2) == 1
			au := &client.Auto{Config: &client.ServerConfig{PingInterval: -1}}
			if known {
				au.Get("a:1")
			}
			begin()
			refused := 0
			var s *client.Server
			parallel(func() {
				defer func() {
					if recover() != nil {
						refused++
					}
				}()
				au.Get("")
			}, func() { s = au.Get("a:1") })
			mc.Idle(20 * ms)
			mc.End()
			mc.Check(refused == 1 && s != nil, "%d of one lookup without an address were refused", refused)
			mc.Check(au.Get("a:1") == s, "another lookup gives another client")
			au.Stop()
			mc.Idle(time.Second)
		}})

	add(mc.Scenario{Name: "C13.stray", Doc: "the server sends answers nobody asked for (to ids never used or answered already) before, between and after those to requests, and after the client has stopped sending; requests get their own answers, and the client stops",
		Quick: mc.Bound{D: 1, Sec: 60, MaxSteps: 100000}, Deep: mc.Bound{D: 2, MaxSteps: 100000}, Run: func() {
			warm := 254 * mc.ChooseFree(2) // requests answered before: ids up to the last one of a row
			ps := newProbes(warm + 5)
			which := mc.ChooseFree(9)
			at := mc.ChooseFree(5)
			ids := []uint32{0, 200, 0x1f0, 0x7f000001, 0xfffffff0, pid, 1}
			var f *fake
			f = newFake(1, func(p *peer, nr int) {
				if !f.greet(p) {
					return
				}
				var ks []packet
				stray := func(place int) {
					if at < 4 && at != place {
						return
					}
					id := ids[0]
					switch {
					case which < len(ids):
						id = ids[which]
					case len(ks) == 0:
						return
					case which == len(ids):
						id = ks[0].id
					default:
						id = ks[len(ks)-1].id
					}
					mc.Note("server sends an answer nobody asked for, to id %#x", id)
					p.send(packet{uint32(msgA), id, codeBytes(f.rc, 5) + "stray"})
				}
				for i := 0; i < warm; i++ {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					f.reply(p, k)
				}
				if which != 6 || warm > 0 {
					stray(0)
				}
				for i := 0; i < 3; i++ {
					k, err := f.request(p)
					mc.Check(err == nil, "connection ended with %v", err)
					ks = append(ks, k)
				}
				got := ks
				ks = nil
				for i, k := range got {
					f.reply(p, k)
					ks = append(ks, k)
					stray(i + 1)
				}
				for i := 0; i < 2; i++ {
					if k, err := f.request(p); err == nil {
						f.reply(p, k)
					}
				}
				f.loop(p)
				if at > 2 {
					at = 4
					stray(0)
				}
				p.Close()
			})
			s := newClient(client.ServerConfig{})
			mc.Idle(1 * ms)
			for i := 0; i < warm; i++ {
				s.Send(ps[i].req)
				mc.Idle(0)
			}
			begin()
			for i := warm; i < warm+3; i++ {
				s.Send(ps[i].req)
			}
			mc.Idle(1 * ms)
			s.Send(ps[warm+3].req)
			mc.Idle(1 * ms)
			for i := 0; i < warm+4; i++ {
				ps[i].own(i, nt.RC4byte)
			}
			stopped := mc.ChooseFree(2) == 1
			if stopped {
				s.Stop()
			}
			s.Send(ps[warm+4].req)
			mc.Idle(1 * ms)
			mc.End()
			f.wireCheck2(ps)
			if stopped {
				ps[warm+4].either(f, warm+4, iproto.RcShutdown, iproto.RcIOError)
			} else {
				ps[warm+4].own(warm+4, nt.RC4byte)
				s.Stop()
			}
			f.gone()
		}})
}
