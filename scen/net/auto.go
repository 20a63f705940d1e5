package main

import (
	"strings"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verif/mc"
	"verif/mc/vnet"
)

// town is a set of fake servers, one per address, which tell their address.
type town struct {
	o     mc.Obj
	conns map[string][]*vnet.TCPConn
	dials map[string]int
}

func newTown(addrs ...string) *town {
	// connecting takes a while: lookups are over by then
	vnet.DialPolicy(func(string, string) (time.Duration, error) { return 5 * ms, nil })
	t := &town{conns: map[string][]*vnet.TCPConn{}, dials: map[string]int{}}
	for _, a := range addrs {
		a := a
		l, err := vnet.Listen("tcp", a)
		mc.Check(err == nil, "cannot listen: %v", err)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				p := &peer{TCPConn: c.(*vnet.TCPConn)}
				t.o.Touch()
				t.conns[a] = append(t.conns[a], p.TCPConn)
				go func() {
					k, err := p.next()
					if err != nil || p.send(k) != nil {
						return
					}
					for {
						k, err := p.next()
						if err != nil {
							break
						}
						if k.msg == ping {
							p.send(k)
							continue
						}
						p.send(packet{k.msg, k.id, "\x00\x00\x00\x00" + a})
					}
					p.Close()
				}()
			}
		}()
	}
	return t
}

func (t *town) n(a string) int { t.o.Touch(); return len(t.conns[a]) }

func ask(s *client.Server, want string) {
	r := iproto.CallMsgBody(s, msgA, iproto.Body("who"))
	mc.Check(r.Code == iproto.RcOK && string(r.Body) == want, "the client for %q is connected to %q (code %#x)", want, string(r.Body), uint32(r.Code))
}

func init() {
	template := func() *client.ServerConfig {
		return &client.ServerConfig{Network: "tcp", Address: "nowhere:9", Connections: 2, PingInterval: -1, Timeout: 0}
	}
	unchanged := func(c *client.ServerConfig) {
		mc.Check(*c == *template(), "the template was changed: %+v", *c)
	}
	// everything is over after Stop.
	over := func() {
		mc.Idle(1000 * ms)
		for _, l := range mc.Live() {
			mc.Check(!strings.Contains(l, "client") && !strings.Contains(l, "SimplePoint") && !strings.Contains(l, "Buffer"), "still running after the directory was stopped: %s", l)
		}
	}

	over2 := func() {
		mc.Idle(6 * time.Second)
		over()
	}

	get := func(name, doc string, lookups [][]string, known []string, q, d mc.Bound) {
		q.Horizon = 0
		add(mc.Scenario{Name: name, Doc: doc, Quick: q, Deep: d, Run: func() {
			t := newTown("a:1", "b:1")
			cfg := template()
			au := &client.Auto{Config: cfg}
			got := map[string]*client.Server{}
			var o mc.Obj
			look := func(a string) {
				s := au.Get(a)
				o.Touch()
				mc.Check(s != nil, "lookup of %q returned nothing", a)
				mc.Check(got[a] == nil || got[a] == s, "two lookups of %q returned different clients", a)
				got[a] = s
				mc.Check(s.Runned(), "the client for %q does not run", a)
				for b, x := range got {
					mc.Check(b == a || x != s, "lookups of %q and %q returned the same client", a, b)
				}
			}
			for _, a := range known {
				look(a)
			}
			begin()
			var fs []func()
			for _, l := range lookups {
				l := l
				fs = append(fs, func() {
					for _, a := range l {
						look(a)
					}
				})
			}
			parallel(fs...)
			for a := range map[string]bool{"a:1": true, "b:1": true} {
				if got[a] != nil {
					look(a)
				}
			}
			mc.End()
			unchanged(cfg)
			mc.Idle(10 * ms)
			for _, a := range []string{"a:1", "b:1"} {
				if got[a] != nil {
					ask(got[a], a)
					mc.Check(t.n(a) == 2, "the client for %q has %d connections, the template says 2", a, t.n(a))
					mc.Check(strings.Contains(got[a].Name(), a), "the client for %q is called %q", a, got[a].Name())
				} else {
					mc.Check(t.n(a) == 0, "nobody looked up %q, but there are %d connections to it", a, t.n(a))
				}
			}
			au.Stop()
			over()
			unchanged(cfg)
		}})
	}
	get("C23.same", "two threads look up the same address first", [][]string{{"a:1"}, {"a:1"}}, nil, mc.Bound{D: 3}, mc.Bound{D: 4})
	get("C23.different", "two threads look up different addresses first", [][]string{{"a:1"}, {"b:1"}}, nil, mc.Bound{D: 3}, mc.Bound{D: 4})
	get("C23.mixed", "two threads look up two addresses in opposite order", [][]string{{"a:1", "b:1"}, {"b:1", "a:1"}}, nil, mc.Bound{D: 3}, mc.Bound{D: 4})
	get("C23.known", "an address is known, three threads look up it and another one", [][]string{{"a:1", "b:1"}, {"b:1"}, {"a:1"}}, []string{"a:1"}, mc.Bound{D: 3}, mc.Bound{D: 4})

	add(mc.Scenario{Name: "C23.stop", Doc: "addresses are looked up while the directory is stopped",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			newTown("a:1", "b:1")
			cfg := template()
			au := &client.Auto{Config: cfg}
			n := mc.ChooseFree(3)
			if n > 0 {
				au.Get("a:1")
			}
			begin()
			parallel(func() {
				s := au.Get([]string{"a:1", "a:1", "b:1"}[n])
				mc.Check(s != nil, "lookup returned nothing")
			}, func() {
				au.Stop()
			})
			mc.End()
			au.Stop() // clients handed out since then
			over()
			unchanged(cfg)
		}})

	add(mc.Scenario{Name: "C23.config", Doc: "clients of the directory are configured like the template in every respect",
		Quick: mc.Bound{D: 1}, Deep: mc.Bound{D: 2}, Run: func() {
			vnet.DialPolicy(func(_, a string) (time.Duration, error) {
				mc.Check(a == "a:1" || a == "b:1", "somebody dials %q", a)
				if vnet.Dials() <= 2 {
					return time.Hour, nil // times out
				}
				return 0, nil
			})
			pings := &counter{}
			at := map[string]int64{}
			for _, a := range []string{"a:1", "b:1"} {
				a := a
				l, err := vnet.Listen("tcp", a)
				mc.Check(err == nil, "cannot listen: %v", err)
				go func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						at[a] = mc.Now()
						p := &peer{TCPConn: c.(*vnet.TCPConn)}
						go func() {
							for {
								k, err := p.next()
								if err != nil {
									break
								}
								if k.msg == ping {
									pings.inc()
									p.send(k)
									continue
								}
								if k.body == "who" {
									p.send(packet{k.msg, k.id, "\x05" + a})
								}
							}
							p.Close()
						}()
					}
				}()
			}
			cfg := &client.ServerConfig{Network: "tcp", Address: "nowhere:9", Name: "every", Connections: 1, DialTimeout: 300 * ms, ReadTimeout: 5 * time.Second,
				WriteTimeout: 5 * time.Second, PingInterval: 100 * ms, RetCodeType: nt.RC1byte, Timeout: 1500 * ms}
			tmpl := *cfg
			au := &client.Auto{Config: cfg}
			begin()
			for i, a := range []string{"a:1", "b:1"} {
				s := au.Get(a)
				mc.Check(s.Name() == "every" && s.DefaultTimeout() == 1500*ms, "client for %q has name %q and timeout %v", a, s.Name(), s.DefaultTimeout())
				if i == 0 {
					mc.Idle(2000 * ms)
					mc.Check(at[a] >= int64(600*ms) && at[a] <= int64(1200*ms), "connected at %d ns after two timed out attempts", at[a])
				}
				mc.Idle(10 * ms)
				n := pings.get()
				mc.Idle(1000 * ms)
				mc.Check(pings.get() >= n+9*(i+1) && pings.get() <= n+11*(i+1), "%d pings in ten intervals", pings.get()-n)
				r := iproto.CallMsgBody(s, msgA, iproto.Body("who"))
				mc.Check(r.Code == 5 && string(r.Body) == a, "the client for %q got code %#x body %q", a, uint32(r.Code), string(r.Body))
				t := mc.Now()
				r = iproto.CallMsgBody(s, msgA, iproto.Body("lost"))
				took := time.Duration(mc.Now() - t)
				mc.Check(r.Code == iproto.RcTimeout && took >= 1500*ms && took < 1600*ms, "a lost call ended with %#x after %v", uint32(r.Code), took)
				mc.Check(*cfg == tmpl, "the template was changed: %+v", *cfg)
			}
			mc.End()
			au.Stop()
			// the answers to lost calls never come: connections end by the read timeout
			over2()
		}})

	add(mc.Scenario{Name: "C23.again", Doc: "a directory that was stopped is used again",
		Quick: mc.Bound{D: 1}, Deep: mc.Bound{D: 2}, Run: func() {
			newTown("a:1", "b:1")
			cfg := template()
			au := &client.Auto{Config: cfg}
			begin()
			for i := 0; i < 2; i++ {
				a, b := au.Get("a:1"), au.Get("b:1")
				mc.Check(a != b && au.Get("a:1") == a, "lookups do not return the same client")
				mc.Idle(10 * ms)
				ask(a, "a:1")
				ask(b, "b:1")
				au.Stop()
				over()
			}
			mc.End()
			unchanged(cfg)
		}})
}
