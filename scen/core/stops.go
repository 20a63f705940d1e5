package main

import (
	"fmt"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

func init() {
	add(mc.Scenario{
		Name:  "C09.stop-sending",
		Doc:   "a parallel service is stopped while its only handler is busy, its queue has overflowed and another thread is in the middle of sending: nothing crashes, every request is completed once, those sent before and not started with the shutdown code",
		Quick: mc.Bound{D: 2, Clamp: 1},
		Deep:  mc.Bound{D: 4, Clamp: 1},
		Run: func() {
			busy := make(chan bool)
			serv := iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				if r.Id == 1 {
					<-busy
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			ps := probes(6)
			serv.Send(req(1, ps[0]))
			mc.Idle(0)
			begin()
			serv.Send(req(2, ps[1]))
			parallel(func() {
				serv.Send(req(5, ps[4]))
				serv.Send(req(6, ps[5]))
			}, func() {
				serv.Send(req(3, ps[2]))
				serv.Send(req(4, ps[3]))
				serv.Stop()
			})
			mc.Idle(0)
			close(busy)
			mc.Idle(0)
			ps[0].echoed(1)
			for i := 2; i <= 6; i++ {
				p := ps[i-1]
				p.once(uint32(i), msgA)
				mc.Check(p.code == iproto.RcShutdown, "request %d, which waited when the service was stopped, ended with %#x", i, uint32(p.code))
			}
		},
	})
	add(mc.Scenario{
		Name:  "C10.stop-sending",
		Doc:   "a balancer is stopped while another thread is in the middle of sending and the queue has overflowed: nothing crashes, those sent before are answered or completed with the shutdown code",
		Quick: mc.Bound{D: 2, Clamp: 1},
		Deep:  mc.Bound{D: 4, Clamp: 1},
		Run: func() {
			busy := make(chan bool)
			b := &iproto.BalancerPoint{}
			b.Init()
			b.AddChild(newPoint(0, func(r *iproto.Request) {
				<-busy
				echo(r)
			}))
			iproto.Run(b)
			ps := probes(5)
			b.Send(req(1, ps[0]))
			mc.Idle(0)
			begin()
			stopping := false
			var sent [5]bool
			var o mc.Obj
			send := func(i int) {
				b.Send(req(i, ps[i-1]))
				o.Touch()
				sent[i-1] = !stopping
			}
			sent[0] = true
			send(2)
			parallel(func() {
				send(5)
			}, func() {
				send(3)
				send(4)
				o.Touch()
				stopping = true
				b.Stop()
			})
			mc.Idle(0)
			close(busy)
			mc.Idle(0)
			for i := 1; i <= 5; i++ {
				p := ps[i-1]
				if !sent[i-1] && p.n == 0 {
					continue
				}
				p.once(uint32(i), msgA)
				if p.code == iproto.RcOK {
					p.echoed(i)
				} else {
					mc.Check(p.code == iproto.RcShutdown, "request %d ended with %#x", i, uint32(p.code))
				}
			}
		},
	})
	add(mc.Scenario{
		Name:  "C01.after-answer",
		Doc:   "two handlers, in threads of their own, go on sending requests in the contexts of their requests after those have been answered: every request is its own and carries its own id and body",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			kind := mc.ChooseFree(2)
			one := newPoint(0, nil)
			one.hold = true
			iproto.Run(one)
			ps := probes(2)
			for i := 0; i < 2; i++ {
				one.Send(req(i+1, ps[i]))
			}
			var reqs [2][]*iproto.Request
			handler := func(i int) func() {
				return func() {
					r := <-one.ReceiveChan()
					cx := r.Context()
					mc.Check(cx != nil, "the request could not be taken")
					n := 0
					next := func() {
						n++
						q, _ := cx.NewRequest(msgA, iproto.Body(fmt.Sprintf("q%d.%d", i, n)))
						if kind == 1 {
							q, _ = cx.NewRequest(msgA, fmt.Sprintf("q%d.%d", i, n))
						}
						reqs[i] = append(reqs[i], q)
					}
					next()
					echo2(r)
					next()
					next()
				}
			}
			begin()
			parallel(handler(0), handler(1))
			seen := map[*iproto.Request]bool{}
			for i := range reqs {
				for n, q := range reqs[i] {
					mc.Check(!seen[q], "two requests are one")
					seen[q] = true
					want := fmt.Sprintf("q%d.%d", i, n+1)
					if kind == 1 {
						want = string([]byte{byte(len(want)), 0, 0, 0}) + want
					}
					mc.Check(string(q.Body) == want, "the body is %q, want %q", q.Body, want)
				}
			}
		},
	})
}

// echo2 answers a request that has been taken.
func echo2(r *iproto.Request) {
	r.Respond(iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id)))
}
