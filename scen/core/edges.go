package main

import (
	"fmt"
	"math"
	"runtime"
	"time"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

// longest are durations "for ever" is written with.
var longest = []time.Duration{math.MaxInt64, math.MaxInt64 - 1, 280 * 365 * 24 * time.Hour}

func init() {
	add(mc.Scenario{
		Name:  "C03.forever",
		Doc:   "timers armed for as long as a duration can tell share a queue with short ones, in every order: the short ones expire on time, the long ones not, also not when they are stopped and armed again",
		Quick: mc.Bound{D: 1},
		Deep:  mc.Bound{D: 2},
		Run: func() {
			l := sameHeap(3)
			long := longest[mc.ChooseFree(len(longest))]
			which := mc.ChooseFree(3)
			again := mc.ChooseFree(2) == 1
			begin()
			for _, i := range perm(3) {
				if i <= which {
					l[i].o.Touch()
					l[i].armed, l[i].n = true, 0
					l[i].dl = math.MaxInt64
					l[i].t.After(long, l[i])
				} else {
					l[i].arm(time.Duration(i) * ms)
				}
			}
			mc.Idle(time.Second)
			for i, x := range l {
				x.o.Touch()
				if i <= which {
					mc.Check(x.n == 0, "a timer armed for %v expired", long)
				} else {
					mc.Check(x.n == 1, "timer %d expired %d times, want 1", i, x.n)
				}
			}
			if again {
				l[0].stop()
				l[0].arm(ms)
				mc.Idle(time.Second)
				mc.Check(l[0].n == 1, "a timer armed for ever, stopped and armed again expired %d times", l[0].n)
			}
		},
	})
	add(mc.Scenario{
		Name:  "C03.from-expiry",
		Doc:   "a timer's expiration arms itself again, arms another timer, stops or moves another one (of its queue or of the other): each expires once per arming, on time, unless stopped",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			l := sameHeap(3)
			l[2] = &exp{id: 2} // of the next queue
			what := mc.ChooseFree(5)
			target := 1 + mc.ChooseFree(2)
			delay := []time.Duration{0, ms, 3 * ms}[mc.ChooseFree(3)]
			t := l[target]
			times := 0
			l[0].then = func() {
				times++
				switch what {
				case 0: // itself
					if times < 3 {
						l[0].arm(delay)
					}
				case 1: // a sleeping one
					t.arm(delay)
				case 2:
					t.stop()
				case 3:
					t.stop()
					t.arm(delay)
				case 4: // itself, and the other one
					if times < 3 {
						l[0].arm(ms)
					}
					t.stop()
					t.arm(delay)
				}
			}
			begin()
			l[0].arm(ms)
			l[3-target].arm(2 * ms)
			if what >= 2 {
				t.arm(4 * ms)
			}
			settle(l, 20*ms)
			want := 1
			if what == 0 || what == 4 {
				want = 3
			}
			mc.Check(times == want, "timer 0 expired %d times, want %d", times, want)
			mc.Check(t.stopped == (what == 2) && (what == 0 || what == 2 || t.n == 1), "timer %d expired %d times", target, t.n)
		},
	})
	add(mc.Scenario{
		Name:  "C04.forever",
		Doc:   "the longest time limits there are, of an end point, a requester or a multi-request: the request does not time out and its answer is delivered",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			long := longest[mc.ChooseFree(len(longest))]
			kind := mc.ChooseFree(4)
			var pt iproto.Service
			gate := make(chan bool, 1)
			switch kind {
			case 0, 1, 3:
				d := long
				if kind != 0 {
					d = 10 * ms
				}
				p := newPoint(d, func(r *iproto.Request) {
					<-gate
					echo(r)
				})
				iproto.Run(p)
				pt = p
			case 2:
				pt = iproto.BF{N: 1, Timeout: long}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
					<-gate
					mc.Check(cx.Alive(), "the context of a request without a deadline is dead")
					return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
				})
			}
			p := &probe{name: "request"}
			begin()
			if kind == 3 {
				m := &iproto.MultiRequest{}
				m.SetTimeout(long)
				m.SendMsgBody(pt, msgA, iproto.Body("q"))
				mc.Idle(time.Second)
				gate <- true
				res := m.Results()
				mc.Check(len(res) == 1 && res[0].Code == iproto.RcOK && string(res[0].Body) == "re:0", "a request without a deadline ended with %+v", res)
				return
			}
			r := req(1, p)
			if kind == 1 {
				r.SetTimeout(long)
			}
			pt.Send(r)
			mc.Idle(time.Second)
			gate <- true
			mc.Idle(time.Second)
			p.echoed(1)
		},
	})
	add(mc.Scenario{
		Name:  "C10.stop-queued",
		Doc:   "the balancer is stopped while requests wait for busy children or in its overflow: each is handed to one child or completed with the shutdown code, once",
		Quick: mc.Bound{D: 2, Clamp: 1},
		Deep:  mc.Bound{D: 5, Clamp: 1},
		Run: func() {
			n := 1 + mc.ChooseFree(2)
			busy := make(chan bool)
			c := &rec{}
			b := &iproto.BalancerPoint{}
			b.Init()
			for i := 0; i < n; i++ {
				b.AddChild(newPoint(0, func(r *iproto.Request) {
					c.add(r)
					<-busy
					echo(r)
				}))
			}
			iproto.Run(b)
			const k = 4
			ps := probes(k)
			begin()
			parallel(func() {
				for i := 1; i <= k; i++ {
					b.Send(req(i, ps[i-1]))
				}
				b.Stop()
			}, func() { close(busy) })
			mc.Idle(0)
			c.o.Touch()
			for i := 1; i <= k; i++ {
				p := ps[i-1]
				p.once(uint32(i), msgA)
				times := 0
				for _, id := range c.ids {
					if id == i {
						times++
					}
				}
				if p.code == iproto.RcOK {
					mc.Check(times == 1, "request %d was handed over %d times", i, times)
				} else {
					mc.Check(p.code == iproto.RcShutdown && times <= 1, "request %d was handed over %d times and ended with %#x", i, times, uint32(p.code))
				}
			}
		},
	})
	add(mc.Scenario{
		Name:  "C06.goexit",
		Doc:   "a function started in a context ends its thread with runtime.Goexit instead of returning: waiting for the context's work ends all the same",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			cx := &iproto.Context{}
			kind := mc.ChooseFree(3)
			var n counter
			begin()
			for i := 0; i < 2; i++ {
				leave := i == 0 || kind == 2
				if i == kind {
					cx.Go(func(c *iproto.Context) {
						n.inc()
						if leave {
							runtime.Goexit()
						}
					})
				} else {
					cx.GoInt(func(c *iproto.Context, v interface{}) {
						n.inc()
						if leave {
							runtime.Goexit()
						}
					}, i)
				}
			}
			cx.WaitAll()
			mc.Check(n.get() == 2, "%d functions ran before waiting for them ended", n.get())
		},
	})
	add(mc.Scenario{
		Name:  "C09.goexit",
		Doc:   "a handler ends its thread with runtime.Goexit instead of returning: its request is completed with an internal error and the slot is free for the next one",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			answered := mc.ChooseFree(2) == 1
			serv := iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				if r.Id == 1 {
					if answered {
						r.Respond(iproto.RcOK, iproto.Body("re:1"))
					}
					runtime.Goexit()
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			ps := probes(2)
			begin()
			serv.Send(req(1, ps[0]))
			serv.Send(req(2, ps[1]))
			mc.Idle(0)
			if answered {
				ps[0].echoed(1)
			} else {
				ps[0].once(1, msgA)
				mc.Check(ps[0].code == iproto.RcInternalError, "request 1 ended with %#x", uint32(ps[0].code))
			}
			ps[1].echoed(2)
		},
	})
	add(mc.Scenario{
		Name:  "C09.responder-panic",
		Doc:   "the requester's callback, or an interceptor, panics when it is given the answer, by the service or by the handler itself: the slot is free for the next request",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			kind := mc.ChooseFree(4)
			serv := iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				if r.Id == 1 && kind&1 != 0 {
					r.Respond(iproto.RcOK, iproto.Body("re:1"))
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			var n counter
			p := &probe{name: "request 2"}
			begin()
			r := &iproto.Request{Id: 1, Msg: msgA, Responder: iproto.Callback(func(*iproto.Response) {
				n.inc()
				if kind < 2 {
					panic("requester")
				}
			})}
			if kind >= 2 {
				r.ChainBookmark(&panicky{})
			}
			serv.Send(r)
			serv.Send(req(2, p))
			mc.Idle(0)
			mc.Check(n.get() == 1 || kind >= 2 && n.get() == 0, "the requester was called %d times", n.get())
			p.echoed(2)
		},
	})
	add(mc.Scenario{
		Name:  "C04.responder-panic",
		Doc:   "the requester's callback, or an interceptor, panics when it is given an answer, and the program goes on; the deadline of that request passes, others are cancelled or time out: all the same exactly then",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			kind := mc.ChooseFree(3)
			serv := iproto.BF{N: 1, Timeout: 10 * ms}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			pt := newPoint(10*ms, func(r *iproto.Request) {})
			iproto.Run(pt)
			ps := probes(2)
			begin()
			r := &iproto.Request{Id: 1, Msg: msgA, Responder: iproto.Callback(func(*iproto.Response) {
				if kind != 1 {
					panic("requester")
				}
			})}
			if kind == 1 {
				r.ChainBookmark(&panicky{})
			}
			serv.Send(r)
			if kind == 2 {
				mc.Idle(0)
				r.Cancel()
			}
			mc.Idle(20 * ms)
			at := mc.Now() + int64(10*ms)
			for i, p := range ps {
				pt.Send(req(i, p))
			}
			mc.Idle(11 * ms)
			for i, p := range ps {
				p.once(uint32(i), msgA)
				mc.Check(p.code == iproto.RcTimeout && p.at >= at, "request %d ended with %#x at %v", i, uint32(p.code), time.Duration(p.at))
			}
		},
	})
	add(mc.Scenario{
		Name:  "C04.busy-handler",
		Doc:   "a request times out while its handler is busy with work it has started in its context (functions, a multi-request to collect); the deadlines of other requests are kept meanwhile",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			kind := mc.ChooseFree(4)
			idle := newPoint(0, func(r *iproto.Request) {})
			iproto.Run(idle)
			serv := iproto.BF{N: 1, Timeout: 10 * ms}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				var m *iproto.MultiRequest
				switch kind {
				case 0, 1:
					c := cx
					if kind == 1 {
						c, _ = cx.Child()
						defer c.Done()
					}
					c.Go(func(*iproto.Context) { mc.Sleep(50 * ms) })
				case 2, 3:
					m = cx.NewMulti()
					m.SendMsgBody(idle, msgA, iproto.Body("q"))
					if kind == 3 {
						m.Each()
					}
				}
				mc.Sleep(50 * ms)
				mc.Check(!cx.Alive() && cx.Timeout(), "the context of a request that has expired is alive")
				if kind == 2 {
					m.Results()
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			pt := newPoint(0, func(r *iproto.Request) {})
			iproto.Run(pt)
			ps := probes(3)
			begin()
			serv.Send(req(0, ps[0]))
			at := mc.Now() + int64(20*ms)
			for i, p := range ps[1:] {
				r := req(i+1, p)
				r.SetTimeout(20 * ms)
				pt.Send(r)
			}
			mc.Idle(21 * ms)
			for i, p := range ps[1:] {
				p.once(uint32(i+1), msgA)
				mc.Check(p.code == iproto.RcTimeout && p.at >= at && p.at <= at+int64(ms), "request %d with a deadline at %v ended with %#x at %v", i+1, time.Duration(at), uint32(p.code), time.Duration(p.at))
			}
			mc.Idle(100 * ms)
			ps[0].echoed(0)
		},
	})
	add(mc.Scenario{
		Name:  "C05.inside",
		Doc:   "a context is cancelled or expired by a function running in it, or by its owner, who has yet to collect a multi-request, wait for a function or finish a child: the call returns, all requests are completed",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			idle := newPoint(0, func(r *iproto.Request) {})
			iproto.Run(idle)
			cx := &iproto.Context{}
			kind := mc.ChooseFree(4)
			expire := mc.ChooseFree(2) == 1
			kill := func() {
				if expire {
					cx.Expire()
				} else {
					cx.Cancel()
				}
				mc.Check(!cx.Alive() && cx.Timeout() == expire, "the context is alive, or dead for another cause than its own")
			}
			var done counter
			begin()
			switch kind {
			case 0: // a function started in it
				cx.GoInt(func(c *iproto.Context, v interface{}) {
					r, res := c.SendMsgBody(idle, msgA, iproto.Body("q"))
					kill()
					mc.Check((<-res).Code == iproto.RcCanceled && r.Performed(), "a request of a cancelled context did not end with the cancelled code")
					done.inc()
				}, 1)
				cx.WaitAll()
				mc.Check(done.get() == 1, "WaitAll returned while a function was running")
			case 1: // the owner, before it collects
				m := cx.NewMulti()
				m.SendMsgBody(idle, msgA, iproto.Body("q"))
				kill()
				res := m.Results()
				mc.Check(len(res) == 1 && res[0].Code == iproto.RcCanceled, "a multi-request of a cancelled context yields %+v", res)
				cx.WaitAll()
			case 2: // the owner, before the function it started may go on
				gate := make(chan bool)
				cx.Go(func(c *iproto.Context) {
					<-gate
					mc.Check(!c.Alive(), "the child of a cancelled context is alive")
					done.inc()
				})
				kill()
				gate <- true
				cx.WaitAll()
				mc.Check(done.get() == 1, "WaitAll returned while a function was running")
			case 3: // the owner of a child and a grandchild
				a, _ := cx.Child()
				b, _ := a.Child()
				_, res := b.SendMsgBody(idle, msgA, iproto.Body("q"))
				kill()
				mc.Check((<-res).Code == iproto.RcCanceled, "a request of a grandchild of a cancelled context did not end with the cancelled code")
				mc.Check(!a.Alive() && !b.Alive(), "a descendant of a cancelled context is alive")
				b.Done()
				a.Done()
				cx.WaitAll()
			}
		},
	})
	add(mc.Scenario{
		Name:  "C06.two-waiters",
		Doc:   "several threads wait for the work of one context: all of them return when it is done",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			cx := &iproto.Context{}
			kind := mc.ChooseFree(3)
			gate := make(chan bool)
			var done, back counter
			begin()
			var r *iproto.Request
			switch kind {
			case 0:
				cx.Go(func(*iproto.Context) { <-gate; done.inc() })
			case 1:
				r, _ = cx.NewRequest(msgA, iproto.Body("q"))
				r.SetPending()
			case 2:
				m := cx.NewMulti()
				go func() { <-gate; m.Results(); done.inc() }()
			}
			for i := 0; i < 2; i++ {
				go func() {
					cx.WaitAll()
					if r == nil {
						mc.Check(kind == 2 || done.get() == 1, "WaitAll returned while a function was running")
					} else {
						mc.Check(r.Performed(), "WaitAll returned while a request was outstanding")
					}
					back.inc()
				}()
			}
			if kind == 1 {
				r.Cancel()
			} else {
				gate <- true
			}
			mc.Idle(0)
			mc.Check(back.get() == 2, "%d of 2 threads waiting for all work of a context came back", back.get())
		},
	})
}

// panicky is an interceptor that panics.
type panicky struct{ iproto.Bookmark }

func (*panicky) Respond(*iproto.Response) { panic("interceptor") }
