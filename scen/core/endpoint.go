package main

import (
	"fmt"
	"time"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

// point is an end point whose loop hands every request to work.
type point struct {
	iproto.SimplePoint
	work    func(r *iproto.Request)
	hold    bool // do not take requests until released
	release chan bool
	started counter
	stops   counter
}

func newPoint(timeout time.Duration, work func(r *iproto.Request)) *point {
	p := &point{work: work, release: make(chan bool, 1)}
	p.SimplePoint.Timeout = timeout
	p.SimplePoint.Init(p)
	return p
}

func (p *point) Loop() {
	p.started.inc()
	if p.hold {
		<-p.release
	}
	for {
		select {
		case r := <-p.ReceiveChan():
			p.work(r)
		case <-p.ExitChan():
			p.stops.inc()
			return
		}
	}
}

// rec records the requests handed to workers.
type rec struct {
	o   mc.Obj
	ids []int
}

func (c *rec) add(r *iproto.Request) {
	c.o.Touch()
	c.ids = append(c.ids, int(r.Id))
	mc.Note("handed over %d", r.Id)
}

// fifo checks that every request was handed over at most once, those of one
// sender (same tens digit) in the order they were sent.
func (c *rec) fifo() {
	c.o.Touch()
	last := map[int]int{}
	seen := map[int]bool{}
	for _, id := range c.ids {
		mc.Check(!seen[id], "request %d was handed over twice: %v", id, c.ids)
		seen[id] = true
		mc.Check(last[id/100] < id, "requests were handed over out of order: %v", c.ids)
		last[id/100] = id
	}
}

func (c *rec) has(id int) bool {
	for _, x := range c.ids {
		if x == id {
			return true
		}
	}
	return false
}

func req(id int, p iproto.Responder) *iproto.Request {
	return &iproto.Request{Id: uint32(id), Msg: msgA, Body: iproto.Body("q"), Responder: p}
}

func echo(r *iproto.Request) {
	if r.SetInFly(nil) {
		r.Respond(iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id)))
	}
}

func (p *probe) echoed(id int) {
	p.once(uint32(id), msgA)
	mc.Check(p.code == iproto.RcOK && p.body == fmt.Sprintf("re:%d", id), "request %d ended with code %#x body %q", id, uint32(p.code), p.body)
}

func probes(n int) []*probe {
	var l []*probe
	for i := 0; i < n; i++ {
		l = append(l, &probe{name: fmt.Sprintf("request %d", i)})
	}
	return l
}

// send races: a request is sent to each kind of service while it fails.
func init() {
	add(mc.Scenario{
		Name:  "C01.send-race",
		Doc:   "a request is sent to an end point, a parallel service, a balancer, or through a statistics wrapper while it is cancelled or expires: it is completed once, and handled only if it was not completed before",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			kind := mc.ChooseFree(4)
			fail := actors[1+mc.ChooseFree(2)]
			mark := mc.ChooseFree(2) == 1
			var n counter
			var s iproto.Service
			work := func(r *iproto.Request) {
				if r.SetInFly(nil) {
					mc.Check(n.inc() == 1, "the request was taken twice")
					r.Respond(iproto.RcOK, iproto.Body("good"))
				}
			}
			switch kind {
			case 0, 3:
				pt := newPoint(0, work)
				iproto.Run(pt)
				s = pt
				if kind == 3 {
					s = iproto.StatWrap(pt, func(*iproto.Request, time.Duration) {})
				}
			case 1:
				s = iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
					mc.Check(n.inc() == 1, "the request was handled twice")
					return iproto.RcOK, iproto.Body("good")
				})
			case 2:
				b := &iproto.BalancerPoint{}
				b.Init()
				b.AddChild(newPoint(0, work))
				iproto.Run(b)
				s = b
			}
			begin()
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 8, Msg: msgA, Responder: p}
			if mark {
				r.ChainBookmark(&mark0{})
			}
			parallel(func() { s.Send(r) }, func() { fail.do(r) })
			mc.Idle(0)
			p.once(8, msgA)
			oneOf(p, []actor{actors[0], fail})
			mc.Check(p.code != iproto.RcOK || n.get() == 1, "answered without being handled")
		},
	})
}

func init() {
	senders := func(name string, ns, nr, clamp, d int, doc string) {
		add(mc.Scenario{
			Name: name, Doc: doc,
			Quick: mc.Bound{D: d, Clamp: clamp},
			Deep:  mc.Bound{D: d + 2, Clamp: clamp},
			Run: func() {
				c := &rec{}
				ps := probes(ns * nr)
				pt := newPoint(0, func(r *iproto.Request) { c.add(r); echo(r) })
				iproto.Run(pt)
				begin()
				var fs []func()
				for s := 0; s < ns; s++ {
					s := s
					fs = append(fs, func() {
						for i := 0; i < nr; i++ {
							pt.Send(req(s*100+i+1, ps[s*nr+i]))
						}
					})
				}
				parallel(fs...)
				mc.Idle(0)
				c.fifo()
				mc.Check(len(c.ids) == ns*nr, "%d requests of %d were handed over: %v", len(c.ids), ns*nr, c.ids)
				for i, p := range ps {
					p.echoed(i/nr*100 + i%nr + 1)
				}
			},
		})
	}
	senders("C08.one-sender", 1, 5, 1, 4, "one sender, five requests through a channel of one place")
	senders("C08.two-senders", 2, 2, 1, 4, "two senders, two requests each, through a channel of one place")
	senders("C08.two-senders-3", 2, 3, 2, 3, "two senders, three requests each, through a channel of two places")
	senders("C08.three-senders", 3, 1, 1, 3, "three senders, one request each, through a channel of one place")
	add(mc.Scenario{
		Name:  "C08.stalled",
		Doc:   "workers do not take anything until both senders are done (so sending may not block), then two workers take everything",
		Quick: mc.Bound{D: 2, Clamp: 1},
		Deep:  mc.Bound{D: 4, Clamp: 1},
		Run: func() {
			ps := probes(6)
			var n counter
			pt := newPoint(0, nil)
			one := newPoint(0, nil)
			_ = one
			work := func(r *iproto.Request) { n.inc(); echo(r) }
			pt.work = work
			pt.hold = true
			iproto.Run(pt)
			begin()
			parallel(func() {
				for i := 0; i < 3; i++ {
					pt.Send(req(i+1, ps[i]))
				}
			}, func() {
				for i := 3; i < 6; i++ {
					pt.Send(req(100+i+1, ps[i]))
				}
			})
			mc.Check(n.get() == 0, "a request was handed over before anybody wanted one")
			pt.release <- true
			go func() {
				for i := 0; i < 2; i++ {
					work(<-pt.ReceiveChan())
				}
			}()
			mc.Idle(0)
			mc.Check(n.get() == 6, "%d requests of 6 were handed over", n.get())
			for i, p := range ps {
				id := i + 1
				if i > 2 {
					id += 100
				}
				p.echoed(id)
			}
		},
	})
	add(mc.Scenario{
		Name:  "C08.cancelled",
		Doc:   "any of three waiting requests are cancelled while the queue is pumped: they do not keep the others, everything is completed once",
		Quick: mc.Bound{D: 2, Clamp: 1},
		Deep:  mc.Bound{D: 4, Clamp: 1},
		Run: func() {
			c := &rec{}
			ps := probes(3)
			pt := newPoint(0, func(r *iproto.Request) { c.add(r); echo(r) })
			pt.hold = mc.ChooseFree(2) == 1
			mask := 1 + mc.ChooseFree(7)
			iproto.Run(pt)
			var rs []*iproto.Request
			for i, p := range ps {
				rs = append(rs, req(i+1, p))
			}
			begin()
			var sent chan bool = make(chan bool, 1)
			fs := []func(){func() {
				for _, r := range rs {
					pt.Send(r)
				}
				sent <- true
			}, func() {
				if mc.Choose(2) == 1 {
					<-sent
				}
				for i, r := range rs {
					if mask>>i&1 == 1 {
						r.Cancel()
					}
				}
			}}
			parallel(fs...)
			pt.release <- true
			mc.Idle(0)
			c.fifo()
			for i, p := range ps {
				p.once(uint32(i+1), msgA)
				if p.code == iproto.RcCanceled {
					mc.Check(mask>>i&1 == 1, "request %d was not cancelled", i+1)
				} else {
					p.echoed(i + 1)
					mc.Check(c.has(i+1), "request %d was answered by nobody", i+1)
				}
			}
		},
	})
	rows := func(name string, d int, nogo bool) {
		add(mc.Scenario{
			Name:  name,
			Doc:   "the overflow list crosses from one row of 1024 to the next while two senders push and the pump drains",
			Quick: mc.Bound{D: d, Clamp: 1, MaxSteps: 200000},
			Deep:  mc.Bound{D: d + 1, Clamp: 1, MaxSteps: 200000},
			Run: func() {
				c := &rec{}
				pt := newPoint(0, func(r *iproto.Request) { c.add(r); echo(r) })
				pt.hold = true
				iproto.Run(pt)
				mc.Idle(0)
				// 1 request fills the channel, the others use up the first row
				ps := probes(1026 + 4)
				n := 1022 + mc.ChooseFree(3)
				for i := 0; i < n; i++ {
					pt.Send(req(i+1, ps[i]))
				}
				drained := mc.ChooseFree(2) == 1
				if drained {
					// keep only the pump and the channel occupied
					for i := 0; i < n-2; i++ {
						r := <-pt.ReceiveChan()
						c.add(r)
						echo(r)
					}
				}
				begin()
				parallel(func() {
					pt.Send(req(100001, ps[1026]))
					pt.Send(req(100002, ps[1027]))
				}, func() {
					pt.Send(req(200001, ps[1028]))
					pt.Send(req(200002, ps[1029]))
				}, func() {
					pt.release <- true
				})
				mc.End()
				mc.Idle(0)
				c.o.Touch()
				last := map[int]int{}
				for _, id := range c.ids {
					mc.Check(last[id/100000] < id, "requests were handed over out of order: ... %v", c.ids[len(c.ids)-8:])
					last[id/100000] = id
				}
				mc.Check(len(c.ids) == n+4, "%d requests of %d were handed over", len(c.ids), n+4)
				for i := 0; i < n; i++ {
					ps[i].echoed(i + 1)
				}
				for i, id := range []int{100001, 100002, 200001, 200002} {
					ps[1026+i].echoed(id)
				}
			},
		})
	}
	rows("C08.rows", 1, false)
	cross := func(name string, before, na, nb, d int) {
		add(mc.Scenario{
			Name:  name,
			Doc:   "the overflow list, drained up to the end of a row of 1024, goes on to the next one while two senders push and the pump and the worker run",
			Quick: mc.Bound{D: d, Clamp: 1, MaxSteps: 200000},
			Deep:  mc.Bound{D: d + 1, Clamp: 1, MaxSteps: 200000},
			Run: func() {
				c := &rec{}
				pt := newPoint(0, func(r *iproto.Request) { c.add(r); echo(r) })
				pt.hold = true
				iproto.Run(pt)
				mc.Idle(0)
				n := 1024 - before
				pt.Send(req(0, &probe{}))
				for i := 0; i < n; i++ {
					pt.Send(req(0, &probe{}))
				}
				for i := 0; i <= n; i++ {
					echo(<-pt.ReceiveChan())
				}
				pt.release <- true
				begin()
				ps := probes(na + nb)
				parallel(func() {
					for i := 0; i < na; i++ {
						pt.Send(req(1+i, ps[i]))
					}
				}, func() {
					for i := 0; i < nb; i++ {
						pt.Send(req(101+i, ps[na+i]))
					}
				})
				mc.End()
				mc.Idle(0)
				c.fifo()
				mc.Check(len(c.ids) == na+nb, "%d requests of %d were handed over", len(c.ids), na+nb)
				for i := 0; i < na; i++ {
					ps[i].echoed(i + 1)
				}
				for i := 0; i < nb; i++ {
					ps[na+i].echoed(101 + i)
				}
			},
		})
	}
	cross("C08.row-end", 1, 4, 0, 2)
	cross("C08.row-start", 0, 3, 1, 1)

	add(mc.Scenario{
		Name:  "C04.queue",
		Doc:   "requests waiting in the queue and in its overflow: each ends with its answer, or with a timeout not before its deadline; a requester's own timeout (shorter or longer) wins",
		Quick: mc.Bound{D: 2, MaxEarly: 2, Clamp: 1},
		Deep:  mc.Bound{D: 4, MaxEarly: 3, Clamp: 1},
		Run: func() {
			own := mc.ChooseFree(3)
			serve := mc.ChooseFree(3) // never, at 7 ms, at 20 ms
			pt := newPoint(10*ms, echo)
			pt.hold = true
			iproto.Run(pt)
			ps := probes(3)
			var t0 [3]int64
			var t1 [3]int64
			d := [3]time.Duration{10 * ms, 10 * ms, 10 * ms}
			begin()
			fs := []func(){func() {
				for i, p := range ps {
					r := req(i+1, p)
					t0[i] = mc.Now()
					if i == 1 && own > 0 {
						d[1] = []time.Duration{0, 5 * ms, 30 * ms}[own]
						r.SetTimeout(d[1])
					}
					pt.Send(r)
					r.SetTimeout(ms)
					t1[i] = mc.Now()
				}
			}}
			if serve > 0 {
				fs = append(fs, func() {
					mc.Sleep(time.Duration(7*serve*serve) * ms)
					pt.release <- true
				})
			}
			parallel(fs...)
			mc.Idle(150 * ms)
			for i, p := range ps {
				p.once(uint32(i+1), msgA)
				if p.code == iproto.RcTimeout {
					mc.Check(p.at >= t0[i]+int64(d[i]), "request %d timed out %v too early", i+1, time.Duration(t0[i]+int64(d[i])-p.at))
					mc.Check(serve == 0 || d[i] < 40*ms, "request %d timed out", i+1)
				} else {
					p.echoed(i + 1)
					mc.Check(serve > 0, "answered by nobody")
				}
			}
			for i, p := range ps {
				if serve == 0 {
					mc.Check(p.code == iproto.RcTimeout && p.at <= t1[i]+int64(d[i])+int64(100*ms), "request %d: code %#x after %v", i+1, uint32(p.code), time.Duration(p.at-t0[i]))
				}
			}
		},
	})
	add(mc.Scenario{
		Name:  "C04.in-flight",
		Doc:   "a worker keeps the request and answers before, around or after the deadline, or never",
		Quick: mc.Bound{D: 4, MaxEarly: 2},
		Deep:  mc.Bound{D: 6, MaxEarly: 3},
		Run: func() {
			when := []time.Duration{0, 9 * ms, 10 * ms, 20 * ms, -1}[mc.ChooseFree(5)]
			got := make(chan *iproto.Request, 4)
			pt := newPoint(10*ms, func(r *iproto.Request) {
				if r.SetInFly(nil) {
					got <- r
				}
			})
			iproto.Run(pt)
			p := &probe{name: "request"}
			begin()
			t0 := mc.Now()
			var t1 int64
			parallel(func() {
				pt.Send(req(1, p))
				t1 = mc.Now()
			}, func() {
				if when >= 0 {
					mc.Sleep(when)
					select {
					case r := <-got:
						r.Respond(iproto.RcOK, iproto.Body("re:1"))
					case <-time.After(50 * ms):
					}
				}
			})
			mc.Idle(150 * ms)
			p.once(1, msgA)
			if p.code == iproto.RcTimeout {
				mc.Check(p.at >= t0+int64(10*ms), "timed out early")
			} else {
				p.echoed(1)
			}
			if when < 0 {
				mc.Check(p.code == iproto.RcTimeout && p.at <= t1+int64(110*ms), "code %#x after %v", uint32(p.code), time.Duration(p.at-t0))
			}
			mc.Idle(50 * ms)
			p.once(1, msgA)
		},
	})
	add(mc.Scenario{
		Name:  "C04.multi",
		Doc:   "a multi-request takes its timeout from the end point, unless it has a (longer) one already: unanswered requests end with a timeout, not early",
		Quick: mc.Bound{D: 3, MaxEarly: 2, Clamp: 1},
		Deep:  mc.Bound{D: 4, MaxEarly: 3, Clamp: 1},
		Run: func() {
			each := mc.ChooseFree(2) == 1
			own := mc.ChooseFree(2) == 1
			answered := mc.ChooseFree(3)
			n := 0
			pt := newPoint(10*ms, nil)
			pt.work = func(r *iproto.Request) {
				if n++; n <= answered {
					echo(r)
				} else {
					r.SetInFly(nil)
				}
			}
			iproto.Run(pt)
			begin()
			m := &iproto.MultiRequest{}
			t0 := mc.Now()
			d := 10 * ms
			if own {
				d = 30 * ms
				m.SetTimeout(d)
			}
			m.TimeoutFrom(pt)
			for i := 0; i < 2; i++ {
				m.SendMsgBody(pt, msgA, iproto.Body("q"))
			}
			l := collect(m, each, 2, iproto.RcOK, iproto.RcTimeout)
			k := 0
			for _, r := range l {
				if r.Code == iproto.RcTimeout {
					k++
				}
			}
			mc.Check(k >= 2-answered, "%d answers, but only %d were given", 2-k, answered)
			mc.Check(k == 0 || mc.Now() >= t0+int64(d), "timed out early")
		},
	})
	add(mc.Scenario{
		Name:  "C04.handler",
		Doc:   "a request expires while a parallel service works on it: the handler's context expires, what it waits for is cancelled, its answer counts",
		Quick: mc.Bound{D: 5, MaxEarly: 2},
		Deep:  mc.Bound{D: 7, MaxEarly: 3},
		Run: func() {
			quick := mc.ChooseFree(2) == 1
			inner := &pool{}
			is := inner.service()
			var t0, t1 int64
			serv := iproto.BF{N: 1, Timeout: 10 * ms}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				if quick {
					mc.Check(cx.Alive() || mc.Now() >= t0+int64(10*ms), "the context of a handler died early")
					return iproto.RcOK, iproto.Body("re:1")
				}
				res := cx.CallMsgBody(is, msgA, iproto.Body("sub"))
				mc.Check(res.Code == iproto.RcCanceled, "code %#x", uint32(res.Code))
				mc.Check(!cx.Alive() && cx.Timeout(), "the context of an expired request is alive")
				mc.Check(mc.Now() >= t0+int64(10*ms), "the context of a handler expired early")
				mc.Check(mc.Now() <= t1+int64(110*ms), "the context of a handler expired late")
				return iproto.RcFatal, iproto.Body("expired")
			})
			p := &probe{name: "request"}
			begin()
			t0 = mc.Now()
			t1 = t0 + int64(time.Hour)
			serv.Send(req(1, p))
			t1 = mc.Now()
			mc.Idle(150 * ms)
			p.once(1, msgA)
			switch {
			case p.code == iproto.RcTimeout:
				mc.Check(p.at >= t0+int64(10*ms), "timed out early")
			case quick:
				p.echoed(1)
			default:
				mc.Check(p.code == iproto.RcFatal && p.body == "expired", "code %#x body %q", uint32(p.code), p.body)
			}
			mc.Idle(30 * ms)
		},
	})

	// handler kinds of C09
	add(mc.Scenario{
		Name:  "C09.limit",
		Doc:   "two senders, three requests, one or two handlers at a time; handlers answer, fail, panic, answer themselves or time out: every request is answered with that, the limit holds and no slot is lost",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			n := 1 + mc.ChooseFree(2)
			kind := mc.ChooseFree(6)
			var running counter
			var ran [4]counter
			serv := iproto.BF{N: n}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				k := running.inc()
				mc.Check(k <= n, "%d handlers run at a time, the limit is %d", k, n)
				mc.Check(ran[r.Id].inc() == 1, "the handler ran twice for request %d", r.Id)
				mc.Yield()
				running.dec()
				if r.Id == 1 {
					switch kind {
					case 1:
						return iproto.RcFatal, iproto.Body("failed")
					case 2:
						panic("handler fails")
					case 3:
						r.Respond(iproto.RcOK, iproto.Body("self"))
						return iproto.RcFatal, iproto.Body("too late")
					case 4:
						return iproto.RcTimeout, nil
					case 5:
						return iproto.RcCanceled, nil
					}
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			ps := probes(4)
			begin()
			parallel(func() { serv.Send(req(1, ps[1])); serv.Send(req(2, ps[2])) }, func() { serv.Send(req(3, ps[3])) })
			mc.Idle(0)
			for i := 1; i < 4; i++ {
				ps[i].once(uint32(i), msgA)
				code, body := iproto.RcOK, fmt.Sprintf("re:%d", i)
				if i == 1 {
					switch kind {
					case 1:
						code, body = iproto.RcFatal, "failed"
					case 2:
						code, body = iproto.RcInternalError, ""
					case 3:
						body = "self"
					case 4:
						code, body = iproto.RcTimeout, ""
					case 5:
						code, body = iproto.RcCanceled, ""
					}
				}
				mc.Check(ps[i].code == code && ps[i].body == body, "request %d ended with code %#x body %q, its handler said %#x %q", i, uint32(ps[i].code), ps[i].body, uint32(code), body)
				mc.Check(ran[i].get() == 1, "the handler ran %d times for request %d", ran[i].get(), i)
			}
		},
	})
	add(mc.Scenario{
		Name:  "C09.slots",
		Doc:   "after panicking, cancelled and normal handlers all slots are usable again: N handlers can wait for each other",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			const n = 2
			var inside counter
			meet := make(chan bool, n)
			serv := iproto.BF{N: n}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				switch {
				case r.Id == 1:
					panic("handler fails")
				case r.Id == 2:
					return iproto.RcOK, nil
				case r.Id == 3:
					mc.Fail("the handler was run for a request that had been cancelled")
				}
				inside.inc()
				if r.Id == 4 {
					meet <- true
				} else {
					<-meet
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			ps := probes(6)
			begin()
			serv.Send(req(1, ps[1]))
			serv.Send(req(2, ps[2]))
			r := req(3, ps[3])
			r.Cancel()
			serv.Send(r)
			serv.Send(req(5, ps[5]))
			serv.Send(req(4, ps[4]))
			mc.Idle(0)
			for i := 1; i < 6; i++ {
				ps[i].once(uint32(i), msgA)
			}
			ps[4].echoed(4)
			ps[5].echoed(5)
			mc.Check(ps[3].code == iproto.RcCanceled && ps[1].code == iproto.RcInternalError && ps[2].code == iproto.RcOK, "codes %#x %#x %#x", uint32(ps[1].code), uint32(ps[2].code), uint32(ps[3].code))
		},
	})
	add(mc.Scenario{
		Name:  "C09.cancel",
		Doc:   "requests are cancelled while they wait, are being taken or handled: the handler runs at most once, the requester gets one outcome, the next request is served",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			var ran [3]counter
			var cancelled counter
			serv := iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				mc.Check(ran[r.Id].inc() == 1, "the handler ran twice for request %d", r.Id)
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			ps := probes(3)
			rs := []*iproto.Request{nil, req(1, ps[1]), req(2, ps[2])}
			which := mc.ChooseFree(2)
			begin()
			parallel(func() {
				serv.Send(rs[1])
				serv.Send(rs[2])
			}, func() {
				rs[1+which].Cancel()
				cancelled.inc()
			})
			mc.Idle(0)
			for i := 1; i < 3; i++ {
				p := ps[i]
				p.once(uint32(i), msgA)
				if p.code == iproto.RcCanceled {
					mc.Check(which == i-1, "request %d was not cancelled", i)
				} else {
					p.echoed(i)
					mc.Check(ran[i].get() == 1, "answered without a handler")
				}
			}
		},
	})
	stop := func(name string, n, nr, clamp, d int) {
		add(mc.Scenario{
			Name:  name,
			Doc:   "the service is stopped while requests wait in its queue and overflow and are being handled: those started are answered by their handler, the others with the shutdown code",
			Quick: mc.Bound{D: d, Clamp: clamp},
			Deep:  mc.Bound{D: d + 2, Clamp: clamp},
			Run: func() {
				ran := make([]counter, nr+1)
				gate := mc.ChooseFree(2) == 1
				open := make(chan bool)
				serv := iproto.BF{N: n}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
					mc.Check(ran[r.Id].inc() == 1, "the handler ran twice for request %d", r.Id)
					if gate {
						<-open
					}
					return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
				})
				ps := probes(nr + 1)
				begin()
				for i := 1; i <= nr; i++ {
					serv.Send(req(i, ps[i]))
				}
				serv.Stop()
				if gate {
					close(open)
				}
				mc.Idle(0)
				for i := 1; i <= nr; i++ {
					p := ps[i]
					p.once(uint32(i), msgA)
					if ran[i].get() > 0 {
						p.echoed(i)
					} else {
						mc.Check(p.code == iproto.RcShutdown && p.body == "", "request %d, which was not started, ended with code %#x", i, uint32(p.code))
					}
				}
			},
		})
	}
	stop("C09.stop", 1, 2, 0, 6)
	stop("C09.stop-overflow", 1, 4, 1, 3)
	stop("C09.stop-two", 2, 3, 0, 4)

	add(mc.Scenario{
		Name:  "C10.children",
		Doc:   "one to three children, some added before and some right after the balancer is started; two senders: every request is served by exactly one child, each child is started once",
		Quick: mc.Bound{D: 2, Clamp: 2},
		Deep:  mc.Bound{D: 4, Clamp: 2},
		Run: func() {
			n := 1 + mc.ChooseFree(3)
			late := mc.ChooseFree(n + 1)
			c := &rec{}
			var kids []*point
			for i := 0; i < n; i++ {
				kids = append(kids, newPoint(0, func(r *iproto.Request) { c.add(r); echo(r) }))
			}
			b := &iproto.BalancerPoint{}
			b.Init()
			for _, k := range kids[late:] {
				b.AddChild(k)
			}
			begin()
			iproto.Run(b)
			ps := probes(3)
			parallel(func() {
				for _, k := range kids[:late] {
					b.AddChild(k)
				}
			}, func() {
				b.Send(req(1, ps[0]))
				b.Send(req(2, ps[1]))
			}, func() {
				b.Send(req(101, ps[2]))
			})
			mc.Idle(0)
			for i, id := range []int{1, 2, 101} {
				ps[i].echoed(id)
			}
			c.o.Touch()
			mc.Check(len(c.ids) == 3, "children were handed %v", c.ids)
			for i, k := range kids {
				mc.Check(k.started.get() == 1, "child %d was started %d times", i, k.started.get())
				mc.Check(k.stops.get() == 0, "child %d was stopped", i)
			}
			mc.End()
			b.Stop()
			mc.Idle(0)
			for i, k := range kids {
				mc.Check(k.stops.get() == 1 && k.Stopped(), "child %d was stopped %d times", i, k.stops.get())
			}
		},
	})
	add(mc.Scenario{
		Name:  "C10.free-child",
		Doc:   "one child is busy: requests go to the free ones and nothing waits for the busy one",
		Quick: mc.Bound{D: 5, Clamp: 1},
		Deep:  mc.Bound{D: 7, Clamp: 1},
		Run: func() {
			busy := make(chan bool)
			var taken counter
			c := &rec{}
			work := func(r *iproto.Request) {
				if taken.inc() == 1 {
					<-busy
				}
				c.add(r)
				echo(r)
			}
			kids := []*point{newPoint(0, work), newPoint(0, work)}
			b := &iproto.BalancerPoint{}
			b.Init()
			b.AddChild(kids[0])
			b.AddChild(kids[1])
			iproto.Run(b)
			ps := probes(3)
			begin()
			parallel(func() { b.Send(req(1, ps[0])); b.Send(req(2, ps[1])) }, func() { b.Send(req(101, ps[2])) })
			mc.Idle(0)
			c.o.Touch()
			mc.Check(len(c.ids) == 2, "a free child left requests waiting: %v", c.ids)
			busy <- true
			mc.Idle(0)
			for i, id := range []int{1, 2, 101} {
				ps[i].echoed(id)
			}
		},
	})
	add(mc.Scenario{
		Name:  "C10.stop",
		Doc:   "the balancer is stopped at any moment after it was started: every child is stopped exactly once",
		Quick: mc.Bound{D: 5},
		Deep:  mc.Bound{D: 7},
		Run: func() {
			n := 1 + mc.ChooseFree(2)
			var kids []*point
			b := &iproto.BalancerPoint{}
			b.Init()
			for i := 0; i < n; i++ {
				k := newPoint(0, echo)
				kids = append(kids, k)
				b.AddChild(k)
			}
			p := &probe{name: "request"}
			begin()
			iproto.Run(b)
			b.Send(req(1, p))
			b.Stop()
			mc.Idle(0)
			for i, k := range kids {
				mc.Check(k.started.get() == 1 && k.stops.get() == 1 && k.Stopped(), "child %d was started %d times and stopped %d times", i, k.started.get(), k.stops.get())
			}
		},
	})
}
