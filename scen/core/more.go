package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

func init() {
	add(mc.Scenario{
		Name:  "C06.concurrent",
		Doc:   "started functions run beside their starter and beside each other, and a function that ends its thread (runtime.Goexit) is done",
		Quick: mc.Bound{D: 5},
		Deep:  mc.Bound{D: 12},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			kind, exit := mc.ChooseFree(4), mc.ChooseFree(2) == 1
			a, b := make(chan bool), make(chan bool)
			var done counter
			f := func(c *iproto.Context) {
				<-a
				b <- true
				done.inc()
				if kind >= 2 {
					c.Done()
				}
				if exit {
					runtime.Goexit()
				}
			}
			fi := func(c *iproto.Context, _ interface{}) { f(c) }
			g := func(c *iproto.Context) { <-b; done.inc() }
			switch kind {
			case 0:
				cx.Go(f)
			case 1:
				cx.GoInt(fi, nil)
			case 2:
				cx.GoAsync(f)
			case 3:
				cx.GoIntAsync(fi, nil)
			}
			cx.Go(g)
			a <- true
			cx.WaitAll()
			mc.Check(done.get() == 2, "WaitAll returned when %d of 2 functions were done", done.get())
		},
	})
	add(mc.Scenario{
		Name:  "C06.done-again",
		Doc:   "finishing a child more than once, or after its parent died, leaves the count of outstanding work right",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			n := 1 + mc.ChooseFree(4)
			twice, die := mc.ChooseFree(2) == 1, mc.ChooseFree(3)
			var done counter
			var kids []*iproto.Context
			for i := 0; i < n; i++ {
				c, ok := cx.Child()
				mc.Check(ok && c.Alive(), "no live child of a live context")
				kids = append(kids, c)
			}
			go func() {
				for _, c := range kids {
					done.inc()
					c.Done()
					if twice {
						c.Done()
					}
				}
			}()
			if die > 0 {
				go cx.Cancel()
			}
			cx.WaitAll()
			mc.Check(done.get() == n, "WaitAll returned when %d of %d children were done", done.get(), n)
			if die == 2 {
				return
			}
			mc.Idle(0)
			if cx.Alive() {
				cx.Go(func(*iproto.Context) { done.inc() })
				cx.WaitAll()
				mc.Check(done.get() == n+1, "WaitAll returned before the last function was done")
			}
		},
	})

	add(mc.Scenario{
		Name:  "C01.many",
		Doc:   "70 requests made by a context, by a multi-request or by themselves are outstanding at once and completed by two threads: each is completed once with its own id, type, code and body",
		Quick: mc.Bound{D: 1, MaxSteps: 20000},
		Deep:  mc.Bound{D: 2, MaxSteps: 20000},
		Run: func() {
			const n = 70
			how := mc.ChooseFree(3)
			back := mc.ChooseFree(2) == 1
			cx := &iproto.Context{}
			m := &iproto.MultiRequest{}
			var got []*iproto.Request
			s := iproto.SF(func(r *iproto.Request) { got = append(got, r) })
			var reqs []*iproto.Request
			var res []<-chan *iproto.Response
			for i := 0; i < n; i++ {
				msg, body := iproto.RequestType(i+1), iproto.Body(fmt.Sprintf("q%d", i))
				var r *iproto.Request
				var ch <-chan *iproto.Response
				switch how {
				case 0:
					r, ch = cx.SendMsgBody(s, msg, body)
				case 1:
					r = m.SendMsgBody(s, msg, body)
				case 2:
					r, ch = iproto.SendMsgBody(s, msg, body)
				}
				reqs, res = append(reqs, r), append(res, ch)
			}
			mc.Check(len(got) == n, "%d requests of %d were served", len(got), n)
			var ids []uint32
			for i, r := range got {
				mc.Check(r == reqs[i] && r.Msg == iproto.RequestType(i+1) && string(r.Body) == fmt.Sprintf("q%d", i), "request %d arrived as type %d body %q", i, r.Msg, string(r.Body))
				ids = append(ids, r.Id)
			}
			code := func(i int) iproto.RetCode {
				return []iproto.RetCode{iproto.RcOK, iproto.RcFatal, iproto.RcCanceled, iproto.RcIOError}[i%4]
			}
			done := func(i int) {
				switch i % 4 {
				case 2:
					got[i].Cancel()
				case 3:
					got[i].IOError()
				default:
					got[i].Respond(code(i), iproto.Body(fmt.Sprintf("re:%d", i)))
				}
			}
			begin()
			parallel(func() {
				for i := 0; i < n; i += 2 {
					done(i)
				}
			}, func() {
				for i := 1; i < n; i += 2 {
					if back {
						done(n - i)
					} else {
						done(i)
					}
				}
			})
			mc.End()
			if how == 1 {
				l := m.Results()
				mc.Check(len(l) == n, "%d responses for %d requests", len(l), n)
				l.Sort()
				for i := range res {
					ch := make(chan *iproto.Response, 1)
					ch <- l[i]
					res[i] = ch
				}
			}
			for i, ch := range res {
				r := got2(ch, i)
				body := ""
				if i%4 < 2 {
					body = fmt.Sprintf("re:%d", i)
				}
				mc.Check(r.Id == ids[i] && r.Msg == iproto.RequestType(i+1) && r.Code == code(i) && string(r.Body) == body, "request %d got id %d type %d code %#x body %q", i, r.Id, r.Msg, uint32(r.Code), string(r.Body))
			}
		},
	})
	add(mc.Scenario{
		Name:  "C04.kinds",
		Doc:   "requests of every origin (plain, of a context, of a multi-request with or without time limit, sent again after a failure) are answered before the deadline or time out exactly then",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			const n = 2
			kind := mc.ChooseFree(11)
			when := []time.Duration{-1, 0, 3 * ms, 9 * ms, 12 * ms, 14 * ms, 29 * ms, 31 * ms}[mc.ChooseFree(8)]
			each := kind >= 3 && kind < 9 && mc.ChooseFree(2) == 1
			got := make(chan *iproto.Request, 8)
			take := func(r *iproto.Request) {
				if r.SetInFly(nil) {
					got <- r
				}
			}
			pt, free := newPoint(10*ms, take), newPoint(0, take)
			iproto.Run(pt)
			iproto.Run(free)
			fails := 0
			flaky := newPoint(10*ms, func(r *iproto.Request) {
				if fails++; fails <= n && r.SetInFly(nil) {
					mc.Sleep(2 * ms)
					r.IOError()
				} else {
					take(r)
				}
			})
			iproto.Run(flaky)
			begin()
			t0 := mc.Now()
			go func() {
				if when < 0 {
					return
				}
				if when > 0 {
					mc.Sleep(when)
				}
				for {
					r := <-got
					r.Respond(iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id)))
				}
			}()
			d := 10 * ms // when an unanswered request times out
			var l []*iproto.Response
			var m *iproto.MultiRequest
			cx := &iproto.Context{}
			two := func(s iproto.Service) {
				m.SendMsgBody(s, msgA, iproto.Body("q"))
				m.SendMsgBody(s, msgA, iproto.Body("q"))
			}
			switch kind {
			case 0:
				_, a := iproto.SendMsgBody(pt, msgA, iproto.Body("q"))
				b := iproto.CallMsgBody(pt, msgA, iproto.Body("q"))
				l = append(l, <-a, b)
			case 1:
				_, a := cx.SendMsgBody(pt, msgA, iproto.Body("q"))
				b := cx.CallMsgBody(pt, msgA, iproto.Body("q"))
				l = append(l, <-a, b)
			case 2: // a time limit of the requester, and an end point without one
				d = 13 * ms
				a, b := &probe{}, &probe{}
				for i, p := range []*probe{a, b} {
					r := req(i, p)
					r.SetTimeout(d)
					[]iproto.Service{free, pt}[i].Send(r)
				}
				mc.Idle(50 * ms)
				for i, p := range []*probe{a, b} {
					p.once(uint32(i), msgA)
					early := when >= 0 && when < d
					mc.Check((p.code == iproto.RcOK) == early, "code %#x", uint32(p.code))
					at := t0 + int64(d)
					if early {
						at = t0 + int64(when)
					}
					mc.Check(p.at >= at && p.at < at+int64(ms), "completed after %v", time.Duration(p.at-t0))
				}
				return
			case 3:
				m = &iproto.MultiRequest{}
				two(pt)
			case 4:
				m = cx.NewMulti()
				two(pt)
			case 5: // counted from when it was set
				m = &iproto.MultiRequest{}
				m.TimeoutFrom(pt)
				mc.Idle(3 * ms)
				two(pt)
			case 6:
				m = cx.NewMulti()
				m.TimeoutFrom(pt)
				m.TimeoutFrom(free)
				m.SetTimeout(ms)
				two(free)
			case 7:
				d = 13 * ms
				m = &iproto.MultiRequest{}
				m.SetTimeout(d)
				m.TimeoutFrom(pt)
				two(pt)
			case 8: // one request comes later
				d = 30 * ms
				m = cx.NewMulti()
				m.SetTimeout(d)
				m.SendMsgBody(pt, msgA, iproto.Body("q"))
				mc.Idle(11 * ms)
				m.SendMsgBody(pt, msgA, iproto.Body("q"))
			case 9, 10: // failed by one end point, put back and sent to another one
				a := make(iproto.Chan, n)
				for i := 0; i < n; i++ {
					r := &iproto.Request{Id: uint32(i), Msg: msgA, Body: iproto.Body("q"), Responder: a}
					r.ChainBookmark(&again{f: func(q *iproto.Request, res *iproto.Response) {
						if res.Code != iproto.RcIOError {
							return
						}
						if kind == 9 {
							q.ResetToNew()
							go pt.Send(q)
						} else {
							q.ResetToPending()
							go take(q)
						}
					}})
					flaky.Send(r)
				}
				l = append(l, <-a, <-a)
			}
			if m != nil {
				l = collect(m, each, n, iproto.RcOK, iproto.RcTimeout)
			}
			el := time.Duration(mc.Now() - t0)
			sent := time.Duration(0)
			switch kind {
			case 5:
				sent = 3 * ms
			case 8:
				sent = 11 * ms
			case 9, 10:
				sent = 4 * ms
			}
			answered := when >= 0 && when < d
			at := d
			if answered {
				if at = when; at < sent {
					at = sent
				}
			}
			for _, r := range l {
				mc.Check((r.Code == iproto.RcOK) == answered && (answered || r.Code == iproto.RcTimeout), "request %d: code %#x, the answer is given after %v, the limit is %v", r.Id, uint32(r.Code), when, d)
			}
			mc.Check(el >= at && el < at+ms, "completed after %v, should be %v (answer after %v, limit %v)", el, at, when, d)
		},
	})
	add(mc.Scenario{
		Name:  "C04.hours",
		Doc:   "timeouts of hours, of the end point and of the requester (shorter or longer), are kept as exactly as short ones, also when another request is served or comes in between",
		Quick: mc.Bound{D: 2, Horizon: 8 * time.Hour},
		Deep:  mc.Bound{D: 3, Horizon: 8 * time.Hour},
		Run: func() {
			own := []time.Duration{0, 30 * time.Minute, 90 * time.Minute, 3 * time.Hour}[mc.ChooseFree(4)]
			between := mc.ChooseFree(3)
			pt := newPoint(2*time.Hour, func(r *iproto.Request) {
				if r.SetInFly(nil) && r.Id == 2 {
					r.Respond(iproto.RcOK, iproto.Body("re:2"))
				}
			})
			iproto.Run(pt)
			p, p2 := &probe{name: "request"}, &probe{name: "other"}
			begin()
			t0 := mc.Now()
			d := 2 * time.Hour
			r := req(1, p)
			if own > 0 {
				d = own
				r.SetTimeout(own)
			}
			pt.Send(r)
			r.SetTimeout(time.Minute)
			r.SetTimeout(5 * time.Hour)
			t1 := mc.Now()
			if between > 0 {
				mc.Sleep(time.Duration(between-1) * 70 * time.Minute)
				pt.Send(req(2, p2))
			}
			mc.Idle(6 * time.Hour)
			p.once(1, msgA)
			if between > 0 {
				p2.echoed(2)
			}
			if p.code != iproto.RcTimeout {
				mc.Fail("code %#x", uint32(p.code))
			}
			mc.Check(p.at >= t0+int64(d), "a request with a timeout of %v timed out after %v", d, time.Duration(p.at-t0))
			mc.Check(p.at <= t1+int64(d+100*ms), "a request with a timeout of %v timed out after %v", d, time.Duration(p.at-t0))
		},
	})
	add(mc.Scenario{
		Name:  "C09.expired",
		Doc:   "a handler panics, answers, or returns after its request has expired or been cancelled: the request is completed all the same, once, and the slot is free for the next request",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			kind := mc.ChooseFree(4)
			cancel := mc.ChooseFree(2) == 1
			serv := iproto.BF{N: 1, Timeout: 10 * ms}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
				if r.Id == 1 {
					for cx.Alive() {
						mc.Sleep(3 * ms)
					}
					switch kind {
					case 1:
						panic("handler fails")
					case 2:
						r.Respond(iproto.RcOK, iproto.Body("self"))
					case 3:
						return iproto.RcTimeout, nil
					}
				}
				return iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id))
			})
			p, p2 := &probe{name: "request"}, &probe{name: "next"}
			begin()
			r := req(1, p)
			parallel(func() { serv.Send(r) }, func() {
				if cancel {
					mc.Sleep(2 * ms)
					r.Cancel()
				}
			})
			mc.Idle(40 * ms)
			serv.Send(req(2, p2))
			mc.Idle(0)
			p.once(1, msgA)
			p2.echoed(2)
			ok := p.code == iproto.RcTimeout && p.body == ""
			if cancel {
				ok = ok || p.code == iproto.RcCanceled && p.body == ""
			}
			switch kind {
			case 0:
				ok = ok || p.code == iproto.RcOK && p.body == "re:1"
			case 1:
				ok = ok || p.code == iproto.RcInternalError && p.body == ""
			case 2:
				ok = ok || p.code == iproto.RcOK && p.body == "self"
			}
			mc.Check(ok, "the request ended with code %#x body %q", uint32(p.code), p.body)
		},
	})
}

// got2 takes the one response out of a result channel.
func got2(ch <-chan *iproto.Response, i int) *iproto.Response {
	var r *iproto.Response
	select {
	case r = <-ch:
	default:
		mc.Fail("request %d was never completed", i)
	}
	select {
	case <-ch:
		mc.Fail("request %d was completed twice", i)
	default:
	}
	return r
}
