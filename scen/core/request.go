package main

import (
	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

const msgA = iproto.RequestType(0x11)

// actor is something that may complete a request.
type actor struct {
	name string
	do   func(r *iproto.Request)
	code iproto.RetCode
	body string
}

var actors = []actor{
	{"respond", func(r *iproto.Request) { r.Respond(iproto.RcOK, iproto.Body("good")) }, iproto.RcOK, "good"},
	{"cancel", func(r *iproto.Request) { r.Cancel() }, iproto.RcCanceled, ""},
	{"expire", func(r *iproto.Request) { r.Expire() }, iproto.RcTimeout, ""},
	{"ioerror", func(r *iproto.Request) { r.IOError() }, iproto.RcIOError, ""},
	{"fatal", func(r *iproto.Request) { r.RespondBytes(iproto.RcFatal, []byte("bad")) }, iproto.RcFatal, "bad"},
	{"timer", func(r *iproto.Request) { r.SetTimeout(5 * ms) }, iproto.RcTimeout, ""},
}

// oneOf checks the completion is the work of one of the actors, not a mixture.
func oneOf(p *probe, as []actor) {
	for _, a := range as {
		if p.code == a.code && p.body == a.body {
			return
		}
	}
	mc.Fail("%s: completion code=%#x body=%q was not asked for by anybody", p.name, uint32(p.code), p.body)
}

func init() {
	add(mc.Scenario{
		Name:  "C01.inflight-completers",
		Doc:   "a request in flight, completed concurrently by any 2 or 3 of respond/cancel/expire/ioerror/fatal answer/timer",
		Quick: mc.Bound{D: 4, MaxEarly: 2},
		Deep:  mc.Bound{D: 8, MaxEarly: 2},
		Run: func() {
			begin()
			n := len(actors)
			i := mc.ChooseFree(n)
			j := mc.ChooseFree(n)
			k := mc.ChooseFree(n + 1)
			if j < i || k < j || j == n-1 && k == n-1 || i == n-1 {
				return
			}
			as := []actor{actors[i], actors[j]}
			if k < n {
				as = append(as, actors[k])
			}
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 7, Msg: msgA, Responder: p, Body: iproto.Body("q")}
			mc.Check(r.SetPending(), "SetPending refused a new request")
			mc.Check(r.SetInFly(nil), "SetInFly refused a pending request")
			var fs []func()
			for _, a := range as {
				a := a
				fs = append(fs, func() { a.do(r) })
			}
			parallel(fs...)
			mc.Idle(10 * ms)
			p.once(7, msgA)
			oneOf(p, as)
			mc.Check(r.Performed(), "a completed request is not Performed()")
			mc.Check(!r.SetInFly(nil) && !r.SetPending() && !r.IsPending(), "a completed request can be taken again")
			r.Respond(iproto.RcOK, iproto.Body("late"))
			r.Cancel()
			p.once(7, msgA)
		},
	})
	add(mc.Scenario{
		Name:  "C01.takers",
		Doc:   "two workers race to take a pending request that is also cancelled/expired; only one may serve it",
		Quick: mc.Bound{D: 5},
		Deep:  mc.Bound{D: 9},
		Run: func() {
			begin()
			fail := actors[1+mc.ChooseFree(3)]
			mark := mc.ChooseFree(4)
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 9, Msg: msgA, Responder: p}
			var senders, takers counter
			work := func(w int) func() {
				return func() {
					if r.SetPending() {
						senders.inc()
					}
					var b iproto.RequestBookmark
					if mark>>uint(w)&1 == 1 {
						b = &mark0{}
					}
					if r.SetInFly(b) {
						mc.Check(takers.inc() == 1, "two workers took the same request")
						mc.Check(!r.IsPending(), "request is still pending after it was taken")
						r.Respond(iproto.RcOK, iproto.Body("good"))
					}
				}
			}
			parallel(work(0), work(1), func() { fail.do(r) })
			p.once(9, msgA)
			oneOf(p, []actor{actors[0], fail})
			mc.Check(senders.get() <= 1, "a request was sent %d times", senders.get())
			mc.Check(p.code != iproto.RcOK || takers.get() == 1, "answered without being taken")
		},
	})
	add(mc.Scenario{
		Name:  "C01.answer-needs-taking",
		Doc:   "answers to requests nobody took are dropped; failures complete a request in every state before completion",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			begin()
			st := mc.ChooseFree(3)
			a := actors[mc.ChooseFree(5)]
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 3, Msg: msgA, Responder: p}
			if st > 0 {
				r.SetPending()
			}
			if st > 1 {
				r.SetInFly(nil)
			}
			answer := a.name == "respond" || a.name == "fatal"
			a.do(r)
			if answer && st < 2 {
				mc.Check(!p.done() && !r.Performed(), "a request that nobody took (state %d) was answered", st)
				if st == 0 {
					r.SetPending()
				}
				mc.Check(r.SetInFly(nil), "a dropped answer spoiled the request")
				a.do(r)
			}
			p.once(3, msgA)
			oneOf(p, []actor{a})
			for _, b := range actors[:5] {
				b.do(r)
			}
			p.once(3, msgA)
		},
	})
	add(mc.Scenario{
		Name:  "C01.sf-service",
		Doc:   "a function service and a canceller race on a request; the function runs at most once and the caller gets one completion",
		Quick: mc.Bound{D: 5},
		Deep:  mc.Bound{D: 8},
		Run: func() {
			begin()
			fail := actors[1+mc.ChooseFree(3)]
			async := mc.ChooseFree(2) == 1
			route := mc.ChooseFree(2) == 1
			var ran counter
			var s iproto.Service = iproto.SF(func(r *iproto.Request) {
				mc.Check(ran.inc() == 1, "the service function ran twice for one request")
				if async {
					go r.Respond(iproto.RcOK, iproto.Body("good"))
				} else {
					r.Respond(iproto.RcOK, iproto.Body("good"))
				}
			})
			if route {
				inner := s
				s = iproto.Route(func(r *iproto.Request) { inner.Send(r) })
			}
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 1, Msg: msgA, Responder: p}
			parallel(func() { s.Send(r) }, func() { fail.do(r) }, func() {
				if mc.Choose(2) == 1 {
					r.ShutDown()
				}
			})
			mc.Idle(0)
			p.once(1, msgA)
			oneOf(p, []actor{actors[0], fail, {"", nil, iproto.RcShutdown, ""}})
			if ran.get() == 0 {
				mc.Check(internal(p.code), "completed successfully without running the service")
			}
		},
	})
	add(mc.Scenario{
		Name:  "C01.call-helpers",
		Doc:   "Call/Send/CallMsgBody/SendMsgBody deliver exactly the service's answer, once, whatever the service's timing",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			begin()
			how := mc.ChooseFree(3)
			s := iproto.SF(func(r *iproto.Request) {
				f := func() {
					r.Respond(iproto.RcOK, iproto.Body("re:"+string(r.Body)))
				}
				switch how {
				case 0:
					f()
				case 1:
					go f()
				case 2:
					go f()
					go r.Cancel()
				}
			})
			check := func(res *iproto.Response, want string) {
				mc.Check(res != nil, "nil response")
				ok := res.Code == iproto.RcOK && string(res.Body) == "re:"+want
				if how == 2 && res.Code == iproto.RcCanceled && len(res.Body) == 0 {
					ok = true
				}
				mc.Check(ok && res.Msg == msgA, "call returned code=%#x body=%q msg=%#x", uint32(res.Code), string(res.Body), uint32(res.Msg))
			}
			check(iproto.CallMsgBody(s, msgA, iproto.Body("x")), "x")
			_, ch := iproto.SendMsgBody(s, msgA, iproto.Body("y"))
			r2, ch2 := iproto.Send(s, dataMsg{1})
			check(<-ch, "y")
			res := <-ch2
			check(res, "\x01\x00\x00\x00")
			mc.Check(res.Id == r2.Id, "response id differs from the request's")
			check(iproto.Call(s, dataMsg{2}), "\x02\x00\x00\x00")
			cx := &iproto.Context{}
			r3, ch3 := cx.SendMsgBody(s, msgA, iproto.Body("z"))
			r4, ch4 := cx.Send(s, dataMsg{3})
			mc.Check(r3.Id != r4.Id, "two requests of a context have the same id")
			res = <-ch4
			check(res, "\x03\x00\x00\x00")
			mc.Check(res.Id == r4.Id, "response id differs from the request's")
			res = <-ch3
			check(res, "z")
			mc.Check(res.Id == r3.Id, "response id differs from the request's")
			// a response object that the requester provides is filled in completely
			own := &iproto.Response{Id: 9, Msg: 9, Code: 9, Body: iproto.Body("old")}
			p5 := make(iproto.Chan, 1)
			s.Send(&iproto.Request{Id: 77, Msg: msgA, Body: iproto.Body("w"), Response: own, Responder: p5})
			res = <-p5
			check(res, "w")
			mc.Check(res.Id == 77, "response id differs from the request's")
			mc.Idle(0)
			select {
			case <-ch:
				mc.Fail("a second response was delivered")
			case <-ch2:
				mc.Fail("a second response was delivered")
			default:
			}
		},
	})
}

type dataMsg struct{ V uint32 }

func (dataMsg) IMsg() iproto.RequestType { return msgA }
