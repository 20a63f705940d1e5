package main

import (
	"github.com/funny-falcon/go-iproto"
	"time"
	"verif/mc"
)

type mark0 struct{ iproto.Bookmark }

func (m *mark0) Respond(*iproto.Response) {}

// bm is an interceptor that records its calls.
type bm struct {
	iproto.Bookmark
	name  string
	log   *seq
	n     int
	r     *iproto.Request
	hook  func(b *bm, res *iproto.Response)
	reqOK bool
}

func (b *bm) Respond(res *iproto.Response) {
	b.n++
	b.log.add(b.name)
	mc.Check(b.n == 1, "interceptor %s called %d times", b.name, b.n)
	mc.Check(b.Request == b.r, "interceptor %s is not attached to its request when called", b.name)
	if b.hook != nil {
		b.hook(b, res)
	}
}

// seq is an ordered record.
type seq struct {
	o mc.Obj
	l []string
}

func (s *seq) add(x string) { s.o.Touch(); s.l = append(s.l, x); mc.Note("record %s", x) }
func (s *seq) get() []string {
	s.o.Touch()
	return append([]string(nil), s.l...)
}
func (s *seq) String() string {
	o := ""
	for i, x := range s.get() {
		if i > 0 {
			o += " "
		}
		o += x
	}
	return o
}

func init() {
	add(mc.Scenario{
		Name:  "C02.lifo-once",
		Doc:   "interceptors chained before sending run exactly once each, last chained first, all before the responder; concurrent completers",
		Quick: mc.Bound{D: 4, MaxEarly: 1},
		Deep:  mc.Bound{D: 7, MaxEarly: 1},
		Run: func() {
			begin()
			k := 1 + mc.ChooseFree(3)
			inflyMark := mc.ChooseFree(2) == 1
			a := actors[mc.ChooseFree(len(actors))]
			b := actors[mc.ChooseFree(len(actors)-1)] // a timeout is set by one thread
			log := &seq{}
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 5, Msg: msgA}
			r.Responder = iproto.Callback(func(res *iproto.Response) { log.add("responder"); p.Respond(res) })
			names := []string{"b0", "b1", "b2", "b3"}
			want := ""
			for i := 0; i < k; i++ {
				if i == 1 {
					r.SetPending()
				}
				mc.Check(r.ChainBookmark(&bm{name: names[i], log: log, r: r}), "ChainBookmark refused a request nobody took")
				want = names[i] + " " + want
			}
			mc.Check(k > 1 || !r.SetInFly(&bm{name: "early", log: log, r: r}), "SetInFly accepted a request that was not sent")
			r.SetPending()
			if inflyMark {
				mc.Check(r.SetInFly(&bm{name: "fly", log: log, r: r}), "SetInFly refused")
				want = "fly " + want
			} else {
				mc.Check(r.SetInFly(nil), "SetInFly refused")
			}
			mc.Check(!r.ChainBookmark(&bm{name: "late", log: log, r: r}), "ChainBookmark accepted a request in flight")
			mc.Check(!r.SetInFly(&bm{name: "second", log: log, r: r}), "SetInFly accepted a request in flight")
			parallel(func() { a.do(r) }, func() { b.do(r) })
			mc.Idle(10 * ms)
			p.once(5, msgA)
			mc.Check(log.String() == want+"responder", "interceptors ran as [%s], want [%s]", log.String(), want+"responder")
		},
	})
	add(mc.Scenario{
		Name:  "C02.chain-race",
		Doc:   "chaining an interceptor races with taking and with completing the request: accepted means called exactly once, refused means never called",
		Quick: mc.Bound{D: 6},
		Deep:  mc.Bound{D: 10},
		Run: func() {
			begin()
			fail := actors[1+mc.ChooseFree(2)]
			log := &seq{}
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 5, Msg: msgA}
			r.Responder = p
			r.SetPending()
			m1, m2 := &bm{name: "m1", log: log, r: r}, &bm{name: "m2", log: log, r: r}
			var ok1, ok2 bool
			parallel(
				func() { ok1 = r.ChainBookmark(m1) },
				func() {
					if ok2 = r.SetInFly(m2); ok2 {
						r.Respond(iproto.RcOK, iproto.Body("good"))
					}
				},
				func() { fail.do(r) },
			)
			p.once(5, msgA)
			oneOf(p, []actor{actors[0], fail})
			mc.Check((m1.n == 1) == ok1 && m1.n <= 1, "interceptor accepted=%v but called %d times", ok1, m1.n)
			mc.Check((m2.n == 1) == ok2 && m2.n <= 1, "interceptor accepted=%v but called %d times", ok2, m2.n)
		},
	})
	add(mc.Scenario{
		Name:  "C02.reset-resend",
		Doc:   "an interceptor resets a failed request to pending and has it served again: the caller sees only the final completion, outer interceptors run once",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 8},
		Run: func() {
			begin()
			outer := mc.ChooseFree(2) == 1
			again := mc.ChooseFree(2) == 1
			inner := mc.ChooseFree(2) == 1 // who takes the request attaches an interceptor
			log := &seq{}
			p := &probe{name: "request"}
			back := false // the last response was not accepted by the interceptor
			r := &iproto.Request{Id: 5, Msg: msgA}
			r.Responder = iproto.Callback(func(res *iproto.Response) {
				mc.Check(!back, "the requester got a response after which the request had been put back (code %#x)", uint32(res.Code))
				p.Respond(res)
			})
			if outer {
				r.ChainBookmark(&bm{name: "outer", log: log, r: r})
			}
			tries := 0
			q := make(chan bool, 4)
			rs := &resend{f: func(res *iproto.Response) bool {
				tries++
				if back = internal(res.Code) && tries <= 2; back {
					q <- true
				}
				return back
			}}
			r.ChainBookmark(rs)
			r.SetPending()
			var taken, ran counter
			serve := func(ok bool) {
				var mark iproto.RequestBookmark
				if inner {
					mark = &bm{name: "inner", log: &seq{}, r: r, hook: func(*bm, *iproto.Response) { ran.inc() }}
				}
				if r.SetInFly(mark) {
					taken.inc()
					if ok {
						r.Respond(iproto.RcOK, iproto.Body("good"))
					} else {
						r.IOError()
					}
				}
			}
			parallel(
				func() { serve(!again) },
				func() { r.IOError() },
				func() {
					for i := 0; i < 2; i++ {
						select {
						case <-q:
							serve(true)
						default:
						}
					}
				},
			)
			mc.Idle(0)
			for len(q) > 0 {
				<-q
				serve(true)
			}
			if !p.done() {
				r.Cancel()
				if r.IsPending() {
					r.Cancel()
				}
			}
			if !p.done() {
				r.Cancel()
			}
			p.once(5, msgA)
			if inner {
				mc.Check(ran.get() == taken.get(), "the request was taken %d times, and interceptors attached then ran %d times", taken.get(), ran.get())
			}
			if outer {
				mc.Check(log.String() == "outer", "outer interceptor ran [%s], want once", log.String())
			}
		},
	})
	add(mc.Scenario{
		Name:  "C02.fallback",
		Doc:   "an interceptor makes a failed request new (or pending) again and has another service handle it, while it is cancelled or answered late: the requester gets the outcome of the last attempt, once",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 7},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			racer := mc.ChooseFree(3)
			late := mc.ChooseFree(2) == 1
			log := &seq{}
			p := &probe{name: "request"}
			var ran counter
			r := &iproto.Request{Id: 5, Msg: msgA, Body: iproto.Body("q")}
			backup := iproto.SF(func(r *iproto.Request) {
				mc.Check(ran.inc() == 1, "the request was handled twice by the second service")
				mc.Check(string(r.Body) == "q", "the request was handed over with body %q", string(r.Body))
				r.Respond(iproto.RcOK, iproto.Body("backup"))
			})
			back := false
			r.Responder = iproto.Callback(func(res *iproto.Response) {
				mc.Check(!back, "the requester got a response after which the request had been put back (code %#x)", uint32(res.Code))
				log.add("responder")
				p.Respond(res)
			})
			mc.Check(r.ChainBookmark(&bm{name: "outer", log: log, r: r}), "ChainBookmark refused a new request")
			failed := 0
			fb := &again{f: func(q *iproto.Request, res *iproto.Response) {
				if back = res.Code == iproto.RcIOError && failed == 0; !back {
					return
				}
				failed++
				if how == 0 {
					mc.Check(q.ResetToNew(), "ResetToNew failed for a request being completed")
					go backup.Send(q)
				} else {
					mc.Check(q.ResetToPending(), "ResetToPending failed for a request being completed")
					mc.Check(q.IsPending(), "a request put back to pending is not pending")
					go func() {
						mc.Check(!q.SetPending(), "a request put back to pending was taken for a new one")
						if q.SetInFly(nil) {
							q.Respond(iproto.RcOK, iproto.Body("backup"))
						}
					}()
				}
			}}
			mc.Check(r.ChainBookmark(fb), "ChainBookmark refused a new request")
			first := iproto.SF(func(r *iproto.Request) {
				r.IOError()
				if late {
					r.Respond(iproto.RcFatal, iproto.Body("late"))
				}
			})
			parallel(func() { first.Send(r) }, func() {
				if racer > 0 {
					actors[racer].do(r)
				}
			})
			mc.Idle(0)
			p.once(5, msgA)
			mc.Check(log.String() == "outer responder", "interceptors ran as [%s]", log.String())
			ok := p.code == iproto.RcOK && p.body == "backup" && failed == 1
			ok = ok || racer > 0 && p.code == actors[racer].code && p.body == ""
			// the second service may have taken the request already when the
			// first one answers it once more
			ok = ok || late && p.code == iproto.RcFatal && p.body == "late"
			mc.Check(ok, "completed with code %#x body %q after %d failures", uint32(p.code), p.body, failed)
		},
	})
	add(mc.Scenario{
		Name:  "C02.stat",
		Doc:   "StatWrap reports each request's completion exactly once, with the elapsed time, before the caller is answered",
		Quick: mc.Bound{D: 4, MaxEarly: 1},
		Deep:  mc.Bound{D: 8, MaxEarly: 2},
		Run: func() {
			begin()
			how := mc.ChooseFree(3)
			var n counter
			var el time.Duration
			serv := iproto.SF(func(r *iproto.Request) {
				switch how {
				case 0:
					r.Respond(iproto.RcOK, iproto.Body("good"))
				case 1:
					go func() {
						time.Sleep(3 * ms)
						r.Respond(iproto.RcOK, iproto.Body("good"))
					}()
				case 2:
					r.SetTimeout(4 * ms)
				}
			})
			p := &probe{name: "request"}
			r := &iproto.Request{Id: 2, Msg: msgA, Responder: p}
			start := mc.Now()
			ss := iproto.StatWrap(serv, func(q *iproto.Request, d time.Duration) {
				mc.Check(n.inc() == 1, "statistics reported twice for one request")
				mc.Check(!p.done(), "statistics reported after the caller was answered")
				mc.Check(q == r, "statistics reported for another request")
				el = d
				mc.Check(d >= 0 && int64(d) <= mc.Now()-start, "elapsed time %v is more than has passed", d)
			})
			mc.Check(ss.Runned(), "wrapped service not running")
			parallel(func() { ss.Send(r) }, func() {
				if how == 1 && mc.ChooseFree(2) == 1 {
					r.Cancel()
				}
			})
			mc.Idle(20 * ms)
			p.once(2, msgA)
			mc.Check(n.get() == 1 || p.code == iproto.RcCanceled, "statistics reported %d times", n.get())
			switch {
			case how == 1 && p.code == iproto.RcOK:
				mc.Check(el >= 3*ms, "elapsed %v, the service took 3ms", el)
			case how == 2:
				mc.Check(el >= 4*ms, "elapsed %v, the timeout is 4ms", el)
			}
		},
	})
}

// resend is an interceptor that puts the request back to pending.
type resend struct {
	iproto.Bookmark
	f func(*iproto.Response) bool
}

func (m *resend) Respond(res *iproto.Response) {
	if m.f(res) {
		m.Request.ResetToPending()
	}
}

// again is an interceptor that may put the request back itself.
type again struct {
	iproto.Bookmark
	f func(*iproto.Request, *iproto.Response)
}

func (m *again) Respond(res *iproto.Response) { m.f(m.Request, res) }
