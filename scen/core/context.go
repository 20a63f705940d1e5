package main

import (
	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

// pool is a service that keeps what it is sent; answer() answers the requests.
type pool struct {
	o    mc.Obj
	reqs []*iproto.Request
}

func (s *pool) service() iproto.Service {
	return iproto.SF(func(r *iproto.Request) {
		s.o.TouchRel()
		s.reqs = append(s.reqs, r)
	})
}

func (s *pool) answer() int {
	s.o.TouchAcq()
	l := s.reqs
	s.reqs = nil
	for _, r := range l {
		r.Respond(iproto.RcOK, iproto.Body("good"))
	}
	return len(l)
}

// got takes the one response out of a result channel.
func got(res <-chan *iproto.Response, what string) *iproto.Response {
	mc.Idle(0)
	var r *iproto.Response
	select {
	case r = <-res:
	default:
		mc.Fail("%s was never completed", what)
	}
	select {
	case <-res:
		mc.Fail("%s was completed twice", what)
	default:
	}
	return r
}

func okOrCanceled(r *iproto.Response, what string) {
	mc.Check(r.Code == iproto.RcOK && string(r.Body) == "good" || r.Code == iproto.RcCanceled && len(r.Body) == 0, "%s completed with code %#x body %q", what, uint32(r.Code), string(r.Body))
}

func kill(cx *iproto.Context, how int) {
	if how == 0 {
		cx.Cancel()
	} else {
		cx.Expire()
	}
}

func dead(cx *iproto.Context, how int) {
	mc.Check(!cx.Alive(), "a context is alive after it has been cancelled")
	mc.Check(cx.Timeout() == (how == 1), "Timeout() is %v after %s", cx.Timeout(), []string{"Cancel", "Expire"}[how])
}

func init() {
	requests := func(name string, n int, d int) {
		add(mc.Scenario{
			Name:  name,
			Doc:   "the owner of a context creates requests while another thread cancels or expires the context and a third answers: every request is completed exactly once",
			Quick: mc.Bound{D: d},
			Deep:  mc.Bound{D: d + 2},
			Run: func() {
				begin()
				how := mc.ChooseFree(2)
				cx := &iproto.Context{}
				p := &pool{}
				s := p.service()
				var res []<-chan *iproto.Response
				parallel(func() {
					for i := 0; i < n; i++ {
						_, ch := cx.SendMsgBody(s, msgA, iproto.Body("q"))
						res = append(res, ch)
					}
				}, func() {
					kill(cx, how)
				}, func() {
					if mc.Choose(2) == 1 {
						p.answer()
					}
				})
				dead(cx, how)
				for _, ch := range res {
					okOrCanceled(got(ch, "a request of a cancelled context"), "request")
				}
				n := p.answer()
				_ = n
				for _, ch := range res {
					select {
					case <-ch:
						mc.Fail("a request of a cancelled context was completed twice")
					default:
					}
				}
			},
		})
	}
	requests("C05.requests-1", 1, 5)
	requests("C05.requests-2", 2, 4)
	requests("C05.requests-4", 4, 3)
	add(mc.Scenario{
		Name:  "C05.all-pending",
		Doc:   "cancelling a context with 0..5 requests outstanding (two are kept inline, the rest in a map) completes them all, before Cancel returns",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			n := mc.ChooseFree(6)
			first := mc.ChooseFree(n + 1)
			cx := &iproto.Context{}
			p := &pool{}
			s := p.service()
			var res []<-chan *iproto.Response
			var reqs []*iproto.Request
			for i := 0; i < n; i++ {
				if i == first {
					// some are gone before the others come
					p.answer()
				}
				r, ch := cx.SendMsgBody(s, msgA, iproto.Body("q"))
				res = append(res, ch)
				reqs = append(reqs, r)
			}
			kill(cx, how)
			dead(cx, how)
			for i := range res {
				select {
				case r := <-res[i]:
					want := iproto.RcCanceled
					if i < first && first < n {
						want = iproto.RcOK
					}
					mc.Check(r.Code == want, "request %d of %d completed with code %#x, want %#x", i, n, uint32(r.Code), uint32(want))
				default:
					mc.Fail("request %d of %d was not completed by cancelling its context", i, n)
				}
			}
			// the context is dead for good
			ran := false
			_, ch := cx.SendMsgBody(iproto.SF(func(*iproto.Request) { ran = true }), msgA, iproto.Body("late"))
			mc.Check(got(ch, "a request created in a dead context").Code == iproto.RcCanceled, "a request created in a dead context was not cancelled")
			mc.Check(!ran, "a request created in a dead context was served")
			child, _ := cx.Child()
			mc.Check(!child.Alive(), "a child created in a dead context is alive")
			m := cx.NewMulti()
			m.SendMsgBody(s, msgA, iproto.Body("late"))
			rs := m.Results()
			mc.Check(len(rs) == 1 && rs[0].Code == iproto.RcCanceled, "a multi-request created in a dead context was not cancelled")
		},
	})
	add(mc.Scenario{
		Name:  "C05.tree",
		Doc:   "cancelling the root reaches requests of its children and grandchildren that run in their own threads",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			deep := mc.ChooseFree(2) == 1
			root := &iproto.Context{}
			p := &pool{}
			s := p.service()
			call := func(cx *iproto.Context) {
				r := cx.CallMsgBody(s, msgA, iproto.Body("q"))
				mc.Check(r.Code == iproto.RcCanceled, "a call under a cancelled root ended with code %#x", uint32(r.Code))
				mc.Check(!cx.Alive(), "a context under a cancelled root is alive")
			}
			task := func(cx *iproto.Context) func() {
				child, _ := cx.Child()
				return func() {
					if deep {
						g, _ := child.Child()
						call(g)
						g.Done()
					} else {
						call(child)
					}
					child.Done()
				}
			}
			parallel(task(root), task(root), func() { kill(root, how) }, func() { call(root) })
			dead(root, how)
		},
	})
	add(mc.Scenario{
		Name:  "C05.child-late",
		Doc:   "children and multi-requests created while the parent is being cancelled are cancelled too",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 8},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			kind := mc.ChooseFree(3)
			root := &iproto.Context{}
			p := &pool{}
			s := p.service()
			parallel(func() {
				switch kind {
				case 0:
					c, _ := root.Child()
					r := c.CallMsgBody(s, msgA, iproto.Body("q"))
					mc.Check(r.Code == iproto.RcCanceled, "code %#x", uint32(r.Code))
					c.Done()
				case 1:
					m := root.NewMulti()
					m.SendMsgBody(s, msgA, iproto.Body("q"))
					m.SendMsgBody(s, msgA, iproto.Body("q"))
					rs := m.Results()
					mc.Check(len(rs) == 2 && rs[0].Code == iproto.RcCanceled && rs[1].Code == iproto.RcCanceled, "multi-request of a cancelled context: %v", rs)
				case 2:
					m := root.NewMulti()
					m.SendMsgBody(s, msgA, iproto.Body("q"))
					m.SendMsgBody(s, msgA, iproto.Body("q"))
					n := 0
					for r := range m.Each() {
						mc.Check(r.Code == iproto.RcCanceled, "multi-request of a cancelled context: code %#x", uint32(r.Code))
						n++
					}
					mc.Check(n == 2, "Each delivered %d responses of 2", n)
				}
			}, func() { kill(root, how) })
			dead(root, how)
		},
	})
	add(mc.Scenario{
		Name:  "C05.double",
		Doc:   "Cancel, Expire and Cancel of the parent race with each other and with an answer; the state is set once",
		Quick: mc.Bound{D: 4},
		Deep:  mc.Bound{D: 7},
		Run: func() {
			begin()
			root := &iproto.Context{}
			c, _ := root.Child()
			p := &pool{}
			_, res := c.SendMsgBody(p.service(), msgA, iproto.Body("q"))
			var first, first2 iproto.CxState
			parallel(func() {
				c.Cancel()
				mc.Check(!c.Alive(), "alive after Cancel")
				first2 = c.State
			}, func() {
				c.Expire()
				mc.Check(!c.Alive(), "alive after Expire")
				first = c.State
			}, func() {
				p.answer()
			}, func() {
				mc.Idle(0)
			})
			mc.Check(c.State == first, "the state of a dead context changed from %d to %d", first, c.State)
			mc.Check(c.State == first2, "the state of a dead context changed from %d to %d", first2, c.State)
			okOrCanceled(got(res, "request"), "request")
			c.Done()
			root.Cancel()
			mc.Check(!root.Alive(), "alive after Cancel")
		},
	})
	add(mc.Scenario{
		Name:  "C05.handler",
		Doc:   "cancelling a request that a service is working on cancels the handler's context and what it waits for; the caller gets one answer",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			p := &pool{}
			inner := p.service()
			pr := &probe{name: "request"}
			r := &iproto.Request{Id: 4, Msg: msgA, Responder: pr}
			how := mc.ChooseFree(2)
			var sub iproto.RetCode
			var handled bool
			s := iproto.SF(func(r *iproto.Request) {})
			_ = s
			r.SetPending()
			cx := r.Context()
			mc.Check(cx != nil, "no context for a pending request")
			parallel(func() {
				res := cx.Context.CallMsgBody(inner, msgA, iproto.Body("sub"))
				sub = res.Code
				handled = true
				r.Respond(iproto.RcOK, iproto.Body("good"))
				cx.Done()
			}, func() {
				if how == 0 {
					r.Cancel()
				} else {
					r.Expire()
				}
				mc.Check(!cx.Context.Alive(), "the handler's context is alive though its request was cancelled")
			})
			mc.Idle(0)
			mc.Check(handled && sub == iproto.RcCanceled, "the handler's own request ended with %#x", uint32(sub))
			pr.once(4, msgA)
			if how == 0 {
				mc.Check(pr.code == iproto.RcCanceled, "code %#x", uint32(pr.code))
			} else {
				// an expired request is still answered by its handler
				mc.Check(pr.code == iproto.RcOK && pr.body == "good" && cx.Context.Timeout(), "code %#x", uint32(pr.code))
			}
		},
	})

	add(mc.Scenario{
		Name:  "C05.many",
		Doc:   "a context with 40 requests, some answered, is cancelled or expires: each request is completed once, with its own answer or the cancelled code",
		Quick: mc.Bound{D: 1, MaxSteps: 20000},
		Deep:  mc.Bound{D: 2, MaxSteps: 20000},
		Run: func() {
			how := mc.ChooseFree(2)
			part := mc.ChooseFree(3)
			const n = 40
			cx := &iproto.Context{}
			var got []*iproto.Request
			s := iproto.SF(func(r *iproto.Request) { got = append(got, r) })
			var res []<-chan *iproto.Response
			for i := 0; i < n; i++ {
				_, ch := cx.SendMsgBody(s, msgA, uint32(1000+i))
				res = append(res, ch)
			}
			want := func(i int) string { return string([]byte{byte(1000 + i), byte((1000 + i) >> 8), 0, 0}) }
			ids := map[uint32]bool{}
			for i, r := range got {
				mc.Check(string(r.Body) == want(i), "request %d was sent with body %q", i, string(r.Body))
				mc.Check(!ids[r.Id], "two requests of a context have id %d", r.Id)
				ids[r.Id] = true
			}
			answer := func(i int) { got[i].Respond(iproto.RcOK, got[i].Body) }
			for i := 0; i < n && part < 2; i++ {
				if i%3 == part {
					answer(i)
				}
			}
			begin()
			parallel(func() { kill(cx, how) }, func() {
				answer(19)
				answer(39)
			})
			mc.End()
			dead(cx, how)
			for i, ch := range res {
				select {
				case r := <-ch:
					ok := r.Code == iproto.RcCanceled && len(r.Body) == 0
					if part < 2 && i%3 == part {
						ok = r.Code == iproto.RcOK && string(r.Body) == want(i)
					} else if i%20 == 19 {
						ok = ok || r.Code == iproto.RcOK && string(r.Body) == want(i)
					}
					mc.Check(ok && r.Msg == msgA, "request %d of %d completed with code %#x body %q", i, n, uint32(r.Code), string(r.Body))
				default:
					mc.Fail("request %d of %d was not completed by cancelling its context", i, n)
				}
			}
			cx.WaitAll()
		},
	})
	add(mc.Scenario{
		Name:  "C05.slow-children",
		Doc:   "a context whose children go on after they have been cancelled is cancelled: its own requests and multi-requests are completed without waiting for them",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			nk := mc.ChooseFree(4)
			root := &iproto.Context{}
			p := &pool{}
			s := p.service()
			var kids []*iproto.Context
			var res []<-chan *iproto.Response
			for i := 0; i < nk; i++ {
				c, _ := root.Child()
				kids = append(kids, c)
				_, ch := c.SendMsgBody(s, msgA, iproto.Body("q"))
				res = append(res, ch)
			}
			for i := 0; i < 2; i++ {
				_, ch := root.SendMsgBody(s, msgA, iproto.Body("q"))
				res = append(res, ch)
			}
			m := root.NewMulti()
			m.SendMsgBody(s, msgA, iproto.Body("q"))
			parallel(func() { kill(root, how) }, func() {
				for _, ch := range res {
					r := <-ch
					mc.Check(r.Code == iproto.RcCanceled, "a request of a cancelled context ended with code %#x", uint32(r.Code))
				}
				l := m.Results()
				mc.Check(len(l) == 1 && l[0].Code == iproto.RcCanceled, "a multi-request of a cancelled context ended with %v", l)
				for _, c := range kids {
					mc.Check(!c.Alive(), "a child of a cancelled context is alive")
					c.Done()
				}
			})
			dead(root, how)
			root.WaitAll()
		},
	})
	add(mc.Scenario{
		Name:  "C05.multi-late",
		Doc:   "requests are added to a multi-request while its context is cancelled: each of them is completed without being collected, those added afterwards are not served",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			root := &iproto.Context{}
			m := root.NewMulti()
			var reqs []*iproto.Request
			var dead counter
			s := iproto.SF(func(r *iproto.Request) {
				mc.Check(dead.get() == 0, "a request created after the context had been cancelled was served")
			})
			parallel(func() {
				for i := 0; i < 2; i++ {
					reqs = append(reqs, m.SendMsgBody(s, msgA, iproto.Body("q")))
				}
			}, func() {
				go kill(root, how)
			})
			for root.Alive() {
				mc.Sleep(ms)
			}
			mc.Sleep(ms)
			dead.inc()
			reqs = append(reqs, m.SendMsgBody(s, msgA, iproto.Body("late")))
			for i, r := range reqs {
				mc.Check(r.Performed(), "request %d of a multi-request was not completed by cancelling its context", i)
			}
			l := m.Results()
			mc.Check(len(l) == 3, "%d responses, want 3", len(l))
			for _, r := range l {
				mc.Check(r.Code == iproto.RcCanceled, "code %#x", uint32(r.Code))
			}
			root.WaitAll()
		},
	})
	add(mc.Scenario{
		Name:  "C06.dead",
		Doc:   "functions are started in a context that was cancelled or has expired: none is run, and WaitAll returns",
		Quick: mc.Bound{D: 2},
		Deep:  mc.Bound{D: 4},
		Run: func() {
			begin()
			how := mc.ChooseFree(2)
			cx := &iproto.Context{}
			if mc.ChooseFree(2) == 1 {
				parent := cx
				cx, _ = parent.Child()
				go kill(parent, how)
				for cx.Alive() {
					mc.Sleep(ms)
				}
			} else {
				kill(cx, how)
			}
			f := func(*iproto.Context) { mc.Fail("a function was started in a dead context") }
			g := func(*iproto.Context, interface{}) { mc.Fail("a function was started in a dead context") }
			var kid *iproto.Context
			switch mc.ChooseFree(5) {
			case 0:
				kid = cx.Go(f)
			case 1:
				kid = cx.GoInt(g, 1)
			case 2:
				kid = cx.GoAsync(f)
			case 3:
				kid = cx.GoIntAsync(g, 1)
			case 4:
				kid, _ = cx.Child()
				kid.Go(f)
			}
			mc.Check(kid == nil || !kid.Alive(), "a live child of a dead context")
			cx.WaitAll()
			cx.Done()
			mc.Idle(5 * ms)
		},
	})
	add(mc.Scenario{
		Name:  "C06.go-variants",
		Doc:   "Go, GoInt, GoAsync, GoIntAsync run the function exactly once with a child of the context; WaitAll returns only when all of it is done",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			kinds := []int{mc.ChooseFree(4), mc.ChooseFree(5)}
			var done, started counter
			n := 0
			kids := map[*iproto.Context]bool{}
			body := func(c *iproto.Context, async bool) {
				started.inc()
				mc.Check(c != cx && c.Alive(), "the function got a wrong context")
				if mc.Choose(2) == 1 {
					mc.Sleep(2 * ms)
				}
				done.inc()
				if async {
					c.Done()
				}
			}
			for _, k := range kinds {
				var c *iproto.Context
				switch k {
				case 0:
					c = cx.Go(func(c *iproto.Context) { body(c, false) })
				case 1:
					c = cx.GoInt(func(c *iproto.Context, i interface{}) {
						mc.Check(i == 42, "the function got argument %v", i)
						body(c, false)
					}, 42)
				case 2:
					c = cx.GoAsync(func(c *iproto.Context) { body(c, true) })
				case 3:
					c = cx.GoIntAsync(func(c *iproto.Context, i interface{}) {
						mc.Check(i == "x", "the function got argument %v", i)
						body(c, true)
					}, "x")
				default:
					continue
				}
				mc.Check(c != nil && !kids[c], "no child context of its own")
				kids[c] = true
				n++
			}
			cx.WaitAll()
			mc.Check(done.get() == n, "WaitAll returned when %d of %d functions were done (%d started)", done.get(), n, started.get())
			mc.Idle(0)
			mc.Check(started.get() == n, "%d functions ran, want %d", started.get(), n)
			mc.Check(cx.Alive(), "the context died")
		},
	})
	add(mc.Scenario{
		Name:  "C06.waitall-mixed",
		Doc:   "WaitAll waits for requests, children and multi-requests of the context, in any order of completion, and then returns",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			p := &pool{}
			s := p.service()
			n := mc.ChooseFree(4)
			withGo := mc.ChooseFree(2) == 1
			var res []<-chan *iproto.Response
			var reqs []*iproto.Request
			for i := 0; i < n; i++ {
				r, ch := cx.SendMsgBody(s, msgA, iproto.Body("q"))
				res = append(res, ch)
				reqs = append(reqs, r)
			}
			var done counter
			if withGo {
				cx.Go(func(c *iproto.Context) { done.inc() })
			}
			parallel(func() {
				cx.WaitAll()
				for i, r := range reqs {
					mc.Check(r.Performed(), "WaitAll returned while request %d was outstanding", i)
				}
				for _, ch := range res {
					okOrCanceled(<-ch, "request")
				}
				mc.Check(!withGo || done.get() == 1, "WaitAll returned while a function was running")
			}, func() {
				p.answer()
			}, func() {
				if n > 1 && mc.Choose(2) == 1 {
					cx.Cancel()
				}
			})
		},
	})
	add(mc.Scenario{
		Name:  "C06.waiters",
		Doc:   "several threads wait for the work of one context (functions, a request) at once: each of them returns, none too early",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			p := &pool{}
			var done counter
			cx.Go(func(c *iproto.Context) { done.inc() })
			var r *iproto.Request
			if mc.ChooseFree(2) == 1 {
				r, _ = cx.SendMsgBody(p.service(), msgA, iproto.Body("q"))
			}
			wait := func() {
				cx.WaitAll()
				mc.Check(done.get() == 1, "WaitAll returned while a function was running")
				mc.Check(r == nil || r.Performed(), "WaitAll returned while a request was outstanding")
			}
			parallel(wait, wait, func() {
				p.answer()
			})
		},
	})
	add(mc.Scenario{
		Name:  "C06.go-cancel",
		Doc:   "functions are started while the context is being cancelled: each runs at most once, in a context that dies; WaitAll returns",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			p := &pool{}
			s := p.service()
			nested := mc.ChooseFree(2) == 1
			var ran counter
			call := func(c *iproto.Context) {
				mc.Check(ran.inc() <= 2, "a function ran twice")
				r := c.CallMsgBody(s, msgA, iproto.Body("q"))
				mc.Check(r.Code == iproto.RcCanceled, "code %#x", uint32(r.Code))
			}
			parallel(func() {
				if nested {
					cx.Go(func(c *iproto.Context) {
						c.Go(call)
						c.WaitAll()
					})
				} else {
					cx.Go(call)
					cx.Go(call)
				}
				cx.WaitAll()
				mc.Check(!nested || ran.get() <= 1, "a function ran twice")
			}, func() {
				cx.Cancel()
			})
			mc.Check(!cx.Alive(), "alive after Cancel")
			n := ran.get()
			mc.Idle(0)
			mc.Check(n == ran.get(), "a function was started after WaitAll and Cancel had returned")
			c2 := cx.Go(func(*iproto.Context) { mc.Fail("a function was started in a dead context") })
			mc.Check(c2 == nil || !c2.Alive(), "a live child of a dead context")
			mc.Idle(0)
		},
	})
	add(mc.Scenario{
		Name:  "C06.waitall-multi",
		Doc:   "a multi-request of the context that has been collected (either way, whenever its responses came) no longer holds up WaitAll or Cancel",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			cx := &iproto.Context{}
			p := &pool{}
			s := p.service()
			each := mc.ChooseFree(2) == 1
			early := mc.ChooseFree(2) == 1
			fin := mc.ChooseFree(2)
			m := cx.NewMulti()
			want := 2 * mc.ChooseFree(2)
			if want > 0 {
				m.SendMsgBody(s, msgA, iproto.Body("1"))
				m.SendMsgBody(s, msgA, iproto.Body("2"))
			}
			if early {
				p.answer()
			}
			parallel(func() {
				n := 0
				if each {
					for r := range m.Each() {
						okOrCanceled(r, "response")
						n++
					}
				} else {
					for _, r := range m.Results() {
						okOrCanceled(r, "response")
						n++
					}
				}
				mc.Check(n == want, "%d responses, want %d", n, want)
				if fin == 0 {
					cx.WaitAll()
				} else {
					cx.Cancel()
				}
			}, func() {
				if !early {
					p.answer()
				}
			})
		},
	})
}
