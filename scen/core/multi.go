package main

import (
	"fmt"
	"sort"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

// collect takes the responses of a multi-request in one of the two ways and
// checks that there is exactly one per request.
func collect(m *iproto.MultiRequest, each bool, n int, codes ...iproto.RetCode) []*iproto.Response {
	var l []*iproto.Response
	if each {
		for r := range m.Each() {
			l = append(l, r)
		}
	} else {
		l = m.Results()
	}
	mc.Check(len(l) == n, "%d responses for %d requests", len(l), n)
	var ids []int
	for _, r := range l {
		mc.Check(r != nil, "a nil response among the results")
		ids = append(ids, int(r.Id))
		ok := false
		for _, c := range codes {
			if r.Code == c && (c != iproto.RcOK || string(r.Body) == fmt.Sprintf("re:%d", r.Id)) && (c == iproto.RcOK || len(r.Body) == 0) {
				ok = true
			}
		}
		mc.Check(ok, "response %d has code %#x body %q", r.Id, uint32(r.Code), string(r.Body))
	}
	sort.Ints(ids)
	for i, id := range ids {
		mc.Check(id == i, "responses are for requests %v", ids)
	}
	return l
}

// mpool collects requests of a multi-request and answers them with their number.
type mpool struct {
	o    mc.Obj
	reqs []*iproto.Request
}

func (p *mpool) service() iproto.Service {
	return iproto.SF(func(r *iproto.Request) {
		p.o.TouchRel()
		p.reqs = append(p.reqs, r)
	})
}

func answer(r *iproto.Request) {
	r.Respond(iproto.RcOK, iproto.Body(fmt.Sprintf("re:%d", r.Id)))
}

func (p *mpool) take() []*iproto.Request {
	p.o.TouchAcq()
	l := p.reqs
	p.reqs = nil
	return l
}

func init() {
	add(mc.Scenario{
		Name:  "C07.collect",
		Doc:   "n requests answered by parallel threads in every order, before, during and after Results or Each: exactly one response per request, each the right one",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			begin()
			each := mc.ChooseFree(2) == 1
			n := 1 + mc.ChooseFree(3)
			early := mc.ChooseFree(n + 1)
			m := &iproto.MultiRequest{}
			p := &mpool{}
			s := p.service()
			for i := 0; i < n; i++ {
				r := m.SendMsgBody(s, msgA, iproto.Body("q"))
				mc.Check(r.Id == uint32(i), "request %d got id %d", i, r.Id)
			}
			reqs := p.take()
			mc.Check(len(reqs) == n, "%d requests were sent", len(reqs))
			for _, r := range reqs[n-early:] {
				answer(r)
			}
			reqs = reqs[:n-early]
			fs := []func(){func() { collect(m, each, n, iproto.RcOK) }}
			for _, r := range reqs {
				r := r
				fs = append(fs, func() { answer(r) })
			}
			parallel(fs...)
		},
	})
	add(mc.Scenario{
		Name:  "C07.fail",
		Doc:   "a multi-request cancelled or expired by another thread while its requests are sent, answered and collected: exactly one response per request",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 5},
		Run: func() {
			begin()
			each := mc.ChooseFree(2) == 1
			how := mc.ChooseFree(2)
			m := &iproto.MultiRequest{}
			p := &mpool{}
			s := p.service()
			code := iproto.RcCanceled
			parallel(func() {
				for i := 0; i < 2; i++ {
					m.SendMsgBody(s, msgA, iproto.Body("q"))
				}
				collect(m, each, 2, iproto.RcOK, []iproto.RetCode{iproto.RcCanceled, iproto.RcTimeout}[how])
			}, func() {
				if how == 0 {
					m.Cancel()
				} else {
					m.Expire()
				}
			}, func() {
				for _, r := range p.take() {
					answer(r)
				}
			})
			_ = code
		},
	})
	add(mc.Scenario{
		Name:  "C07.fail-answer",
		Doc:   "cancellation of a multi-request races with the last answers and with collecting",
		Quick: mc.Bound{D: 3},
		Deep:  mc.Bound{D: 6},
		Run: func() {
			begin()
			each := mc.ChooseFree(2) == 1
			expire := mc.ChooseFree(2) == 1
			m := &iproto.MultiRequest{}
			p := &mpool{}
			s := p.service()
			for i := 0; i < 2; i++ {
				m.SendMsgBody(s, msgA, iproto.Body("q"))
			}
			reqs := p.take()
			parallel(func() {
				collect(m, each, 2, iproto.RcOK, iproto.RcCanceled, iproto.RcTimeout)
			}, func() {
				m.Cancel()
			}, func() {
				answer(reqs[1])
				if expire {
					m.Expire()
				}
			})
		},
	})
	add(mc.Scenario{
		Name:  "C07.timeout",
		Doc:   "a multi-request with a timeout: unanswered requests complete with a timeout, never early; answers that came stay",
		Quick: mc.Bound{D: 3, MaxEarly: 2},
		Deep:  mc.Bound{D: 4, MaxEarly: 3},
		Run: func() {
			begin()
			each := mc.ChooseFree(2) == 1
			pre := mc.ChooseFree(2) == 1
			m := &iproto.MultiRequest{}
			p := &mpool{}
			s := p.service()
			if pre {
				m.SetTimeout(10 * ms)
			}
			t0 := mc.Now()
			for i := 0; i < 3; i++ {
				m.SendMsgBody(s, msgA, iproto.Body("q"))
			}
			if !pre {
				t0 = mc.Now()
				m.SetTimeout(10 * ms)
			}
			reqs := p.take()
			parallel(func() {
				l := collect(m, each, 3, iproto.RcOK, iproto.RcTimeout)
				for _, r := range l {
					if r.Code == iproto.RcTimeout {
						mc.Check(mc.Now() >= t0+int64(10*ms), "the multi-request timed out early")
					}
				}
			}, func() {
				for i, r := range reqs {
					if i < 2 {
						answer(r)
					}
				}
			})
		},
	})
	add(mc.Scenario{
		Name:  "C07.many",
		Doc:   "more requests than fit into one buffer (growth of the request list) with a canceller and answers in between",
		Quick: mc.Bound{D: 1},
		Deep:  mc.Bound{D: 2},
		Run: func() {
			begin()
			each := mc.ChooseFree(2) == 1
			n := []int{16, 17, 33}[mc.ChooseFree(3)]
			m := &iproto.MultiRequest{}
			p := &mpool{}
			s := p.service()
			parallel(func() {
				for i := 0; i < n; i++ {
					m.SendMsgBody(s, msgA, iproto.Body("q"))
					if i == n-3 {
						for _, r := range p.take() {
							answer(r)
						}
					}
				}
				rest := p.take()
				parallel(func() {
					collect(m, each, n, iproto.RcOK, iproto.RcCanceled)
				}, func() {
					for _, r := range rest {
						answer(r)
					}
				})
			}, func() { m.Cancel() })
		},
	})
	add(mc.Scenario{
		Name:  "C07.empty-sorted",
		Doc:   "a multi-request without requests is complete at once; Sort orders the results by request; a one-request one works",
		Quick: mc.Bound{D: 2},
		Run: func() {
			begin()
			each := mc.ChooseFree(2) == 1
			n := mc.ChooseFree(5)
			m := &iproto.MultiRequest{}
			p := &mpool{}
			s := p.service()
			for i := 0; i < n; i++ {
				m.SendMsgBody(s, msgA, iproto.Body("q"))
			}
			reqs := p.take()
			odd := mc.ChooseFree(2) == 1
			for _, i := range perm(n) {
				if odd && i%2 == 1 {
					reqs[i].Cancel()
				} else {
					answer(reqs[i])
				}
			}
			l := iproto.MultiResponse(collect(m, each, n, iproto.RcOK, iproto.RcCanceled)).Sort()
			for i, r := range l {
				mc.Check(int(r.Id) == i, "sorted results are out of order at %d", i)
				mc.Check((r.Code == iproto.RcCanceled) == (odd && i%2 == 1), "request %d ended with code %#x", i, uint32(r.Code))
			}
		},
	})
}
