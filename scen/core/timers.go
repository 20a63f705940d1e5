package main

import (
	"time"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

// exp is an Expirator that checks when and how often it is expired.
type exp struct {
	t       iproto.Timer
	o       mc.Obj
	id      int
	n       int
	armed   bool
	stopped bool // Stop returned before the deadline
	dl      int64
	late    int64 // the latest instant the deadline can be at
	at      int64
	then    func() // what its expiration does
}

func (x *exp) Timer() *iproto.Timer { return &x.t }

func (x *exp) Expire() {
	x.o.Touch()
	x.n++
	x.at = mc.Now()
	mc.Note("timer %d expired", x.id)
	mc.Check(x.armed, "timer %d expired though it was not armed", x.id)
	mc.Check(x.n == 1, "timer %d expired %d times", x.id, x.n)
	mc.Check(x.at >= x.dl, "timer %d expired %v too early", x.id, time.Duration(x.dl-x.at))
	mc.Check(!x.stopped, "timer %d expired after it had been stopped in time", x.id)
	if x.then != nil {
		x.then()
	}
}

func (x *exp) arm(d time.Duration) {
	x.o.Touch()
	x.armed, x.stopped, x.n = true, false, 0
	x.dl = mc.Now() + int64(d)
	x.t.After(d, x)
	x.late = mc.Now() + int64(d)
}

func (x *exp) stop() {
	x.t.Stop()
	x.o.Touch()
	if mc.Now() < x.dl {
		x.stopped = true
	}
}

// sameHeap returns n timers that share one of the library's timer queues.
func sameHeap(n int) []*exp {
	var l []*exp
	for i := 0; i < 2*n; i++ {
		x := &exp{armed: true}
		x.t.After(time.Hour, x)
		x.t.Stop()
		x.armed = false
		if i%2 == 0 {
			x.id = len(l)
			l = append(l, x)
		}
	}
	return l
}

// settle lets every armed timer run out and checks each of them.
func settle(l []*exp, slack time.Duration) {
	var last int64
	for _, x := range l {
		x.o.Touch()
		if x.armed && !x.stopped && x.late > last {
			last = x.late
		}
	}
	if d := last + int64(slack) - mc.Now(); d > 0 {
		mc.Idle(time.Duration(d))
	} else {
		mc.Idle(slack)
	}
	for _, x := range l {
		x.o.Touch()
		if x.armed && !x.stopped {
			mc.Check(x.n == 1, "timer %d expired %d times, want 1 (deadline passed %v ago)", x.id, x.n, time.Duration(mc.Now()-x.late))
		}
		if x.stopped {
			mc.Check(x.n == 0, "timer %d expired though it was stopped in time", x.id)
		}
	}
	mc.Idle(30 * time.Second)
	for _, x := range l {
		mc.Check(x.n <= 1, "timer %d expired again", x.id)
	}
}

// perm chooses a permutation of 0..n-1.
func perm(n int) []int {
	var rest, p []int
	for i := 0; i < n; i++ {
		rest = append(rest, i)
	}
	for len(rest) > 0 {
		k := 0
		if len(rest) > 1 {
			k = mc.ChooseFree(len(rest))
		}
		p = append(p, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return p
}

func init() {
	orders := func(name string, n, stops int, doc string) {
		add(mc.Scenario{
			Name: name, Doc: doc,
			Quick: mc.Bound{D: 0, MaxSteps: 100000},
			Run: func() {
				l := sameHeap(n)
				begin()
				p := perm(n)
				var st []int
				from := 0
				for k := 0; k < stops && from < n; k++ {
					s := mc.ChooseFree(n + 1 - from)
					if s == n-from {
						break
					}
					st = append(st, from+s)
					from += s + 1
				}
				for i, x := range l {
					x.arm(time.Duration(10+p[i]*10) * ms)
				}
				for _, i := range st {
					l[i].stop()
				}
				settle(l, ms)
			},
		})
	}
	orders("C03.orders-6", 6, 2, "6 timers of one queue armed in every order of deadlines, any 0..2 of them stopped: each other one expires exactly once, on time")
	orders("C03.orders-7", 7, 1, "7 timers of one queue armed in every order of deadlines, any one of them or none stopped")
	add(mc.Scenario{
		Name:  "C03.ties",
		Doc:   "5 timers of one queue with any deadlines out of three (ties included), at most one stopped",
		Quick: mc.Bound{D: 0, MaxSteps: 100000},
		Run: func() {
			l := sameHeap(5)
			begin()
			for _, x := range l {
				x.arm(time.Duration(10+10*mc.ChooseFree(3)) * ms)
			}
			if k := mc.ChooseFree(6); k < 5 {
				l[k].stop()
			}
			settle(l, ms)
		},
	})
	histories := func(name string, n int) {
		add(mc.Scenario{
			Name: name, Doc: "every history of arming, stopping, re-arming and letting time pass over timers of one queue",
			Quick: mc.Bound{D: 0, MaxSteps: 100000},
			Run: func() {
				l := sameHeap(4)
				begin()
				for step := 0; step < n; step++ {
					k := mc.ChooseFree(13)
					if k == 12 {
						mc.Idle(20 * ms)
						continue
					}
					x := l[k/3]
					x.o.Touch()
					live := x.armed && !x.stopped && x.n == 0
					if k%3 == 2 {
						if !live {
							return
						}
						x.stop()
						continue
					}
					if live {
						return // only idle timers may be armed
					}
					if k/3 > 0 && !l[k/3-1].armed {
						return // symmetric
					}
					x.arm(time.Duration(10+25*(k%3)) * ms)
				}
				settle(l, ms)
			},
		})
	}
	histories("C03.histories", 5)
	add(mc.Scenario{
		Name:  "C03.spread",
		Doc:   "two groups of timers: 4 armed in any order, some expire, then 3 more re-use their places in any order",
		Quick: mc.Bound{D: 0, MaxSteps: 100000},
		Run: func() {
			l := sameHeap(7)
			begin()
			p := perm(4)
			for i := range p {
				l[i].arm(time.Duration(10+p[i]*10) * ms)
			}
			gone := mc.ChooseFree(4)
			mc.Idle(time.Duration(gone)*10*ms + 5*ms)
			q := perm(3)
			for i := range q {
				l[4+i].arm(time.Duration(2+q[i]*10) * ms)
			}
			if k := mc.ChooseFree(8); k < 7 && l[k].n == 0 {
				l[k].stop()
			}
			settle(l, ms)
		},
	})
	add(mc.Scenario{
		Name:  "C03.arm-race",
		Doc:   "two threads arm timers (one queue or two) while the expiring thread is going to sleep or expiring another: nothing is lost",
		Quick: mc.Bound{D: 4, MaxEarly: 2},
		Deep:  mc.Bound{D: 5, MaxEarly: 3},
		Run: func() {
			l := sameHeap(3)
			other := &exp{id: 9}
			a := mc.ChooseFree(2)
			begin()
			l[0].arm(5 * ms)
			var fs []func()
			if a == 0 {
				fs = []func(){func() { l[1].arm(1 * ms) }, func() { l[2].arm(9 * ms) }}
			} else {
				fs = []func(){func() { l[1].arm(9 * ms) }, func() { other.arm(3 * ms) }}
				l = append(l, other)
			}
			parallel(fs...)
			settle(l, time.Second)
		},
	})
	add(mc.Scenario{
		Name:  "C03.stop-race",
		Doc:   "timers stopped by other threads while they or their neighbours expire: at most one expiry each, none lost, none after a stop in time",
		Quick: mc.Bound{D: 3, MaxEarly: 2},
		Deep:  mc.Bound{D: 5, MaxEarly: 3},
		Run: func() {
			l := sameHeap(3)
			begin()
			p := perm(3)
			for i, x := range l {
				x.arm(time.Duration(2+3*p[i]) * ms)
			}
			racing := func(x *exp) func() {
				return func() {
					x.stop()
				}
			}
			parallel(racing(l[0]), func() {
				if mc.Choose(2) == 1 {
					mc.Sleep(4 * ms)
				}
				l[1].stop()
			})
			mc.Idle(20 * ms)
			for i, x := range l {
				x.o.Touch()
				if x.stopped || i < 2 {
					continue
				}
				mc.Check(x.n == 1, "timer %d expired %d times, want 1", i, x.n)
			}
			// a stopped or expired timer can be used again
			for _, x := range l {
				x.o.Touch()
				x.armed, x.stopped = false, false
			}
			mc.End()
			for i, x := range l {
				x.arm(time.Duration(1+i) * ms)
			}
			settle(l, ms)
		},
	})
}

func init() {
	add(mc.Scenario{
		Name:  "C03.growth",
		Doc:   "9998 timers of a process have been armed already; then two threads arm timers at once: each expires exactly once, on time",
		Quick: mc.Bound{D: 1, MaxSteps: 1000000},
		Deep:  mc.Bound{D: 2, MaxSteps: 1000000},
		Run: func() {
			for i := 0; i < 9998; i++ {
				k := &exp{armed: true}
				k.t.After(time.Hour, k)
			}
			m := []*exp{{id: 10}, {id: 11}}
			begin()
			parallel(func() { m[0].arm(5 * ms) }, func() { m[1].arm(3 * ms) })
			mc.End()
			settle(m, time.Second)
		},
	})
}
