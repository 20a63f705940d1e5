package mc

import (
	"fmt"
	"unsafe"
)

// hchan is the shadow of a Go channel.  The real channel value only serves as
// an identity.
type hchan struct {
	c      int
	buf    []msg
	closed bool
	cvc    VC // clock of the close
	recvq  []*waiter
	sendq  []*waiter
	h      uint64
	// clocks of freed buffer slots: the k-th receive happens before the
	// (k+cap)-th send completes
	nsend, nrecv int
	slots        map[int]VC
	name         string
}

type msg struct {
	v  any
	vc VC
	h  uint64
}

type waiter struct {
	t    *Thread
	v    any // value to send
	vc   VC
	sel  *selWait // nil for plain operations
	i    int
	recv bool
}

type selWait struct {
	done bool
	i    int
}

func chanPtr[C any](c C) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func (e *Exec) hchanOf(p uintptr) *hchan {
	hc := e.chans[p]
	if hc == nil {
		hc = &hchan{}
		e.chans[p] = hc
	}
	return hc
}

// MakeChan registers a channel made by the code under test.
func MakeChan[C any, N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](c C, n N) C {
	e := E
	if e == nil {
		return c
	}
	k := int(n)
	if k < 0 {
		panic("makechan: size out of range")
	}
	if lim := clampCap; lim > 0 && k > 64 {
		k = lim
	}
	p := chanPtr(c)
	e.chans[p] = &hchan{c: k}
	Keep(c)
	return c
}

var clampCap int

var keepSink []any

// Keep keeps a channel alive for the execution so its address stays unique.
func Keep(x any) { keepSink = append(keepSink, x) }

func (c *hchan) take(e *Exec, t *Thread) (any, bool) {
	// precondition: receive can complete
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf[0] = msg{}
		c.buf = c.buf[1:]
		t.acquire(m.vc)
		if c.c > 0 && c.c <= 64 {
			if c.slots == nil {
				c.slots = map[int]VC{}
			}
			c.slots[c.nrecv%c.c] = t.release()
		}
		c.nrecv++
		if len(c.sendq) > 0 { // a blocked sender moves in
			w := c.sendq[0]
			c.unqueue(w)
			c.buf = append(c.buf, msg{v: w.v, vc: w.vc})
			c.nsend++
			c.complete(e, t, w, nil, true)
		}
		return m.v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.unqueue(w)
		t.acquire(w.vc)
		c.complete(e, t, w, nil, true)
		return w.v, true
	}
	t.acquire(c.cvc)
	return nil, false
}

func (c *hchan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }
func (c *hchan) canSend() bool { return c.closed || len(c.recvq) > 0 || len(c.buf) < c.c }

func (c *hchan) put(e *Exec, t *Thread, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.unqueue(w)
		w.t.acquire(t.release())
		if c.c == 0 {
			t.acquire(w.vc)
		}
		c.complete(e, t, w, v, true)
		return
	}
	if c.c > 0 && c.c <= 64 && c.slots != nil {
		t.acquire(c.slots[c.nsend%c.c])
	}
	c.nsend++
	c.buf = append(c.buf, msg{v: v, vc: t.release()})
}

// complete finishes a waiter's operation on its behalf.
func (c *hchan) complete(e *Exec, t *Thread, w *waiter, v any, ok bool) {
	if w.sel != nil {
		w.sel.done = true
		w.sel.i = w.i
	}
	w.t.rv, w.t.rok = v, ok
	hv := mix(mix(w.t.h, c.h), 0x51)
	w.t.h = hv
	e.sum += hv
	if !w.recv {
		w.t.acquire(t.release())
	}
	e.ready(w.t)
}

// unqueue removes a waiter from the queue it is first in, and its siblings
// (other cases of the same select) lazily.
func (c *hchan) unqueue(w *waiter) {
	if w.recv {
		c.recvq = c.recvq[1:]
	} else {
		c.sendq = c.sendq[1:]
	}
	if w.sel != nil {
		w.sel.done = true
	}
}

// prune drops waiters whose select has been completed elsewhere.
func (c *hchan) prune() {
	for len(c.recvq) > 0 && c.recvq[0].sel != nil && c.recvq[0].sel.done {
		c.recvq = c.recvq[1:]
	}
	for len(c.sendq) > 0 && c.sendq[0].sel != nil && c.sendq[0].sel.done {
		c.sendq = c.sendq[1:]
	}
}

// clockSend is the non-blocking send a timer does.
func (c *hchan) clockSend(e *Exec, h uint64, vc VC, v any) {
	c.prune()
	if c.closed {
		return
	}
	c.h = mix(c.h, h)
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.unqueue(w)
		w.t.acquire(vc)
		if w.sel != nil {
			w.sel.i = w.i
		}
		w.t.rv, w.t.rok = v, true
		hv := mix(mix(w.t.h, c.h), 0x52)
		w.t.h = hv
		e.sum += hv
		e.ready(w.t)
		return
	}
	if len(c.buf) < c.c {
		c.nsend++
		c.buf = append(c.buf, msg{v: v, vc: vc})
	}
}

func doSend(p uintptr, v any) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	if p == 0 {
		BlockForever()
		return
	}
	c := e.hchanOf(p)
	e.point(t, opAlways, "chan send")
	c.prune()
	c.h = e.event(t, c.h, 0x53)
	if c.canSend() {
		if e.tracing {
			e.tracef(t, fmt.Sprintf("send (len %d/%d)%s", len(c.buf), c.c, callerSite()))
		}
		c.put(e, t, v)
		return
	}
	w := &waiter{t: t, v: v, vc: t.release()}
	c.sendq = append(c.sendq, w)
	e.park(t, "chan send"+callerSite())
	if !t.rok {
		panic("send on closed channel")
	}
}

func doRecv(p uintptr) (any, bool) {
	e := E
	if e == nil {
		return nil, false
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return nil, false
	}
	if p == 0 {
		BlockForever()
		return nil, false
	}
	c := e.hchanOf(p)
	e.point(t, opAlways, "chan receive")
	c.prune()
	c.h = e.event(t, c.h, 0x54)
	if c.canRecv() {
		if e.tracing {
			e.tracef(t, fmt.Sprintf("recv (len %d/%d closed=%v)%s", len(c.buf), c.c, c.closed, callerSite()))
		}
		return c.take(e, t)
	}
	w := &waiter{t: t, recv: true, vc: t.release()}
	c.recvq = append(c.recvq, w)
	e.park(t, "chan receive"+callerSite())
	v, ok := t.rv, t.rok
	t.rv = nil
	return v, ok
}

// Send is `c <- v`, written Send(c)(v) so that v converts to the element type.
func Send[C ~chan T | ~chan<- T, T any](c C) func(T) {
	p := chanPtr(c)
	return func(v T) { doSend(p, v) }
}

// Recv is `<-c`.
func Recv[C ~chan T | ~<-chan T, T any](c C) (v T) {
	x, _ := doRecv(chanPtr(c))
	v, _ = x.(T)
	return
}

// Recv2 is `v, ok := <-c`.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (v T, ok bool) {
	x, ok := doRecv(chanPtr(c))
	v, _ = x.(T)
	return v, ok
}

// Close is close(c).
func Close[C ~chan T | ~chan<- T, T any](c C) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	p := chanPtr(c)
	if p == 0 {
		panic("close of nil channel")
	}
	hc := e.hchanOf(p)
	e.point(t, opAlways, "close(chan)")
	hc.prune()
	hc.h = e.event(t, hc.h, 0x55)
	if e.tracing {
		e.tracef(t, "close"+callerSite())
	}
	if hc.closed {
		panic("close of closed channel")
	}
	hc.closed = true
	hc.cvc = t.release()
	for len(hc.recvq) > 0 {
		hc.prune()
		if len(hc.recvq) == 0 {
			break
		}
		w := hc.recvq[0]
		hc.unqueue(w)
		w.t.acquire(hc.cvc)
		hc.complete(e, t, w, nil, false)
	}
	for len(hc.sendq) > 0 {
		hc.prune()
		if len(hc.sendq) == 0 {
			break
		}
		w := hc.sendq[0]
		hc.unqueue(w)
		hc.complete(e, t, w, nil, false)
	}
}

func chanStat(p uintptr) (n, c int) {
	e := E
	if e == nil || p == 0 {
		return
	}
	t := e.cur
	if e.killing {
		return
	}
	hc := e.hchanOf(p)
	e.point(t, opAlways, "len/cap(chan)")
	hc.h = e.event(t, hc.h, 0x56)
	return len(hc.buf), hc.c
}

// Len and Cap are len(c) and cap(c).
func Len[C any](c C) int {
	n, _ := chanStat(chanPtr(c))
	return n
}
func Cap[C any](c C) int {
	_, n := chanStat(chanPtr(c))
	return n
}

// Case is one communication clause of a select.
type Case interface{ info() *caseInfo }

type caseInfo struct {
	p    uintptr
	recv bool
	v    any
	ok   bool
}

func (c *caseInfo) info() *caseInfo { return c }

// RCase is a receive clause.
type RCase[T any] struct{ caseInfo }

func (r *RCase[T]) V() T { v, _ := r.v.(T); return v }
func (r *RCase[T]) V2() (T, bool) {
	v, _ := r.v.(T)
	return v, r.ok
}

func RecvCase[C ~chan T | ~<-chan T, T any](c C) *RCase[T] {
	return &RCase[T]{caseInfo{p: chanPtr(c), recv: true}}
}

func SendCase[C ~chan T | ~chan<- T, T any](c C) func(T) *caseInfo {
	return func(v T) *caseInfo { return &caseInfo{p: chanPtr(c), v: v} }
}

// Select executes a select statement; -1 is the default clause.
func Select(hasDefault bool, cases ...Case) int {
	e := E
	if e == nil {
		return -1
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		if hasDefault || t.kops > 50 {
			if !hasDefault {
				runtimeGoexit()
			}
			return -1
		}
		runtimeGoexit()
	}
	e.point(t, opAlways, "select")
	var readyBuf [8]int
	ready := readyBuf[:0]
	acc := uint64(0x57)
	for i, cs := range cases {
		ci := cs.info()
		if ci.p == 0 {
			continue
		}
		c := e.hchanOf(ci.p)
		c.prune()
		acc = mix(acc, c.h)
		if ci.recv && c.canRecv() || !ci.recv && c.canSend() {
			ready = append(ready, i)
		}
	}
	hv := e.event(t, acc, 0x58)
	for _, cs := range cases {
		if p := cs.info().p; p != 0 {
			c := e.hchanOf(p)
			c.h = mix(c.h, hv)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = Choose(len(ready))
		}
		i := ready[k]
		ci := cases[i].info()
		c := e.hchanOf(ci.p)
		if e.tracing {
			e.tracef(t, fmt.Sprintf("select -> case %d%s", i, callerSite()))
		}
		if ci.recv {
			ci.v, ci.ok = c.take(e, t)
		} else {
			c.put(e, t, ci.v)
		}
		return i
	}
	if hasDefault {
		if e.tracing {
			e.tracef(t, "select -> default"+callerSite())
		}
		return -1
	}
	sw := &selWait{}
	for i, cs := range cases {
		ci := cs.info()
		if ci.p == 0 {
			continue
		}
		c := e.hchanOf(ci.p)
		w := &waiter{t: t, v: ci.v, vc: t.release(), sel: sw, i: i, recv: ci.recv}
		if ci.recv {
			c.recvq = append(c.recvq, w)
		} else {
			c.sendq = append(c.sendq, w)
		}
	}
	e.park(t, "select"+callerSite())
	i := sw.i
	ci := cases[i].info()
	if ci.recv {
		ci.v, ci.ok = t.rv, t.rok
		t.rv = nil
	} else if !t.rok {
		panic("send on closed channel")
	}
	return i
}
