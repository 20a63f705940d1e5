package mc

import "fmt"

// Mutex is sync.Mutex under the scheduler.
type Mutex struct {
	locked bool
	owner  int32
	h      uint64
	vc     VC
}

func (m *Mutex) Lock() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	t.mu = m
	e.point(t, opLock, "Mutex.Lock")
	if m.locked {
		panic("mc: scheduled a blocked lock")
	}
	m.locked = true
	m.owner = int32(t.ID)
	m.h = e.event(t, m.h, 0x10)
	t.acquire(m.vc)
	if e.tracing {
		e.tracef(t, "Lock"+callerSite())
	}
}

func (m *Mutex) TryLock() bool {
	e := E
	if e == nil {
		return true
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return true
	}
	e.point(t, opAlways, "Mutex.TryLock")
	ok := !m.locked
	m.h = e.event(t, m.h, 0x11)
	if ok {
		m.locked = true
		m.owner = int32(t.ID)
		t.acquire(m.vc)
	}
	if e.tracing {
		e.tracef(t, fmt.Sprintf("TryLock=%v%s", ok, callerSite()))
	}
	return ok
}

// TryLocks is set if the program uses TryLock anywhere: then releasing a lock
// is a scheduling point too (otherwise it commutes with what waiters do).
var TryLocks bool

func (m *Mutex) Unlock() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	if TryLocks {
		e.point(t, opAlways, "Mutex.Unlock")
	}
	if !m.locked {
		e.fail("misuse", "sync: unlock of unlocked mutex"+callerSite())
		e.stop()
		return
	}
	m.locked = false
	m.h = e.event(t, m.h, 0x12)
	m.vc = t.release()
	if e.tracing {
		e.tracef(t, "Unlock"+callerSite())
	}
}

// RWMutex is sync.RWMutex under the scheduler: a waiting writer keeps new
// readers out.
type RWMutex struct {
	w   bool
	ann bool // a writer waits or holds it
	r   int32
	h   uint64
	rh  uint64
	vc  VC // of the last writer
	rc  VC // of readers since
}

func (m *RWMutex) Lock() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	t.rw = m
	e.point(t, opWAnn, "RWMutex.Lock")
	m.ann = true
	e.event(t, m.h, 0x19)
	t.rw = m
	e.point(t, opWLock, "RWMutex.Lock")
	m.w = true
	m.h = e.event(t, mix(m.h, m.rh), 0x13)
	m.rh = 0
	t.acquire(m.vc)
	t.acquire(m.rc)
}

func (m *RWMutex) Unlock() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	if TryLocks {
		e.point(t, opAlways, "RWMutex.Unlock")
	}
	if !m.w {
		e.fail("misuse", "sync: Unlock of unlocked RWMutex"+callerSite())
		e.stop()
		return
	}
	m.w, m.ann = false, false
	m.h = e.event(t, mix(m.h, m.rh), 0x14)
	m.rh = 0
	m.vc = t.release()
	m.rc = nil
}

func (m *RWMutex) RLock() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	t.rw = m
	e.point(t, opRLock, "RWMutex.RLock")
	m.r++
	m.rh += e.event(t, m.h, 0x15)
	t.acquire(m.vc)
}

func (m *RWMutex) RUnlock() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	if TryLocks {
		e.point(t, opAlways, "RWMutex.RUnlock")
	}
	if m.r <= 0 {
		e.fail("misuse", "sync: RUnlock of unlocked RWMutex"+callerSite())
		e.stop()
		return
	}
	m.r--
	m.rh += e.event(t, m.h, 0x16)
	m.rc = joinVC(m.rc, t.release())
}

func (m *RWMutex) TryLock() bool {
	e := E
	if e == nil || e.killing {
		return true
	}
	t := e.cur
	e.point(t, opAlways, "RWMutex.TryLock")
	m.h = e.event(t, mix(m.h, m.rh), 0x17)
	m.rh = 0
	if m.ann || m.r > 0 {
		return false
	}
	m.w, m.ann = true, true
	t.acquire(m.vc)
	t.acquire(m.rc)
	return true
}

func (m *RWMutex) TryRLock() bool {
	e := E
	if e == nil || e.killing {
		return true
	}
	t := e.cur
	e.point(t, opAlways, "RWMutex.TryRLock")
	m.h = e.event(t, mix(m.h, m.rh), 0x18)
	m.rh = 0
	if m.ann {
		return false
	}
	m.r++
	t.acquire(m.vc)
	return true
}

// RLocker mirrors sync.RWMutex.RLocker.
type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	q  []*Thread
	h  uint64
	vc VC
}

func (c *Cond) Wait() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.point(t, opAlways, "Cond.Wait")
	c.h = e.event(t, c.h, 0x20)
	c.q = append(c.q, t)
	t.cw = 1
	c.L.Unlock()
	if t.cw == 1 {
		t.cw = 0
		e.park(t, "Cond.Wait"+callerSite())
	}
	c.L.Lock()
}

func (c *Cond) wake(e *Exec, t *Thread) {
	w := c.q[0]
	c.q = c.q[1:]
	v := mix(mix(w.h, c.h), 0x23)
	w.h = v
	e.sum += v
	w.acquire(t.release())
	if w.cw == 1 { // still unlocking
		w.cw = 0
		return
	}
	e.ready(w)
}

func (c *Cond) Signal() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.point(t, opAlways, "Cond.Signal")
	c.h = e.event(t, c.h, 0x21)
	if e.tracing {
		e.tracef(t, fmt.Sprintf("Signal (%d waiting)%s", len(c.q), callerSite()))
	}
	if len(c.q) > 0 {
		c.wake(e, t)
	}
}

func (c *Cond) Broadcast() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.point(t, opAlways, "Cond.Broadcast")
	c.h = e.event(t, c.h, 0x22)
	for len(c.q) > 0 {
		c.wake(e, t)
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	h  uint64
	vc VC
	q  []*Thread
}

func (w *WaitGroup) Add(d int) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.point(t, opAlways, "WaitGroup.Add")
	w.h = e.event(t, w.h, 0x30)
	w.n += d
	w.vc = joinVC(append(VC(nil), w.vc...), t.release())
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, x := range w.q {
			v := mix(mix(x.h, w.h), 0x31)
			x.h = v
			e.sum += v
			x.acquire(w.vc)
			e.ready(x)
		}
		w.q = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.point(t, opAlways, "WaitGroup.Wait")
	w.h = e.event(t, w.h, 0x32)
	if w.n == 0 {
		t.acquire(w.vc)
		return
	}
	w.q = append(w.q, t)
	e.park(t, "WaitGroup.Wait"+callerSite())
}

// Go mirrors sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Obj is a generic object whose operations are totally ordered (maps, pools,
// virtual connections).
type Obj struct {
	H  uint64
	vc VC
}

// Op announces an operation on the object (a scheduling point) and orders it.
func (o *Obj) Op(what string) { o.op(what, true, true) }

// OpAcq is Op for an operation that learns from earlier ones but does not
// order what comes after it (reading from a connection).
func (o *Obj) OpAcq(what string) { o.op(what, true, false) }

// OpRel is Op for an operation later ones learn from (writing).
func (o *Obj) OpRel(what string) { o.op(what, false, true) }

func (o *Obj) op(what string, acq, rel bool) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.point(t, opAlways, what)
	o.touch(e, t, acq, rel)
	if e.tracing {
		e.tracef(t, what)
	}
}

// Touch orders an access of the harness on the object.  It is no scheduling
// point and, what the harness keeps being no part of the code under test, no
// happens-before edge either.
func (o *Obj) Touch() { o.touchIf(false, false) }

// TouchAll is Touch with happens-before edges from and to the other operations.
func (o *Obj) TouchAll() { o.touchIf(true, true) }

// TouchAcq is Touch with happens-before edges from the other operations.
func (o *Obj) TouchAcq() { o.touchIf(true, false) }

// TouchRel is Touch with happens-before edges to later operations.
func (o *Obj) TouchRel() { o.touchIf(false, true) }

func (o *Obj) touchIf(acq, rel bool) {
	e := E
	if e == nil || e.killing {
		return
	}
	o.touch(e, e.cur, acq, rel)
}

func (o *Obj) touch(e *Exec, t *Thread, acq, rel bool) {
	o.H = e.event(t, o.H, 0x40)
	if acq {
		t.acquire(o.vc)
	}
	if rel {
		o.vc = joinVC(append(VC(nil), o.vc...), t.release())
	}
}

// WaitQ is a queue of parked threads on an Obj (used by the network shim).
type WaitQ struct{ q []*Thread }

// Empty tells whether nobody waits.
func (w *WaitQ) Empty() bool { return len(w.q) == 0 }

func (w *WaitQ) Park(what string) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	w.q = append(w.q, t)
	e.park(t, what)
	// drop a stale entry (woken by somebody else)
	for i, x := range w.q {
		if x == t {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			break
		}
	}
}

// WakeAll makes every waiter ready; from the current thread.
func (w *WaitQ) WakeAll(o *Obj) {
	e := E
	if e == nil || e.killing {
		return
	}
	for _, t := range w.q {
		v := mix(mix(t.h, o.H), 0x41)
		t.h = v
		e.sum += v
		t.acquire(o.vc)
		e.ready(t)
	}
	w.q = nil
}

// Killing reports whether the execution is being unwound.
func Killing() bool { return E == nil || E.killing }
