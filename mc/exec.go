// Package mc is a stateless model checker's runtime: one controlled execution
// of instrumented Go code at a time, in which every scheduling decision, every
// timer firing and every environment choice is taken by the explorer.
//
// Exactly one goroutine ("thread") runs at any moment.  A thread announces each
// visible operation before doing it; the scheduler then picks which thread goes
// next.  Options are ordered default-first, so an execution is identified by
// the sparse list of points at which it deviates from option 0.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// VC is a vector clock indexed by thread id.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(dst, src VC) VC {
	if len(src) > len(dst) {
		n := make(VC, len(src))
		copy(n, dst)
		dst = n
	}
	for i, x := range src {
		if x > dst[i] {
			dst[i] = x
		}
	}
	return dst
}

const (
	stReady  = iota // has an announced operation, waits to be scheduled
	stParked        // blocked; somebody else completes its operation
	stDone
)

// operation kinds, for messages and enabledness
const (
	opStart = iota
	opLock
	opRLock
	opWLock
	opWAnn
	opAlways
	opYield
	opIdle
	opWake
	opWeak
)

var opName = []string{"start", "lock", "rlock", "wlock", "wlock", "op", "yield", "idle", "resume", "op"}

// Thread is one controlled goroutine.
type Thread struct {
	ID      int
	Name    string
	state   int
	op      int
	what    string // human description of the announced/parked operation
	mu      *Mutex
	rw      *RWMutex
	cw      int8 // waits for a Cond, but is not parked yet
	idleAt  int64
	wake    chan struct{}
	h       uint64
	vc      VC
	spin    bool
	spinOps int
	nspawn  uint64
	kops    int
	killed  bool
	// result slots for operations completed by others
	rv  any
	rok bool
	sel *selWait
	// number of consecutive loop ticks without a visible operation
	ticks int

	pend []pending // delayed stores, oldest first
	out  bool      // the memory shows what others see of pend
	wops int       // operations since the first of pend that are no fences
}

// Violation describes a failed execution.
type Violation struct {
	Kind string // fail, panic, hang, livelock, maprace, misuse
	Msg  string
}

// Deviation is a non-default choice.
type Deviation struct {
	At  int32
	Alt int32
}

type cell struct {
	w, r  uint64
	wt    int32
	wc    uint32
	wsite int32
	watom bool
	reads []rd
}

type rd struct {
	t    int32
	c    uint32
	site int32
	atom bool
}

// Exec is one execution.
type Exec struct {
	threads []*Thread
	live    int
	cur     *Thread
	sum     uint64 // commutative sum of event hashes: identifies the trace
	clockH  uint64
	clockR  uint64
	now     int64 // virtual ns since start
	horizon int64
	timers  []*vtimer
	tseq    int

	chans map[uintptr]*hchan
	cells map[uintptr]*cell

	branching bool
	npoint    int32
	devs      []Deviation
	devi      int
	cost      int
	early     int
	maxEarly  int
	tso       bool
	earlyWin  int64
	steps     int
	maxSteps  int
	yields    int

	viol    *Violation
	killing bool
	aborted bool // pruned: the state was seen before
	done    chan struct{}
	ack     chan struct{}

	x       *Explorer
	newRacy map[int32]bool

	trace   []string
	tracing bool
	atom    map[uintptr]VC
	lenSite map[int32]bool
	mapSeq  map[uintptr]map[any]int
	mapN    int
	npend   int // threads with delayed stores
}

// E is the execution in progress; nil outside of executions.
var E *Exec

// ---- hashing ----

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h
}

func (e *Exec) event(t *Thread, a, b uint64) uint64 {
	v := mix(mix(t.h, a), b)
	t.h = v
	e.sum += v
	return v
}

// local records something only the thread itself knows (a choice).
func (e *Exec) local(t *Thread, a uint64) { e.event(t, 0x10ca1, a) }

func (t *Thread) release() VC {
	if t.pend != nil {
		E.drain(t)
	}
	s := make(VC, len(t.vc))
	copy(s, t.vc)
	t.vc[t.ID]++
	return s
}

func (t *Thread) acquire(v VC) {
	if v != nil {
		t.vc = joinVC(t.vc, v)
	}
}

// ---- threads ----

func (e *Exec) newThread(name string) *Thread {
	t := &Thread{ID: len(e.threads), Name: name, wake: make(chan struct{}, 1), op: opStart, what: "start"}
	t.vc = make(VC, t.ID+1)
	t.vc[t.ID] = 1
	e.threads = append(e.threads, t)
	e.live++
	return t
}

func (e *Exec) run(t *Thread, f func()) {
	go func() {
		normal := false
		defer func() {
			r := recover()
			if e.killing {
				t.state = stDone
				e.ack <- struct{}{}
				return
			}
			if r != nil {
				e.fail("panic", fmt.Sprintf("%v%s", r, panicSite()))
			} else if !normal && !t.killed {
				// runtime.Goexit called by the code under test: the thread just ends
			}
			t.state = stDone
			e.live--
			e.sum += mix(t.h, 0xdead)
			if e.tracing {
				e.tracef(t, "exit")
			}
			if t.ID == 0 || e.viol != nil {
				e.finish()
				return
			}
			e.dispatch(t)
		}()
		<-t.wake
		if e.killing {
			t.killed = true
			runtime.Goexit()
		}
		f()
		normal = true
	}()
}

// panicSite extracts the innermost frames that belong to the code under test.
func panicSite() string {
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = nil
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "verif/") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "log.") || strings.HasPrefix(l, "reflect") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if i := strings.LastIndex(l, "/"); i >= 0 {
			l = l[i+1:]
		}
		out = append(out, l)
		if len(out) >= 3 {
			break
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " [in " + strings.Join(out, " < ") + "]"
}

func (e *Exec) fail(kind, msg string) {
	if e.viol == nil && !e.killing {
		e.viol = &Violation{kind, msg}
	}
}

// finish ends the execution: everything still alive is unwound by the explorer.
func (e *Exec) finish() {
	if !e.killing {
		e.killing = true
		close(e.done)
	}
}

// stop ends the execution from inside a running thread and unwinds it.
func (e *Exec) stop() {
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.finish()
	// wait to be unwound like everybody else
	<-t.wake
	t.killed = true
	runtime.Goexit()
}

// kop is what an operation does while the execution is being unwound.
func (e *Exec) kop(t *Thread) {
	t.kops++
	if t.kops > 2000 {
		runtime.Goexit()
	}
}

func (e *Exec) killAll() {
	for _, t := range e.threads {
		if t.state == stDone {
			continue
		}
		e.cur = t
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-e.ack
	}
}

// Go starts a controlled thread.
func Go(f func()) {
	e := E
	if e == nil || e.killing {
		return
	}
	e.spawn("", f)
}

// GoName is Go with a thread name for messages.
func GoName(name string, f func()) {
	e := E
	if e == nil || e.killing {
		return
	}
	e.spawn(name, f)
}

func (e *Exec) spawn(name string, f func()) *Thread {
	p := e.cur
	if p.pend != nil {
		e.drain(p)
	}
	p.nspawn++
	ev := e.event(p, 0x5b, p.nspawn)
	t := e.newThread(name)
	if t.Name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
	}
	t.h = mix(ev, 0xc41d)
	t.acquire(p.release())
	if e.tracing {
		e.tracef(p, "go "+t.Name+callerSite())
	}
	e.run(t, f)
	return t
}

// spawnFromClock starts a thread on behalf of a timer.
func (e *Exec) spawnFromClock(h uint64, vc VC, name string, f func()) *Thread {
	t := e.newThread(name)
	t.h = mix(h, 0xc41e)
	t.acquire(vc)
	e.run(t, f)
	return t
}

// ---- scheduling ----

// point announces an operation of the current thread and lets the scheduler
// decide who goes next; it returns when this thread has been chosen.
func (e *Exec) point(t *Thread, op int, what string) {
	t.op, t.what, t.state = op, what, stReady
	t.ticks = 0
	e.dispatch(t)
	if e.killing {
		t.killed = true
		runtime.Goexit()
	}
	if t.pend != nil && op != opWeak {
		e.drain(t)
	}
}

// park blocks the current thread until somebody makes it ready.
func (e *Exec) park(t *Thread, what string) {
	t.what, t.state = what, stParked
	t.ticks = 0
	if e.tracing {
		e.tracef(t, "blocks: "+what)
	}
	e.dispatch(t)
	if e.killing {
		t.killed = true
		runtime.Goexit()
	}
}

// ready makes a parked thread schedulable.
func (e *Exec) ready(t *Thread) {
	t.state = stReady
	t.op = opWake
	t.what = "resume"
}

func (t *Thread) enabled() bool {
	switch t.op {
	case opLock:
		return !t.mu.locked
	case opRLock:
		return !t.rw.ann
	case opWAnn:
		return !t.rw.ann
	case opWLock:
		return t.rw.r == 0
	}
	return true
}

// dispatch is run by the thread that just announced/parked/ended.
func (e *Exec) dispatch(t *Thread) {
	Progress++
	nxt := e.pick(t)
	if nxt == nil { // execution over
		if t.state != stDone {
			<-t.wake
		}
		return
	}
	e.cur = nxt
	if nxt == t {
		return
	}
	if t.pend != nil {
		t.swap()
	}
	nxt.wake <- struct{}{}
	if t.state != stDone {
		<-t.wake
		if t.pend != nil {
			t.swap()
		}
	}
}

var optBuf [256]*Thread

func (e *Exec) pick(cur *Thread) *Thread {
	if e.killing {
		return nil
	}
	timePassed := false
	for {
		e.steps++
		if e.steps > e.maxSteps {
			e.fail("livelock", "execution exceeds the step limit: "+e.dump())
			e.finish()
			return nil
		}
		if e.npend > 0 {
			for _, t := range e.threads {
				if t.pend != nil && (t.state != stReady || t.op == opIdle || !t.enabled()) {
					e.drain(t)
				}
			}
		}
		opts := optBuf[:0]
		var idle *Thread
		allSpin := true
		n := len(e.threads)
		yielding := cur.state == stReady && cur.op == opYield
		for pass := 0; pass < 2; pass++ {
			for i := 0; i < n; i++ {
				t := e.threads[(cur.ID+i)%n]
				if t.state != stReady || (t == cur && yielding) {
					continue
				}
				if t.op == opIdle {
					if idle == nil || t.idleAt < idle.idleAt {
						idle = t
					}
					continue
				}
				// threads that spin on Gosched come after those that do not
				if (yielding && t.spin) != (pass == 1) || !t.enabled() {
					continue
				}
				if !t.spin {
					allSpin = false
				}
				opts = append(opts, t)
			}
		}
		if yielding {
			if allSpin {
				// only spinning threads can run: let time pass
				if !timePassed && e.fireNext(e.horizon) {
					timePassed = true
					e.yields = 0
					continue
				}
				e.yields++
				if e.yields > 60*(len(opts)+1) {
					e.fail("livelock", "threads spin forever: "+e.dump())
					e.finish()
					return nil
				}
			} else {
				e.yields = 0
			}
			if len(opts) == 0 {
				opts = append(opts, cur)
			}
		}
		if len(opts) == 0 {
			if idle != nil && idle.idleAt <= e.now {
				opts = append(opts, idle)
			} else {
				lim := e.horizon
				if idle != nil && idle.idleAt < lim {
					lim = idle.idleAt
				}
				if e.fireNext(lim) {
					continue
				}
				if idle != nil && idle.idleAt <= e.horizon {
					e.advance(idle.idleAt)
					continue
				}
				e.fail("hang", "no thread can make progress: "+e.dump())
				e.finish()
				return nil
			}
		}
		nopt := len(opts)
		earlyOK := false
		if e.branching && e.early < e.maxEarly && len(opts) > 0 && opts[0].op != opIdle {
			if d, ok := e.nextDeadline(); ok && d <= e.horizon && d <= e.now+e.earlyWin {
				earlyOK = true
				nopt++
			}
		}
		k := 0
		if nopt > 1 && e.branching {
			k = e.choose(nopt, 1, cur)
			if k < 0 {
				return nil
			}
		}
		if earlyOK && k == nopt-1 {
			e.early++
			d, _ := e.nextDeadline()
			e.fireNext(d)
			continue
		}
		t := opts[k]
		if t != cur && !t.spin {
			for _, o := range e.threads {
				o.spin = false
			}
		}
		if t.spin {
			if t.spinOps++; t.spinOps > 30 {
				t.spin = false
			}
		}
		if e.tracing && t != cur {
			e.tracef(t, "scheduled ("+opName[t.op]+")")
		}
		return t
	}
}

// choose takes a decision among n options at the next choice point; -1 means
// the execution is over (pruned).
func (e *Exec) choose(n int, cost int, cur *Thread) int {
	p := e.npoint
	e.npoint++
	if e.devi < len(e.devs) {
		if e.devs[e.devi].At == p {
			k := int(e.devs[e.devi].Alt)
			e.devi++
			if k >= n {
				// cannot happen when executions are deterministic
				e.fail("nondet", fmt.Sprintf("replay diverged at point %d: option %d of %d", p, k, n))
				e.finish()
				return -1
			}
			return k
		}
		return 0
	}
	if e.x != nil && e.x.replay {
		return 0
	}
	key := mix(e.sum, cur.h^uint64(cost)<<56^uint64(n)<<48)
	key = mix(key, uint64(cur.state)<<8|uint64(cur.op))
	for _, t := range e.threads {
		if t.spin {
			key += mix(t.h, 0x5919)
		}
	}
	key = mix(key, uint64(e.early))
	if e.x != nil {
		if !e.x.visit(key, p, n, cost) {
			e.aborted = true
			e.finish()
			return -1
		}
	}
	return 0
}

// Choose is an environment choice among n alternatives (0 is the default);
// taking another one costs one deviation.
func Choose(n int) int { return choose(n, 1) }

// ChooseFree enumerates all n alternatives without charging the bound, in the
// set-up phase too.
func ChooseFree(n int) int { return choose(n, 0) }

func choose(n, cost int) int {
	e := E
	if e == nil || e.killing || n <= 1 || !e.branching && cost > 0 {
		return 0
	}
	t := e.cur
	t.state = stReady
	k := e.choose(n, cost, t)
	if k < 0 {
		<-t.wake
		t.killed = true
		runtime.Goexit()
	}
	e.local(t, uint64(k)+7)
	if e.tracing {
		e.tracef(t, fmt.Sprintf("choice %d of %d", k, n))
	}
	return k
}

// Yield is runtime.Gosched.
func Yield() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	t.spin = true
	t.spinOps = 0
	e.point(t, opYield, "Gosched")
}

// Tick is called on every loop iteration of instrumented code.
func Tick() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	t.ticks++
	if t.ticks > 20_000_000 {
		e.fail("livelock", "a loop runs without reaching any synchronisation: "+e.dump())
		e.stop()
	}
}

func (e *Exec) dump() string {
	var b strings.Builder
	n := 0
	for _, t := range e.threads {
		if t.state == stDone {
			continue
		}
		if n > 0 {
			b.WriteString("; ")
		}
		n++
		if n > 12 {
			b.WriteString("...")
			break
		}
		st := "at"
		if t.state == stParked {
			st = "blocked in"
		}
		fmt.Fprintf(&b, "%s %s %s", t.Name, st, t.what)
	}
	return b.String()
}

func (e *Exec) tracef(t *Thread, s string) {
	if len(e.trace) < 20000 {
		e.trace = append(e.trace, fmt.Sprintf("%10.3fms %-14s %s", float64(e.now)/1e6, t.Name, s))
	}
}

func callerSite() string {
	pcs := make([]uintptr, 16)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/verif/mc/") && !strings.Contains(f.File, "/runtime/") && !strings.HasPrefix(f.Function, "verif/mc") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			return fmt.Sprintf(" @%s", fn)
		}
		if !more {
			return ""
		}
	}
}

// ---- timers ----

type vtimer struct {
	at     int64
	period int64
	seq    int
	armed  bool
	fire   func(h uint64, vc VC)
	h      uint64
	vc     VC
}

// advance moves the clock.
func (e *Exec) advance(to int64) {
	if to+1 > e.now {
		e.now = to + 1
	}
	v := mix(mix(e.clockH, e.clockR), uint64(e.now))
	e.clockH, e.clockR = v, 0
	e.sum += v
}

func (e *Exec) nextDeadline() (int64, bool) {
	if len(e.timers) == 0 {
		return 0, false
	}
	return e.timers[0].at, true
}

func (e *Exec) fireNext(limit int64) bool {
	if len(e.timers) == 0 || e.timers[0].at > limit {
		return false
	}
	tm := e.timers[0]
	e.timers = e.timers[1:]
	tm.armed = false
	if tm.at >= e.now {
		e.advance(tm.at)
	}
	v := mix(mix(e.clockH, tm.h), 0xf1e)
	e.sum += v
	tm.h = v
	if tm.period > 0 {
		tm.at += tm.period
		if tm.at <= e.now {
			tm.at = e.now + tm.period
		}
		e.insert(tm)
	}
	if e.tracing {
		e.trace = append(e.trace, fmt.Sprintf("%10.3fms clock          timer fires", float64(e.now)/1e6))
	}
	tm.fire(v, tm.vc)
	return true
}

func (e *Exec) insert(tm *vtimer) {
	e.tseq++
	tm.seq = e.tseq
	tm.armed = true
	i := sort.Search(len(e.timers), func(i int) bool { return e.timers[i].at > tm.at })
	nt := make([]*vtimer, len(e.timers)+1)
	copy(nt, e.timers[:i])
	nt[i] = tm
	copy(nt[i+1:], e.timers[i:])
	e.timers = nt
}

func (e *Exec) unarm(tm *vtimer) bool {
	if !tm.armed {
		return false
	}
	for i, x := range e.timers {
		if x == tm {
			nt := make([]*vtimer, 0, len(e.timers))
			nt = append(nt, e.timers[:i]...)
			nt = append(nt, e.timers[i+1:]...)
			e.timers = nt
			break
		}
	}
	tm.armed = false
	return true
}

// NewTimer creates an unarmed timer; fire runs on the clock (it must not block).
type TimerH struct{ tm *vtimer }

// chanTimer/funcTimer are used by the time shim.
func NewFuncTimer(name string, f func()) *TimerH {
	tm := &vtimer{}
	tm.fire = func(h uint64, vc VC) { E.spawnFromClock(h, vc, name, f) }
	return &TimerH{tm}
}

func NewChanTimer(c chan time.Time, now func(int64) time.Time) *TimerH {
	tm := &vtimer{}
	hc := E.hchanOf(chanPtr(c))
	tm.fire = func(h uint64, vc VC) { hc.clockSend(E, h, vc, now(E.now)) }
	return &TimerH{tm}
}

// NewClockTimer runs fire on the clock itself; fire must not block.
func NewClockTimer(fire func(h uint64)) *TimerH {
	tm := &vtimer{}
	tm.fire = func(h uint64, vc VC) { fire(h) }
	return &TimerH{tm}
}

// OnExec runs at the start of every execution.
var OnExec []func()

// after is the instant d from now, or the last one there is, like in Go's runtime.
func (e *Exec) after(d time.Duration) int64 {
	if d > 0 && e.now+int64(d) < e.now {
		return 1<<63 - 1
	}
	return e.now + int64(d)
}

// Reset arms the timer; reports whether it was armed.
func (x *TimerH) Reset(d time.Duration, period time.Duration, what string) bool {
	e := E
	if e == nil {
		return false
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return false
	}
	e.point(t, opAlways, what)
	if d < 0 {
		d = 0
	}
	was := e.unarm(x.tm)
	v := e.event(t, mix(x.tm.h, 0x71), mix(e.clockH, uint64(d)))
	e.clockR += v
	x.tm.h = v
	x.tm.vc = t.release()
	x.tm.at = e.after(d)
	x.tm.period = int64(period)
	e.insert(x.tm)
	if e.tracing {
		e.tracef(t, fmt.Sprintf("%s %v", what, d))
	}
	return was
}

// Stop disarms the timer; reports whether it was armed.
func (x *TimerH) Stop(what string) bool {
	e := E
	if e == nil {
		return false
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return false
	}
	e.point(t, opAlways, what)
	was := e.unarm(x.tm)
	v := e.event(t, mix(x.tm.h, 0x72), 0)
	x.tm.h = v
	if e.tracing {
		e.tracef(t, what)
	}
	return was
}

// Now is the virtual time in ns.
func Now() int64 {
	e := E
	if e == nil {
		return 0
	}
	if e.killing {
		return e.now
	}
	t := e.cur
	v := e.event(t, e.clockH, 0x70)
	e.clockR += v
	return e.now
}

// Sleep blocks the thread for d of virtual time.
func Sleep(d time.Duration) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	tm := &vtimer{at: e.after(d)}
	v := e.event(t, e.clockH, mix(0x73, uint64(d)))
	e.clockR += v
	tm.h = v
	tm.fire = func(h uint64, vc VC) {
		t.h = mix(t.h, h)
		e.ready(t)
	}
	e.insert(tm)
	e.park(t, fmt.Sprintf("Sleep(%v)", d))
}

// Idle blocks the calling (harness) thread until virtual time has advanced by
// at least d and no other thread can run.  Idle(0) waits for quiescence.
func Idle(d time.Duration) {
	e := E
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	t.idleAt = e.now + int64(d)
	e.point(t, opIdle, fmt.Sprintf("harness Idle(%v)", d))
	e.event(t, e.sum, 0x1d1e)
	// the harness sees a quiescent system: everything happened before
	for _, o := range e.threads {
		t.acquire(o.vc)
	}
}

// BlockForever is select{} and operations on nil channels.
func BlockForever() {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	e.park(t, "select{} / nil channel"+callerSite())
}
