package mc

import "unsafe"

// Delayed stores: what a processor with store buffers does (TSO). Unless Bound.SC is set,
// a plain store at a racy site may, for one deviation, stay invisible to others
// until the thread performs the next operation that is neither a plain access nor an
// atomic load, or cannot go on.

type pending struct {
	swap func() // exchanges what the thread sees with what others see
	key  uintptr
	site int32
}

// maxWeak is how many loads a delayed store may wait for: it becomes visible some day.
const maxWeak = 12

// delay is called before a plain store to *p.
func delay[T any](p *T, site int32) {
	e := E
	if e == nil || e.killing || !e.tso || unsafe.Sizeof(*p) > 8 || !e.isPoint(site) {
		return
	}
	t := e.cur
	if t.pend == nil {
		if Choose(2) == 0 {
			return
		}
		e.npend++
		t.wops = 0
	}
	old := *p
	t.pend = append(t.pend, pending{func() { *p, old = old, *p }, uintptr(unsafe.Pointer(p)), site})
	e.local(t, 0xde1a)
	if e.tracing {
		e.tracef(t, "is delayed: write of "+siteName(site))
	}
}

func (t *Thread) swap() {
	if t.out {
		for i := range t.pend {
			t.pend[i].swap()
		}
	} else {
		for i := len(t.pend) - 1; i >= 0; i-- {
			t.pend[i].swap()
		}
	}
	t.out = !t.out
}

// drain makes the delayed stores of t visible.
func (e *Exec) drain(t *Thread) {
	if t.out {
		t.swap()
	}
	for _, p := range t.pend {
		if c := e.cells[p.key]; c != nil {
			v := e.event(t, mix(c.w, c.r), 0x63)
			c.w, c.r = v, 0
		}
		if e.tracing {
			e.tracef(t, "others see the write of "+siteName(p.site))
		}
	}
	t.pend = nil
	e.npend--
}

// weakPoint is a scheduling point of an operation that is no fence.
func (e *Exec) weakPoint(t *Thread, what string) {
	if t.pend == nil {
		e.point(t, opAlways, what)
		return
	}
	if t.wops++; t.wops > maxWeak {
		e.drain(t)
		e.point(t, opAlways, what)
		return
	}
	e.point(t, opWeak, what)
}
