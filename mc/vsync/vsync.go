// Package vsync replaces package sync in instrumented code.
package vsync

import "verif/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	Cond      = mc.Cond
	WaitGroup = mc.WaitGroup
	Once      = mc.Once
	Locker    = mc.Locker
)

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool is sync.Pool with a deterministic LIFO free list.
type Pool struct {
	New func() any
	o   mc.Obj
	l   []any
}

func (p *Pool) Get() any {
	p.o.Op("Pool.Get")
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.o.Op("Pool.Put")
	p.l = append(p.l, x)
}

// Map is sync.Map; every operation is atomic and ordered.
type Map struct {
	o    mc.Obj
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	m.o.Op("Map.Load")
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) {
	m.o.Op("Map.Store")
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.o.Op("Map.LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.o.Op("Map.LoadAndDelete")
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}

func (m *Map) Delete(k any) {
	m.o.Op("Map.Delete")
	m.del(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.o.Op("Map.Swap")
	x, ok := m.m[k]
	m.store(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.o.Op("Map.CompareAndSwap")
	if x, ok := m.m[k]; ok && x == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.o.Op("Map.CompareAndDelete")
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.o.Op("Map.Range")
	for _, k := range append([]any(nil), m.keys...) {
		m.o.TouchAll()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
