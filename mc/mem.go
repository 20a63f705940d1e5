package mc

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

func runtimeGoexit() { runtime.Goexit() }

// SiteNames maps a site id to "file:line"; set by the instrumented program.
var SiteNames []string

func siteName(i int32) string {
	if int(i) < len(SiteNames) && i >= 0 {
		return SiteNames[i]
	}
	return fmt.Sprintf("site%d", i)
}

var ptrSink unsafe.Pointer

func (e *Exec) isPoint(site int32) bool {
	return e.x != nil && int(site) < len(e.x.racy) && e.x.racy[site]
}

func (e *Exec) markRacy(a, b int32) {
	x := e.x
	if x == nil {
		return
	}
	if a >= 0 && b >= 0 && e.viol == nil {
		for _, in := range x.sc.NoRace {
			if strings.Contains(siteName(a), in) && strings.Contains(siteName(b), in) {
				e.fail("race", "data race (unordered conflicting accesses): "+siteName(a)+" and "+siteName(b))
				e.stop()
			}
		}
	}
	for _, s := range [2]int32{a, b} {
		if s < 0 {
			continue
		}
		for int(s) >= len(x.racy) {
			x.racy = append(x.racy, make([]bool, 256)...)
			x.fresh = append(x.fresh, make([]bool, 256)...)
		}
		if !x.racy[s] && !x.fresh[s] {
			x.fresh[s] = true
			x.nfresh++
		}
	}
}

// access registers a plain (or atomic) memory access by the current thread.
func (e *Exec) access(t *Thread, key uintptr, site int32, write, atom bool) (other int32) {
	other = -1
	c := e.cells[key]
	if c == nil {
		c = &cell{wt: -1, wsite: -1}
		e.cells[key] = c
	}
	tid := int32(t.ID)
	if c.wt >= 0 && c.wt != tid && c.wc > t.vc.get(int(c.wt)) && !(atom && c.watom) {
		e.markRacy(c.wsite, site)
		other = c.wsite
	}
	me := t.vc[t.ID]
	if write {
		for _, r := range c.reads {
			if r.t != tid && r.c > t.vc.get(int(r.t)) && !(atom && r.atom) {
				e.markRacy(r.site, site)
				if other < 0 || e.lenSite[other] {
					other = r.site
				}
			}
		}
		c.reads = c.reads[:0]
		c.wt, c.wc, c.wsite, c.watom = tid, me, site, atom
	} else {
		found := false
		for i := range c.reads {
			if c.reads[i].t == tid {
				c.reads[i].c, c.reads[i].site, c.reads[i].atom = me, site, atom
				found = true
				break
			}
		}
		if !found {
			c.reads = append(c.reads, rd{tid, me, site, atom})
		}
	}
	if atom || e.isPoint(site) {
		if write {
			v := e.event(t, mix(c.w, c.r), 0x61)
			c.w, c.r = v, 0
		} else {
			v := e.event(t, c.w, 0x62)
			c.r += v
		}
	}
	return
}

// layout lists the offsets of the leaves of a type.
var layouts = map[reflect.Type][]uintptr{}

func layoutOf(t reflect.Type) []uintptr {
	if l, ok := layouts[t]; ok {
		return l
	}
	var l []uintptr
	var walk func(t reflect.Type, off uintptr)
	walk = func(t reflect.Type, off uintptr) {
		if len(l) > 64 {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, off+f.Offset)
			}
		case reflect.Array:
			if t.Elem().Kind() == reflect.Uint8 {
				l = append(l, off)
				return
			}
			for i := 0; i < t.Len() && len(l) <= 64; i++ {
				walk(t.Elem(), off+uintptr(i)*t.Elem().Size())
			}
		default:
			l = append(l, off)
		}
	}
	walk(t, 0)
	layouts[t] = l
	return l
}

func (e *Exec) plain(t *Thread, p unsafe.Pointer, size uintptr, typ func() reflect.Type, site int32, write bool) {
	if e.isPoint(site) {
		w := "read of "
		if write {
			w = "write of "
		}
		e.weakPoint(t, w+siteName(site))
		if e.tracing {
			e.tracef(t, w+siteName(site))
		}
	}
	if size <= 4 {
		e.access(t, uintptr(p), site, write, false)
		return
	}
	rt := typ()
	switch rt.Kind() {
	case reflect.Struct, reflect.Array:
		for _, o := range layoutOf(rt) {
			e.access(t, uintptr(p)+o, site, write, false)
		}
	default:
		e.access(t, uintptr(p), site, write, false)
	}
}

// R is a read of *p.
func R[T any](p *T, site int32) T {
	e := E
	if e != nil && !e.killing {
		ptrSink = unsafe.Pointer(p)
		_ = *p // a nil dereference panics before the access is recorded
		e.plain(e.cur, unsafe.Pointer(p), unsafe.Sizeof(*p), func() reflect.Type { return reflect.TypeOf(p).Elem() }, site, false)
	}
	return *p
}

// W is a write about to happen to *p.
func w[T any](p *T, site int32) {
	e := E
	if e != nil && !e.killing {
		ptrSink = unsafe.Pointer(p)
		e.plain(e.cur, unsafe.Pointer(p), unsafe.Sizeof(*p), func() reflect.Type { return reflect.TypeOf(p).Elem() }, site, true)
	}
}

// St is the store `*p = v`, written St(p, site)(v).
func St[T any](p *T, site int32) func(T) {
	_ = *p
	return func(v T) {
		w(p, site)
		delay(p, site)
		*p = v
	}
}

func St2[A, B any](a *A, sa int32, b *B, sb int32) func(A, B) {
	return func(x A, y B) {
		if sa >= 0 {
			w(a, sa)
		}
		*a = x
		if sb >= 0 {
			w(b, sb)
		}
		*b = y
	}
}

func St3[A, B, C any](a *A, sa int32, b *B, sb int32, c *C, sc int32) func(A, B, C) {
	return func(x A, y B, z C) {
		if sa >= 0 {
			w(a, sa)
		}
		*a = x
		if sb >= 0 {
			w(b, sb)
		}
		*b = y
		if sc >= 0 {
			w(c, sc)
		}
		*c = z
	}
}

func St4[A, B, C, D any](a *A, sa int32, b *B, sb int32, c *C, sc int32, d *D, sd int32) func(A, B, C, D) {
	return func(x A, y B, z C, u D) {
		St3(a, sa, b, sb, c, sc)(x, y, z)
		if sd >= 0 {
			w(d, sd)
		}
		*d = u
	}
}

// span registers an access to n elements of a slice.
func span[E any](s []E, n int, site int32, write bool) {
	e := live()
	if e == nil || n == 0 {
		return
	}
	var zero E
	size := unsafe.Sizeof(zero)
	if size == 0 {
		return
	}
	if n > 256 {
		n = 256
	}
	t := e.cur
	if e.isPoint(site) {
		what := "read of elements at " + siteName(site)
		if write {
			what = "write of elements at " + siteName(site)
		}
		e.point(t, opAlways, what)
		if e.tracing {
			e.tracef(t, what)
		}
	}
	var off []uintptr
	if size > 4 {
		rt := reflect.TypeOf(&zero).Elem()
		if k := rt.Kind(); k == reflect.Struct || k == reflect.Array {
			off = layoutOf(rt)
		}
	}
	for i := 0; i < n; i++ {
		p := uintptr(unsafe.Pointer(&s[i]))
		if off == nil {
			e.access(t, p, site, write, false)
		}
		for _, o := range off {
			e.access(t, p+o, site, write, false)
		}
	}
}

// live is the running execution, nil while it is being unwound.
func live() *Exec {
	if e := E; e != nil && !e.killing {
		return e
	}
	return nil
}

// Copy is copy(d, s).
func Copy[D ~[]E, S ~[]E, E any](d D, s S, site int32) int {
	n := len(d)
	if len(s) < n {
		n = len(s)
	}
	span([]E(s), n, site, false)
	span([]E(d), n, site, true)
	return copy(d, s)
}

// CopyStr is copy(d, s) of a string.
func CopyStr[D ~[]byte, S ~string](d D, s S, site int32) int {
	n := len(d)
	if len(s) < n {
		n = len(s)
	}
	span([]byte(d), n, site, true)
	return copy(d, s)
}

// Append is append(s, l...), written Append(s, site)(l...).
func Append[S ~[]E, E any](s S, site int32) func(...E) S {
	return func(l ...E) S {
		if cap(s)-len(s) >= len(l) {
			span([]E(s[:len(s)+len(l)])[len(s):], len(l), site, true)
		}
		return append(s, l...)
	}
}

// BytesR announces that the first n bytes are read.
func BytesR(b []byte, n, site int32) []byte {
	if int(n) <= len(b) {
		span(b, int(n), site, false)
	}
	return b
}

// BytesW announces that the first n bytes are written.
func BytesW(b []byte, n, site int32) []byte {
	if int(n) <= len(b) {
		span(b, int(n), site, true)
	}
	return b
}

// Bl is the target of a blank assignment.
func Bl() *any { return new(any) }

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

// Inc is `*p += d` (++ and --).
func Inc[T number](p *T, site int32, d int) {
	v := R(p, site)
	if d > 0 {
		v++
	} else {
		v--
	}
	w(p, site)
	delay(p, site)
	*p = v
}

func mapAccess(p uintptr, site int32, write, fatal bool) {
	e := E
	if e == nil || e.killing || p == 0 {
		return
	}
	t := e.cur
	if e.isPoint(site) {
		e.point(t, opAlways, "map access at "+siteName(site))
		if e.tracing {
			e.tracef(t, "map access at "+siteName(site))
		}
	}
	if other := e.access(t, p, site, write, false); fatal && other >= 0 && !e.lenSite[other] {
		e.fail("maprace", "unordered accesses to a map (the Go runtime aborts the process): "+siteName(other)+" and "+siteName(site))
		e.stop()
	}
}

// MapLen announces len(m), which the runtime does not guard.
func MapLen[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if e := E; e != nil && !e.killing {
		if e.lenSite == nil {
			e.lenSite = map[int32]bool{}
		}
		e.lenSite[site] = true
	}
	mapAccess(*(*uintptr)(unsafe.Pointer(&m)), site, false, false)
	return m
}

// MapR announces a map read and returns the map.
func MapR[M ~map[K]V, K comparable, V any](m M, site int32) M {
	mapAccess(*(*uintptr)(unsafe.Pointer(&m)), site, false, true)
	return m
}

// MapW announces a map write and returns the map.
func MapW[M ~map[K]V, K comparable, V any](m M, site int32) M {
	mapAccess(*(*uintptr)(unsafe.Pointer(&m)), site, true, true)
	return m
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Atomic announces an atomic operation on an address and orders it.
func Atomic(p unsafe.Pointer, write bool, what string) {
	e := E
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		e.kop(t)
		return
	}
	if write {
		e.point(t, opAlways, what)
	} else {
		e.weakPoint(t, what)
	}
	e.access(t, uintptr(p), -1, write, true)
	if e.tracing {
		e.tracef(t, what+callerSite())
	}
	// sequentially consistent atomics synchronise both ways
	ac := e.atom[uintptr(p)]
	if ac != nil {
		t.acquire(ac)
	}
	if write {
		e.atom[uintptr(p)] = joinVC(append(VC(nil), ac...), t.release())
	}
}
