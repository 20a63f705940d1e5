package mc

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// MK registers a map key that has no natural order, so that ranging over the
// map is deterministic (insertion order).
func MK[M ~map[K]V, K comparable, V any](m M) func(K) K {
	return func(k K) K {
		e := E
		if e == nil || e.killing {
			return k
		}
		p := *(*uintptr)(unsafe.Pointer(&m))
		if e.mapSeq == nil {
			e.mapSeq = map[uintptr]map[any]int{}
		}
		s := e.mapSeq[p]
		if s == nil {
			s = map[any]int{}
			e.mapSeq[p] = s
		}
		if _, ok := m[k]; !ok {
			e.mapN++
			s[any(k)] = e.mapN
		}
		return k
	}
}

// Snap is the iteration state of a range over a map.
type Snap[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func (s *Snap[K, V]) Len() int       { return len(s.keys) }
func (s *Snap[K, V]) Has(i int) bool { _, ok := s.m[s.keys[i]]; return ok }
func (s *Snap[K, V]) K(i int) K      { return s.keys[i] }
func (s *Snap[K, V]) V(i int) V      { return s.m[s.keys[i]] }

// MapSnap starts a range over a map, in a deterministic order.
func MapSnap[M ~map[K]V, K comparable, V any](m M, site int32) *Snap[K, V] {
	mapAccess(*(*uintptr)(unsafe.Pointer(&m)), site, false, true)
	s := &Snap[K, V]{m: m}
	for k := range m {
		s.keys = append(s.keys, k)
	}
	if len(s.keys) < 2 {
		return s
	}
	switch kd := reflect.TypeOf(s.keys).Elem().Kind(); {
	case kd >= reflect.Int && kd <= reflect.Int64:
		sort.Slice(s.keys, func(i, j int) bool { return reflect.ValueOf(s.keys[i]).Int() < reflect.ValueOf(s.keys[j]).Int() })
	case kd >= reflect.Uint && kd <= reflect.Uintptr:
		sort.Slice(s.keys, func(i, j int) bool { return reflect.ValueOf(s.keys[i]).Uint() < reflect.ValueOf(s.keys[j]).Uint() })
	case kd == reflect.String:
		sort.Slice(s.keys, func(i, j int) bool { return reflect.ValueOf(s.keys[i]).String() < reflect.ValueOf(s.keys[j]).String() })
	default:
		var seq map[any]int
		if e := E; e != nil {
			seq = e.mapSeq[*(*uintptr)(unsafe.Pointer(&m))]
		}
		str := func(k K) string {
			if seq[any(k)] != 0 {
				return ""
			}
			return fmt.Sprint(k)
		}
		sort.Slice(s.keys, func(i, j int) bool {
			a, b := seq[any(s.keys[i])], seq[any(s.keys[j])]
			if a != b {
				return a < b
			}
			return str(s.keys[i]) < str(s.keys[j])
		})
	}
	return s
}
