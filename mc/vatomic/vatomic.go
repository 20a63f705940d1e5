// Package vatomic replaces package sync/atomic in instrumented code.
package vatomic

import (
	"unsafe"

	"verif/mc"
)

func LoadInt32(p *int32) int32 {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.LoadInt32")
	return *p
}

func StoreInt32(p *int32, v int32) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.StoreInt32")
	*p = v
}

func SwapInt32(p *int32, v int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.SwapInt32")
	o := *p
	*p = v
	return o
}

func CompareAndSwapInt32(p *int32, old, new int32) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CompareAndSwapInt32")
	if *p == old {
		*p = new
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AddInt32")
	*p += d
	return *p
}

func AndInt32(p *int32, m int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AndInt32")
	o := *p
	*p &= m
	return o
}

func OrInt32(p *int32, m int32) int32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.OrInt32")
	o := *p
	*p |= m
	return o
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64 {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.LoadInt64")
	return *p
}

func StoreInt64(p *int64, v int64) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.StoreInt64")
	*p = v
}

func SwapInt64(p *int64, v int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.SwapInt64")
	o := *p
	*p = v
	return o
}

func CompareAndSwapInt64(p *int64, old, new int64) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CompareAndSwapInt64")
	if *p == old {
		*p = new
		return true
	}
	return false
}

func AddInt64(p *int64, d int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AddInt64")
	*p += d
	return *p
}

func AndInt64(p *int64, m int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AndInt64")
	o := *p
	*p &= m
	return o
}

func OrInt64(p *int64, m int64) int64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.OrInt64")
	o := *p
	*p |= m
	return o
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.LoadUint32")
	return *p
}

func StoreUint32(p *uint32, v uint32) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.StoreUint32")
	*p = v
}

func SwapUint32(p *uint32, v uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.SwapUint32")
	o := *p
	*p = v
	return o
}

func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CompareAndSwapUint32")
	if *p == old {
		*p = new
		return true
	}
	return false
}

func AddUint32(p *uint32, d uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AddUint32")
	*p += d
	return *p
}

func AndUint32(p *uint32, m uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AndUint32")
	o := *p
	*p &= m
	return o
}

func OrUint32(p *uint32, m uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.OrUint32")
	o := *p
	*p |= m
	return o
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.LoadUint64")
	return *p
}

func StoreUint64(p *uint64, v uint64) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.StoreUint64")
	*p = v
}

func SwapUint64(p *uint64, v uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.SwapUint64")
	o := *p
	*p = v
	return o
}

func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CompareAndSwapUint64")
	if *p == old {
		*p = new
		return true
	}
	return false
}

func AddUint64(p *uint64, d uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AddUint64")
	*p += d
	return *p
}

func AndUint64(p *uint64, m uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AndUint64")
	o := *p
	*p &= m
	return o
}

func OrUint64(p *uint64, m uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.OrUint64")
	o := *p
	*p |= m
	return o
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.LoadUintptr")
	return *p
}

func StoreUintptr(p *uintptr, v uintptr) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.StoreUintptr")
	*p = v
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.SwapUintptr")
	o := *p
	*p = v
	return o
}

func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CompareAndSwapUintptr")
	if *p == old {
		*p = new
		return true
	}
	return false
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AddUintptr")
	*p += d
	return *p
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.AndUintptr")
	o := *p
	*p &= m
	return o
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.OrUintptr")
	o := *p
	*p |= m
	return o
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	mc.Atomic(unsafe.Pointer(p), false, "atomic.LoadPointer")
	return *p
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.StorePointer")
	*p = v
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.SwapPointer")
	o := *p
	*p = v
	return o
}

func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	mc.Atomic(unsafe.Pointer(p), true, "atomic.CompareAndSwapPointer")
	if *p == old {
		*p = new
		return true
	}
	return false
}

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

// Value is atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any {
	mc.Atomic(unsafe.Pointer(&x.v), false, "atomic.Value.Load")
	return x.v
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	mc.Atomic(unsafe.Pointer(&x.v), true, "atomic.Value.Store")
	x.v = v
}
func (x *Value) Swap(v any) any {
	mc.Atomic(unsafe.Pointer(&x.v), true, "atomic.Value.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(old, new any) bool {
	mc.Atomic(unsafe.Pointer(&x.v), true, "atomic.Value.CompareAndSwap")
	if x.v == old {
		x.v = new
		return true
	}
	return false
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T {
	mc.Atomic(unsafe.Pointer(&x.v), false, "atomic.Pointer.Load")
	return x.v
}
func (x *Pointer[T]) Store(v *T) {
	mc.Atomic(unsafe.Pointer(&x.v), true, "atomic.Pointer.Store")
	x.v = v
}
func (x *Pointer[T]) Swap(v *T) *T {
	mc.Atomic(unsafe.Pointer(&x.v), true, "atomic.Pointer.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	mc.Atomic(unsafe.Pointer(&x.v), true, "atomic.Pointer.CompareAndSwap")
	if x.v == old {
		x.v = new
		return true
	}
	return false
}
