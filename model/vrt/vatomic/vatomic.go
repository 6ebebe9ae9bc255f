// Package vatomic stands for sync/atomic: every operation is a scheduling point
// and then one indivisible (sequentially consistent) step.
package vatomic

import (
	"unsafe"

	"vrt/verif"
)

func AddInt32(p *int32, d int32) int32                 { verif.Yield(); *p += d; return *p }
func AddInt64(p *int64, d int64) int64                 { verif.Yield(); *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32             { verif.Yield(); *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64             { verif.Yield(); *p += d; return *p }
func AddUintptr(p *uintptr, d uintptr) uintptr         { verif.Yield(); *p += d; return *p }
func LoadInt32(p *int32) int32                         { verif.Yield(); return *p }
func LoadInt64(p *int64) int64                         { verif.Yield(); return *p }
func LoadUint32(p *uint32) uint32                      { verif.Yield(); return *p }
func LoadUint64(p *uint64) uint64                      { verif.Yield(); return *p }
func LoadUintptr(p *uintptr) uintptr                   { verif.Yield(); return *p }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { verif.Yield(); return *p }
func StoreInt32(p *int32, v int32)                     { verif.Yield(); *p = v }
func StoreInt64(p *int64, v int64)                     { verif.Yield(); *p = v }
func StoreUint32(p *uint32, v uint32)                  { verif.Yield(); *p = v }
func StoreUint64(p *uint64, v uint64)                  { verif.Yield(); *p = v }
func StoreUintptr(p *uintptr, v uintptr)               { verif.Yield(); *p = v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { verif.Yield(); *p = v }
func SwapInt32(p *int32, v int32) int32                { verif.Yield(); o := *p; *p = v; return o }
func SwapInt64(p *int64, v int64) int64                { verif.Yield(); o := *p; *p = v; return o }
func SwapUint32(p *uint32, v uint32) uint32            { verif.Yield(); o := *p; *p = v; return o }
func SwapUint64(p *uint64, v uint64) uint64            { verif.Yield(); o := *p; *p = v; return o }

func CompareAndSwapInt32(p *int32, o, n int32) bool {
	verif.Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	verif.Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	verif.Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	verif.Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	verif.Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

type Bool struct{ v bool }

func (x *Bool) Load() bool       { verif.Yield(); return x.v }
func (x *Bool) Store(v bool)     { verif.Yield(); x.v = v }
func (x *Bool) Swap(v bool) bool { verif.Yield(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	verif.Yield()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { verif.Yield(); return x.v }
func (x *Pointer[T]) Store(v *T)   { verif.Yield(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { verif.Yield(); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	verif.Yield()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{} { verif.Yield(); return x.v }
func (x *Value) Store(v interface{}) {
	verif.Yield()
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}
func (x *Value) Swap(v interface{}) interface{} { verif.Yield(); o := x.v; x.v = v; return o }
