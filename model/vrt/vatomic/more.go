package vatomic

import (
	"unsafe"

	"vrt/verif"
)

func SwapUintptr(p *uintptr, v uintptr) uintptr { verif.Yield(); o := *p; *p = v; return o }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	verif.Yield()
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	verif.Yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func (x *Int32) And(m int32) int32    { verif.Yield(); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32     { verif.Yield(); o := x.v; x.v |= m; return o }
func (x *Int64) And(m int64) int64    { verif.Yield(); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64     { verif.Yield(); o := x.v; x.v |= m; return o }
func (x *Uint32) And(m uint32) uint32 { verif.Yield(); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32  { verif.Yield(); o := x.v; x.v |= m; return o }
func (x *Uint64) And(m uint64) uint64 { verif.Yield(); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64  { verif.Yield(); o := x.v; x.v |= m; return o }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)        { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr  { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	return CompareAndSwapUintptr(&x.v, o, n)
}

func (x *Value) CompareAndSwap(o, n interface{}) bool {
	verif.Yield()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
