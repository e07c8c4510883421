// Package vatomic stands in for sync/atomic under the simulator.
package vatomic

import (
	"unsafe"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func sync(p unsafe.Pointer) {
	vsim.Op("atomic")
	w := vsim.W
	if w == nil {
		return
	}
	m, _ := w.Vals["atomics"].(map[unsafe.Pointer]*vsim.Clock)
	if m == nil {
		m = map[unsafe.Pointer]*vsim.Clock{}
		w.Vals["atomics"] = m
	}
	c := m[p]
	if c == nil {
		c = &vsim.Clock{}
		m[p] = c
	}
	vsim.Acquire(c)
	vsim.Release(c)
}

// stamp makes package variables start every run with the value they had before
// the first one, as in a fresh process.
type stamp struct{ run uint64 }

func (s *stamp) at(keep, reset func()) {
	if n := vsim.Serial; vsim.W != nil && s.run != n {
		if s.run == 0 {
			keep()
		} else {
			reset()
		}
		s.run = n
	}
}

type Bool struct {
	v, first bool
	s        stamp
}

func (x *Bool) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Bool) Load() bool       { x.at(); return x.v }
func (x *Bool) Store(v bool)     { x.at(); x.v = v }
func (x *Bool) Swap(v bool) bool { x.at(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

type Pointer[T any] struct {
	_        [0]*T
	v, first *T
	s        stamp
}

func (x *Pointer[T]) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Pointer[T]) Load() *T     { x.at(); return x.v }
func (x *Pointer[T]) Store(v *T)   { x.at(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { x.at(); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

type Value struct {
	v, first any
	s        stamp
}

func (x *Value) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Value) Load() any { x.at(); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.at()
	x.v = v
}
func (x *Value) Swap(v any) any { x.at(); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

type Int32 struct {
	v, first int32
	s        stamp
}

func (x *Int32) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Int32) Load() int32        { x.at(); return x.v }
func (x *Int32) Store(v int32)      { x.at(); x.v = v }
func (x *Int32) Add(d int32) int32  { x.at(); x.v += d; return x.v }
func (x *Int32) Swap(v int32) int32 { x.at(); o := x.v; x.v = v; return o }
func (x *Int32) And(m int32) int32  { x.at(); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32   { x.at(); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadInt32(p *int32) int32          { sync(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)      { sync(unsafe.Pointer(p)); *p = v }
func AddInt32(p *int32, d int32) int32  { sync(unsafe.Pointer(p)); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { sync(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sync(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int64 struct {
	v, first int64
	s        stamp
}

func (x *Int64) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Int64) Load() int64        { x.at(); return x.v }
func (x *Int64) Store(v int64)      { x.at(); x.v = v }
func (x *Int64) Add(d int64) int64  { x.at(); x.v += d; return x.v }
func (x *Int64) Swap(v int64) int64 { x.at(); o := x.v; x.v = v; return o }
func (x *Int64) And(m int64) int64  { x.at(); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64   { x.at(); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadInt64(p *int64) int64          { sync(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64)      { sync(unsafe.Pointer(p)); *p = v }
func AddInt64(p *int64, d int64) int64  { sync(unsafe.Pointer(p)); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { sync(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sync(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint32 struct {
	v, first uint32
	s        stamp
}

func (x *Uint32) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Uint32) Load() uint32         { x.at(); return x.v }
func (x *Uint32) Store(v uint32)       { x.at(); x.v = v }
func (x *Uint32) Add(d uint32) uint32  { x.at(); x.v += d; return x.v }
func (x *Uint32) Swap(v uint32) uint32 { x.at(); o := x.v; x.v = v; return o }
func (x *Uint32) And(m uint32) uint32  { x.at(); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32   { x.at(); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadUint32(p *uint32) uint32           { sync(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32)       { sync(unsafe.Pointer(p)); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { sync(unsafe.Pointer(p)); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { sync(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sync(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint64 struct {
	v, first uint64
	s        stamp
}

func (x *Uint64) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Uint64) Load() uint64         { x.at(); return x.v }
func (x *Uint64) Store(v uint64)       { x.at(); x.v = v }
func (x *Uint64) Add(d uint64) uint64  { x.at(); x.v += d; return x.v }
func (x *Uint64) Swap(v uint64) uint64 { x.at(); o := x.v; x.v = v; return o }
func (x *Uint64) And(m uint64) uint64  { x.at(); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64   { x.at(); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadUint64(p *uint64) uint64           { sync(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64)       { sync(unsafe.Pointer(p)); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { sync(unsafe.Pointer(p)); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { sync(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sync(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uintptr struct {
	v, first uintptr
	s        stamp
}

func (x *Uintptr) at() {
	sync(unsafe.Pointer(x))
	x.s.at(func() { x.first = x.v }, func() { x.v = x.first })
}

func (x *Uintptr) Load() uintptr          { x.at(); return x.v }
func (x *Uintptr) Store(v uintptr)        { x.at(); x.v = v }
func (x *Uintptr) Add(d uintptr) uintptr  { x.at(); x.v += d; return x.v }
func (x *Uintptr) Swap(v uintptr) uintptr { x.at(); o := x.v; x.v = v; return o }
func (x *Uintptr) And(m uintptr) uintptr  { x.at(); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr   { x.at(); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	x.at()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadUintptr(p *uintptr) uintptr            { sync(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { sync(unsafe.Pointer(p)); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { sync(unsafe.Pointer(p)); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sync(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sync(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}
