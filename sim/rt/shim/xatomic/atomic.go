// Package atomic is the simulated counterpart of the standard package: a scheduling point before every operation.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

var _ unsafe.Pointer

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                        { simrt.YH(-9); return x.v.Load() }
func (x *Value) Store(v any)                      { simrt.YH(-9); x.v.Store(v) }
func (x *Value) Swap(v any) any                   { simrt.YH(-9); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(old, new any) bool { simrt.YH(-9); return x.v.CompareAndSwap(old, new) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { simrt.YH(-9); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { simrt.YH(-9); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { simrt.YH(-9); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	simrt.YH(-9)
	return x.v.CompareAndSwap(old, new)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                        { simrt.YH(-9); return x.v.Load() }
func (x *Bool) Store(v bool)                      { simrt.YH(-9); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool                  { simrt.YH(-9); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(old, new bool) bool { simrt.YH(-9); return x.v.CompareAndSwap(old, new) }

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { simrt.YH(-9); return x.v.Load() }
func (x *Int32) Store(v int32)      { simrt.YH(-9); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { simrt.YH(-9); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32 { simrt.YH(-9); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(old, new int32) bool {
	simrt.YH(-9)
	return x.v.CompareAndSwap(old, new)
}

func LoadInt32(p *int32) int32          { simrt.YH(-9); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.YH(-9); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { simrt.YH(-9); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { simrt.YH(-9); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	simrt.YH(-9)
	return atomic.CompareAndSwapInt32(p, old, new)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { simrt.YH(-9); return x.v.Load() }
func (x *Int64) Store(v int64)      { simrt.YH(-9); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { simrt.YH(-9); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64 { simrt.YH(-9); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(old, new int64) bool {
	simrt.YH(-9)
	return x.v.CompareAndSwap(old, new)
}

func LoadInt64(p *int64) int64          { simrt.YH(-9); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.YH(-9); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { simrt.YH(-9); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { simrt.YH(-9); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	simrt.YH(-9)
	return atomic.CompareAndSwapInt64(p, old, new)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { simrt.YH(-9); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { simrt.YH(-9); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { simrt.YH(-9); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { simrt.YH(-9); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool {
	simrt.YH(-9)
	return x.v.CompareAndSwap(old, new)
}

func LoadUint32(p *uint32) uint32           { simrt.YH(-9); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.YH(-9); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { simrt.YH(-9); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.YH(-9); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	simrt.YH(-9)
	return atomic.CompareAndSwapUint32(p, old, new)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { simrt.YH(-9); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { simrt.YH(-9); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { simrt.YH(-9); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { simrt.YH(-9); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool {
	simrt.YH(-9)
	return x.v.CompareAndSwap(old, new)
}

func LoadUint64(p *uint64) uint64           { simrt.YH(-9); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.YH(-9); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { simrt.YH(-9); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.YH(-9); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	simrt.YH(-9)
	return atomic.CompareAndSwapUint64(p, old, new)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { simrt.YH(-9); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { simrt.YH(-9); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { simrt.YH(-9); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { simrt.YH(-9); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	simrt.YH(-9)
	return x.v.CompareAndSwap(old, new)
}

func LoadUintptr(p *uintptr) uintptr            { simrt.YH(-9); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.YH(-9); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { simrt.YH(-9); return atomic.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.YH(-9); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	simrt.YH(-9)
	return atomic.CompareAndSwapUintptr(p, old, new)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.YH(-9); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.YH(-9); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.YH(-9)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	simrt.YH(-9)
	return atomic.CompareAndSwapPointer(p, old, new)
}

func (x *Int32) And(m int32) int32 { simrt.YH(-9); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { simrt.YH(-9); return x.v.Or(m) }

func AndInt32(p *int32, m int32) int32 { simrt.YH(-9); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { simrt.YH(-9); return atomic.OrInt32(p, m) }

func (x *Int64) And(m int64) int64 { simrt.YH(-9); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { simrt.YH(-9); return x.v.Or(m) }

func AndInt64(p *int64, m int64) int64 { simrt.YH(-9); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { simrt.YH(-9); return atomic.OrInt64(p, m) }

func (x *Uint32) And(m uint32) uint32 { simrt.YH(-9); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { simrt.YH(-9); return x.v.Or(m) }

func AndUint32(p *uint32, m uint32) uint32 { simrt.YH(-9); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { simrt.YH(-9); return atomic.OrUint32(p, m) }

func (x *Uint64) And(m uint64) uint64 { simrt.YH(-9); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { simrt.YH(-9); return x.v.Or(m) }

func AndUint64(p *uint64, m uint64) uint64 { simrt.YH(-9); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { simrt.YH(-9); return atomic.OrUint64(p, m) }

func (x *Uintptr) And(m uintptr) uintptr { simrt.YH(-9); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { simrt.YH(-9); return x.v.Or(m) }

func AndUintptr(p *uintptr, m uintptr) uintptr { simrt.YH(-9); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { simrt.YH(-9); return atomic.OrUintptr(p, m) }
