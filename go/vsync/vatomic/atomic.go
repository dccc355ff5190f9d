// Package vatomic replaces package sync/atomic in the code under test: every
// operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"
	"verif/vsync"
)

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsync.Point(); return x.v.Load() }
func (x *Value) Store(v any)                  { vsync.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vsync.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsync.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vsync.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsync.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsync.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsync.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsync.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { vsync.Point(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { vsync.Point(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsync.Point()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, v unsafe.Pointer) bool {
	vsync.Point()
	return atomic.CompareAndSwapPointer(a, o, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vsync.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vsync.Point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vsync.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }
func (x *Int32) Add(v int32) int32              { vsync.Point(); return x.v.Add(v) }

func LoadInt32(a *int32) int32          { vsync.Point(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { vsync.Point(); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { vsync.Point(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, v int32) bool {
	vsync.Point()
	return atomic.CompareAndSwapInt32(a, o, v)
}
func AddInt32(a *int32, v int32) int32 { vsync.Point(); return atomic.AddInt32(a, v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vsync.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vsync.Point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vsync.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }
func (x *Int64) Add(v int64) int64              { vsync.Point(); return x.v.Add(v) }

func LoadInt64(a *int64) int64          { vsync.Point(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { vsync.Point(); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { vsync.Point(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, v int64) bool {
	vsync.Point()
	return atomic.CompareAndSwapInt64(a, o, v)
}
func AddInt64(a *int64, v int64) int64 { vsync.Point(); return atomic.AddInt64(a, v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsync.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vsync.Point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vsync.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }
func (x *Uint32) Add(v uint32) uint32             { vsync.Point(); return x.v.Add(v) }

func LoadUint32(a *uint32) uint32           { vsync.Point(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { vsync.Point(); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { vsync.Point(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, v uint32) bool {
	vsync.Point()
	return atomic.CompareAndSwapUint32(a, o, v)
}
func AddUint32(a *uint32, v uint32) uint32 { vsync.Point(); return atomic.AddUint32(a, v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsync.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vsync.Point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vsync.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }
func (x *Uint64) Add(v uint64) uint64             { vsync.Point(); return x.v.Add(v) }

func LoadUint64(a *uint64) uint64           { vsync.Point(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { vsync.Point(); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { vsync.Point(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, v uint64) bool {
	vsync.Point()
	return atomic.CompareAndSwapUint64(a, o, v)
}
func AddUint64(a *uint64, v uint64) uint64 { vsync.Point(); return atomic.AddUint64(a, v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vsync.Point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vsync.Point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vsync.Point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { vsync.Point(); return x.v.CompareAndSwap(o, v) }
func (x *Uintptr) Add(v uintptr) uintptr            { vsync.Point(); return x.v.Add(v) }

func LoadUintptr(a *uintptr) uintptr            { vsync.Point(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { vsync.Point(); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { vsync.Point(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, v uintptr) bool {
	vsync.Point()
	return atomic.CompareAndSwapUintptr(a, o, v)
}
func AddUintptr(a *uintptr, v uintptr) uintptr { vsync.Point(); return atomic.AddUintptr(a, v) }
