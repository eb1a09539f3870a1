// Package vatomic stands in for package sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	zz "github.com/spacemonkeygo/monkit/v3/zzvsched"
)

func LoadInt32(a *int32) int32          { zz.Sync(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { zz.Sync(); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { zz.Sync(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	zz.Sync()
	return atomic.CompareAndSwapInt32(a, o, n)
}
func AddInt32(a *int32, d int32) int32  { zz.Sync(); return atomic.AddInt32(a, d) }
func LoadInt64(a *int64) int64          { zz.Sync(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { zz.Sync(); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { zz.Sync(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	zz.Sync()
	return atomic.CompareAndSwapInt64(a, o, n)
}
func AddInt64(a *int64, d int64) int64      { zz.Sync(); return atomic.AddInt64(a, d) }
func LoadUint32(a *uint32) uint32           { zz.Sync(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { zz.Sync(); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { zz.Sync(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	zz.Sync()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AddUint32(a *uint32, d uint32) uint32  { zz.Sync(); return atomic.AddUint32(a, d) }
func LoadUint64(a *uint64) uint64           { zz.Sync(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { zz.Sync(); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { zz.Sync(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	zz.Sync()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AddUint64(a *uint64, d uint64) uint64      { zz.Sync(); return atomic.AddUint64(a, d) }
func LoadUintptr(a *uintptr) uintptr            { zz.Sync(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { zz.Sync(); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { zz.Sync(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	zz.Sync()
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AddUintptr(a *uintptr, d uintptr) uintptr         { zz.Sync(); return atomic.AddUintptr(a, d) }
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { zz.Sync(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { zz.Sync(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	zz.Sync()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	zz.Sync()
	return atomic.CompareAndSwapPointer(a, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { zz.Sync(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { zz.Sync(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { zz.Sync(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { zz.Sync(); return x.v.Add(d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { zz.Sync(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { zz.Sync(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { zz.Sync(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { zz.Sync(); return x.v.Add(d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { zz.Sync(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { zz.Sync(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { zz.Sync(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { zz.Sync(); return x.v.Add(d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { zz.Sync(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { zz.Sync(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { zz.Sync(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { zz.Sync(); return x.v.Add(d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { zz.Sync(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { zz.Sync(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { zz.Sync(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { zz.Sync(); return x.v.Add(d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { zz.Sync(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { zz.Sync(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { zz.Sync(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { zz.Sync(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { zz.Sync(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { zz.Sync(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { zz.Sync(); return x.v.Load() }
func (x *Value) Store(v any)                  { zz.Sync(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { zz.Sync(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { zz.Sync(); return x.v.CompareAndSwap(o, n) }
