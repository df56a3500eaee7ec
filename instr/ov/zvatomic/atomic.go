// Package atomic replaces the standard package in instrumented builds: the same
// operations, with a scheduling point before each.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"github.com/peterbourgon/trc/zvsched"
)

type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32                    { zvsched.Y(0); return x.v.Load() }
func (x *Int32) Store(v int32)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { zvsched.Y(0); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32              { zvsched.Y(0); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { zvsched.Y(0); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { zvsched.Y(0); return x.v.Or(d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { zvsched.Y(0); return ra.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { zvsched.Y(0); ra.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { zvsched.Y(0); return ra.SwapInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { zvsched.Y(0); return ra.AddInt32(p, d) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	zvsched.Y(0)
	return ra.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64                    { zvsched.Y(0); return x.v.Load() }
func (x *Int64) Store(v int64)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { zvsched.Y(0); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64              { zvsched.Y(0); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { zvsched.Y(0); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { zvsched.Y(0); return x.v.Or(d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { zvsched.Y(0); return ra.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { zvsched.Y(0); ra.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { zvsched.Y(0); return ra.SwapInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { zvsched.Y(0); return ra.AddInt64(p, d) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	zvsched.Y(0)
	return ra.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32                    { zvsched.Y(0); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { zvsched.Y(0); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32             { zvsched.Y(0); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { zvsched.Y(0); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { zvsched.Y(0); return x.v.Or(d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { zvsched.Y(0); return ra.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { zvsched.Y(0); ra.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { zvsched.Y(0); return ra.SwapUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { zvsched.Y(0); return ra.AddUint32(p, d) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	zvsched.Y(0)
	return ra.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64                    { zvsched.Y(0); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { zvsched.Y(0); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64             { zvsched.Y(0); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { zvsched.Y(0); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { zvsched.Y(0); return x.v.Or(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { zvsched.Y(0); return ra.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { zvsched.Y(0); ra.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { zvsched.Y(0); return ra.SwapUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { zvsched.Y(0); return ra.AddUint64(p, d) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	zvsched.Y(0)
	return ra.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v ra.Uintptr }

func (x *Uintptr) Load() uintptr                    { zvsched.Y(0); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { zvsched.Y(0); return x.v.Swap(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { zvsched.Y(0); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr            { zvsched.Y(0); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr             { zvsched.Y(0); return x.v.Or(d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { zvsched.Y(0); return ra.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { zvsched.Y(0); ra.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { zvsched.Y(0); return ra.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { zvsched.Y(0); return ra.AddUintptr(p, d) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	zvsched.Y(0)
	return ra.CompareAndSwapUintptr(p, o, n)
}

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { zvsched.Y(0); return x.v.Load() }
func (x *Bool) Store(v bool)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { zvsched.Y(0); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

type Value struct{ v ra.Value }

func (x *Value) Load() any                    { zvsched.Y(0); return x.v.Load() }
func (x *Value) Store(v any)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Value) Swap(v any) any               { zvsched.Y(0); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { zvsched.Y(0); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { zvsched.Y(0); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { zvsched.Y(0); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { zvsched.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { zvsched.Y(0); return ra.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { zvsched.Y(0); ra.StorePointer(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	zvsched.Y(0)
	return ra.CompareAndSwapPointer(p, o, n)
}
