// Package satomic replaces sync/atomic in code under simulation: the real
// operations, each preceded by a scheduling point.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/sim/simrt"
)

func op() { simrt.Op() }

func LoadInt32(p *int32) int32                      { op(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { op(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { op(); return atomic.SwapInt32(p, v) }
func AddInt32(p *int32, d int32) int32              { op(); return atomic.AddInt32(p, d) }
func CompareAndSwapInt32(p *int32, o, v int32) bool { op(); return atomic.CompareAndSwapInt32(p, o, v) }
func AndInt32(p *int32, v int32) int32              { op(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32               { op(); return atomic.OrInt32(p, v) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { op(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { op(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { op(); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32              { op(); return x.v.Add(d) }
func (x *Int32) CompareAndSwap(o, v int32) bool { op(); return x.v.CompareAndSwap(o, v) }
func (x *Int32) And(v int32) int32              { op(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { op(); return x.v.Or(v) }

func LoadInt64(p *int64) int64                      { op(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { op(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { op(); return atomic.SwapInt64(p, v) }
func AddInt64(p *int64, d int64) int64              { op(); return atomic.AddInt64(p, d) }
func CompareAndSwapInt64(p *int64, o, v int64) bool { op(); return atomic.CompareAndSwapInt64(p, o, v) }
func AndInt64(p *int64, v int64) int64              { op(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64               { op(); return atomic.OrInt64(p, v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { op(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { op(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { op(); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64              { op(); return x.v.Add(d) }
func (x *Int64) CompareAndSwap(o, v int64) bool { op(); return x.v.CompareAndSwap(o, v) }
func (x *Int64) And(v int64) int64              { op(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { op(); return x.v.Or(v) }

func LoadUint32(p *uint32) uint32           { op(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { op(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { op(); return atomic.SwapUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { op(); return atomic.AddUint32(p, d) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	op()
	return atomic.CompareAndSwapUint32(p, o, v)
}
func AndUint32(p *uint32, v uint32) uint32 { op(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { op(); return atomic.OrUint32(p, v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { op(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { op(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { op(); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32             { op(); return x.v.Add(d) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { op(); return x.v.CompareAndSwap(o, v) }
func (x *Uint32) And(v uint32) uint32             { op(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { op(); return x.v.Or(v) }

func LoadUint64(p *uint64) uint64           { op(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { op(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { op(); return atomic.SwapUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { op(); return atomic.AddUint64(p, d) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	op()
	return atomic.CompareAndSwapUint64(p, o, v)
}
func AndUint64(p *uint64, v uint64) uint64 { op(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { op(); return atomic.OrUint64(p, v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { op(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { op(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { op(); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64             { op(); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { op(); return x.v.CompareAndSwap(o, v) }
func (x *Uint64) And(v uint64) uint64             { op(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { op(); return x.v.Or(v) }

func LoadUintptr(p *uintptr) uintptr            { op(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { op(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { op(); return atomic.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { op(); return atomic.AddUintptr(p, d) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	op()
	return atomic.CompareAndSwapUintptr(p, o, v)
}
func AndUintptr(p *uintptr, v uintptr) uintptr { op(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { op(); return atomic.OrUintptr(p, v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { op(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { op(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { op(); return x.v.Swap(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { op(); return x.v.Add(d) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { op(); return x.v.CompareAndSwap(o, v) }
func (x *Uintptr) And(v uintptr) uintptr            { op(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { op(); return x.v.Or(v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { op(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { op(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	op()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	op()
	return atomic.CompareAndSwapPointer(p, o, v)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { op(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { op(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { op(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { op(); return x.v.CompareAndSwap(o, v) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { op(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { op(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { op(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { op(); return x.v.CompareAndSwap(o, v) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { op(); return x.v.Load() }
func (x *Value) Store(v any)                  { op(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { op(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { op(); return x.v.CompareAndSwap(o, v) }
