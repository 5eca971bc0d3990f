// Package atomic is sync/atomic with a scheduling point before each operation.
package atomic

import (
	ratomic "sync/atomic"
	"unsafe"

	"vsim/rt"
)

type Int32 struct{ v ratomic.Int32 }

func (x *Int32) Load() int32                    { rt.Hot(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { rt.Hot(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { rt.Hot(); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32              { rt.Hot(); return x.v.Add(n) }
func (x *Int32) And(n int32) int32              { rt.Hot(); return x.v.And(n) }
func (x *Int32) Or(n int32) int32               { rt.Hot(); return x.v.Or(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }
func LoadInt32(p *int32) int32                  { rt.Hot(); return ratomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)              { rt.Hot(); ratomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32         { rt.Hot(); return ratomic.SwapInt32(p, n) }
func AddInt32(p *int32, n int32) int32          { rt.Hot(); return ratomic.AddInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.Hot()
	return ratomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v ratomic.Int64 }

func (x *Int64) Load() int64                    { rt.Hot(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { rt.Hot(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { rt.Hot(); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64              { rt.Hot(); return x.v.Add(n) }
func (x *Int64) And(n int64) int64              { rt.Hot(); return x.v.And(n) }
func (x *Int64) Or(n int64) int64               { rt.Hot(); return x.v.Or(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }
func LoadInt64(p *int64) int64                  { rt.Hot(); return ratomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)              { rt.Hot(); ratomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64         { rt.Hot(); return ratomic.SwapInt64(p, n) }
func AddInt64(p *int64, n int64) int64          { rt.Hot(); return ratomic.AddInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.Hot()
	return ratomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v ratomic.Uint32 }

func (x *Uint32) Load() uint32                    { rt.Hot(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { rt.Hot(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { rt.Hot(); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32             { rt.Hot(); return x.v.Add(n) }
func (x *Uint32) And(n uint32) uint32             { rt.Hot(); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32              { rt.Hot(); return x.v.Or(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }
func LoadUint32(p *uint32) uint32                 { rt.Hot(); return ratomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)             { rt.Hot(); ratomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32       { rt.Hot(); return ratomic.SwapUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32        { rt.Hot(); return ratomic.AddUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.Hot()
	return ratomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v ratomic.Uint64 }

func (x *Uint64) Load() uint64                    { rt.Hot(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { rt.Hot(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { rt.Hot(); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64             { rt.Hot(); return x.v.Add(n) }
func (x *Uint64) And(n uint64) uint64             { rt.Hot(); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64              { rt.Hot(); return x.v.Or(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }
func LoadUint64(p *uint64) uint64                 { rt.Hot(); return ratomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)             { rt.Hot(); ratomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64       { rt.Hot(); return ratomic.SwapUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64        { rt.Hot(); return ratomic.AddUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.Hot()
	return ratomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v ratomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { rt.Hot(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { rt.Hot(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { rt.Hot(); return x.v.Swap(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { rt.Hot(); return x.v.Add(n) }
func (x *Uintptr) And(n uintptr) uintptr            { rt.Hot(); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr             { rt.Hot(); return x.v.Or(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }
func LoadUintptr(p *uintptr) uintptr                { rt.Hot(); return ratomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)            { rt.Hot(); ratomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr     { rt.Hot(); return ratomic.SwapUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr      { rt.Hot(); return ratomic.AddUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.Hot()
	return ratomic.CompareAndSwapUintptr(p, o, n)
}

type Bool struct{ v ratomic.Bool }

func (x *Bool) Load() bool                    { rt.Hot(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { rt.Hot(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { rt.Hot(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v ratomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { rt.Hot(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { rt.Hot(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { rt.Hot(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v ratomic.Value }

func (x *Value) Load() any                    { rt.Hot(); return x.v.Load() }
func (x *Value) Store(n any)                  { rt.Hot(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { rt.Hot(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { rt.Hot(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.Hot(); return ratomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { rt.Hot(); ratomic.StorePointer(p, n) }
