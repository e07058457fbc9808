// Package atomic stands in for sync/atomic in rewritten packages: the same operations,
// each with a scheduling point before it and its happens-before edges.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"gxv/sched"
)

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func load[T any](p *T) T {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(p))
	return *p
}
func store[T comparable](p *T, v T) {
	sched.Atomic()
	sched.Release(unsafe.Pointer(p))
	if *p != v {
		*p = v
		sched.Changed()
	}
}
func swap[T comparable](p *T, v T) T {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(p))
	sched.Release(unsafe.Pointer(p))
	o := *p
	if o != v {
		*p = v
		sched.Changed()
	}
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	sched.Release(unsafe.Pointer(p))
	if o != n {
		*p = n
		sched.Changed()
	}
	return true
}
func add[T num](p *T, d T) T {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(p))
	sched.Release(unsafe.Pointer(p))
	if d != 0 {
		*p += d
		sched.Changed()
	}
	return *p
}
func and[T num](p *T, d T) T {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(p))
	sched.Release(unsafe.Pointer(p))
	o := *p
	*p &= d
	if o != *p {
		sched.Changed()
	}
	return o
}
func or[T num](p *T, d T) T {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(p))
	sched.Release(unsafe.Pointer(p))
	o := *p
	*p |= d
	if o != *p {
		sched.Changed()
	}
	return o
}

func LoadInt32(p *int32) int32                      { return load(p) }
func StoreInt32(p *int32, v int32)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32             { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, o, n) }
func AddInt32(p *int32, d int32) int32              { return add(p, d) }
func AndInt32(p *int32, d int32) int32              { return and(p, d) }
func OrInt32(p *int32, d int32) int32               { return or(p, d) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return load(&x.v) }
func (x *Int32) Store(v int32)                  { store(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return swap(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return cas(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return add(&x.v, d) }
func (x *Int32) And(d int32) int32              { return and(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return or(&x.v, d) }

func LoadInt64(p *int64) int64                      { return load(p) }
func StoreInt64(p *int64, v int64)                  { store(p, v) }
func SwapInt64(p *int64, v int64) int64             { return swap(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, o, n) }
func AddInt64(p *int64, d int64) int64              { return add(p, d) }
func AndInt64(p *int64, d int64) int64              { return and(p, d) }
func OrInt64(p *int64, d int64) int64               { return or(p, d) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return load(&x.v) }
func (x *Int64) Store(v int64)                  { store(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return swap(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return cas(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return add(&x.v, d) }
func (x *Int64) And(d int64) int64              { return and(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return or(&x.v, d) }

func LoadUint32(p *uint32) uint32                      { return load(p) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AndUint32(p *uint32, d uint32) uint32             { return and(p, d) }
func OrUint32(p *uint32, d uint32) uint32              { return or(p, d) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return load(&x.v) }
func (x *Uint32) Store(v uint32)                  { store(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return swap(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return cas(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return add(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return and(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return or(&x.v, d) }

func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func AndUint64(p *uint64, d uint64) uint64             { return and(p, d) }
func OrUint64(p *uint64, d uint64) uint64              { return or(p, d) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return load(&x.v) }
func (x *Uint64) Store(v uint64)                  { store(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return swap(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return cas(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return add(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return and(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return or(&x.v, d) }

func LoadUintptr(p *uintptr) uintptr                      { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                  { store(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func AddUintptr(p *uintptr, d uintptr) uintptr            { return add(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr            { return and(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr             { return or(p, d) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return load(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { store(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return swap(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return cas(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return add(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return and(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return or(&x.v, d) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }

type Value struct{ v ra.Value }

func (x *Value) Load() any {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(x))
	return x.v.Load()
}
func (x *Value) Store(v any) {
	sched.Atomic()
	sched.Release(unsafe.Pointer(x))
	x.v.Store(v)
	sched.Changed()
}
func (x *Value) Swap(v any) any {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(x))
	sched.Release(unsafe.Pointer(x))
	sched.Changed()
	return x.v.Swap(v)
}
func (x *Value) CompareAndSwap(o, n any) bool {
	sched.Atomic()
	sched.Acquire(unsafe.Pointer(x))
	if x.v.CompareAndSwap(o, n) {
		sched.Release(unsafe.Pointer(x))
		sched.Changed()
		return true
	}
	return false
}
